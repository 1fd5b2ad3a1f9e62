#include "redirect.hpp"

#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace redirect
{
struct Entry
{
    char from[64];
    char to[256];
};
static Entry gMap[8];
static int gN = 0;
void map(const std::string& prefix, const std::string& to)
{
    if (gN < 8 && prefix.size() < sizeof gMap[0].from && to.size() < sizeof gMap[0].to)
    {
        std::strcpy(gMap[gN].from, prefix.c_str());
        std::strcpy(gMap[gN].to, to.c_str());
        ++gN;
    }
}
void clear()
{
    gN = 0;
}
// Where p really is; buf is used when that is elsewhere.
static const char* real(const char* p, char (&buf)[1024])
{
    if (!p || *p != '/')
        return p;
    for (int k = 0; k < gN; ++k)
    {
        size_t n = std::strlen(gMap[k].from);
        if (std::strncmp(p, gMap[k].from, n) != 0)
            continue;
        // a prefix ending in '.' stands for a family of names
        if (p[n] != '\0' && p[n] != '/' && gMap[k].from[n - 1] != '.')
            continue;
        if (std::strlen(gMap[k].to) + std::strlen(p + n) + 1 > sizeof buf)
            return p;
        std::strcpy(buf, gMap[k].to);
        std::strcat(buf, p + n);
        return buf;
    }
    return p;
}
template <typename F>
static F next(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
} // namespace redirect
using redirect::next;
using redirect::real;

#define NEXT(ret, name, ...) \
    static auto fn = next<ret (*)(__VA_ARGS__)>(#name); \
    char buf[1024]

extern "C"
{
FILE* fopen(const char* p, const char* m)
{
    NEXT(FILE*, fopen, const char*, const char*);
    return fn(real(p, buf), m);
}
FILE* fopen64(const char* p, const char* m)
{
    NEXT(FILE*, fopen64, const char*, const char*);
    return fn(real(p, buf), m);
}
int open(const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    NEXT(int, open, const char*, int, ...);
    return fn(real(p, buf), flags, mode);
}
int open64(const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    NEXT(int, open64, const char*, int, ...);
    return fn(real(p, buf), flags, mode);
}
int openat(int d, const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    NEXT(int, openat, int, const char*, int, ...);
    return fn(d, real(p, buf), flags, mode);
}
int stat(const char* p, struct stat* s)
{
    NEXT(int, stat, const char*, struct stat*);
    return fn(real(p, buf), s);
}
int stat64(const char* p, struct stat64* s)
{
    NEXT(int, stat64, const char*, struct stat64*);
    return fn(real(p, buf), s);
}
int lstat(const char* p, struct stat* s)
{
    NEXT(int, lstat, const char*, struct stat*);
    return fn(real(p, buf), s);
}
int lstat64(const char* p, struct stat64* s)
{
    NEXT(int, lstat64, const char*, struct stat64*);
    return fn(real(p, buf), s);
}
int access(const char* p, int m)
{
    NEXT(int, access, const char*, int);
    return fn(real(p, buf), m);
}
DIR* opendir(const char* p)
{
    NEXT(DIR*, opendir, const char*);
    return fn(real(p, buf));
}
}

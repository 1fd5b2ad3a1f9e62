#include "loop.hpp"

#include "vclock.hpp"

#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace loop
{
std::function<bool(int64_t)> onIdle;
static int gPipes[16][2];
static int gN = 0;
void privatePipes()
{
    for (int k = 0; k < gN; ++k)
    {
        int p[2];
        if (syscall(SYS_pipe2, p, O_NONBLOCK) != 0)
            _exit(99);
        dup2(p[0], gPipes[k][0]);
        dup2(p[1], gPipes[k][1]);
        close(p[0]);
        close(p[1]);
    }
}
static int realSelect(int n, fd_set* r, fd_set* w, fd_set* e, const timespec* t)
{
    return static_cast<int>(syscall(SYS_pselect6, n, r, w, e, t, nullptr));
}
} // namespace loop

extern "C" int pipe(int* fds)
{
    int rc = static_cast<int>(syscall(SYS_pipe2, fds, 0));
    if (rc == 0 && !loop::onIdle && loop::gN < 16)
    {
        loop::gPipes[loop::gN][0] = fds[0];
        loop::gPipes[loop::gN][1] = fds[1];
        ++loop::gN;
    }
    return rc;
}

extern "C" int select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* tv)
{
    if (!loop::onIdle || !vclock::on())
    {
        timespec t{};
        if (tv)
        {
            t.tv_sec = tv->tv_sec;
            t.tv_nsec = tv->tv_usec * 1000;
        }
        return loop::realSelect(n, r, w, e, tv ? &t : nullptr);
    }
    int64_t wait = tv ? tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll : 300000000000ll;
    int64_t deadline = vclock::now() + wait;
    fd_set in[3];
    fd_set* set[3] = {r, w, e};
    for (int k = 0; k < 3; ++k)
        if (set[k])
            in[k] = *set[k];
    for (;;)
    {
        for (int k = 0; k < 3; ++k)
            if (set[k])
                *set[k] = in[k];
        timespec zero{};
        int rc = loop::realSelect(n, r, w, e, &zero);
        if (rc != 0 || wait == 0)
            return rc;
        if (!loop::onIdle(deadline))
        {
            if (vclock::now() < deadline)
                vclock::set(deadline);
            return 0; // the sets are empty
        }
        if (vclock::now() >= deadline)
            deadline = vclock::now();
    }
}

// The whole daemon, main() included, in a child process: on a virtual clock,
// against the fake bus, with files and signals as scheduled.
#pragma once
#include "busworld.hpp"
#include "loop.hpp"
#include "redirect.hpp"
#include "vclock.hpp"

#include <boost/asio/io_context.hpp>
#include <boost/asio/post.hpp>

#include <csignal>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

int swampd_main(int, char**);
extern boost::asio::io_context io;

namespace dm
{
namespace fs = std::filesystem;
using bw::mk;
using bw::Val;
inline const int64_t MS = 1000000, SEC = 1000 * MS;
inline const int64_t T0 = 1700000000 * SEC;

// Signals reach those who listen for them when they are sent, and are read
// once what is being done is done.
inline void queued(sim::Msg m)
{
    m.type = sim::MType::signal;
    std::vector<uint64_t> ids;
    for (auto& x : sim::fabric().matches)
        if (sim::ruleMatches(x.rule, m))
            ids.push_back(x.id);
    boost::asio::post(io, [m, ids]() mutable {
        for (auto id : ids)
        {
            auto& all = sim::fabric().matches;
            auto it = std::find_if(all.begin(), all.end(), [id](auto& x) { return x.id == id; });
            if (it == all.end())
                continue;
            auto fn = it->fn;
            m.rpos = 0;
            m.refs += 1; // owned here
            fn(&m);
            m.refs -= 1;
        }
    });
}
struct Line
{
    int64_t t; // since the start
    std::string kind, what, value;
    bool operator==(const Line&) const = default;
};
// Shared with the child
struct Shared
{
    volatile size_t n;
    volatile int64_t now, ended;
    volatile int status; // what main returned, -1: it did not
    volatile bool running; // it still ran when the schedule ended
    char text[4 << 20];
};
inline Shared* shared()
{
    static Shared* sh = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return sh;
}
inline int64_t now()
{
    return vclock::now() - T0;
}
inline void rec(const std::string& kind, const std::string& what = "", const std::string& value = "")
{
    auto* sh = shared();
    std::string l = std::to_string(now()) + "\t" + kind + "\t" + what + "\t" + value + "\n";
    if (sh->n + l.size() < sizeof sh->text)
    {
        std::memcpy(sh->text + sh->n, l.data(), l.size());
        sh->n = sh->n + l.size();
    }
}
struct Action
{
    int64_t at;
    std::function<void()> fn;
    bool inside = false; // in the event loop, as a message from the bus is
};
struct Run
{
    bool running = false, hung = false;
    int exit = -1, sig = 0;
    int status = -1; // main's result
    int64_t ended = 0;
    std::vector<Line> trace;
    std::string log;
    std::vector<Line> of(const std::string& kind) const
    {
        std::vector<Line> r;
        for (auto& l : trace)
            if (l.kind == kind)
                r.push_back(l);
        return r;
    }
};
struct Sim
{
    std::string dir; // scratch: etc/ var/ usr/ cwd/ sys/ root/
    std::vector<std::string> args;
    std::vector<Action> acts;
    std::map<std::string, std::string> fans; // files that are commanded -> label
    int64_t horizon = 60 * SEC;
    bw::World world;

    explicit Sim(const std::string& name = "dm") : dir(pbt::scratch() + "/" + name)
    {
        std::error_code ec;
        fs::remove_all(dir, ec);
        for (auto& d : {"etc", "var", "usr", "cwd", "sys", "root", "log", "tmp"})
            fs::create_directories(dir + "/" + d);
    }
    ~Sim()
    {
        std::error_code ec;
        fs::remove_all(dir, ec);
    }
    static void put(const std::string& f, const std::string& text)
    {
        std::ofstream o(f + ".new");
        o << text;
        o.close();
        fs::rename(f + ".new", f);
    }
    void at(int64_t t, std::function<void()> f, bool inside = false)
    {
        acts.push_back({t, std::move(f), inside});
    }
    void bus(int64_t t, std::function<void()> f)
    {
        at(t, std::move(f), true);
    }
    Run run();

  private:
    [[noreturn]] void child();
    void scan()
    {
        for (auto& [f, label] : fans)
        {
            std::ifstream in(f);
            std::string v;
            if (in && std::getline(in, v) && v != "-")
            {
                rec("set", label, v);
                std::ofstream(f) << "-";
            }
        }
    }
};
// The disposition of a signal that main.cpp's initialisation left, taken back
// from the process that runs the checks.
inline struct sigaction& taken(int sig)
{
    static std::map<int, struct sigaction> m;
    auto it = m.find(sig);
    if (it == m.end())
    {
        struct sigaction a{};
        sigaction(sig, nullptr, &a);
        ::signal(sig, SIG_DFL);
        it = m.emplace(sig, a).first;
    }
    return it->second;
}

inline Run Sim::run()
{
    taken(SIGTERM);
    taken(SIGHUP);
    auto* sh = shared();
    sh->n = 0;
    sh->now = sh->ended = 0;
    sh->status = -1;
    sh->running = false;
    std::stable_sort(acts.begin(), acts.end(), [](auto& a, auto& b) { return a.at < b.at; });
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
        child();
    Run r;
    int st = 0;
    timespec a{};
    clock_gettime(CLOCK_MONOTONIC, &a);
    for (int us = 200;;)
    {
        if (waitpid(pid, &st, WNOHANG) == pid)
            break;
        timespec b{};
        clock_gettime(CLOCK_MONOTONIC, &b);
        if (b.tv_sec - a.tv_sec > 25)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            r.hung = true;
            break;
        }
        usleep(us);
        us = std::min(us * 2, 5000);
    }
    r.running = sh->running;
    r.status = sh->status;
    r.exit = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    r.ended = sh->ended;
    std::istringstream in(std::string(sh->text, sh->n));
    for (std::string l; std::getline(in, l);)
    {
        Line x;
        size_t p = l.find('\t'), q = l.find('\t', p + 1), u = l.find('\t', q + 1);
        x.t = std::stoll(l.substr(0, p));
        x.kind = l.substr(p + 1, q - p - 1);
        x.what = l.substr(q + 1, u - q - 1);
        x.value = l.substr(u + 1);
        r.trace.push_back(std::move(x));
    }
    std::ifstream lg(dir + "/daemon.out");
    std::stringstream ss;
    ss << lg.rdbuf();
    r.log = ss.str();
    return r;
}

inline void Sim::child()
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    auto* sh = shared();
    int fd = ::open((dir + "/daemon.out").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
    if (chdir((dir + "/cwd").c_str()) != 0)
        _exit(98);
    setenv("TMPDIR", (dir + "/tmp").c_str(), 1);
    redirect::clear();
    redirect::map("/etc/thermal.d", dir + "/etc");
    redirect::map("/var/lib/swampd", dir + "/var");
    redirect::map("/usr/share/swampd", dir + "/usr");
    redirect::map("/pidcore.", dir + "/root/pidcore.");
    redirect::map("/pidcoeffs.", dir + "/root/pidcoeffs.");
    redirect::map("/zone_", dir + "/root/zone_");
    loop::privatePipes();
    vclock::set(T0);
    world.install();
    sigaction(SIGTERM, &taken(SIGTERM), nullptr);
    sigaction(SIGHUP, &taken(SIGHUP), nullptr);
    for (auto& [f, label] : fans)
        std::ofstream(f) << "-";
    size_t next = 0, spins = 0;
    int64_t last = -1;
    loop::onIdle = [&](int64_t deadline) {
        scan();
        sh->now = now();
        spins = now() == last ? spins + 1 : 0;
        last = now();
        if (spins > 200000)
        {
            rec("spins");
            _exit(97);
        }
        int64_t due = next < acts.size() ? acts[next].at : horizon;
        if (T0 + due > deadline)
            return false;
        if (T0 + due > vclock::now())
            vclock::set(T0 + due);
        if (next >= acts.size())
        {
            sh->running = true;
            sh->ended = now();
            _exit(0);
        }
        auto& a = acts[next++];
        if (a.inside)
            boost::asio::post(io, a.fn);
        else
            a.fn();
        return true;
    };
    std::atexit([] {
        shared()->ended = now();
    });
    std::vector<std::string> av = args;
    av.insert(av.begin(), "swampd");
    std::vector<char*> argv;
    for (auto& a : av)
        argv.push_back(a.data());
    argv.push_back(nullptr);
    int rc = swampd_main(static_cast<int>(av.size()), argv.data());
    scan();
    rec("returned", std::to_string(rc));
    sh->status = rc;
    exit(rc);
}
} // namespace dm

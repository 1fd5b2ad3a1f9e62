#include "engine.hpp"

#include "cov.hpp"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <filesystem>
#include <fstream>
#include <iostream>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_"
           "null=1:handle_abort=1:detect_stack_use_after_return=0";
}
extern "C" const char* __ubsan_default_options()
{
    return "print_stacktrace=0:halt_on_error=1:exitcode=78";
}

namespace pbt
{
Mirror* gMirror = nullptr;
std::vector<Prop>& registry()
{
    static std::vector<Prop> r;
    return r;
}

static double realNow()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string gScratchRoot;
static std::string gScratch;
static int gCap = -1;
int capturedFd()
{
    return gCap;
}
void captureReset()
{
    std::cout.flush();
    std::cerr.flush();
    fflush(stdout);
    fflush(stderr);
    if (gCap >= 0)
    {
        if (ftruncate(gCap, 0)) {}
        lseek(gCap, 0, SEEK_SET);
    }
}
std::string capturedText()
{
    std::cout.flush();
    std::cerr.flush();
    fflush(stdout);
    fflush(stderr);
    std::string out;
    if (gCap < 0)
        return out;
    off_t n = lseek(gCap, 0, SEEK_END);
    out.resize(n > 0 ? n : 0);
    size_t got = 0;
    while (got < out.size())
    {
        ssize_t r = pread(gCap, out.data() + got, out.size() - got, got);
        if (r <= 0)
            break;
        got += r;
    }
    out.resize(got);
    return out;
}
std::string scratch()
{
    return gScratch;
}

struct Shared
{
    std::atomic<uint64_t> cur;      // case index + 1 being run
    std::atomic<uint64_t> beat;     // increments per case
    std::atomic<uint64_t> failIdx;  // case index + 1 that failed
    Mirror mir;
    char msg[8192];
    char desc[32768];
};

static Shared* mkShared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(2);
    }
    return new (p) Shared;
}

static uint64_t caseSeed(uint64_t seed, const std::string& name, uint64_t i)
{
    uint64_t h = mix(seed);
    for (char ch : name)
        h = mix(h ^ static_cast<unsigned char>(ch));
    return mix(h ^ mix(i));
}

static void childSetup(const std::string& tag)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    gScratch = gScratchRoot + "/" + tag;
    std::filesystem::create_directories(gScratch);
    int fd = open((gScratch + "/.out").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    gCap = fd;
    dup2(fd, 1);
    dup2(fd, 2);
    signal(SIGPIPE, SIG_IGN);
}

static void putMsg(Shared* sh, const std::string& m, const std::string& d)
{
    snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str());
    snprintf(sh->desc, sizeof sh->desc, "%s", d.c_str());
}

enum class Res
{
    pass,
    fail,
    crash,
    hang,
    discard
};
struct Trial
{
    Res res = Res::pass;
    std::string msg, desc, log;
    std::vector<uint64_t> used;
};

// Run one case (from choices) in a child process.
static Trial runIsolated(const Prop& p, const std::vector<uint64_t>* ch,
                         uint64_t seed, double limit,
                         const std::vector<uint64_t>& before = {})
{
    static Shared* sh = mkShared();
    static uint64_t n = 0;
    sh->mir.n = 0;
    sh->msg[0] = sh->desc[0] = 0;
    std::string tag = "iso" + std::to_string(n++);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        childSetup(tag);
        for (auto b : before) // earlier cases of the same process
        {
            Src s0(b);
            Ctx c0;
            try
            {
                p.fn(s0, c0);
            }
            catch (const std::exception&)
            {}
        }
        Src s = ch ? Src(*ch) : Src(seed);
        Ctx c;
        int rc = 0;
        gMirror = &sh->mir;
        try
        {
            p.fn(s, c);
            putMsg(sh, "", c.desc.str());
        }
        catch (const Discard&)
        {
            rc = 4;
        }
        catch (const std::exception& e)
        {
            putMsg(sh, e.what(), c.desc.str());
            rc = 3;
        }
        _exit(rc);
    }
    double t0 = realNow();
    int st = 0;
    bool hung = false;
    for (int us = 200;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
            break;
        if (realNow() - t0 > limit)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hung = true;
            break;
        }
        usleep(us);
        if (us < 3000)
            us += 200;
    }
    Trial t;
    if (hung)
        t.res = Res::hang;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        t.res = Res::pass;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
        t.res = Res::fail;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 4)
        t.res = Res::discard;
    else
        t.res = Res::crash;
    t.msg = sh->msg;
    t.desc = sh->desc;
    std::string dir = gScratchRoot + "/" + tag;
    if (t.res == Res::crash || t.res == Res::hang)
    {
        std::ifstream f(dir + "/.out");
        std::string line, all;
        std::vector<std::string> keep;
        while (std::getline(f, line))
            if (line.find("ERROR:") != std::string::npos ||
                line.find("runtime error") != std::string::npos ||
                line.find("Assertion") != std::string::npos ||
                line.find("terminate called") != std::string::npos ||
                line.find("what():") != std::string::npos ||
                line.find("SUMMARY") != std::string::npos)
                keep.push_back(line);
        for (size_t i = 0; i < keep.size() && i < 8; ++i)
            all += keep[i] + " | ";
        t.msg = (t.res == Res::hang ? std::string("case did not finish: ")
                                    : std::string("process died (status ") +
                                          std::to_string(st) + "): ") +
                all;
    }
    t.used.assign(sh->mir.v, sh->mir.v + sh->mir.n);
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
    return t;
}

static bool bad(Res r)
{
    return r == Res::fail || r == Res::crash || r == Res::hang;
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += ch;
        }
        else if (ch == '\n')
            o += "\\n";
        else if (ch == '\t')
            o += "\\t";
        else if (ch < 0x20 || ch >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else
            o += ch;
    }
    return o;
}

struct Stats
{
    uint64_t evals = 0, discards = 0, nontrivial = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    uint64_t guided = 0, corpus = 0, features = 0;
};

// Coverage-guided search: choice sequences that made the code do something new
// are kept and changed a little.
class Corpus
{
  public:
    void add(const std::vector<uint64_t>& c)
    {
        if (c.empty() || c.size() > 4000)
            return;
        if (all.size() < 3000)
            all.push_back(c);
        else
            all[mix(++salt) % all.size()] = c;
    }
    size_t size() const
    {
        return all.size();
    }
    std::vector<uint64_t> mutant(uint64_t seed)
    {
        uint64_t st = seed;
        auto rnd = [&](uint64_t n) {
            st = mix(st);
            return n ? st % n : 0;
        };
        auto any = [&]() -> const std::vector<uint64_t>& {
            // the latest finds more often
            size_t n = all.size(), last = std::min<size_t>(n, 64);
            return rnd(2) ? all[n - 1 - rnd(last)] : all[rnd(n)];
        };
        if (all.empty())
            return {};
        auto v = any();
        for (int ops = 1 + (rnd(2) ? 0 : static_cast<int>(rnd(5))); ops > 0 && !v.empty(); --ops)
        {
            size_t k = rnd(v.size()), len = 1 + (rnd(2) ? 0 : rnd(std::min<uint64_t>(16, v.size() - k)));
            switch (rnd(10))
            {
                case 0:
                case 1:
                    v[k] = mix(rnd(~0ull));
                    break;
                case 2:
                    v[k] += 1 + rnd(4);
                    break;
                case 3:
                    v[k] -= std::min<uint64_t>(v[k], 1 + rnd(4));
                    break;
                case 4:
                    v[k] = rnd(2) ? 0 : ~0ull;
                    break;
                case 5:
                    v.erase(v.begin() + k, v.begin() + std::min(v.size(), k + len));
                    break;
                case 6:
                {
                    std::vector<uint64_t> x(v.begin() + k, v.begin() + std::min(v.size(), k + len));
                    v.insert(v.begin() + rnd(v.size() + 1), x.begin(), x.end());
                    break;
                }
                case 7:
                {
                    auto& o = any();
                    size_t from = rnd(3) ? std::min(k, o.size()) : rnd(o.size());
                    v.resize(k);
                    v.insert(v.end(), o.begin() + from, o.end());
                    break;
                }
                case 8:
                    v[k] = v[rnd(v.size())];
                    break;
                default:
                    for (size_t j = k; j < std::min(v.size(), k + len); ++j)
                        v[j] = mix(rnd(~0ull));
                    if (rnd(4) == 0)
                        v.resize(k + 1);
            }
        }
        return v;
    }

  private:
    std::vector<std::vector<uint64_t>> all;
    uint64_t salt = 0;
};

static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best,
                                    double budget, uint64_t& trials)
{
    double t0 = realNow();
    auto trial = [&](const std::vector<uint64_t>& c) -> bool {
        if (realNow() - t0 > budget)
            return false;
        ++trials;
        auto t = runIsolated(p, &c, 0, std::min(p.hang, 20.0));
        return bad(t.res);
    };
    auto trim = [](std::vector<uint64_t>& v) {
        while (!v.empty() && v.back() == 0)
            v.pop_back();
    };
    trim(best);
    bool progress = true;
    while (progress && realNow() - t0 < budget)
    {
        progress = false;
        // truncate
        for (size_t keep = best.size() / 2; keep < best.size();
             keep += std::max<size_t>(1, (best.size() - keep) / 2))
        {
            auto c = best;
            c.resize(keep);
            trim(c);
            if (c.size() < best.size() && trial(c))
            {
                best = c;
                progress = true;
                break;
            }
            if (realNow() - t0 > budget)
                break;
        }
        // delete blocks
        for (size_t blk : {64, 32, 16, 8, 4, 2, 1})
        {
            for (size_t at = best.size(); at-- > 0;)
            {
                if (at + blk > best.size())
                    continue;
                auto c = best;
                c.erase(c.begin() + at, c.begin() + at + blk);
                trim(c);
                if (trial(c))
                {
                    best = c;
                    progress = true;
                }
                if (realNow() - t0 > budget)
                    break;
            }
        }
        // zero blocks
        for (size_t blk : {32, 8, 2, 1})
        {
            for (size_t at = 0; at + blk <= best.size(); at += blk)
            {
                bool any = false;
                for (size_t k = at; k < at + blk; ++k)
                    any = any || best[k];
                if (!any)
                    continue;
                auto c = best;
                std::fill(c.begin() + at, c.begin() + at + blk, 0);
                trim(c);
                if (trial(c))
                {
                    best = c;
                    progress = true;
                }
                if (realNow() - t0 > budget || at + blk > best.size())
                    break;
            }
        }
        // lower values
        for (size_t at = 0; at < best.size(); ++at)
        {
            uint64_t lo = 0;
            while (at < best.size() && lo < best[at] && realNow() - t0 < budget)
            {
                uint64_t mid = lo + (best[at] - lo) / 2;
                auto c = best;
                c[at] = mid;
                if (trial(c))
                {
                    best = c;
                    progress = true;
                }
                else
                    lo = mid + 1;
            }
        }
        trim(best);
    }
    return best;
}

static int usage()
{
    std::cerr << "usage: exe --tier quick|thorough --seed N --out FILE "
                 "[--replay-dir D] [--replay FILE] [--only prop] [--scale x] "
                 "[--workers N]\n";
    return 2;
}
} // namespace pbt

using namespace pbt;

int main(int argc, char** argv)
{
    std::string tier = "quick", out, replay, replayDir = ".", only;
    uint64_t seed = 1;
    double scale = 1, guided = -1;
    unsigned workers = 8;
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&]() -> std::string {
            if (i + 1 >= argc)
                exit(usage());
            return argv[++i];
        };
        if (a == "--tier")
            tier = next();
        else if (a == "--seed")
            seed = std::stoull(next());
        else if (a == "--out")
            out = next();
        else if (a == "--replay")
            replay = next();
        else if (a == "--replay-dir")
            replayDir = next();
        else if (a == "--only")
            only = next();
        else if (a == "--scale")
            scale = std::stod(next());
        else if (a == "--guided")
            guided = std::stod(next());
        else if (a == "--workers")
            workers = std::stoul(next());
        else if (a == "--list")
            list = true;
        else
            return usage();
    }
    if (guided < 0)
        guided = tier == "thorough" ? 0.75 : 0.2;
    if (list)
    {
        for (auto& p : registry())
            std::cout << p.name << "\n";
        return 0;
    }
    char tmpl[] = "/dev/shm/pbtXXXXXX";
    char tmpl2[] = "/tmp/pbtXXXXXX";
    char* d = mkdtemp(tmpl);
    if (!d)
        d = mkdtemp(tmpl2);
    if (!d)
    {
        perror("mkdtemp");
        return 2;
    }
    gScratchRoot = d;
    struct Rm
    {
        ~Rm()
        {
            std::error_code ec;
            if (gScratchRoot.find("pbt") != std::string::npos)
                std::filesystem::remove_all(gScratchRoot, ec);
        }
    } rm;

    if (!replay.empty())
    {
        std::ifstream f(replay);
        std::string line, name;
        std::vector<uint64_t> ch;
        uint64_t rseed = 0;
        std::vector<uint64_t> before;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "prop")
                is >> name;
            else if (k == "seed")
                is >> rseed;
            else if (k == "before")
            {
                uint64_t v;
                while (is >> v)
                    before.push_back(v);
            }
            else if (k == "choices")
            {
                uint64_t v;
                while (is >> v)
                    ch.push_back(v);
            }
        }
        for (auto& p : registry())
            if (p.name == name)
            {
                auto t = runIsolated(p, ch.empty() ? nullptr : &ch, rseed,
                                     p.hang, before);
                std::cout << t.desc << "\n";
                if (bad(t.res))
                {
                    std::cout << "FAILS: " << t.msg << "\n";
                    return 1;
                }
                std::cout << "passes\n";
                return 0;
            }
        std::cerr << "no such property in this binary: " << name << "\n";
        return 2;
    }

    struct Viol
    {
        std::string prop, msg, desc, path;
    };
    std::vector<Viol> viols;
    bool broken = false;
    std::ostringstream js;
    js << "{\"props\":[";
    bool firstJs = true;
    for (auto& p : registry())
    {
        if (!only.empty() && p.name != only)
            continue;
        uint64_t cases = static_cast<uint64_t>(
            (tier == "thorough" ? p.thorough : p.quick) * scale);
        if (cases == 0)
            cases = 1;
        uint64_t total = cases + static_cast<uint64_t>(static_cast<double>(cases) * guided);
        unsigned nw = static_cast<unsigned>(
            std::min<uint64_t>(workers, std::max<uint64_t>(1, cases / 4)));
        double t0 = realNow();
        Shared* go = mkShared(); // go->cur: stop flag
        struct W
        {
            pid_t pid;
            Shared* sh;
            std::string res;
            uint64_t lastBeat = 0;
            double lastT = 0;
            bool done = false;
        };
        std::vector<W> ws(nw);
        fflush(nullptr);
        for (unsigned w = 0; w < nw; ++w)
        {
            ws[w].sh = mkShared();
            ws[w].res = gScratchRoot + "/res." + p.name + "." + std::to_string(w);
            ws[w].lastT = realNow();
            pid_t pid = fork();
            if (pid == 0)
            {
                childSetup(p.name + "." + std::to_string(w));
                Stats s;
                cov::Collector coll;
                Corpus corpus;
                // what the last of the random cases did is where it starts
                uint64_t watch = guided > 0 ? cases - std::min<uint64_t>(cases, (total - cases) / 2 + nw) : total;
                for (uint64_t i = w; i < total; i += nw)
                {
                    if (go->cur)
                        break;
                    ws[w].sh->cur = i + 1;
                    uint64_t cs = caseSeed(seed, p.name, i);
                    bool led = i >= cases;
                    if (led)
                    {
                        gMirror = &ws[w].sh->mir;
                        gMirror->n = 0;
                        ++s.guided;
                    }
                    Src src = led ? Src(corpus.mutant(cs), cs) : Src(cs);
                    Ctx c;
                    if (i >= watch)
                        coll.begin();
                    try
                    {
                        p.fn(src, c);
                    }
                    catch (const Discard&)
                    {
                        ++s.discards;
                    }
                    catch (const std::exception& e)
                    {
                        putMsg(ws[w].sh, e.what(), c.desc.str());
                        ws[w].sh->failIdx = i + 1;
                        go->cur = 1;
                    }
                    if (i >= watch && coll.end())
                        corpus.add(src.choices());
                    ++s.evals;
                    for (auto& l : c.labels)
                        ++s.labels[l];
                    if (c.nt)
                    {
                        ++s.nontrivial;
                        uint64_t h = 1469598103934665603ull;
                        for (auto v : src.choices())
                            h = mix(h ^ v);
                        if (s.distinct.insert(h).second &&
                            s.samples.size() < 3 && c.desc.tellp() > 0)
                            s.samples.push_back(c.desc.str());
                    }
                    ++ws[w].sh->beat;
                    if (ws[w].sh->failIdx)
                        break;
                    if ((i / nw) % 64 == 0)
                        captureReset();
                }
                std::ofstream f(ws[w].res);
                f << s.evals << " " << s.discards << " " << s.nontrivial << " " << s.guided << " " << corpus.size() << " "
                  << coll.features << "\n";
                f << s.labels.size() << "\n";
                for (auto& [k, v] : s.labels)
                    f << v << " " << k << "\n";
                f << s.distinct.size() << "\n";
                for (auto h : s.distinct)
                    f << h << " ";
                f << "\n" << s.samples.size() << "\n";
                for (auto& x : s.samples)
                    f << x.size() << "\n" << x << "\n";
                f.close();
                _exit(0);
            }
            ws[w].pid = pid;
        }
        uint64_t failIdx = 0;
        bool abnormal = false;
        unsigned left = nw;
        while (left)
        {
            for (auto& w : ws)
            {
                if (w.done)
                    continue;
                int st;
                if (waitpid(w.pid, &st, WNOHANG) == w.pid)
                {
                    w.done = true;
                    --left;
                    uint64_t fi = w.sh->failIdx;
                    bool ab = false;
                    if (!fi && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                    {
                        fi = w.sh->cur;
                        ab = true;
                        go->cur = 1;
                    }
                    if (fi && (!failIdx || fi < failIdx))
                    {
                        failIdx = fi;
                        abnormal = ab;
                    }
                    continue;
                }
                uint64_t bt = w.sh->beat;
                double t = realNow();
                if (bt != w.lastBeat)
                {
                    w.lastBeat = bt;
                    w.lastT = t;
                }
                else if (t - w.lastT > p.hang)
                {
                    uint64_t fi = w.sh->cur;
                    kill(w.pid, SIGKILL);
                    go->cur = 1;
                    if (fi && (!failIdx || fi < failIdx))
                    {
                        failIdx = fi;
                        abnormal = true;
                    }
                }
            }
            usleep(2000);
        }
        Stats tot;
        for (auto& w : ws)
        {
            std::ifstream f(w.res);
            uint64_t a, b2, c2, g2, k2, f2, n;
            if (!(f >> a >> b2 >> c2 >> g2 >> k2 >> f2))
                continue;
            tot.guided += g2;
            tot.corpus += k2;
            tot.features = std::max(tot.features, f2);
            tot.evals += a;
            tot.discards += b2;
            tot.nontrivial += c2;
            f >> n;
            std::string line;
            for (uint64_t i = 0; i < n; ++i)
            {
                uint64_t v;
                f >> v;
                f.get();
                std::getline(f, line);
                tot.labels[line] += v;
            }
            f >> n;
            for (uint64_t i = 0; i < n; ++i)
            {
                uint64_t h;
                f >> h;
                tot.distinct.insert(h);
            }
            f >> n;
            for (uint64_t i = 0; i < n; ++i)
            {
                size_t k;
                f >> k;
                f.get();
                std::string x(k, 0);
                f.read(x.data(), k);
                if (tot.samples.size() < 4)
                    tot.samples.push_back(x);
            }
        }
        double t1 = realNow();
        if (failIdx)
        {
            uint64_t idx = failIdx - 1;
            uint64_t cs = caseSeed(seed, p.name, idx);
            // Recover the choice sequence of the failing case.
            bool led = idx >= cases;
            std::vector<uint64_t> given;
            if (led)
            {
                auto& m = ws[idx % nw].sh->mir;
                given.assign(m.v, m.v + m.n);
            }
            Trial orig = runIsolated(p, led ? &given : nullptr, cs, p.hang);
            std::vector<uint64_t> ch = orig.used;
            (void)abnormal;
            std::vector<uint64_t> best = ch;
            uint64_t trials = 0;
            bool haveChoices = !ch.empty();
            if (bad(orig.res) && haveChoices)
                best = shrink(p, ch, tier == "thorough" ? 120 : 40, trials);
            int again = 0;
            Trial last;
            // A failure that needs the cases before it in the same process
            // (state the code keeps between uses) replays with them.
            std::vector<uint64_t> before;
            if (!bad(orig.res) && !led)
            {
                haveChoices = false;
                for (uint64_t n = 1; n <= 4096; n *= 2)
                {
                    before.clear();
                    for (uint64_t k = n; k >= 1; --k)
                        if (idx >= k * nw)
                            before.push_back(caseSeed(seed, p.name, idx - k * nw));
                    auto t = runIsolated(p, nullptr, cs, p.hang, before);
                    if (bad(t.res) || before.size() < n)
                    {
                        orig = t;
                        break;
                    }
                }
                // drop what is not needed
                for (size_t at = 0; at < before.size() && before.size() < 200;)
                {
                    auto c = before;
                    c.erase(c.begin() + at);
                    if (bad(runIsolated(p, nullptr, cs, p.hang, c).res))
                        before = c;
                    else
                        ++at;
                }
            }
            for (int k = 0; k < 3; ++k)
            {
                Trial t = haveChoices
                              ? runIsolated(p, &best, 0, p.hang)
                              : runIsolated(p, nullptr, cs, p.hang, before);
                if (bad(t.res))
                {
                    ++again;
                    last = t;
                }
            }
            if (again < 3)
            {
                std::cout << "UNSTABLE prop=" << p.name << " case=" << idx
                          << " fails " << again << "/3 on replay; first: "
                          << orig.msg << "\n";
                // a guided case that needs its process's past cannot be replayed
                broken = broken || !led;
            }
            else
            {
                std::filesystem::create_directories(replayDir);
                std::string path = replayDir + "/" + p.name + "-" +
                                   std::to_string(seed) + "-" +
                                   std::to_string(idx) + ".case";
                std::ofstream f(path);
                f << "prop " << p.name << "\nchoices";
                if (haveChoices)
                    for (auto v : best)
                        f << " " << v;
                if (!before.empty())
                {
                    f << "\nbefore";
                    for (auto v : before)
                        f << " " << v;
                }
                f << "\nseed " << cs << "\n# " << last.msg << "\n# shrunk in "
                  << trials << " trials\n";
                std::istringstream ds(last.desc);
                std::string line;
                while (std::getline(ds, line))
                    f << "#   " << line << "\n";
                viols.push_back({p.name, last.msg, last.desc, path});
            }
        }
        if (!firstJs)
            js << ",";
        firstJs = false;
        js << "{\"name\":\"" << p.name << "\",\"rule\":\"" << jesc(p.rule)
           << "\",\"planned\":" << total << ",\"evaluations\":" << tot.evals
           << ",\"discarded\":" << tot.discards
           << ",\"nontrivial\":" << tot.nontrivial
           << ",\"distinct_nontrivial\":" << tot.distinct.size()
 << ",\"guided\":" << tot.guided << ",\"corpus\":" << tot.corpus << ",\"features\":" << tot.features
           << ",\"wall_s\":" << (t1 - t0) << ",\"labels\":{";
        bool fl = true;
        for (auto& [k, v] : tot.labels)
        {
            js << (fl ? "" : ",") << "\"" << jesc(k) << "\":" << v;
            fl = false;
        }
        js << "},\"samples\":[";
        fl = true;
        for (auto& x : tot.samples)
        {
            js << (fl ? "" : ",") << "\"" << jesc(x.substr(0, 1800)) << "\"";
            fl = false;
        }
        js << "]}";
    }
    js << "],\"violations\":[";
    bool fl = true;
    for (auto& v : viols)
    {
        js << (fl ? "" : ",") << "{\"prop\":\"" << v.prop << "\",\"msg\":\""
           << jesc(v.msg) << "\",\"desc\":\"" << jesc(v.desc.substr(0, 4000))
           << "\",\"path\":\"" << jesc(v.path) << "\"}";
        fl = false;
    }
    js << "],\"broken\":" << (broken ? "true" : "false") << "}\n";
    if (!out.empty())
    {
        std::ofstream f(out);
        f << js.str();
    }
    else
        std::cout << js.str();
    if (!viols.empty())
        return 1;
    return broken ? 2 : 0;
}

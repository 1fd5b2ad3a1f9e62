"""Builds check executables from /repo's working tree plus /verif's harness.

Every object is cached by the hash of its command line and of the contents of
every file it was compiled from, so a rebuild sees each change and nothing else.
"""
import concurrent.futures
import hashlib
import os
import re
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("REPO", "/repo"))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))

SWAMPD = """main.cpp util.cpp notimpl/readonly.cpp notimpl/writeonly.cpp dbus/dbusconfiguration.cpp
dbus/dbusutil.cpp dbus/dbushelper.cpp dbus/dbuspassiveredundancy.cpp dbus/dbuspassive.cpp dbus/dbuswrite.cpp
failsafeloggers/builder.cpp failsafeloggers/failsafe_logger_utility.cpp sysfs/sysfsread.cpp sysfs/sysfswrite.cpp
sysfs/util.cpp sensors/pluggable.cpp sensors/host.cpp sensors/builder.cpp sensors/buildjson.cpp sensors/manager.cpp
sensors/build_utils.cpp pid/ec/pid.cpp pid/ec/logging.cpp pid/ec/stepwise.cpp pid/fancontroller.cpp
pid/thermalcontroller.cpp pid/pidcontroller.cpp pid/stepwisecontroller.cpp pid/builder.cpp pid/buildjson.cpp
pid/zone.cpp pid/util.cpp pid/pidloop.cpp pid/tuning.cpp buildjson/buildjson.cpp""".split()
IPMI = "ipmi/main_ipmi.cpp ipmi/manualcmds.cpp ipmi/dbus_mode.cpp".split()

CONFIGS = {
    "V0": dict(STRICT_FAILSAFE_PWM=0, OFFLINE_FAILSAFE_PWM=0, UNC_FAILSAFE=0, HANDLE_MISSING_OBJECT_PATHS=0),
    "V1": dict(STRICT_FAILSAFE_PWM=1, OFFLINE_FAILSAFE_PWM=1, UNC_FAILSAFE=1, HANDLE_MISSING_OBJECT_PATHS=1),
}

COMMON = ["-std=c++23", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DBOOST_ASIO_DISABLE_EPOLL",
          "-DBOOST_ASIO_DISABLE_EVENTFD", "-DBOOST_ASIO_DISABLE_TIMERFD", "-pipe", "-w"]
PROFILES = {
    # unit-level harnesses: every memory or arithmetic fault is a failure
    "unit": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-fno-sanitize=float-cast-overflow"],
    # whole-daemon simulation: quick to build
    "sim": ["-O0", "-g1", "-fsanitize=address"],
}


class BuildError(Exception):
    pass


def sources(name, fallback):
    """The source list meson.build assigns to name."""
    try:
        with open(os.path.join(REPO, "meson.build")) as f:
            m = re.search(r"^%s\s*=\s*\[(.*?)^\]" % name, f.read(), re.M | re.S)
        got = re.findall(r"'([^']+\.cpp)'", m.group(1))
        got = [g for g in got if os.path.isfile(os.path.join(REPO, g))]
        return got or fallback
    except (OSError, AttributeError):
        return fallback


def swampd_sources():
    return sources("libswampd_sources", SWAMPD)


def ipmi_sources():
    return sources("libmanualcmds_sources", IPMI)


def includes(config):
    cfg = os.path.join(BUILD, "cfg-" + config)
    os.makedirs(cfg, exist_ok=True)
    text = "".join("#define %s %d\n" % kv for kv in CONFIGS[config].items())
    path = os.path.join(cfg, "config.h")
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    dirs = [cfg, os.path.join(VERIF, "shim"), REPO]
    dirs += [os.path.join(REPO, d) for d in "buildjson dbus errors ipmi notimpl pid sensors sysfs".split()]
    return ["-I" + d for d in dirs]


_hash_cache = {}
_hash_lock = threading.Lock()


def file_hash(path):
    try:
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        with _hash_lock:
            if key in _hash_cache:
                return _hash_cache[key]
        with open(path, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
        with _hash_lock:
            _hash_cache[key] = h
        return h
    except OSError:
        return "absent"


def parse_deps(path):
    with open(path) as f:
        text = f.read()
    text = text.replace("\\\n", " ")
    body = text.split(":", 1)[1]
    return [p.replace("\\ ", " ") for p in re.split(r"(?<!\\)\s+", body.strip()) if p]


def compile_one(src, flags):
    """Returns the object for src; compiles unless an up-to-date one exists."""
    cmd = ["g++"] + flags + ["-c", src]
    key = hashlib.sha1("\0".join(cmd).encode()).hexdigest()[:20]
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    base = os.path.join(odir, os.path.basename(src).replace(".cpp", "") + "-" + key)
    obj, dep, stamp = base + ".o", base + ".d", base + ".k"

    def current():
        try:
            deps = parse_deps(dep)
        except OSError:
            return None
        h = hashlib.sha1()
        for d in sorted(set(deps)):
            h.update((d + "=" + file_hash(d) + "\n").encode())
        return h.hexdigest()

    if os.path.exists(obj) and os.path.exists(stamp):
        if open(stamp).read() == current():
            return obj
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    p = subprocess.run(cmd + ["-MD", "-MF", dep, "-MT", "x", "-o", tmp], capture_output=True, text=True)
    if p.returncode:
        text = p.stderr or p.stdout
        errs = [l for l in text.splitlines() if " error" in l or "fatal" in l] or text.splitlines()[-20:]
        raise BuildError("compiling %s failed:\n%s" % (src, "\n".join(errs[:40])))
    os.replace(tmp, obj)
    with open(stamp, "w") as f:
        f.write(current() or "")
    return obj


class Exe:
    """One executable: harness sources and repository sources."""

    def __init__(self, name, harness, repo, config="V0", profile="unit", defs=(), libs=(), shim=True):
        self.name, self.harness, self.repo = name, list(harness), list(repo)
        self.config, self.profile, self.defs = config, profile, list(defs)
        self.libs, self.shim = list(libs), shim

    def flags(self, src_is_repo, rel=None):
        f = COMMON + PROFILES[self.profile] + self.defs + includes(self.config)
        if src_is_repo and rel == "main.cpp":
            f = f + ["-Dmain=swampd_main"]
        if src_is_repo:
            f = f + ["-fsanitize-coverage=trace-pc,trace-cmp"]
        if not src_is_repo:
            f = f + ["-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "props")]
        return f

    def units(self, repo_list=None):
        out = []
        for r in (self.repo if repo_list is None else repo_list):
            out.append((os.path.join(REPO, r), self.flags(True, r)))
        hs = ["rt/engine.cpp", "rt/cov.cpp"] + (["shim/sim/simbus.cpp"] if self.shim else []) + self.harness
        for h in hs:
            f = self.flags(False)
            if h == "rt/cov.cpp":
                f = f + ["-O2", "-fno-sanitize=all"]
            out.append((os.path.join(VERIF, h), f))
        return out


# heavier translation units first, so that they do not finish last
HEAVY = ["main.cpp", "dbusconfiguration.cpp", "l2.cpp", "zone.cpp", "buildjson.cpp", "engine.cpp"]


def weight(unit):
    b = os.path.basename(unit[0])
    if "/props/" in unit[0]:
        return -2
    return HEAVY.index(b) if b in HEAVY else len(HEAVY)


def compile_all(units):
    uniq = {}
    for u in sorted(units, key=weight):
        uniq.setdefault((u[0], tuple(u[1])), u)
    objs, errs = {}, []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        fut = {ex.submit(compile_one, u[0], u[1]): k for k, u in uniq.items()}
        for f in concurrent.futures.as_completed(fut):
            try:
                objs[fut[f]] = f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError("\n".join(errs))
    return objs


def link(exe, objs):
    out = os.path.join(BUILD, "bin", exe.name)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = ["g++"] + PROFILES[exe.profile] + objs + ["-o", out, "-ldl", "-pthread"] + exe.libs
    p = subprocess.run(cmd, capture_output=True, text=True)
    return out if p.returncode == 0 else None, p.stderr


def build(exes):
    """Builds all executables; returns name -> path."""
    units = [u for e in exes for u in e.units()]
    objs = compile_all(units)
    paths, retry = {}, []
    for e in exes:
        out, err = link(e, [objs[(s, tuple(f))] for s, f in e.units()])
        if out:
            paths[e.name] = out
        else:
            retry.append(e)
    if retry:
        # Code moved between files: take every source of the program.
        for e in retry:
            every = list(dict.fromkeys(e.repo + [s for s in swampd_sources() if s != "main.cpp"]))
            if "failsafeloggers/failsafe_logger.cpp" in every and "dbus/dbuspassive.cpp" in every:
                # dbuspassive.cpp includes it at the pinned commit
                with open(os.path.join(REPO, "dbus/dbuspassive.cpp")) as f:
                    if "failsafe_logger.cpp" in f.read():
                        every.remove("failsafeloggers/failsafe_logger.cpp")
            e.shim = True
            u = e.units(every)
            o = compile_all(u)
            out, err = link(e, [o[(s, tuple(f))] for s, f in u])
            if not out:
                raise BuildError("linking %s failed:\n%s" % (e.name, err[-6000:]))
            paths[e.name] = out
    return paths

#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py [--slot N --slots M] [--seed S] [--limit K] OUT FILE...

Small syntactic changes are made, one at a time, in a scratch copy of /repo; the
checks mapped to the file run against it until one reports a violation.
Development tool: no check reads what it writes."""
import argparse, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    (r"pid/ec/pid\.", "C01 C23"), (r"pid/util", "C01"), (r"pid/pidcontroller", "C02 C01 C23"), (r"pid/fancontroller", "C05 C08"),
    (r"pid/thermalcontroller", "C04 C27"), (r"step", "C03"), (r"pid/ec/logging", "C23"),
    (r"pid/zone", "C06 C07 C27 C22 C31 C09"), (r"pid/pidloop", "C10 C09 C07 C25"), (r"pid/builder", "C06 C07 C08 C17 C27"),
    (r"pid/tuning", "C31 C20"), (r"pid/buildjson", "C16 C17"), (r"sensors/buildjson", "C16 C17"), (r"buildjson/", "C17 C16"),
    (r"sensors/builder", "C28 C07 C17 C14 C15"), (r"sensors/host", "C14 C15"), (r"sensors/build_utils", "C28"),
    (r"sensors/manager", "C07 C28 C25"), (r"sensors/sensor\.hpp", "C07 C15 C14"), (r"sensors/pluggable", "C11 C28"),
    (r"dbus/dbuspassiveredundancy", "C26 C12"), (r"dbus/dbuspassive", "C12 C13 C07 C15"), (r"dbus/dbuswrite", "C11"),
    (r"dbus/dbushelper", "C12 C13 C11"), (r"dbus/dbusutil", "C19 C12 C13 C18"), (r"dbus/dbusconf", "C18 C25 C19"),
    (r"sysfs", "C28 C11 C07"), (r"ipmi/", "C21"), (r"main\.cpp", "C20 C25"), (r"failsafelogger", "C24 C07"),
    (r"hoststate", "C15"), (r"^util\.", "C18 C16"), (r"notimpl", "C28 C11"), (r"interfaces", "C07 C11"), (r"errors", "C17"),
]


def checks(f):
    for pat, ids in MAP:
        if re.search(pat, f):
            return ids.split()
    return []


def mask(line):
    """Strings and comments blanked."""
    out, i, q = list(line), 0, None
    while i < len(line):
        ch = line[i]
        if q:
            if ch == "\\":
                out[i] = out[min(i + 1, len(line) - 1)] = "\x00"
                i += 2
                continue
            if ch == q:
                q = None
            else:
                out[i] = "\x00"
        elif ch == '"' or (ch == "'" and not (i and line[i - 1].isdigit())):
            q = ch
        elif line.startswith("//", i):
            for k in range(i, len(line)):
                out[k] = "\x00"
            break
        i += 1
    return "".join(out)


OPS = [
    (r"(?<![<\-=>])<=(?!>)", ["<"]), (r"(?<![>\-=])>=", [">"]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]),
    (r" / ", [" * "]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]), (r"(?<![\w!])!(?=[\w(])", [""]),
    (r"(?<![\w.])(\d+)(?![\w.:>])", ["+1"]), (r"\bcontinue;", [";", "break;"]), (r"\bbreak;", [";"]),
    (r"\bif \((?!constexpr)", ["if (!!0 && ", "if (!"]),
]


def mutants(text):
    lines = text.split("\n")
    block = False
    prev_end = True
    for n, line in enumerate(lines):
        raw = line.strip()
        if block:
            block = "*/" not in raw
            continue
        if raw.startswith("/*"):
            block = "*/" not in raw
            continue
        if not raw or raw.startswith(("#", "//", "*", "using ", "namespace", "static_assert", "}")) and not raw.startswith("} else"):
            if raw:
                prev_end = raw.endswith(("}", "{", ";", ":"))
            continue
        m = mask(line)
        if "debugEnabled" in m or "errText" in m or "std::cerr" in m or "std::cout" in m or "log<" in m or "<<" in m or "template" in m or "lg2" in m:
            prev_end = raw.endswith((";", "{", "}"))
            continue
        for pat, reps in OPS:
            for x in re.finditer(pat, m):
                for r in reps:
                    if r == "+1":
                        new = line[:x.start()] + str(int(x.group(1)) + 1) + line[x.end():]
                    elif r == "if (!":
                        # whole condition when it ends on this line
                        d = 1
                        for k in range(x.end(), len(m)):
                            d += (m[k] == "(") - (m[k] == ")")
                            if d == 0:
                                break
                        if d:
                            continue
                        new = line[:x.end()] + "!(" + line[x.end():k] + ")" + line[k:]
                    else:
                        new = line[:x.start()] + r + line[x.end():]
                    yield n, line, new
        # statement deletion
        if prev_end and re.match(r"(this->|_?[a-z]\w*(::|\.|->|\[|\(| =| \+=|\+\+)|\+\+|\(\*)", raw) and \
                not re.match(r"(return|if|for|while|else|case|switch|throw|const|auto|static|struct|class|default|try|catch|do|using|typedef|int|double|bool)\b", raw):
            k = n
            while k < len(lines) and not lines[k].rstrip().endswith(";") and "{" not in lines[k] and k < n + 6:
                k += 1
            if k < len(lines) and lines[k].rstrip().endswith(";") and "{" not in "".join(lines[n:k + 1]):
                yield n, "\n".join(lines[n:k + 1]), ";"
        prev_end = m.rstrip("\x00 ").endswith((";", "{", "}", ":"))


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--slot", type=int, default=0)
    a.add_argument("--slots", type=int, default=1)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--limit", type=int, default=20)
    a.add_argument("--scale", default="1")
    a.add_argument("--checks", default="")
    a.add_argument("--redo", default="", help="report whose survivors are tried again")
    a.add_argument("out")
    a.add_argument("files", nargs="*")
    o = a.parse_args()
    dst = "/tmp/mutate/repo%d" % o.slot
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree("/repo", dst, ignore=shutil.ignore_patterns(".git", "_build", "build*dir"))
    env = dict(os.environ, REPO=dst, VERIF_BUILD="/tmp/mutate/build%d" % o.slot, VERIF_TIER="quick", VERIF_SEED="1")
    todo = []
    known = {}
    if o.redo:
        for l in open(o.redo):
            x = re.match(r"(\S+?):(\d+) (SURVIVED|ERROR|ODD)", l)
            if x:
                known.setdefault(x.group(1), set()).add((int(x.group(2)), re.sub(r" \(\d+s\)$", "", l[l.index(" | ") + 3:].strip())))
        o.limit, o.files = 10 ** 6, o.files or sorted(known)
    for f in o.files:
        text = open("/repo/" + f).read()
        ms = sorted(set(mutants(text)))
        rnd = random.Random("%d %s" % (o.seed, f))
        rnd.shuffle(ms)
        if o.redo:
            ms = [x for x in ms if (x[0] + 1, "%s => %s" % (" ".join(x[1].split())[:110], " ".join(x[2].split())[:110])) in known.get(f, set())]
        todo += [(f, text, x) for x in ms[:o.limit]]
    for i, (f, text, (n, old, new)) in enumerate(todo):
        if i % o.slots != o.slot:
            continue
        lines = text.split("\n")
        k = old.count("\n") + 1
        p = os.path.join(dst, f)
        open(p, "w").write("\n".join(lines[:n] + [new] + [""] * (k - 1) + lines[n + k:]))
        res, t0 = "SURVIVED", time.time()
        for c in o.checks.split() or checks(f):
            try:
                r = subprocess.run(["timeout", "-s", "KILL", "400", sys.executable, VERIF + "/check.py", c, "--scale", o.scale], env=env, cwd=VERIF,
                                   capture_output=True, text=True)
            except Exception as e:  # noqa
                res = "ERROR %s" % e
                break
            out = r.stdout + r.stderr
            if r.returncode == 1:
                msg = [l for l in out.splitlines() if l.startswith("FAIL")]
                res = "killed %s %s" % (c, msg[0][:110] if msg else "")
                break
            if r.returncode == 3:
                res = "nobuild"
                break
            if r.returncode != 0:
                res = "ODD %s rc=%d %s" % (c, r.returncode, out[-200:].replace("\n", " | "))
                break
        with open(o.out, "a") as w:
            w.write("%s:%d %s | %s => %s (%.0fs)\n" % (f, n + 1, res, " ".join(old.split())[:110], " ".join(new.split())[:110], time.time() - t0))
        open(p, "w").write(text)


main()

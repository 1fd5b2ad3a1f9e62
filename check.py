#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the property's harness from the repository's current working tree, runs
its generated-input search, rewrites evidence/<id>.json and reports.
Exit 0: held on everything explored.  Exit 1: a VIOLATION line says what to
replay.  Anything else: the check itself could not answer.
"""
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B  # noqa: E402
from checks import CHECKS  # noqa: E402


def known():
    """known-findings.txt: 'known: property=<id> prop=<harness property> match=<regex> <what>'."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) prop=(\S+) (.*)", line)
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    if not args or args[0] not in CHECKS:
        print("usage: check.py <%s> [--tier T] [--seed N] [--replay FILE]" % "|".join(CHECKS))
        return 2
    pid = args[0]

    def opt(name, default):
        return args[args.index(name) + 1] if name in args else default

    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    scale = opt("--scale", "1")
    check = CHECKS[pid]
    t0 = time.time()
    try:
        paths = B.build(check["exes"])
    except B.BuildError as e:
        print("BUILD-FAILED property=%s\n%s" % (pid, e))
        return 3
    t_build = time.time() - t0

    replay = opt("--replay", None)
    if replay:
        rc = 2
        named = [e for e in check["exes"] if e.name in os.path.abspath(replay).split(os.sep)]
        for e in named or check["exes"]:
            rc = subprocess.run([paths[e.name], "--replay", replay]).returncode
            if rc in (0, 1):
                break
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        return rc

    rdir = os.path.join(VERIF, "replays", pid)
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    props, viols, broken = [], [], False
    for e in check["exes"]:
        out = os.path.join(B.BUILD, "out-%s-%s-%d.json" % (pid, e.name, os.getpid()))
        r = subprocess.run([paths[e.name], "--tier", tier, "--seed", str(seed), "--out", out, "--replay-dir", os.path.join(rdir, e.name),
                            "--scale", scale])
        try:
            with open(out) as f:
                j = json.load(f)
            os.unlink(out)
        except (OSError, ValueError) as ex:
            print("HARNESS-FAILED property=%s exe=%s rc=%d %s" % (pid, e.name, r.returncode, ex))
            return 4
        for p in j["props"]:
            p["exe"] = e.name
            props.append(p)
        for v in j["violations"]:
            v["exe"] = e.name
            viols.append(v)
        broken = broken or j["broken"]

    listed = [k for k in known() if k[0] == pid]
    news = []
    seen_known = set()
    for v in viols:
        hit = [k for k in listed if k[1] == v["prop"]]
        if hit:
            seen_known.add(hit[0])
        else:
            news.append(v)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    props_ev = [p for p in props if not any(k[1] == p["name"] for k in listed)]
    evaluations = sum(p["evaluations"] for p in props_ev)
    distinct = sum(p["distinct_nontrivial"] for p in props_ev)
    samples = []
    for p in props_ev:
        for s in p["samples"][:2]:
            samples.append({"prop": p["name"], "case": s})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": check.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": "; ".join("%s: %s" % (p["name"], p["rule"]) for p in props_ev),
            "samples": samples[:12],
            "per_prop": {
                p["exe"] + ":" + p["name"]: {
                    k: p[k] for k in ("planned", "evaluations", "discarded", "nontrivial", "distinct_nontrivial",
                                      "guided", "corpus", "features", "wall_s", "labels")
                } for p in props
            },
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t_build, 2),
        "violations": len(news),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for p in props:
        print("%s %s:%s cases=%d nontrivial=%d discarded=%d %.1fs" % (
            pid, p["exe"], p["name"], p["evaluations"], p["nontrivial"], p["discarded"], p["wall_s"]))
    for v in news:
        print("FAIL prop=%s %s" % (v["prop"], v["msg"][:2000]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(v["path"], VERIF)))
    if news:
        return 1
    if broken:
        return 5
    print("%s held: %d cases, %d distinct non-trivial, build %.1fs total %.1fs" % (
        pid, evaluations, distinct, t_build, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())

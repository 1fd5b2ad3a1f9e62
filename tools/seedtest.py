"""python3 tools/seedtest.py ID...: does each planted bug count, and is it caught?

Works on copies of /repo and of /verif under /tmp; nothing reads its results."""
import json, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, t=900, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=e)
    return r.returncode, r.stdout + r.stderr


def one(id, nocheck):
    d = f'{VERIF}/seeded/{id}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    w = f'/tmp/seedtest/{id}'
    subprocess.run(['rm', '-rf', w])
    os.makedirs(w)
    subprocess.run(['cp', '-a', '/repo', f'{w}/repo'])
    t = time.time()
    a, oa = sh(f'bash {d}/demo.sh', f'{w}/repo')
    ta = time.time() - t
    p, op = sh(f'git apply {d}/patch.diff', f'{w}/repo')
    b, ob = sh(f'bash {d}/demo.sh', f'{w}/repo')
    out = f'{id}: clean demo {a} ({ta:.0f} s), patch {p}, patched demo {b}'
    if a: out += '\n' + oa[:700]
    if p: out += '\n' + op[-500:]
    if not b: out += '\n' + ob[-500:]
    else: out += '  ' + ob.strip()[-300:]
    if not nocheck:
        c, oc = sh(f'VERIF_TIER=quick python3 {VERIF}/check.py {prop}', VERIF, env={'REPO': f'{w}/repo', 'VERIF_BUILD': '/tmp/seedtest/build'})
        out += f'\n   check {prop}: {c} ' + ('CAUGHT' if c == 1 and f'VIOLATION property={prop}' in oc else 'MISSED') + '  ' + oc.strip()[-200:]
    subprocess.run(['rm', '-rf', w])
    return out


def stable(id):
    # in /repo itself: the stable build and tests know no other place
    d = f'{VERIF}/seeded/{id}'
    a, oa = sh(f'git apply {d}/patch.diff', '/repo')
    b, ob = sh('bash /opt/vp/build.sh', '/repo')
    c, oc = sh('bash /opt/vp/test.sh /tmp/seedtest.json', '/repo')
    sh('git checkout -- .', '/repo')
    want = json.load(open('/opt/vp/BASELINE.json'))
    got = json.load(open('/tmp/seedtest.json'))
    return f'{id}: patch {a} build {b} tests {str(got)[:0]}' + summary(want, got)


def passed(x):
    if isinstance(x, dict):
        for k in ('passed', 'stable', 'tests'):
            if isinstance(x.get(k), list):
                return {str(i) for i in x[k]}
    return set()


def summary(want, got):
    a, b = passed(want), passed(got)
    return f'{len(a & b)}/{len(a)} pass'


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    nocheck = '-n' in sys.argv
    for id in a:
        if '-t' in sys.argv:
            print(stable(id), flush=True)
        else:
            print(one(id, nocheck), flush=True)

"""Writes planted bugs: python3 tools/mkseed.py FILE.py...

Each FILE.py calls seed(id, prop, edits, demo, needs, breaks); the directory
seeded/<id> is made of it: the patch, the demonstration and what it needs.
"""
import json, os, re, subprocess, sys, tarfile, io

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
KIT = [('shim', 'shim'), ('rt/vclock.hpp', 'vclock.hpp'), ('rt/vclock.cpp', 'vclock.cpp'),
       ('rt/redirect.hpp', 'redirect.hpp'), ('rt/redirect.cpp', 'redirect.cpp'),
       ('rt/loop.hpp', 'loop.hpp'), ('rt/loop.cpp', 'loop.cpp'), ('props/daemon.hpp', 'daemon.hpp'),
       ('props/busworld.hpp', 'busworld.hpp'), ('props/passive.hpp', 'passive.hpp'),
       ('props/dbusconf.hpp', 'dbusconf.hpp'),
       ('tools/kit/unitzone.hpp', 'unitzone.hpp'), ('tools/kit/engine.hpp', 'engine.hpp'), ('tools/kit/demo.hpp', 'demo.hpp')]


def plain(t):
    t.uid = t.gid = 0
    t.uname = t.gname = 'root'
    t.mtime = 0
    return t


def kit(path):
    import gzip
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode='w') as t:
        for src, dst in KIT:
            p = os.path.join(VERIF, src)
            if os.path.isdir(p):
                for d, ds, fs in sorted(os.walk(p)):
                    ds.sort()
                    for f in sorted(fs):
                        q = os.path.join(d, f)
                        t.add(q, 'kit/' + dst + '/' + os.path.relpath(q, p), filter=plain)
            else:
                t.add(p, 'kit/' + dst, filter=plain)
    with open(path, 'wb') as f:
        with gzip.GzipFile(filename='', fileobj=f, mode='wb', mtime=0) as g:
            g.write(raw.getvalue())


def seed(id, prop, edits, demo, needs, breaks):
    d = f'{VERIF}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    diff = ''
    files = {}
    for f, old, new in edits:
        text = files.get(f) or open(f'{REPO}/{f}').read()
        n = text.count(old)
        if n != 1:
            sys.exit(f'{id}: {f}: {n} occurrences of {old!r}')
        files[f] = text.replace(old, new)
    for f, text in files.items():
        w = f'/tmp/mkseed.{os.getpid()}'
        open(w, 'w').write(text)
        r = subprocess.run(['diff', '-u', f'--label=a/{f}', f'--label=b/{f}', f'{REPO}/{f}', w], capture_output=True, text=True)
        os.unlink(w)
        diff += f'diff --git a/{f} b/{f}\n' + r.stdout
        # lines removed should be original ones
        blame = subprocess.run(['git', '-C', REPO, 'blame', '-s', f], capture_output=True, text=True).stdout.split('\n')
        ln = 0
        for l in r.stdout.split('\n'):
            m = re.match(r'@@ -(\d+)', l)
            if m:
                ln = int(m[1])
            elif l.startswith('-') and not l.startswith('---'):
                if not blame[ln - 1].startswith('^'):
                    print(f'{id}: WARNING not an original line: {blame[ln-1]}')
                ln += 1
            elif l.startswith(' '):
                ln += 1
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.cpp', 'w').write(demo.lstrip())
    subprocess.run(['cp', f'{VERIF}/tools/kit/demo.sh', f'{d}/demo.sh'], check=True)
    kit(f'{d}/kit.tgz')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    print('wrote', id)


if __name__ == '__main__':
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, 'exec'))

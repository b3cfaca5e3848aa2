"""Builds /verif/seeded from tool/seed_table.py: makes each change in a scratch copy of /repo, checks that it builds,
passes the repository's tests, and that its demonstration fails with it and passes without it.
python3 tool/mkseed.py [ids]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIBS = 'common ecdf1_new ecdf1_mns2016 ecdf2 fftwconvolver poisson_pmf string_utils read_boundaries_file'.split()
DEMO_CC = '''#!/bin/bash
# cwd: the repository, built.  Exit 0: behaves as it should.
set -e
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=c++11 -g %(flags)s -march=native -include iterator -include limits -I src "$d/demo.cc" %(srcs)s -lfftw3 -lm -o "$w/demo"
cd "$w"; ulimit -c 0
%(env)stimeout %(tmo)d ./demo
'''
SEEDS = []


def seed(id, prop, edits, what, needs, cc=None, sh=None, py=None, flags='-O1', env='', tmo=100, files=None):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, what=what, needs=needs, cc=cc, sh=sh, flags=flags, env=env, tmo=tmo, files=files or {}))


PYSH = '''#!/bin/bash
# cwd: the repository, built.  Exit 0: behaves as it should.
d=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$(echo "$PWD"/_build/py/lib.*) timeout 200 python3 -W ignore "$d/demo.py"
'''


def pyseed(id, edits, what, needs, py): seed(id, 'C17', edits, what, needs, sh=PYSH, files={'demo.py': py})


exec(open(os.path.join(V, 'tool', 'seed_table.py')).read())


def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def make(s):
    d = os.path.join(V, 'seeded', s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed_')
    r = os.path.join(w, 'repo'); sh('git clone -q /repo %s' % r, '/')
    for f, a, b in s['edits']:
        p = os.path.join(r, f); t = open(p).read()
        assert t.count(a) >= 1, (s['id'], f, a)
        open(p, 'w').write(t.replace(a, b, 1))
    diff = sh('git diff', r).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    if s['cc']:
        open(os.path.join(d, 'demo.cc'), 'w').write(s['cc'])
        srcs = ' '.join('src/%s.cc' % x for x in LIBS + ['tinymt64'] * (s['prop'] == 'C18'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_CC % dict(flags=s['flags'], srcs=srcs, env=s['env'], tmo=s['tmo']))
    else: open(os.path.join(d, 'demo.sh'), 'w').write(s['sh'])
    for n, c in s['files'].items(): open(os.path.join(d, n), 'w').write(c)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    out = []
    # build, tests and demo in the patched copy; demo in a clean one
    def go(cmd): return sh(cmd, r, timeout=600)
    b = go('make -j4 CXX="g++ -include iterator -include limits" all')
    if b.returncode: out.append('BUILD FAILS ' + b.stderr[-300:])
    t = go('PYTHONDONTWRITEBYTECODE=1 timeout 200 python3 -m pytest -q -p no:cacheprovider tests')
    if t.returncode: out.append('TESTS FAIL ' + t.stdout[-300:])
    EXT = 'CC=gcc CXX=g++ CFLAGS="-include iterator -include limits" python3 setup.py build --build-base %s/_build/py' % r
    ext = 'demo.py' in s['files']
    if ext and go(EXT).returncode: out.append('EXTENSION DOES NOT BUILD')
    x = go('bash %s/demo.sh' % d)
    if x.returncode == 0: out.append('DEMO PASSES WITH PATCH')
    go('git checkout -q -- . && make -j4 CXX="g++ -include iterator -include limits" all')
    if ext: go('touch python_extension/* src/*; rm -rf %s/_build' % r); go(EXT)
    y = go('bash %s/demo.sh' % d)
    if y.returncode: out.append('DEMO FAILS ON CLEAN TREE ' + (y.stdout + y.stderr)[-300:])
    shutil.rmtree(w)
    return s['id'] + ': ' + ('; '.join(out) or 'ok (demo exit %d)' % x.returncode)


import concurrent.futures as cf
only = sys.argv[1:]
with cf.ThreadPoolExecutor(4) as ex:
    for f in cf.as_completed([ex.submit(make, s) for s in SEEDS if not only or s['id'] in only]): print(f.result(), flush=True)

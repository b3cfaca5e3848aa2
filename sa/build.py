"""Compile /repo's current sources (plus analysis drivers) to LLVM IR and extract the
inlined, normalised program of chosen roots as JSON.  Nothing is ever executed."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CLANG = '/usr/bin/clang++'
BASEFLAGS = ['-std=c++11', '-include', 'iterator', '-include', 'limits', '-ffast-math', '-fwrapv',
             '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-c', '-emit-llvm', '-w',
             '-I', os.path.join(VERIF, 'tool/stubs')]
PASSES = ('always-inline,globaldce,function(sroa,early-cse,simplifycfg,instsimplify,sroa,early-cse<memssa>,'
          'simplifycfg,instsimplify,adce,loop-simplify),globaldce')


class AnalysisError(Exception):
    """The machinery could not analyse the tree (vanished anchor, compile failure...)."""


def scratch():
    global _scratch
    try:
        return _scratch
    except NameError:
        _scratch = tempfile.mkdtemp(prefix='sa_')
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        return _scratch


def irx_path():
    p = os.path.join(VERIF, 'tool', 'build', 'irx')
    if not os.path.exists(p):
        build_irx()
    return p


def build_irx():
    d = os.path.join(VERIF, 'tool', 'build')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'irx')
    cfg = lambda *a: subprocess.check_output(['llvm-config-18', *a], text=True).split()
    tmp = p + '.%d' % os.getpid()
    subprocess.check_call(['g++', '-w', '-O1'] + cfg('--cxxflags') + [os.path.join(VERIF, 'tool/irx.cpp'), '-o', tmp]
                          + cfg('--ldflags', '--libs') + ['-fexceptions'])
    os.replace(tmp, p)


def repo_sources():
    src = os.path.join(REPO, 'src')
    out = sorted(glob.glob(src + '/*.cc') + glob.glob(src + '/*.cpp'))
    if not out:
        raise AnalysisError('no sources under %s' % src)
    return out


MAIN_UNITS = {'crossprob.cc', 'crossprob_mc.cc'}


def library_sources():
    return [s for s in repo_sources() if os.path.basename(s) not in MAIN_UNITS]


def shadow_headers():
    """a copy of the standard library's stl_algobase.h in which the search algorithms' four-fold unrolled loop is
    written as the plain loop it stands for"""
    d = os.path.join(scratch(), 'shadow')
    if os.path.isdir(d): return d
    out = subprocess.run([CLANG, '-xc++', '-E', '-H', '-o', '/dev/null', '-'], input='#include <algorithm>\n', capture_output=True, text=True).stderr
    m = re.search(r'(\S+/bits/stl_algobase\.h)', out)
    tmp = d + '.tmp'; os.makedirs(tmp + '/bits', exist_ok=True)
    if m:
        s = open(m.group(1)).read()
        t = re.sub(r'(__find_if\(_RandomAccessIterator __first, _RandomAccessIterator __last,\s*_Predicate __pred, random_access_iterator_tag\)\s*)\{.*?default:\s*return __last;\s*\}\s*\}',
                   r'\1{ while (__first != __last && !__pred(__first)) ++__first; return __first; }', s, count=1, flags=re.S)
        if t != s: open(tmp + '/bits/stl_algobase.h', 'w').write('#line 1 "%s"\n' % m.group(1) + t)
    os.rename(tmp, d)
    return d


def _compile(path, extra=()):
    key = hashlib.sha1((path + '|' + '|'.join(extra)).encode()).hexdigest()[:12]
    out = os.path.join(scratch(), os.path.basename(path) + '.' + key + '.bc')
    if not os.path.exists(out):
        cmd = [CLANG] + BASEFLAGS + list(extra) + ['-isystem', shadow_headers(), '-I', os.path.join(REPO, 'src'), path, '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot compile %s:\n%s' % (path, r.stderr[-2000:]))
    return out


def extract(roots, units, extra_opaque=(), flags=(), passes=PASSES, tag=None):
    """roots: qualified function names; units: source paths. Returns the parsed JSON program."""
    shadow_headers()
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda u: _compile(u, tuple(flags)), units))
    out = os.path.join(scratch(), (tag or 'p') + '.%s.json' % hashlib.sha1(repr((roots, units, extra_opaque, flags)).encode()).hexdigest()[:12])
    cmd = [irx_path(), out, '--roots=' + ','.join(roots), '--opaque=' + os.path.join(VERIF, 'tool/opaque.txt'),
           '--passes=' + passes, '--emit-ll=' + out + '.ll'] + ['--xopaque=' + x for x in extra_opaque] + bcs
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('irx failed: ' + r.stderr[-2000:])
    with open(out) as f:
        return json.load(f)

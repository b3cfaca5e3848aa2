"""Models used when the simulation program is analysed: the random number generator is a sequence of independent draws, and
the decision whether a path crosses (decided on its own) is opaque."""
from terms import *
import os, re, subprocess
from models import QTABLE, PATTERNS, plead
from eval import OState
import build, cli

DRAW = r'^tinymt64_'
CROSS = 'does_integer_step_function_cross'
ESTIMATE = ['ecdf_crossing_probability_montecarlo', 'poisson_process_crossing_probability_montecarlo']
OPAQUE = [DRAW, r'^%s$' % CROSS]


def roles():
    """the decision and the two simulations; where one has another name, the only function with its signature"""
    out = subprocess.run(['llvm-dis-18', '-o', '-', build._compile(os.path.join(build.REPO, 'src', 'crossprob_mc.cc'))], capture_output=True, text=True).stdout
    fns = {}
    for m in re.finditer(r'^define .*?(\w+) @(\w+)\((.*)\)', out, re.M):
        name = subprocess.run(['c++filt', m.group(2)], capture_output=True, text=True).stdout.split('(')[0].strip()
        if m.group(2).startswith('_ZL') or m.group(2).startswith('_ZN12_GLOBAL'): fns[name.replace('(anonymous namespace)::', '')] = (m.group(1), tuple(x.split()[0] for x in m.group(3).split(', ') if x))
    sig = {CROSS: ('i1', ('ptr', 'i64', 'ptr', 'ptr')), ESTIMATE[0]: ('double', ('i64', 'ptr', 'ptr', 'i64')), ESTIMATE[1]: ('double', ('double', 'ptr', 'ptr', 'i64'))}
    r = {}
    for k, s in sig.items():
        if k in fns: r[k] = k; continue
        c = [n for n, t in fns.items() if t == s and n not in sig]
        if len(c) == 1: r[k] = c[0]
    OPAQUE[1] = r'^%s$' % r.get(CROSS, CROSS)
    if CROSS in r: QTABLE[r[CROSS]] = cross
    for k in ESTIMATE:
        if k in r: QTABLE[r[k]] = estimate(k)
    return r


def draw(ev, ins, args, mem, pc):
    c = ins.d['callee']; p = plead(args[0])
    if not isinstance(p, Ptr) or not p.off.is_const():
        ev.unsup('random draw from %s' % (args[0],), ins); return leaf(Opq('draw?'))
    st = mem.wr(p.obj)
    k = st.cells.get(p.off.cval())
    if k is None: k = ev.init_cell(p.obj, p.off.cval(), 'i', 8)
    v = app(re.sub('.*tinymt64_generate_', 'draw:', c), [leaf(sym('rng:' + p.obj.name, 's')), k], 'r')
    ev.event('draw', [leaf(Opq(c)), leaf(sym('rng:' + p.obj.name, 's')), k], ins, (dict(st.cells), p.off.cval(), p.obj.kind not in ('param', 'glob') and not st.arrs))
    st.cells[p.off.cval()] = n_add(k, leaf(ONE))
    return v


def seed(ev, ins, args, mem, pc):
    p = plead(args[0])
    if not isinstance(p, Ptr) or not p.off.is_const(): ev.unsup('seeding of %s' % (args[0],), ins); return leaf(UNDEF)
    st = mem.wr(p.obj)
    ev.event('seed', [leaf(sym('rng:' + p.obj.name, 's')), args[1]], ins, (dict(st.cells), p.off.cval(), p.obj.kind not in ('param', 'glob') and not st.arrs))
    st.cells[p.off.cval()] = leaf(ZERO)
    return leaf(UNDEF)


PATTERNS.insert(0, (re.compile(r'^tinymt64_generate_(double|doubleOO|doubleOC|double01|double12)$'), draw))
PATTERNS.insert(0, (re.compile(r'^tinymt64_init$'), seed))


def cross(ev, ins, args, mem, pc):
    """a list at index J, its length, and the two boundary lists"""
    p = args[0]
    el = leaf(Opq('steps?'))
    def at(x, i=Poly.atom(cli.J)):
        if not isinstance(x, Ptr): return leaf(Opq('steps?'))
        st = mem.get(x.obj).copy()
        k = ev.split_off(x.obj, x.off, 8)
        base = k[2] if k[0] == 'arr' else Poly.const(x.off.cval() // 8)
        return read_arr(ev.get_arr(st, x.obj, 0, 'r'), base + i, 'r', ev.decide_node)
    el = apply(at, p)
    lists = [cli.vec_value(ev, mem, a, ins) or (leaf(Opq('vec?')),) * 2 for a in args[2:4]]
    ev.event('cross', [el, args[1]] + [x for l in lists for x in l], ins)
    return app('crosses', [leaf(Poly.const(ins.id)), args[1], apply(lambda x: at(x, ZERO), p)], 'i')


QTABLE[CROSS] = cross



def estimate(name):
    def f(ev, ins, args, mem, pc):
        lists = [cli.vec_value(ev, mem, a, ins) or (leaf(Opq('vec?')),) * 2 for a in args[1:3]]
        ev.event('estimate', [leaf(Opq(name)), args[0]] + [x for l in lists for x in l] + [args[3]], ins)
        return app('estimate:' + name, [leaf(Poly.const(ins.id))], 'r')
    return f


for n_ in ESTIMATE: QTABLE[n_] = estimate(n_)

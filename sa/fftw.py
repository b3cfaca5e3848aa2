"""Model of the FFTW calls: plans are values, executing one writes DFT terms; the inverse transform of a
product of forward transforms is rewritten to a circular convolution."""
from terms import *
from prove import leaves
import terms
import models
from models import model, plead, leaf_div, ev_check_range, ev_check_init_range
from eval import paths, arr_sort

ESTIMATE, DESTROY, PRESERVE, WISDOM_ONLY = 1 << 6, 1 << 0, 1 << 4, 1 << 21
terms.BINDERS |= {'dftre', 'dftim', 'idft'}
terms.NONNULL |= {'plan'}


def payload(n):
    return n.leaf if n.atom is None else n


def mkplan(kind):
    def f(ev, ins, args, mem, pc):
        n, i, o, fl = args[:4]
        def g(n, i, o, fl):
            if not (isinstance(fl, Poly) and fl.is_const()):
                ev.unsup('FFTW flags %s' % (fl,), ins); return leaf(Opq('plan?'))
            flags = fl.cval() & 0xffffffff
            if not flags & (ESTIMATE | WISDOM_ONLY):
                # measuring planners overwrite the arrays
                for p, c in ((i, 'in'), (o, 'out')):
                    if isinstance(p, Ptr): clobber(ev, mem, p, 'planner')
            return leaf(Poly.atom(Atom('plan', (kind, n, i, o, Poly.const(flags)), 'p')))
        r = apply(g, n, i, o, fl)
        ev.event('plan-create', [r], ins)
        return r
    return f


models.TABLE['fftw_plan_dft_r2c_1d'] = mkplan('r2c')
models.TABLE['fftw_plan_dft_c2r_1d'] = mkplan('c2r')


def clobber(ev, mem, p, why):
    st = mem.wr(p.obj)
    for f in list(st.arrs) or [0]:
        nm = havoc_arr('junk:%s' % why)
        st.arrs[f] = leaf(Arr('base', nm, 'r'))


@model('fftw_destroy_plan')
def destroy(ev, ins, args, mem, pc):
    ev.event('plan-destroy', [args[0]], ins)
    return leaf(UNDEF)


@model('fftw_execute')
def execute(ev, ins, args, mem, pc):
    run(ev, ins, args[0], None, None, mem, None); return leaf(UNDEF)


@model('fftw_execute_dft_r2c')
def execute_r2c(ev, ins, args, mem, pc):
    run(ev, ins, args[0], args[1], args[2], mem, 'r2c'); return leaf(UNDEF)


@model('fftw_execute_dft_c2r')
def execute_c2r(ev, ins, args, mem, pc):
    run(ev, ins, args[0], args[1], args[2], mem, 'c2r'); return leaf(UNDEF)


for nm in ('fftw_cleanup', 'fftw_set_timelimit', 'fftw_forget_wisdom', 'fftw_init_threads'):
    models.TABLE[nm] = models.nop


def run(ev, ins, plan, i, o, mem, want):
    old_pc = ev.pc_now
    before = mem.copy()
    results = []
    for cond, p in paths(plan):
        a = p.single_atom() if isinstance(p, Poly) else None
        if isinstance(p, Poly) and p.is_const():
            if ev.decide_node(b_not(cond)) is True: continue
            ev.obl('null-plan', ins, 'the executed plan exists', False); continue
        if a is None or a.kind != 'plan':
            ev.unsup('execution of plan %s' % (p,), ins); continue
        kind, n, pi, po, fl = a.args
        if want and kind != want: ev.obl('plan-kind', ins, 'a %s plan is executed as %s' % (kind, want), False)
        ev.pc_now = b_and(old_pc, cond)
        m2 = before.copy()
        ii = plead(i) if i is not None else pi
        oo = plead(o) if o is not None else po
        transform(ev, ins, kind, n, ii, oo, fl.cval(), m2)
        results.append((cond, m2))
    ev.pc_now = old_pc
    if not results: return
    # merge
    objs = set()
    for c, m in results: objs |= set(m.objs)
    for ob in objs:
        sts = [(c, m.objs[ob]) for c, m in results if ob in m.objs]
        base = before.objs.get(ob)
        if all(s is base for c, s in sts): continue
        st = mem.wr(ob)
        fs = {f for c, s in sts for f in s.arrs}
        for f in fs:
            v = sts[-1][1].copy(); r = ev.get_arr(v, ob, f, 'r'); ri = ev.get_init(v, ob, f)
            for c, s in sts[:-1]:
                s = s.copy(); r = ite(c, ev.get_arr(s, ob, f, 'r'), r); ri = ite(c, ev.get_init(s, ob, f), ri)
            st.arrs[f] = r; st.init[f] = ri


def transform(ev, ins, kind, n, pi, po, flags, mem):
    if not (isinstance(pi, Ptr) and isinstance(po, Ptr) and pi.off == ZERO and po.off == ZERO):
        ev.unsup('FFT buffers %s %s' % (pi, po), ins); return
    half = app('fdiv', [n, Poly.const(2)]).leaf + ONE
    nin, sin = (n, 8) if kind == 'r2c' else (half, 16)
    nout, sout = (half, 16) if kind == 'r2c' else (n, 8)
    for p, s in ((pi, sin), (po, sout)):
        meta = ev.objmeta.get(p.obj.name, p.obj)
        if meta.stride is None: meta.stride = s
        if meta.stride != s: ev.unsup('FFT buffer element size', ins); return
    ev_check_range(ev, ins, mem, pi, leaf(nin.scale(sin)), 'FFT input')
    ev_check_range(ev, ins, mem, po, leaf(nout.scale(sout)), 'FFT output')
    stin = mem.get(pi.obj)
    j = fresh('j', 'i'); ja = j.single_atom()
    import loops
    loops.SYMFACTS[ja] = [(-j, False), (j - nin + ONE, False)]
    fields = [0] if kind == 'r2c' else [0, 8]
    vals = []
    s0 = stin.copy()
    for f in fields:
        a = ev.get_arr(s0, pi.obj, f, 'r')
        vals.append(read_arr(a, j, 'r', ev.decide_node))
        r = read_init(ev, s0, pi.obj, f, j)
        ev.obl('init', ins, 'every FFT input element of %s is written before the transform' % pi.obj, r, 'init=%s' % str(r)[:300])
    sto = mem.wr(po.obj)
    for f in ([0, 8] if kind == 'r2c' else [0]): ev.get_arr(sto, po.obj, f, 'r')
    bv = fresh('k', 'i').single_atom(); K = Poly.atom(bv)
    loops.SYMFACTS[bv] = [(-K, False), (K - nout + ONE, False)]
    def put(f, v):
        v = ev.simp_now(v)
        st = mem.wr(po.obj)
        st.arrs[f] = leaf(Arr('upd', ev.get_arr(st, po.obj, f, 'r'), ZERO, nout, bv, v))
        st.init[f] = leaf(Arr('upd', ev.get_init(st, po.obj, f), ZERO, nout, Atom('sym', ('$s',), 'i'), TRUE))
    if kind == 'r2c':
        def g(part):
            nb, bb = terms._canon_bv(vals[0], ja, n)
            return leaf(Poly.atom(Atom('dft' + part, (nb, n, bb, K), 'r')))
        put(0, g('re')); put(8, g('im'))
    else:
        put(0, inverse(ev, n, ja, vals[0], vals[1], K))
    # what happens to the input
    destroyed = (flags & DESTROY and not flags & PRESERVE) or (kind == 'c2r' and not flags & PRESERVE)
    if destroyed and pi.obj != po.obj: clobber(ev, mem, pi, 'fft')


def read_init(ev, st, o, f, j):
    a = ev.get_init(st, o, f)
    r = read_arr(a, j, 'b', ev.decide_node)
    def g(p):
        if isinstance(p, Poly):
            at = p.single_atom()
            if at is not None and at.kind == 'sel' and isinstance(at.args[0], str):
                return TRUE if at.args[0].startswith('init1:') else FALSE
            return leaf(p)
        return FALSE
    return apply(g, r)


def parts_of(p, ja):
    """dft atoms (re/im pairs) at index ja in poly p"""
    out = {}
    for a in p.atoms():
        if a.kind in ('dftre', 'dftim') and a.args[3] == Poly.atom(ja): out[a.args[:3]] = 1
    return list(out)


def inverse(ev, n, ja, zre, zim, m):
    def f(re, im):
        if isinstance(re, Poly) and isinstance(im, Poly):
            r = invert_poly(ev, n, ja, re, im, m)
            if r is not None: return r
        nb, bb = terms._canon_bv(leaf(Agg([leaf(re), leaf(im)])), ja, n)
        return leaf(Poly.atom(Atom('idft', (nb, n, bb, m), 'r')))
    return apply(f, zre, zim)


def invert_poly(ev, n, ja, re, im, m):
    keys = {}
    for p in (re, im):
        for k in parts_of(p, ja): keys[k] = 1
    keys = sorted(keys, key=str)
    R = {k: Atom('dftre', k + (Poly.atom(ja),), 'r') for k in keys}
    I = {k: Atom('dftim', k + (Poly.atom(ja),), 'r') for k in keys}
    if any(k[1] != n for k in keys): return None
    res = leaf(ZERO)
    rre, rim = re, im
    J = fresh('j', 'i').single_atom(); jp = Poly.atom(J)
    def body(k, idx): return subst_node(k[2], {k[0]: idx})
    for x, A in enumerate(keys):
        for B in keys[x:]:
            mon = {}
            c = ZERO
            for k, v in rre.m.items():
                d = dict(k)
                want = {R[A]: 2} if A == B else {R[A]: 1, R[B]: 1}
                if all(d.get(a) == e for a, e in want.items()) and not any(a in d for q in keys for a in (R[q], I[q]) if a not in want):
                    c = c + Poly({tuple(t for t in k if t[0] not in want): v})
            if not c.m or ja in syms_of(c): continue
            ra, ia, rb, ib = (Poly.atom(t) for t in (R[A], I[A], R[B], I[B]))
            rre = rre - c * (ra * rb - ia * ib); rim = rim - c * (ra * ib + ia * rb)
            # indices: j <= m uses b[m-j], j > m wraps around to b[m-j+n]
            t1 = n_mul(body(A, jp), body(B, m - jp)); t2 = n_mul(body(A, jp), body(B, m - jp + n))
            import loops
            loops.SYMFACTS[J] = [(-jp, False), (jp - n + ONE, False)]
            s = quant('sum', J, n, ev.simp_now(ite(ile0(jp - m), t1, t2)), 'r')
            res = n_add(res, n_mul(leaf(scale_n(c, n)), s))
    for A in keys:
        c = ZERO
        for k, v in rre.m.items():
            d = dict(k)
            if d.get(R[A]) == 1 and not any(a in d for q in keys for a in (R[q], I[q]) if a is not R[A]):
                c = c + Poly({tuple(t for t in k if t[0] is not R[A]): v})
        if c.m and ja not in syms_of(c):
            rre = rre - c * Poly.atom(R[A]); rim = rim - c * Poly.atom(I[A])
            res = n_add(res, n_mul(leaf(scale_n(c, n)), body(A, m)))
    if rre.m or rim.m: return None
    return res


def scale_n(c, n):
    r = c * n
    i = inv(n)
    if len(n.m) > 1:
        # n * inv(n) = 1
        out = ZERO
        ia = [a for a in i.atoms() if a.kind == 'inv']
        if ia:
            sc = next(iter(i.m.values()))
            for k, v in c.m.items():
                d = dict(k)
                if d.get(ia[0]) == 1:
                    out = out + Poly({tuple(t for t in k if t[0] is not ia[0]): v * Fraction(1) / Fraction(sc)})
                else: out = out + Poly({k: v}) * n
            return out
    return r

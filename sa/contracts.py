"""Contracts of the library's own public building blocks, used where a caller is analysed on its own.
Each contract is itself decided on the implementation (drivers in drivers/lib.cc)."""
from terms import *
from prove import leaves
import terms
import order
from models import QTABLE, plead, leaf_div, range_upd, ev_check_range, ev_check_init_range, lit
from eval import arr_sort, paths, OState

OPAQUE = [r'^FFTWConvolver::(FFTWConvolver|~FFTWConvolver|convolve_same_size)$', r'^convolve_same_size$',
          r'^PoissonPMFGenerator::(PoissonPMFGenerator|~PoissonPMFGenerator|compute_array|get_array|evaluate_pmf)$',
          r'^poisson_pmf$', r'^check_boundary_vector$']
ENTRIES = r'^(ecdf2|ecdf1_new_b|ecdf1_new_B|ecdf1_mns2016_b|ecdf1_mns2016_B)$'


def q(*names):
    def d(f):
        for n in names: QTABLE[n] = f
        return f
    return d


def this_cell(ev, mem, this):
    p = plead(this)
    if isinstance(p, Poly) and p.single_atom() is not None: p = Ptr(ev.deref_obj(p.single_atom()), ZERO)
    return p.obj, p.off.cval() + 100000


def holds(ev, n):
    n = n if isinstance(n, Node) else leaf(n)
    return n is TRUE or ev.decide_node(n) is True


def cond(f, *ns):
    return apply(lambda *ps: f(*ps) if all(isinstance(p, Poly) for p in ps) else batom('opq', *ps), *ns)


@q('PoissonPMFGenerator::PoissonPMFGenerator')
def gen_ctor(ev, ins, args, mem, pc):
    o, c = this_cell(ev, mem, args[0])
    mem.wr(o).cells[c] = args[1]
    ev.obl('pre', ins, 'PoissonPMFGenerator is given a positive size', cond(lambda m: ile0(ONE - m), args[1]))
    ev.event('gen-ctor', args, ins)
    return leaf(UNDEF)


def gen_array(ev, mem, o, c):
    nm = 'pmf(%s)' % o.name if c == 100000 else 'pmf(%s+%d)' % (o.name, c - 100000)
    d = ev.objmeta.get(nm)
    if d is None:
        mk_ = mem.get(o).cells.get(c)
        size = n_mul(leaf(Poly.const(8)), n_add(mk_, TRUE)) if mk_ is not None else None
        d = ev.new_obj(nm, size, 'vec', '', 8)
    if d not in mem.objs: mem.objs[d] = OState()
    return d


@q('PoissonPMFGenerator::compute_array')
def gen_compute(ev, ins, args, mem, pc):
    o, c = this_cell(ev, mem, args[0])
    k, lam = args[1], args[2]
    mk_ = mem.get(o).cells.get(c)
    ev.obl('pre', ins, 'compute_array: 0 <= k <= max_k (k = %s)' % k, mk_ is not None and cond(lambda a, m: b_and(ile0(-a), ile0(a - m)), k, mk_))
    ev.obl('nonneg-lambda', ins, 'compute_array: intensity %s is not negative' % lam, cond(lambda l: b_not(flt0(l)), lam))
    d = gen_array(ev, mem, o, c)
    n = n_add(k, TRUE)
    bytes_ = n_mul(n, leaf(Poly.const(8)))
    old = ev.objmeta[d.name].size; ev.objmeta[d.name].size = None
    # everything beyond k is unspecified
    st = mem.wr(d)
    nm = havoc_arr('stale:' + d.name)
    st.arrs = {0: leaf(Arr('base', nm, 'r'))}; st.init = {}
    range_upd(ev, ins, mem, Ptr(d, ZERO), bytes_, lambda f, j, lo, s: app('pois', [lam, j], 'r'))
    ev.objmeta[d.name].size = old
    ev.event('compute_array', args, ins)
    return leaf(UNDEF)


@q('PoissonPMFGenerator::get_array')
def gen_get(ev, ins, args, mem, pc):
    o, c = this_cell(ev, mem, args[0])
    return leaf(Ptr(gen_array(ev, mem, o, c), ZERO))


@q('PoissonPMFGenerator::evaluate_pmf')
def gen_eval(ev, ins, args, mem, pc):
    o, c = this_cell(ev, mem, args[0])
    mk_ = mem.get(o).cells.get(c)
    lam, k = args[1], args[2]
    ev.obl('pre', ins, 'evaluate_pmf: 0 <= k <= max_k (k = %s)' % k, mk_ is not None and cond(lambda a, m: b_and(ile0(-a), ile0(a - m)), k, mk_))
    ev.obl('nonneg-lambda', ins, 'evaluate_pmf: intensity %s is not negative' % lam, cond(lambda l: b_not(flt0(l)), lam))
    return app('pois', [lam, k], 'r')


@q('PoissonPMFGenerator::~PoissonPMFGenerator', 'FFTWConvolver::~FFTWConvolver')
def dtor(ev, ins, args, mem, pc):
    ev.event('dtor', args, ins); return leaf(UNDEF)


@q('poisson_pmf')
def pmf(ev, ins, args, mem, pc):
    ev.obl('pre', ins, 'poisson_pmf: k >= 0', cond(lambda a: ile0(-a), args[1]))
    ev.obl('nonneg-lambda', ins, 'poisson_pmf: intensity is not negative', cond(lambda l: b_not(flt0(l)), args[0]))
    return app('pois', [args[0], args[1]], 'r')


@q('FFTWConvolver::FFTWConvolver')
def conv_ctor(ev, ins, args, mem, pc):
    o, c = this_cell(ev, mem, args[0])
    mem.wr(o).cells[c] = args[1]
    ev.obl('pre', ins, 'FFTWConvolver is given a positive size', cond(lambda m: ile0(ONE - m), args[1]))
    ev.event('conv-ctor', args, ins)
    return leaf(UNDEF)


def do_convolve(ev, ins, size, a, b, d, mem, pc, how):
    old = ev.pc_now
    nonempty = cond(lambda s: b_not(ile0(s)), size)
    by = n_mul(size, leaf(Poly.const(8)))
    def resolve(x):
        def g(p):
            if isinstance(p, Poly) and p.single_atom() is not None: return Ptr(ev.deref_obj(p.single_atom()), ZERO)
            return p
        return apply(g, x)
    a, b, d = resolve(a), resolve(b), resolve(d)
    before = mem.copy()
    def rd(x):
        """element i of the block x points to"""
        def at(i):
            def g(p):
                if not isinstance(p, Ptr) or isinstance(p.obj, tuple): return leaf(Poly.atom(Atom('unk', (p, i), 'r')))
                k = ev.split_off(p.obj, p.off, 8)
                if k[0] == 'cell': k = ('arr', 0, Poly.const(p.off.cval() // 8))
                st = before.get(p.obj).copy()
                arr = ev.get_arr(st, p.obj, k[1], 'r')
                return read_arr(arr, i + k[2], 'r', ev.decide_node)
            return apply(g, x)
        return at
    for x in (a, b):
        for c, p in paths(x):
            if isinstance(p, Ptr):
                ev.pc_now = b_and(old, c)
                ev_check_range(ev, ins, mem, p, by, 'read (convolution input)')
                n = leaf_div(by, 8)
                if n is not None: ev_check_init_range(ev, ins, mem, p, n)
            else: ev.unsup('convolution input %s' % (p,), ins)
    ev.pc_now = old
    ra, rb = rd(a), rd(b)
    u = fresh('u', 'i').single_atom(); U = Poly.atom(u)
    def val(f, j, lo, s):
        m = j - lo
        return quant('sum', u, m + ONE, n_mul(ra(U), rb(m - U)), 'r')
    for c, p in paths(d):
        if not isinstance(p, Ptr): ev.unsup('convolution output %s' % (p,), ins); continue
        for x in (a, b):
            for c2, p2 in paths(x):
                if isinstance(p2, Ptr) and p2.obj == p.obj and b_and(c, c2) is not FALSE:
                    ev.pc_now = b_and(old, c, c2)
                    ok = holds(ev, b_or(b_not(nonempty), cond(lambda s: b_or(ile0(p.off + s - p2.off), ile0(p2.off + s - p.off)), by)))
                    ev.obl('alias', ins, 'convolution output does not overlap its input', ok); ev.pc_now = old
        if c is TRUE: range_upd(ev, ins, mem, p, by, val)
        else:
            ev.pc_now = b_and(old, c)
            m2 = before.copy(); range_upd(ev, ins, m2, p, by, val)
            ev.pc_now = old
            st = mem.wr(p.obj)
            for f, a2 in m2.get(p.obj).arrs.items(): st.arrs[f] = ite(c, a2, ev.get_arr(st, p.obj, f, 'r'))
            for f, a2 in m2.get(p.obj).init.items(): st.init[f] = ite(c, a2, ev.get_init(st, p.obj, f))
    ev.event('convolve', [leaf(Opq(how)), size, a, b, d], ins)


@q('convolve_same_size')
def conv_direct(ev, ins, args, mem, pc):
    do_convolve(ev, ins, args[0], args[1], args[2], args[3], mem, pc, 'direct'); return leaf(UNDEF)


@q('FFTWConvolver::convolve_same_size')
def conv_fft(ev, ins, args, mem, pc):
    o, c = this_cell(ev, mem, args[0])
    cap = mem.get(o).cells.get(c)
    ev.obl('pre', ins, 'the convolution size %s does not exceed the convolver capacity' % args[1], cap is not None and cond(lambda a, m: ile0(a - m), args[1], cap))
    do_convolve(ev, ins, args[1], args[2], args[3], args[4], mem, pc, 'fft'); return leaf(UNDEF)


@q('check_boundary_vector')
def check(ev, ins, args, mem, pc):
    from models import vec_get, str_val
    v = vec_get(ev, mem, args[2], ins)
    ev.event('check_boundary_vector', [str_val(ev, mem, args[0]), args[1], args[2], v[2] if v else leaf(UNDEF), v[3] if v else leaf(UNDEF)], ins)
    # afterwards: size == n, contents in [0,1], non-decreasing
    if v:
        from eval import Evaluator
        n = leaf_div(n_sub(v[3], v[2]), 8)
        ev.checked = getattr(ev, 'checked', []) + [(v[2], n, args[1], ev.full_pc())]
        eq = cond(lambda a, b: ieq0(a - b), n, args[1]) if n is not None else None
        if eq is not None and eq is not TRUE: ev.ctx.add_node(eq)
        b = plead(v[2])
        if isinstance(b, Ptr):
            meta = ev.objmeta.get(b.obj.name, b.obj)
            st = mem.get(b.obj).copy()
            arr = ev.get_arr(st, b.obj, 0, 'r')
            if arr.atom is None and arr.leaf.kind == 'base': (order.MONO.add(arr.leaf.args[0]), order.UNIT.add(arr.leaf.args[0]))
    return leaf(UNDEF)


sorted_hook = order.hook

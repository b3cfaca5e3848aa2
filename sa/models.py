"""Models of library functions (C, libstdc++, FFTW) used by the evaluator."""
import re
from terms import *
from terms import DECIDE
from prove import leaves

STREAMS = {}


def alloc_size_of(*a): return None


# ---------------------------------------------------------------- exception types
BASES = {
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9exception': None,
    '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt12system_error', '_ZTISt12system_error': '_ZTISt13runtime_error',
    '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt15underflow_error': '_ZTISt13runtime_error',
}


def exn_is_a(t, base):
    while t is not None:
        if t == base: return True
        t = BASES.get(t)
    return False


TABLE = {}
QTABLE = {}
PATTERNS = []


def model(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d


def qmodel(*names):
    def d(f):
        for n in names: QTABLE[n] = f
        return f
    return d


def pmodel(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f)); return f
    return d


_cache = {}


def lookup(c, q):
    k = (c, q)
    if k in _cache: return _cache[k]
    r = TABLE.get(c) or QTABLE.get(q)
    if r is None:
        for rx, f in PATTERNS:
            if rx.search(q) or rx.search(c):
                r = f; break
    _cache[k] = r
    return r


def nop(ev, ins, args, mem, pc): return leaf(UNDEF)


PATTERNS.append((re.compile(r'^llvm\.(lifetime|dbg|assume|experimental\.noalias|invariant|donothing|prefetch|var\.annotation)'), nop))


def plead(n):
    """single leaf payload or None"""
    return n.leaf if n.atom is None else None


# ---------------------------------------------------------------- math
def mathfn(name, arity=1, single=False):
    def f(ev, ins, args, mem, pc):
        r = app(name, args[:arity], 'r')
        return app('float', [r], 'r') if single and name not in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint') else r       # single precision: seven digits of the result
    return f


for base in ('exp', 'log', 'lgamma', 'sqrt', 'tgamma', 'log1p', 'expm1', 'cbrt', 'sin', 'cos', 'tan', 'log2', 'log10', 'exp2', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
    for sfx in ('', 'f', 'l'): TABLE[base + sfx] = mathfn(base, 1, sfx == 'f')
    for ty in ('f64', 'f32', 'f80'): TABLE['llvm.%s.%s' % (base, ty)] = mathfn(base, 1, ty == 'f32')
    QTABLE['std::' + base] = mathfn(base)
for base in ('pow', 'fmod', 'hypot', 'atan2', 'ldexp', 'scalbn'):
    nm = 'ldexp' if base == 'scalbn' else base
    for sfx in ('', 'f', 'l'): TABLE[base + sfx] = mathfn(nm, 2, sfx == 'f')
    for ty in ('f64', 'f32', 'f80', 'f64.f64', 'f64.i32', 'f80.i32'): TABLE['llvm.%s.%s' % (base, ty)] = mathfn(nm, 2)
TABLE['llvm.powi.f64.i32'] = TABLE['llvm.powi.f80.i32'] = mathfn('pow', 2)


def _abs(ev, ins, args, mem, pc):
    return apply(lambda x: ite(flt0(x), leaf(-x), leaf(x)) if isinstance(x, Poly) else Opq('abs', x), args[0])


for n in ('fabs', 'fabsl', 'llvm.fabs.f64', 'llvm.fabs.f80'): TABLE[n] = _abs


def _mm(mx, real):
    def f(ev, ins, args, mem, pc):
        c = (flt0 if real else (lambda p: ile0(p + ONE)))
        return apply(lambda a, b: ite(c(a - b), leaf(b if mx else a), leaf(a if mx else b)) if isinstance(a, Poly) and isinstance(b, Poly) else Opq('mm', a, b), args[0], args[1])
    return f


for w in ('i32', 'i64'):
    TABLE['llvm.smax.' + w] = TABLE['llvm.umax.' + w] = _mm(True, False)
    TABLE['llvm.smin.' + w] = TABLE['llvm.umin.' + w] = _mm(False, False)
for n in ('fmax', 'fmaxl', 'llvm.maxnum.f64', 'llvm.maxnum.f80'): TABLE[n] = _mm(True, True)
for n in ('fmin', 'fminl', 'llvm.minnum.f64', 'llvm.minnum.f80'): TABLE[n] = _mm(False, True)


@model('llvm.fmuladd.f64', 'llvm.fmuladd.f80', 'llvm.fma.f64', 'fma', 'fmal')
def fma(ev, ins, args, mem, pc): return n_add(n_mul(args[0], args[1]), args[2])


@model('llvm.abs.i32', 'llvm.abs.i64', 'abs', 'labs')
def iabs(ev, ins, args, mem, pc):
    return apply(lambda x: ite(ile0(x), leaf(-x), leaf(x)) if isinstance(x, Poly) else Opq('abs', x), args[0])


@model('llvm.expect.i64', 'llvm.expect.i1', 'llvm.expect.i32')
def expect(ev, ins, args, mem, pc): return args[0]


@model('frexp', 'frexpl', 'frexpf')
def frexp(ev, ins, args, mem, pc):
    e = app('frexp_e', [args[0]], 'i')
    ev.store(mem, args[1], e, 'i32', ins, pc)
    return app('frexp_m', [args[0]], 'r')


@model('ilogb', 'ilogbl', 'logb', 'logbl')
def ilogb(ev, ins, args, mem, pc): return n_sub(app('frexp_e', [args[0]], 'i'), leaf(ONE))


# ---------------------------------------------------------------- memory
def alloc(ev, ins, size, mem, what):
    nm = '%s#%d' % (what, ins.id)
    if ev.loopstack or getattr(ev, 'alloc_suffix', None): pass
    o = ev.new_obj(nm, size, 'heap', ins.loc())
    from eval import OState
    mem.objs[o] = OState()
    if ev.recording: ev.events.append(_event(ev, 'alloc', [leaf(Ptr(o, ZERO)), size], ins))
    return leaf(Ptr(o, ZERO))


def _event(ev, name, args, ins):
    from eval import Event
    return Event(name, args, ev.full_pc(), ins.loc(), None, None, tuple(ev.loopstack))


@model('_mm_malloc', 'aligned_alloc')
def mm_malloc(ev, ins, args, mem, pc):
    size, al = (args[0], args[1]) if 'mm_malloc' in ins.d['callee'] else (args[1], args[0])
    ev.event('aligned-alloc', [size, al], ins)
    return alloc(ev, ins, size, mem, 'mm')


@model('malloc', 'fftw_malloc')
def malloc_(ev, ins, args, mem, pc): return alloc(ev, ins, args[0], mem, ins.d['callee'])


@model('fftw_alloc_real')
def far(ev, ins, args, mem, pc): return alloc(ev, ins, n_mul(args[0], leaf(Poly.const(8))), mem, 'fftw_malloc')


@model('fftw_alloc_complex')
def fac(ev, ins, args, mem, pc): return alloc(ev, ins, n_mul(args[0], leaf(Poly.const(16))), mem, 'fftw_malloc')


@model('calloc')
def calloc_(ev, ins, args, mem, pc):
    size = n_mul(args[0], args[1])
    p = alloc(ev, ins, size, mem, 'malloc')
    fill_zero(ev, ins, p, size, mem)
    return p


@model('_Znwm', '_Znam')
def new_(ev, ins, args, mem, pc): return alloc(ev, ins, args[0], mem, 'new' if ins.d['callee'] == '_Znwm' else 'newarr')


def dealloc(fam):
    def f(ev, ins, args, mem, pc):
        from eval import paths
        for cond, p in paths(args[0]):
            if isinstance(p, Poly) and p.is_const() and p.cval() == 0: continue
            if not isinstance(p, Ptr): ev.unsup('free of %s' % (p,), ins); continue
            if p.off != ZERO: ev.obl('free', ins, 'free of interior pointer %s' % p, False); continue
            o = p.obj
            meta = ev.objmeta.get(o.name, o)
            ok = o.name.startswith(fam)
            if meta.kind == 'heap': ev.obl('free-match', ins, '%s released by its own deallocator (%s)' % (o.name, ins.d['callee']), ok)
            st = mem.wr(o)
            n = st.alive
            ev.obl('double-free', ins, '%s is still owned when released' % o.name, b_or(n, b_not(cond)))
            st.alive = FALSE if cond is TRUE else ite(cond, FALSE, n)
            ev.event('free', [leaf(p)], ins)
        return leaf(UNDEF)
    return f


TABLE['_mm_free'] = dealloc(('mm',))
TABLE['free'] = dealloc(('malloc', 'aligned', 'mm'))
TABLE['fftw_free'] = dealloc(('fftw_malloc',))
for n in ('_ZdlPv', '_ZdlPvm'): TABLE[n] = dealloc(('new#',))
for n in ('_ZdaPv', '_ZdaPvm'): TABLE[n] = dealloc(('newarr#',))


def obj_stride(ev, o, default=8):
    meta = ev.objmeta.get(o.name, o)
    if meta.stride is None: meta.stride = default
    return meta.stride


def range_upd(ev, ins, mem, p, nbytes, valf, what='write'):
    """write [p, p+nbytes) ; valf(field, elem index Poly of destination) -> Node"""
    o = p.obj
    meta = ev.objmeta.get(o.name, o)
    ev_check_range(ev, ins, mem, p, nbytes, what)
    st = mem.wr(o)
    if meta.stride is None: meta.stride = 8
    s = meta.stride
    fields = sorted(set(st.arrs) | {c % s for c in st.cells} | ({0} if s <= 8 or s == 16 and not st.arrs else set()))
    if s == 16: fields = sorted(set(fields) | ({0, 8}))
    if isinstance(o.name, str) and meta.kind == 'x87': fields = [0]
    k = ev.split_off(o, p.off, s)
    if k[0] == 'cell':
        if meta.stride: k = ('arr', p.off.cval() % s, Poly.const(p.off.cval() // s))
    if k[1] != 0: ev.unsup('unaligned block write', ins)
    lo = k[2]
    n = leaf_div(nbytes, s)
    if n is None: ev.unsup('block of %s bytes' % nbytes, ins); return
    bv = fresh('c', 'i').single_atom()
    n1 = plead(n)
    import loops
    if isinstance(n1, Poly): loops.SYMFACTS[bv] = [(lo - Poly.atom(bv), False), (Poly.atom(bv) - lo - n1 + ONE, False)]
    for f in fields:
        a = ev.get_arr(st, o, f, 'r')
        if ev.light: v = leaf(Poly.atom(Atom('sel', (havoc_arr('light'), Poly.atom(bv)), 'r')))
        else: v = ev.simp_now(valf(f, Poly.atom(bv), lo, s))
        def g(arr, cnt):
            if cnt.is_const() and cnt.cval() <= 0: return leaf(arr)
            return leaf(Arr('upd', leaf(arr), lo, lo + cnt, bv, v))
        st.arrs[f] = apply(g, a, n)
        ini = ev.get_init(st, o, f)
        st.init[f] = apply(lambda arr, cnt: leaf(Arr('upd', leaf(arr), lo, lo + cnt, Atom('sym', ('$s',), 'i'), TRUE)), ini, n)


def leaf_div(nbytes, s):
    def f(p):
        if not isinstance(p, Poly): return Opq('bad')
        r = {}
        for k, v in p.m.items():
            if isinstance(v, Fraction) or v % s: return Opq('bad')
            r[k] = v // s
        return Poly(r)
    n = apply(f, nbytes)
    return None if any(isinstance(x, Opq) for x in leaves(n)) else n


def ev_check_range(ev, ins, mem, p, nbytes, what):
    if not ev.recording: return
    o = p.obj
    meta = ev.objmeta.get(o.name, o)
    st = mem.get(o)
    if st.alive is not TRUE: ev.obl('use-after-free', ins, '%s of %s' % (what, o.name), st.alive)
    size = ev.size_of(mem, meta)
    if size is None: return
    c = apply(lambda b, s: b_or(ile0(b), b_and(ile0(-p.off), ile0(p.off + b - s))), nbytes, size)
    ev.obl('bounds', ins, 'block %s of %s bytes at %s, size %s' % (what, nbytes, p, size), c)


def ev_check_init_range(ev, ins, mem, p, n_elems):
    """all elements [p, p+n) initialised (best effort: first layer covering)"""
    if not ev.recording: return
    o = p.obj
    meta = ev.objmeta.get(o.name, o)
    if meta.kind not in ('heap', 'vec', 'stack'): return
    k = ev.split_off(o, p.off, 8)
    if k[0] == 'cell':
        s = meta.stride or 8
        k = ('arr', p.off.cval() % s, Poly.const(p.off.cval() // s))
    import loops
    from eval import guards
    old = ev.pc_now
    for c, nn in guards(n_elems):
        ev.pc_now = b_and(old, c)
        i = fresh('ii', 'i')
        loops.SYMFACTS[i.single_atom()] = [(-i, False), (i - nn + ONE, False)] if isinstance(nn, Poly) else []
        r = ev.read_init(mem, o, k[1], k[2] + i)
        ev.obl('init', ins, 'elements %s .. +%s of %s are written before they are read' % (k[2], nn, o.name), b_or(r, apply(lambda m: ile0(m), leaf(nn))), 'init=%s' % str(r)[:300])
    ev.pc_now = old


@pmodel(r'^(llvm\.memset\.|memset$)')
def memset(ev, ins, args, mem, pc):
    v = plead(args[1])
    if not (isinstance(v, Poly) and v.is_const() and v.cval() == 0):
        ev.unsup('memset with non-zero value', ins)
        val = leaf(Poly.atom(Atom('memset', (args[1],), 'r')))
    else: val = FALSE
    from eval import paths
    for cond, p in paths(args[0]):
        if isinstance(p, Poly) and p.is_const(): continue
        if isinstance(p, Poly) and p.single_atom() is not None: p = Ptr(ev.deref_obj(p.single_atom()), ZERO)
        if not isinstance(p, Ptr): ev.unsup('memset', ins); continue
        fill(ev, ins, p, args[2], mem, val, cond)
    return args[0]


def fill(ev, ins, p, nbytes, mem, val, cond=TRUE):
    o = p.obj
    meta = ev.objmeta.get(o.name, o)
    if (meta.kind == 'stack' or meta.kind == 'heap' and o.name.startswith('new#') and meta.size is not None and meta.size.atom is None and meta.size.leaf.is_const() and meta.size.leaf.cval() <= 64) and meta.stride is None:
        # zeroing a small struct
        nb = plead(nbytes)
        if isinstance(nb, Poly) and nb.is_const() and p.off.is_const():
            st = mem.wr(o)
            for off in range(p.off.cval(), p.off.cval() + nb.cval(), 8): st.cells[off] = val if cond is TRUE else ite(cond, val, st.cells.get(off, FALSE))
            return
    if cond is not TRUE:
        old = mem.get(o).copy()
        m2 = mem.copy()
        range_upd(ev, ins, m2, p, nbytes, lambda f, j, lo, s: val)
        st = mem.wr(o)
        for f, a in m2.get(o).arrs.items(): st.arrs[f] = ite(cond, a, ev.get_arr(st, o, f, 'r'))
        return
    range_upd(ev, ins, mem, p, nbytes, lambda f, j, lo, s: val)


def fill_zero(ev, ins, p, size, mem):
    fill(ev, ins, p.leaf, size, mem, FALSE)


@pmodel(r'^(llvm\.mem(cpy|move)\.|memcpy$|memmove$)')
def memcpy(ev, ins, args, mem, pc):
    d, s = plead(args[0]), plead(args[1])
    nb = plead(args[2])
    from eval import paths
    if d is None or s is None:
        for cd, dd in paths(args[0]):
            for cs, ss in paths(args[1]):
                c = b_and(cd, cs)
                if c is FALSE: continue
                copy_block(ev, ins, mem, dd, ss, args[2], c)
        return args[0]
    copy_block(ev, ins, mem, d, s, args[2], TRUE)
    return args[0]


def copy_block(ev, ins, mem, d, s, nbytes, cond):
    old = ev.pc_now; ev.pc_now = b_and(old, cond)
    try: copy_block1(ev, ins, mem, d, s, nbytes, cond)
    finally: ev.pc_now = old


def copy_constant(ev, mem, d, s, nb, cond):
    """a copy of (a part of) a constant structure: its scalars are stored one by one"""
    g = ev.prog.globals.get(s.obj.name) or {}
    flat = g.get('flat') if g.get('const') else None
    if not flat or len(flat) > 64 or not (isinstance(nb, Poly) and nb.is_const() and s.off.is_const() and d.off.is_const()): return False
    lo, hi = s.off.cval(), s.off.cval() + nb.cval()
    parts = [x for x in flat if lo <= x[0] and x[0] + x[1] <= hi]
    if any(x[3]['k'] not in ('int', 'fp', 'null') or x not in parts and x[0] < hi and x[0] + x[1] > lo for x in flat if x[0] < hi and x[0] + x[1] > lo): return False
    from eval import sort_of
    for off, w, ty, v in parts: ev.store1(mem, Ptr(d.obj, d.off + Poly.const(off - lo)), ev.const(v), w, sort_of(ty), None, cond)
    return True


def copy_block1(ev, ins, mem, d, s, nbytes, cond):
    nb = plead(nbytes)
    if isinstance(d, Poly) and d.single_atom() is not None: d = Ptr(ev.deref_obj(d.single_atom()), ZERO)
    if isinstance(s, Poly) and s.single_atom() is not None: s = Ptr(ev.deref_obj(s.single_atom()), ZERO)
    if isinstance(nb, Poly) and nb.is_const() and nb.cval() == 0: return
    if not isinstance(d, Ptr) or not isinstance(s, Ptr):
        ev.unsup('copy %s <- %s' % (d, s), ins); return
    if s.obj.kind == 'glob' and d.obj.kind != 'glob' and copy_constant(ev, mem, d, s, nb, cond): return
    if s.obj.kind == 'glob' or d.obj.kind == 'glob': ev.unsup('copy of a global', ins); return
    md, ms = ev.objmeta.get(d.obj.name, d.obj), ev.objmeta.get(s.obj.name, s.obj)
    if isinstance(nb, Poly) and nb.is_const() and d.off.is_const() and s.off.is_const() and nb.cval() <= 64 and (md.stride is None or ms.stride is None or md.kind == 'stack'):
        # small struct copy, word by word
        st_s = mem.get(s.obj); st = mem.wr(d.obj)
        offs = [c - s.off.cval() for c in st_s.cells if s.off.cval() <= c < s.off.cval() + nb.cval()]
        if not offs or ms.stride is not None: offs = list(range(0, nb.cval(), 8))
        for o in sorted(offs):
            v = ev.load1(mem, s.obj, s.off + Poly.const(o), 8, 'r', None)
            ev.store1(mem, Ptr(d.obj, d.off + Poly.const(o)), v, 8, 'r', None, cond)
        return
    ds = ms.stride or md.stride or 8
    if md.stride is None: md.stride = ds
    if ms.stride is None: ms.stride = ds
    if md.stride != ms.stride: ev.unsup('copy between different element sizes', ins); return
    ks = ev.split_off(s.obj, s.off, ds)
    if ks[0] == 'cell': ks = ('arr', s.off.cval() % ds, Poly.const(s.off.cval() // ds))
    ev_check_range(ev, ins, mem, s, nbytes, 'read')
    n = leaf_div(nbytes, ds)
    if n is not None: ev_check_init_range(ev, ins, mem, s, n)
    src = mem.get(s.obj).copy()
    from eval import arr_sort
    def val(f, j, lo, st):
        a = ev.get_arr(src, s.obj, f, 'r')
        return read_arr(a, j - lo + ks[2], arr_sort(a), ev.decide_node)
    stt = mem.wr(d.obj)
    for f in list(src.arrs) + [c % ds for c in src.cells]:
        ev.get_arr(stt, d.obj, f, 'r')
    if cond is TRUE: range_upd(ev, ins, mem, d, nbytes, val)
    else:
        m2 = mem.copy(); range_upd(ev, ins, m2, d, nbytes, val)
        st = mem.wr(d.obj)
        for f, a in m2.get(d.obj).arrs.items(): st.arrs[f] = ite(cond, a, ev.get_arr(st, d.obj, f, 'r'))
        for f, a in m2.get(d.obj).init.items(): st.init[f] = ite(cond, a, ev.get_init(st, d.obj, f))


# ---------------------------------------------------------------- vectors
def elem_type(q):
    m = re.match(r'std::vector<(.*), std::allocator<', q)
    return m.group(1).strip() if m else None


def elem_size(ev, q):
    t = elem_type(q)
    if t is None: return None
    if t in ('double', 'long', 'unsigned long', 'long long') or t.endswith('*'): return 8
    if t in ('int', 'float', 'unsigned int'): return 4
    if t in ('char', 'unsigned char', 'bool', 'signed char'): return 1
    if t == 'long double' or 'complex<double>' in t: return 16
    if 'basic_string' in t: return 32
    if t.startswith('std::vector<'): return 24
    for pre in ('struct.', 'class.'):
        s = ev.prog.js.get('types', {}).get(pre + t)
        if s: return s
    return None


def elem_sort(q):
    t = elem_type(q)
    if t in ('double', 'float', 'long double') or (t and 'complex' in t): return 'r'
    if t and t.endswith('*'): return 'p'
    return 'i'


def vec_fields(ev, mem, this, ins):
    """(object, base offset) of a vector object"""
    p = plead(this)
    if isinstance(p, Poly) and p.single_atom() is not None: p = Ptr(ev.deref_obj(p.single_atom()), ZERO)
    if not isinstance(p, Ptr) or not p.off.is_const(): return None
    return p.obj, p.off.cval()


def vec_get(ev, mem, this, ins):
    v = vec_fields(ev, mem, this, ins)
    if v is None: return None
    o, off = v
    st = mem.get(o)
    def cell(k):
        c = st.cells.get(off + k)
        if c is None:
            c = ev.init_cell(o, off + k, 'p', 8); st.cells[off + k] = c
        return c
    return o, off, cell(0), cell(8)


def vec_range(ev, mem, this, ins):
    """(begin, end) of the vector `this` refers to, which may be a selection between several"""
    from eval import paths
    if this.atom is None:
        v = vec_get(ev, mem, this, ins)
        return (v[2], v[3]) if v else None
    b = e = None
    for c, p in paths(this):
        v = vec_get(ev, mem, leaf(p), ins)
        if v is None: return None
        b, e = (v[2], v[3]) if b is None else (ite(c, v[2], b), ite(c, v[3], e))
    return b, e


def vec_set(ev, mem, o, off, begin, end):
    st = mem.wr(o)
    st.cells[off] = begin; st.cells[off + 8] = end; st.cells[off + 16] = end


def new_data(ev, ins, mem, q, n, this=None):
    s = elem_size(ev, q)
    if s is None: ev.unsup('element size of %s' % q, ins); s = 8
    nm = 'vec#%d' % ins.id
    p = plead(this) if this is not None else None
    if isinstance(p, Ptr): nm = 'vec#%d(%s%s)' % (ins.id, p.obj.name, '' if p.off == ZERO else '+%s' % p.off)
    size = n_mul(n, leaf(Poly.const(s)))
    o = ev.new_obj(nm, size, 'vec', ins.loc(), s)
    from eval import OState
    mem.objs[o] = OState()
    return o, s


def set_content(ev, mem, o, s, n, valf, sort, fields=(0,)):
    st = mem.wr(o)
    bv = fresh('c', 'i').single_atom()
    for f in fields:
        v = valf(f, Poly.atom(bv))
        a = ev.base_arr(o, f, sort)
        st.arrs[f] = apply(lambda cnt: leaf(Arr('upd', a, ZERO, cnt, bv, v)), n)
        st.init[f] = apply(lambda cnt: leaf(Arr('upd', ev.get_init(st, o, f), ZERO, cnt, Atom('sym', ('$s',), 'i'), TRUE)), n)


@pmodel(r'^std::vector<.*>::vector$')
def vec_ctor(ev, ins, args, mem, pc):
    c = ins.d['callee']; q = ev.prog.qual(c)
    dem = ev.prog.fns[c]['dem'] if c in ev.prog.fns else ''
    params = ev.prog.fns[c]['params']
    this = args[0]
    v = vec_fields(ev, mem, this, ins)
    if v is None: ev.unsup('vector constructor', ins); return
    o, off = v
    sig = dem[len(q):] if dem.startswith(q) else dem
    sig = re.sub(r'^\(|\)$', '', sig.strip())
    if 'initializer_list' in sig:
        ev.unsup('vector initializer list', ins)
    if sig.startswith('unsigned long'):
        n = args[1]
        if ', std::allocator' in sig and sig.count(',') == 1 or sig.count('const&') == 1 and 'allocator' in sig:
            val = FALSE
        else:
            val = ev.load(mem, args[2], {'r': 'double', 'p': 'ptr', 'i': 'i32'}[elem_sort(q)], None)
        ev.obl('length', ins, 'vector length %s is not negative' % n, ev.nonneg(n))
        d, s = new_data(ev, ins, mem, q, n, this)
        set_content(ev, mem, d, s, n, lambda f, j: val, elem_sort(q))
        begin = leaf(Ptr(d, ZERO)); end = apply(lambda p: Ptr(d, p.scale(s)) if isinstance(p, Poly) else Opq('end'), n)
        vec_set(ev, mem, o, off, begin, end)
        return leaf(UNDEF)
    if 'vector<' in sig and '&&' in sig:
        src = vec_get(ev, mem, args[1], ins)
        if src is None: ev.unsup('vector move', ins); return
        vec_set(ev, mem, o, off, src[2], src[3])
        moved(ev, src, o, off)
        vec_set(ev, mem, src[0], src[1], FALSE, FALSE)
        return leaf(UNDEF)
    if 'vector<' in sig:
        src = vec_range(ev, mem, args[1], ins)
        if src is None: ev.unsup('vector copy', ins); return
        copy_vec(ev, ins, mem, o, off, src[0], src[1], q, this)
        return leaf(UNDEF)
    if sig in ('', 'void') or (sig.startswith('std::allocator<') and ',' not in sig.split('>')[-1]):
        empty_vec(ev, ins, mem, o, off, q)
        return leaf(UNDEF)
    # iterator range
    if len(args) >= 3:
        copy_vec(ev, ins, mem, o, off, args[1], args[2], q, this)
        return leaf(UNDEF)
    ev.unsup('vector constructor %s' % dem, ins)


def moved(ev, src, o, off):
    """the data of src now belongs to the vector at (o, off)"""
    for p in leaves(src[2]):
        if isinstance(p, Ptr) and not isinstance(p.obj, tuple):
            meta = ev.objmeta.get(p.obj.name, p.obj)
            if getattr(meta, 'vecof', None): meta.vecof = (o, off)


def copy_vec(ev, ins, mem, o, off, begin, end, q, this):
    s = elem_size(ev, q) or 8
    n = leaf_div(n_sub(end, begin), s)
    if n is None: ev.unsup('vector range', ins); n = leaf(havoc('len', 'i'))
    d, s = new_data(ev, ins, mem, q, n, this)
    # contents of the source
    pb = begin
    srcs = [p for p in leaves(pb)]
    fields = {0}
    for p in srcs:
        if isinstance(p, Ptr) and isinstance(p.obj, type(d)):
            st = mem.get(p.obj); fields |= set(st.arrs) | {c % s for c in st.cells if (ev.objmeta.get(p.obj.name, p.obj).stride)}
    from eval import arr_sort
    def val(f, j):
        def g(p):
            if not isinstance(p, Ptr): return leaf(Poly.atom(Atom('unk', (p, j), elem_sort(q))))
            k = ev.split_off(p.obj, p.off, s)
            if k[0] == 'cell': k = ('arr', 0, Poly.const(p.off.cval() // s))
            st = mem.get(p.obj).copy()
            a = ev.get_arr(st, p.obj, f, elem_sort(q))
            return read_arr(a, j + k[2], arr_sort(a), ev.decide_node)
        return apply(g, pb)
    from eval import guards
    old = ev.pc_now
    for c, p in guards(pb):
        ev.pc_now = b_and(old, c)
        if isinstance(p, Ptr): ev_check_init_range(ev, ins, mem, p, n)
    ev.pc_now = old
    set_content(ev, mem, d, s, n, val, elem_sort(q), sorted(fields))
    vec_set(ev, mem, o, off, leaf(Ptr(d, ZERO)), apply(lambda p: Ptr(d, p.scale(s)), n))


@pmodel(r'^std::vector<.*>::~vector$')
def vec_dtor(ev, ins, args, mem, pc): return leaf(UNDEF)


@pmodel(r'^std::vector<.*>::operator=$')
def vec_assign(ev, ins, args, mem, pc):
    q = ev.prog.qual(ins.d['callee']); dem = ev.prog.fns[ins.d['callee']]['dem']
    dst = vec_fields(ev, mem, args[0], ins); src = vec_get(ev, mem, args[1], ins)
    if dst is None or src is None: ev.unsup('vector assignment', ins); return args[0]
    if '&&' in dem:
        moved(ev, src, dst[0], dst[1])
        vec_set(ev, mem, dst[0], dst[1], src[2], src[3]); vec_set(ev, mem, src[0], src[1], FALSE, FALSE)
    else: copy_vec(ev, ins, mem, dst[0], dst[1], src[2], src[3], q, args[0])
    return args[0]


@pmodel(r'^std::vector<.*>::swap$')
def vec_swap(ev, ins, args, mem, pc):
    a = vec_get(ev, mem, args[0], ins); b = vec_get(ev, mem, args[1], ins)
    if a is None or b is None: ev.unsup('vector swap', ins); return
    vec_set(ev, mem, a[0], a[1], b[2], b[3]); vec_set(ev, mem, b[0], b[1], a[2], a[3])
    return leaf(UNDEF)


@pmodel(r'^std::vector<.*>::(reserve|shrink_to_fit)$')
def vec_reserve(ev, ins, args, mem, pc): return leaf(UNDEF)


def empty_vec(ev, ins, mem, o, off, q):
    vec_set(ev, mem, o, off, FALSE, FALSE)
    d = grow_obj(ev, ins, mem, (o, off, FALSE, FALSE), q)
    vec_set(ev, mem, o, off, leaf(Ptr(d, ZERO)), leaf(Ptr(d, ZERO)))


def grow_obj(ev, ins, mem, v, q):
    """data object of a vector that changes length; allocated on first use"""
    o, off, b, e = v
    p = plead(b)
    if isinstance(p, Ptr): return p.obj
    nm = 'vec(%s%s)' % (o.name, '' if off == 0 else '+%d' % off)
    s = elem_size(ev, q) or 8
    d = ev.objmeta.get(nm) or ev.new_obj(nm, None, 'vec', ins.loc(), s)
    d.vecof = (o, off)
    from eval import OState
    if d not in mem.objs: mem.objs[d] = OState()
    return d


@pmodel(r'^std::vector<.*>::(push_back|emplace_back)$')
def vec_push(ev, ins, args, mem, pc):
    q = ev.prog.qual(ins.d['callee'])
    v = vec_get(ev, mem, args[0], ins)
    if v is None: ev.unsup('push_back', ins); return leaf(UNDEF)
    o, off, b, e = v
    s = elem_size(ev, q) or 8
    if elem_type(q) and 'basic_string' in elem_type(q):
        return vec_push_str(ev, ins, args, mem, v)
    d = grow_obj(ev, ins, mem, v, q)
    p = plead(b)
    if not isinstance(p, Ptr):
        if not (isinstance(p, Poly) and p.is_const()):
            b2 = apply(lambda x: Ptr(d, ZERO), b)
        b = leaf(Ptr(d, ZERO))
        e = apply(lambda x: Ptr(d, ZERO) if isinstance(x, Poly) and x.is_const() else x, e)
    if ev.objmeta[d.name].size is not None: ev.objmeta[d.name].size = None; ev.objmeta[d.name].vecof = (o, off)
    src = args[1]
    sizes = [(0, elem_sort(q))]
    pe = plead(e)
    sp = plead(src)
    # copy the element field by field
    fields = [(0, {'r': 'double', 'p': 'ptr', 'i': 'i32' if s == 4 else 'i64'}[elem_sort(q)])]
    if isinstance(sp, Ptr):
        so = mem.get(sp.obj)
        if ev.objmeta.get(sp.obj.name, sp.obj).stride is None and sp.off.is_const():
            fs = sorted(c - sp.off.cval() for c in so.cells if sp.off.cval() <= c < sp.off.cval() + s)
            if fs and s > 8: fields = [(f, None) for f in fs]
    for f, ty in fields:
        val = ev.load1(mem, sp.obj, sp.off + Poly.const(f), 8, elem_sort(q), ins) if isinstance(sp, Ptr) else leaf(Opq('elem'))
        def at(x): return Ptr(x.obj, x.off + Poly.const(f)) if isinstance(x, Ptr) else x
        from eval import paths
        for cond, x in paths(e):
            if isinstance(x, Ptr): ev.store1(mem, at(x), val, 8, elem_sort(q), None, cond)
            else: ev.unsup('push_back position', ins)
    ne = n_add(e, leaf(Poly.const(s)))
    st = mem.wr(o)
    st.cells[off] = b; st.cells[off + 8] = ne; st.cells[off + 16] = leaf(Opq('cap'))
    return leaf(UNDEF)


@pmodel(r'^std::vector<.*>::(insert|emplace)$')
def vec_insert(ev, ins, args, mem, pc):
    """insertion of one element at the end is the same as push_back; other insertions are not modelled"""
    v = vec_get(ev, mem, args[0], ins)
    if v is None or len(args) != 3 or not isinstance(plead(args[2]), Ptr) or args[1] is not v[3]:
        ev.unsup('call of %s' % ev.prog.qual(ins.d['callee']), ins, True); return leaf(UNDEF)
    vec_push(ev, ins, [args[0], args[2]], mem, pc)
    return apply(lambda x: x, args[1])


@pmodel(r'^std::vector<.*>::pop_back$')
def vec_pop(ev, ins, args, mem, pc):
    q = ev.prog.qual(ins.d['callee']); s = elem_size(ev, q) or 8
    v = vec_get(ev, mem, args[0], ins)
    if v is None: ev.unsup('pop_back', ins); return
    o, off, b, e = v
    mem.wr(o).cells[off + 8] = n_sub(e, leaf(Poly.const(s)))
    return leaf(UNDEF)


@pmodel(r'^std::vector<.*>::clear$')
def vec_clear(ev, ins, args, mem, pc):
    v = vec_get(ev, mem, args[0], ins)
    if v is None: ev.unsup('clear', ins); return
    mem.wr(v[0]).cells[v[1] + 8] = v[2]
    return leaf(UNDEF)


@pmodel(r'^std::vector<.*>::resize$')
def vec_resize(ev, ins, args, mem, pc):
    q = ev.prog.qual(ins.d['callee']); s = elem_size(ev, q) or 8
    v = vec_get(ev, mem, args[0], ins)
    if v is None: ev.unsup('resize', ins); return
    o, off, b, e = v
    d = grow_obj(ev, ins, mem, v, q)
    meta = ev.objmeta[d.name]
    n = args[1]
    oldn = leaf_div(n_sub(e, b), s) if all(isinstance(x, Ptr) for x in leaves(b)) else leaf(ZERO)
    ev.obl('length', ins, 'vector length %s is not negative' % n, ev.nonneg(n))
    nb = leaf(Ptr(d, ZERO))
    ne = apply(lambda p: Ptr(d, p.scale(s)), n)
    st = mem.wr(d)
    val = FALSE
    if len(args) > 2:
        val = ev.load(mem, args[2], {'r': 'double', 'p': 'ptr', 'i': 'i32'}[elem_sort(q)], None)
    if oldn is not None:
        bv = fresh('c', 'i').single_atom()
        a = ev.get_arr(st, d, 0, elem_sort(q)); ini = ev.get_init(st, d, 0)
        st.arrs[0] = apply(lambda arr, lo, hi: leaf(Arr('upd', leaf(arr), lo, hi, bv, val)), a, oldn, n)
        st.init[0] = apply(lambda arr, lo, hi: leaf(Arr('upd', leaf(arr), lo, hi, Atom('sym', ('$s',), 'i'), TRUE)), ini, oldn, n)
    if meta.size is not None: meta.size = None; meta.vecof = (o, off)
    w = mem.wr(o)
    w.cells[off] = nb; w.cells[off + 8] = ne
    return leaf(UNDEF)


def vec_push_str(ev, ins, args, mem, v):
    ev.event('push_back_string', [args[0], str_val(ev, mem, args[1])], ins)
    o, off, b, e = v
    st = mem.wr(o)
    cur = st.cells.get(off + 1000)
    if cur is None: cur = leaf(Opq('list'))
    st.cells[off + 1000] = app('append', [cur, str_val(ev, mem, args[1])], 'x')
    d = grow_obj(ev, ins, mem, v, 'std::vector<std::__cxx11::basic_string<char>, std::allocator<')
    if not any(isinstance(x, Ptr) for x in leaves(b)):
        b = leaf(Ptr(d, ZERO)); e = leaf(Ptr(d, ZERO))
    st.cells[off] = b; st.cells[off + 8] = n_add(e, leaf(Poly.const(32)))
    return leaf(UNDEF)


# ---------------------------------------------------------------- sort

def sort_key(ev, callee, args, mem, rec=None):
    """field (byte offset) on which the comparison the sort uses is an ascending order, or None"""
    from ir import Func
    from eval import Evaluator, OState, Mem
    u = ev.prog.js.get('ucalls', {}).get(callee, [])
    if not u: return 0 if len(args) == 2 else None
    if len(u) != 1: return None
    f = ev.prog.fns.get('cb$' + u[0]) or ev.prog.fns.get(u[0])
    if f is None or f['decl']: return None
    old = DECIDE[0]
    try:
        e2 = Evaluator(ev.prog); m = Mem(); fn = Func(f); a = []; scal = []
        for p in fn.params:
            if p['ty'] == 'ptr':
                o = e2.new_obj('cmp%d' % p['i'], None, 'param', stride=None); m.objs[o] = OState(); a.append(leaf(Ptr(o, ZERO))); scal.append(o)
            else:
                x = sym('cmp%d' % p['i'], 'r' if p['ty'] == 'double' else 'i'); a.append(leaf(x)); scal.append((p['ty'], x))
        e2.recording_history = False
        outs = e2.run(fn, a, m)
        rets = [o for o in outs if o[0] == 'ret']
        if len(rets) != 1 or len(outs) != 1: return None
        r = e2.truth(rets[0][1])
        cand = []
        if rec is not None and len(scal) % 2 == 0:
            # the comparison itself, over the fields of its two operands
            prs = []
            h = len(scal) // 2
            if all(isinstance(x, tuple) for x in scal):
                off = 0
                for i in range(h): prs.append((off, scal[i][1], scal[i + h][1])); off += 8
            elif len(scal) >= 2:
                for at in syms_of(r):
                    o, _, off = str(at.args[0]).partition('@') if isinstance(at, Atom) else ('', '', '')
                    if not off.isdigit(): continue
                    if o == scal[-2].name: prs.append((int(off), Poly.atom(at), None))
                    elif o == scal[-1].name: prs.append((int(off), None, Poly.atom(at)))
            rec['cmp'] = (r, prs)
        if len(scal) % 2 == 0 and not isinstance(scal[0], tuple) and len(scal) >= 2:
            x, y = scal[-2:]
            cand = [(0, e2.init_cell(x, 0, 'r', 8).leaf, e2.init_cell(y, 0, 'r', 8).leaf)]
        elif len(scal) % 2 == 0:
            h = len(scal) // 2
            off = 0
            for i in range(h):
                if scal[i][0] == 'double' and scal[i + h][0] == 'double': cand.append((off, scal[i][1], scal[i + h][1]))
                off += 8
        for off, x, y in cand:
            lt = flt0(x - y)
            # x<y forces true, y<x forces false
            if ite(lt, r, TRUE) is TRUE and (r is lt or ite(flt0(y - x), r, FALSE) is FALSE): return off
        return None
    finally: DECIDE[0] = old


def misplaced(cmp, of):
    """two records x, y with x.of < y.of that the comparison does not put in that order"""
    import random, refute
    r, prs = cmp
    X = {p.single_atom(): o for o, p, _ in prs if p is not None}; Y = {q.single_atom(): o for o, _, q in prs if q is not None}
    if None in X or None in Y or not all(x in X or x in Y for x in syms_of(r) if isinstance(x, Atom)): return None
    sorts = {o: z.sort for z, o in list(X.items()) + list(Y.items())}
    if sorts.get(of) != 'r': return None
    rnd = random.Random(3)
    for k in range(600):
        a = rnd.random(); b = a + rnd.choice([.5, 1e-3, 1e-6, 1e-8, 1e-9, 1e-12, 2e-16]) * rnd.random() * (1 - a)
        if k % 5 == 0: a, b = rnd.choice([(0.0, 1e-300), (1 - 2.0 ** -53, 1.0), (5e-324, 1e-323), (0.0, 1.0)])
        if not a < b: continue
        u = {o: rnd.randrange(3) for o in sorts}; v = {o: rnd.randrange(3) for o in sorts}
        u[of], v[of] = a, b
        env = {z: u[o] for z, o in X.items()}; env.update({z: v[o] for z, o in Y.items()}); env['strict'] = True
        try:
            if not refute.Interp(0, env).node(r): return 'a record at %r is not put before one at %r' % (a, b)
        except refute.Unint: return None
    return None


def weak_order(cmp):
    """whether the comparison (term, fields of its operands) is a strict weak ordering: (True | False | None, example).
    Decided on all order types of three elements when it only compares fields; refuted by near ties otherwise"""
    import itertools, random, refute
    r, prs = cmp
    offs = sorted(set(o for o, _, _ in prs))
    if not offs or len(offs) > 3: return None, ''
    X = {p.single_atom(): o for o, p, _ in prs if p is not None}; Y = {q.single_atom(): o for o, _, q in prs if q is not None}
    if None in X or None in Y or not all(x in X or x in Y for x in syms_of(r) if isinstance(x, Atom)): return None, ''
    def plain(n, seen):
        if n.atom is None: return isinstance(n.leaf, Poly) and n.leaf.is_const()
        if n in seen: return True
        seen.add(n)
        at = n.atom
        if at.kind not in ('flt', 'fle', 'feq', 'le0', 'eq0') or not isinstance(at.args, Poly): return False
        m = dict(at.args.m); c = m.pop((), 0)
        ats = [k[0][0] for k in m if len(k) == 1 and k[0][1] == 1]
        if len(ats) != 2 or len(m) != 2 or sum(m.values()) != 0: return False
        if c != 0 and not (at.kind == 'le0' and c == 1 and abs(list(m.values())[0]) == 1): return False      # integers: x < y is x - y + 1 <= 0
        fx = [(X.get(z, Y.get(z)), z in X) for z in ats]
        return fx[0][0] == fx[1][0] and fx[0][1] != fx[1][1] and plain(n.hi, seen) and plain(n.lo, seen)
    exact = plain(r, set())
    def less(u, v):
        env = {z: u[o] for z, o in X.items()}; env.update({z: v[o] for z, o in Y.items()}); env['strict'] = True
        return bool(refute.Interp(0, env).node(r))
    sorts = {o: z.sort for z, o in list(X.items()) + list(Y.items())}
    if exact: pts = [dict(zip(offs, t)) for t in itertools.product((0, 1, 2), repeat=len(offs))]
    else:
        rnd = random.Random(5)
        vals = {o: [0, 1, 2, 3] if sorts[o] == 'i' else [0.25, 0.25 + 4e-13, 0.25 + 8e-13, 0.25 + 1.2e-12, 0.25 + 6e-10, 0.25 + 1.2e-9, 0.25 + 6e-7, 0.25 + 1.2e-6, 0.26, 0.5] for o in offs}
        pts = [{o: rnd.choice(vals[o]) for o in offs} for _ in range(40)]
    try:
        L = [[less(u, v) for v in pts] for u in pts]
    except refute.Unint: return None, ''
    n = len(pts); R = range(n)
    eq = [[not L[i][j] and not L[j][i] for j in R] for i in R]
    show = lambda *ix: ', '.join(str(tuple(pts[i].values())) for i in ix)
    for i in R:
        if L[i][i]: return False, 'an element precedes itself: ' + show(i)
        for j in R:
            if L[i][j] and L[j][i]: return False, 'two elements precede each other: ' + show(i, j)
            for k in R:
                if L[i][j] and L[j][k] and not L[i][k]: return False, 'not transitive: ' + show(i, j, k)
                if eq[i][j] and eq[j][k] and not eq[i][k]: return False, 'equivalence is not transitive: ' + show(i, j, k)
    return (True if exact else None), ''


@pmodel(r'^std::(stable_)?sort$')
def sort_(ev, ins, args, mem, pc):
    b = plead(args[0])
    if not isinstance(b, Ptr) or any(not isinstance(e, Ptr) or e.obj != b.obj for e in leaves(args[1])): ev.unsup('sort range', ins); return
    o = b.obj
    meta = ev.objmeta.get(o.name, o)
    s = meta.stride or 8
    st = mem.wr(o)
    n = leaf_div(apply(lambda e: e.off - b.off, args[1]), s)
    if n is None or b.off != ZERO: ev.unsup('sort range', ins); return
    nm = 'sorted#%d' % ins.id
    for c in list(st.cells): ev.get_arr(st, o, c % s, 'r')
    pre = dict(st.arrs)
    import order
    rec = dict(pre=pre, n=n, obj=o, callee=ins.d['callee'], loc=ins.loc())
    rec['key'] = sort_key(ev, ins.d['callee'], args, mem, rec)
    if rec.get('cmp'):
        ok, why = weak_order(rec['cmp'])
        if ok is not None: ev.obl('order', ins, 'the comparison used for sorting is a strict weak ordering', ok, why)
    from eval import arr_sort
    bv = fresh('c', 'i').single_atom()
    for f, a in pre.items():
        srt = 'r' if f == rec['key'] else arr_sort(a)
        fname = '%s.%d' % (nm, f)
        order.SORTED[fname] = rec
        st.arrs[f] = apply(lambda k: Arr('upd', a, ZERO, k, bv, leaf(Poly.atom(Atom('sel', (fname, Poly.atom(bv)), srt)))), n)
    ev.event('sort', [args[0], args[1]], ins)
    return leaf(UNDEF)


@pmodel(r'^std::reverse$')
def reverse_(ev, ins, args, mem, pc):
    b, e = plead(args[0]), plead(args[1])
    if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == e.obj): ev.unsup('reversed range', ins); return
    meta = ev.objmeta.get(b.obj.name, b.obj)
    s = meta.stride or 8
    if meta.stride is None: meta.stride = s
    nbytes = leaf(e.off - b.off); n = leaf_div(nbytes, s)
    st = mem.wr(b.obj)
    for c in list(st.cells): ev.get_arr(st, b.obj, c % s, 'r')
    ks = ev.split_off(b.obj, b.off, s)
    if ks[0] == 'cell': ks = ('arr', b.off.cval() % s, Poly.const(b.off.cval() // s))
    if n is None or n.atom is not None: ev.unsup('reversed range', ins); return leaf(UNDEF)
    ev_check_range(ev, ins, mem, b, nbytes, 'read'); ev_check_init_range(ev, ins, mem, b, n)
    src = mem.get(b.obj).copy()
    from eval import arr_sort
    def val(f, j, lo, st):
        a = ev.get_arr(src, b.obj, f, 'r')
        return read_arr(a, lo + n.leaf - ONE - (j - lo), arr_sort(a), ev.decide_node)
    range_upd(ev, ins, mem, b, nbytes, val)
    return leaf(UNDEF)


# ---------------------------------------------------------------- exceptions, asserts
@model('__cxa_allocate_exception')
def cxa_alloc(ev, ins, args, mem, pc):
    o = ev.new_obj('exc#%d' % ins.id, None, 'exc', ins.loc())
    from eval import OState
    mem.objs[o] = OState()
    return leaf(Ptr(o, ZERO))


@model('__cxa_throw')
def cxa_throw(ev, ins, args, mem, pc):
    t = plead(args[1])
    nm = t.obj.name if isinstance(t, Ptr) else '?'
    ev.thrown = leaf(Opq('exn', nm))
    ev.event('throw', [args[0], leaf(Opq('type', nm))], ins)
    return 'noreturn'


@model('__cxa_rethrow')
def cxa_rethrow(ev, ins, args, mem, pc):
    c = caught(ev, mem).cells.get(0)
    ev.thrown = apply(lambda c: c.key[1] if isinstance(c, Opq) and c.key[0] == 'caught' and c.key[1] is not UNDEF else Opq('exn', '?'), c) if c is not None else leaf(Opq('exn', '?'))
    return 'noreturn'


@model('__assert_fail', '__assert_perror_fail')
def assert_fail(ev, ins, args, mem, pc):
    msg = cstr(ev, args[0])
    ev.obl('assert', ins, 'assertion %s' % msg, b_not(ev.pc_now))
    ev.outcome('abort', args[0], pc, mem, ins)
    return 'noreturn'


@model('abort', 'exit', '_ZSt9terminatev', '_Exit', 'quick_exit', '__clang_call_terminate')
def abort_(ev, ins, args, mem, pc):
    ev.obl('assert', ins, 'call of %s' % ins.d['callee'], b_not(ev.pc_now))
    ev.outcome('abort' if ins.d['callee'] not in ('exit', '_Exit') else 'exit', args[0] if args else None, pc, mem, ins)
    return 'noreturn'


@pmodel(r'^_ZSt\d+__throw_')
def std_throw(ev, ins, args, mem, pc):
    ty = {'length_error': '_ZTISt12length_error', 'bad_alloc': '_ZTISt9bad_alloc', 'out_of_range': '_ZTISt12out_of_range', 'out_of_range_fmt': '_ZTISt12out_of_range', 'logic_error': '_ZTISt11logic_error', 'runtime_error': '_ZTISt13runtime_error'}
    m = re.match(r'_ZSt\d+__throw_([a-z_]*?)(PK|v$|v)', ins.d['callee'])
    k = m.group(1) if m else '?'
    k = re.sub(r'(PKc.*|v)$', '', k)
    ev.thrown = leaf(Opq('exn', ty.get(k, '_ZTISt9exception')))
    ev.event('throw', [leaf(UNDEF), leaf(Opq('type', ty.get(k, k)))], ins)
    return 'noreturn'


def guard_release(ev, ins, args, mem, pc):
    p = plead(args[0])
    if isinstance(p, Ptr) and p.off.is_const(): mem.wr(p.obj).cells[p.off.cval()] = leaf(ONE)
    else: ev.unsup('static initialisation', ins)
    return leaf(UNDEF)


TABLE['__cxa_guard_acquire'] = lambda ev, ins, args, mem, pc: leaf(ONE)      # called when the object is not yet initialised
TABLE['__cxa_guard_release'] = guard_release
for _n in ('__cxa_free_exception', '__cxa_guard_abort', '__cxa_atexit'): TABLE[_n] = nop


def caught(ev, mem, write=False):
    """the exceptions being handled, innermost first"""
    o = ev.objmeta.get('caught exceptions')
    if o is None: o = ev.new_obj('caught exceptions', None, 'exc')
    return mem.wr(o) if write else mem.get(o)


@model('__cxa_end_catch')
def end_catch(ev, ins, args, mem, pc):
    st = caught(ev, mem, True)
    st.cells[0] = apply(lambda c: c.key[2] if isinstance(c, Opq) and c.key[0] == 'caught' else UNDEF, st.cells.get(0, leaf(UNDEF)))
    return leaf(UNDEF)


@model('__cxa_begin_catch')
def begin_catch(ev, ins, args, mem, pc):
    st = caught(ev, mem, True)
    st.cells[0] = apply(lambda p, c: Opq('caught', p.key[1] if isinstance(p, Opq) and p.key[0] == 'exnptr' else UNDEF, c), args[0], st.cells.get(0, leaf(UNDEF)))
    return leaf(Ptr(ev.new_obj('caught#%d' % ins.id, None, 'exc', ins.loc()), ZERO))


@model('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def typeid_for(ev, ins, args, mem, pc):
    t = plead(args[0])
    return leaf(Opq('typeid', t.obj.name if isinstance(t, Ptr) else '?'))


@pmodel(r'^std::(runtime_error|logic_error|exception|bad_alloc|invalid_argument|length_error|domain_error|range_error|system_error)::')
def exc_method(ev, ins, args, mem, pc): return leaf(UNDEF) if ins.ty == 'void' else leaf(Opq('exc', ins.id))


# ---------------------------------------------------------------- C strings and std::string
def cstr(ev, n):
    p = plead(n)
    if isinstance(p, Ptr) and p.obj.kind == 'glob' and p.off == ZERO:
        g = ev.prog.globals.get(p.obj.name)
        if g and 'init' in g and g['init'].get('k') == 'data':
            return g['init'].get('str', '').replace('\\x00', '')
        if g and g.get('init', {}).get('k') == 'zero': return ''
    return None


def str_val(ev, mem, ref):
    """value of a std::string object"""
    def f(p):
        if isinstance(p, Ptr) and p.off.is_const():
            st = mem.get(p.obj)
            v = st.cells.get(p.off.cval() + 500)
            if v is None:
                v = leaf(sym('str:%s+%s' % (p.obj.name, p.off), 's')); st.cells[p.off.cval() + 500] = v
            return v
        if isinstance(p, Ptr): return leaf(Poly.atom(Atom('strat', (p.obj.name, p.off), 's')))
        return leaf(Opq('str', p))
    return apply(f, ref)


def set_str(ev, mem, ref, v):
    p = plead(ref)
    if isinstance(p, Poly) and p.single_atom() is not None: p = Ptr(ev.deref_obj(p.single_atom()), ZERO)
    if isinstance(p, Ptr) and p.off.is_const():
        st = mem.wr(p.obj); st.cells[p.off.cval() + 500] = v


def lit(ev, n):
    s = cstr(ev, n)
    if s is not None: return leaf(Poly.atom(Atom('lit', (s,), 's')))
    return app('cstr', [n], 's')


BS = r'^std::__cxx11::basic_string<char.*>::'


@pmodel(BS + r'basic_string$')
def str_ctor(ev, ins, args, mem, pc):
    dem = ev.prog.fns[ins.d['callee']]['dem']
    sig = dem[dem.rfind('basic_string(') + len('basic_string('):]
    if sig.startswith('char const*'):
        set_str(ev, mem, args[0], lit(ev, args[1]))
    elif sig.startswith('std::__cxx11::basic_string'):
        if re.search(r'unsigned long', sig):
            set_str(ev, mem, args[0], app('substr', [str_val(ev, mem, args[1])] + args[2:4], 's'))
        else: set_str(ev, mem, args[0], str_val(ev, mem, args[1]))
    elif sig.startswith(')') or sig.startswith('std::allocator'):
        set_str(ev, mem, args[0], leaf(Poly.atom(Atom('lit', ('',), 's'))))
    else: set_str(ev, mem, args[0], leaf(Poly.atom(Atom('strnew', (ins.id,), 's'))))
    return leaf(UNDEF)


@pmodel(BS + r'~basic_string$')
def str_dtor(ev, ins, args, mem, pc): return leaf(UNDEF)


@pmodel(BS + r'(c_str|data)$')
def str_cstr(ev, ins, args, mem, pc):
    v = str_val(ev, mem, args[0])
    return apply(lambda x: Ptr(ev_strobj(ev, x), ZERO), v)


def ev_strobj(ev, x):
    from eval import Obj
    nm = 'chars(%s)' % (x,)
    if nm not in ev.objmeta:
        o = Obj(nm, None, 'param'); o.stride = 1; o.string = x; ev.objmeta[nm] = o
    return ev.objmeta[nm]


def slen(v):
    def f(x):
        if isinstance(x, Poly):
            a = x.single_atom()
            if a is not None and a.kind == 'lit': return Poly.const(len(a.args[0]))
        return Poly.atom(Atom('strlen', (x,), 'i'))
    return apply(f, v)


@pmodel(BS + r'(size|length)$')
def str_size(ev, ins, args, mem, pc): return slen(str_val(ev, mem, args[0]))


@pmodel(BS + r'empty$')
def str_empty(ev, ins, args, mem, pc): return apply(lambda x: ieq0(x), slen(str_val(ev, mem, args[0])))


@pmodel(BS + r'(operator\[\]|at)$')
def str_index(ev, ins, args, mem, pc):
    v = str_val(ev, mem, args[0])
    return apply(lambda x, i: Ptr(ev_strobj(ev, x), i) if isinstance(i, Poly) else Opq('stridx'), v, args[1])


@pmodel(BS + r'(begin|cbegin)$')
def str_begin(ev, ins, args, mem, pc): return apply(lambda x: Ptr(ev_strobj(ev, x), ZERO), str_val(ev, mem, args[0]))


@pmodel(BS + r'(end|cend)$')
def str_end(ev, ins, args, mem, pc):
    v = str_val(ev, mem, args[0])
    return apply(lambda x, n: Ptr(ev_strobj(ev, x), n), v, slen(v))


@pmodel(BS + r'substr$')
def str_substr(ev, ins, args, mem, pc):
    set_str(ev, mem, args[0], app('substr', [str_val(ev, mem, args[1]), args[2], args[3]], 's'))
    return leaf(UNDEF)


@pmodel(BS + r'(operator=|assign)$')
def str_assign(ev, ins, args, mem, pc):
    dem = ev.prog.fns[ins.d['callee']]['dem']
    if '(char const*' in dem: set_str(ev, mem, args[0], lit(ev, args[1]))
    elif 'basic_string' in dem.split('(')[-1]: set_str(ev, mem, args[0], str_val(ev, mem, args[1]))
    else: set_str(ev, mem, args[0], leaf(Poly.atom(Atom('strnew', (ins.id,), 's'))))
    return args[0]


def streq(a, b):
    def f(x, y):
        if x == y: return TRUE
        la = x.single_atom() if isinstance(x, Poly) else None
        lb = y.single_atom() if isinstance(y, Poly) else None
        if la is not None and lb is not None and la.kind == 'lit' and lb.kind == 'lit': return FALSE
        # comparison with the empty string is a length test
        for l, o in ((la, y), (lb, x)):
            if l is not None and l.kind == 'lit' and l.args[0] == '': return ieq0(Poly.atom(Atom('strlen', (o,), 'i')))
        k = sorted([x, y], key=repr)
        return batom('streq', k[0], k[1])
    return apply(f, a, b)


def str_operand(ev, mem, dem_param, arg):
    return lit(ev, arg) if 'char const*' in dem_param else str_val(ev, mem, arg)


@pmodel(r'^std::operator(==|!=)$')
def str_eq(ev, ins, args, mem, pc):
    c = ins.d['callee']; dem = ev.prog.fns[c]['dem']
    if 'basic_string' not in dem: ev.unsup('call of %s' % dem[:80], ins); return leaf(Poly.atom(Atom('call:eq', (ins.id,), 'i')))
    m = re.search(r'operator[!=]=.*?\((.*)\)$', dem)
    parts = split_params(m.group(1)) if m else ['', '']
    r = streq(str_operand(ev, mem, parts[0], args[0]), str_operand(ev, mem, parts[1], args[1]))
    return r if 'operator==' in dem else b_not(r)


def split_params(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    out.append(cur.strip())
    return out


@pmodel(BS + r'compare$')
def str_compare(ev, ins, args, mem, pc):
    dem = ev.prog.fns[ins.d['callee']]['dem']
    b = lit(ev, args[1]) if '(char const*)' in dem else str_val(ev, mem, args[1])
    e = streq(str_val(ev, mem, args[0]), b)
    return ite(e, FALSE, leaf(Poly.atom(Atom('strcmp', (ins.id,), 'i'))))


@model('strcmp')
def c_strcmp(ev, ins, args, mem, pc):
    a, b = cval_str(ev, args[0]), cval_str(ev, args[1])
    return ite(streq(a, b), FALSE, leaf(ONE))


def cval_str(ev, n): return lit(ev, n)


@pmodel(r'^std::operator\+$')
def str_plus(ev, ins, args, mem, pc):
    dem = ev.prog.fns[ins.d['callee']]['dem']
    if 'basic_string' not in dem: ev.unsup('operator+', ins); return
    set_str(ev, mem, args[0], leaf(Poly.atom(Atom('strcat', (ins.id,), 's'))))
    return leaf(UNDEF)


@pmodel(r'^std::(__cxx11::)?to_string$')
def to_string(ev, ins, args, mem, pc):
    set_str(ev, mem, args[0], leaf(Poly.atom(Atom('strof', (ins.id,), 's')))); return leaf(UNDEF)


@pmodel(BS)
def str_other(ev, ins, args, mem, pc):
    q = ev.prog.qual(ins.d['callee']).split('::')[-1]
    if q in ('push_back', 'append', 'operator+=', 'insert', 'erase', 'replace', 'clear', 'pop_back', 'resize', 'swap'):
        set_str(ev, mem, args[0], app('str_' + q, [str_val(ev, mem, args[0])] + [a for a in args[1:2]] , 's'))
        if q in ('operator+=', 'append', 'push_back'): return args[0]
    if q in ('find', 'find_first_of', 'rfind', 'find_last_of'):
        return app('str_' + q, [str_val(ev, mem, args[0])] + args[1:3], 'i')
    if q in ('back', 'front'):
        v = str_val(ev, mem, args[0])
        if q == 'front': return apply(lambda x: Ptr(ev_strobj(ev, x), ZERO), v)
        return apply(lambda x, n: Ptr(ev_strobj(ev, x), n - ONE), v, slen(v))
    return leaf(UNDEF) if ins.ty == 'void' else leaf(Poly.atom(Atom('call:str_' + q, (ins.id,), 'i')))


# ---------------------------------------------------------------- streams
def stream_event(ev, ins, args, mem, what):
    p = plead(args[0])
    ev.event('out', [args[0], what], ins)


@pmodel(r'^std::operator<<$')
def op_out(ev, ins, args, mem, pc):
    dem = ev.prog.fns[ins.d['callee']]['dem']
    if 'char const*' in dem: ev.event('out', [args[0], lit(ev, args[1])], ins)
    elif 'basic_string' in dem: ev.event('out', [args[0], str_val(ev, mem, args[1])], ins)
    else: ev.event('out', [args[0], args[1]], ins)
    return args[0]


@pmodel(r'^(std::ostream|std::basic_ostream<char.*>)::(operator<<|_M_insert|write|put|flush)')
def os_insert(ev, ins, args, mem, pc):
    dem = ev.prog.fns[ins.d['callee']]['dem']
    if len(args) > 1:
        a = args[1]
        p = plead(a)
        if isinstance(p, Opq) and p.key[0] == 'fn': a = leaf(Opq('manip', p.key[1]))
        kind = 'double' if re.search(r'<double>|\(double\)|long double', dem) else None
        if isinstance(plead(a), Poly) and kind is None and 'bool' in dem: a = leaf(Opq('as-bool'))
        ev.event('out', [args[0], a], ins)
    return args[0]


@pmodel(r'^std::(endl|flush|ends)$')
def endl(ev, ins, args, mem, pc):
    ev.event('out', [args[0], leaf(Opq('manip', ev.prog.qual(ins.d['callee'])))], ins); return args[0]


@pmodel(r'^std::(__cxx11::)?basic_(stringstream|ostringstream|istringstream|stringbuf)<')
def sstream(ev, ins, args, mem, pc):
    q = ev.prog.qual(ins.d['callee'])
    if q.endswith('::str') and ins.d['args'] and ev.prog.fns[ins.d['callee']]['params'] and ev.prog.fns[ins.d['callee']]['params'][0].get('sret'):
        set_str(ev, mem, args[0], leaf(Poly.atom(Atom('ssstr', (ins.id,), 's'))))
    return leaf(UNDEF) if ins.ty == 'void' else leaf(Poly.atom(Atom('call:ss', (ins.id,), 'p')))


@pmodel(r'^std::(ios_base|basic_ios<char.*>)::')
def ios(ev, ins, args, mem, pc):
    q = ev.prog.qual(ins.d['callee']).split('::')[-1]
    ev.event('ios:' + q, args, ins)
    return leaf(UNDEF) if ins.ty == 'void' else leaf(Poly.atom(Atom('call:ios_' + q, (ins.id,), 'i')))


@model('__errno_location')
def errno_loc(ev, ins, args, mem, pc):
    o = ev.objmeta.get('errno')
    if o is None: o = ev.new_obj('errno', None, 'param')
    return leaf(Ptr(o, ZERO))


@model('strlen')
def c_strlen(ev, ins, args, mem, pc):
    return slen(lit(ev, args[0]))


# ---------------------------------------------------------------- stack save etc.
@model('llvm.stacksave', 'llvm.stacksave.p0', 'llvm.stackrestore', 'llvm.stackrestore.p0', 'llvm.trap', 'llvm.ubsantrap')
def stk(ev, ins, args, mem, pc): return leaf(UNDEF)

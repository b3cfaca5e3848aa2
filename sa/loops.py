"""Loop summarisation: induction variables, sums, flags, previous-iteration values, range updates of
arrays; inferred linear invariants for whatever remains."""
from terms import *
from terms import _fresh
from prove import Ctx, constrain, leaves
import prove

import os
DEBUG = bool(os.environ.get('SA_LOOPS'))
EXACT = set()      # iteration symbols of loops that only their counter ends: every t in range is reached
SYMFACTS = {}      # Atom -> [(poly, strict)]: facts that hold for that symbol wherever it appears


def sym_hook(mono):
    out = []
    for a, e in mono:
        f = SYMFACTS.get(a)
        if f: out.extend(f)
    return out


def lights(n):
    """stand-ins for array contents that light evaluation leaves out"""
    return frozenset(s for s in syms_of(n) if isinstance(s, tuple) and s[1].startswith('light~'))


class LoopVar:
    """a loop-carried scalar: SSA phi or memory cell"""
    __slots__ = ('key', 'sym', 'init', 'res', 'nxt', 'sort', 'obj', 'isptr', 'how', 'scale', 'step')

    def __init__(self, key, sort):
        self.key = key; self.sort = sort; self.res = None; self.obj = None; self.isptr = False; self.how = None; self.scale = 1; self.step = None


def run_loop(ev, l, es):
    import eval as E
    fn = ev.fn
    H = l.header
    pc0, mem0 = ev.merge(es)
    hdr = fn.blocks[H]
    loc = next((i.loc() for i in hdr.ins if i.d.get('loc')), None) or next((i.loc() for b in l.body for i in fn.blocks[b].ins if i.d.get('loc')), '?')
    old_rec = ev.recording; old_ctx = ev.ctx; old_pc = ev.pc_now; old_light = ev.light
    ev.pcs.append(pc0)
    ev.ctx = ev.ctx.clone(); ev.ctx.add_node(pc0)
    ev.pc_now = TRUE
    ev.recording = False
    mark = _fresh[0]
    t = fresh('t%d' % H, 'i'); ta = t.single_atom()
    SYMFACTS[ta] = [(-t, False)]
    vars_ = {}
    for ins in hdr.ins:
        if ins.op != 'phi': break
        v = LoopVar(ins.id, E.sort_of(ins.ty))
        inc = {blk: x for x, blk in ins.d['in']}
        v.init = ev.sel(es, [ev.val(inc[e.src]) for e in es], pc0)
        mkvar(ev, v, 'phi%d' % ins.id, ins.ty)
        vars_[v.key] = v
    amod = {}          # (obj, f) -> base Arr node M (contents at the top of iteration t)
    imod = {}
    prevs = {}
    bases = {}

    def body():
        """evaluate one iteration from the current abstraction; returns (latchpc, latchmem, next values, exits)"""
        mem = mem0.copy()
        for k, v in vars_.items():
            x = v.res if v.res is not None else v.symnode()
            if isinstance(k, tuple):
                st = mem.wr(k[1]); st.cells[k[2]] = x
            else: ev.env[k] = x
        for (o, f), m in amod.items():
            st = mem.wr(o); ev.get_arr(st, o, f, m[1]); st.arrs[f] = m[0]
            if (o, f) in imod:
                st.init[f] = imod[(o, f)]
        ev.pc_now = TRUE
        latch, exits = ev.region(l.body, H, [E.Edge(None, H, TRUE, mem)], l)
        exits = [e for e in exits if e.cond is not FALSE]
        latch = [e for e in latch if e.cond is not FALSE]
        nxt = {}
        lpc = lmem = None
        if latch:
            lpc, lmem = ev.merge(latch)
            for k, v in vars_.items():
                if isinstance(k, tuple):
                    st = lmem.get(k[1]); meta = ev.objmeta.get(k[1].name, k[1])
                    c = st.cells.get(k[2])
                    if c is None and meta.stride:
                        c = read_arr(ev.get_arr(st, k[1], k[2] % meta.stride, v.sort), Poly.const(k[2] // meta.stride), v.sort, ev.decide_node)
                    nxt[k] = c if c is not None else v.init
                else:
                    phi = next(i for i in hdr.ins if i.id == k)
                    inc = {blk: x for x, blk in phi.d['in']}
                    nxt[k] = ev.sel(latch, [ev.val(inc[e.src]) for e in latch], lpc)
        ev.pc_now = TRUE
        return lpc, lmem, nxt, exits, mem

    def find_modified():
        while True:
            lpc, lmem, nxt, exits, mem = body()
            grew = False
            mems = ([lmem] if lmem is not None else [])
            for m in mems:
                for o, st in m.objs.items():
                    s0 = mem0.objs.get(o)
                    if s0 is None: continue           # allocated inside the body
                    base = mem.objs.get(o)
                    for c, v in st.cells.items():
                        k = ('cell', o, c)
                        if k in vars_: continue
                        b = base.cells.get(c) if base is not None else None
                        if b is None: b = s0.cells.get(c)
                        if b is None: b = ev.init_cell(o, c, E.guess_sort(v), 8)
                        if v is not b:
                            lv = LoopVar(k, E.guess_sort(v) if E.guess_sort(v) != 'i' else E.guess_sort(b))
                            lv.init = b
                            mkvar(ev, lv, '%s@%d' % (o.name, c), 'x')
                            vars_[k] = lv; grew = True
                    for f, a in st.arrs.items():
                        if (o, f) in amod: continue
                        b = base.arrs.get(f) if base is not None else None
                        if b is None: b = s0.arrs.get(f)
                        if b is None:
                            s1 = s0.copy(); b = ev.get_arr(s1, o, f, E.arr_sort(a))
                        if a is not b:
                            nm = fresh('M:%s.%d' % (o.name, f)).single_atom().args[0]
                            amod[(o, f)] = (leaf(Arr('base', nm, E.arr_sort(a))), E.arr_sort(a), b, nm)
                            s1 = s0.copy(); ev.get_arr(s1, o, f, E.arr_sort(a))
                            imod[(o, f)] = ev.get_init(s1, o, f)
                            grew = True
            if not grew: return lpc, lmem, nxt, exits, mem

    ev.light = True
    lpc, lmem, nxt, exits, mem = find_modified()
    if lpc is None:
        ev.light = old_light
        # the body never repeats: evaluate it once, for real
        for v in vars_.values(): v.res = v.init
        amod.clear(); imod.clear()
        ev.recording = old_rec
        lpc, lmem, nxt, exits, mem = body()
        ev.ctx = old_ctx; ev.pcs.pop(); ev.pc_now = old_pc
        return [E.Edge(e.src, e.dst, b_and(pc0, e.cond), e.mem, e.exn) for e in exits]

    mnames = frozenset(('arr', m[3]) for m in amod.values())

    def unresolved(): return {v.sym: v for v in vars_.values() if v.res is None}

    def counted_range():
        Eall = b_or(*[e.cond for e in exits])
        N, early, kind = trip(ev, Eall, ta, set(unresolved()), mnames | variants(Eall, mark))
        if kind in ('counted', 'bounded') and N.atom is None and ev.decide_node(ile0(-N.leaf)) is True: SYMFACTS[ta] = [(-t, False), (t - N.leaf, False)]
        elif kind in ('counted', 'bounded') and N.atom is not None:
            g = apply(lambda n: ile0(-n) if isinstance(n, Poly) else FALSE, N)
            if ev.decide_node(g) is True: ev.ctx.add_node(apply(lambda n: ile0(t - n), N))

    # first with the contents of block-written arrays left out (cheap), then with everything
    for light in ((True,) if old_light else (True, False)):
        if not light:
            ev.light = False
            lpc, lmem, nxt, exits, mem = find_modified()
            mnames = frozenset(('arr', m[3]) for m in amod.values())
        progress = True
        rounds = 0
        while progress:
            progress = False; rounds += 1
            un = unresolved()
            if not un: break
            if rounds == 1:
                # plain counters first: they give the range of the iteration number
                for s, v in list(un.items()):
                    r = classify(ev, v, nxt[v.key], un, ta, t, mnames | lights(nxt[v.key]) | lights(lpc) | variants(nxt[v.key], mark) | variants(lpc, mark), lpc)
                    if r is None: continue
                    if v.how == 'invariant' or (v.how == 'sum' and v.step is not None): v.res = r; progress = True
                    else: v.how = None
                if progress:
                    lpc, lmem, nxt, exits, mem = find_modified()
                    counted_range()
                    lpc, lmem, nxt, exits, mem = find_modified()
                    un = unresolved()
            for s, v in list(un.items()):
                n = nxt[v.key]
                r = classify(ev, v, n, un, ta, t, mnames | lights(n) | lights(lpc) | variants(n, mark) | variants(lpc, mark), lpc)
                if r is not None:
                    v.res = r; progress = True
            if progress:
                lpc, lmem, nxt, exits, mem = find_modified()
                mnames = frozenset(('arr', m[3]) for m in amod.values())
            if rounds > 8: break

    # trip count
    Eall = b_or(*[e.cond for e in exits])
    unb = set(unresolved())
    N, early, kind = trip(ev, Eall, ta, unb, mnames | variants(Eall, mark))
    info = dict(parent=ev.loopstack[-1] if ev.loopstack else None, header=H, loc=loc, N=N, early=early, kind=kind, t=ta)
    # array summaries that the fixed point supports
    lost = {}
    summ = {}
    def summarise():
        summ.clear(); lost.clear()
        for key, m in amod.items():
            o, f = key
            a = lmem.get(o).arrs.get(f)
            if a is None: continue
            s = array_summary(ev, key, m, a, ta, t, lpc, N, set(unresolved()) | variants(a, mark), amod)
            if s is None: lost[key] = m
            else: summ[key] = s
    summarise()
    # replace reads of M by the summary at t in scalar results that depend on M: try resolving again
    if summ and unresolved():
        arrs = {amod[k][3]: s(t) for k, s in summ.items()}
        left = frozenset(('arr', amod[k][3]) for k in lost)
        again = True
        while again:
            again = False
            un = unresolved()
            for s_, v in list(un.items()):
                n = subst_node(nxt[v.key], {}, arrs, read=lambda b, q, so: read_arr(b, q, so, ev.decide_node))
                lc = subst_node(lpc, {}, arrs, read=lambda b, q, so: read_arr(b, q, so, ev.decide_node))
                r = classify(ev, v, n, un, ta, t, left | variants(n, mark) | variants(lc, mark), lc)
                if r is not None: v.res = r; again = True
        # re-evaluate with everything known
        lpc, lmem, nxt, exits, mem = find_modified()
        Eall = b_or(*[e.cond for e in exits]); N, early, kind = trip(ev, Eall, ta, set(unresolved()), mnames | variants(Eall, mark))
        summarise()

    # linear invariants for what is left
    inv = []
    if unresolved():
        ev.light = True
        inv = houdini(ev, vars_, unresolved(), body, ta, t, N, pc0, old_ctx)
        if follows(ev, vars_, unresolved(), body, ta): find_modified()
        ev.light = old_light
        lpc, lmem, nxt, exits, mem = body()
        Eall = b_or(*[e.cond for e in exits]); N, early, kind = trip(ev, Eall, ta, set(unresolved()), mnames | variants(Eall, mark))
        summarise()

    rank = None
    if kind not in ('counted', 'bounded') and inv: rank = ranking(ev, inv, vars_, unresolved(), lpc, nxt, ta, t)
    if kind not in ('counted', 'bounded') and rank is None: UNSHAPED.add(ta); UNSHAPED.update(unresolved())
    if kind == 'counted' and early is FALSE: EXACT.add(ta)
    else: EXACT.discard(ta)
    info.update(N=N, early=early, kind=kind, invariants=inv, names={k: m[3] for k, m in amod.items()}, summ={k: v for k, v in summ.items()},
                vars={k: v for k, v in vars_.items()}, nxt=nxt, lpc=lpc, unresolved=[v for v in vars_.values() if v.res is None],
                havoc=list(lost), amod=amod, mem0=mem0, pc0=pc0, lmem=lmem, exits=exits, top_mem=mem)
    ev.loopinfo.setdefault(H, []).append(info) if old_rec else None

    if DEBUG and old_rec:
        print('LOOP', loc, 'kind', kind, 'N', str(N)[:200], 'early', str(early)[:200])
        print('   Eall', str(Eall)[:400])
        for v in vars_.values(): print('   var', v.key, v.how, 'res', str(v.res)[:200], 'init', str(v.init)[:100], 'next', str(nxt.get(v.key))[:200] if v.res is None else '')
        print('   arrays', [str(k) for k in summ], 'lost', [str(k) for k in lost], 'inv', [str(p) for p in inv if 'stk' not in str(p)])

    # final pass over the body: array contents at the top of iteration t are the summaries
    assumed = 0
    if kind == 'counted':
        if N.atom is None and ev.decide_node(ile0(-N.leaf)) is True:
            SYMFACTS[ta] = [(-t, False), (t - N.leaf, False)]
        elif N.atom is not None and ev.decide_node(apply(lambda n: ile0(-n) if isinstance(n, Poly) else FALSE, N)) is True:
            ev.assume.append(apply(lambda n: ile0(t - n), N)); assumed = 1
    for key, s in summ.items():
        o, f = key
        cur = s(t)
        amod[key] = (cur, amod[key][1], amod[key][2], amod[key][3])
        si = init_summary(ev, key, lmem, ta, t, mem0, summ_range(ev, key, s))
        if si is not None: imod[key] = si
    ev.recording = old_rec
    ev.loopstack.append(info)
    omark = len(ev.outcomes)
    lpc, lmem, nxt, exits, mem = body()
    ev.loopstack.pop()
    if assumed: ev.assume.pop()
    if old_rec: check_termination(ev, kind, N, loc, l, exits, rank, lambda: stuck(ev, Eall, lpc, inv, vars_by_sym(vars_) if Eall is FALSE else unresolved(), nxt, ta, mnames | variants(Eall, mark), pc0))
    inner_outs = ev.outcomes[omark:]
    info['inner_outcomes'] = inner_outs
    info['step'] = (lpc, lmem, nxt, exits, mem)

    # ---- leave the loop
    ev.ctx = old_ctx; ev.pcs.pop(); ev.pc_now = old_pc
    outs = []
    un = unresolved()
    havoc_names = {amod[k][3] for k in lost}
    if kind == 'counted':
        ex = FALSE
        if early is not FALSE:
            ex = apply(lambda n: exists(ta, n, early) if isinstance(n, Poly) else FALSE, N)
        Tn = apply(lambda n: ite(ile0(n), leaf(ZERO), leaf(n)) if isinstance(n, Poly) else leaf(n), N)
        Tn = simp(ev, Tn, pc0)
        info['T'] = Tn; info['ex'] = ex
        first = None
        if early is not FALSE:
            nb, bb = canon_bound(ta, early)
            first = apply(lambda n: leaf(Poly.atom(Atom('first', (nb, n, bb), 'i'))), N)
            for p in leaves(first):
                SYMFACTS[p.single_atom()] = [(-p, False), (p - p.single_atom().args[1] + ONE, False)]
    else:
        T = havoc('T%d' % H, 'i')
        SYMFACTS[T.single_atom()] = [(-T, False)]
        if ta in UNSHAPED: UNSHAPED.add(T.single_atom())
        Tn = leaf(T); ex = FALSE; first = None
        info['T'] = Tn
    # symbols for unresolved variables at exit
    hav = {}
    for s_, v in un.items():
        h = havoc('X' + str(v.sym.args[0]), v.sort)
        if ta in UNSHAPED: UNSHAPED.add(h.single_atom())
        hav[s_] = leaf(h)
    hsub = dict(hav)
    if hav:
        # invariants carry over to the exit symbols
        m0 = {k: v.leaf for k, v in hav.items()}
        for s_, v in un.items():
            h = hav[s_].leaf.single_atom()
            fs = []
            for p in inv:
                if s_ in syms_of(p):
                    q = subst_poly(p, {**{k: x for k, x in m0.items()}, ta: Tn})
                    if q.atom is None: fs.append((q.leaf, False))
            SYMFACTS[h] = fs
    arrs_fin = {}
    for k in lost:
        nm = amod[k][3]
        hn = havoc_arr('H:%s' % nm)
        arrs_fin[nm] = leaf(Arr('base', hn, amod[k][1]))
    ev.last_havoc = (hav, arrs_fin)
    info['exit_names'] = (hav, arrs_fin)

    def at(T):
        return Subst({ta: T, **hsub}, arrs_fin, read=lambda b, q, so: read_arr(b, q, so, ev.decide_node))
    subN = at(Tn)
    subF = at(first) if first is not None else None
    ev.pc_now = old_pc
    defs = [i.id for b in l.body for i in fn.blocks[b].ins if i.ty != 'void']
    used_outside = outside_uses(fn, l)
    newenv = {}
    for d in defs:
        if d in ev.env and d in used_outside:
            x = ev.env[d]
            a = subN.node(x)
            if subF is not None:
                b = subF.node(x)
                a = ite(ex, b, a)
            newenv[d] = a
    ev.env.update(newenv)
    for e in exits:
        if kind == 'counted':
            c = constrain(e.cond, TRUE)
            cN = subN.node(c)
            # at T=N the counting exit is the one taken
            cN = simp(ev, cN, pc0) if cN is not TRUE else cN
            if early is FALSE: cond = cN
            else:
                cF = constrain(c, early)
                if cF is not TRUE and cF is not FALSE: cF = simp(ev, subF.node(c), pc0)
                cond = b_or(b_and(b_not(ex), cN), b_and(ex, cF))
        else:
            cond = subN.node(e.cond) if len(exits) > 1 or True else TRUE
        cond = b_and(pc0, cond)
        if cond is FALSE: continue
        m = exit_mem(ev, e.mem, mem, mem0, subN, subF, ex, amod)
        outs.append(E.Edge(e.src, e.dst, cond, m, e.exn))
    # outcomes recorded inside the loop (returns / throws from the body)
    if inner_outs:
        keep = ev.outcomes[:omark]
        for k, v, pc, m, lc in inner_outs:
            keep.append((k, v, pc, m, lc))
        ev.outcomes = keep
    return outs


def simp(ev, n, pc):
    if n.atom is None: return n
    c = ev.ctx.clone(); c.add_node(b_and(ev.pc_now, pc) if ev.pc_now is not FALSE else pc)
    for p in ev.pcs: c.add_node(p)
    return c.simplify(n)


def canon_bound(ta, body):
    from terms import _canon_bv
    return _canon_bv(body, ta, None)


def outside_uses(fn, l):
    if getattr(fn, '_ou', None) is None: fn._ou = {}
    r = fn._ou.get(l.header)
    if r is None:
        r = set()
        def ops(i):
            d = i.d
            for k in ('ops', 'args'):
                for o in d.get(k, ()): yield o
            for k in ('base', 'cond', 'fptr'):
                if isinstance(d.get(k), dict): yield d[k]
            for o in d.get('voff', ()): yield o[0]
            if i.op == 'phi':
                for o, b in d['in']: yield o
        for b, B in fn.blocks.items():
            if b in l.body: continue
            for i in B.ins:
                for o in ops(i):
                    if o['k'] == 'v': r.add(o['i'])
        fn._ou[l.header] = r
    return r


def mkvar(ev, v, name, ty):
    s = fresh(('bool:' if ty in ('i1', 'i8') else '') + name, v.sort)
    v.sym = s.single_atom()
    lv = leaves(v.init)
    if all(isinstance(x, Ptr) and not isinstance(x.obj, tuple) for x in lv):
        # a moving pointer: its initial value plus a number of elements
        v.isptr = True; v.obj = v.init
        strides = {getattr(ev.objmeta.get(x.obj.name, x.obj), 'stride', None) for x in lv}
        v.scale = (strides.pop() or 1) if len(strides) == 1 else 1
        v.init = leaf(ZERO)


def symnode(v):
    if v.isptr: return v.ptr(Poly.atom(v.sym))
    return leaf(Poly.atom(v.sym))


def _ptr(v, d):
    return apply(lambda p, x: Ptr(p.obj, p.off + x.scale(v.scale)) if isinstance(x, Poly) else Opq('ptr', p, x), v.obj, d if isinstance(d, Node) else leaf(d))


def _delta(v, n):
    """value n of the pointer variable as an element distance from its initial value, or None"""
    d = n_sub(n, v.obj)
    # impossible combinations of decisions leave ptrdiff leaves behind
    from models import leaf_div
    if not all(isinstance(x, Poly) for x in leaves(d)): return None
    return leaf_div(d, v.scale)


LoopVar.ptr = _ptr
LoopVar.delta = _delta


LoopVar.symnode = symnode


def drop_dep(n, care, others):
    """n with decisions on `others` removed where they make no difference inside the care set"""
    if n.atom is None or care is None: return n
    for a in batoms_of(n):
        if syms_of(a).isdisjoint(others): continue
        h = restrict(n, a, True); l = restrict(n, a, False)
        if h is l: n = h; continue
        ch = restrict(care, a, True); cl = restrict(care, a, False)
        both = b_and(ch, cl)
        if both is FALSE or ite(both, h, FALSE) is ite(both, l, FALSE): n = constrain(ite(ch, h, l), b_or(ch, cl)); care = b_or(ch, cl)
    return n


def classify(ev, v, n, un, ta, t, mnames, care=None):
    """closed form of loop-carried variable v at the top of iteration t, or None"""
    if v.isptr:
        n = v.delta(n)
        if n is None: return None
        wrap = v.ptr
    else: wrap = lambda r: r
    others = frozenset(un) | mnames
    n = drop_dep(n, care, others)
    sy = syms_of(n)
    x = leaf(Poly.atom(v.sym))
    if n is x: v.how = 'invariant'; return wrap(v.init)
    numeric = all(isinstance(p, Poly) for p in leaves(n)) and all(isinstance(p, Poly) for p in leaves(v.init))
    if sy.isdisjoint(others):
        # value computed afresh every iteration: previous-iteration value
        if ta not in sy and n is v.init: v.how = 'invariant'; return wrap(v.init)
        v.how = 'prev'
        prev = subst_node(n, {ta: t - ONE})
        return wrap(ite(ieq0(t), v.init, prev))
    if numeric:
        d = n_sub(n, x)
        sd = syms_of(d)
        if sd.isdisjoint(others):
            v.how = 'sum'
            v.step = None
            if ta not in sd:
                if d.atom is None and d.leaf.is_const(): v.step = d.leaf.cval()
                if v.sort == 'i' and not all(p.is_const() for p in leaves(d)): return None    # not linear: invariants serve better
                return wrap(n_add(v.init, n_mul(d, leaf(t))))
            u = fresh('u', 'i').single_atom()
            return wrap(n_add(v.init, quant('sum', u, t, subst_node(d, {ta: Poly.atom(u)}), v.sort)))
    # boolean flags
    bt = BAtom('true', (Poly.atom(v.sym),))
    g1 = restrict(n, bt, True); g0 = restrict(n, bt, False)
    if v.sym not in syms_of(g1) and v.sym not in syms_of(g0):
        u = fresh('u', 'i').single_atom()
        if g0 is FALSE and syms_of(g1).isdisjoint(others):
            v.how = 'all'
            return b_and(ev.truth(v.init), b_not(exists(u, t, subst_node(b_not(ev.truth(g1)), {ta: Poly.atom(u)}))))
        if g1 is TRUE and syms_of(g0).isdisjoint(others):
            v.how = 'any'
            return b_or(ev.truth(v.init), exists(u, t, subst_node(ev.truth(g0), {ta: Poly.atom(u)})))
    # running maximum / minimum
    if numeric:
        r = fold_max(ev, v, n, others, ta, t)
        if r is not None: v.how = 'max'; return wrap(r)
    return None


def fold_max(ev, v, n, others, ta, t):
    """n == (f(t) > x ? f(t) : x)"""
    if n.atom is None: return None
    x = leaf(Poly.atom(v.sym))
    vals = [p for p in leaves(n) if not (isinstance(p, Poly) and p == x.leaf)]
    if len(vals) != 1 or len(leaves(n)) != 2: return None
    f = leaf(vals[0])
    if not syms_of(f).isdisjoint(others): return None
    for strict in (True, False):
        for mx in (True, False):
            if v.sort == 'r':
                cmp = (flt0 if strict else fle0)
                d = (x.leaf - f.leaf) if mx else (f.leaf - x.leaf)
                want = ite(cmp(d), f, x)
            else:
                d = (x.leaf - f.leaf) if mx else (f.leaf - x.leaf)
                want = ite(ile0(d + (ONE if strict else ZERO)), f, x)
            if want is n:
                from terms import _canon_bv
                u = fresh('u', 'i').single_atom()
                nb, bb = _canon_bv(subst_node(f, {ta: Poly.atom(u)}), u, t)
                k = 'maxof' if mx else 'minof'
                m = leaf(Poly.atom(Atom(k, (nb, t, bb), v.sort)))
                z = app('max2' if mx else 'min2', [v.init, m], v.sort)
                return ite(ile0(t), v.init, z)
    return None


def trip(ev, Eall, ta, unres, mnames):
    """(N node, early condition node, kind)"""
    t = Poly.atom(ta)
    if Eall is FALSE: return leaf(ZERO), FALSE, 'infinite'
    cands = []
    bad = frozenset(unres) | mnames
    for a in batoms_of(Eall):
        if a.kind not in ('le0', 'eq0') or ta not in syms_of(a): continue
        w = a.args.without(ta)
        if w is None or not w[0].is_const(): continue
        c, r = w[0].cval(), w[1]
        if ta in syms_of(r) or not syms_of(r).isdisjoint(bad): continue
        if a.kind == 'le0':
            if c > 0: side, n = False, ceildiv(ONE - r, c)
            else: side, n = True, ceildiv(r, -c)
        else:
            if not isinstance(c, int): continue
            side = True
            q = (-r).scale(Fraction(1, c)) if c else None
            if q is None or any(isinstance(v, Fraction) for v in q.m.values()): continue
            n = leaf(q)
            if not (n.atom is None and ev.decide_node(ile0(-n.leaf)) is True): continue
        if restrict(Eall, a, side) is TRUE:
            early = restrict(Eall, a, not side)
            cands.append((n, early))
        else:
            cands.append(None)
    good = [c for c in cands if c is not None]
    if good:
        # prefer the one without early exits
        good.sort(key=lambda c: 0 if c[1] is FALSE else 1)
        n, early = good[0]
        if early is not FALSE and not syms_of(early).isdisjoint(bad):
            return n, early, 'bounded'
        return n, early, 'counted'
    # case split on loop-invariant decisions
    for a in batoms_of(Eall):
        if ta not in syms_of(a) and syms_of(a).isdisjoint(bad):
            h = trip(ev, restrict(Eall, a, True), ta, unres, mnames)
            g = trip(ev, restrict(Eall, a, False), ta, unres, mnames)
            if h[2] == 'counted' and g[2] == 'counted':
                c = mk(a, TRUE, FALSE)
                return ite(c, h[0], g[0]), ite(c, h[1], g[1]), 'counted'
            break
    return leaf(ZERO), FALSE, 'unknown'


def ceildiv(p, c):
    if c == 1: return leaf(p)
    return app('fdiv', [p + Poly.const(c - 1), Poly.const(c)])


def chain(a):
    """Arr node -> (list of upd tuples newest first, base node) if linear, else None"""
    out = []
    while True:
        if a.atom is not None: return None
        x = a.leaf
        if not isinstance(x, Arr): return None
        if x.kind == 'base': return out, a
        out.append(x.args)
        a = x.args[0]


def linearise(a, M):
    """turn decisions over array contents into value decisions: ite(c, upd(A,..,v), A) -> upd(A,..,ite(c,v,A[i]))"""
    if a.atom is None: return a
    h = linearise(a.hi, M); g = linearise(a.lo, M)
    c = mk(a.atom, TRUE, FALSE)
    ch, cg = chain(h), chain(g)
    if ch is None or cg is None: return a
    lh, bh = ch; lg, bg = cg
    if bh is not bg: return a
    # common suffix
    lh = list(lh); lg = list(lg)
    def build(base, ups):
        for p, lo, hi, bv, v in reversed(ups): base = leaf(Arr('upd', base, lo, hi, bv, v))
        return base
    if len(lh) == 1 and len(lg) == 1 and lh[0][1] == lg[0][1] and lh[0][2] == lg[0][2]:
        p, lo, hi, bv, v = lh[0]; v2 = subst_node(lg[0][4], {lg[0][3]: Poly.atom(bv)})
        return leaf(Arr('upd', p, lo, hi, bv, ite(c, v, v2)))
    # one side is a prefix extension of the other
    def ext(longer, shorter, cond):
        if longer[len(longer) - len(shorter):] != shorter: return None
        extra = longer[:len(longer) - len(shorter)]
        base = build(bh, shorter)
        for p, lo, hi, bv, v in reversed(extra):
            oldv = read_arr(base, Poly.atom(bv))
            base = leaf(Arr('upd', base, lo, hi, bv, ite(cond, v, oldv)))
        return base
    if len(lh) >= len(lg): r = ext(lh, lg, c)
    else: r = ext(lg, lh, b_not(c))
    return r if r is not None else a


def array_summary(ev, key, m, a, ta, t, lpc, N, unres, amod):
    """contents of array `key` at the top of iteration t as a function of t, or None"""
    M, sort, A0, nm = m
    a = linearise(a, M)
    ch = chain(a)
    if ch is None: return None
    ups, base = ch
    if base is not M or not ups: return None
    # a write that a later write to the same range replaces does not matter
    ups = [u for i, u in enumerate(ups) if not any(w[1] == u[1] and w[2] == u[2] for w in ups[:i])]
    mine = ('arr', nm)
    othermods = frozenset(('arr', amod[k][3]) for k in amod if k != key)
    bad = frozenset(unres) | othermods
    if len(ups) > 1: return None
    prev, lo, hi, bv, v = ups[0]
    if not syms_of(lo).isdisjoint(bad) or not syms_of(hi).isdisjoint(bad): return None
    if not syms_of(v).isdisjoint(bad): return None
    if mine in syms_of(lo) or mine in syms_of(hi): return None
    width = hi - lo
    w = lo.without(ta)
    if w is None or not w[0].is_const(): return None
    s, e0 = w[0].cval(), w[1]
    if ta in syms_of(e0): return None
    if width == ONE and s in (1, -1):
        # v as a function of t (bv == lo)
        vt = subst_node(v, {bv: lo})
        if mine in syms_of(vt):
            # every read must avoid elements written in earlier iterations
            sels = [x for x in sel_atoms(vt, nm)]
            for x in sels:
                r = x.args[1]
                if s == 1: okc = b_or(ile0(lo - r), ile0(r - e0 + ONE))
                else: okc = b_or(ile0(r - lo), ile0(e0 - r + ONE))
                # decided separately
                if not any(ev.decide_node(c) is True for c in ([ile0(lo - r), ile0(r - e0 + ONE)] if s == 1 else [ile0(r - lo), ile0(e0 - r + ONE)])):
                    return None
            vt = subst_node(vt, {}, {nm: A0}, read=lambda b, q, so: read_arr(b, q, so, ev.decide_node))
        j = fresh('j', 'i').single_atom(); J = Poly.atom(j)
        if s == 1:
            vj = subst_node(vt, {ta: J - e0})
            def S(T):
                return apply(lambda T: leaf(Arr('upd', A0, e0, e0 + T, j, vj)), T if isinstance(T, Node) else leaf(T))
        else:
            vj = subst_node(vt, {ta: e0 - J})
            def S(T):
                return apply(lambda T: leaf(Arr('upd', A0, e0 - T + ONE, e0 + ONE, j, vj)), T if isinstance(T, Node) else leaf(T))
        S.rng = ('sweep', s, e0)
        return S
    if width == ONE and s.denominator == 1 and abs(s) > 1:
        # every c-th element (elements wider than the array's unit)
        c = abs(int(s))
        vt = subst_node(v, {bv: lo})
        for x in (sel_atoms(vt, nm) if mine in syms_of(vt) else []):
            r = x.args[1]
            ways = [ile0(lo - r), ile0(r - e0 + ONE)] if s > 0 else [ile0(r - lo), ile0(e0 - r + ONE)]
            d = r - e0
            k = [q for m, q in d.m.items() if m]; off = d.m.get((), 0)
            if all(q % c == 0 for q in k) and off % c: continue         # never an element this loop writes
            if not any(ev.decide_node(z) is True for z in ways): return None
        if mine in syms_of(vt): vt = subst_node(vt, {}, {nm: A0}, read=lambda b, q, so: read_arr(b, q, so, ev.decide_node))
        j = fresh('j', 'i').single_atom(); J = Poly.atom(j)
        d = J - e0 if s > 0 else e0 - J
        q = app('fdiv', [d, Poly.const(c)], 'i').leaf
        vj = ite(ieq0(d - q.scale(c)), subst_node(vt, {ta: q}), read_arr(A0, J, sort, ev.decide_node))
        def S(T):
            T = T if isinstance(T, Node) else leaf(T)
            if s > 0: return apply(lambda T: leaf(Arr('upd', A0, e0, e0 + T.scale(c), j, vj)), T)
            return apply(lambda T: leaf(Arr('upd', A0, e0 - T.scale(c) + ONE, e0 + ONE, j, vj)), T)
        S.rng = ('sweep', s, e0)
        return S
    if s == 0 and ta not in syms_of(hi):
        # the same range is rewritten in every iteration
        J = Poly.atom(bv)
        old = leaf(Poly.atom(Atom('sel', (nm, J), sort)))
        if mine not in syms_of(v):
            if ta not in syms_of(v) :
                def S(T): return apply(lambda T: ite(ile0(T), A0, leaf(Arr('upd', A0, lo, hi, bv, v))), T if isinstance(T, Node) else leaf(T))
            else:
                def S(T): return apply(lambda T: ite(ile0(T), A0, leaf(Arr('upd', A0, lo, hi, bv, subst_node(v, {ta: T - ONE})))), T if isinstance(T, Node) else leaf(T))
            S.rng = ('same', lo, hi)
            return S
        d = n_sub(v, old)
        if mine in syms_of(d) and width == ONE: d = n_sub(subst_node(v, {bv: lo}), leaf(Poly.atom(Atom('sel', (nm, lo), sort))))
        if mine in syms_of(d): return None
        u = fresh('u', 'i').single_atom()
        du = subst_node(d, {ta: Poly.atom(u)})
        a0 = read_arr(A0, J, sort, ev.decide_node)
        def S(T):
            return apply(lambda T: leaf(Arr('upd', A0, lo, hi, bv, n_add(a0, quant('sum', u, T, du, sort)))), T if isinstance(T, Node) else leaf(T))
        S.rng = ('acc', lo, hi)
        return S
    return None


def sel_atoms(n, nm):
    out = []; seen = set()
    def rec(x):
        if isinstance(x, (Node, Poly, Atom, BAtom, Arr, Agg, Ptr)) and id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, Node):
            if x.atom is None: rec(x.leaf)
            else: rec(x.atom); rec(x.hi); rec(x.lo)
        elif isinstance(x, Poly):
            for a in x.atoms(): rec(a)
        elif isinstance(x, Atom):
            if x.kind == 'sel' and x.args[0] == nm: out.append(x)
            for y in x.args: rec(y)
        elif isinstance(x, BAtom): rec(x.args)
        elif isinstance(x, tuple):
            for y in x: rec(y)
        elif isinstance(x, Ptr): rec(x.off)
        elif isinstance(x, Agg): rec(x.el)
        elif isinstance(x, Arr): rec(x.args)
    rec(n)
    return out


def summ_range(ev, key, s): return getattr(s, 'rng', None)


def init_summary(ev, key, lmem, ta, t, mem0, rng):
    """initialised-shadow of the array at the top of iteration t"""
    o, f = key
    s0 = mem0.objs.get(o)
    if s0 is None: return None
    base = ev.get_init(s0.copy(), o, f)
    bv = Atom('sym', ('$s',), 'i')
    if rng is None: return None
    if rng[0] == 'sweep':
        _, s, e0 = rng
        if s == 1: return leaf(Arr('upd', base, e0, e0 + t, bv, TRUE))
        if abs(s) > 1:
            c = abs(int(s)); J = Poly.atom(bv); d = J - e0 if s > 0 else e0 - J
            v = ite(ieq0(d - app('fdiv', [d, Poly.const(c)], 'i').leaf.scale(c)), TRUE, read_arr(base, J, 'b', ev.decide_node))
            if s > 0: return leaf(Arr('upd', base, e0, e0 + t.scale(c), bv, v))
            return leaf(Arr('upd', base, e0 - t.scale(c) + ONE, e0 + ONE, bv, v))
        return leaf(Arr('upd', base, e0 - t + ONE, e0 + ONE, bv, TRUE))
    if rng[0] == 'same':
        return ite(ile0(t), base, leaf(Arr('upd', base, rng[1], rng[2], bv, TRUE)))
    return base


def exit_mem(ev, emem, mem, mem0, subN, subF, ex, amod):
    import eval as E
    out = E.Mem()
    def sb(n):
        a = subN.node(n)
        if subF is not None:
            b = subF.node(n); a = ite(ex, b, a)
        return a
    for o, st in emem.objs.items():
        n = st.copy()
        s0 = mem0.objs.get(o)
        if s0 is not None and st is s0: out.objs[o] = st; continue
        for c in n.cells: n.cells[c] = sb(n.cells[c])
        for f in n.arrs: n.arrs[f] = sb(n.arrs[f])
        for f in n.init: n.init[f] = sb(n.init[f])
        n.alive = sb(n.alive)
        out.objs[o] = n
    return out


# ---------------------------------------------------------------- invariants
def lens_of(n):
    """the list lengths that occur in n"""
    out = set(); seen = set()
    def rec(x):
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, Node):
            if x.atom is None: rec(x.leaf)
            else: rec(x.atom); rec(x.hi); rec(x.lo)
        elif isinstance(x, Poly):
            for a in x.atoms(): rec(a)
        elif isinstance(x, Atom):
            if x.kind == 'len': out.add(x)
            elif x.kind == 'app':
                for y in x.args: rec(y)
        elif isinstance(x, BAtom):
            if isinstance(x.args, tuple):
                for y in x.args: rec(y)
            else: rec(x.args)
        elif isinstance(x, Ptr): rec(x.off)
    rec(n)
    return out


def houdini(ev, vars_, un, body, ta, t, N, pc0, outer_ctx):
    """largest inductive subset of candidate linear inequalities over unresolved integer variables"""
    ints = [v for v in un.values() if v.sort == 'i' or v.isptr]
    if not ints: return []
    terms = {ZERO: 1}
    for v in ints:
        for p in leaves(v.init):
            if isinstance(p, Poly) and p.is_linear(): terms.setdefault(p, 1)
    lpc, lmem, nxt, exits, mem = body()
    def boolish(v):
        if v.isptr or not all(isinstance(p, Poly) and p.is_const() and p.cval() in (0, 1) for p in leaves(v.init)): return False
        return all(isinstance(p, Poly) and (p.is_const() and p.cval() in (0, 1) or (p.single_atom() is not None and p.single_atom().kind == 'sym')) for p in leaves(nxt[v.key]))
    flags = [v for v in ints if boolish(v)]
    ints = [v for v in ints if v not in flags]
    lens = set()
    for c in [lpc] + [e.cond for e in exits] + [nxt[v.key] for v in ints]: lens |= lens_of(c)
    for a in lens: terms.setdefault(Poly.atom(a), 2)
    conds = [lpc] + [e.cond for e in exits]
    for c in conds:
        for a in batoms_of(c):
            if a.kind in ('le0', 'eq0'):
                for v in ints:
                    w = a.args.without(v.sym)
                    if w and w[0].is_const() and abs(w[0].cval()) == 1:
                        r = w[1]
                        if syms_of(r).isdisjoint(frozenset(un)) and ta not in syms_of(r):
                            terms.setdefault(r.scale(-w[0].cval()), 1)
    for v in ints:
        for p in leaves((v.delta(nxt[v.key]) or leaf(ZERO)) if v.isptr else nxt[v.key]):
            if isinstance(p, Poly) and p.is_linear() and syms_of(p).isdisjoint(frozenset(un)) and ta not in syms_of(p): terms.setdefault(p, 1)
    cands = []
    def add(p):
        if p not in cands and not p.is_const(): cands.append(p)
    step = lambda v: 1
    for v in ints:
        x = Poly.atom(v.sym)
        for u, k in terms.items():
            for c in (0, 1, -1, 2) if k == 2 else (0, 1, -1):
                add(x - u + Poly.const(c)); add(u - x + Poly.const(c))
        for c in (0, 1, -1):
            add(x - t + Poly.const(c)); add(t - x + Poly.const(c))
    # step sizes: a loop-invariant amount a variable moves by bounds the distance between variables
    steps = []
    for v in ints:
        nv = v.delta(nxt[v.key]) if v.isptr else nxt[v.key]
        for p in (leaves(nv) if nv is not None else ()):
            if not isinstance(p, Poly): continue
            for w in ints:
                d = p - Poly.atom(w.sym)
                if not d.is_const() and d.is_linear() and syms_of(d).isdisjoint(frozenset(un)) and ta not in syms_of(d) and d not in steps: steps.append(d)
    for v in ints:
        for w in ints:
            if v is w: continue
            for d in steps:
                for c in (0, 1, -1): add(Poly.atom(v.sym) - Poly.atom(w.sym) - d + Poly.const(c))
    for i, v in enumerate(ints):
        for w in ints[i + 1:]:
            for c in (0, 1, -1):
                add(Poly.atom(v.sym) - Poly.atom(w.sym) + Poly.const(c)); add(Poly.atom(w.sym) - Poly.atom(v.sym) + Poly.const(c))
    for v in flags:
        x = Poly.atom(v.sym); add(-x); add(x - ONE)
    ints = ints + flags
    # initiation
    ini = {v.sym: v.init for v in ints}; ini[ta] = leaf(ZERO)
    keep = []
    for p in cands:
        q = subst_poly(p, ini)
        g = apply(lambda x: ile0(x) if isinstance(x, Poly) else FALSE, q)
        if g is TRUE or ev.ctx.prove(g): keep.append(p)
    cands = keep
    base_ctx = ev.ctx
    for _ in range(12):
        ev.ctx = base_ctx.clone()
        for p in cands: ev.ctx.add_le(p)
        lpc, lmem, nxt, exits, mem = body()
        if lpc is None: break
        ctx = ev.ctx.clone(); ctx.add_node(lpc)
        nx = {v.sym: (v.delta(nxt[v.key]) or leaf(fresh('bad')) if v.isptr else nxt[v.key]) for v in ints}
        nx[ta] = leaf(t + ONE)
        keep = []
        for p in cands:
            q = subst_poly(p, nx)
            g = apply(lambda x: ile0(x) if isinstance(x, Poly) else FALSE, q)
            ok = g is TRUE
            if not ok:
                # path-wise over the latch condition when it is a small disjunction
                ok = ctx.prove(g)
                if not ok:
                    from terms import cubes as _cubes
                    cs = _cubes(lpc)
                    if len(cs) <= 24:
                        ok = True
                        for c in cs:
                            c2 = ev.ctx.clone()
                            for a, val in c: c2.add_lit(a, val)
                            c2._sharpen()
                            if not c2.prove(g): ok = False; break
            if ok: keep.append(p)
        if len(keep) == len(cands): break
        cands = keep
    ev.ctx = base_ctx
    for p in cands: ev.ctx.add_le(p)
    return cands


def follows(ev, vars_, un, body, ta):
    """resolve a variable that always is a function of another one: v' = f(w), u' = w  ==>  v = (u is u0 ? v0 : f(u))"""
    done = False
    lpc, lmem, nxt, exits, mem = body()
    if lpc is None: return False
    ctx = ev.ctx.clone(); ctx.add_node(lpc)
    for v in list(un.values()):
        if v.isptr or v.res is not None: continue
        n = nxt[v.key]
        sy = syms_of(n)
        if ta in sy: continue
        dep = [s for s in sy if isinstance(s, Atom) and s in un]
        if any(isinstance(s, tuple) for s in sy & frozenset(un)) or lights(n): continue
        if not dep or v.sym in dep: continue
        w = dep[0] if len(dep) == 1 else None
        for u in un.values():
            if u.isptr or u.sort != 'i' or u.res is not None or u is v: continue
            nu = nxt[u.key]
            if w is None: break
            if not (nu.atom is None and nu.leaf == Poly.atom(w)): continue
            if u.init.atom is not None or not isinstance(u.init.leaf, Poly): continue
            if not ctx.prove(b_not(ieq0(Poly.atom(w) - u.init.leaf))): continue
            f = subst_node(n, {w: Poly.atom(u.sym)})
            v.res = ite(ieq0(Poly.atom(u.sym) - u.init.leaf), v.init, f)
            v.how = 'follows'; done = True
            break
        if v.res is None and follow_element(ev, v, n, un, nxt, ta, ctx): done = True
    return done


def replace_atoms(p, m):
    out = ZERO
    for mono, c in p.m.items():
        x = Poly.const(c)
        for a, e in mono:
            for _ in range(e): x = x * m.get(a, Poly.atom(a))
        out = out + x
    return out


def follow_element(ev, v, n, un, nxt, ta, ctx):
    """v' is the element of an unchanging array at the position that another variable u moves to: v = (u is u0 ? v0 : array[u + c])"""
    others = frozenset(un)
    for u in un.values():
        if u.isptr or u.sort != 'i' or u.res is not None or u is v: continue
        if u.init.atom is not None or not isinstance(u.init.leaf, Poly): continue
        U = Poly.atom(u.sym); found = []
        def shape(p, q):
            if not isinstance(p, Poly) or not isinstance(q, Poly): found.append(None); return ZERO
            m = {}
            for a in p.atoms():
                if a.kind == 'sel' and not syms_of(a).isdisjoint(others):
                    for d, i in ((a.args[1] - q, U), (a.args[1] + q, -U)):
                        if syms_of(d).isdisjoint(others) and ta not in syms_of(d): m[a] = Poly.atom(Atom('sel', (a.args[0], i + d), a.sort)); break
                    else: found.append(None); return ZERO
            found.append(replace_atoms(p, m) if m else p); return ZERO
        apply(shape, n, nxt[u.key])
        if None in found or len(set(found)) != 1: continue
        f = found[0]
        if not syms_of(f) & others <= {u.sym} or ta in syms_of(f): continue
        if not ctx.prove(apply(lambda q: b_not(ieq0(q - u.init.leaf)) if isinstance(q, Poly) else FALSE, nxt[u.key])): continue
        v.res = ite(ieq0(U - u.init.leaf), v.init, leaf(f)); v.how = 'follows'
        return True
    return False


def ranking(ev, inv, vars_, un, lpc, nxt, ta, t):
    """an invariant p <= 0 whose left side grows by at least 1 per iteration, or None"""
    ctx = ev.ctx.clone(); ctx.add_node(lpc)
    ints = [v for v in un.values() if v.sort == 'i' or v.isptr]
    nx = {v.sym: (v.delta(nxt[v.key]) or leaf(fresh('bad')) if v.isptr else nxt[v.key]) for v in ints}
    for p in inv:
        if ta in syms_of(p): continue
        q = n_sub(subst_poly(p, nx), leaf(p))
        g = apply(lambda x: ile0(ONE - x) if isinstance(x, Poly) else FALSE, q)
        if g is TRUE or ctx.prove(g): return p
    return None


def vars_by_sym(vars_): return {v.sym.single_atom() if isinstance(v.sym, Poly) else v.sym: v for v in vars_.values()}


def stuck(ev, Eall, lpc, inv, un, nxt, ta, bad, pc0):
    """condition under which the loop can be in a state that it never leaves (None: not understood)"""
    if Eall is FALSE: return None if any(v.isptr for v in un.values()) else pc0
    own = set(un)
    if not (syms_of(Eall) & (bad | {ta})) - own: pass
    else: return None
    c = b_and(pc0, b_not(Eall))
    for p in inv:
        if not (syms_of(p) & (bad | {ta})) - own: c = b_and(c, ile0(p))
    # close over the variables the exit test depends on: none of them may change any more
    need = [s for s in syms_of(Eall) if s in un]; done = set()
    while need:
        s = need.pop()
        if s in done: continue
        done.add(s); v = un[s]; d = nxt[v.key]
        if (syms_of(d) & (bad | {ta})) - own: return None
        need += [x for x in syms_of(d) if x in un]
        if v.sort == 'i': c = b_and(c, apply(lambda q: ieq0(q - Poly.atom(s)) if isinstance(q, Poly) else FALSE, d))
        elif v.isptr: c = b_and(c, apply(lambda q: ieq0(q - Poly.atom(s)) if isinstance(q, Poly) else FALSE, v.delta(d) or leaf(fresh('bad'))))
        else: return None
    return c


def check_termination(ev, kind, N, loc, l, exits, rank=None, stuck=None):
    import eval as E
    ok = kind in ('counted', 'bounded') or rank is not None
    if rank is not None: N = 'ranking function %s' % (-rank)
    detail = ''
    if not ok: detail = 'no counting exit found'
    o = E.Obl('termination', loc, 'loop at %s leaves after at most %s iterations' % (loc, N if ok else '?'), ok, detail)
    o.stuck = None if ok else stuck()
    ev.obls.append(o)

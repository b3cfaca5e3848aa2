"""C14 (two-sided recursion), C15 (block recursion), C16 (polynomial recursion): the transition relation of the main
loop, derived from the source for an arbitrary iteration and an arbitrary state, is compared with one step of the
recursion that defines the probability; together with the derived initial state and the derived final expression
this gives the result by induction over the iterations."""
import math
from checks import *
from prove import pinned, replace_atom
from props.safety import entry_run
import refute, loops

def _pois(args, sort):
    """a Poisson variable of mean 0 is 0"""
    if args[0] == ZERO: return ite(ieq0(args[1]), TRUE, FALSE)
REWRITE['pois'] = _pois


def hnames(node):
    return {s[1] for s in syms_of(node) if isinstance(s, tuple) and s[0] == 'arr' and str(s[1]).startswith('H:')}


def find_loop(ev, node):
    """the loop whose final array contents a result reads"""
    hs = hnames(node)
    for l in ev.loopinfo.values():
        for i in l:
            if 'exit_names' in i and any(a.leaf.args[0] in hs for a in i['exit_names'][1].values()): return i
    return None


class State:
    """the array a loop works on, as a function of the flags that say which buffer is current: read off an expression
    that uses it.  names: array names occurring in the expression -> names at the top of the loop; syms: likewise"""

    def __init__(self, ev, info, node, names, syms):
        self.ev = ev; self.info = info; self.ok = False; self.by = []
        node = Subst(syms).node(node)
        flags = sorted((a for a in batoms_of(node) if a.kind == 'true'), key=str)
        if len(flags) > 4: return
        from itertools import product
        use = []
        for vals in product((True, False), repeat=len(flags)):
            v = node
            for a, x in zip(flags, vals): v = restrict(v, a, x)
            sels = {y.args[0] for p in leaves(v) if isinstance(p, Poly) for a in p.atoms() for y in find_sels(a) if y.args[0] in names}
            if len(sels) != 1: return
            self.by.append((list(zip(flags, vals)), names[sels.pop()]))
        self.names = {nm for _, nm in self.by}
        self.ok = True

    def read(self, j):
        """element j in terms of the symbols of the top of the loop"""
        out = leaf(ZERO)
        for lits, nm in self.by:
            c = TRUE
            for a, x in lits: c = b_and(c, mk(a, TRUE, FALSE) if x else mk(a, FALSE, TRUE))
            out = ite(c, leaf(Poly.atom(Atom('sel', (nm, j), 'r'))), out)
        return out

    def after(self, j):
        """element j after one iteration, in terms of the symbols of its top"""
        lpc, lmem, nxt, exits, mem = self.info['step']
        return self.subst(lambda v: nxt[v.key], lmem, j)

    def initial(self, j):
        return self.subst(lambda v: v.init, self.info['mem0'], j)

    def subst(self, val, mem, j):
        i = self.info; m = {}; arrs = {}
        for v in i['unresolved']: m[v.sym] = val(v)
        for (o, f), nm in i['names'].items():
            a = mem.get(o).arrs.get(f)
            arrs[nm] = a if a is not None else leaf(Arr('base', nm, 'r'))
        return Subst(m, arrs, read=lambda b, q, so: read_arr(b, q, so, self.ev.decide_node)).node(self.read(j))

    def final(self, j):
        """element j after the loop"""
        hav, fin = self.info['exit_names']
        return Subst(hav, fin).node(self.read(j))


def find_sels(a):
    out = []
    seen = set()
    def rec(x):
        if id(x) in seen: return
        if isinstance(x, (Node, Poly, Atom, BAtom)): seen.add(id(x))
        if isinstance(x, Node):
            if x.atom is None: rec(x.leaf)
            else: rec(x.atom); rec(x.hi); rec(x.lo)
        elif isinstance(x, Poly):
            for y in x.atoms(): rec(y)
        elif isinstance(x, Atom):
            if x.kind == 'sel': out.append(x)
            for y in x.args: rec(y)
        elif isinstance(x, BAtom): rec(x.args)
        elif isinstance(x, (tuple, list)):
            for y in x: rec(y)
    rec(a)
    return out


def rename_back(info):
    """(symbol, array) renaming from the names after the loop to those at its top"""
    hav, fin = info['exit_names']
    return {h.leaf.single_atom(): leaf(Poly.atom(s)) for s, h in hav.items()}, {a.leaf.args[0]: nm for nm, a in fin.items()}


class Unreachable(Exception): pass


class Reach:
    """values of the variables a loop carries at the top of an iteration, obtained by unfolding the derived transition
    relation from the derived initial state (only the scalar part; array contents stay arbitrary)"""

    def __init__(self, info):
        self.info = info
        lpc, lmem, nxt, exits, mem = info['step']
        self.vars = info['unresolved']
        self.names = set(info['names'].values())
        self.syms = {v.sym for v in self.vars}
        terms = [v.init for v in self.vars] + [nxt.get(v.key) for v in self.vars] + [lpc]
        self.exact = all(x is not None and not any(isinstance(y, tuple) and y[1] in self.names or isinstance(y, tuple) and not listed(y[1]) and not str(y[1]).startswith('uninit') for y in syms_of(x)) for x in terms if x is not None) \
            and all(x is not None for x in terms)
        self.terms = [x for x in terms if x is not None]
        self.free = set()
        for x in terms:
            if x is not None: self.free |= {y for y in syms_of(x) if isinstance(y, Atom)} - self.syms - {info['t']}

    def at(self, k, env, steps, stop=None):
        """extends env to the state after at most `steps` iterations (fewer if the loop stops)"""
        i = self.info; lpc, _, nxt, _, _ = i['step']
        def ev(node, e):
            refute.HARD[0] = True          # a state that depends on unwritten memory is not used
            try: return refute.Interp(k, e).node(node)
            finally: refute.HARD[0] = False
        vals = {v.sym: ev(v.init, env) for v in self.vars}
        n = 0
        for n in range(steps + 1):
            e = dict(env); e.update(vals); e[i['t']] = n
            if n == steps: break
            if not ev(lpc, e): break
            vals = {v.sym: ev(nxt[v.key], e) for v in self.vars}
        e = dict(env); e.update(vals); e[i['t']] = n
        return e


def blind(R):
    """the loop's course does not depend on list contents"""
    return R.exact and not any(isinstance(y, tuple) for x in R.terms for y in syms_of(x))


def listed(nm): return str(nm).endswith('_data') or str(nm).startswith('sorted#')


def thresholds(*nodes):
    out = set()
    for x in nodes:
        for a in batoms_in(x):
            out.update(refute.consts_of(mk(a, TRUE, FALSE)))
    return sorted(c for c in out if c > 2)[:6]


def batoms_in(x):
    """decisions anywhere in a term"""
    out = set(); seen = set()
    def rec(x):
        if not isinstance(x, (Node, Poly, Atom, BAtom, tuple, list)): return
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, Node):
            if x.atom is None: rec(x.leaf)
            else: out.add(x.atom); rec(x.atom); rec(x.hi); rec(x.lo)
        elif isinstance(x, Poly):
            for y in x.atoms(): rec(y)
        elif isinstance(x, (Atom, BAtom)): rec(x.args)
        else:
            for y in x: rec(y)
    rec(x)
    return out


def sampled(ck, name, pre, lhs, rhs, env, n, detail='', need=40, ctx=None, known=None, budget=40, big=(), loops_=(), exact=False, tiny=None):
    """row: lhs = rhs wherever pre holds, decided by comparing normal forms case by case, else by interpretation of
    both terms; known: the symbols env gives reachable values"""
    if lhs is rhs or ctx is not None and prove_equal(ctx, pre, lhs, rhs): return ck.row(name, 'proved')
    tried = 0
    why = ''
    free = {x for y in (pre, lhs, rhs) for x in syms_of(y) if isinstance(x, Atom) and not str(x.args[0]).startswith(('@', '$'))}
    vague = sorted(str(x) for x in free if known is not None and x not in known)
    odd = [str(x[1]) for y in (pre, lhs, rhs) for x in syms_of(y) if isinstance(x, tuple) and str(x[1]).startswith('havoc')] + \
        [str(x) for x in free if str(x).startswith(('uninit', 'havoc', '*uninit'))]
    odd += ['%s()' % k for k in sorted(kinds_in(lhs, rhs, pre) - UNDERSTOOD - {'gload'} - set(refute.FUNS) - set(BINDERS))]
    ths = thresholds(lhs, rhs, pre, *[x for R in loops_ for x in R.terms])
    names = {x[1] for y in (lhs, rhs) for x in syms_of(y) if isinstance(x, tuple) and str(x[1]).startswith(('M:', 'H:'))}
    # terms that branch on the contents of an array: the contents are then kept such as a distribution may have them
    touchy = any(isinstance(x, tuple) and x[1] in names for y in (lhs, rhs) for a in batoms_in(y) for x in syms_of(a))
    reals = [c for c in refute.real_consts(lhs) if c] if tiny else []
    t0 = time.time()
    plan = [(k, None, 0) for k in range(n // 3)] + [(k, c, th) for k in range(12) for th in ths for c in sizes_at(th) if k < 6 or c < 1000] + \
        [(k, th + k % 41, th) for k in range(123) for th in ths if th < 300] + [(k, None, 0) for k in range(n // 3, n)]
    try:
        for k, m, NEAR[0] in plan:
            if time.time() - t0 > budget: break
            refute.DEADLINE[0] = time.time() + budget / 4; refute.ROUND[0] = False
            try: e = env(k) if m is None else env(k, m)
            except (refute.Unint, Unreachable) as u: why = str(u); continue
            if e is None: continue
            m_ = max([v for q, v in e['arrays'].items() if isinstance(q, tuple)] or [0])
            f = .3 / (m_ + 1) * ([1, 1e-3, 1e-6, 1e-9][k % 4] if touchy else 1)
            e['scale'] = {nm: (0, f) for nm in names}
            tol = 1e-9 if touchy else 1e-10 * f
            for nm in names:
                if big and touchy: e['scale'][nm] = (f, f) if nm in big else (0, f / 1000 / (m_ + 1))
                elif nm in big and k % 2: e['scale'][nm] = (0, 1e-300); tol = 0
            if exact: tol = 1e-16
            if tiny and k % 3 == 0 and reals:         # a sum of positive terms, near a number it is compared with
                e['scale'][tiny] = (0, abs(reals[k // 3 % len(reals)]) * 10 ** random.Random(k).uniform(-2, .5)); tol = 0
            e['hist'] = refute.history(env, k)
            it = refute.Interp(k, e)
            try:
                refute.HARD[0] = 'unwritten'       # a value that is never written is no value
                if not it.node(pre): continue
                x, y = it.node(lhs), it.node(rhs)
            except refute.Unint as u: why = str(u); continue
            finally: refute.HARD[0] = False
            tried += 1
            if not same(x, y, tol, 1e-13 if exact else 1e-10) and not refute.ROUND[0]:
                msg = '%s gives %s instead of %s; derived %s; specified %s; %s' % (refute.witness_str(it), fmt(x), fmt(y), str(lhs)[:500], str(rhs)[:300], detail)
                if vague or odd: return ck.row(name, 'undecided', 'differs, but depends on state whose reachable values are unknown (%s): %s' % (', '.join((vague + odd)[:4]), msg))
                return ck.row(name, 'violated', msg)
    finally: refute.DEADLINE[0] = None
    if tried < need: return ck.row(name, 'undecided', 'only %d interpretations of the derived terms were possible (%s)' % (tried, why))
    ck.row(name, 'agreed', 'derived and specified term agree under %d interpretations' % tried)


UNDERSTOOD = {'sym', 'sel', 'len', 'sum', 'zext', 'trunc'}


def kinds_in(*nodes):
    out = set(); seen = set()
    def rec(x):
        if not isinstance(x, (Node, Poly, Atom, BAtom, tuple, list)): return
        if not isinstance(x, (tuple, list)):
            if id(x) in seen: return
            seen.add(id(x))
        if isinstance(x, Node):
            if x.atom is None: rec(x.leaf)
            else: rec(x.atom); rec(x.hi); rec(x.lo)
        elif isinstance(x, Poly):
            for y in x.atoms(): rec(y)
        elif isinstance(x, Atom): out.add(x.kind); rec(x.args)
        elif isinstance(x, BAtom): rec(x.args)
        else:
            for y in x: rec(y)
    for n in nodes: rec(n)
    return out


NEAR = [0]         # the constant the sampled sizes are near


def sizes_at(th):
    """list lengths around which something that happens from size th on (of a list, a window, a block) shows"""
    return [m for m in (th - 1, th, th + 1, th + 2, th + 60, th // 2, th // 2 + 1, th * th + th) if 0 < m <= 5500]


def same(x, y, tol, rel=1e-10):
    if x == y: return True
    if isinstance(x, tuple) or isinstance(y, tuple) or isinstance(x, str) or isinstance(y, str): return refute.close(x, y)
    x, y = float(x), float(y)
    if x != x or y != y: return True
    return abs(x - y) <= rel * max(abs(x), abs(y)) + tol


def prove_equal(ctx, pre, a, b):
    """is a = b wherever pre holds?  decided case by case over the conditions both terms branch on"""
    c = ctx.clone(); c.add_node(pre)
    try: d = n_sub(c.simplify(a), c.simplify(b))
    except Exception: return False
    return zero(c, c.simplify(ite(pre, d, FALSE)), [400])


def zero(ctx, d, budget):
    if d is FALSE: return True
    budget[0] -= 1
    if budget[0] < 0: return False
    if d.atom is not None:
        for val, sub in ((True, d.hi), (False, d.lo)):
            if sub is FALSE: continue
            c = ctx.clone(); c.add_lit(d.atom, val); c._sharpen()
            if not c._sat([]): continue
            if not zero(c, c.simplify(sub), budget): return False
        return True
    if not isinstance(d.leaf, Poly): return False
    e = d
    for a, v in list(ctx.lits.items()):            # equalities that hold in this case
        if not isinstance(a, BAtom): continue
        f = None
        if a.kind == 'eq0' and v is True: f = pinned(a.args)
        elif a.kind == 'le0':
            q = a.args if v is True else ONE - a.args
            if ctx.prove(ile0(-q)): f = pinned(q)
        if f: e = f(e)
    if e.atom is None and isinstance(e.leaf, Poly):
        for s in [x for x in e.leaf.atoms() if x.kind == 'sum' and isinstance(x.args[1], Poly)]:
            n = x_bound(s)
            if ctx.prove(ile0(n)): e = replace_atom(e, s, ZERO)
            elif ctx.prove(ile0(n - ONE)) and ctx.prove(ile0(ONE - n)):
                one = subst_node(s.args[2], {s.args[0]: ZERO}) if isinstance(s.args[2], Node) else None
                if one is not None and one.atom is None and isinstance(one.leaf, Poly): e = replace_atom(e, s, one.leaf)
    if e is FALSE: return True
    ctx2 = ctx.clone()
    e2 = ctx2.simplify(e)
    return e2 is not d and zero(ctx2, e2, budget)


def x_bound(s): return s.args[1]


# ------------------------------------------------------------------ C14
def two_sided(ck):
    ck.rule = ('for an arbitrary iteration and arbitrary state of the loop over the merged bounds: the derived next state equals convolution with the Poisson weights of the step, '
               'restricted to the window of counts that violate no bound so far, with the count that a lower bound admits set to zero; plus initial state, early exit and final quotient')
    r = entry_run('ecdf2'); ev = r.ev
    ck.analysed += ['ecdf2'] + r.functions()
    rets = r.of('ret')
    if not returns(ck, 'ecdf2 returns', r): return
    val = rets[0][1] if len(rets) == 1 else None
    U = lambda nm, why: ck.row(nm, 'undecided', why)
    if val is None: return U('shape of the result', 'several returns')
    i = find_loop(ev, val)
    if i is None or i['kind'] not in ('counted', 'bounded'): return U('main loop', 'the loop that produces the result was not recognised')
    back = rename_back(i)
    S = State(ev, i, val, back[1], back[0])
    if not S.ok: return U('state of the main loop', 'the array the result is read from was not recognised')
    seqs = [(nm, s) for nm, s in order.SORTED.items()]
    locs = [nm for nm, s in seqs if s.get('key') == order.field_of(nm)]
    if not locs:
        for nm, s in seqs:
            if not s.get('cmp') or s.get('key') is not None: continue
            src = {str(x[1]) for x in syms_of(order.pre_value(nm, Poly.atom(Atom('sym', ('$o',), 'i')))) if isinstance(x, tuple)}
            w = models.misplaced(s['cmp'], order.field_of(nm)) if {l + '_data' for l in r.lists} <= src else None
            if w: return ck.row('ecdf2: the bounds are processed in the order of their locations', 'violated', 'the comparison used for sorting at %s: %s' % (s['loc'], w))
    if len(locs) != 1: return U('merged bounds', 'no sorted sequence of bounds was recognised')
    loc = locs[0]; pre_ = loc.rpartition('.')[0]
    lb, lB = r.lists
    n = Poly.atom(Atom('len', (lb,), 'i')); n2 = Poly.atom(Atom('len', (lB,), 'i'))
    # which field tells the two lists apart
    tag = None
    u = Atom('sym', ('$o',), 'i'); U_ = Poly.atom(u)
    for nm, s in seqs:
        if nm == loc or not nm.startswith(pre_ + '.'): continue
        v = order.pre_value(nm, U_)
        kb = set(); kB = set()
        for m in (1, 2, 3):
            for q in range(2 * m):
                src = refute.Interp(0, {u: q, 'arrays': {('len', lb): m, ('len', lB): m}, 'strict': True})
                try:
                    where = refute.Interp(0, {u: q, 'arrays': {('len', lb): m, ('len', lB): m, lb + '_data': [0.25] * m, lB + '_data': [0.75] * m}}).node(order.pre_value(loc, U_))
                    (kb if where == 0.25 else kB).add(src.node(v))
                except (refute.Unint, TypeError): kb = kB = set(); break
        if len(kb) == len(kB) == 1 and kb != kB: tag = (nm, kb.pop(), kB.pop()); break
    if tag is None: return U('merged bounds', 'the field that tells lower from upper bounds was not recognised')
    t = i['t']; T = Poly.atom(t)
    at = lambda nm, k, so: Poly.atom(Atom('sel', (nm, k), so))
    so = 'i' if any(a.kind == 'sel' and a.args[0] == tag[0] and a.sort == 'i' for x in (val, i['step'][0], *[v for v in i['step'][2].values()]) for y in leaves(x) if isinstance(y, Poly) for a in y.atoms()) else 'i'
    isk = lambda k, q: ieq0(at(tag[0], q, 'i') - Poly.const(k))
    last = ile0(n + n2 - T)                                           # the closing entry at 1
    def count(k, upto):
        bv = Atom('sym', ('$c',), 'i')
        return quant('sum', bv, upto, ite(isk(k, Poly.atom(bv)), TRUE, FALSE), 'i')
    lo = count(tag[2], T); hi = count(tag[1], T)                      # counts passed so far: upper bounds / lower bounds
    L = lambda q: at(loc, q, 'r')
    here = ite(last, leaf(ONE), leaf(L(T)))
    prev = ite(ieq0(T), leaf(ZERO), leaf(L(T - ONE)))
    lam = n_mul(leaf(n), n_sub(here, prev))
    lam = apply(lambda q: ite(fle0(q), FALSE, leaf(q)), lam)      # max(lam, 0); bounds are sorted and within [0, 1] (C02, C03)
    j = Atom('sym', ('$j',), 'i'); J = Poly.atom(j)
    bv = Atom('sym', ('$l',), 'i'); BV = Poly.atom(bv)
    def conv(lo):
        # sum over l = lo .. min(j, hi) of S[l] * pois(lam, j - l)
        def one(l, lm, h):
            if not all(isinstance(x, Poly) for x in (l, lm, h)): return FALSE
            idx = l + BV
            body = n_mul(S.read(idx), app('pois', [leaf(lm), leaf(J - idx)], 'r'))
            body = ite(ile0(idx - h), body, FALSE)
            return quant('sum', bv, J - l + ONE, body, 'r')
        return apply(one, lo, lam, hi)
    isb = b_and(b_not(last), isk(tag[1], T)); isB = b_and(b_not(last), isk(tag[2], T))
    lo2 = n_add(lo, ite(isB, TRUE, FALSE)); hi2 = n_add(hi, ite(isb, TRUE, FALSE))
    spec = ite(b_and(isb, apply(lambda h: ile0(h + ONE - J), hi)), FALSE, conv(lo))
    inside = b_and(apply(lambda a: ile0(a - J), lo2), apply(lambda h: ile0(J - h), hi2), ile0(-J), ile0(J - n))
    lpc = i['step'][0]
    pc = b_and(i['pc0'], lpc)
    def env(k, m=None):
        rn = random.Random(k * 31 + 5)
        if m is None: m = rn.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7])
        fl = rn.randrange(6)
        arr = {lb + '_data': refute.valid_list(rn, m, fl), lB + '_data': refute.valid_list(rn, m, rn.choice([fl, 0])), ('len', lb): m, ('len', lB): m}
        if rn.random() < .7:
            for q in range(m):       # mostly boundaries that leave some room
                x, y = sorted((arr[lb + '_data'][q], arr[lB + '_data'][q])); arr[lb + '_data'][q] = x; arr[lB + '_data'][q] = y
            arr[lb + '_data'].sort(); arr[lB + '_data'].sort()
        if m > 12 and rn.random() < .9:      # long lists: boundaries that leave a wide window
            p = rn.choice([1, 3, 30, 1000, 1000])
            arr[lb + '_data'] = sorted(rn.random() ** p for _ in range(m)); arr[lB + '_data'] = sorted(1 - rn.random() ** p for _ in range(m))
            if rn.random() < .4:             # with ties
                q = rn.choice([4, 7, max(2, m // 2), m])
                for x in (lb, lB): arr[x + '_data'][:] = [math.floor(v * q) / q for v in arr[x + '_data']]
        steps = rn.randrange(0, 2 * m + 1)
        if m > 12: steps = rn.choice([m, m, steps, steps, 2 * m])
        first = sorted([(x, tag[1]) for x in arr[lb + '_data']] + [(x, tag[2]) for x in arr[lB + '_data']])[:steps]
        a_, b_ = sum(1 for x in first if x[1] == tag[2]), sum(1 for x in first if x[1] == tag[1])
        e = {'arrays': arr, j: rn.choice([a_, b_, rn.randrange(a_, b_ + 1) if b_ >= a_ else 0, rn.randrange(0, m + 1)])}
        if exact and not (simple and m > 300): e = R.at(k, e, steps)
        else:
            e[t] = steps
            for v in i['unresolved']: e[v.sym] = rn.randrange(2)
        for s in back_flags: e[s] = rn.randrange(2)
        return e
    R = Reach(i); exact = R.exact; simple = R.syms <= {x for lits, _ in S.by for a, _ in lits if a.kind == 'true' for x in syms_of(a)}
    back_flags = {x for x in syms_of(Subst(back[0]).node(val)) if isinstance(x, Atom) and x.args[0] == 'flag'} | {x for y in (lpc, S.after(J)) for x in syms_of(y) if isinstance(x, Atom) and x.kind == 'sym' and x.args[0] == 'flag'}
    known = {t, j} | back_flags | (R.syms if exact or simple else set())
    sampled(ck, 'ecdf2: the only step for empty lists', b_and(pc, inside, ile0(n)), S.after(J), spec, lambda k, m=0: env(k, 0), 200, 'iteration %s, count %s' % (t, j), known=known, loops_=(R,))
    sampled(ck, 'ecdf2: one step of the recursion', b_and(pc, inside, ile0(ONE - n)), S.after(J), spec, env, 3000, 'iteration %s, count %s' % (t, j), ctx=r.ev.ctx, known=known, loops_=(R,))
    # initial state
    init = S.initial(ZERO)
    if init is leaf(ONE): ck.row('ecdf2: the process starts with count 0', 'proved')
    else: sampled(ck, 'ecdf2: the process starts with count 0', i['pc0'], init, leaf(ONE), env, 600, ctx=r.ev.ctx, known=known, loops_=(R,))
    if i['kind'] == 'counted': sampled(ck, 'ecdf2: one iteration per bound and one for the end', i['pc0'], i['N'], leaf(n + n2 + ONE), env, 600, ctx=r.ev.ctx, known=known, loops_=(R,))
    # the value returned from the final state
    early = i['early']
    u_ = Atom('sym', ('$e',), 'i')
    died = exists(u_, n + n2 + ONE, b_and(subst_node(early, {t: Poly.atom(u_)}), ile0(Poly.atom(u_) - n - n2))) if early is not FALSE else FALSE
    v = Subst(back[0]).node(val)
    rpc = Subst(back[0]).node(rets[0][2])
    nm_ = 'ecdf2: the result is the probability of count n divided by pois(n, n)'
    for lits, nm in S.by:
        x = v
        for a, y in lits: x = restrict(x, a, y)
        hs = [h for h, m in back[1].items() if m == nm][0]
        spec_v = n_div(leaf(Poly.atom(Atom('sel', (hs, n), 'r'))), app('pois', [leaf(n), leaf(n)], 'r'))
        if {id(leaf(p)) for p in leaves(x)} == {id(spec_v)}: ck.row(nm_, 'proved')
        else: sampled(ck, nm_ + ', zero once no count is left', rpc, x, ite(died, FALSE, spec_v), env, 400, known=known, loops_=(R,), need=20, budget=30)
    # leaving before the end (with the value zero) happens only when no count is left
    if early is not FALSE:
        sampled(ck, 'ecdf2: a premature zero only when no count is admissible', b_and(i['pc0'], early, ile0(ONE + T - n - n2 - ONE)), ite(apply(lambda a, b: ile0(b - a + ONE), lo, hi), TRUE, FALSE), TRUE, env, 3000, need=1, ctx=r.ev.ctx, known=known, loops_=(R,))


# ------------------------------------------------------------------ C15
def block(ck):
    ck.rule = ('one-sided block recursion: for arbitrary states of the outer and inner loop the derived transitions equal: block = convolution over the whole block minus, for each '
               'crossed bound inside the block, the probability of first crossing there times the Poisson weight of reaching the count afterwards; plus initial state and final quotient')
    r = entry_run('ecdf1_new_B'); ev = r.ev; W = 'ecdf1-new'
    ck.analysed += ['ecdf1_new_B'] + r.functions()
    if not returns(ck, 'ecdf1_new_B returns', r): return
    U = lambda nm, why: ck.row(W + ': ' + nm, 'undecided', why)
    rets = [o for o in r.of('ret')]
    if len(rets) != 1: return U('shape of the result', '%d returns' % len(rets))
    val, rpc = rets[0][1], rets[0][2]
    i0 = find_loop(ev, val)
    if i0 is None: return U('loops', 'the loop that produces the result was not recognised')
    j = Atom('sym', ('$j',), 'i'); J = Poly.atom(j)
    l = r.lists[0]; n = Poly.atom(Atom('len', (l,), 'i'))
    Bel = lambda q: Poly.atom(Atom('sel', (l + '_data', q), 'r'))
    if i0['parent'] is not None:
        inner, outer = i0, i0['parent']
        ob, ib = rename_back(outer), rename_back(inner)
        D = State(ev, inner, val, ib[1], {**ob[0], **ib[0]})
        if not D.ok: return U('state', 'the array the result is read from was not recognised')
        S = None
    else:
        outer = i0; ob = rename_back(outer)
        S = State(ev, outer, val, ob[1], ob[0])
        if not S.ok: return U('state', 'the array the result is read from was not recognised')
        inner = None
        hs = hnames(S.after(J))
        for x in ev.loopinfo.values():
            for q in x:
                if q['parent'] is outer and 'exit_names' in q and any(a.leaf.args[0] in hs for a in q['exit_names'][1].values()): inner = q
        if inner is None: return U('loops', 'no inner loop over the bounds of a block was recognised')
        ib = rename_back(inner)
        D = State(ev, inner, S.after(J), ib[1], ib[0])
    if not D.ok: return U('state', 'the buffer of the inner loop was not recognised')
    if inner['kind'] != 'counted': return U('loops', 'the inner loop is not counted')
    # which outer variable is the last bound handled before the block
    t = inner['t']; T = Poly.atom(t)
    cands = []
    for v in outer['vars'].values():
        if v.sort != 'i' or v.isptr or v.init is None or v.init.atom is not None or not isinstance(v.init.leaf, Poly) or not v.init.leaf.is_const(): continue
        c0 = v.init.leaf.cval()
        if c0 not in (-1, 0): continue
        cur = v.res if v.res is not None else leaf(Poly.atom(v.sym))
        nx = outer['step'][2].get(v.key) if outer['step'][2] else None
        if nx is None: continue
        off = leaf(Poly.const(c0 + 1))
        cands.append((n_sub(cur, off), n_sub(nx, off)))
    flags = []
    RO, RI = Reach(outer), Reach(inner)
    def make(ip, iv):
        def env(k, m=None):
            rn = random.Random(k * 37 + 3)
            if m is None: m = rn.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 11, 17])
            arr = {l + '_data': refute.valid_list(rn, m, rn.randrange(6)), ('len', l): m}
            e = {'arrays': arr}
            for s in flags: e[s] = rn.randrange(2)
            if RO.exact: e = RO.at(k, e, rn.choice([0, 0, 1, 1, 2, 3, rn.randrange(m + 1)]))
            else:
                for s in sorted({s for x in (ip, iv) for s in syms_of(x) if isinstance(s, Atom) and s.kind == 'sym' and s.sort == 'i'}, key=str): e[s] = rn.randrange(-1, m)
            a, b = [refute.Interp(k, dict(e)).node(x) for x in (ip, iv)]
            if not -1 <= a < b <= m - 1: return None
            e[t] = rn.choice([0, max(0, b - a - 2), rn.randrange(0, max(1, b - a - 1))])
            if m > 12 and rn.random() < .6 and blind(RO) and b - a > 1:      # a long step inside the block
                p = rn.randrange(a + 1, b + 1); u, w = sorted((rn.random(), 1 - rn.random() ** 3))
                arr[l + '_data'][:] = [u * (q + 1) / (p + 1) if q < p else w + (1 - w) * (q - p) / m for q in range(m)]
                if rn.random() < .7: e[t] = rn.choice([max(0, p - a - 2), max(0, min(p - a - 1, b - a - 2))])
            if RI.exact: e = RI.at(k, e, e[t])
            e[j] = rn.choice([rn.randrange(0, m + 1), m, min(m, b + 1), rn.randrange(b - a + 1), b - a - 1] + ([min(m, b + NEAR[0] + rn.randrange(3))] * 3 if NEAR[0] else []))
            return e
        return env
    known = {outer['t'], inner['t'], j} | (RO.syms if RO.exact else set()) | (RI.syms if RI.exact else set())
    found = None; base = r.ev.ctx
    for ip, iv in cands:
        env = make(ip, iv); good = tried = 0
        for k in range(400):
            try:
                e = env(k)
                if e is None: continue
                x = refute.Interp(k, e).node(n_sub(inner['N'], n_sub(n_sub(iv, ip), leaf(ONE))))
            except refute.Unint: continue
            tried += 1; good += x == 0
        if tried >= 20 and good == tried: found = (ip, iv, env); break
    if found is None: return U('block bounds', 'no loop variable counts the bounds handled so far')
    ip, iv, env = found
    P = lambda f, *ns: apply(lambda *ps: f(*ps) if all(isinstance(p, Poly) for p in ps) else FALSE, *ns)
    where = lambda q: P(lambda p: ite(ile0(p + ONE), leaf(ZERO), leaf(Bel(p))), q)      # location of bound q, 0 before the first
    lam = lambda a, b: n_mul(leaf(n), n_sub(where(b), where(a)))
    bv = Atom('sym', ('$l',), 'i'); BV = Poly.atom(bv)
    valid = P(lambda a, b: b_and(ile0(-a - ONE), ile0(a - b + ONE), ile0(b - n + ONE)), ip, iv)
    I_ = n_add(n_add(ip, leaf(ONE)), leaf(T))                      # the bound the inner iteration handles
    above = P(lambda b: b_and(ile0(b + ONE - J), ile0(J - n)), iv)
    ctx = r.ev.ctx.clone(); ctx.add_node(b_and(valid, above))
    if S is None: S = State(ev, outer, ctx.simplify(D.initial(J)), {nm: nm for nm in outer['names'].values()}, {})
    if not S.ok: return U('state', 'the buffer of the outer loop was not recognised')
    M = State(ev, inner, ctx.simplify(D.after(J)), {nm: nm for nm in inner['names'].values() if nm not in D.names}, {})
    if not M.ok: return U('state', 'the block buffer was not recognised')
    flags += sorted({s for x in (S, D, M) for lits, _ in x.by for a, _ in lits for s in syms_of(a) if isinstance(s, Atom)}, key=str)
    opc, ipc = outer['step'][0], inner['step'][0]
    it_ok = b_and(valid, ile0(-T), P(lambda a, b: ile0(T - b + a + Poly.const(2)), ip, iv))
    # inner loop: what is left of the block
    def mconv(lo, hi, lm):          # sum over x = lo .. hi of M[x] * pois(lm, hi - x)
        return P(lambda a, h, q: quant('sum', bv, h - a + ONE, n_mul(M.read(a + BV), app('pois', [leaf(q), leaf(h - a - BV)], 'r')), 'r'), lo, hi, lm)
    lam_i = lam(n_sub(I_, leaf(ONE)), I_)
    sampled(ck, W + ': counts inside a block after each bound', b_and(it_ok, ipc or FALSE, ile0(T + ONE - J), P(lambda a, b: ile0(J - b + a + ONE), ip, iv)),
            M.after(J), mconv(leaf(T), leaf(J), lam_i), env, 6000, ctx=base, known=known | set(flags), loops_=(RO, RI))
    # inner loop: subtract what crosses at this bound
    cross = mconv(leaf(T), leaf(T), lam_i)
    spec = n_sub(D.read(J), n_mul(cross, P(lambda q, x: app('pois', [leaf(q), leaf(J - x)], 'r'), lam(I_, iv), I_)))
    sampled(ck, W + ': probability of crossing at each bound of a block is subtracted', b_and(it_ok, ipc or FALSE, above), D.after(J), spec, env, 6000, big=D.names, ctx=base, known=known | set(flags), loops_=(RO, RI))
    # start of the inner loop
    def sconv(lo, hi, lm):
        return P(lambda a, h, q: quant('sum', bv, h - a + ONE, n_mul(S.read(a + BV), app('pois', [leaf(q), leaf(h - a - BV)], 'r')), 'r'), lo, hi, lm)
    first = n_add(ip, leaf(ONE))
    sampled(ck, W + ': a block starts from the counts above the last bound', b_and(valid, ile0(-J), P(lambda a, b: ile0(J - b + a + ONE), ip, iv), P(lambda a, b: ile0(Poly.const(2) - b + a), ip, iv)),
            M.initial(J), P(lambda a: S.read(a + J), first), env, 6000, ctx=base, known=known | set(flags), loops_=(RO, RI))
    sampled(ck, W + ': a block first ignores the bounds inside it', b_and(valid, above), D.initial(J), sconv(first, leaf(J), lam(ip, iv)), env, 6000, ctx=base, known=known | set(flags), loops_=(RO, RI))
    # outer loop
    if outer['step'][0] is not None:
        sampled(ck, W + ': the counts after a block are kept', b_and(valid, above, opc or FALSE), S.after(J), D.final(J), env, 6000, ctx=base, known=known | set(flags), loops_=(RO, RI))
    init = S.initial(J)
    n0 = b_and(ile0(ONE - n), ile0(-J), ile0(J - n))
    sampled(ck, W + ': the process starts with count 0', n0, init, ite(ieq0(J), leaf(ONE), leaf(ZERO)), env, 3000, ctx=base, known=known | set(flags), loops_=(RO, RI))
    # result
    back = Subst(ob[0]).node
    v = back(val); pcv = back(rpc)
    fin = n_div(n_mul(D.final(n), P(lambda q: app('pois', [leaf(q), leaf(ZERO)], 'r'), n_mul(leaf(n), n_sub(leaf(ONE), where(iv))))), app('pois', [leaf(n), leaf(n)], 'r'))
    if i0 is inner:
        sampled(ck, W + ': the result is the probability of no crossing given n points', b_and(pcv, valid), v, fin, env, 3000, ctx=base, known=known | set(flags), loops_=(RO, RI))
        sampled(ck, W + ': the blocks end with the last bound', b_and(pcv, valid), iv, leaf(n - ONE), env, 3000, ctx=base, known=known | set(flags), loops_=(RO, RI))


# ------------------------------------------------------------------ C16
def plain(ev, info, nm):
    """State for one fixed array"""
    S = State.__new__(State)
    S.ev = ev; S.info = info; S.by = [([], nm)]; S.names = {nm}; S.ok = True
    return S


def poly_parts(node, names):
    """array of coefficients, array of shifts and index scale of the sum  sum M[s*k] * (x + A[s*k])^k  in node"""
    found = set(); seen = set()
    def mono(k):
        pows = [a for a, e in k if a.kind == 'pow' and e == 1]
        sels = [a for a, e in k if a.kind == 'sel' and e == 1 and a.args[0] in names]
        if len(pows) != 1 or len(sels) != 1: return
        x, e = pows[0].args
        if not isinstance(x, Poly) or not isinstance(e, Poly): return
        ins = [a for a in x.atoms() if a.kind == 'sel' and a.args[0] in names]
        if len(ins) != 1 or ins[0].args[0] == sels[0].args[0]: return
        for s in (1, 2, 4, -1, -2, 0):
            if s and sels[0].args[1] == e.scale(s) and ins[0].args[1] == e.scale(s): found.add((sels[0].args[0], ins[0].args[0], s))
    def rec(x):
        if not isinstance(x, (Node, Poly, Atom, BAtom, tuple, list)) or id(x) in seen: return
        if not isinstance(x, (tuple, list)): seen.add(id(x))
        if isinstance(x, Node):
            if x.atom is None: rec(x.leaf)
            else: rec(x.atom); rec(x.hi); rec(x.lo)
        elif isinstance(x, Poly):
            for k in x.m: mono(k)
            for y in x.atoms(): rec(y)
        elif isinstance(x, (Atom, BAtom)): rec(x.args)
        else:
            for y in x: rec(y)
    rec(node)
    return found


def polynomial(ck):
    ck.rule = ('for an arbitrary iteration and arbitrary coefficients of the main loop: the polynomial after the iteration, divided by the power of two the iteration adds to the '
               'exponent, equals the integral of the polynomial before it from the next bound; plus constant 1 at the start, one iteration per bound and the final value n! times the polynomial at 1')
    r = entry_run('ecdf1_mns2016_b'); ev = r.ev; W = 'ecdf1-mns2016'
    ck.analysed += ['ecdf1_mns2016_b'] + r.functions()
    if not returns(ck, 'ecdf1_mns2016_b returns', r): return
    U = lambda nm, why: ck.row(W + ': ' + nm, 'undecided', why)
    rets = r.of('ret')
    if len(rets) != 1: return U('shape of the result', '%d returns' % len(rets))
    val, rpc = rets[0][1], rets[0][2]
    i = find_loop(ev, val)
    if i is None or i['kind'] != 'counted' or i['parent'] is not None: return U('main loop', 'the loop that produces the result was not recognised')
    back = rename_back(i)
    v = Subst(back[0]).node(val); pcv = Subst(back[0]).node(rpc)
    parts = poly_parts(v, set(back[1]))
    if len(parts) != 1: return U('polynomial', 'the sum the result is computed from was not recognised')
    hm, ha, s = parts.pop()
    M, A = plain(ev, i, back[1][hm]), plain(ev, i, back[1][ha])
    l = r.lists[0]; n = Poly.atom(Atom('len', (l,), 'i'))
    bound = lambda q: Poly.atom(Atom('sel', (l + '_data', q), 'r'))
    t = i['t']; T = Poly.atom(t)
    x = Atom('sym', ('$x',), 'r'); X = Poly.atom(x)
    lpc, lmem, nxt, exits, mem = i['step']
    # the exponent kept apart
    exps = [u for u in i['unresolved'] if u.sort == 'i' and u.sym in syms_of(v)]
    if len(exps) > 1: return U('exponent', 'several candidates')
    if [u for u in i['unresolved'] if u not in exps and u.sym in syms_of(v)]: return U('exponent', 'the result depends on state that was not recognised')
    bv = Atom('sym', ('$l',), 'i'); BV = Poly.atom(bv)
    pw = lambda base, e: app('pow', [leaf(base) if isinstance(base, Poly) else base, leaf(e)], 'r')
    def value(m, a, deg, at):          # sum over k <= deg of m(k) * (at + a(k))^k
        return quant('sum', bv, deg + ONE, n_mul(m(BV.scale(s)), pw(n_add(leaf(at), a(BV.scale(s))), BV)), 'r')
    def integral(deg, lo, hi):
        k1 = BV + ONE
        F = lambda y: pw(n_add(leaf(y), A.read(BV.scale(s))), k1)
        return quant('sum', bv, deg + ONE, n_mul(M.read(BV.scale(s)), n_div(n_sub(F(hi), F(lo)), leaf(k1))), 'r')
    final = lambda at: quant('sum', bv, n + ONE, n_mul(leaf(Poly.atom(Atom('sel', (hm, BV.scale(s)), 'r'))), pw(n_add(leaf(at), leaf(Poly.atom(Atom('sel', (ha, BV.scale(s)), 'r')))), BV)), 'r')
    feeds = {y for z in (M.after(T), v, *nxt.values()) if z is not None for y in only_in(z, 'frexp_e')}
    known = {t, x} | feeds | {u.sym for u in exps}
    def env(k, m=None):
        rn = random.Random(k * 41 + 7)
        if m is None: m = rn.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 12, 18])
        e = {'arrays': {l + '_data': refute.valid_list(rn, m, rn.randrange(6)), ('len', l): m}, x: rn.random()}
        e[t] = rn.choice([max(0, m - 1), rn.randrange(m) if m else 0, 0] + ([max(0, min(m - 1, 16 * rn.randrange(1 + m // 16)))] * 2 if m > 1 else []))
        for u in exps: e[u.sym] = rn.randrange(6) + rn.choice([0, 0, 0, 128, 256, 32768, 65536])
        for y in feeds: e[y] = 10 ** -(rn.uniform(0, rn.choice([2, 6, 6, 300])) if rn.random() < .9 else 307)
        return e
    rows = dict(ctx=ev.ctx, known=known)
    for sg in ((1, -1) if exps else (0,)):
        d = n_mul(n_sub(nxt[exps[0].key], leaf(Poly.atom(exps[0].sym))), leaf(Poly.const(sg))) if exps else FALSE
        total = leaf(Poly.atom(exps[0].sym).scale(sg)) if exps else FALSE
        back2 = app('pow2', [n_sub(FALSE, total)], 'r')
        p1 = final(ONE)
        spec = apply(lambda q: ite(fle0(q), FALSE, leaf(q)), p1)
        spec = n_mul(n_mul(spec, app('exp', [app('lgamma', [leaf(n + ONE)], 'r')], 'r')), back2)
        if exps:               # which sign the exponent is kept with
            good = tried = 0
            for k in range(200):
                e = env(k, 1 + k % 4); e['scale'] = {hm: (0, .1), ha: (0, .1)}
                try: a, b = [refute.Interp(k, e).node(z) for z in (v, spec)]
                except refute.Unint: continue
                if not 0 < e[exps[0].sym] < 9: continue
                tried += 1; good += same(a, b, 0, 1e-4)
            if good * 2 < tried: continue
        break
    else: return U('exponent', 'how the exponent enters the result was not recognised')
    step = b_and(i['pc0'], lpc, ile0(-T), ile0(T + ONE - n))
    sampled(ck, W + ': each iteration integrates the polynomial from the next bound', step, n_mul(app('pow2', [n_sub(FALSE, d)], 'r'), value(M.after, A.after, T + ONE, X)), integral(T, bound(T), X), env, 900, 'iteration %s, point $x' % t, **rows)
    # the shifts are the bounds, so that each term stays of the size of a power of a difference
    if exps:
        bad = None; tried = 0; dn = n_sub(nxt[exps[0].key], leaf(Poly.atom(exps[0].sym)))
        for k in range(240):
            e = env(k); rn = random.Random(k)
            if e[t] < 0 or k % 2 and e[t] % 16: e[t] = 0
            try:
                e[exps[0].sym] = 3 * sg; d0 = refute.Interp(k, dict(e)).node(dn)
                e[exps[0].sym] = at = sg * (rn.choice([128, 256, 32768, 65536, 100000]) - rn.randrange(6)); d1 = refute.Interp(k, dict(e)).node(dn)
            except refute.Unint: continue
            tried += 1
            if d0 != d1: bad = bad or 'an iteration that adds %s to an exponent of %s adds %s to one of %s' % (d0, 3 * sg, d1, at)
        nm = W + ': what is added to the exponent does not depend on its size'
        if bad: ck.row(nm, 'violated', bad)
        else: ck.row(nm, 'agreed' if tried > 40 else 'undecided', '%d interpretations' % tried)
    sampled(ck, W + ': the polynomial starts as the constant 1', i['pc0'], M.initial(ZERO), leaf(ONE), env, 600, **rows)
    if exps: sampled(ck, W + ': the exponent starts at 0', i['pc0'], exps[0].init, leaf(ZERO), env, 600, **rows)
    sampled(ck, W + ': one iteration per bound', i['pc0'], i['N'], leaf(n), env, 600, **rows)
    sampled(ck, W + ': the result is n! times the polynomial at 1, the exponent undone', pcv, v, spec, env, 900, tiny=hm, **rows)


def only_in(node, kind):
    """symbols that occur in node only inside applications of kind"""
    inside = set(); outside = set(); seen = set()
    def rec(x, under):
        if not isinstance(x, (Node, Poly, Atom, BAtom, tuple, list)): return
        if (id(x), under) in seen: return
        if not isinstance(x, (tuple, list)): seen.add((id(x), under))
        if isinstance(x, Node):
            if x.atom is None: rec(x.leaf, under)
            else: rec(x.atom, under); rec(x.hi, under); rec(x.lo, under)
        elif isinstance(x, Poly):
            for y in x.atoms(): rec(y, under)
        elif isinstance(x, Atom):
            if x.kind == 'sym': (inside if under else outside).add(x)
            else: rec(x.args, under or x.kind == kind)
        elif isinstance(x, BAtom): rec(x.args, under)
        else:
            for y in x: rec(y, under)
    rec(node, False)
    return {y for y in inside - outside if not str(y.args[0]).startswith(('@', '$'))}

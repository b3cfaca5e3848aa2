"""Facts about ordered arrays: validated boundary lists and the output of std::sort.
  - elements lie between known bounds;
  - i <= j implies a[i] <= a[j];
  - a count over a prefix of the sorted sequence is bounded by the count over the whole unsorted one."""
from terms import *
import terms

MONO = set()        # array names whose elements are non-decreasing
UNIT = set()        # array names whose elements lie in [0, 1]
SORTED = {}         # field name of a sorted sequence -> dict(pre={field: Arr}, n=Node, key=field the order is on or None)
_dom = {}


def info(a):
    """(name, index) of an element atom"""
    if a.kind == 'sel' and isinstance(a.args[0], str) and len(a.args) == 2: return a.args
    return None


def field_of(name): return int(name.rsplit('.', 1)[1])


def pre_value(name, idx):
    s = SORTED[name]
    return read_arr(s['pre'][field_of(name)], idx, 'r', lambda n: None)


def domain(name):
    """leaf values the elements of a sorted sequence can have, with index symbols renamed apart"""
    if name not in _dom:
        s = SORTED[name]
        j = Atom('sym', ('$o',), 'i')
        v = pre_value(name, Poly.atom(j))
        # only positions inside the sorted range matter
        n = s['n']
        rng = b_not(ile0(-Poly.atom(j) - ONE)) if False else TRUE
        out = []
        def rec(x, conds):
            if x.atom is None: out.append((conds, x.leaf)); return
            rec(x.hi, conds + [(x.atom, True)]); rec(x.lo, conds + [(x.atom, False)])
        rec(v, [(a, b) for a, b in ()])
        from prove import Ctx
        keep = []
        import loops
        for conds, l in out:
            c = Ctx(); c.lemma_hooks = [loops.sym_hook]
            c.add_le(-Poly.atom(j))
            if n.atom is None: c.add_le(Poly.atom(j) - n.leaf + ONE)
            for a, b in conds: c.add_lit(a, b)
            if c._sat([]): keep.append(l)
        _dom[name] = keep
    return _dom[name]


def bounds(a):
    """(lo, hi) constants for element atom a, or None"""
    k = info(a)
    if k is None: return None
    nm = k[0]
    if nm in UNIT: return 0, 1
    if nm in SORTED:
        lo = hi = None
        for l in domain(nm):
            if not isinstance(l, Poly): return None
            if l.is_const(): b = (l.cval(), l.cval())
            else:
                x = l.single_atom()
                b = bounds(x) if x is not None else None
                if b is None: return None
            lo = b[0] if lo is None else min(lo, b[0]); hi = b[1] if hi is None else max(hi, b[1])
        return (lo, hi) if lo is not None else None
    return None


def is_mono(nm): return nm in MONO or (nm in SORTED and SORTED[nm].get('key') == field_of(nm))


def hook(mono):
    """facts about one monomial"""
    out = []
    if len(mono) == 1 and mono[0][1] == 1:
        b = bounds(mono[0][0])
        if b:
            x = Poly.atom(mono[0][0])
            out += [(Poly.const(b[0]) - x, False), (x - Poly.const(b[1]), False)]
    if len(mono) == 2 and all(e == 1 for a, e in mono):
        for (a, _), (f, _) in (mono, mono[::-1]):
            b = bounds(a)
            if b and nonneg(f):
                x = Poly({mono: 1}); q = Poly.atom(f)
                out += [(q.scale(b[0]) - x, False), (x - q.scale(b[1]), False)]
    return out


def nonneg(f): return f.kind in ('len', 'strlen') or f in NONNEG


NONNEG = set()


def split(mono):
    """(element atom, other factor or None) for monomials a[i] or f*a[i] with f >= 0"""
    if len(mono) == 1 and mono[0][1] == 1 and info(mono[0][0]): return mono[0][0], None
    if len(mono) == 2 and all(e == 1 for a, e in mono):
        for (a, _), (f, _) in (mono, mono[::-1]):
            if info(a) and is_mono(info(a)[0]) and nonneg(f): return a, f
    return None


def pairs(ctx, monos, extra):
    """a[i] <= a[j] for pairs of monomials with i <= j"""
    g = {}
    for m in monos:
        s = split(m)
        if s and is_mono(info(s[0])[0]): g.setdefault((info(s[0])[0], s[1]), []).append((info(s[0])[1], m))
    out = []
    for k, l in g.items():
        for x in range(len(l)):
            for y in range(len(l)):
                if x == y: continue
                d = l[x][0] - l[y][0]
                if d.is_const(): ok = d.cval() <= 0
                else: ok = not ctx._sat(list(extra) + [(ONE - d, False)])
                if ok: out.append((Poly({l[x][1]: 1}) - Poly({l[y][1]: 1}), False))
    return out


def counts(ctx, a):
    """bounds for a sum atom counting over a prefix of a sorted sequence"""
    bv, T, body = a.args
    names = set()
    def find(x):
        if isinstance(x, Node):
            if x.atom is None: find(x.leaf)
            else: find(x.atom); find(x.hi); find(x.lo)
        elif isinstance(x, BAtom): find(x.args)
        elif isinstance(x, Poly):
            for z in x.atoms(): find(z)
        elif isinstance(x, Atom):
            if x.kind == 'sel' and x.args[0] in SORTED: names.add((x.args[0], x.args[1]))
            else:
                for y in x.args: find(y)
        elif isinstance(x, tuple):
            for y in x: find(y)
    find(body)
    if not names or any(i != Poly.atom(bv) for _, i in names): return []
    n = SORTED[next(iter(names))[0]]['n']
    if n.atom is not None: return []
    n = n.leaf
    key = (a.args[2].id, bv)
    tot = _tot.get(key)
    if tot is None:
        u = Atom('sym', ('$q',), 'i')
        b = subst_node(body, {bv: Poly.atom(u)})
        def repl(x):
            return b
        # every element of the sorted sequence is an element of the unsorted one: same total
        class R(Subst):
            def atom(self, at):
                if at.kind == 'sel' and at.args[0] in SORTED:
                    return read_arr(SORTED[at.args[0]]['pre'][field_of(at.args[0])], at.args[1], at.sort, lambda c: None)
                return super().atom(at)
            def hit(self, x): return True
        b = R({}).node(b)
        from prove import Ctx
        import loops
        c = Ctx(); c.lemma_hooks = [loops.sym_hook]
        c.add_le(-Poly.atom(u)); c.add_le(Poly.atom(u) - n + ONE)
        b = c.simplify(b)
        tot = c0().simplify(quant('sum', u, n, b, 'i'))
        _tot[key] = tot
    if tot.atom is not None or not isinstance(tot.leaf, Poly): return []
    tot = tot.leaf
    x = Poly.atom(a)
    if ctx._sat([(n - T + ONE, False)]) or ctx._sat([(T + ONE, False)]): return []      # T outside [0, n] possible
    out = [(x - tot, False), (tot - (n - T) - x, False)]
    # one more element is known to satisfy the predicate
    nxt = subst_node(body, {bv: T})
    lits = ctx.lits
    v = nxt
    for at in batoms_of(nxt):
        k = lits.get(at)
        if k is not None: v = restrict(v, at, k)
    if v is TRUE and not ctx._sat([(n - T, False)]): out.append((x + ONE - tot, False))
    return out


_tot = {}


def c0():
    from prove import Ctx
    import loops
    c = Ctx(); c.lemma_hooks = [loops.sym_hook]
    return c


def reset():
    for d in (MONO, UNIT, SORTED, _dom, NONNEG, _tot): d.clear()

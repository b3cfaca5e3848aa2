"""Context of known facts, and entailment of decision diagrams over linear atoms from it."""
from terms import *
from lin import feasible, poly_row
from fractions import Fraction


def lit_rows(atom, val):
    """(atom, val) -> list of alternatives; each alternative = list of (poly, strict) meaning poly<=0 / poly<0.
    Non-linear atoms -> None"""
    k = atom.kind
    if k == 'le0':
        return [[(atom.args if val else ONE - atom.args, False)]]
    if k == 'flt':
        return [[(atom.args, True)]] if val else [[(-atom.args, False)]]
    if k == 'fle':
        return [[(atom.args, False)]] if val else [[(-atom.args, True)]]
    if k == 'eq0':
        p = atom.args
        if val: return [[(p, False), (-p, False)]]
        return [[(p + ONE, False)], [(ONE - p, False)]]
    if k == 'feq':
        p = atom.args
        if val: return [[(p, False), (-p, False)]]
        return [[(p, True)], [(-p, True)]]
    if k == 'exists' and val:
        # a witness exists, so the range is not empty
        return [[(ONE - atom.args[1], False)]]
    return None


_feas = {}
STAT = [0, 0]


def feas(sel):
    k = frozenset(sel)
    STAT[0] += 1
    r = _feas.get(k)
    if r is None:
        STAT[1] += 1
        r = _feas[k] = feas1(sel)
    return r


def feas1(sel):
    cons = []; strict = []
    for p, s in sel:
        d, c = poly_row(p)
        (strict if s else cons).append((d, c))
    return feasible(cons, strict)


class Ctx:
    def __init__(self):
        self.facts = []      # (poly, strict)
        self.lits = {}       # non-linear boolean atoms with known value
        self.memo = {}
        self.lemma_hooks = []
        self.nproved = 0

    def clone(self):
        c = Ctx(); c.facts = list(self.facts); c.lits = dict(self.lits); c.lemma_hooks = self.lemma_hooks
        return c

    def key(self):
        return (len(self.facts), len(self.lits))

    def add_le(self, p, strict=False):
        if not p.is_const(): self.facts.append((p, strict)); self.memo = {}
        elif p.cval() > 0 or (strict and p.cval() == 0): self.facts.append((ONE, False)); self.memo = {}

    def add_eq(self, p): self.add_le(p); self.add_le(-p)

    def add_lit(self, atom, val):
        r = lit_rows(atom, val)
        if r is not None and len(r) == 1:
            for p, s in r[0]: self.add_le(p, s)
        self.lits[atom] = val
        self.memo = {}

    def add_node(self, n):
        """assume boolean node n; keeps only the literals it forces"""
        if n is TRUE: return
        if n is FALSE: self.add_le(ONE); return
        for a in batoms_of(n):
            if restrict(n, a, True) is FALSE: self.add_lit(a, False)
            elif restrict(n, a, False) is FALSE: self.add_lit(a, True)
        # exclusions discovered by theory: a != with one side refuted becomes an inequality
        self._sharpen()

    def _sharpen(self):
        for a, v in list(self.lits.items()):
            if not isinstance(a, BAtom): continue
            if a.kind == 'eq0' and v is False and not self.lits.get(('sharp', a)):
                p = a.args
                for q in (p + ONE, ONE - p):     # try p<=-1 / p>=1
                    if not self._sat([(q, False)]):
                        o = ONE - p if q is not (ONE - p) and q == p + ONE else p + ONE
                        self.facts.append((o, False)); self.lits[('sharp', a)] = True; self.memo = {}
                        break

    # ---- satisfiability of facts + extra rows
    def _sat(self, extra):
        rows = []
        todo = list(extra)
        # collect relevant facts by shared monomials
        vs = set()
        for p, s in todo: vs.update(k for k in p.m if k)
        if not extra:
            for p, s in self.facts: vs.update(k for k in p.m if k)
        pool = [f for f in self.facts]
        lemmas_done = set()
        sel = list(extra)
        used = [False] * len(pool)
        changed = True
        const_bad = any(p.is_const() and (p.cval() > 0) for p, s in pool)
        if const_bad: return False
        while changed:
            changed = False
            for i, (p, s) in enumerate(pool):
                if used[i]: continue
                ks = [k for k in p.m if k]
                if any(k in vs for k in ks):
                    used[i] = True; sel.append((p, s)); vs.update(ks); changed = True
            for k in list(vs):
                if k in lemmas_done: continue
                lemmas_done.add(k)
                for p, s in self.lemmas(k):
                    sel.append((p, s)); n = len(vs); vs.update(x for x in p.m if x)
                    changed = True
        if not feas(sel): return False
        import order
        if self.depth < 2:
            Ctx.depth += 1
            try: more = order.pairs(self, list(vs), extra)
            finally: Ctx.depth -= 1
            if more:
                sel += more
                if not feas(sel): return False
        fd = [k[0][0] for k in vs if len(k) == 1 and k[0][1] == 1 and k[0][0].kind == 'fdiv']
        if fd:
            more = []
            for a in fd:
                p, c = a.args
                cv = c.cval() if isinstance(c, Poly) else c
                for kk in (0, 1):
                    if not feas(sel + [(p - Poly.const(kk * cv) + ONE, False)]): more.append((Poly.const(kk) - Poly.atom(a), False))
            for a in fd:
                for b in fd:
                    if a is b or a.args[1] != b.args[1]: continue
                    if not feas(sel + [(b.args[0] - a.args[0] + ONE, False)]): more.append((Poly.atom(a) - Poly.atom(b), False))
            if more: return feas(sel + more)
        return True

    def lemmas(self, mono):
        if mono in self.busy: return []
        self.busy.add(mono)
        try: return self._lemmas(mono)
        finally: self.busy.discard(mono)

    busy = set()
    depth = 0

    def _lemmas(self, mono):
        out = []
        for h in self.lemma_hooks:
            out.extend(h(mono) or [])
        if len(mono) == 1 and mono[0][1] == 1:
            a = mono[0][0]
            x = Poly.atom(a)
            if a.kind == 'fdiv':
                p, c = a.args
                c = c.cval() if isinstance(c, Poly) else c
                out.append((x.scale(c) - p, False)); out.append((p - x.scale(c) - Poly.const(c - 1), False))
            elif a.kind == 'toint' and isinstance(a.args[0], Poly):
                p = a.args[0]
                if p.single_atom() is not None and p.single_atom().kind == 'sqrt':
                    out.append((-x, False)); out.append((x - p, False)); out.append((p - x - ONE, True))
            elif a.kind == 'sqrt' and isinstance(a.args[0], Poly):
                p = a.args[0]
                out.append((-x, False))
                # p integer-valued: sqrt(p) <= p when p>=0, sqrt(p) >= 1 when p >= 1
                out.append((x - p, False))
                if p.is_const() or not self._sat([(p, False)]): out.append((ONE - x, False))
            elif a.kind in ('len', 'strlen'):
                out.append((-x, False)); out.append((x - Poly.const(1 << 27), False))
            elif a.kind == 'exp': out.append((-x, True))
            elif a.kind == 'sum':
                import order
                out.extend(order.counts(self, a))
                bv, n, body = a.args
                if body.atom is not None or True:
                    lv = leaves(body)
                    if all(isinstance(l, Poly) and l.is_const() for l in lv):
                        lo = min(l.cval() for l in lv); hi = max(l.cval() for l in lv)
                        # n may be negative only if the range is empty
                        if lo >= 0: out.append((-x, False))
                        nonneg = not self._sat([(n + ONE, False)])
                        if nonneg: out.append((x - n.scale(hi), False)); out.append((n.scale(lo) - x, False))
        return out

    def prove(self, n):
        """True if boolean node n holds under the facts"""
        if n is TRUE: return True
        if n is FALSE: return not self._sat([])
        r = self.memo.get(n.id)
        if r is not None: return r
        r = self._prove(n, [], {})
        self.memo[n.id] = r
        if r: self.nproved += 1
        return r

    def _prove(self, n, rows, lits):
        if n is TRUE: return True
        if n is FALSE:
            return not self._alts(rows)
        a = n.atom
        v = self.lits.get(a)
        if v is not None: return self._prove(n.hi if v else n.lo, rows, lits)
        for val, ch in ((True, n.hi), (False, n.lo)):
            if ch is TRUE: continue
            if not self._prove(ch, rows + [(a, val)], lits): return False
        return True

    def _alts(self, lits):
        """is facts & lits satisfiable (possibly)?"""
        alts = [[]]
        for a, v in lits:
            r = lit_rows(a, v)
            if r is None: continue
            alts = [x + y for x in alts for y in r]
            if len(alts) > 64: return True
        return any(self._sat(x) for x in alts)

    def decide(self, n):
        if self.prove(n): return True
        if self.prove(b_not(n)): return False
        return None

    def simplify(self, n, depth=0, budget=None):
        """remove branches of n that the facts refute (top-down)"""
        if n.atom is None: return n
        memo = {}
        def rec(x, ctx, d):
            if x.atom is None: return x
            a = x.atom
            v = ctx.lits.get(a)
            if v is None:
                c = mk(a, TRUE, FALSE)
                if ctx.prove(c): v = True
                elif ctx.prove(b_not(c)): v = False
            if v is True: return rec(x.hi, ctx, d)
            if v is False: return rec(x.lo, ctx, d)
            if d > 12: return x
            c1 = ctx.clone(); c1.add_lit(a, True)
            c2 = ctx.clone(); c2.add_lit(a, False)
            h, l = rec(x.hi, c1, d + 1), rec(x.lo, c2, d + 1)
            if h is l: return h
            return merge_eq(ctx, a, h, l)
        return rec(n, self, 0)


def unit_subst(p):
    """p == 0 solved for one of its plain symbols: {atom: Poly} or None"""
    for k, v in sorted(p.m.items(), key=lambda kv: -kv[0][0][0].id if kv[0] else 0):
        if len(k) == 1 and k[0][1] == 1 and k[0][0].kind == 'sym' and v in (1, -1):
            a = k[0][0]
            rest = p - Poly({k: v})
            if a in syms_of(rest): continue
            return {a: (-rest).scale(v)}
    return None


def replace_atom(n, a, q):
    """atom a replaced by Poly q in the polynomial leaves of n (not inside other atoms)"""
    def f(p):
        if not isinstance(p, Poly) or a not in p.atoms(): return p
        r = ZERO
        for k, v in p.m.items():
            e = dict(k).get(a)
            if e is None: r = r + Poly({k: v}); continue
            t = Poly({tuple(x for x in k if x[0] is not a): v})
            b = q if e > 0 else inv(q)
            for _ in range(abs(e)): t = t * b
            r = r + t
        return r
    return apply(f, n)


def pinned(p):
    """substitution function implementing p == 0, or None"""
    m = unit_subst(p)
    if m: return lambda n: subst_node(n, m)
    for k, v in sorted(p.m.items(), key=lambda kv: -kv[0][0][0].id if kv[0] else 0):
        if len(k) == 1 and k[0][1] == 1 and v in (1, -1):
            a = k[0][0]; rest = p - Poly({k: v})
            if a in rest.atoms(): continue
            q = (-rest).scale(v)
            return lambda n: replace_atom(n, a, q)
    return None


def merge_eq(ctx, a, h, l):
    """decision node a ? h : l, where one side pins the atom's terms to an equality"""
    if a.kind in ('eq0', 'feq'):
        f = pinned(a.args)
        if f and f(h) is f(l): return l
    elif a.kind == 'le0':
        p = a.args
        f = pinned(p)
        if f and f(h) is f(l) and ctx.prove(ile0(-p)): return l
        f = pinned(p - ONE)
        if f and f(h) is f(l) and ctx.prove(ile0(p - ONE)): return h
    return mk(a, h, l)


def leaves(n, acc=None, seen=None):
    if acc is None: acc = []; seen = set()
    if n.id in seen: return acc
    seen.add(n.id)
    if n.atom is None: acc.append(n.leaf)
    else: leaves(n.hi, acc, seen); leaves(n.lo, acc, seen)
    return acc


def constrain(f, c):
    """f simplified under care set c (c not FALSE)"""
    memo = {}
    def rec(f, c):
        if c is TRUE or f.atom is None or c is FALSE: return f
        k = (f.id, c.id)
        r = memo.get(k)
        if r is not None: return r
        t = f.atom if (c.atom is None or f.atom.id <= c.atom.id) else c.atom
        chi = c.hi if c.atom is t else c
        clo = c.lo if c.atom is t else c
        fhi = f.hi if f.atom is t else f
        flo = f.lo if f.atom is t else f
        if chi is FALSE: r = rec(flo, clo)
        elif clo is FALSE: r = rec(fhi, chi)
        elif f.atom is not t: r = rec(f, b_or(chi, clo))
        else: r = mk(t, rec(fhi, chi), rec(flo, clo))
        memo[k] = r
        return r
    return rec(f, c)

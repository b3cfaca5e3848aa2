"""Canonical symbolic terms.

A value is a hash-consed algebraic decision diagram (ADD): inner nodes test boolean atoms, leaves are
  Poly   polynomial over atoms with rational coefficients (integers, reals, booleans 0/1)
  Ptr    (object, byte-offset Poly)
  Agg    tuple of values
  Arr    contents of a memory object (see Arr)
  Opq    anything else (opaque constant)
Atoms (inside polynomials) are symbols, array elements, uninterpreted function applications, sums...
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'sort', '_syms')
    tab = {}
    lst = []

    def __new__(cls, kind, args, sort='i'):
        key = (kind, args, sort)
        a = cls.tab.get(key)
        if a is None:
            a = object.__new__(cls)
            a.id = len(cls.lst); a.kind = kind; a.args = args; a.sort = sort; a._syms = None
            cls.lst.append(a); cls.tab[key] = a
        return a

    def __repr__(self):
        return atom_str(self)

    def __lt__(self, o):
        return self.id < o.id


def atom_str(a):
    if a.kind == 'sym':
        return str(a.args[0])
    if a.kind == 'sel':
        return '%s[%s]' % (a.args[0], a.args[1])
    return '%s(%s)' % (a.kind, ', '.join(map(str, a.args)))


# ---------------------------------------------------------------- polynomials
def _q(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ('m', '_h', '_s')

    def __init__(self, m):
        self.m = m           # dict: tuple((atom, exp)...) -> coeff
        self._h = None
        self._s = None

    @staticmethod
    def const(c):
        c = _q(c)
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.m == o.m)

    def __add__(self, o):
        if not isinstance(o, Poly): o = Poly.const(o)
        if not o.m: return self
        if not self.m: return o
        r = dict(self.m)
        for k, v in o.m.items():
            n = r.get(k, 0) + v
            if n == 0: r.pop(k, None)
            else: r[k] = _q(n)
        return Poly(r)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly): o = Poly.const(o)
        return self + (-o)

    def scale(self, c):
        if c == 0: return ZERO
        return Poly({k: _q(v * c) for k, v in self.m.items()})

    def __mul__(self, o):
        if not isinstance(o, Poly): return self.scale(o)
        if len(o.m) == 1 and () in o.m: return self.scale(o.m[()])
        if len(self.m) == 1 and () in self.m: return o.scale(self.m[()])
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = _mmul(k1, k2)
                n = r.get(k, 0) + v1 * v2
                if n == 0: r.pop(k, None)
                else: r[k] = _q(n)
        return Poly(r)

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        return self.m.get((), 0)

    def atoms(self):
        s = set()
        for k in self.m:
            for a, e in k: s.add(a)
        return s

    def is_linear(self):
        return all(len(k) == 0 or (len(k) == 1 and k[0][1] == 1) for k in self.m)

    def coeff(self, a):
        """coefficient of the pure monomial a^1"""
        return self.m.get(((a, 1),), 0)

    def degree_in(self, a):
        d = 0
        for k in self.m:
            for b, e in k:
                if b is a: d = max(d, abs(e) if e > 0 else 99)
        return d

    def without(self, a):
        """(coefficient poly of a^1, rest) if a occurs only linearly, else None. Monomials a*x allowed."""
        c, r = {}, {}
        for k, v in self.m.items():
            hit = [e for b, e in k if b is a]
            if not hit: r[k] = v
            elif hit[0] == 1: c[tuple(x for x in k if x[0] is not a)] = v
            else: return None
        return Poly(c), Poly(r)

    def single_atom(self):
        """the atom a if self == a, else None"""
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if v == 1 and len(k) == 1 and k[0][1] == 1: return k[0][0]
        return None

    def __repr__(self):
        if self._s is None:
            if not self.m: self._s = '0'
            else:
                parts = []
                for k, v in sorted(self.m.items(), key=lambda kv: [(a.id, e) for a, e in kv[0]]):
                    f = '*'.join(str(a) if e == 1 else '%s^%d' % (a, e) for a, e in k)
                    if not f: parts.append(str(v))
                    elif v == 1: parts.append(f)
                    elif v == -1: parts.append('-' + f)
                    else: parts.append('%s*%s' % (v, f))
                self._s = ' + '.join(parts).replace('+ -', '- ')
        return self._s


def _mmul(a, b):
    if not a: return b
    if not b: return a
    d = {}
    for x, e in a: d[x] = d.get(x, 0) + e
    for x, e in b: d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda t: t[0].id))


ZERO = Poly({})
ONE = Poly.const(1)


def sym(name, sort='i'):
    return Poly.atom(Atom('sym', (name,), sort))


_fresh = [0]


def fresh(prefix, sort='i'):
    _fresh[0] += 1
    return sym('%s~%d' % (prefix, _fresh[0]), sort)


UNSHAPED = set()     # symbols describing loops whose progress the analysis does not understand
VARIANT = {}       # symbol or ('arr', name) -> creation count: stands for something that differs at every evaluation


def havoc(prefix, sort='i'):
    s = fresh(prefix, sort)
    VARIANT[s.single_atom()] = _fresh[0]
    return s


def havoc_arr(prefix):
    nm = fresh(prefix).single_atom().args[0]
    VARIANT[('arr', nm)] = _fresh[0]
    return nm


def variants(x, mark):
    """the symbols of x that were made after `mark` and stand for a different value at every evaluation"""
    return frozenset(s for s in syms_of(x) if VARIANT.get(s, -1) > mark)


class Ptr:
    __slots__ = ('obj', 'off', '_h')

    def __init__(self, obj, off):
        self.obj = obj; self.off = off; self._h = hash((obj, off))

    def __hash__(self): return self._h

    def __eq__(self, o): return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __repr__(self): return '&%s+%s' % (self.obj, self.off)


class Agg:
    __slots__ = ('el', '_h')

    def __init__(self, el):
        self.el = tuple(el); self._h = hash(('agg', self.el))

    def __hash__(self): return self._h

    def __eq__(self, o): return isinstance(o, Agg) and self.el == o.el

    def __repr__(self): return '{%s}' % ', '.join(map(str, self.el))


class Opq:
    __slots__ = ('key', '_h')

    def __init__(self, *key):
        self.key = key; self._h = hash(('opq', key))

    def __hash__(self): return self._h

    def __eq__(self, o): return isinstance(o, Opq) and self.key == o.key

    def __repr__(self): return '<%s>' % ' '.join(map(str, self.key))


UNDEF = Opq('undef')


# ---------------------------------------------------------------- ADDs
class Node:
    __slots__ = ('id', 'atom', 'hi', 'lo', 'leaf', '_syms')
    tab = {}
    n = 0

    def __repr__(self):
        return node_str(self)

    def is_leaf(self):
        return self.atom is None


def node_str(n):
    if n.atom is None: return str(n.leaf)
    return '(%s ? %s : %s)' % (n.atom, n.hi, n.lo)


def leaf(v):
    k = ('L', v) if not isinstance(v, Poly) else ('P', v)
    n = Node.tab.get(k)
    if n is None:
        n = object.__new__(Node)
        n.id = Node.n; Node.n += 1
        n.atom = None; n.hi = n.lo = None; n.leaf = v; n._syms = None
        Node.tab[k] = n
    return n


class BAtom:
    """boolean atom; order = creation order"""
    __slots__ = ('id', 'kind', 'args')
    tab = {}
    lst = []

    def __new__(cls, kind, args):
        key = (kind, args)
        a = cls.tab.get(key)
        if a is None:
            a = object.__new__(cls)
            a.id = len(cls.lst); a.kind = kind; a.args = args
            cls.lst.append(a); cls.tab[key] = a
        return a

    def __repr__(self):
        k = self.kind
        if k in ('le0', 'fle'): return '[%s <= 0]' % self.args
        if k == 'flt': return '[%s < 0]' % self.args
        if k in ('eq0', 'feq'): return '[%s == 0]' % self.args
        return '%s(%s)' % (k, ', '.join(map(str, self.args)))


def mk(atom, hi, lo):
    if hi is lo: return hi
    k = (atom.id, hi.id, lo.id)
    n = Node.tab.get(k)
    if n is None:
        n = object.__new__(Node)
        n.id = Node.n; Node.n += 1
        n.atom = atom; n.hi = hi; n.lo = lo; n.leaf = None; n._syms = None
        Node.tab[k] = n
    return n


def L(c): return leaf(Poly.const(c)) if not isinstance(c, (Poly, Ptr, Agg, Opq, Arr)) else leaf(c)


class Budget(Exception):
    pass


def _top(ns):
    t = None
    for n in ns:
        if n.atom is not None and (t is None or n.atom.id < t.id): t = n.atom
    return t


def apply(f, *ns, memo=None):
    """apply f leafwise; f takes leaf payloads and returns a Node or payload"""
    if memo is None: memo = {}
    k = tuple(n.id for n in ns)
    r = memo.get(k)
    if r is not None: return r
    t = _top(ns)
    if t is None:
        r = f(*[n.leaf for n in ns])
        if not isinstance(r, Node): r = leaf(r)
    else:
        hi = apply(f, *[n.hi if n.atom is t else n for n in ns], memo=memo)
        lo = apply(f, *[n.lo if n.atom is t else n for n in ns], memo=memo)
        r = ite(mk(t, TRUE, FALSE), hi, lo)
    memo[k] = r
    if len(memo) > 200000: raise Budget('ADD too large')
    return r


_ite_memo = {}


def ite(c, a, b):
    if a is b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    if c.atom is None: raise ValueError('bad cond %r' % (c,))
    if a is TRUE and b is FALSE: return c
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is not None: return r
    t = _top((c, a, b))
    hi = ite(*[n.hi if n.atom is t else n for n in (c, a, b)])
    lo = ite(*[n.lo if n.atom is t else n for n in (c, a, b)])
    r = mk(t, hi, lo)
    _ite_memo[k] = r
    return r


def b_not(c): return ite(c, FALSE, TRUE)
def b_and(*cs):
    r = TRUE
    for c in cs: r = ite(r, c, FALSE)
    return r
def b_or(*cs):
    r = FALSE
    for c in cs: r = ite(r, TRUE, c)
    return r


def batom(kind, *args): return mk(BAtom(kind, args if len(args) != 1 else (args[0],)), TRUE, FALSE)


class _One:
    pass


def _norm_sign(p):
    """(canonical poly with positive leading coeff & content 1, positive scale, sign)"""
    from math import gcd
    if not p.m: return p, 1, 1
    # leading monomial: by atom ids, constants last
    ks = [k for k in p.m if k]
    if not ks: return p, 1, 1
    lead = min(ks, key=lambda k: [(a.id, e) for a, e in k])
    s = 1 if p.m[lead] > 0 else -1
    return p, lead, s


def _content(p):
    from math import gcd
    g = 0; l = 1
    for k, v in p.m.items():
        if not k: continue
        f = Fraction(v)
        l = l * f.denominator // gcd(l, f.denominator)
    for k, v in p.m.items():
        if not k: continue
        g = gcd(g, abs(int(Fraction(v) * l)))
    return Fraction(g, l) if g else Fraction(1)


def ile0(p):
    """integer p <= 0"""
    if p.is_const(): return TRUE if p.cval() <= 0 else FALSE
    _, lead, s = _norm_sign(p)
    if s < 0:
        # p <= 0  <=>  not (1 - p <= 0)
        return b_not(ile0(ONE - p))
    g = _content(p)
    c = p.m.get((), 0)
    q = Poly({k: _q(Fraction(v) / g) for k, v in p.m.items() if k})
    cc = Fraction(c) / g
    import math
    return mk(BAtom('le0', (q + math.ceil(cc)),), TRUE, FALSE)


def ieq0(p):
    if p.is_const(): return TRUE if p.cval() == 0 else FALSE
    if NONNULL:
        a = p.single_atom() or (-p).single_atom()
        if a is not None and a.kind in NONNULL: return FALSE
    _, lead, s = _norm_sign(p)
    if s < 0: p = -p
    g = _content(p)
    q = p.scale(1 / g) if g != 1 else p
    if Fraction(q.m.get((), 0)).denominator != 1: return FALSE
    return mk(BAtom('eq0', q), TRUE, FALSE)


def flt0(p):
    if p.is_const(): return TRUE if p.cval() < 0 else FALSE
    _, lead, s = _norm_sign(p)
    c = Fraction(1) / abs(Fraction(p.m[lead]))
    if s < 0: return b_not(mk(BAtom('fle', (-p).scale(c)), TRUE, FALSE))
    return mk(BAtom('flt', p.scale(c)), TRUE, FALSE)


def fle0(p):
    if p.is_const(): return TRUE if p.cval() <= 0 else FALSE
    _, lead, s = _norm_sign(p)
    c = Fraction(1) / abs(Fraction(p.m[lead]))
    if s < 0: return b_not(mk(BAtom('flt', (-p).scale(c)), TRUE, FALSE))
    return mk(BAtom('fle', p.scale(c)), TRUE, FALSE)


def feq0(p):
    if p.is_const(): return TRUE if p.cval() == 0 else FALSE
    _, lead, s = _norm_sign(p)
    c = Fraction(1) / Fraction(p.m[lead])
    return mk(BAtom('feq', p.scale(c)), TRUE, FALSE)


# ---------------------------------------------------------------- arrays
class Arr:
    """contents of one (object, field) array, element-indexed.
    kind 'base': (name, sort)     unknown initial contents
         'upd' : (prev Node, lo Poly, hi Poly, bv Atom, value Node)   elements lo<=i<hi become value[bv:=i]
    """
    __slots__ = ('kind', 'args', '_h', 'depth')

    def __init__(self, kind, *args):
        self.kind = kind; self.args = args; self._h = hash((kind, args))
        self.depth = 0

    def __hash__(self): return self._h

    def __eq__(self, o): return isinstance(o, Arr) and (self is o or (self._h == o._h and self.kind == o.kind and self.args == o.args))

    def __repr__(self):
        if self.kind == 'base': return str(self.args[0])
        p, lo, hi, bv, v = self.args
        if (hi - lo) == ONE: return '%s{%s := %s}' % (p, lo, subst_node(v, {bv: lo}))
        return '%s{%s..%s: %s -> %s}' % (p, lo, hi, bv, v)


def mkupd(prev, lo, hi, bv, v):
    """array `prev` with lo<=i<hi replaced by v(i)"""
    return leaf(Arr('upd', prev, lo, hi, bv, v))


TRUE = leaf(ONE)
FALSE = leaf(ZERO)

# ---------------------------------------------------------------- free symbols / substitution
def syms_of(x):
    """set of Atom('sym') occurring in x"""
    if isinstance(x, Node):
        if x._syms is None:
            if x.atom is None: x._syms = syms_of(x.leaf)
            else: x._syms = syms_of(x.atom) | syms_of(x.hi) | syms_of(x.lo)
        return x._syms
    if isinstance(x, Poly):
        s = frozenset()
        for a in x.atoms(): s |= syms_of(a)
        return s
    if isinstance(x, Atom):
        if x._syms is None:
            if x.kind == 'sym': x._syms = frozenset([x])
            else:
                s = frozenset()
                for y in x.args: s |= syms_of(y)
                if x.kind == 'sel' and isinstance(x.args[0], str): s |= frozenset([('arr', x.args[0])])
                x._syms = s
        return x._syms
    if isinstance(x, BAtom):
        if not isinstance(x.args, tuple): return syms_of(x.args)
        s = frozenset()
        for y in x.args: s |= syms_of(y)
        return s
    if isinstance(x, Ptr): return syms_of(x.off) | syms_of(x.obj)
    if isinstance(x, Agg):
        s = frozenset()
        for y in x.el: s |= syms_of(y)
        return s
    if isinstance(x, Arr):
        s = frozenset()
        for y in x.args: s |= syms_of(y)
        if x.kind == 'base': s |= frozenset([('arr', x.args[0])])
        return s
    if isinstance(x, Opq):
        s = frozenset()
        for y in x.key: s |= syms_of(y)
        return s
    if isinstance(x, tuple):
        s = frozenset()
        for y in x: s |= syms_of(y)
        return s
    return frozenset()


BINDERS = {'sum', 'exists', 'first', 'maxof', 'minof'}
NONNULL = set()


class Subst:
    """substitution of symbol atoms by Nodes/Polys, and of base arrays by Arr Nodes"""

    def __init__(self, m, arrs=None, read=None):
        self.m = {k: (v if isinstance(v, Node) else leaf(v)) for k, v in m.items()}
        self.arrs = arrs or {}
        self.dom = frozenset(self.m) | frozenset(('arr', a) for a in self.arrs)
        self.memo = {}
        self.amemo = {}
        self.read = read or read_arr

    def hit(self, x):
        return not self.dom.isdisjoint(syms_of(x))

    def node(self, n):
        if not self.hit(n): return n
        r = self.memo.get(n.id)
        if r is not None: return r
        if n.atom is None: r = self.payload(n.leaf)
        else:
            c = self.batom(n.atom)
            r = ite(c, self.node(n.hi), self.node(n.lo))
        self.memo[n.id] = r
        return r

    def payload(self, v):
        if isinstance(v, Poly): return self.poly(v)
        if isinstance(v, Ptr):
            o = self.obj(v.obj)
            if isinstance(o, Node): return apply(lambda a, b: leaf(Ptr(a, b)), o, self.poly(v.off))
            return apply(lambda p: leaf(Ptr(o, p)), self.poly(v.off))
        if isinstance(v, Agg): return leaf(Agg(self.node(x) for x in v.el))
        if isinstance(v, Arr): return self.arr(v)
        if isinstance(v, Opq): return leaf(Opq(*[self.any(x) for x in v.key]))
        return leaf(v)

    def obj(self, o):
        return self.any(o)

    def arr(self, v):
        if v.kind == 'base':
            r = self.arrs.get(v.args[0])
            if r is not None: return r
            return leaf(Arr('base', *[self.any(x) if not isinstance(x, str) else x for x in v.args]))
        prev, lo, hi, bv, val = v.args
        pn = self.node(prev)
        s2 = self
        if bv in self.m: s2 = Subst({k: x for k, x in self.m.items() if k is not bv}, self.arrs, self.read)
        # avoid capture of the bound variable
        if any(bv in syms_of(x) for k, x in s2.m.items()):
            nb = fresh('j', 'i').single_atom()
            val = subst_node(val, {bv: Poly.atom(nb)}); bv = nb
        vn = s2.node(val)
        def f(a, b):
            if b == a: return pn
            return mkupd(pn, a, b, bv, vn)
        return apply(lambda a, b: f(a, b) if isinstance(a, Poly) and isinstance(b, Poly) else Opq('upd?', a, b), self.poly(lo), self.poly(hi))

    def any(self, x):
        if isinstance(x, Node): return self.node(x)
        if isinstance(x, Poly):
            r = self.poly(x)
            return r.leaf if r.atom is None else r
        if isinstance(x, Atom):
            r = self.atom(x)
            return r
        if isinstance(x, tuple): return tuple(self.any(y) for y in x)
        if isinstance(x, (Ptr, Agg, Arr, Opq)):
            r = self.payload(x)
            return r.leaf if r.atom is None else r
        return x

    def poly(self, p):
        if not self.hit(p): return leaf(p)
        acc = leaf(ZERO)
        # group untouched monomials
        rest = {}
        todo = []
        for k, v in p.m.items():
            if any(self.hit(a) for a, e in k): todo.append((k, v))
            else: rest[k] = v
        acc = leaf(Poly(rest))
        for k, v in todo:
            t = leaf(Poly.const(v))
            for a, e in k:
                x = self.atom(a)
                if e == 1: t = n_mul(t, x)
                else: t = n_mul(t, n_pow(x, e))
            acc = n_add(acc, t)
        return acc

    def atom(self, a):
        if not self.hit(a): return leaf(Poly.atom(a))
        r = self.amemo.get(a)
        if r is not None: return r
        if a.kind == 'sym': r = self.m[a]
        elif a.kind == 'sel':
            base, idx = a.args
            i = self.poly(idx)
            b = self.arrs.get(base)
            if b is None:
                bb = self.any(base) if not isinstance(base, str) else base
                r = apply(lambda q: leaf(Poly.atom(Atom('sel', (bb, q), a.sort))), i)
            else:
                rd = self.read
                r = apply(lambda q: rd(b, q, a.sort), i)
        elif a.kind in BINDERS:
            bv, n, body = a.args[:3]
            nn = self.poly(n)
            s2 = Subst({k: v for k, v in self.m.items() if k is not bv}, self.arrs, self.read) if bv in self.m else self
            bb = s2.node(body)
            if len(a.args) > 3:
                rest = [self.any(x) for x in a.args[3:]]
                def g(q, *rs):
                    nb, b3 = _canon_bv(bb, bv, q)
                    return leaf(Poly.atom(Atom(a.kind, (nb, q, b3) + rs, a.sort)))
                r = lift_args([nn] + rest, g)
            else:
                r = apply(lambda q: quant(a.kind, bv, q, bb, a.sort), nn)
        else:
            args = [self.any(x) for x in a.args]
            r = app(a.kind, args, a.sort)
        self.amemo[a] = r
        return r

    def batom(self, b):
        if not self.hit(b): return mk(b, TRUE, FALSE)
        r = self.amemo.get(b)
        if r is not None: return r
        k = b.kind
        if k in ('le0', 'eq0', 'flt', 'fle', 'feq'):
            f = {'le0': ile0, 'eq0': ieq0, 'flt': flt0, 'fle': fle0, 'feq': feq0}[k]
            r = apply(lambda p: f(p) if isinstance(p, Poly) else batom('opq', k, p), self.poly(b.args))
        elif k == 'exists':
            bv, n, body = b.args
            r = apply(lambda q: exists(bv, q, self.node(body)), self.poly(n))
        elif k == 'true':
            r = apply(lambda q: truth(q), self.poly(b.args[0]))
        else:
            args = [self.any(x) for x in b.args]
            r = bapp(k, args)
        self.amemo[b] = r
        return r


def subst_node(n, m, arrs=None, read=None):
    s = Subst(m, arrs, read)
    return s.node(n)


def subst_poly(p, m):
    return Subst(m).poly(p)


def truth(p):
    """boolean-valued polynomial leaf -> condition"""
    if not isinstance(p, Poly): return batom('opqbool', p)
    if p.is_const(): return TRUE if p.cval() != 0 else FALSE
    a = p.single_atom()
    if a is not None: return batom('true', p)
    # 1 - x
    q = ONE - p
    a = q.single_atom()
    if a is not None: return b_not(batom('true', q))
    return b_not(ieq0(p))


def lift_args(args, f):
    """args: list of payloads or Nodes; call f on tuple of payloads leafwise"""
    ns = [a if isinstance(a, Node) else leaf(a) for a in args]
    return apply(lambda *xs: f(*xs), *ns)


def app(kind, args, sort='i'):
    """uninterpreted application, lifted over decisions, with light rewriting"""
    if not any(isinstance(a, Node) for a in args):
        return _app(kind, tuple(args), sort)
    return lift_args(args, lambda *xs: _app(kind, tuple(xs), sort))


def bapp(kind, args):
    if not any(isinstance(a, Node) for a in args): return batom(kind, *args)
    return lift_args(args, lambda *xs: batom(kind, *xs))


def _app(kind, args, sort):
    rw = REWRITE.get(kind)
    if rw:
        r = rw(args, sort)
        if r is not None: return r if isinstance(r, Node) else leaf(r)
    return leaf(Poly.atom(Atom(kind, tuple(args), sort)))


REWRITE = {}


def n_add(a, b): return apply(_add, a, b)
def _add(x, y):
    if isinstance(x, Poly) and isinstance(y, Poly): return x + y
    if isinstance(x, Ptr) and isinstance(y, Poly): return Ptr(x.obj, x.off + y)
    if isinstance(y, Ptr) and isinstance(x, Poly): return Ptr(y.obj, y.off + x)
    return Opq('add', x, y)
def n_sub(a, b): return apply(_sub, a, b)
def _sub(x, y):
    if isinstance(x, Poly) and isinstance(y, Poly): return x - y
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.obj == y.obj: return x.off - y.off
        return Opq('ptrdiff', x, y)
    if isinstance(x, Ptr) and isinstance(y, Poly): return Ptr(x.obj, x.off - y)
    return Opq('sub', x, y)
def n_mul(a, b): return apply(_mul, a, b)
def _mul(x, y):
    if isinstance(x, Poly) and isinstance(y, Poly): return mulx(x, y)
    return Opq('mul', x, y)
def n_neg(a): return apply(lambda x: -x if isinstance(x, Poly) else Opq('neg', x), a)


def mulx(x, y):
    r = x * y
    return _merge_exp(r)


def _merge_exp(p):
    """exp(a)*exp(b) -> exp(a+b) in every monomial"""
    need = False
    for k in p.m:
        ne = [(a, e) for a, e in k if a.kind == 'exp']
        if len(ne) > 1 or (ne and ne[0][1] != 1): need = True; break
    if not need: return p
    out = ZERO
    for k, v in p.m.items():
        ne = [(a, e) for a, e in k if a.kind == 'exp']
        if len(ne) > 1 or (ne and ne[0][1] != 1):
            s = ZERO
            for a, e in ne: s = s + a.args[0].scale(e)
            rest = tuple((a, e) for a, e in k if a.kind != 'exp')
            t = Poly({rest: v})
            ex = _app('exp', (s,), 'r').leaf
            out = out + t * ex
        else: out = out + Poly({k: v})
    return out


def n_pow(a, e):
    r = leaf(ONE)
    if e < 0:
        a = n_inv(a); e = -e
    for _ in range(e): r = n_mul(r, a)
    return r


def inv(p):
    """1/p for reals"""
    if p.is_const():
        if p.cval() == 0: return Poly.atom(Atom('inv', (ZERO,), 'r'))
        return Poly.const(Fraction(1) / Fraction(p.cval()))
    if len(p.m) == 1:
        (k, v), = p.m.items()
        r = Poly({tuple((a, -e) for a, e in k): _q(Fraction(1) / Fraction(v))})
        return _merge_exp(r)
    # general: normalise scale
    _, lead, s = _norm_sign(p)
    c = Fraction(p.m[lead])
    return Poly.atom(Atom('inv', (p.scale(Fraction(1) / c),), 'r')).scale(Fraction(1) / c)


def n_inv(a): return apply(lambda x: inv(x) if isinstance(x, Poly) else Opq('inv', x), a)
def n_div(a, b): return n_mul(a, n_inv(b))


# ---------------------------------------------------------------- quantified terms
def _bvdepth(x, bv):
    """max depth index of canonical bound variables inside x"""
    d = -1
    for s in syms_of(x):
        if isinstance(s, Atom) and isinstance(s.args[0], str) and s.args[0].startswith('@'):
            d = max(d, int(s.args[0][1:]))
    return d


def _canon_bv(body, bv, n):
    d = _bvdepth_closed(body, bv) + 1
    nb = Atom('sym', ('@%d' % d,), 'i')
    if nb is bv: return bv, body
    return nb, subst_node(body, {bv: Poly.atom(nb)})


def _all_bvs(x, acc):
    """indices of canonical bound variables bound inside x"""
    if isinstance(x, Node):
        if x.atom is None: _all_bvs(x.leaf, acc)
        else: _all_bvs(x.atom, acc); _all_bvs(x.hi, acc); _all_bvs(x.lo, acc)
    elif isinstance(x, Poly):
        for a in x.atoms(): _all_bvs(a, acc)
    elif isinstance(x, (Atom, BAtom)):
        if isinstance(x.args, tuple):
            for y in x.args: _all_bvs(y, acc)
        else: _all_bvs(x.args, acc)
        if isinstance(x, Atom) and x.kind == 'sym' and isinstance(x.args[0], str) and x.args[0].startswith('@'):
            acc.add(int(x.args[0][1:]))
    elif isinstance(x, (tuple, list)):
        for y in x: _all_bvs(y, acc)
    elif isinstance(x, Ptr): _all_bvs(x.off, acc)
    elif isinstance(x, Agg): _all_bvs(x.el, acc)
    elif isinstance(x, Arr): _all_bvs(x.args, acc)
    elif isinstance(x, Opq): _all_bvs(x.key, acc)


def _bvdepth_closed(x, bv):
    """highest index of a canonical bound variable in x other than a free occurrence of bv"""
    acc = set(); _all_bvs(x, acc)
    if isinstance(bv, Atom) and bv.args[0].startswith('@'):
        k = int(bv.args[0][1:])
        if k in acc and bv not in _bound_bvs(x, set(), set()): acc.discard(k)
    return max(acc) if acc else -1


def _bound_bvs(x, acc, seen):
    """canonical variables bound by an operator inside x"""
    if isinstance(x, (tuple, list)):
        for y in x: _bound_bvs(y, acc, seen)
        return acc
    if not isinstance(x, (Node, Poly, Atom, BAtom, Ptr, Agg, Arr, Opq)) or id(x) in seen: return acc
    seen.add(id(x))
    if isinstance(x, Node):
        if x.atom is None: _bound_bvs(x.leaf, acc, seen)
        else: _bound_bvs((x.atom, x.hi, x.lo), acc, seen)
    elif isinstance(x, Poly): _bound_bvs(tuple(x.atoms()), acc, seen)
    elif isinstance(x, (Atom, BAtom)):
        if x.kind in BINDERS and isinstance(x.args, tuple): acc.add(x.args[0])
        if isinstance(x.args, tuple): _bound_bvs(x.args, acc, seen)
        else: _bound_bvs((x.args,), acc, seen)
    elif isinstance(x, Ptr): _bound_bvs(x.off, acc, seen)
    elif isinstance(x, Agg): _bound_bvs(x.el, acc, seen)
    elif isinstance(x, Arr): _bound_bvs(x.args, acc, seen)
    elif isinstance(x, Opq): _bound_bvs(x.key, acc, seen)
    return acc


def _pull_range(cond_atom, bv):
    """if atom is le0/eq0 linear in bv with unit coefficient: ('ub', p): true iff bv <= p ; ('lb', p): true iff bv >= p; ('eq', p)"""
    if cond_atom.kind == 'le0':
        p = cond_atom.args
        w = p.without(bv)
        if w and w[0].is_const() and bv not in syms_of(w[1]):
            c = w[0].cval()
            if c == 1: return ('ub', -w[1])
            if c == -1: return ('lb', w[1])
    if cond_atom.kind == 'eq0':
        p = cond_atom.args
        w = p.without(bv)
        if w and w[0].is_const() and bv not in syms_of(w[1]):
            c = w[0].cval()
            if abs(c) == 1: return ('eq', (-w[1]).scale(c))
    return None


def n_max(a, b):
    """max of int polys"""
    return ite(decided(ile0(a - b)), leaf(b), leaf(a))
def n_min(a, b):
    return ite(decided(ile0(a - b)), leaf(a), leaf(b))


def decided(c):
    if c is TRUE or c is FALSE: return c
    k = DECIDE[0](c)
    return TRUE if k is True else FALSE if k is False else c


def lowcut(n, c):
    return FALSE if (c.is_const() and c.cval() <= 0) else n_min(n, c)


def quant(kind, bv, n, body, sort='r'):
    """sum over bv in [0,n) of body (Node).  n Poly. (n<=0: empty)"""
    if kind == 'exists': raise ValueError
    if n.is_const() and n.cval() <= 0: return leaf(ZERO)
    if kind == 'sum':
        if bv not in syms_of(body):
            cnt = ite(ile0(n), FALSE, leaf(n))
            return n_mul(cnt, body)
        if n == ONE: return subst_node(body, {bv: ZERO})
        # split on decisions that do not involve bv
        if body.atom is not None:
            t = body.atom
            if bv not in syms_of(t):
                return ite(mk(t, TRUE, FALSE), quant(kind, bv, n, body.hi, sort), quant(kind, bv, n, body.lo, sort))
            r = _pull_range(t, bv)
            if r:
                k, p = r
                if k == 'ub':   # hi on [0, min(n,p+1)), lo on [max(0,p+1), n)
                    return n_add(quant_rng(kind, bv, ZERO, lowcut(n, p + ONE), body.hi, sort), quant_rng2(kind, bv, n_max(ZERO, p + ONE), n, body.lo, sort))
                if k == 'lb':
                    return n_add(quant_rng(kind, bv, ZERO, lowcut(n, p), body.lo, sort), quant_rng2(kind, bv, n_max(ZERO, p), n, body.hi, sort))
                if k == 'eq':
                    at = ite(b_and(ile0(-p), ile0(p - n + ONE)), n_sub(subst_node(body.hi, {bv: p}), subst_node(body.lo, {bv: p})), FALSE)
                    return n_add(at, quant(kind, bv, n, body.lo, sort))
            # keep the decision inside: represent as atom over ite-body (canonical because ADD is canonical)
            b2 = _tidy(body)
            if b2 is not body: return quant(kind, bv, n, b2, sort)
            nb, bb = _canon_bv(body, bv, n)
            return leaf(Poly.atom(Atom('sum', (nb, n, bb), sort)))
        p = body.leaf
        if not isinstance(p, Poly): return leaf(Poly.atom(Atom('sum', (bv, n, body), sort)))
        # linearity: split monomials, pull out factors not involving bv
        acc = leaf(ZERO)
        groups = {}
        for k, v in p.m.items():
            out = tuple(x for x in k if bv not in syms_of(x[0]))
            inn = tuple(x for x in k if bv in syms_of(x[0]))
            groups.setdefault(inn, ZERO)
            groups[inn] = groups[inn] + Poly({out: v})
        for inn, cf in groups.items():
            if not inn:
                acc = n_add(acc, n_mul(ite(ile0(n), FALSE, leaf(n)), leaf(cf)))
                continue
            if len(inn) == 1 and inn[0][0] is bv and inn[0][1] == 1:
                g = n * (n - ONE)
                acc = n_add(acc, n_mul(leaf(cf), ite(ile0(n), FALSE, leaf(g.scale(Fraction(1, 2))))))
                continue
            b1 = leaf(Poly({inn: 1}))
            # orientation: t or n-1-t, choose canonical
            b2 = subst_node(b1, {bv: n - ONE - Poly.atom(bv)})
            cand = []
            for b in (b1, b2):
                if b.atom is None:
                    nb, bb = _canon_bv(b, bv, n)
                    cand.append((canon_key(bb), nb, bb))
            cand.sort(key=lambda c: c[0])
            _, nb, bb = cand[0]
            acc = n_add(acc, n_mul(leaf(cf), leaf(Poly.atom(Atom('sum', (nb, n, bb), sort)))))
        return acc
    nb, bb = _canon_bv(body, bv, n)
    return leaf(Poly.atom(Atom(kind, (nb, n, bb), sort)))


_TIDY = {}


def _tidy(n):
    """a term without decisions that earlier ones on its paths settle"""
    r = _TIDY.get(n.id)
    if r is None:
        r = n
        if sum(1 for a in batoms_of(n)) > 1:
            import prove
            def rec(x):
                if x.atom is None: return x
                h, l = rec(x.hi), rec(x.lo)
                if x.atom.kind == 'eq0' and l.atom is not None:
                    c = prove.Ctx(); c.add_lit(x.atom, True)
                    if c.simplify(l) is h: return l
                return mk(x.atom, h, l)
            r = rec(prove.Ctx().simplify(n))
        _TIDY[n.id] = r; _TIDY[r.id] = r
    return r


def canon_key(n):
    return str(n)


def quant_rng(kind, bv, lo, hiN, body, sort):
    """sum over [lo, hi) where hiN is a Node"""
    return apply(lambda h: _shifted(kind, bv, lo, h, body, sort), hiN)


def quant_rng2(kind, bv, loN, hi, body, sort):
    return apply(lambda l: _shifted(kind, bv, l, hi, body, sort), loN)


def _shifted(kind, bv, lo, hi, body, sort):
    b = subst_node(body, {bv: Poly.atom(bv) + lo}) if lo != ZERO else body
    return quant(kind, bv, hi - lo, b, sort)


def exists(bv, n, body):
    """exists bv in [0,n): body (boolean Node)"""
    if n.is_const() and n.cval() <= 0: return FALSE
    if body is FALSE: return FALSE
    if bv not in syms_of(body): return b_and(b_not(ile0(n)), body)
    if n == ONE: return subst_node(body, {bv: ZERO})
    # distribute over or: top atom split
    t = body.atom
    if bv not in syms_of(t):
        c = mk(t, TRUE, FALSE)
        return b_or(b_and(c, exists(bv, n, body.hi)), b_and(b_not(c), exists(bv, n, body.lo)))
    r = None
    for a in batoms_of(body):
        r = _pull_range(a, bv)
        if r: break
    if r:
        k, p = r
        hi = restrict(body, a, True); lo = restrict(body, a, False)
        if k == 'eq':
            at = b_and(ile0(-p), ile0(p - n + ONE), subst_node(hi, {bv: p}))
            # elsewhere: bv < p or bv > p
            low = FALSE if (p.is_const() and p.cval() <= 0) else apply(lambda h: exists(bv, h, lo), n_min(n, p))
            st = n_max(ZERO, p + ONE)
            up = apply(lambda l: exists(bv, n - l, subst_node(lo, {bv: Poly.atom(bv) + l})), st)
            return b_or(at, low, up)
        if k == 'ub': first, second, cut = hi, lo, p + ONE
        else: first, second, cut = lo, hi, p
        low = FALSE if (cut.is_const() and cut.cval() <= 0) else apply(lambda h: exists(bv, h, first), n_min(n, cut))
        up = apply(lambda l: exists(bv, n - l, subst_node(second, {bv: Poly.atom(bv) + l})), n_max(ZERO, cut))
        return b_or(low, up)
    # a disjunction of cubes: exists distributes
    out = FALSE
    cubes = prime_or(body)
    for c in cubes:
        # pull out literals without bv
        inn = TRUE; outn = TRUE
        for at, pos in c:
            lit = mk(at, TRUE, FALSE) if pos else mk(at, FALSE, TRUE)
            if bv in syms_of(at): inn = b_and(inn, lit)
            else: outn = b_and(outn, lit)
        nb, bb = _canon_bv(inn, bv, n)
        nb2, bb2 = _canon_bv(subst_node(inn, {bv: n - ONE - Poly.atom(bv)}), bv, n)
        if canon_key(bb2) < canon_key(bb): nb, bb = nb2, bb2
        out = b_or(out, b_and(outn, batom('exists', nb, n, bb)))
    return out


def batoms_of(n, acc=None, seen=None):
    if acc is None: acc = []; seen = set()
    if n.id in seen or n.atom is None: return acc
    seen.add(n.id)
    if n.atom not in acc: acc.append(n.atom)
    batoms_of(n.hi, acc, seen); batoms_of(n.lo, acc, seen)
    return acc


def restrict(n, atom, val, memo=None):
    if memo is None: memo = {}
    if n.atom is None: return n
    r = memo.get(n.id)
    if r is not None: return r
    if n.atom is atom: r = restrict(n.hi if val else n.lo, atom, val, memo)
    elif n.atom.id > atom.id: r = n
    else: r = mk(n.atom, restrict(n.hi, atom, val, memo), restrict(n.lo, atom, val, memo))
    memo[n.id] = r
    return r


def cubes(n):
    """disjoint cubes of a BDD: list of [(atom,bool)...]"""
    out = []
    def rec(x, path):
        if x is FALSE: return
        if x is TRUE: out.append(list(path)); return
        if x.atom is None: raise ValueError('not boolean: %r' % (x,))
        rec(x.hi, path + [(x.atom, True)]); rec(x.lo, path + [(x.atom, False)])
    rec(n, [])
    return out


def prime_or(n):
    """cover of a BDD by cubes where redundant literals are dropped (irredundant-ish)"""
    res = []
    for c in cubes(n):
        cur = list(c)
        for lit in list(cur):
            trial = [l for l in cur if l is not lit]
            cc = b_and(*[mk(a, TRUE, FALSE) if p else mk(a, FALSE, TRUE) for a, p in trial])
            if ite(cc, n, TRUE) is TRUE: cur = trial
        cc = frozenset((a.id, p) for a, p in cur)
        if not any(cc == frozenset((a.id, p) for a, p in r) for r in res): res.append(cur)
    return res


# ---------------------------------------------------------------- reading arrays
DECIDE = [lambda node: None]   # hook: prover deciding boolean nodes in the current context


def read_arr(a, i, sort='r', decide=None):
    """element i (Poly) of array contents a (Node with Arr leaves)"""
    return apply(lambda arr: _read(arr, i, sort, decide), a)


def _read(arr, i, sort, decide):
    if not isinstance(arr, Arr): return leaf(Opq('read', arr, i))
    if arr.kind == 'base':
        return leaf(Poly.atom(Atom('sel', (arr.args[0], i), arr.args[1] if len(arr.args) > 1 else sort)))
    prev, lo, hi, bv, v = arr.args
    d = decide or DECIDE[0]
    def dec(c):
        if c is TRUE or c is FALSE: return c
        k = d(c)
        return TRUE if k is True else FALSE if k is False else c
    inside = b_and(dec(ile0(lo - i)), dec(ile0(i - hi + ONE)))
    if inside is TRUE: return subst_node(v, {bv: i})
    if inside is FALSE: return read_arr(prev, i, sort, decide)
    return ite(inside, subst_node(v, {bv: i}), read_arr(prev, i, sort, decide))


def _rw_exp(args, sort):
    p = args[0]
    if isinstance(p, Poly):
        if not p.m: return ONE
        # exp(log x) / exp(c*log x + r) = x^c exp(r)
        mon = {}; rest = ZERO
        for k, v in p.m.items():
            if len(k) == 1 and k[0][0].kind == 'log' and k[0][1] == 1 and isinstance(v, int) and isinstance(k[0][0].args[0], Poly):
                mon[k[0][0]] = v
            else: rest = rest + Poly({k: v})
        if mon:
            r = ONE
            for a, v in mon.items():
                x = a.args[0]
                for _ in range(abs(v)): r = r * (x if v > 0 else inv(x))
            return r * (_app('exp', (rest,), 'r').leaf if rest.m else ONE)
    return None


REWRITE['exp'] = _rw_exp

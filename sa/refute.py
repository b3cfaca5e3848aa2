"""Random interpretation of symbolic terms (Gulwani & Necula): two canonical terms that do not coincide
syntactically are compared by interpreting both under the same random valuation of their free symbols
(uninterpreted functions and array elements get random but consistent values).  A difference is a definite
refutation of equality; agreement proves nothing and is reported as 'undecided'.
The program itself is never run: only the closed-form terms the analysis derived are interpreted."""
import hashlib, math, random, struct, time
from fractions import Fraction
from terms import *


HISTORY = {}         # global variable cells: initial value, and values at the ends of the function evaluated last


class Unint(Exception):
    """term cannot be interpreted"""


MAXSUM = 12000
HARD = [False]
ROUND = [False]       # a decision was taken on a difference of the order of a rounding error
DEADLINE = [None]; COUNT = [0]
REALS = []            # real constants single quantities are compared with
EXTRA = []            # integer constants the compared terms branch on: sizes around them are sampled too


def hsh(*key):
    h = hashlib.sha1(repr(key).encode()).digest()
    return int.from_bytes(h[:7], 'big') / float(1 << 56)


def rnd(x):
    if isinstance(x, float): return round(x, 9)
    return x


class Interp:
    def __init__(self, seed=0, env=None, funs=None, arrays=None):
        env = dict(env or {})
        self.arrays = env.pop('arrays', None) or arrays or {}      # array name -> list of values (may hold nan)
        self.scale = env.pop('scale', {})           # array name -> factor for its (otherwise random) contents
        self.strict = env.pop('strict', False)      # guess nothing: unknown state makes a term uninterpretable
        funs = env.pop('funs', None) or funs
        self.seed = seed; self.env = env; self.funs = funs or {}
        self.memo = {}
        self.sorts = {}
        self.quants = {}             # values of quantified terms, by the bound variables they depend on

    def sorted_seq(self, name):
        """the sorted sequence `name` belongs to: list of rows {field: value}"""
        import order
        pre, _, f = name.rpartition('.')
        if pre not in self.sorts:
            fields = [k for k in order.SORTED if k.startswith(pre + '.')]
            s = order.SORTED[fields[0]]
            cmp = s.get('cmp')
            if s.get('key') is None and cmp is None: raise Unint('sort order')
            n = self.node(s['n'])
            if not isinstance(n, int) or n > 12000: raise Unint('sort size')
            rows = []
            j = Atom('sym', ('$o',), 'i')
            vals = {k: order.pre_value(k, Poly.atom(j)) for k in fields}
            for i in range(n):
                at = self.sub(j, i)
                rows.append({k: at.node(v) for k, v in vals.items()})
            if any(isinstance(x, float) and math.isnan(x) for r in rows for x in r.values()): raise Unint('sorting nan')
            if s.get('key') is not None:
                key = [k for k in fields if order.field_of(k) == s['key']][0]
                rows.sort(key=lambda r: r[key])
            else:
                import functools
                by = {order.field_of(k): k for k in fields}
                def less(x, y):
                    env = {}
                    for off, p, q in cmp[1]:
                        if p is not None and p.single_atom() is not None: env[p.single_atom()] = x[by[off]]
                        if q is not None and q.single_atom() is not None: env[q.single_atom()] = y[by[off]]
                    env['strict'] = True
                    return Interp(0, env).node(cmp[0])
                rows.sort(key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else (1 if less(y, x) else 0)))
            self.sorts[pre] = rows
        return self.sorts[pre]

    # -- helpers
    def sub(self, bv, v):
        COUNT[0] += 1
        if COUNT[0] % 256 == 0 and DEADLINE[0] and time.time() > DEADLINE[0]: raise Unint('time')
        i = type(self)(self.seed, self.env, self.funs, self.arrays)
        if hasattr(self, 'world'): i.world = self.world
        i.env[bv] = v; i.strict = self.strict; i.sorts = self.sorts; i.scale = self.scale; i.quants = self.quants
        return i

    def node(self, n):
        while n.atom is not None:
            n = n.hi if self.batom(n.atom) else n.lo
        return self.payload(n.leaf)

    def payload(self, v):
        if isinstance(v, Poly): return self.poly(v)
        if isinstance(v, Ptr): return ('ptr', self.key(v.obj), rnd(self.poly(v.off)))
        if isinstance(v, Agg): return tuple(self.node(x) for x in v.el)
        if isinstance(v, Opq): return ('opq', self.key(v.key))
        if isinstance(v, Arr): return ('arr', str(v))
        raise Unint(repr(v))

    def key(self, x):
        if isinstance(x, Node): return rnd(self.node(x))
        if isinstance(x, Poly): return rnd(self.poly(x))
        if isinstance(x, Atom): return rnd(self.atom(x))
        if isinstance(x, (Ptr, Agg, Opq, Arr)): return self.payload(x)
        if isinstance(x, (tuple, list)): return tuple(self.key(y) for y in x)
        return str(x)

    def poly(self, p):
        a = p.single_atom()
        if a is not None and a.kind == 'plan': return (a.args[0],) + tuple(self.key(x) for x in a.args[1:])
        if a is not None:
            x = self.atom(a)
            if isinstance(x, float): return x         # as it is: arithmetic quiets a signalling NaN
            if isinstance(x, Fraction) and x.denominator == 1: x = int(x)
            return x
        s = 0
        for k, v in p.m.items():
            t = v
            for a, e in k:
                x = self.atom(a)
                if e < 0:
                    if x == 0: raise Unint('1/0')
                    if isinstance(x, int): x = Fraction(x)
                try: t = t * x ** e
                except OverflowError: raise Unint('overflow')
            s = s + t
        if isinstance(s, Fraction) and s.denominator == 1: s = int(s)
        return s

    def atom(self, a):
        if a.kind == 'sym':
            v = self.env.get(a)
            if v is None:
                nm = a.args[0]
                if nm == 'INF': return math.inf
                if isinstance(nm, str) and (nm.startswith('@') or nm.startswith('$')): raise Unint('free bound ' + nm)
                if self.strict: raise Unint('unknown state %s' % nm)
                v = self.default(a)
                self.env[a] = v
            return v
        if a.kind == 'sum':
            key = (a, tuple(self.env.get(x) for x in bound_in(a)))
            if key not in self.quants: self.quants[key] = self.sum(a)
            return self.quants[key]
        return self.other(a)

    def sum(self, a):
            bv, n, body = a.args
            n = self.poly(n)
            if n > MAXSUM: raise Unint('long sum')
            s = 0
            for i in range(int(n)): s = s + self.sub(bv, i).node(body)
            return s

    def gload(self, a):
        """contents of a global variable after the calls of the history"""
        name, off = a.args; hist = self.env.get('hist')
        off = self.poly(off) if isinstance(off, Poly) else off
        h = HISTORY.get((name, off))
        if hist is None or h is None: raise Unint('global %s' % name)
        if not hist:
            if h['init'] is None: raise Unint('global %s' % name)
            return self.node(h['init'])
        if 'prev' not in hist[0]:
            e = dict(hist[0]['env']); e['hist'] = hist[1:]; e['strict'] = self.strict
            hist[0]['prev'] = type(self)(hist[0].get('seed', 1), e)
            if hasattr(self, 'world'): hist[0]['prev'].world = self.world
        prev = hist[0]['prev']
        for pc, v in h['finals']:
            if prev.node(pc): return prev.node(v)
        return prev.gload(a)

    def other(self, a):
        k = a.kind
        if k == 'gload' and 'hist' in self.env: return self.gload(a)
        if k in BINDERS:
            bv, n, body = a.args[:3]
            n = int(self.poly(n))
            if n > MAXSUM: raise Unint('long range')
            if k == 'first':
                for i in range(n):
                    if self.sub(bv, i).node(body): return i
                return n
            vals = [self.sub(bv, i).node(body) for i in range(max(n, 0))]
            if k == 'maxof': return max(vals) if vals else 0
            if k == 'minof': return min(vals) if vals else 0
            return self.unint(k, (n, tuple(rnd(v) for v in vals)) + tuple(self.key(x) for x in a.args[3:]), a.sort)
        args = a.args
        if HARD[0] and k == 'sel' and str(args[0]).startswith('uninit'): raise Unint('unwritten')
        if k == 'sel' and args[0] in self.arrays:
            i = self.poly(args[1]); l = self.arrays[args[0]]
            if isinstance(i, int) and 0 <= i < len(l): return l[i]
            return hsh(self.seed, 'oob', args[0], rnd(i))     # decision order may look at elements the formula then ignores
        if k == 'sel' and isinstance(args[0], str) and args[0].startswith('sorted#'):
            l = self.sorted_seq(args[0]); i = self.poly(args[1])
            if isinstance(i, int) and 0 <= i < len(l): return l[i][args[0]]
            return int(4 * hsh(self.seed, 'oob', args[0], rnd(i))) if a.sort == 'i' else hsh(self.seed, 'oob', args[0], rnd(i))
        if k == 'sel' and args[0] in self.scale: return self.scale[args[0]][0] + self.scale[args[0]][1] * self.unint(k, tuple(self.key(x) for x in args), 'r')
        if self.strict and (k == 'sel' or k not in FUNS and k not in ('len', 'zext', 'trunc')): raise Unint('unknown ' + k)
        if k == 'len' and ('len', args[0]) in self.arrays: return self.arrays[('len', args[0])]
        f = FUNS.get(k)
        if f and all(isinstance(x, Poly) for x in args):
            try: return f(*[self.poly(x) for x in args])
            except (ValueError, OverflowError, ZeroDivisionError): raise Unint(k)
        if k in ('zext', 'trunc') and len(args) == 2 and isinstance(args[0], Poly):
            w = int(''.join(c for c in str(args[1]) if c.isdigit()) or 0); v = self.poly(args[0])
            if isinstance(v, int) and w: return v % (1 << w) if k == 'zext' else (v + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
        if k in self.funs: return self.funs[k](self, a)
        if HARD[0] is True and k != 'sel': raise Unint('unknown ' + k)
        return self.unint(k, tuple(self.key(x) for x in args), a.sort)

    def unint(self, k, args, sort):
        h = hsh(self.seed, k, args)
        if sort == 'i': return int(h * 1000)
        return h

    def default(self, a):
        h = hsh(self.seed, 'sym', a.args)
        if a.sort == 'i': return int(h * 13)
        return h * 3

    def batom(self, b):
        k = b.kind
        if k in ('le0', 'fle', 'flt', 'eq0', 'feq'):
            v = self.poly(b.args)
            if isinstance(v, float) and 0 < abs(v) < 1e-12 and not ROUND[0] and len(b.args.m) > 1:
                top = max(abs(self.poly(Poly({m: c}))) for m, c in b.args.m.items())
                if abs(v) <= 4e-16 * top: ROUND[0] = True
            return v <= 0 if k in ('le0', 'fle') else v < 0 if k == 'flt' else v == 0
        if k == 'exists':
            bv, n, body = b.args
            n = int(self.poly(n))
            if n > MAXSUM: raise Unint('long exists')
            return any(self.sub(bv, i).node(body) for i in range(n))
        if k == 'true':
            x = self.key(b.args)
            return bool(x[0] if isinstance(x, tuple) and len(x) == 1 else x)
        if k == 'isnan':
            x = b.args[0] if isinstance(b.args, tuple) else b.args
            x = self.poly(x) if isinstance(x, Poly) else self.node(x)
            return isinstance(x, float) and math.isnan(x)
        if self.strict: raise Unint('unknown decision ' + k)
        return hsh(self.seed, k, self.key(b.args)) < 0.5


_BOUND = {}


def bound_in(a):
    """bound variables of enclosing operators a term mentions"""
    r = _BOUND.get(a)
    if r is None:
        r = _BOUND[a] = tuple(sorted((x for x in syms_of(a) if isinstance(x, Atom) and str(x.args[0])[:1] in '@$'), key=str))
    return r


def _pow(x, e):
    if isinstance(e, int) and e >= 0: return x ** e if not isinstance(x, float) or x or e else 1
    if isinstance(e, int) and isinstance(x, int): x = Fraction(x)
    r = x ** e
    if isinstance(r, complex): raise ValueError
    return r


def _bits(x): return struct.unpack('<q', struct.pack('<d', float(x)))[0]


def _nan(b): return struct.unpack('<d', struct.pack('<Q', b))[0]


NANS = [math.nan, _nan(0xfff8000000000000), _nan(0x7ff4000000000000), _nan(0x7ff0000000000001), _nan(0xfff0000000000001), _nan(0x7fffffffffffffff)]


def _pois(l, k):
    if k < 0 or l < 0: raise ValueError
    l = float(l)
    if l == 0: return 1.0 if k == 0 else 0.0
    return math.exp(-l + k * math.log(l) - math.lgamma(k + 1))


FUNS = {
    'exp': lambda x: math.exp(x), 'log': lambda x: math.log(x), 'sqrt': lambda x: math.sqrt(x),
    'inv': lambda x: 1 / Fraction(x) if isinstance(x, (int, Fraction)) else 1.0 / x,
    'lgamma': lambda x: math.inf if x <= 0 and x == int(x) else math.lgamma(x), 'tgamma': lambda x: math.gamma(x), 'log2': lambda x: math.log2(x), 'exp2': lambda x: 2.0 ** x, 'expm1': lambda x: math.expm1(x), 'log1p': lambda x: math.log1p(x), 'fdiv': lambda p, c: p // c, 'toint': lambda x: int(x),
    'pois': _pois, 'fabs': lambda x: abs(x), 'floor': lambda x: math.floor(x), 'ceil': lambda x: math.ceil(x),
    'irem': lambda a, b: int(math.fmod(a, b)), 'factorial': lambda n: math.factorial(n),
    'double': lambda x: float(x),
    'float': lambda x: struct.unpack('f', struct.pack('f', float(x)))[0],
    'pow': lambda x, e: _pow(x, e), 'pow2': lambda e: Fraction(2) ** e if isinstance(e, int) and abs(e) < 20000 else 2.0 ** e,
    'fbits': lambda x: _bits(x), 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
    'frexp_e': lambda x: math.frexp(x)[1], 'frexp_m': lambda x: math.frexp(x)[0],
}


def unknown_syms(n):
    """symbols introduced by imprecision (loop state that was not summarised, unmodelled calls)"""
    out = set()
    for s in syms_of(n):
        if isinstance(s, Atom):
            nm = s.args[0]
            if isinstance(nm, str) and nm.startswith(('junk:', 'stale:')): continue      # contents the environment may choose
            if isinstance(nm, str) and (nm.startswith('phi') or '~' in nm or nm.startswith('havoc')): out.add(nm)
        elif isinstance(s, tuple) and s[0] == 'arr' and str(s[1]).startswith(('junk:', 'stale:')): continue
        elif isinstance(s, tuple) and s[0] == 'arr' and ('~' in str(s[1]) or 'havoc' in str(s[1])): out.add(s[1])
    return out


FLOOR = [1e-3]      # differences of values far below this do not count


def close(x, y):
    if x == y: return True
    if isinstance(x, (int, float, Fraction)) and isinstance(y, (int, float, Fraction)):
        x, y = float(x), float(y)
        if math.isnan(x) or math.isnan(y): return True
        return abs(x - y) <= 1e-7 * max(FLOOR[0], abs(x), abs(y))
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y): return all(close(a, b) for a, b in zip(x, y))
    return False


def differ(a, b, pre=TRUE, envs=None, n=60, seed=1, need=1):
    """witness environment on which a and b differ while pre holds, or None"""
    tried = 0
    EXTRA[:] = [c for c in consts_of(a) + consts_of(b) if 8 < c < 10000][:8]
    REALS[:] = real_consts(a) + real_consts(b)
    for k in range(n):
        e = envs(k) if envs else None
        if HISTORY: e = dict(e or {'arrays': {}}); e['hist'] = history(lambda j: envs(j) if envs else {'arrays': {}}, k)
        it = Interp(seed * 1000 + k, e)
        try:
            if pre is not TRUE and not it.node(pre): continue
            x, y = it.node(a), it.node(b)
        except Unint: continue
        tried += 1
        if not close(x, y): return it, x, y
    return None if tried >= need else False


def consts_of(n, cap=5000):
    """integer constants occurring in the decisions of n"""
    out = set()
    seen = set()
    def rec(x):
        if id(x) in seen: return
        if isinstance(x, (Node, Poly, Atom, BAtom)): seen.add(id(x))
        if isinstance(x, Node):
            if x.atom is None: rec(x.leaf)
            else: rec(x.atom); rec(x.hi); rec(x.lo)
        elif isinstance(x, Poly):
            for k, v in x.m.items():
                if not k and abs(v) >= 2 and abs(v) < cap: out.add(abs(int(v)))
                for a, e in k: rec(a)
        elif isinstance(x, Atom):
            for y in x.args: rec(y)
        elif isinstance(x, BAtom): rec(x.args)
        elif isinstance(x, tuple):
            for y in x: rec(y)
        elif isinstance(x, (int, Fraction)) and x >= 2 and x < cap: out.add(int(x))
    rec(n)
    return sorted(out)


def real_consts(n):
    """values a single real quantity is compared with"""
    out, seen = set(), set()
    def rec(n):
        if n.atom is None or n in seen: return
        seen.add(n)
        p = n.atom.args
        if n.atom.kind in ('flt', 'fle', 'feq') and isinstance(p, Poly) and len(p.m) <= 4:
            c = p.m.get((), 0); rest = [(k, v) for k, v in p.m.items() if k]
            if c and rest and all(len(k) == 1 for k, v in rest): out.update(float(-c / v) for k, v in rest)
        rec(n.hi); rec(n.lo)
    rec(n)
    return sorted(out)[:12]


def history(env, k):
    """earlier calls, as environments: none, one like this one, one nearly like it, two others"""
    if not HISTORY: return []
    out = []
    def call(j, change=None):
        try: e = env(j)
        except Exception: return
        if e is None: return
        e = dict(e)
        if change: change(e)
        out.append(dict(env=e, seed=j))
    def tweak(e):
        r = random.Random(k)
        for a, v in list(e.items()):
            if isinstance(v, float): e[a] = v * (1 + 10 ** -r.uniform(3, 12))
            elif isinstance(v, int) and not isinstance(v, bool) and isinstance(a, Atom) and r.random() < .2: e[a] = v + 1
        ls = {}
        for n, l in e.get('arrays', {}).items():
            ls[n] = l
            if isinstance(l, list) and l and r.random() < .7:
                i = r.randrange(len(l)); ls[n] = l[:i] + [(l[i - 1] if i else 0.0) if r.random() < .5 else (l[i] + (l[i + 1] if i + 1 < len(l) else 1.0)) / 2] + l[i + 1:]
        e['arrays'] = ls
    m = k % 4
    if m == 1: call(k + 1)
    elif m == 2: call(k, tweak)
    elif m == 3: call(k + 2); call(k + 5)
    return out


def witness_str(it, limit=8):
    out = ['%s=[%s]' % (k, ', '.join('%.4g' % x for x in l[:10]) + (', ...' if len(l) > 10 else '')) for k, l in it.arrays.items() if isinstance(k, str)]
    for a, v in it.env.items():
        if isinstance(a, Atom) and not str(a.args[0]).startswith('@'): out.append('%s=%s' % (a, v if not isinstance(v, float) else '%.4g' % v))
    h = it.env.get('hist')
    return ', '.join(sorted(out)[:limit]) + (' after %d earlier call%s, the last with %s' % (len(h), 's'[len(h) == 1:], witness_str(Interp(0, h[0]['env']), 4)) if h else '')


def valid_list(r, n, flavour):
    """a boundary list: sorted, inside [0,1], with ties and elements at the ends"""
    base = [r.random() for _ in range(n)]
    if flavour == 1: base = [r.choice([0.0, 0.25, 0.5, 0.75, 1.0]) for _ in range(n)]
    elif flavour == 2: base = [r.choice([0.0, 1.0]) for _ in range(n)]
    elif flavour == 3:
        c = r.random()
        base = [min(1.0, c + r.random() * 1e-9) for _ in range(n)]
    elif flavour == 5:
        x = 0.0; base = []
        for _ in range(n):
            x = min(1.0, x + 10 ** -r.uniform(0.5, 17)); base.append(x)
    return sorted(base)


def literals(n):
    """decisions that hold wherever boolean node n does"""
    out = []
    while n.atom is not None:
        if n.lo is FALSE: out.append((n.atom, True)); n = n.hi
        elif n.hi is FALSE: out.append((n.atom, False)); n = n.lo
        else: break
    return out


def choose(ivs, lits, env, it, r, top, m):
    """values for the integer symbols, one after the other, each within the bounds the linear conjuncts leave"""
    lin = []
    for a, val in lits:
        if a.kind == 'le0' and isinstance(a.args, Poly): lin.append(a.args if val else ONE - a.args)
        elif a.kind == 'eq0' and val: lin += [a.args, -a.args]
    order_ = list(ivs); r.shuffle(order_)
    for v in order_:
        lo, hi = (0 if r.random() < .8 else -2), None
        for p in lin:
            w = p.without(v)
            if w is None or not w[0].is_const(): continue
            c, rest = w[0].cval(), w[1]
            if c == 0 or any(x in ivs and x not in env for x in syms_of(rest)): continue
            try: b = Interp(it.seed, env, it.funs, it.arrays).poly(rest)
            except Unint: continue
            if not isinstance(b, (int, Fraction)): continue
            if c > 0:
                u = math.floor(Fraction(-b) / c); hi = u if hi is None else min(hi, u)
            else:
                l = math.ceil(Fraction(b) / -c); lo = max(lo, l)
        if hi is None: hi = lo + top
        if hi < lo: return False
        hi = min(hi, lo + 4 * top) if r.random() < .7 else hi
        env[v] = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), min(max(lo, m + r.choice([0, 0, 0, -1, 1])), hi)])
    return True


def some_path(n, r):
    """the decisions on a random path of n that does not end in FALSE"""
    out = []
    while n.atom is not None:
        v = n.lo is FALSE or n.hi is not FALSE and r.random() < .5
        out.append((n.atom, v)); n = n.hi if v else n.lo
    return out


def slopes(p, ivs):
    """how the value of p moves with each integer symbol, also inside rounded divisions"""
    out = {}
    for k, v in p.m.items():
        if len(k) != 1 or k[0][1] != 1: continue
        a = k[0][0]
        if a in ivs: out[a] = out.get(a, 0) + v
        elif a.kind == 'fdiv':
            q, c = a.args; c = c.cval() if isinstance(c, Poly) else c
            for x, y in slopes(q, ivs).items(): out[x] = out.get(x, 0) + Fraction(v) * y / c
    return out


def repair(lits, env, seed, ivs, r):
    """moves integer symbols until the linear decisions hold; False if that does not succeed"""
    lin = []
    for a, val in lits:
        if a.kind == 'le0' and isinstance(a.args, Poly): lin.append(a.args if val else ONE - a.args)
        elif a.kind == 'eq0' and val and isinstance(a.args, Poly): lin += [a.args, -a.args]
    for _ in range(60):
        it = Interp(seed, env); bad = []
        for p in lin:
            v = it.poly(p)
            if isinstance(v, (int, Fraction)) and v > 0: bad.append((p, v))
        if not bad: return True
        p, v = r.choice(bad)
        sl = [x for x in slopes(p, ivs).items() if x[1]]
        if not sl: return False
        a, c = r.choice(sl)
        d = -Fraction(v) / c
        d = math.floor(d) if d < 0 else math.ceil(d)
        env[a] += d + (r.choice([0, 0, 1, 2, 40]) if d > 0 else -r.choice([0, 0, 1, 2, 40]))
    return False


def admits(goal, facts, names=(), n=8000, seed=7, ints=None, strict=False, unshaped=False):
    """a valuation of the free symbols satisfying facts and goal (None if the sampling finds none); `names` are
    the list parameters (all of the same length, valid)"""
    if goal is FALSE or not unshaped and not UNSHAPED.isdisjoint(syms_of(goal)): return None
    both = [a for a in syms_of(goal) | syms_of(facts) if isinstance(a, Atom)]
    ivs = sorted((a for a in both if a.kind == 'sym' and a.sort == 'i'), key=str)
    cs = [c for c in consts_of(goal) + consts_of(facts) if c > 3][:10]
    both_ = b_and(goal, facts)
    if both_ is FALSE: return None
    lits = literals(both_) + literals(facts) + literals(goal)
    for k in range(n):
        r = random.Random(seed * 5003 + k)
        top = r.choice([2, 3, 3, 4, 5, 6, 9, 14])
        big = r.choice(cs) if cs and r.random() < .25 else 0
        env = {}
        m = r.randrange(0, top + 1)
        if big and r.random() < .5 and big <= 600: m = max(0, big + r.randrange(-2, 4))
        elif big and names and big <= 110 and k < 1500 and r.random() < .3: m = (big + r.randrange(-2, 3)) ** 2 + r.randrange(-1, 2 * big)
        for a in ivs:
            env[a] = r.randrange(0 if r.random() < .9 else -2, top)
            x = r.random()
            if big and x < .4:
                c = big if r.random() < .6 else r.choice(cs)
                env[a] = r.choice([c, c, c, c // 2, c // 4, 2 * c]) + r.randrange(-2, 3)
            elif x < .6: env[a] = r.choice([m, m, m - 1, m + 1, 2 * m])
        fl = r.randrange(7)
        env['arrays'] = {}
        for j, nm in enumerate(names):
            l = valid_list(r, m, fl)
            if fl == 6: l = [x * .01 if j == 0 and len(names) > 1 else 1 - (1 - x) * .01 for x in l]      # the widest windows
            env['arrays'][nm + '_data'] = l; env['arrays'][('len', nm)] = m
        env['strict'] = strict
        if k % 2 and lits:
            keep = {x: env[x] for x in ('arrays', 'strict')}
            it = Interp(seed * 1000 + k, dict(keep))
            e2 = {}
            try:
                if not choose(ivs, lits, e2, it, r, top, m): continue
            except Unint: continue
            env = dict(e2, **keep)
        elif k % 4 == 2 and k < 1200 and both_:
            try:
                if not repair(some_path(both_, r), env, seed * 1000 + k, set(ivs), r): continue
            except Unint: continue
        it = Interp(seed * 1000 + k, env)
        try:
            if it.node(goal) and it.node(facts): return it
        except Unint: continue
    return None

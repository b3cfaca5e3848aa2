"""A bit-precise abstract domain for straight-line and constant-loop integer code.  Each bit of a word is a polynomial over
GF(2) (a set of monomials, a monomial being a set of atoms), which is a canonical form: two expressions that are built from
xor, and, or, not, shifts and selections are the same function exactly when their polynomials are equal.  Sums and products
of unknown words, and comparisons, are atoms that are identified by the (canonical) words they are applied to.

Paths of the function are followed separately; where a branch depends on unknown bits, both sides are followed and the
final memories are joined by that condition.  Nothing of the program is executed: every word is symbolic."""
import struct

ZERO = frozenset(); ONE = frozenset([frozenset()])
ATOMS = []; KEY = {}; LIMIT = 20000


class Unknown(Exception):
    pass


def atom(*key):
    i = KEY.get(key)
    if i is None: i = KEY[key] = len(ATOMS); ATOMS.append(key)
    return frozenset([frozenset([i])])


def bx(a, b): return a ^ b


def band(a, b):
    if not a or not b: return ZERO
    if a == ONE: return b
    if b == ONE: return a
    if a == b: return a
    if len(a) * len(b) > LIMIT: raise Unknown('too large a product of bits')
    out = set()
    for x in a:
        for y in b:
            m = x | y
            if m in out: out.remove(m)
            else: out.add(m)
    return frozenset(out)


def bnot(a): return a ^ ONE
def bor(a, b): return a ^ b ^ band(a, b)
def bite(c, a, b): return a if a == b else b ^ band(c, a ^ b)


def const(v, w): return tuple(ONE if v >> i & 1 else ZERO for i in range(w))


def value(x):
    """the number a word is, if it is a constant"""
    v = 0
    for i, b in enumerate(x):
        if b == ONE: v |= 1 << i
        elif b: return None
    return v


def sval(x):
    v = value(x)
    return None if v is None else v - (1 << len(x)) if v >> len(x) - 1 & 1 else v


def word(name, w): return tuple(atom('in', name, i) for i in range(w))


def wmap(f, a, b): return tuple(f(x, y) for x, y in zip(a, b))
def xor(a, b): return wmap(bx, a, b)
def and_(a, b): return wmap(band, a, b)
def or_(a, b): return wmap(bor, a, b)
def ite(c, a, b): return tuple(bite(c, x, y) for x, y in zip(a, b))
def shl(a, k): return (ZERO,) * min(k, len(a)) + a[:max(0, len(a) - k)]
def shr(a, k): return a[k:] + (ZERO,) * min(k, len(a))
def ashr(a, k): return a[min(k, len(a) - 1):] + (a[-1],) * min(k, len(a) - 1)


def opaque(op, w, *args): return tuple(atom('bit', i, op, args) for i in range(w))


def order(a, b): return tuple(sorted((a, b), key=lambda w: [sorted(sorted(m) for m in x) for x in w]))


def add(a, b):
    w = len(a); x, y = value(a), value(b)
    if x is not None and y is not None: return const(x + y & (1 << w) - 1, w)
    if x == 0: return b
    if y == 0: return a
    if all(not p or not q for p, q in zip(a, b)): return xor(a, b)
    return opaque('add', w, *order(a, b))


def neg(a):
    if all(not x for x in a[1:]): return (a[0],) * len(a)        # 0 - bit
    if len(set(a)) == 1: return (a[0],) + (ZERO,) * (len(a) - 1)  # 0 - (all ones or zero)
    v = value(a)
    return const(-v & (1 << len(a)) - 1, len(a)) if v is not None else opaque('sub', len(a), const(0, len(a)), a)


def sub(a, b):
    w = len(a); x, y = value(a), value(b)
    if x is not None and y is not None: return const(x - y & (1 << w) - 1, w)
    if y is not None: return add(a, const(-y & (1 << w) - 1, w))
    if x == 0: return neg(b)
    if all(p == q or not q for p, q in zip(a, b)): return xor(a, b)
    return opaque('sub', w, a, b)


def mul(a, b):
    w = len(a); x, y = value(a), value(b)
    if x is not None and y is not None: return const(x * y & (1 << w) - 1, w)
    for p, q in ((a, b), (b, a)):
        if all(not t for t in p[1:]): return tuple(band(p[0], t) for t in q)
        v = value(p)
        if v is not None and v & v - 1 == 0: return shl(q, v.bit_length() - 1)
        if v == (1 << w) - 1: return neg(q)
    return opaque('mul', w, *order(a, b))


def is_zero(a):
    out = ONE
    for b in sorted(set(a), key=len):
        if b == ONE: return ZERO
        if not b: continue
        out = band(out, bnot(b) if len([x for x in a if x]) <= 2 else atom('isz', b))
    return out


def cmp_(pred, a, b):
    x, y = value(a), value(b)
    if pred in ('eq', 'ne'):
        z = is_zero(xor(a, b))
        return z if pred == 'eq' else bnot(z)
    if x is not None and y is not None:
        if pred[0] == 's': x, y = sval(a), sval(b)
        return ONE if {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]] else ZERO
    if pred == 'slt' and y == 0: return a[-1]
    if pred == 'sgt' and y == (1 << len(a)) - 1: return bnot(a[-1])
    if pred == 'ult' and x == 0: return bnot(is_zero(b))
    if pred == 'ugt' and y == 0: return bnot(is_zero(a))
    if pred[1:] in ('gt', 'le'): pred, a, b = pred[0] + {'gt': 'lt', 'le': 'ge'}[pred[1:]], b, a
    l = atom('cmp', pred[0] + 'lt', (a, b))
    return l if pred[1:] == 'lt' else bnot(l)


# real values: ('real', op, arguments), the bits of a word among them
def fconst(v): return ('c', float(v))


def fop(op, *a):
    if op == 'fsub' and a[1][0] == 'c': op, a = 'fadd', (a[0], fconst(-a[1][1]))
    if op == 'fneg' and a[0][0] == 'c': return fconst(-a[0][1])
    if all(x[0] == 'c' for x in a) and op in ('fadd', 'fsub', 'fmul'): return fconst({'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y}[op](a[0][1], a[1][1]))
    if op in ('fadd', 'fmul'): a = tuple(sorted(a, key=lambda t: t[0] == 'c'))
    return ('real', op) + tuple(a)


# ---------------------------------------------------------------- values under an assignment of the input bits
class Value:
    def __init__(self, inputs): self.inputs = inputs; self.memo = {}; self.words = {}

    def bit(self, b):
        s = 0
        for m in b:
            if all(self.atom(i) for i in m): s ^= 1
        return s

    def word(self, x):
        k = self.words.get(x)
        if k is None: k = self.words[x] = sum(self.bit(b) << i for i, b in enumerate(x))
        return k

    def atom(self, i):
        v = self.memo.get(i)
        if v is None:
            k = ATOMS[i]
            if k[0] == 'in': v = self.inputs[k[1]] >> k[2] & 1
            elif k[0] == 'isz': v = 1 - self.bit(k[1])
            elif k[0] == 'bit': v = self.op(k[2], k[3]) >> k[1] & 1
            elif k[0] == 'cmp':
                a, b = k[2]; w = len(a); x, y = self.word(a), self.word(b)
                if k[1][0] == 's': x, y = x - (x >> w - 1 << w), y - (y >> w - 1 << w)
                v = int(x < y)
            self.memo[i] = v
        return v

    def op(self, op, args):
        if op in ('f2i',): return int(self.real(args[0]))
        w = len(args[0]); x, y = (self.word(a) for a in args); M = (1 << w) - 1
        if op == 'add': return x + y & M
        if op == 'sub': return x - y & M
        if op == 'mul': return x * y & M
        if op == 'shl': return x << y & M if y < w else 0
        if op == 'lshr': return x >> y if y < w else 0
        if op == 'udiv': return x // y if y else 0
        if op == 'urem': return x % y if y else 0
        raise Unknown(op)

    def real(self, x):
        if x[0] == 'c': return x[1]
        op, a = x[1], x[2:]
        if op == 'bits':
            return struct.unpack('<d', struct.pack('<Q', self.word(a[0])))[0]
        if op == 'u2f': return float(self.word(a[0]))
        if op == 's2f':
            v = self.word(a[0]); w = len(a[0]); return float(v - (v >> w - 1 << w))
        v = [self.real(y) for y in a]
        if op == 'fadd': return v[0] + v[1]
        if op == 'fsub': return v[0] - v[1]
        if op == 'fmul': return v[0] * v[1]
        if op == 'fdiv': return v[0] / v[1] if v[1] else float('inf')
        if op == 'fneg': return -v[0]
        raise Unknown(op)


# ---------------------------------------------------------------- the function's paths
class Run:
    """memory: (object, byte offset) -> list of 8 bits; loops have constant bounds"""

    def __init__(self, func, init=None, steps=40000):
        self.f = func; self.init = init or (lambda o, k: None); self.steps = steps; self.ends = []; self.objs = 0

    def run(self, args):
        env = {p['i']: a for p, a in zip(self.f.params, args)}
        self.work = [(self.f.entry, None, env, {}, ONE)]
        while self.work: self.path(*self.work.pop())
        if not self.ends: raise Unknown('no path returns')
        return self.ends

    def val(self, o, env):
        k = o['k']
        if k == 'v': return env[o['i']]
        if k == 'int': return const(int(o['v']) & (1 << o['w']) - 1, o['w'])
        if k == 'fp': return fconst(float(o['v']))
        if k in ('undef', 'poison'): return None
        if k == 'null': return ('ptr', None, 0)
        raise Unknown('operand %s' % k)

    def load(self, mem, p, n):
        if not p or p[0] != 'ptr' or p[1] is None: raise Unknown('load from an unknown address')
        out = ()
        for k in range(p[2], p[2] + n):
            b = mem.get((p[1], k))
            if b is None:
                b = self.init(p[1], k)
                if b is None: raise Unknown('read of uninitialised memory')
            out += b
        return out

    def path(self, blk, prev, env, mem, pc):
        env = dict(env); mem = dict(mem)
        while True:
            B = self.f.blocks[blk]
            phis = {}
            for ins in B.ins:
                if ins.op != 'phi': break
                phis[ins.id] = next(self.val(o, env) for o, b in ins.d['in'] if b == prev)
            env.update(phis)
            for ins in B.ins:
                self.steps -= 1
                if self.steps < 0: raise Unknown('too long a path')
                if ins.op == 'phi': continue
                r = self.ins(ins, env, mem)
                if isinstance(r, Jump): break
                env[ins.id] = r
            if not isinstance(r, Jump): raise Unknown('block without an end')
            if r.kind == 'ret':
                self.ends.append((pc, r.val, mem)); return
            if r.kind == 'br': prev, blk = blk, r.val; continue
            c, t, e = r.val
            if c == ONE: prev, blk = blk, t; continue
            if not c: prev, blk = blk, e; continue
            if len(self.work) > 200: raise Unknown('too many paths')
            n = band(pc, bnot(c)); y = band(pc, c)
            if n: self.work.append((e, blk, env, dict(mem), n))
            if not y: return
            pc = y; prev, blk = blk, t

    def ins(self, ins, env, mem):
        op, d = ins.op, ins.d
        V = lambda i: self.val(d['ops'][i], env)
        if op == 'ret': return Jump('ret', V(0) if d['ops'] else None)
        if op == 'br':
            bbs = ins.d['ops']
            if len(bbs) == 1: return Jump('br', bbs[0]['i'])
            s = self.f.blocks[ins.blk].succ
            return Jump('cond', (V(0)[0], s[0], s[1]))
        if op == 'switch': raise Unknown('switch')
        if op in ('xor', 'and', 'or', 'add', 'sub', 'mul'):
            a, b = V(0), V(1)
            if a is None or b is None: raise Unknown('undefined operand')
            return {'xor': xor, 'and': and_, 'or': or_, 'add': add, 'sub': sub, 'mul': mul}[op](a, b)
        if op in ('shl', 'lshr', 'ashr'):
            a, b = V(0), V(1); k = value(b)
            if k is None:
                if op == 'ashr': raise Unknown(op)
                return opaque(op, len(a), a, b)
            return {'shl': shl, 'lshr': shr, 'ashr': ashr}[op](a, k)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            a, b = V(0), V(1); y = value(b)
            x, z = (sval(a), sval(b)) if op[0] == 's' else (value(a), value(b))
            if x is not None and z:
                q = abs(x) // abs(z) * (1 if (x < 0) == (z < 0) else -1)
                return const((q if op.endswith('div') else x - q * z) & (1 << len(a)) - 1, len(a))
            if op[0] == 'u' and y and y & y - 1 == 0:
                k = y.bit_length() - 1
                return shr(a, k) if op == 'udiv' else a[:k] + (ZERO,) * (len(a) - k)
            if op[0] == 'u': return opaque(op, len(a), a, b)
            raise Unknown(op)
        if op == 'icmp':
            a, b = V(0), V(1)
            if a and a[0] == 'ptr' or b and b[0] == 'ptr':
                if a[1] == b[1] and d['pred'] in ('eq', 'ne'): return (ONE if (a[2] == b[2]) == (d['pred'] == 'eq') else ZERO,)
                if a[1] == b[1]: return (cmp_(d['pred'], const(a[2], 64), const(b[2], 64)),)
                if d['pred'] in ('eq', 'ne'): return (ONE if d['pred'] == 'ne' else ZERO,)
                raise Unknown('comparison of addresses')
            return (cmp_(d['pred'], a, b),)
        if op == 'select':
            c = V(0)[0]; a, b = V(1), V(2)
            if c == ONE: return a
            if not c: return b
            if a is None or b is None or isinstance(a[0], str) or isinstance(b[0], str): raise Unknown('selection')
            return ite(c, a, b)
        w = int(ins.ty[1:]) if ins.ty[:1] == 'i' and ins.ty[1:].isdigit() else None
        if op == 'zext': a = V(0); return a + (ZERO,) * (w - len(a))
        if op == 'sext': a = V(0); return a + (a[-1],) * (w - len(a))
        if op == 'trunc': return V(0)[:w]
        if op == 'freeze': return V(0)
        if op == 'bitcast':
            a = V(0)
            if ins.ty == 'double' and isinstance(a[0], frozenset): return ('real', 'bits', a)
            if w and a[0] == 'real' and a[1] == 'bits': return a[2]
            raise Unknown('conversion')
        if op == 'uitofp': return ('real', 'u2f', V(0))
        if op == 'sitofp': return ('real', 's2f', V(0))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return fop(op, V(0), V(1))
        if op == 'fneg': return fop(op, V(0))
        if op == 'alloca':
            self.objs += 1; return ('ptr', 'local%d' % self.objs, 0)
        if op == 'getelementptr':
            p = self.val(d['base'], env); off = p[2] + d['coff']
            for o in d['voff']:
                o, s = o
                k = sval(self.val(o, env))
                if k is None: raise Unknown('an index that depends on the state')
                off += k * s
            return ('ptr', p[1], off)
        if op == 'load':
            n = size(ins.ty); p = V(0)
            if ins.ty == 'ptr': raise Unknown('pointer in memory')
            x = self.load(mem, p, n)
            return ('real', 'bits', x) if ins.ty == 'double' else x[:w]
        if op == 'store':
            x, p = V(0), V(1)
            if x is None: return None
            if not p or p[0] != 'ptr' or p[1] is None: raise Unknown('store to an unknown address')
            if x[0] == 'real':
                if x[1] != 'bits': raise Unknown('computed real number in memory')
                x = x[2]
            if not isinstance(x[0], frozenset): raise Unknown('store of %s' % (x[0],))
            x = x + (ZERO,) * (-len(x) % 8)
            for k in range(len(x) // 8): mem[(p[1], p[2] + k)] = x[8 * k:8 * k + 8]
            return None
        if op in ('call', 'invoke'):
            c = d['callee']
            if c.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')): return None
            A = [self.val(a, env) for a in d['args'] if a.get('k') != 'meta']
            if c.startswith(('llvm.fshl', 'llvm.fshr')):
                a, b, n = A; k = value(n)
                if k is None: raise Unknown(c)
                W = len(a); k %= W; both = b + a
                return both[W - k:2 * W - k] if 'fshl' in c else both[k:k + W]
            if c.startswith('llvm.memset'):
                n = value(A[2])
                if n is None: raise Unknown(c)
                for k in range(n): mem[(A[0][1], A[0][2] + k)] = A[1]
                return None
            if c.startswith(('llvm.memcpy', 'llvm.memmove')):
                n = value(A[2])
                if n is None: raise Unknown(c)
                x = self.load(mem, A[1], n)
                for k in range(n): mem[(A[0][1], A[0][2] + k)] = x[8 * k:8 * k + 8]
                return None
            if c.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
                a, b = A; l = cmp_(c[5] + 'lt', a, b)
                return ite(l, a, b) if 'min' in c else ite(l, b, a)
            if c.startswith('llvm.fmuladd'): return fop('fadd', fop('fmul', A[0], A[1]), A[2])
            raise Unknown('call of ' + c)
        raise Unknown(op)


class Jump:
    def __init__(self, kind, val): self.kind, self.val = kind, val


def size(ty):
    if ty in ('double', 'ptr'): return 8
    if ty[:1] == 'i' and ty[1:].isdigit(): return (int(ty[1:]) + 7) // 8
    raise Unknown('type ' + ty)


def joined(run, ends, obj, off, n, init):
    """the word at a place in memory at the end, over all paths"""
    out = None
    for pc, v, mem in ends:
        x = ()
        for k in range(off, off + n):
            b = mem.get((obj, k)); x += b if b is not None else init(obj, k)
        out = x if out is None else ite(pc, x, out)
    return out

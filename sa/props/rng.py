"""C18: the random numbers of the simulation are those of the published 64-bit TinyMT generator.  Every function of the
generator is turned into polynomials over the bits of an arbitrary generator (state and parameters) and compared with the
published algorithm, written in the same domain; the parameters are followed through the two simulations."""
import random, re
from checks import *
import bits, sim
from bits import *
from props import montecarlo

M63 = (1 << 63) - 1
STANDARD = {'mat1': 0xfa051f40, 'mat2': 0xffd0fff4, 'tmat': 0x58d02ffeffbfffbc}
WIDTH = {'status': 128, 'mat1': 32, 'mat2': 32, 'tmat': 64}
DRAWS = [('tinymt64_generate_uint64', 'uint64_t'), ('tinymt64_generate_double', 'double'), ('tinymt64_generate_double01', 'double'), ('tinymt64_generate_double12', 'double'),
         ('tinymt64_generate_doubleOC', 'double'), ('tinymt64_generate_doubleOO', 'double')]
DRIVER = os.path.join(build.VERIF, 'drivers/rng.cc')


# ---------------------------------------------------------------- the published generator
def wide(x, w=64): return x + (bits.ZERO,) * (w - len(x))
def times(bit, x): return tuple(band(bit, b) for b in x)


def published_step(g):
    s0, s1 = and_(g['s0'], const(M63, 64)), g['s1']
    x = xor(s0, s1)
    x = xor(x, shl(x, 12)); x = xor(x, shr(x, 32)); x = xor(x, shl(x, 32)); x = xor(x, shl(x, 11))
    return xor(s1, times(x[0], wide(g['mat1']))), xor(x, times(x[0], shl(wide(g['mat2']), 32)))


def published_temper(g, s0, s1):
    x = xor(add(s0, s1), shr(s0, 8))
    return xor(x, times(x[0], g['tmat']))


def published_draw(g, name):
    s0, s1 = published_step(g); y = published_temper(g, s0, s1)
    def conv(low): return ('real', 'bits', or_(shr(y, 12), const(0x3ff0000000000000 | low, 64)))
    r = {'uint64': lambda: y, 'double': lambda: fop('fmul', ('real', 'u2f', y), fconst(2.0 ** -64)), 'double12': lambda: conv(0), 'double01': lambda: fop('fsub', conv(0), fconst(1)),
         'doubleOC': lambda: fop('fsub', fconst(2), conv(0)), 'doubleOO': lambda: fop('fsub', conv(1), fconst(1))}[name]()
    return s0, s1, r


def certified(s):
    z = band(is_zero(and_(s[0], const(M63, 64))), is_zero(s[1]))
    return bits.ite(z, const(ord('T'), 64), s[0]), bits.ite(z, const(ord('M'), 64), s[1])


def published_init(g, seed):
    s = [xor(seed, shl(wide(g['mat1']), 32)), xor(wide(g['mat2']), g['tmat'])]
    for i in range(1, 8):
        p = s[i - 1 & 1]
        s[i & 1] = xor(s[i & 1], add(const(i, 64), mul(const(6364136223846793005, 64), xor(p, shr(p, 62)))))
    return certified(s)


def published_array(g, key):
    f1 = lambda x: mul(xor(x, shr(x, 59)), const(2173292883993, 64))
    f2 = lambda x: mul(xor(x, shr(x, 59)), const(58885565329898161, 64))
    n = len(key)
    st = [const(0, 64), wide(g['mat1']), wide(g['mat2']), g['tmat']]
    count = max(n + 1, 8)
    r = f1(xor(xor(st[0], st[1]), st[3]))
    st[1] = add(st[1], r); r = add(r, const(n, 64)); st[2] = add(st[2], r); st[0] = r
    i = 1; j = 0
    for j in range(count - 1):
        r = f1(xor(xor(st[i], st[(i + 1) % 4]), st[(i + 3) % 4]))
        st[(i + 1) % 4] = add(st[(i + 1) % 4], r)
        r = add(r, add(key[j], const(i, 64)) if j < n else const(i, 64))
        st[(i + 2) % 4] = add(st[(i + 2) % 4], r); st[i] = r
        i = (i + 1) % 4
    for j in range(4):
        r = f2(add(add(st[i], st[(i + 1) % 4]), st[(i + 3) % 4]))
        st[(i + 1) % 4] = xor(st[(i + 1) % 4], r)
        r = bits.sub(r, const(i, 64))
        st[(i + 2) % 4] = xor(st[(i + 2) % 4], r); st[i] = r
        i = (i + 1) % 4
    return certified((xor(st[0], st[1]), xor(st[2], st[3])))


# ---------------------------------------------------------------- the program's generator
def extracted(flags):
    units = [DRIVER] + [s for s in [os.path.join(build.REPO, 'src', 'tinymt64.cc')] if os.path.exists(s)]
    return Func(Program(build.extract(['sa_rng'], units, flags=flags)).find('sa_rng'))


def layout():
    out = {}
    for f in WIDTH:
        F = extracted(['-DSA_OFF=' + f])
        out[f] = value(Run(F).run([])[0][1])
    return out


class Generator:
    """an arbitrary generator: every bit of it is unknown"""

    def __init__(self, lay, keys=0):
        self.lay = lay
        self.g = {'s0': word('s0', 64), 's1': word('s1', 64), 'mat1': word('mat1', 32), 'mat2': word('mat2', 32), 'tmat': word('tmat', 64)}
        self.bytes = {}
        for f, off in (('s0', lay['status']), ('s1', lay['status'] + 8), ('mat1', lay['mat1']), ('mat2', lay['mat2']), ('tmat', lay['tmat'])):
            for k in range(len(self.g[f]) // 8): self.bytes['g', off + k] = self.g[f][8 * k:8 * k + 8]
        self.keys = [word('key%d' % i, 64) for i in range(keys)]
        for i, w in enumerate(self.keys):
            for k in range(8): self.bytes['key', 8 * i + k] = w[8 * k:8 * k + 8]

    def init(self, o, k): return self.bytes.get((o, k))


def linear(b):
    """(input bits, constant) when a bit is a sum of input bits"""
    c = 0; v = set()
    for m in b:
        if len(m) > 1: return None
        if not m: c = 1
        else:
            k = ATOMS[next(iter(m))]
            if k[0] != 'in': return None
            v.add(k[1:])
    return v, c


def solve(zeros, rn, names):
    """input words that make the given linear bits zero"""
    rows = []
    for b in zeros:
        l = linear(b)
        if l is None: continue
        v, c = l
        for p, (w, d) in rows:
            if p in v: v = v ^ w; c ^= d
        if v: rows.append((min(v), (v, c)))
    w = {n: rn.getrandbits(l) for n, l in names.items()}
    for p, (v, c) in reversed(rows):
        s = c
        for n, i in v:
            if (n, i) != p: s ^= w[n] >> i & 1
        w[p[0]] = w[p[0]] & ~(1 << p[1]) | s << p[1]
    return w


def conditions(things):
    """comparisons the derived words depend on"""
    out = []; seen = set(); consts = set()
    todo = list(things)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x and x[0] == 'real': todo += x[2:]; continue
        if isinstance(x, tuple) and x and x[0] == 'c': continue
        v = value(x)
        if v is not None: consts.add(v)
        for b in x:
            for m in b:
                z = [i for i in m if ATOMS[i][0] == 'isz']
                if z and frozenset(z) not in seen: seen.add(frozenset(z)); out.append([ATOMS[i][1] for i in z])
                for i in m:
                    if i in seen: continue
                    seen.add(i); k = ATOMS[i]
                    if k[0] == 'bit': todo += k[3]
                    if k[0] == 'cmp': todo += k[2]
                    if k[0] == 'isz': todo.append((k[1],))
    return out, consts


def samples(names, conds, consts, n):
    rn = random.Random(7)
    for t in range(n):
        w = {k: rn.getrandbits(l) for k, l in names.items()}
        if 'mat1' in w and t % 3: w.update(STANDARD)
        for k in w:
            if k in STANDARD: continue
            if rn.random() < .3: w[k] = rn.choice([0, 1, 2, 1 << 63, (1 << 64) - 1, M63, 1 << 32, (1 << 32) - 1, 1 << 12, rn.getrandbits(20)] + [c + d & (1 << 64) - 1 for c in sorted(consts)[:40] for d in (-1, 0, 1)])
        yield w
        if conds and t < 100:
            c = list(conds[t % len(conds)])
            for x in rn.sample(conds, min(len(conds), rn.randrange(2))): c += x
            yield solve(c, rn, names)


def compare(ck, name, got, want, names, extra=()):
    """got, want: equal-length lists of words or reals"""
    if list(got) == list(want): return ck.row(name, 'proved', '%d bits identical as polynomials over the bits of the generator' % sum(len(x) if isinstance(x[0], frozenset) else 64 for x in got))
    conds, consts = conditions(list(got) + list(want) + list(extra))
    n = 0
    try:
        for w in samples(names, conds, consts, 300):
            V = Value(w); n += 1
            for k, (a, b) in enumerate(zip(got, want)):
                x, y = ((V.word(a), V.word(b)) if isinstance(a[0], frozenset) else (V.real(a), V.real(b)))
                if x != y: return ck.row(name, 'violated', 'with %s: %s instead of %s' % (', '.join('%s=%#x' % i for i in sorted(w.items())), *(('%#x' if isinstance(v, int) else '%.17g') % v for v in (x, y))))
    except Unknown as u: return ck.row(name, 'undecided', str(u))
    ck.row(name, 'agreed', '%d generators' % n)


def analysed(ck, name, f):
    try: f()
    except Unknown as u: ck.row(name, 'undecided', str(u))
    except AnalysisError as e: ck.row(name, 'undecided', str(e).split('\n')[0][:300] + ' ' + ' '.join(l for l in str(e).split('\n') if 'error:' in l)[:300])


def final(r, ends, G, fields=('s0', 's1', 'mat1', 'mat2', 'tmat')):
    at = {'s0': (G.lay['status'], 8), 's1': (G.lay['status'] + 8, 8), 'mat1': (G.lay['mat1'], 4), 'mat2': (G.lay['mat2'], 4), 'tmat': (G.lay['tmat'], 8)}
    return [joined(r, ends, 'g', at[f][0], at[f][1], G.init) for f in fields]


def join_value(ends):
    out = None
    for pc, v, mem in ends:
        if out is None or out == v: out = v
        else: out = merged(pc, v, out)
    return out


def merged(c, a, b):
    if a == b: return a
    if isinstance(a[0], frozenset) and isinstance(b[0], frozenset) and len(a) == len(b): return bits.ite(c, a, b)
    if a[0] == b[0] == 'real' and a[1] == b[1] and len(a) == len(b): return a[:2] + tuple(merged(c, x, y) for x, y in zip(a[2:], b[2:]))
    raise Unknown('the result differs between paths')


def generator(ck):
    lay = {}
    name = 'the generator has two state words and three parameters'
    def lay_out():
        lay.update(layout())
    analysed(ck, name, lay_out)
    if not lay: return
    def names(G): return dict({k: len(v) for k, v in G.g.items()}, **{'key%d' % i: 64 for i in range(len(G.keys))}, seed=64)

    def init():
        G = Generator(lay); seed = word('seed', 64); F = extracted(['-DSA_INIT'])
        r = Run(F, G.init); ends = r.run([('ptr', 'g', 0), seed])
        a, b = published_init(G.g, seed)
        compare(ck, W, final(r, ends, G), [a, b, G.g['mat1'], G.g['mat2'], G.g['tmat']], names(G))
    W = 'tinymt64_init: state words after seeding, for every seed and parameters'; analysed(ck, W, init)

    def array():
        G = Generator(lay, k); F = extracted(['-DSA_ARRAY'])
        r = Run(F, G.init); ends = r.run([('ptr', 'g', 0), ('ptr', 'key', 0), const(k, 32)])
        a, b = published_array(G.g, G.keys)
        compare(ck, W, final(r, ends, G), [a, b, G.g['mat1'], G.g['mat2'], G.g['tmat']], names(G))
    for k in (0, 1, 2, 3, 7, 8, 9, 16) if os.environ.get('VERIF_TIER', 'quick') == 'quick' else list(range(40)) + [64, 100]:
        W = 'tinymt64_init_by_array: state words after seeding with %d words' % k; analysed(ck, W, array)

    for fn, ty in DRAWS:
        def draw():
            G = Generator(lay); F = extracted(['-DSA_DRAW=' + fn, '-DSA_TYPE=' + ty])
            r = Run(F, G.init); ends = r.run([('ptr', 'g', 0)])
            s0, s1, v = published_draw(G.g, fn.replace('tinymt64_generate_', ''))
            fin = final(r, ends, G)
            compare(ck, W + 'the next state', fin, [s0, s1, G.g['mat1'], G.g['mat2'], G.g['tmat']], names(G), [])
            res = join_value(ends)
            compare(ck, W + 'the number', [res], [v], names(G), [])
            if fn.endswith('OO'): inside(ck, W + 'the number is strictly between 0 and 1', res, names(G))
        W = '%s, for every state and parameters: ' % fn; analysed(ck, W + 'the number', draw)


def inside(ck, W, v, names):
    if v[0] == 'real' and v[1] == 'fadd' and v[3] == ('c', -1.0) and v[2][:2] == ('real', 'bits'):
        w = v[2][2]
        if value(w[52:]) == 0x3ff:
            if w[0] == bits.ONE: return ck.row(W, 'proved', 'sign and exponent bits are those of [1,2) and the lowest bit is set, minus 1')
    conds, consts = conditions([v])
    try:
        for w in samples(names, conds, consts, 300):
            x = Value(w).real(v)
            if not 0 < x < 1: return ck.row(W, 'violated', 'with %s: %.17g' % (', '.join('%s=%#x' % i for i in sorted(w.items())), x))
    except Unknown as u: return ck.row(W, 'undecided', str(u))
    ck.row(W, 'agreed', 'sampled')


# ---------------------------------------------------------------- the program's use of it
def parameters(ck, kind, root):
    W = kind + ' simulation: '
    rows = ['the generator has the standard parameters when it is seeded', 'the generator has the standard parameters at every draw', 'the numbers are drawn with a function of the generator']
    try:
        lay = layout()
        R = montecarlo.run_fn(montecarlo.role(root), [('i', 'n') if kind == 'ecdf' else ('r', 'intensity'), ('vec', 'b'), ('vec', 'B'), ('i', 'N')], sim.OPAQUE)
    except (refute.Unint, AnalysisError, Unknown) as u:
        for r in rows: ck.row(W + r, 'undecided', str(u)[:300])
        return
    ck.analysed += [montecarlo.role(root)] + R.functions()
    ev = R.ev.events
    for row, what in ((rows[0], 'seed'), (rows[1], 'draw')):
        es = [e for e in ev if e.name == what]
        if not es: ck.row(W + row, 'undecided', 'none found'); continue
        st = 'proved'; why = '%d places' % len(es)
        for e in es:
            cells, off, local = e.ret
            for f, v in STANDARD.items():
                c = cells.get(off + lay[f])
                k = c.leaf.cval() if c is not None and c.atom is None and isinstance(c.leaf, Poly) and c.leaf.is_const() else None
                if k is None and c is None and local: st, why = 'violated', '%s has not been set at %s' % (f, e.loc); break
                if k is None:
                    if st == 'proved': st, why = 'undecided', '%s at %s: %s' % (f, e.loc, str(c)[:200])
                elif int(k) % (1 << WIDTH[f]) != v: st, why = 'violated', '%s is %#x instead of %#x at %s' % (f, int(k) % (1 << WIDTH[f]), v, e.loc); break
            if st == 'violated': break
        ck.row(W + row, st, why)
    ks = sorted({str(e.args[0].leaf.key[0]) for e in ev if e.name == 'draw'})
    known = [d[0] for d in DRAWS]
    ck.row(W + rows[2], 'proved' if ks and all(any(re.search(r'(^|\d)%s($|P)' % d, k) for d in known) for k in ks) else 'undecided', ', '.join(ks))


def numbers(ck):
    ck.rule = ('every bit of the generator after seeding and after a draw, and of the number drawn, is derived as a polynomial over GF(2) in the bits of an arbitrary state, seed and parameters, '
               'and is compared with the same polynomial of the published algorithm; the parameters are followed as constants from where they are set to every seeding and draw of the simulations')
    ck.trusted += ['the published TinyMT64 algorithm is transcribed correctly in sa/props/rng.py']
    ck.analysed += ['tinymt64_init', 'tinymt64_init_by_array'] + [d[0] for d in DRAWS]
    generator(ck)
    for kind, root in zip(('ecdf', 'Poisson'), sim.ESTIMATE): parameters(ck, kind, root)

"""C01: which boundary lists are rejected.  The condition under which each entry raises an error before
computing is derived from the source as a closed formula over the list elements and compared with the
specification."""
import math, random
from checks import *
import refute

ENTRY = {'ecdf1_new_B': ['B'], 'ecdf1_new_b': ['b'], 'ecdf1_mns2016_B': ['B'], 'ecdf1_mns2016_b': ['b'], 'ecdf2': ['b', 'B']}
CORE = [x for x in contracts.OPAQUE if 'check_boundary' not in x]


def bad_list(name, n):
    """specification: the list is not a valid boundary of sample size n"""
    L = Poly.atom(Atom('len', (name,), 'i'))
    u = Atom('sym', ('$w',), 'i'); U = Poly.atom(u)
    at = lambda i: Poly.atom(Atom('sel', (name + '_data', i), 'r'))
    body = b_or(batom('isnan', at(U)), b_and(ile0(ONE - U), flt0(at(U) - at(U - ONE))))
    rng = b_and(ile0(ONE - L), b_or(flt0(at(ZERO)), flt0(ONE - at(L - ONE))))
    return b_or(b_not(ieq0(L - n)), exists(u, L, body), rng)


def make_list(rnd, n):
    l = [rnd.random() for _ in range(n)]
    for i in range(n):
        if rnd.random() < .15: l[i] = rnd.choice([0.0, -0.0, 1.0, 0.5, 5e-324, l[rnd.randrange(n)]])
    l.sort()
    kind = rnd.randrange(12)
    if n and kind >= 3:
        i = rnd.choice([0, n - 1, rnd.randrange(n), rnd.randrange(n)])
        mag = 10.0 ** -rnd.choice([0, 0, 1, 3, 6, 9, 12, 14, 15, 16, 17, 300, 323])
        if kind in (3, 4): l[i] = rnd.choice(refute.NANS)
        elif kind in (5, 6) and n > 1:
            i = max(i, 1); l[i] = min(l[i - 1] - mag * rnd.choice([1, .5]), math.nextafter(l[i - 1], -math.inf))
        elif kind == 7: l[0] = -mag
        elif kind == 8: l[-1] = max(1 + mag, math.nextafter(1.0, 2.0))
        elif kind == 9: l[i] = rnd.choice([math.inf, -math.inf, 2.0, -1.0])
        elif kind == 10: l = [x + rnd.choice([1, -1]) for x in l]
        elif kind == 11: l[0] = -mag; l[-1] = 1 + mag
    return l


def envs(names, consts, syms=()):
    sizes = [0, 1, 1, 2, 2, 3, 4, 6, 9, 17] + [c + d for c in consts for d in (-1, 0, 1) if 0 <= c + d <= 2100]
    def f(k):
        rnd = random.Random(k * 7919 + 11)
        n = rnd.choice(sizes)
        arr = {}; env = {}
        for nm in names:
            m = n if rnd.random() < .8 else max(0, n + rnd.choice([-1, 1, 2]))
            arr[nm + '_data'] = make_list(rnd, m); arr[('len', nm)] = m
        for s in syms: env[s] = n if rnd.random() < .85 else max(-2, n + rnd.choice([-1, 1, -3]))
        env['arrays'] = arr
        return env
    return f


def decide(ck, name, conds, spec, names, syms=(), n=1500):
    """conds: path conditions of the error exits"""
    R = b_or(*conds) if len(conds) < 4 else None
    if R is spec: ck.row(name, 'proved', 'the derived condition is the specified one'); return
    cs = sorted(set(c for x in conds for c in refute.consts_of(x)) | set(refute.consts_of(spec)))
    f = envs(names, cs, syms)
    tried = skipped = 0
    for k in range(n):
        e = f(k); e['strict'] = True; e['hist'] = refute.history(f, k)
        it = refute.Interp(k, e)
        s = it.node(spec)
        r = False; unk = False
        for c in conds:
            try: r = it.node(c)
            except refute.Unint: unk = True
            if r: break
        if not r and unk: skipped += 1; continue
        tried += 1
        if s and not r:
            ck.row(name, 'violated', 'an invalid list is not rejected: %s' % refute.witness_str(it)); return
        if r and not s:
            ck.row(name, 'violated', 'a valid list is rejected: %s' % refute.witness_str(it)); return
    if tried < 200: ck.row(name, 'undecided', 'the rejection condition could not be interpreted (%d of %d valuations)' % (tried, tried + skipped)); return
    ck.row(name, 'agreed', 'derived and specified condition agree under %d interpretations of the two formulas (%d not interpretable)' % (tried, skipped))


def gate(ck):
    ck.rule = ('the disjunction of the path conditions of all error exits of the validator and of each entry, as a closed formula over list length and '
               'elements, equals: length differs from n, or some element is NaN, or smaller than its predecessor, or first < 0, or last > 1')
    N = Poly.atom(Atom('sym', ('n',), 'i'))
    P = program(['drv_check'])
    r = run(P, 'drv_check', [('str', 'name'), ('i', 'n'), ('vec', 'v')])
    ck.analysed.append('check_boundary_vector')
    decide(ck, 'check_boundary_vector rejects exactly the invalid lists', [o[2] for o in r.of('throw')], bad_list('v', N), ['v'], [N.single_atom()], n=4000)
    types(ck, r, 'check_boundary_vector', ['v'], [N.single_atom()])
    nothing_else(ck, r, 'check_boundary_vector')
    for e, names in ENTRY.items():
        P = program([e], opaque=CORE)
        f = Func(P.find(e)) if P.find(e) is not None else None
        if f is None: raise AnalysisError(e + ' is gone')
        params = [('vec', nm) for nm in names] + [('i', 'flag')] * (len(f.params) - len(names))
        r = run(P, e, params, light=True, rounded=True)
        ck.analysed.append(e)
        L = Poly.atom(Atom('len', (names[0],), 'i'))
        spec = b_or(*[bad_list(nm, L) for nm in names])
        decide(ck, '%s rejects exactly the invalid lists' % e, [o[2] for o in r.of('throw')], spec, names)
        types(ck, r, e, names)


def types(ck, r, who, names=(), syms=()):
    """what is thrown at the caller is a std::runtime_error"""
    from models import exn_is_a
    nm = '%s: every rejection is a runtime_error' % who
    bad = []
    for o in r.of('throw'):
        ls = leaves(o[1]) if isinstance(o[1], Node) else [o[1]]
        if not all(isinstance(x, Opq) and x.key[0] == 'exn' and exn_is_a(x.key[1], '_ZTISt13runtime_error') for x in ls): bad.append(o)
    if not bad: ck.row(nm, 'proved'); return
    f = envs(names, sorted(set(c for o in bad for c in refute.consts_of(o[2]))), syms)
    for o in bad:
        for k in range(300):
            e = f(k); e['strict'] = True; e['hist'] = refute.history(f, k)
            it = refute.Interp(k, e)
            try: x = it.node(o[2])
            except refute.Unint: continue
            if x: ck.row(nm, 'violated', '%s thrown at %s for %s' % (o[1], o[4], refute.witness_str(it))); return
    ck.row(nm, 'undecided', '; '.join('%s at %s' % (o[1], o[4]) for o in bad))


def nothing_else(ck, r, who):
    ab = [e for e in r.ev.events if e.name in ('abort',)]
    ck.row('%s never aborts' % who, 'proved' if not ab else 'violated', str(ab[:1]))

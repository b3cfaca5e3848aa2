"""C11: the computation for lower bounds and the one for upper bounds are mirror images of each other: one of the two
passes the other one the list 1 - x_n, ..., 1 - x_1 and returns its result unchanged."""
from checks import *
import cli
from props import kernel

PAIRS = {'ecdf1-new': ('ecdf1_new_b', 'ecdf1_new_B'), 'ecdf1-mns2016': ('ecdf1_mns2016_b', 'ecdf1_mns2016_B')}


def one(root, other):
    P = program([root], opaque=contracts.OPAQUE + ['^%s$' % other])
    if P.find(root) is None: raise AnalysisError(root + ' is gone')
    r = run(P, root, [('vec', 'x')])
    return r, [e for e in r.ev.events if e.name == 'entry']


def mirrored(ck, algo):
    lo, up = PAIRS[algo]
    for root, other in ((lo, up), (up, lo)):
        r, calls = one(root, other)
        if calls: break
    else: return ck.row('%s: lower and upper computation are mirror images' % algo, 'undecided', 'neither computation is expressed by the other one')
    ck.analysed += [lo, up] + r.functions()
    W = '%s (%s calls %s)' % (algo, root, other)
    if not returns(ck, '%s: returns' % W, r): return
    l = r.lists[0]; n = Poly.atom(Atom('len', (l,), 'i')); j = cli.J; J = Poly.atom(j)
    def env(k, m=None):
        rn = random.Random(k * 29 + 1)
        if m is None: m = rn.choice([0, 1, 1, 2, 3, 4, 5, 7, 11])
        return {'arrays': {l + '_data': refute.valid_list(rn, m, rn.randrange(6)), ('len', l): m}, j: rn.choice([0, max(0, m - 1), rn.randrange(m) if m else 0])}
    rows = dict(env=env, n=600, known={j}, exact=True)
    inner = [e for e in calls if e.loops]
    if inner: return ck.row('%s: the call' % W, 'undecided', 'called inside a loop')
    # on every path that returns there is exactly one call ...
    rpc = b_or(*[o[2] for o in r.of('ret')])
    cnt = FALSE
    for e in calls: cnt = n_add(cnt, ite(e.pc, TRUE, FALSE))
    val = FALSE
    for o in r.of('ret'): val = ite(o[2], o[1], val)
    exp = FALSE; num = leaf(n); el = leaf(ONE - Poly.atom(Atom('sel', (l + '_data', n - ONE - J), 'r')))
    glen, gel = num, el
    for e in calls:
        glen = ite(e.pc, e.args[1], glen); gel = ite(e.pc, e.args[2], gel)
    probs = syms_of_kind(val, 'prob:' + other)
    inside = b_and(rpc, cnt_is(cnt, 1), ile0(-J), ile0(J + ONE - n))
    kernel.sampled(ck, '%s: the computation is delegated once' % W, rpc, cnt, leaf(ONE), ctx=r.ev.ctx, **rows)
    kernel.sampled(ck, '%s: the list passed on has the same length' % W, rpc, glen, num, ctx=r.ev.ctx, **rows)
    kernel.sampled(ck, '%s: element i passed on is 1 minus element n-1-i' % W, inside, gel, el, ctx=r.ev.ctx, **rows)
    if not probs: return ck.row('%s: the result is passed back unchanged' % W, 'violated', 'the result %s does not use the delegated one' % str(val)[:300])
    kernel.UNDERSTOOD.add('prob:' + other)
    rows['env'] = lambda k, m=None: dict(env(k, m), funs={'prob:' + other: lambda it, a: random.Random(k).choice([0.0, 1.0, 0.5, 1e-200, random.random()] + [c * f for c in refute.real_consts(val) for f in (1, .9, 1.1)])})
    if len(probs) == 1: kernel.sampled(ck, '%s: the result is passed back unchanged' % W, rpc, val, leaf(Poly.atom(next(iter(probs)))), ctx=r.ev.ctx, **rows)
    else: ck.row('%s: the result is passed back unchanged' % W, 'undecided', 'several calls')


def cnt_is(n, k): return apply(lambda p: ieq0(p - Poly.const(k)), n)


def syms_of_kind(node, kind):
    out = set(); seen = set()
    def rec(x):
        if not isinstance(x, (Node, Poly, Atom, BAtom, tuple, list)): return
        if not isinstance(x, (tuple, list)):
            if id(x) in seen: return
            seen.add(id(x))
        if isinstance(x, Node):
            if x.atom is None: rec(x.leaf)
            else: rec(x.atom); rec(x.hi); rec(x.lo)
        elif isinstance(x, Poly):
            for y in x.atoms(): rec(y)
        elif isinstance(x, Atom):
            if x.kind == kind: out.add(x)
            rec(x.args)
        elif isinstance(x, BAtom): rec(x.args)
        else:
            for y in x: rec(y)
    rec(node)
    return out


RULE = 'the term passed to the delegated computation is, for an arbitrary index and list length, 1 minus the mirrored element; its result is returned unchanged'


def single(ck, a): ck.rule = RULE; mirrored(ck, a)


def both(ck):
    ck.rule = RULE
    for a in PAIRS: mirrored(ck, a)

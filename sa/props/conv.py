"""Convolution implementations and Poisson weights against their specifications."""
from checks import *

CAP = 1 << 27


def sizes(names):
    def envs(k):
        r = random.Random(k)
        d = {}
        big = [c for c in refute.EXTRA if c < 9000]
        cap = r.choice([1, 2, 3, 4, 5, 7, 8]) if not big or r.random() < .5 else max(1, r.choice([1, 1, 1, 2]) * (lambda c: r.choice([c, c, c // 2]))(r.choice(big)) + r.choice([-2, -1, 0, 1, 1, 2]))
        for n in names: d[Atom('sym', (n,), 'i')] = cap if n == 'capacity' else r.choice([1, 2, 3, cap, cap, max(1, cap - 1), cap + 1])
        m = d.get(Atom('sym', ('size',), 'i'), 3)
        d[Atom('sym', ('m',), 'i')] = r.choice([0, max(m - 1, 0), r.randrange(max(m, 1)), r.randrange(max(m, 1))])
        if k % 3: d['scale'] = {nm: r.choice([(-.5, 1), (-1, 1), (0, 1), (0, 40)]) for nm in ('a', 'b', 'a2', 'b2', 'h0', 'h1', 'g0', 'g1')}
        return d
    return envs


def spec_conv(res, a, b, m):
    j = Atom('sym', ('$j',), 'i')
    body = leaf(elem(res, a, Poly.atom(j)) * elem(res, b, m - Poly.atom(j)))
    return quant('sum', j, m + ONE, body, 'r')


def convolution(ck):
    ck.rule = ('value-graph summaries of the direct and the FFT convolution (transform algebra over symbolic sizes) are compared with '
               'sum_{j<=m} a[j]*b[m-j] at a symbolic index m, for different and equal input arrays, for a fresh convolver and for one that has already served one or two arbitrary earlier calls (also on the same arrays with other contents)')
    ck.trusted += ['FFTW computes the unnormalised DFT its documentation describes']
    size, cap, m = sym('size'), sym('capacity'), sym('m')
    s0, s1 = sym('size0'), sym('size1')
    A = lambda n, k: ('arr', n, k)
    I = lambda n: ('i', n)
    H = [A('h0', s0), A('h1', s0), A('hdest', s0)]; G = [A('g0', s1), A('g1', s1), A('gdest', s1)]; S = [A('a', size), A('b', size), A('dest', size)]
    dim, big = [ONE - size, size - Poly.const(CAP)], [ONE - cap, cap - Poly.const(CAP), size - cap]
    d0, d1 = [ONE - s0, s0 - cap], [ONE - s1, s1 - cap]
    cases = {   # driver: parameters, what is known of the sizes, the operands of the last call, the arrays it must leave alone
        'drv_convolve_direct': ([I('size')] + S, dim, 'ab', 'ab'),
        'drv_convolve_direct_square': ([I('size'), S[0], S[2]], dim, 'aa', 'a'),
        'drv_convolve_fft': ([I('capacity'), I('size')] + S, dim + big, 'ab', 'ab'),
        'drv_convolve_fft_square': ([I('capacity'), I('size'), S[0], S[2]], dim + big, 'aa', 'a'),
        'drv_convolve_fft_twice': ([I('capacity'), I('size0'), I('size')] + H + S, dim + big + d0, 'ab', 'ab'),
        'drv_convolve_fft_again': ([I('capacity'), I('size0'), I('size'), A('a', cap), A('b', cap), A('dest', cap), A('a2', size), A('b2', size)], dim + big + d0, ('a2', 'b2'), ('a2', 'b2')),
        'drv_convolve_fft_thrice': ([I('capacity'), I('size0'), I('size1'), I('size')] + H + G + S, dim + big + d0 + d1, 'ab', 'ab')}
    P = program(list(cases))
    for root, (params, pre, ops, kept) in cases.items():
        envs = sizes([p[1] for p in params if p[0] == 'i'])
        r = run(P, root, params, pre)
        ck.analysed += [root] + r.functions()
        ctx = r.ev.ctx.clone()
        ctx.add_le(-m); ctx.add_le(m - size + ONE)
        r.ev.ctx = ctx; r.ev.pc_now = TRUE
        rets = r.of('ret')
        bad = b_or(*[o[2] for o in r.outs if o[0] != 'ret'])
        never(ck, '%s: throws or aborts on a size within capacity' % root, ctx, bad, envs, ', '.join(sorted(set(str(o[4]) for o in r.outs if o[0] != 'ret'))))
        if not returns(ck, '%s returns' % root, r): continue
        spec = spec_conv(r, ops[0], ops[1], m)
        for k, v, pc, mem, loc in rets:
            got = content(r, mem, 'dest', m)
            compare(ck, '%s: element m of the result' % root, ctx, got, spec, pc, envs, 'returned at %s' % loc)
            for nm in kept:
                compare(ck, '%s: input %s is left unchanged' % (root, nm), ctx, content(r, mem, nm, m), leaf(elem(r, nm, m)), pc, envs)
        obligations(ck, r, kinds={'bounds', 'init', 'plan-kind', 'null-plan', 'alias'})


def poisson(ck):
    ck.rule = ('value-graph summaries of poisson_pmf, PoissonPMFGenerator::evaluate_pmf and compute_array/get_array are compared with '
               'exp(-lambda + k log lambda - log k!) (and the point mass at 0 for lambda = 0) for symbolic lambda, k and table size, on a fresh table and after earlier evaluations with any intensity and count')
    ck.trusted += ['lgamma, log, exp behave as specified']
    refute.FLOOR[0] = 1e-304      # these values are compared by their relative difference
    lam, k, mx, i = sym('lambda', 'r'), sym('k'), sym('max_k'), sym('m')

    def spec(kk): return ite(feq0(lam), ite(ieq0(kk), TRUE, FALSE), app('exp', [kk * app('log', [lam], 'r').leaf - lam - app('lgamma', [kk + ONE], 'r').leaf], 'r'))

    def envs(s):
        r = random.Random(s); mk_ = r.choice([1, 2, 3, 5, 9, 17, 40])
        big = [c for c in refute.EXTRA if c < 9000]
        if big and r.random() < .5: mk_ = max(1, r.choice(big) + r.choice([-1, 0, 1, 2, 30, 400]))
        kv = r.choice([0, 1, 2, mk_ - 1, mk_, r.randrange(mk_ + 1)])
        if big and r.random() < .3: kv = r.choice(big) + r.choice([-1, 0, 1])
        kv = min(max(kv, 0), mk_)
        mv = r.choice([kv, max(0, kv - 1), r.randrange(kv + 1)])
        lv = r.choice([0.0, 0.25, 1.0, 3.5, 20.0, 400.0, float(max(mv, 1)), float(max(kv, 1)), max(mv, 1) * (0.8 + 0.4 * r.random())])
        if refute.REALS and r.random() < .5: lv = abs(r.choice(refute.REALS) * r.choice([1.0, 1.0, 1 + 1e-6, 1 - 1e-6, 1.01, 0.99, 0.5, 2]))
        near = lambda v: r.choice([v, v, v * (1 + 1e-9), v * (1 - 1e-7), v + 1e-9, v * 1.01, 0.0, 3.0] + [v + .9 * c for c in refute.REALS[:4]])
        kk = lambda: r.choice([0, 1, kv, kv, max(kv - 1, 0), min(kv + 1, mk_), mk_, r.randrange(mk_ + 1)])
        return {k0.single_atom(): kk(), k1.single_atom(): kk(), lam0_.single_atom(): near(lv), lam1_.single_atom(): near(lv),
                Atom('sym', ('max_k',), 'i'): mk_, Atom('sym', ('k',), 'i'): kv, Atom('sym', ('m',), 'i'): mv, Atom('sym', ('lambda',), 'r'): lv}
    k0, k1, lam0_, lam1_ = sym('k0'), sym('k1'), sym('lambda0', 'r'), sym('lambda1', 'r')
    roots = ['drv_poisson_pmf', 'drv_pmfgen_evaluate', 'drv_pmfgen_array', 'drv_pmfgen_array_twice', 'drv_pmfgen_array_thrice', 'drv_pmfgen_evaluate_twice']
    P = program(roots)
    pre = [-k, k - Poly.const(CAP)]
    lam0 = b_not(flt0(lam))
    for root in roots:
        facts = [lam0]
        if root == 'drv_poisson_pmf': params = [('r', 'lambda'), ('i', 'k')]; p = pre
        else:
            p = pre + [ONE - mx, mx - Poly.const(CAP), k - mx]
            params = {'drv_pmfgen_evaluate': [('i', 'max_k'), ('r', 'lambda'), ('i', 'k')],
                      'drv_pmfgen_array': [('i', 'max_k'), ('i', 'k'), ('r', 'lambda'), ('arr', 'out', k + ONE)],
                      'drv_pmfgen_array_twice': [('i', 'max_k'), ('i', 'k0'), ('r', 'lambda0'), ('i', 'k'), ('r', 'lambda'), ('arr', 'out', k + ONE)],
                      'drv_pmfgen_array_thrice': [('i', 'max_k'), ('i', 'k0'), ('r', 'lambda0'), ('i', 'k1'), ('r', 'lambda1'), ('i', 'k'), ('r', 'lambda'), ('arr', 'out', k + ONE)],
                      'drv_pmfgen_evaluate_twice': [('i', 'max_k'), ('i', 'k0'), ('r', 'lambda0'), ('i', 'k1'), ('r', 'lambda1'), ('r', 'lambda'), ('i', 'k')]}[root]
            if root.endswith(('twice', 'thrice')): p = p + [-k0, k0 - mx]; facts = facts + [b_not(flt0(lam0_))]
            if root in ('drv_pmfgen_evaluate_twice', 'drv_pmfgen_array_thrice'): p = p + [-k1, k1 - mx]; facts = facts + [b_not(flt0(lam1_))]
        r = run(P, root, params, p, facts=facts)
        ck.analysed += [root] + r.functions()
        ctx = r.ev.ctx.clone(); ctx.add_le(-i); ctx.add_le(i - k); r.ev.ctx = ctx; r.ev.pc_now = TRUE
        bad = b_or(*[o[2] for o in r.outs if o[0] != 'ret'])
        never(ck, '%s: throws or aborts on lambda >= 0, 0 <= k' % root, ctx, bad, envs, ', '.join(sorted(set(str(o[4]) for o in r.outs if o[0] != 'ret'))))
        rets = r.of('ret')
        if not returns(ck, '%s returns' % root, r): return
        for kk, v, pc, mem, loc in rets:
            if 'array' in root: compare(ck, '%s: element m' % root, ctx, content(r, mem, 'out', i), spec(i), pc, envs, 'at %s' % loc)
            else: compare(ck, '%s: value' % root, ctx, v, spec(k), pc, envs, 'at %s' % loc)
        obligations(ck, r, kinds={'bounds', 'init'})

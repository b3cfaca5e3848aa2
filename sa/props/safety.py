"""C02 memory safety, C03 computation always completes, C05 initialised data, C06 ownership: obligations produced
by the abstract interpretation of the library's entry points and of its building blocks."""
from checks import *
from props.conv import sizes, CAP

ENTRIES = {'ecdf1_new_B': ['B'], 'ecdf1_new_b': ['b'], 'ecdf1_mns2016_B': ['B'], 'ecdf1_mns2016_b': ['b'], 'ecdf2': ['b', 'B']}


def entry_run(e):
    P = program([e], opaque=contracts.OPAQUE)
    if P.find(e) is None: raise AnalysisError(e + ' is gone')
    f = Func(P.find(e))
    names = ENTRIES[e]
    return run(P, e, [('vec', nm) for nm in names] + [('i', 'flag')] * (len(f.params) - len(names)))


def driver_runs():
    size, cap, s0, k, mk, i = sym('size'), sym('capacity'), sym('size0'), sym('k'), sym('max_k'), sym('i')
    dims = [ONE - size, size - Poly.const(CAP), ONE - cap, cap - Poly.const(CAP), size - cap]
    roots = ['drv_convolve_direct', 'drv_convolve_fft', 'drv_convolve_fft_twice', 'drv_poisson_pmf', 'drv_pmfgen_evaluate', 'drv_pmfgen_array', 'drv_check', 'drv_pmfgen_array_twice']
    P = program(roots)
    A = lambda n, s: ('arr', n, s)
    lam = [b_not(flt0(sym('lambda', 'r')))]
    yield 'convolve_same_size', run(P, roots[0], [('i', 'size'), A('a', size), A('b', size), A('dest', size)], dims[:2])
    yield 'FFTWConvolver', run(P, roots[1], [('i', 'capacity'), ('i', 'size'), A('a', size), A('b', size), A('dest', size)], dims)
    yield 'FFTWConvolver (reused)', run(P, roots[2], [('i', 'capacity'), ('i', 'size0'), ('i', 'size'), A('h0', s0), A('h1', s0), A('hdest', s0), A('a', size), A('b', size), A('dest', size)], dims + [ONE - s0, s0 - cap])
    yield 'poisson_pmf', run(P, roots[3], [('r', 'lambda'), ('i', 'k')], [-k, k - Poly.const(CAP)], lam)
    pre = [-k, k - mk, mk - Poly.const(CAP), ONE - mk]
    yield 'PoissonPMFGenerator::evaluate_pmf', run(P, roots[4], [('i', 'max_k'), ('r', 'lambda'), ('i', 'k')], pre, lam)
    yield 'PoissonPMFGenerator::compute_array', run(P, roots[5], [('i', 'max_k'), ('i', 'k'), ('r', 'lambda'), A('out', k + ONE)], pre, lam)
    k0 = sym('k0')
    yield 'PoissonPMFGenerator::compute_array (reused)', run(P, roots[7], [('i', 'max_k'), ('i', 'k0'), ('r', 'lambda0'), ('i', 'k'), ('r', 'lambda'), A('out', k + ONE)],
                                                             pre + [-k0, k0 - mk], lam + [b_not(flt0(sym('lambda0', 'r')))])
    yield 'check_boundary_vector', run(P, roots[6], [('str', 'name'), ('i', 'n'), ('vec', 'v')])


def all_runs(ck):
    for e in ENTRIES:
        ck.analysed.append(e); r = entry_run(e); ck.analysed += r.functions(); yield e, r
    for e, r in driver_runs():
        ck.analysed.append(e); yield e, r


def rows(ck, who, r, kinds): obligations(ck, r, kinds, who=who)


def memory(ck):
    ck.rule = ('on every path of every computation entry and building block, for lists of any length: each memory access lies inside a live block, '
               'block operations do not overlap, lengths given to containers and to the convolver / weight generator stay within their capacity')
    for e, r in all_runs(ck):
        rows(ck, e, r, {'bounds', 'use-after-free', 'alias', 'length', 'pre', 'plan-kind', 'null-plan'})


def completes(ck):
    ck.rule = ('for valid lists of any length each computation entry returns: no path throws or aborts, every loop has a bound on its number of iterations, '
               'Poisson intensities are never negative, no integer division by zero, no failing assertion')
    for e, r in all_runs(ck):
        rows(ck, e, r, {'nonneg-lambda', 'div-zero', 'termination', 'assert', 'pre', 'length', 'order'})
        if e == 'check_boundary_vector': continue
        for o in r.outs:
            if o[0] == 'ret': continue
            nm = '%s: leaves by %s at %s' % (e, o[0], o[4])
            c = b_and(o[2], facts_node(r.ev.ctx.facts))
            w = refute.admits(o[2], facts_node([f for f in r.ev.ctx.facts]), r.lists)
            ck.row(nm, 'violated' if w else 'undecided', '%s %s when %s%s' % (o[0], str(o[1])[:80], str(o[2])[:400], '; e.g. ' + refute.witness_str(w) if w else ''))
        returns(ck, '%s: a normal return exists' % e, r)


def initialised(ck):
    ck.rule = 'every value read from memory the library allocated was written before on every path; no result depends on the contents of fresh memory'
    for e, r in all_runs(ck): rows(ck, e, r, {'init'})


def unrestricted_runs():
    """the building blocks that own memory, for arguments of any value (so every rejecting exit is covered too)"""
    size, cap, s0, k, mk = sym('size'), sym('capacity'), sym('size0'), sym('k'), sym('max_k')
    lim = lambda *xs: [x - Poly.const(CAP) for x in xs] + [-Poly.const(CAP) - x for x in xs]
    A = lambda n: ('arr', n, None)
    P = program(['drv_convolve_fft', 'drv_convolve_fft_twice', 'drv_pmfgen_evaluate', 'drv_pmfgen_array'])
    yield 'FFTWConvolver', run(P, 'drv_convolve_fft', [('i', 'capacity'), ('i', 'size'), A('a'), A('b'), A('dest')], lim(size, cap), exn=True)
    yield 'FFTWConvolver (reused)', run(P, 'drv_convolve_fft_twice', [('i', 'capacity'), ('i', 'size0'), ('i', 'size'), A('h0'), A('h1'), A('hdest'), A('a'), A('b'), A('dest')], lim(size, cap, s0), exn=True)
    yield 'PoissonPMFGenerator::evaluate_pmf', run(P, 'drv_pmfgen_evaluate', [('i', 'max_k'), ('r', 'lambda'), ('i', 'k')], lim(k, mk), exn=True)
    yield 'PoissonPMFGenerator::compute_array', run(P, 'drv_pmfgen_array', [('i', 'max_k'), ('i', 'k'), ('r', 'lambda'), A('out')], lim(k, mk), exn=True)


def impossible(ck, nm, r, cond, what):
    ctx = r.ev.ctx
    if cond is FALSE or ctx.prove(b_not(cond)): return ck.row(nm, 'proved')
    c = ctx.clone(); c.add_node(cond)
    if not c._sat([]) or c.simplify(cond) is FALSE: return ck.row(nm, 'proved')
    w = refute.admits(cond, b_and(facts_node(ctx.facts), symfacts_of(cond)), r.lists)
    ck.row(nm, 'violated' if w else 'undecided', '%s if %s%s' % (what, str(cond)[:400], '; e.g. ' + refute.witness_str(w) if w else ''))


def certain(r, ob, o, st):
    """arguments with which every exit that is possible, whatever the loops on the way left behind, keeps the block"""
    if st.alive is FALSE or st.alive is TRUE: return None
    cs = [c for c in refute.consts_of(st.alive) if c > 3][:6]
    names = r.lists; vague = {x for q in r.outs for x in syms_of(q[2]) if isinstance(x, Atom) and x.kind == 'sym' and '~' in str(x.args[0])}
    if any(x.sort != 'i' for x in vague & set(syms_of(b_and(o[2], st.alive)))): return None
    for k in range(80):
        rn = random.Random(k * 13 + 5)
        m = rn.choice([1, 2, 3, 5, 9] + [c + d for c in cs for d in (-1, 0, 1, 2)])
        env = {'arrays': {}, 'strict': True}
        fl = rn.randrange(6)
        for nm in names:
            l = refute.valid_list(rn, m, fl)
            env['arrays'][nm + '_data'] = l; env['arrays'][('len', nm)] = m
        def possible(q, goal):
            """values of the loop state with which exit q happens: does goal hold in all of them? None: never happens"""
            free = sorted((x for x in syms_of(q[2]) | syms_of(goal) if x in vague), key=str)
            if len(free) > 1: raise refute.Unint('several')
            res = None
            for v in ([m - 1, m, m - 2, m + 1, 0, 1, -1] if free else [0]):
                it = refute.Interp(k, dict(env, **{}) | ({free[0]: v} if free else {}))
                if not it.node(q[2]): continue
                if not it.node(goal): return False
                res = True
            return res
        try:
            if not possible(o, st.alive): continue
            good = True
            for q in r.outs:
                if q is o: continue
                alive = q[3].objs[ob].alive if ob in q[3].objs else FALSE
                if possible(q, alive) is False: good = False; break
            if good: return 'lists of %d elements' % m
        except refute.Unint: continue
    return None


def leaks(ck, who, r):
    ev = r.ev
    for o in r.outs:
        if o[0] == 'abort': continue
        for ob, st in sorted(o[3].objs.items(), key=lambda x: x[0].name):
            meta = ev.objmeta.get(ob.name, ob)
            if meta.kind != 'heap': continue
            nm = '%s: %s is released before the exit by %s at %s' % (who, ob.name.split('#')[0] + ' block ' + ob.name, o[0], o[4])
            w = certain(r, ob, o, st)
            if w: ck.row(nm, 'violated', 'still owned at the only exit possible with %s' % w)
            else: impossible(ck, nm, r, b_and(o[2], st.alive), 'still owned')
    for e in ev.events:
        if e.name == 'alloc' and e.loops: ck.row('%s: allocation inside a loop at %s' % (who, e.loc), 'undecided', 'allocation in a loop')


def plans(ck, who, r):
    """every plan created is destroyed exactly once before a normal return"""
    cr = [e for e in r.ev.events if e.name == 'plan-create']; de = [e for e in r.ev.events if e.name == 'plan-destroy']
    if not cr and not de: return 0
    nm = '%s: each transform plan is destroyed exactly once' % who
    done = 0
    for k in range(60):
        rnd = random.Random(k)
        env = {}
        cap = rnd.choice([64, 127, 128, 500, 1024, 1025, 3000, 9000])
        for x in ('size', 'size0', 'capacity'): env[sym(x).single_atom()] = cap if x == 'capacity' else rnd.choice([cap, max(1, cap - 1), rnd.randrange(1, cap + 1), rnd.randrange(1, cap + 1)])
        rets = [o for o in r.of('ret') if refute.Interp(k, dict(env)).node(o[2])]
        if not rets: continue
        count = {}
        def add(e, w, env):
            it = refute.Interp(k, dict(env, strict=True))
            if it.node(e.pc):
                p = it.node(e.args[0])
                if p == 0: return
                count.setdefault(p, [0, 0])[w] += 1
        try:
            for w, evs in ((0, cr), (1, de)):
                for e in evs:
                    free = [s for s in syms_of(e.pc) | syms_of(e.args[0]) if isinstance(s, Atom) and s.kind == 'sym' and s not in env and '~' in str(s.args[0])]
                    if len(free) > 1: raise refute.Unint('nested')
                    if not free:
                        if e.loops: raise refute.Unint('loop')
                        add(e, w, env)
                    else:
                        for t in range(40): add(e, w, dict(env, **{}) | {free[0]: t})
        except refute.Unint as x:
            return ck.row(nm, 'undecided', 'plan events not interpretable: %s' % x)
        done += 1
        for p, (a, b) in count.items():
            if a != b or (a > 1):
                return ck.row(nm, 'violated', 'a %s plan of length %s is created %d times and destroyed %d times for %s' % (p[0] if isinstance(p, tuple) else p, p[1] if isinstance(p, tuple) else '', a, b, ', '.join('%s=%s' % kv for kv in env.items())))
    if done: ck.row(nm, 'agreed', 'creation and destruction events balance under %d interpretations' % done)
    return 1


def ownership(ck):
    ck.rule = ('every block or transform plan acquired by the library is released exactly once, by the matching function, on every exit (normal and exceptional), '
               'and never used after its release')
    ck.expected.append('execution of plan uninit:')     # with arguments of any value, plans that were never made are met on paths that end in a rejection; only their ownership is looked at here
    blocks = 0
    for e, r in list(all_runs(ck)) + [(n + ' (any arguments)', x) for n, x in unrestricted_runs()]:
        rows(ck, e, r, {'free', 'free-match', 'double-free', 'use-after-free'})
        leaks(ck, e, r)
        plans(ck, e, r)

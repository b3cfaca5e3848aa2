"""C10: the simulation program.  The crossing decision, the simulated path, the count and the printed value are each derived
symbolically and compared with their specification."""
import math, re
from fractions import Fraction
from checks import *
import cli, sim
from models import plead
from props import program

J = cli.J


FREE = {}
rnd = refute.rnd


ROLES = {}


def role(k):
    if not ROLES: ROLES.update(sim.roles())
    if k not in ROLES: raise AnalysisError('anchor vanished: no function like %s in crossprob_mc.cc' % k)
    return ROLES[k]


class SimScene(refute.Interp):
    def atom(self, a):
        if a.kind == 'sym' and self.env.get(a) is None:
            m = re.match(r'T(\d+)~', str(a.args[0]))
            if m and int(m.group(1)) in self.world['loops']: return self.exit(self.world['loops'][int(m.group(1))])
        if a.kind == 'sym' and self.env.get(a) is None and a in self.world['inner']:
            L, k, at_exit = self.world['inner'][a]
            t = atom_of(L['t'])
            T = self.exit(L) if at_exit else self.env.get(t)
            if T is not None: return self.carried(L, k, T)
        if a.kind == 'sum':
            key = (a, tuple(rnd(self.atom(x)) for x in self.free(a)))
            if key not in self.quants: self.quants[key] = self.sum(a)
            return self.quants[key]
        return super().atom(a)

    def carried(self, L, k, T):
        """value of a variable of an inner loop after T iterations, from its recurrence"""
        v = L['vars'][k]; t = atom_of(L['t'])
        vals = self.world['vals'].setdefault((L['header'], k, self.world.get('stamp')), [])
        base = self.node(v.obj)[2] if v.isptr else 0
        def num(x): return Fraction(x[2] - base) / v.scale if isinstance(x, tuple) else x
        if not vals: vals.append(num(self.node(wrap(v.init))))
        while len(vals) <= T:
            s = self.sub(t, len(vals) - 1); s.env[atom_of(v.sym)] = vals[-1]
            vals.append(num(s.node(wrap(L['nxt'][k]))))
        return vals[T]

    def free(self, a):
        """symbols a sum depends on that have values here"""
        r = FREE.get(a)
        if r is None: r = FREE[a] = sorted((x for x in syms_of(a) if isinstance(x, Atom) and x.kind == 'sym' and x != a.args[0]), key=str)
        return [x for x in r if self.env.get(x) is not None or str(x.args[0])[:1] == 'T']

    def exit(self, L):
        """number of completed iterations of a loop without a counter"""
        w = self.world
        key = (L['header'], w.get('stamp'))
        if key not in w['exit']:
            t = atom_of(L['t'])
            for k in range(4000):
                if not self.sub(t, k).node(L['lpc']): break
            else: raise refute.Unint('the loop does not end')
            w['exit'][key] = k
        return w['exit'][key]

    def other(self, a):
        w = self.world
        if a.kind.startswith('draw:'): return w['u'](a.kind, self.key(a.args[1]))
        if a.kind == 'crosses':
            if not w.get('bykey'): return w['crosses'](0)
            return w['crosses'](tuple(self.key(x) for x in a.args))
        if a.kind == 'sel' and isinstance(a.args[0], str) and a.args[0].startswith('M:'):
            return refute.hsh(self.seed, a.args[0], self.key(a.args[1]))
        return super().other(a)


def atom_of(x): return x if isinstance(x, Atom) else x.single_atom() if isinstance(x, Poly) else x.leaf.single_atom()


def run_fn(root, spec, opaque):
    src = os.path.join(build.REPO, 'src', 'crossprob_mc.cc')
    if not os.path.exists(src): raise AnalysisError('crossprob_mc.cc is gone')
    P = program_mc(root, opaque)
    f = Func(P.find(root), exn=False)
    ev = evaluator(P, False); ev.throws = {}
    if len(f.params) != len(spec): raise refute.Unint('%s has %d parameters' % (root, len(f.params)))
    m = E.Mem(); args = []
    for p, s in zip(f.params, spec):
        if s[0] == 'vec':
            if p['ty'] != 'ptr': raise refute.Unint('parameter of type %s' % p['ty'])
            a = vec_param(ev, m, s[1])[0]; args.append(a if isinstance(a, Node) else leaf(a))
        elif s[0] == 'arr':
            o = ev.new_obj(s[1], None, 'param', stride=8); m.objs[o] = E.OState(); args.append(leaf(Ptr(o, ZERO)))
        else: args.append(leaf(sym(s[1], s[0])))
    outs = ev.run(f, args, m)
    R = Result(ev, outs, args, {}, f); R.lists = []; R.prog = P
    return R


def program_mc(root, opaque):
    return Program(build.extract([root], build.library_sources() + [os.path.join(build.REPO, 'src', 'crossprob_mc.cc')], extra_opaque=list(opaque)))


def values(rn, n):
    return sorted(rn.choice([0.0, 0.25, 0.5, 1.0, rn.random(), rn.random(), rn.random()]) for _ in range(n))


# ---------------------------------------------------------------- the decision whether a path crosses
def crossing(ck):
    W = 'does_integer_step_function_cross: a path crosses exactly when a point lies beyond its bound or their number does'
    R = run_fn(role(sim.CROSS), [('arr', 'steps'), ('i', 'k'), ('vec', 'b'), ('vec', 'B')], [])
    ck.analysed += [role(sim.CROSS)] + R.functions()
    rets = R.of('ret')
    sizes = sorted({c for o in rets for x in (o[1], o[2]) for c in refute.consts_of(x) if 2 < c < 3000})[:4]
    rn = random.Random(2); n = 0; bad = None
    try:
        for t in range(700):
            big = sizes and t % 4 == 0
            k = rn.choice(sizes) + rn.choice([-1, 0, 1]) if big else rn.choice([64, 65, 130, 257]) if t % 7 == 0 else rn.choice([0, 1, 1, 2, 3, 5, 9])
            nb = rn.choice([0, k, k, k, k + 1, max(0, k - 1), k + 4]); nB = rn.choice([0, k, k, k, max(0, k - 1), k + 1, max(0, k - 3)])
            st = values(rn, k); near = rn.random() < .8
            # bounds that hold everywhere, except at one place at most
            b = [max(0.0, (st[i] if i < k else 1.0) - rn.choice([0, .1, 1])) for i in range(nb)]; B = [min(1.0, (st[i] if i < k else 1.0) + rn.choice([0, .1, 1])) for i in range(nB)]
            if not near: b, B = values(rn, nb), values(rn, nB)
            elif rn.random() < .6:
                l, d = rn.choice([(b, 1), (B, -1)])
                if l and k: i = rn.choice([0, min(len(l), k) - 1, rn.randrange(min(len(l), k))]); l[i] = st[i] + d * rn.choice([1e-9, .01, .3])
            env = {sym('k').single_atom(): k, 'arrays': {'steps': st, 'b_data': b, 'B_data': B, ('len', 'b'): nb, ('len', 'B'): nB}}
            sc = SimScene(t, env); sc.world = dict(loops={}, exit={}, vals={}, inner={}); sc.strict = True
            ends = [o for o in R.outs if sc.node(o[2])]
            n += 1
            spec = k < nB or any(st[i] > B[i] for i in range(min(k, nB))) or nb > 0 and (k > nb or any(st[i] < b[i] for i in range(min(k, nb))))
            if len(ends) != 1 or ends[0][0] != 'ret': raise refute.Unint('%d ends' % len(ends))
            g = sc.node(ends[0][1])
            if bool(g) != spec: bad = bad or 'points %s, lower list %s, upper list %s: %s' % (short(st), short(b), short(B), 'not counted as crossing' if spec else 'counted as crossing')
    except refute.Unint as u: return ck.row(W, 'undecided', str(u))
    ck.row(W, 'violated' if bad else 'agreed', bad or '%d interpretations' % n)


def short(l): return '[%s%s]' % (', '.join('%.6g' % x for x in l[:8]), ', ... %d' % len(l) if len(l) > 8 else '')


ALT = {'-log(u)': lambda u: -math.log(u), '-log(1-u)': lambda u: -math.log(1 - u)}


# ---------------------------------------------------------------- simulation
class Sim:
    """one of the two simulations: rows, worlds, and the loop over the repetitions"""

    def __init__(self, ck, kind, root):
        self.ck, self.kind = ck, kind
        self.W = kind + ' simulation: '
        self.rows = ['the estimate is the number of crossing paths divided by the number of simulations', 'as many paths are drawn as were asked for', 'a path is counted exactly when it crosses',
                     'the path that is tested has the specified points', 'the number of points of the path is the specified one', 'it is tested against the lower and the upper list', 'no random number is used twice']
        self.bad = {}; self.und = {}; self.n = {}
        R = self.R = run_fn(root, [('i', 'n') if kind == 'ecdf' else ('r', 'intensity'), ('vec', 'b'), ('vec', 'B'), ('i', 'N')], sim.OPAQUE)
        ck.analysed += [root] + R.functions()
        ev = R.ev
        self.cross = [e for e in ev.events if e.name == 'cross']; self.draws = [e for e in ev.events if e.name == 'draw']; self.seeds = [e for e in ev.events if e.name == 'seed']
        self.loops = {}
        for e in ev.events:
            for l in e.loops: self.loops[l['header']] = l
        self.sizes = sorted({c for e in ev.events for x in [e.pc] + [y for y in e.args if isinstance(y, Node)] for c in refute.consts_of(x) if 2 < c < 5000} | {c for o in R.outs for x in (o[1], o[2]) for c in refute.consts_of(x) if 2 < c < 5000})[:6]
        self.larges = sorted({c for e in ev.events for x in [e.pc] + [y for y in e.args if isinstance(y, Node)] for c in refute.consts_of(x, 1 << 40)} |
                             {c for l in self.loops.values() for y in l.get('nxt', {}).values() if isinstance(y, Node) for c in refute.consts_of(y, 1 << 40)} | {c for o in R.outs for x in (o[1], o[2]) for c in refute.consts_of(x, 1 << 40)})
        self.larges = [c for c in self.larges if c > 5][:4]
        self.inner = {}
        for l in self.loops.values():
            if l['parent'] is None: continue
            for k, v in l['vars'].items():
                if v.sym is None: continue
                self.inner[atom_of(v.sym)] = (l, k, False)
                x = (l.get('exit_names') or ({},))[0]
                for a, b in x.items():
                    if atom_of(a) == atom_of(v.sym): self.inner[atom_of(b)] = (l, k, True)
        self.rets = R.of('ret')
        self.alts = set(ALT)

    def fail(self, k, why): self.bad.setdefault(k, why)
    def dunno(self, k, why): self.und.setdefault(k, why)
    def tick(self, k): self.n[k] = self.n.get(k, 0) + 1

    def finish(self):
        for k, r in enumerate(self.rows):
            if k in self.bad: self.ck.row(self.W + r, 'violated', self.bad[k])
            elif k in self.und or not self.n.get(k): self.ck.row(self.W + r, 'undecided', self.und.get(k, 'no situation could be interpreted'))
            else: self.ck.row(self.W + r, 'agreed', '%d interpretations' % self.n[k])

    def scene(self, seed):
        rn = random.Random(seed)
        n = rn.choice(self.sizes) + rn.choice([-1, 0, 1]) if self.sizes and seed % 6 == 5 else rn.choice([1, 2, 3, 5, 8, 40] + [70, 150] * (seed % 4 == 0)); n = max(n, 1); nb, nB = rn.choice([(n, n), (n, n), (0, n), (n, 0), (n, max(0, n - 2)), (max(1, n - 1), n), (max(0, n - 2), n)])
        n = max(nb, nB); N = rn.choice([1, 2, 5, 10, 1000, 100000007])
        if self.larges and seed % 5 == 3: N = rn.choice(self.larges) + rn.choice([-1, 0, 1, 2]) + rn.choice([0, 0, 1000])
        k0 = rn.choice([0, 1, 17, 123456]); rep = rn.randrange(N)
        if seed % 3 == 1: rep = rn.choice([0, 0, N - 1, min(1, N - 1)] + [min(N - 1, max(0, c + d)) for c in self.larges for d in (-1, 0, 1)])
        us = {}
        def u(kind, k):
            if (kind, k) not in us:
                v = refute.hsh(seed, 'u', k)
                if kind.startswith(('draw:doubleP', 'draw:double01')) and refute.hsh(seed, 'z', k) < .1: v = 0.0
                if kind.startswith('draw:double12'): v += 1
                us[(kind, k)] = v
            return us[(kind, k)]
        lam = rn.choice([float(n), float(n), 0.5, 2.0 * n, 3.7])
        if self.kind == 'poisson' and seed % 4 == 2:        # a point very near the end of the interval
            kinds = {re.sub('.*tinymt64_generate_', 'draw:', e.args[0].leaf.key[0]) for e in self.draws}
            try:
                m = rn.choice([1, 1, 2, 3, n, n, n + 1, n + 2]); nm = rn.choice(sorted(self.alts))
                t = sum(ALT[nm](u(next(iter(kinds)), k0 + i)) for i in range(m))
                if t > 1e-3: lam = t * (1 + rn.choice([1, -1]) * rn.choice([1e-3, 1e-5, 1e-7, 1e-9, 1e-11]))
            except (ValueError, ZeroDivisionError): pass
        coin = {}
        env = {sym('n').single_atom(): n, sym('intensity', 'r').single_atom(): lam, sym('N').single_atom(): N,
               'arrays': {'b_data': values(rn, nb), 'B_data': values(rn, nB), ('len', 'b'): nb, ('len', 'B'): nB}}
        env['hist'] = []
        sc = SimScene(seed, env); sc.strict = True
        sc.world = dict(loops={h: l for h, l in self.loops.items() if l['kind'] != 'counted'}, exit={}, vals={}, inner=self.inner, u=u, crosses=lambda k: coin.setdefault(k, refute.hsh(seed, 'coin', k) < .5) and 1 or 0,
                        n=n, nb=nb, nB=nB, N=N, k0=k0, rep=rep, lam=lam, rn=rn)
        return sc

    def state(self, sc, L):
        """the loop over the repetitions in the middle of the run"""
        w = sc.world
        w['stamp'] = w.get('stamp', 0) + 1; sc.quants = {}
        sc.env[atom_of(L['t'])] = w['rep']
        for k, v in L['vars'].items():
            if v.sym is None or atom_of(v.sym) == atom_of(L['t']): continue
            a = atom_of(v.sym)
            if a.sort == 'r' and k not in self.counts: continue
            sc.env[a] = w['k0'] if k in self.rngcells else w['rn'].randrange(w['rep'] + 1) if a.sort == 'i' else float(w['rn'].randrange(w['rep'] + 1))

    def paths(self, sc):
        """points of the path the specification draws from this state, for each way of drawing an exponential still possible"""
        w = sc.world
        out = {}
        for nm in self.alts:
            kinds = {re.sub('.*tinymt64_generate_', 'draw:', e.args[0].leaf.key[0]) for e in self.draws}
            if len(kinds) != 1: raise refute.Unint('%d kinds of random numbers' % len(kinds))
            kind = kinds.pop(); S = []; s = 0.0
            for i in range(w['n'] + 1 if self.kind == 'ecdf' else 4000):
                try: s += ALT[nm](w['u'](kind, w['k0'] + i)) / (1.0 if self.kind == 'ecdf' else w['lam'])
                except (ValueError, ZeroDivisionError): S = None; break
                S.append(s)
                if self.kind == 'poisson' and s > 1: break
            if S is None: continue
            if self.kind == 'ecdf': out[nm] = [x / S[-1] for x in S[:-1]]
            else: out[nm] = S[:-1]
        return out

    def check(self):
        R = self.R
        if len(self.rets) != 1 or not self.cross or not self.draws or not self.seeds:
            for k in range(7): self.dunno(k, '%d returns, %d decisions, %d draws' % (len(self.rets), len(self.cross), len(self.draws)))
            return self.finish()
        outer = {e.loops[0]['header'] for e in self.cross if e.loops}
        if len(outer) != 1 or any(not e.loops for e in self.cross):
            for k in range(7): self.dunno(k, 'the loop over the repetitions was not found')
            return self.finish()
        L = self.loops[outer.pop()]
        self.rngcells = {k for k, v in L['vars'].items() if isinstance(k, tuple) and k[0] == 'cell' and any(str(k[1]) == str(e.args[1]).replace('rng:', '') for e in self.draws)}
        names = {str(e.args[1]) for e in self.draws}
        if len(names) != 1: 
            for k in range(2, 7): self.dunno(k, 'draws from %s' % sorted(names))
        # reuse of random numbers
        late = [e for e in self.seeds if e.loops]
        if late:
            first = False
            try:
                sc = self.scene(0); self.state(sc, L); sc.world['stamp'] += 1
                on = [bool(sc.sub(atom_of(L['t']), t).sub(sym('N').single_atom(), 10 ** 6).node(late[0].pc)) for t in (0, 1, 2, 3, 7, 100, 1023)]
                first = on[0] and not any(on[1:])
            except refute.Unint: pass
            if first: self.dunno(6, 'the generator is seeded in the first repetition')
            else: self.fail(6, 'the generator is seeded anew while the paths are drawn (%s)' % late[0].loc)
        elif len(self.rngcells) != 1: self.fail(6, 'the state of the generator is the same in every repetition') if not self.rngcells and len(names) == 1 else self.dunno(6, 'state of the generator')
        # the count
        ret = self.rets[0][1]
        X = {atom_of(s): atom_of(x) for s, x in L['exit_names'][0].items()} if L.get('exit_names') else {}
        insyms = {a for a in syms_of(ret) if isinstance(a, Atom)}
        cvars = [(k, v) for k, v in L['vars'].items() if v.sym is not None and X.get(atom_of(v.sym)) in insyms]
        self.counts = {k for k, v in cvars}
        for k, v in cvars:
            ins = next((i for b in R.fn.blocks.values() for i in b.ins if i.id == k), None) if not isinstance(k, tuple) else None
            ty = str(ins.d.get('ty')) if ins is not None else ''
            if re.match(r'i\d+$', ty) and int(ty[1:]) < 64: self.fail(0, 'the crossing paths are counted in %s bits, their number is a 64-bit one' % ty[1:])
        if self.kind == 'poisson': self.recorded()
        for s in range(400):
            sc = self.scene(s); w = sc.world
            try: self.estimate(sc, L, ret, cvars, X)
            except refute.Unint as u: self.dunno(0, str(u))
            try:
                self.tick(1)
                if L['kind'] != 'counted': raise refute.Unint('the loop over the repetitions is not understood')
                if self.known(sc): continue
                for N in (w['N'], 5000000000):
                    s2 = sc.sub(sym('N').single_atom(), N)
                    if s2.node(wrap(L['N'])) != N: self.fail(1, '%s paths instead of %d' % (s2.node(wrap(L['N'])), N))
            except refute.Unint as u: self.dunno(1, str(u))
            if self.known(sc): continue
            self.state(sc, L)
            try: self.path(sc, L, cvars)
            except refute.Unint as u:
                for k in (2, 3, 4, 5, 6): self.dunno(k, str(u))
        self.finish()

    def known(self, sc):
        """every path crosses, whatever is drawn"""
        w = sc.world
        return w['nb'] > 0 and w['nb'] < w['nB'] or self.kind == 'ecdf' and (w['n'] < w['nB'] or w['nb'] > 0 and w['n'] > w['nb'])

    def increments(self, sc, L, k):
        """what is added for a path that does not cross and one that does"""
        v = L['vars'][k]; inc = []
        for c in (0, 1):
            s2 = sc.sub(atom_of(L['t']), sc.world['rep']); s2.world = dict(sc.world, crosses=lambda q, c=c: c, exit=sc.world['exit']); s2.quants = {}
            inc.append(s2.node(wrap(L['nxt'][k])) - s2.env[atom_of(v.sym)])
        return inc

    def estimate(self, sc, L, ret, cvars, X):
        w = sc.world
        self.tick(0)
        m = w['rn'].randrange(w['N'] + 1)
        if len(cvars) == 1:
            k, v = cvars[0]
            s2 = self.scene(sc.seed)
            for t in range(60):      # a state in which the decision is asked for
                if t: s2 = self.scene(1000 * t + sc.seed)
                if self.known(s2): continue
                self.state(s2, L)
                if any(s2.node(e.pc) for e in self.cross): break
            i0, i1 = self.increments(s2, L, k)
            sc.env[X[atom_of(v.sym)]] = sc.node(wrap(v.init)) + m * i1 + (w['N'] - m) * i0
        elif cvars: raise refute.Unint('several counters')
        coins = {}
        c0 = w['crosses']; w['crosses'] = lambda k: coins.setdefault(k, c0(k)); w['bykey'] = not cvars
        if not cvars and w['N'] > 10: return
        got = sc.node(ret); w['crosses'] = c0; w['bykey'] = False
        if not cvars:
            m = sum(coins.values())
            if coins and len(coins) != w['N']: raise refute.Unint('%d decisions for %d paths' % (len(coins), w['N']))
        if self.known(sc) and (got == 1 or not cvars or not coins): 
            if got != 1: self.fail(0, '%s with %d and %d bounds: %s although every path crosses' % (self.kind, w['nb'], w['nB'], float(got)))
            return
        if not near(got, m / w['N']) and not self.known(sc): self.fail(0, '%s with %d and %d bounds, %d of %d paths crossing: %s' % (self.kind, w['nb'], w['nB'], m, w['N'], float(got)))

    def path(self, sc, L, cvars):
        w = sc.world
        specs = self.paths(sc)
        on = [e for e in self.cross if sc.node(e.pc)]
        if len(on) > 1: raise refute.Unint('several decisions for one path')
        where = '%d lower and %d upper bounds%s' % (w['nb'], w['nB'], ', intensity %g' % w['lam'] if self.kind == 'poisson' else '')
        if not specs: self.fail(3, 'a random number of 0 gives an infinite point'); return
        if on:
            e = on[0]; k = sc.node(e.args[1])
            for i, (l, name) in enumerate(((2, 'b_data'), (4, 'B_data'))):
                self.tick(5)
                want = sc.env_arrays(name) if hasattr(sc, 'env_arrays') else sc.arrays[name]
                if sc.node(e.args[l]) != len(want): self.fail(5, '%s: list %d has %s elements' % (where, i + 1, sc.node(e.args[l])))
                elif want:
                    j = w['rn'].randrange(len(want))
                    if sc.sub(J, j).node(e.args[l + 1]) != want[j]: self.fail(5, '%s: list %d is another one' % (where, i + 1))
            self.tick(4)
            ok = {nm for nm, p in specs.items() if len(p) == k}
            if not ok: self.fail(4, '%s: %s points instead of %s' % (where, k, sorted({len(p) for p in specs.values()})))
            elif self.kind == 'ecdf' and k:
                self.tick(3)
                for j in {0, k - 1, w['rn'].randrange(k)} | {c + d for c in self.sizes for d in (-1, 0) if 0 <= c + d < k}:
                    v = sc.sub(J, j).node(e.args[0])
                    ok2 = {nm for nm in ok & self.alts if near(v, specs[nm][j])}
                    if not ok2: self.fail(3, '%s: point %d is %s instead of %s' % (where, j, v, [specs[x][j] for x in ok])); break
                    self.alts &= ok2
            if self.kind == 'poisson' and not self.bad.get(4): self.alts &= ok
        spec = next(iter(specs.values()))
        if len(cvars) == 1:
            self.tick(2)
            i0, i1 = self.increments(sc, L, cvars[0][0])
            if on and i0 == i1: self.fail(2, '%s: the decision does not change the count' % where)
            if on: self.inc = getattr(self, 'inc', (i0, i1))
            if on and (i0, i1) != self.inc: self.fail(2, '%s: a path that crosses adds %s, one that does not %s' % (where, i1, i0))
            if on and abs(i1 - i0) != 1: self.fail(2, '%s: a path that crosses adds %s, one that does not %s' % (where, i1, i0))
            if not on:
                sure = all(w['nb'] > 0 and len(p) > w['nb'] or len(p) < w['nB'] for p in specs.values())
                inc = getattr(self, 'inc', (0, 1))
                if sure and i0 != inc[1]: self.fail(2, '%s: a path of %d points adds %s' % (where, len(spec), i0))
                elif not sure: self.fail(2, '%s: a path of %d points is not tested, it adds %s' % (where, len(spec), i0))
        elif not cvars: self.tick(2)
        if len(self.rngcells) == 1 and 6 not in self.bad:
            self.tick(6)
            key = next(iter(self.rngcells)); v = L['vars'][key]
            nx = sc.node(wrap(L['nxt'][key]))
            used = w['k0'] + (w['n'] + 1 if self.kind == 'ecdf' else min(map(len, specs.values())) + 1)
            if on and nx < used: self.fail(6, '%s: the next path begins %d numbers after this one, which took %d' % (where, nx - w['k0'], used - w['k0']))
            if sc.node(wrap(v.init)) != 0: self.dunno(6, 'first number')

    def recorded(self):
        """the points are stored in order: iteration t stores the t-th point and leaves the earlier ones"""
        k = 3
        for e in self.cross:
            n = e.args[0]
            nm = n.leaf.single_atom().args[0] if n.atom is None and isinstance(n.leaf, Poly) and n.leaf.single_atom() is not None and n.leaf.single_atom().kind == 'sel' else None
            L = next((l for l in self.loops.values() if l.get('exit_names') and nm in map(str, l['exit_names'][1].values())), None)
            if L is None: return self.dunno(k, 'the list of points is %s' % str(n)[:100])
            hdr = next(a for a, b in L['exit_names'][1].items() if str(b) == nm)
            loc = next(((o, f) for (o, f), x in L['names'].items() if x == hdr), None)
            if loc is None: return self.dunno(k, 'the list of points')
            o, f = loc; idx = n.leaf.single_atom().args[1]
            def at(mem):
                st = mem.objs[o].copy()
                return read_arr(self.R.ev.get_arr(st, o, f, 'r'), idx, 'r', lambda c: None)
            try:
                nxt = at(L['lmem']); ex = [(x.cond, at(x.mem)) for x in L['exits']]
                for s in range(300):
                    sc = self.scene(s)
                    if self.known(sc): continue
                    self.state(sc, self.loops[e.loops[0]['header']])
                    T = sc.exit(L); specs = self.paths(sc); t = atom_of(L['t'])
                    if not specs: continue
                    for tt in sorted({0, T, max(0, T - 1), sc.world['rn'].randrange(T + 1)}):
                        for j in sorted({0, tt, max(0, tt - 1)}):
                            s2 = sc.sub(t, tt).sub(J, j)
                            old = refute.hsh(s2.seed, hdr, rnd(s2.poly(idx)))
                            if tt < T:
                                v = s2.node(nxt)
                                if j < tt and v != old: self.fail(k, 'point %d is changed when point %d is drawn' % (j, tt))
                                if j == tt:
                                    self.tick(k)
                                    ok = {a for a in self.alts if a in specs and j < len(specs[a]) and near(v, specs[a][j])}
                                    if not ok: self.fail(k, 'intensity %g: point %d is %s instead of %s' % (sc.world['lam'], j, v, [x[j] for x in specs.values() if j < len(x)]))
                                    else: self.alts &= ok
                            elif j < tt:
                                for c, x in ex:
                                    if s2.node(c) and s2.node(x) != old: self.fail(k, 'point %d is changed after the last one is drawn' % j)
            except refute.Unint as u: return self.dunno(k, str(u))


def near(x, y): return x == y or isinstance(x, (int, float, Fraction)) and abs(float(x) - y) <= 1e-10 * max(abs(y), 1e-300)


def wrap(x): return x if isinstance(x, Node) else leaf(x)


# ---------------------------------------------------------------- the program
class MainScene(program.Scene):
    def other(self, a):
        if a.kind.startswith('estimate:'): return self.world['est']
        return super().other(a)


def commands(ck):
    r = program.run_main('crossprob_mc.cc', [role(x) for x in sim.ESTIMATE])
    ck.analysed += ['main (crossprob_mc.cc)'] + r.functions()
    ck.expected.append('indirect call')
    W = 'crossprob_mc: '
    rows = ['the lists are checked before anything is estimated', 'the requested simulation is made, with the lists of the file', 'one minus the estimate is printed']
    bad, und, cnt = {}, {}, {}
    ests = [e for e in r.ev.events if e.name == 'estimate']
    if not ests: return [ck.row(W + x, 'undecided', 'the simulations were not found') for x in rows]
    sizes = sorted({c for e in ests for x in [e.pc] + list(e.args[1:]) for c in refute.consts_of(x) if 5 < c < 3000})[:5]
    lens = [(0, 1), (1, 0), (2, 2), (3, 2), (2, 3), (0, 60), (60, 0), (60, 60)] + [(c + d, c + d) for c in sizes for d in (-1, 0, 1)] + [(0, c + 1) for c in sizes]
    for cmd, want in (('ecdf', sim.ESTIMATE[0]), ('poisson', sim.ESTIMATE[1])):
        for n1, n2 in lens:
            for sims in ('1', '10', '1000000', '123456789', '3000000000'):
                rn = random.Random(n1 * 31 + n2)
                est = rn.choice([0.0, 1.0, 0.25, 0.87654321, 1e-7])
                l1, l2 = refute.valid_list(rn, n1, 0), refute.valid_list(rn, n2, 0)
                env = {'hist': [], sym('argc').single_atom(): 4, 'arrays': {'file1_data': l1, 'file2_data': l2, ('len', 'file1'): n1, ('len', 'file2'): n2}}
                sc = MainScene(1, env); sc.strict = True
                sc.world = dict(argv=['crossprob_mc', cmd, 'some/file.txt', sims], throws=None, prog=r.prog, prob=None, est=est)
                where = '"%s", lists of %d and %d elements, %s simulations: ' % (cmd, n1, n2, sims)
                def fail(k, why): bad.setdefault(k, where + why)
                try:
                    on = [e for e in r.ev.events if e.name in ('estimate', 'check_boundary_vector') and sc.node(e.pc)]
                    es = [e for e in on if e.name == 'estimate']
                    for k in range(3): cnt[k] = cnt.get(k, 0) + 1
                    if len(es) != 1: fail(1, '%d simulations are made' % len(es)); continue
                    e = es[0]; a = e.args
                    if a[0].leaf.key[0] != want: fail(1, '%s is called' % a[0].leaf.key[0])
                    if sc.node(a[1]) != max(n1, n2): fail(1, 'for %s points' % sc.node(a[1]))
                    if sc.node(a[6]) != int(sims): fail(1, '%s simulations are made' % sc.node(a[6]))
                    for i, l in ((2, l1), (4, l2)):
                        if sc.node(a[i]) != len(l): fail(1, 'list %d has %s elements' % (i // 2, sc.node(a[i])))
                        elif l:
                            for j in {0, len(l) - 1, rn.randrange(len(l))}:
                                if sc.sub(J, j).node(a[i + 1]) != l[j]: fail(1, 'list %d is another one' % (i // 2))
                    before = on[:on.index(e)]
                    for nm in ('file1', 'file2'):
                        c = [x for x in before if x.name == 'check_boundary_vector' and nm + '_data' in str(x.args[3])]
                        if not c: fail(0, 'list %s is not checked' % nm[-1])
                        elif sc.node(c[0].args[1]) != len({'file1': l1, 'file2': l2}[nm]): fail(0, 'list %s is checked for another length' % nm[-1])
                    evs, ends = program.trace(r, sc); fmt = program.Format(); pr = []; loss = None
                    for x in evs:
                        if fmt.apply(sc, x) or x.name != 'out' or 'cout' not in str(x.args[0]): continue
                        pr.append(program.printed(sc, x))
                        if pr[-1][0] == 'number': loss = loss or fmt.loss()
                    nums = [x[1] for x in pr if x[0] == 'number']
                    if fmt.odd: raise refute.Unint('formatted by %s' % fmt.odd)
                    if len(nums) != 1: fail(2, '%d numbers are printed' % len(nums))
                    elif not refute.close(nums[0], 1 - est) and abs(nums[0] - 1 + est) > 1e-12: fail(2, '%s is printed for an estimate of %s' % (nums[0], est))
                    elif loss: fail(2, loss)
                except refute.Unint as u:
                    for k in range(3): und.setdefault(k, where + str(u))
    for k, x in enumerate(rows):
        if k in bad: ck.row(W + x, 'violated', bad[k])
        elif k in und or not cnt.get(k): ck.row(W + x, 'undecided', und.get(k, ''))
        else: ck.row(W + x, 'agreed', 'in %d situations' % cnt[k])


def simulation(ck):
    ck.rule = ('terms and gating conditions of the crossing decision, of one repetition of each simulation from an arbitrary state (random numbers as an opaque sequence), of the count and of the printed '
               'value, compared with their specification')
    def guarded(what, f):
        try: f()
        except refute.Unint as u: ck.row(what, 'undecided', str(u))
        except AnalysisError as e:
            if 'anchor vanished' not in str(e): raise
            ck.row(what, 'undecided', str(e))
    guarded('the crossing decision', lambda: crossing(ck))
    guarded('the ecdf simulation', lambda: Sim(ck, 'ecdf', role(sim.ESTIMATE[0])).check())
    guarded('the poisson simulation', lambda: Sim(ck, 'poisson', role(sim.ESTIMATE[1])).check())
    guarded('the program', lambda: commands(ck))

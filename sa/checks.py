"""Common machinery of the checks: running the analysis on an entry or driver, comparing derived terms
with their specification, turning the results into a verdict and an evidence file."""
import json, os, random, signal, sys, time
import build
from build import AnalysisError
from terms import *
from ir import Func, Program
import eval as E, loops, models, fftw, contracts, refute, order
from prove import leaves, pinned

VERIF = build.VERIF
DRIVERS = os.path.join(VERIF, 'drivers/lib.cc')


class OutOfTime(BaseException):
    pass


def watchdog(seconds):
    def h(*a): raise OutOfTime()
    signal.signal(signal.SIGALRM, h); signal.alarm(seconds)


class Check:
    def __init__(self, pid):
        self.pid = pid; self.t0 = time.time()
        self.rows = []          # (name, status, detail)
        self.analysed = []; self.notes = []
        self.level = 'other'; self.rule = ''
        self.trusted = []
        self.expected = []      # unmodelled constructs this check accounts for itself

    def row(self, name, status, detail=''):
        assert status in ('proved', 'agreed', 'violated', 'undecided')
        hard = [t for t in E.TAINT if not any(t[0].startswith(x) for x in self.expected)]
        if hard and status != 'undecided':
            status, detail = 'undecided', '%s at %s is not modelled (%s otherwise: %s)' % (hard[0] + (status, detail))
        self.rows.append((name, status, str(detail)[:1500]))

    def count(self, s): return sum(1 for r in self.rows if r[1] == s)

    def known(self):
        p = os.path.join(VERIF, 'known-findings.txt')
        out = []
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('known: property=%s ' % self.pid): out.append(l.split(' ', 2)[2])
        return out

    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
        known = self.known()
        viol = [r for r in self.rows if r[1] == 'violated']
        new = [r for r in viol if not any(k in r[0] + ' ' + r[2] for k in known)]
        for k in known:
            if any(k in r[0] + ' ' + r[2] for r in viol): print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        und = [r for r in self.rows if r[1] == 'undecided']
        cov = {'obligations': len(self.rows), 'discharged': self.count('proved'), 'agreed_by_interpretation': self.count('agreed'), 'undecided': len(und),
               'explanation': self.rule, 'rule': self.rule, 'analysed': sorted(set(self.analysed)),
               'samples': ['%s: %s' % (r[0], r[1]) for r in self.rows[:12]],
               'checker_cmd': 'python3 run_check.py %s' % self.pid,
               'trusted_base': ['clang 18 front end and the listed LLVM clean-up passes', 'the analyser in /verif/sa and /verif/tool'] + self.trusted}
        if und: cov['undecided_list'] = ['%s: %s' % (r[0], r[2][:300]) for r in und[:20]]
        ev = {'property': self.pid, 'tier': tier, 'seed': seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(new),
              'assumptions': ['lists have at most 2^27 elements', 'allocation succeeds', 'real arithmetic stands for floating point (the project compiles with -ffast-math)']}
        d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, self.pid + '.json.tmp')
        with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.pid + '.json'))
        print('%s: %d obligations, %d proved, %d agreed, %d undecided, %d violated (%.1f s)' % (self.pid, len(self.rows), self.count('proved'), self.count('agreed'), len(und), len(viol), time.time() - self.t0))
        for r in und: print('  undecided: %s: %s' % (r[0], r[2][:240]))
        if not self.rows: raise AnalysisError('%s: no obligation was generated' % self.pid)
        if new:
            rp = os.path.join(d, self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for r in new: f.write('%s\n    %s\n' % (r[0], r[2]))
            for r in new: print('  violated: %s: %s' % (r[0], r[2][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


# ------------------------------------------------------------ running the analysis
_programs = {}


def program(roots, units=None, opaque=(), drivers=True):
    units = units if units is not None else build.library_sources() + ([DRIVERS] if drivers else [])
    k = (tuple(roots), tuple(units), tuple(opaque))
    if k not in _programs: _programs[k] = Program(build.extract(list(roots), units, extra_opaque=list(opaque)))
    return _programs[k]


class Result:
    def __init__(self, ev, outs, args, objs, fn):
        self.ev = ev; self.outs = outs; self.args = args; self.objs = objs; self.fn = fn

    def of(self, kind): return [o for o in self.outs if o[0] == kind]

    def functions(self): return sorted(set(o.loc for o in self.ev.obls))


def evaluator(P, exn=False):
    order.reset()
    ev = E.Evaluator(P, exn=exn)
    ev.ctx.lemma_hooks += [loops.sym_hook, contracts.sorted_hook]
    return ev


def vec_param(ev, m, name, n=None, sort='r'):
    n = n if n is not None else Poly.atom(Atom('len', (name,), 'i'))
    o = ev.new_obj(name, None, 'param')
    d = ev.new_obj(name + '_data', n_mul(leaf(n), leaf(Poly.const(8))), 'param', stride=8)
    st = E.OState()
    st.cells[0] = leaf(Ptr(d, ZERO)); st.cells[8] = leaf(Ptr(d, n.scale(8))); st.cells[16] = st.cells[8]
    m.objs[o] = st; m.objs[d] = E.OState()
    return leaf(Ptr(o, ZERO)), o, d, n


def run(P, root, params, pre=(), facts=(), light=False, exn=False, rounded=False):
    """params: list of ('i'|'r', name) | ('arr', name, elems Poly or None) | ('vec', name) | ('str', name)"""
    q = P.find(root)
    if q is None: raise AnalysisError('%s is gone' % root)
    f = Func(q, exn=exn)
    ev = evaluator(P, exn); m = E.Mem(); args = []; objs = {}
    if len(f.params) != len(params): raise AnalysisError('%s takes %d parameters, expected %d' % (root, len(f.params), len(params)))
    for p, s in zip(f.params, params):
        if s[0] in 'ir': args.append(leaf(sym(s[1], s[0])))
        elif s[0] == 'node': args.append(s[1])
        elif s[0] == 'arr':
            sz = None if len(s) < 3 or s[2] is None else leaf(s[2].scale(8))
            o = ev.new_obj(s[1], sz, 'param', stride=8); m.objs[o] = E.OState(); objs[s[1]] = o; args.append(leaf(Ptr(o, ZERO)))
        elif s[0] == 'vec':
            a, o, d, n = vec_param(ev, m, s[1]); objs[s[1]] = d; args.append(a)
        elif s[0] == 'str':
            o = ev.new_obj(s[1], None, 'param'); args.append(leaf(Ptr(o, ZERO)))
    for n in facts: ev.ctx.add_node(n)
    ev.light = light; ev.rounded = rounded
    outs = ev.run(f, args, m, pre=list(pre))
    R = Result(ev, outs, args, objs, f)
    R.lists = [s[1] for s in params if s[0] == 'vec']
    return R


def content(res, mem, name, idx):
    """what the caller finds in element idx of array parameter `name` (Node)"""
    o = res.objs[name]
    st = mem.get(o).copy()
    a = st.arrs.get(0)
    if a is None: return leaf(Poly.atom(Atom('sel', (basename(res.ev, o), idx), 'r')))
    return read_arr(a, idx, 'r', res.ev.decide_node)


def basename(ev, o):
    a = ev.base_arr(o, 0, 'r')
    a = a.leaf if isinstance(a, Node) else a
    return a.args[0]


def elem(res, name, idx): return Poly.atom(Atom('sel', (basename(res.ev, res.objs[name]), idx), 'r'))


# ------------------------------------------------------------ comparing
def facts_node(facts):
    out = TRUE
    for p, s in facts: out = b_and(out, flt0(p) if s else fle0i(p))
    return out


def fle0i(p):
    if p.atoms() and all(a.sort == 'i' for a in p.atoms()): return ile0(p)
    return fle0(p)


def compare(ck, name, ctx, a, b, pre=TRUE, envs=None, detail='', samples=300):
    """row: a == b wherever pre holds"""
    c = ctx.clone()
    if pre is not TRUE: c.add_node(pre)
    x, y = c.simplify(a), c.simplify(b)
    if x is y or equal_nodes(c, x, y): ck.row(name, 'proved'); return True
    if pre is not TRUE and (ite(pre, x, FALSE) is ite(pre, y, FALSE)): ck.row(name, 'proved'); return True
    if by_cases(c, x, y): ck.row(name, 'proved'); return True
    unk = refute.unknown_syms(x) | refute.unknown_syms(y)
    msg = 'derived %s, specified %s' % (str(x)[:500], str(y)[:500])
    if unk:
        ck.row(name, 'undecided', 'terms over unresolved state %s; %s' % (sorted(map(str, unk))[:4], msg)); return None
    w = refute.differ(x, y, b_and(pre, facts_node([f for f in ctx.facts])), envs, n=samples)
    if w:
        it, u, v = w
        ck.row(name, 'violated', '%s differ: %s gives %s instead of %s; %s %s' % (name, refute.witness_str(it), fmt(u), fmt(v), msg, detail)); return False
    ck.row(name, 'undecided', ('not interpretable; ' if w is False else 'agree under every sampled valuation; ') + msg); return None


def fmt(v): return '%.6g' % v if isinstance(v, float) else str(v)


def by_cases(ctx, x, y, limit=200):
    """x == y on every consistent path of x, using the equalities that hold on the path"""
    n = [0]
    def same(c, u):
        if u is y: return True
        if not c._sat([]): return True
        a, b = c.simplify(u), c.simplify(y)
        if a is b: return True
        have = set(p for p, s in c.facts if not s)
        for p in list(have):
            if -p not in have: continue
            f = pinned(p)
            if f is None: continue
            a, b = f(a), f(b)
            if a is b: return True
        return equal_nodes(c, a, b)
    def rec(u, c):
        if n[0] > limit: return False
        if u.atom is None:
            n[0] += 1; return same(c, u)
        v = c.lits.get(u.atom)
        for val, ch in ((True, u.hi), (False, u.lo)):
            if v is not None and v != val: continue
            d = c.clone(); d.add_lit(u.atom, val)
            if not rec(ch, d): return False
        return True
    return rec(x, ctx)


def equal_nodes(ctx, x, y):
    try: d = n_sub(x, y)
    except Exception: return False
    d = ctx.simplify(d)
    return d is FALSE


def never(ck, name, ctx, cond, envs=None, detail='', samples=300):
    """row: boolean node cond never holds"""
    if cond is FALSE or ctx.prove(b_not(cond)): ck.row(name, 'proved'); return True
    c = ctx.clone(); c.add_node(cond)
    if not c._sat([]) or c.simplify(cond) is FALSE: ck.row(name, 'proved'); return True
    unk = refute.unknown_syms(cond)
    if not unk:
        w = refute.differ(cond, FALSE, facts_node(ctx.facts), envs, n=samples)
        if w:
            ck.row(name, 'violated', '%s happens for %s (%s)' % (name, refute.witness_str(w[0]), detail)); return False
    ck.row(name, 'undecided', '%s if %s' % (detail, str(cond)[:500])); return None


def unproved(ck, nm, o, r):
    """an obligation the analysis could not establish: an alarm when the invariants derived for the program point
    really admit a violating state"""
    if o.kind == 'termination':
        w = None if o.stuck is None else refute.admits(o.stuck, b_and(facts_node(r.ev.ctx.facts), symfacts_of(o.stuck)), r.lists, unshaped=True)
        if w: return ck.row(nm, 'violated', 'the loop can reach a state it never leaves: %s; e.g. %s' % (str(o.stuck)[:300], refute.witness_str(w)))
        return ck.row(nm, 'undecided', o.detail)
    if o.cond is None:
        if o.kind in HARD: return ck.row(nm, 'violated', o.detail)
        return ck.row(nm, 'undecided', o.detail)
    goal = b_and(o.pc, b_not(o.cond))
    w = refute.admits(goal, b_and(facts_node(o.facts), symfacts(o)), r.lists)
    if w: return ck.row(nm, 'violated', 'cannot be established: %s; the state %s satisfies every invariant derived for this point' % (str(o.cond)[:300], refute.witness_str(w)))
    ck.row(nm, 'undecided', o.detail)


def obligations(ck, res, kinds=None, skip=(), where=None, who=''):
    """one row per proof obligation the evaluation produced"""
    seen = set()
    for o in res.ev.obls:
        if kinds and o.kind not in kinds: continue
        if o.kind in skip: continue
        if where and not where(o): continue
        nm = '%s%s: %s: %s' % (who and who + ' at ', o.loc, o.kind, o.what[:200])
        if o.ok:
            if nm not in seen: seen.add(nm); ck.row(nm, 'proved')
        else: unproved(ck, nm, o, res)


def returns(ck, nm, r):
    """row: the evaluation found a normal return"""
    if r.of('ret'): ck.row(nm, 'proved'); return True
    open_ = [o for o in r.ev.obls if o.kind == 'termination' and not o.ok]
    ck.row(nm, 'undecided' if open_ else 'violated', 'no path returns normally' + ('; a loop is not understood' if open_ else '')); return False


HARD = {'free', 'free-match', 'null-plan', 'plan-kind', 'order'}


def symfacts(o): return symfacts_of(o.cond, o.pc)


def symfacts_of(*nodes):
    out = TRUE
    for s in frozenset().union(*[syms_of(n) for n in nodes]):
        if isinstance(s, Atom): out = b_and(out, facts_node(loops.SYMFACTS.get(s, [])))
    return out

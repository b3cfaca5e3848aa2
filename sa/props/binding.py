"""C17: the Python module hands its arguments to the library unchanged and returns its results and errors."""
import os
from checks import *
import cli, pybind, pymod
from cli import J
from prove import constrain

RT = 'PyExc_RuntimeError'


def source():
    d = os.path.join(build.REPO, 'python_extension')
    cc, py = os.path.join(d, 'crossprob.cc'), os.path.join(d, 'crossprob.py')
    for p in (cc, py):
        if not os.path.exists(p): raise AnalysisError('%s is gone' % p)
    return cc, py


def build_name(symbol):
    import subprocess
    t = subprocess.run(['c++filt', symbol], capture_output=True, text=True).stdout.strip()
    return t.split('(')[0] or symbol


def objptr(ev, m, name):
    o = ev.new_obj(name, None, 'param'); m.objs[o] = E.OState()
    return leaf(Ptr(o, ZERO))


def code_envs(k):
    r = random.Random(k)
    env = {'arrays': {}, 'funs': {'unpacked': lambda it, a: int(k % 9 != 8), 'and': lambda it, a: (lambda x, y: x & y)(*[it.poly(y) for y in a.args])}}
    for i in range(3):
        env[Atom('sym', ('code:item%d' % i,), 'i')] = r.choice([0, 512, 512, 0, -1, -5] if r.random() < .7 else [0, 512])
        env[Atom('sym', ('null:item%d' % i,), 'i')] = 0 if r.random() < .1 else 1
        env[Atom('sym', ('flag:item%d' % i,), 'i')] = r.randrange(2)
        c = r.choice([0, 1, 2, 3, 7, 40] + [x + d for x in refute.EXTRA for d in (0, 1) if x < 3000])
        if i and r.random() < .6: c = len(env['arrays']['item0_data'])
        l = refute.valid_list(r, c, r.randrange(6)) if not i or r.random() < .7 else list(env['arrays']['item0_data'])[:c]
        if l and r.random() < .4: l[r.choice([0, -1, r.randrange(len(l))])] = r.choice([-0.3, 0.0, 0.5, 1.0, 1.5, 20.0, float('nan')])
        env['arrays']['item%d_data' % i] = l + [0.0] * (c - len(l)); env['arrays'][('len', 'item%d' % i)] = c
        env[Atom('len', ('item%d' % i,), 'i')] = c
    env[J] = r.randrange(40)
    return env


def decide(ck, nm, ctx, a, b, pc=TRUE, detail=''):
    """row: boolean or value nodes a and b agree where pc holds"""
    if pc is FALSE: return ck.row(nm, 'proved')
    a, b = constrain(a, pc), constrain(b, pc)
    if a is b: return ck.row(nm, 'proved')
    w = refute.differ(a, b, pc, code_envs, n=600)
    if w and not refute.unknown_syms(a) and not refute.unknown_syms(pc): return ck.row(nm, 'violated', '%s: %s instead of %s (%s)' % (detail, str(w[1])[:200], str(w[2])[:200], refute.witness_str(w[0])))
    if refute.unknown_syms(a) or refute.unknown_syms(pc): return ck.row(nm, 'undecided', '%s: derived %s' % (detail, str(a)[:300]))
    ck.row(nm, 'agreed' if w is None else 'undecided', '%s: derived %s' % (detail, str(a)[:300]))


def code(i): return sym('code:item%d' % i)


def wrapper(ck, cc, inc, X, sym_, flags):
    kinds = pybind.FUNCTIONS[X]
    n = len(kinds)
    root = build_name(sym_)
    P = Program(build.extract([root], [cc] + build.library_sources(), extra_opaque=cli.OPAQUE + pybind.OPAQUE, flags=inc))
    q = P.find(root)
    if q is None: return ck.row('crossprob.%s: the wrapper can be analysed' % X, 'undecided', 'cannot find %s' % sym_)
    f = Func(q, exn=True)
    ev = evaluator(P, True); ev.throws = dict(pybind.THROWS)
    m = E.Mem()
    me, it0, tup = objptr(ev, m, 'self'), objptr(ev, m, 'item0'), objptr(ev, m, 'args')
    if flags == 8 and n != 1 or flags not in (1, 8):
        return ck.row('crossprob.%s: takes %d argument%s' % (X, n, 's'[n == 1:]), 'violated' if flags in (4, 8) else 'undecided', 'method flags are %d' % flags)
    outs = ev.run(f, [me, it0 if flags == 8 else tup], m)
    ck.analysed += [X + ' wrapper'] + sorted(set(o.loc for o in ev.obls))
    ctx = ev.ctx
    who = 'crossprob.%s' % X
    # number of arguments
    unp = [e for e in ev.events if e.name == 'unpack']
    ready = TRUE
    if flags == 1:
        nm = '%s: takes %d argument%s' % (who, n, 's'[n == 1:])
        if not unp: return ck.row(nm, 'undecided', 'no unpacking of the argument tuple found')
        c = [tuple(x.leaf.cval() if x.atom is None and isinstance(x.leaf, Poly) and x.leaf.is_const() else None for x in e.args[1:3]) for e in unp]
        ck.row(nm, 'proved' if c == [(n, n)] else 'violated' if len(c) == 1 and None not in c[0] else 'undecided', 'accepts %s' % c)
        if c != [(n, n)]: return
        ready = b_not(apply(lambda p: ieq0(p), app('unpacked', [leaf(Poly.const(n)), leaf(Poly.const(n))], 'i')))
    conv = [b_not(ile0(code(i) + ONE)) for i in range(n)]
    null = [b_not(ieq0(sym('null:item%d' % i))) if kinds[i] == 'l' else TRUE for i in range(n)]
    good = b_and(ready, *conv, *null)
    # the call
    ens = [e for e in ev.events if e.name == 'entry']
    nm = '%s: the computation of the same name is done exactly when every argument could be converted' % who
    if any(e.loops for e in ens): return ck.row(nm, 'undecided', 'called in a loop')
    other = [e for e in ens if e.args[0].leaf.key[0] != X]
    hit = [e for e in ens if e.args[0].leaf.key[0] == X]
    for e in other:
        if e.pc is not FALSE: never(ck, '%s: another computation (%s at %s)' % (who, e.args[0].leaf.key[0], e.loc), ctx, e.pc, code_envs, 'called')
    if not hit: return ck.row(nm, 'undecided' if not ens and ev.unsupported else 'violated', 'no call of %s found' % X)
    decide(ck, nm, ctx, b_or(*[e.pc for e in hit]), good, TRUE, 'called at %s' % ', '.join(e.loc for e in hit))
    for a in range(len(hit)):
        for b in range(a): 
            if b_and(hit[a].pc, hit[b].pc) is not FALSE: ck.row('%s: is called once' % who, 'undecided', 'calls at %s and %s' % (hit[a].loc, hit[b].loc))
    for e in hit:
        k = 1
        for i in range(n):
            if kinds[i] == 'l':
                decide(ck, '%s: list %d has its length' % (who, i + 1), ctx, e.args[k], leaf(Poly.atom(Atom('len', ('item%d' % i,), 'i'))), b_and(e.pc, good), 'at %s' % e.loc)
                inside = b_and(ile0(-Poly.atom(J)), ile0(Poly.atom(J) + ONE - Poly.atom(Atom('len', ('item%d' % i,), 'i'))))
                decide(ck, '%s: list %d has its elements in order' % (who, i + 1), ctx, e.args[k + 1], leaf(Poly.atom(Atom('sel', ('item%d_data' % i, Poly.atom(J)), 'r'))), b_and(e.pc, good, inside), 'at %s' % e.loc)
                k += 2
            else:
                decide(ck, '%s: the flag is handed on' % who, ctx, flag(e.args[k]), flag(leaf(sym('flag:item%d' % i))), b_and(e.pc, good), 'at %s' % e.loc); k += 1
    # results
    for o in outs:
        if o[0] == 'ret': continue
        never(ck, '%s: an exception leaves the wrapper (%s at %s)' % (who, o[0], o[4]), ctx, o[2], code_envs, str(o[1])[:100])
    rets = [o for o in outs if o[0] == 'ret']
    if not rets: return ck.row('%s: returns' % who, 'undecided', 'no return found')
    threw = {t: b_or(*[b_and(e.pc, batom('throws', *(e.ret + (t,)))) for e in hit]) for t in pybind.THROWS[X]}
    anyt = b_or(*threw.values())
    ret = leaf(ZERO)
    for o in rets: ret = ite(o[2], o[1], ret)
    want = leaf(ZERO)
    for e in hit: want = ite(e.pc, app('pyfloat', [app('prob:' + X, [leaf(Poly.const(e.ret[1]))], 'r')], 'i'), want)
    want = ite(b_and(good, b_not(anyt)), want, leaf(ZERO))
    decide(ck, '%s: gives the computed value, and nothing when the computation fails' % who, ctx, ret, want, TRUE, 'returned value')
    null_ret = apply(lambda p: ieq0(p) if isinstance(p, Poly) else FALSE, ret)
    errs = [e for e in ev.events if e.name == 'error' and e.pc is not FALSE]
    raised = b_or(*[e.pc for e in errs])
    if flags == 1: raised = b_or(raised, b_not(ready))
    decide(ck, '%s: an error is set exactly when nothing is returned' % who, ctx, raised, null_ret, TRUE, 'errors at %s' % ', '.join(sorted(set(e.loc for e in errs)))[:200])
    last = leaf(Opq('none'))
    for e in errs: last = ite(e.pc, e.args[0], last)
    for t, c in threw.items():
        if t == '_ZTISt13runtime_error':
            decide(ck, '%s: a runtime error of the library is a RuntimeError' % who, ctx, apply(lambda x: TRUE if RT in str(x) else FALSE, constrain(last, c)) if c is not FALSE else TRUE, TRUE, c, 'error set')
    # ownership of the converted lists
    for i in range(n):
        if kinds[i] != 'l': continue
        name = 'new#list:item%d' % i
        made = b_or(*[e.pc for e in ev.events if e.name == 'convert' and str(e.args[0].leaf).startswith('&item%d+' % i)])
        own = b_not(apply(ieq0, app('and', [leaf(Poly.const(512)), leaf(code(i))], 'i')))
        for o in rets:
            st = next((s for ob, s in o[3].objs.items() if ob.name == name), None)
            if st is None: continue
            decide(ck, '%s: list %d is released exactly if it was made by the conversion' % (who, i + 1), ctx, st.alive, b_not(own), b_and(o[2], made, conv[i], null[i]), 'still there at %s' % o[4])
    R = Result(ev, outs, [], {}, f); R.lists = []
    obligations(ck, R, {'use-after-free', 'double-free', 'free-match', 'null'}, who=who)


def flag(n): return apply(lambda p: b_not(ieq0(p)) if isinstance(p, Poly) else FALSE, n)


def conversions(ck, cc, inc):
    """the conversion of a list, of its elements and of a flag"""
    P = Program(build.extract(['swig::asptr'], [cc], extra_opaque=cli.OPAQUE + pybind.CONVERT, flags=inc))
    f = Func(P.find('swig::asptr'), exn=True)
    ev = evaluator(P, True); ev.throws = {}
    m = E.Mem(); it = objptr(ev, m, 'item0')
    s = ev.new_obj('out', leaf(Poly.const(8)), 'param'); m.objs[s] = E.OState()
    outs = ev.run(f, [it, leaf(Ptr(s, ZERO))], m)
    ck.analysed += ['swig::asptr'] + sorted(set(o.loc for o in ev.obls))
    n = Poly.atom(Atom('len', ('item0',), 'i'))
    jb = Atom('sym', ('$j',), 'i')
    bad = exists(jb, n, ile0(Poly.atom(Atom('sel', ('item0_code', Poly.atom(jb)), 'i')) + ONE))
    seq = b_not(apply(ieq0, app('isseq', [it], 'i'))); plain = apply(ieq0, app('wrapped', [it], 'i'))
    def envs(k):
        r = random.Random(k); c = r.choice([0, 1, 2, 5, 17, 40])
        codes = [0 if r.random() < .93 or k % 3 == 0 else r.choice([-1, -5]) for _ in range(c)]
        return {'funs': {'wrapped': lambda it, a: int(k % 11 == 10), 'isseq': lambda it, a: int(k % 7 != 6)}, 'arrays': {'item0_code': codes, ('len', 'item0'): c, 'item0_data': [r.random() if r.random() < .7 else r.choice([-0.2, 1.3, 0.0, 1.0, 1e-300, 1e9]) for _ in range(c)]}, Atom('len', ('item0',), 'i'): c, J: r.randrange(max(c, 1))}
    who = 'conversion of a list'
    for o in outs:
        if o[0] != 'ret': never(ck, '%s: an exception leaves it (%s at %s)' % (who, o[0], o[4]), ev.ctx, b_and(o[2], plain), envs, str(o[1])[:100])
    rets = [o for o in outs if o[0] == 'ret']
    if not rets: return ck.row('%s: returns' % who, 'undecided', 'no return found')
    def dec(nm, a, b, pc, what):
        if pc is FALSE: return ck.row(nm, 'proved')
        a, b = constrain(a, pc), constrain(b, pc)
        if a is b or a.atom is None and b.atom is None and a.leaf == b.leaf: return ck.row(nm, 'proved')
        w = refute.differ(a, b, pc, envs, n=400)
        if w and not refute.unknown_syms(a) and not refute.unknown_syms(pc): return ck.row(nm, 'violated', '%s: %s instead of %s (%s)' % (what, str(w[1])[:200], str(w[2])[:200], refute.witness_str(w[0])))
        ck.row(nm, 'agreed' if w is None and not refute.unknown_syms(a) else 'undecided', '%s: derived %s' % (what, str(a)[:300]))
    for v, pc, mem, loc in [(o[1], o[2], o[3], o[4]) for o in rets]:
        base = b_and(pc, plain)
        okc = apply(lambda p: b_not(ile0(p + ONE)) if isinstance(p, Poly) else FALSE, v)
        dec('%s: fails exactly when it is no sequence or one of its elements is no number' % who, okc, b_and(seq, b_not(bad)), base, 'returned at %s' % loc)
        succ = b_and(base, seq, b_not(bad))
        dec('%s: the caller is told that it owns the new list' % who, constrain(v, succ), leaf(Poly.const(512)), succ, 'returned at %s' % loc)
        p = constrain(mem.get(s).cells.get(0, leaf(UNDEF)), succ)
        ps = p.leaf if p.atom is None else None
        if not isinstance(ps, Ptr): ck.row('%s: gives a list' % who, 'undecided', str(p)[:200]); continue
        lv = cli.vec_value(ev, mem, p, None)
        if lv is None: ck.row('%s: gives a list' % who, 'undecided', str(p)[:200]); continue
        inside = b_and(ile0(-Poly.atom(J)), ile0(Poly.atom(J) + ONE - n))
        dec('%s: the length is kept' % who, constrain(lv[0], succ), leaf(n), succ, 'at %s' % loc)
        dec('%s: the elements are kept in order' % who, constrain(lv[1], succ), leaf(Poly.atom(Atom('sel', ('item0_data', Poly.atom(J)), 'r'))), b_and(succ, inside), 'at %s' % loc)
    # numbers and flags
    for root, who, fns in (('SWIG_AsVal_double', 'conversion of a number', ('py:PyFloat_AsDouble', 'py:PyLong_AsDouble')), ('SWIG_AsVal_bool', 'conversion of a flag', None)):
        E.TAINT[:] = []
        P = Program(build.extract([root], [cc], extra_opaque=[x for x in pybind.OPAQUE if root not in x], flags=inc))
        f = Func(P.find(root), exn=True)
        saved = {k: models.QTABLE.pop(k) for k in (root,) if k in models.QTABLE}
        try:
            ev = evaluator(P, True); ev.throws = {}
            m = E.Mem(); it = objptr(ev, m, 'item0')
            s = ev.new_obj('out', leaf(Poly.const(8)), 'param'); m.objs[s] = E.OState()
            outs = ev.run(f, [it, leaf(Ptr(s, ZERO))], m)
        finally: models.QTABLE.update(saved)
        ck.analysed.append(root)
        for o in outs:
            if o[0] != 'ret': never(ck, '%s: leaves by %s' % (who, o[0]), ev.ctx, o[2]); continue
            okc = b_and(o[2], apply(lambda p: b_not(ile0(p + ONE)) if isinstance(p, Poly) else FALSE, o[1]))
            if okc is FALSE: ck.row('%s: can succeed' % who, 'violated', 'always fails'); continue
            v = constrain(o[3].get(s).cells.get(0, leaf(UNDEF)), okc)
            if fns:
                right = [app(x, [it], 'r').leaf for x in fns]
                wrong = [(pl, l) for pl, l in paths_of(v, okc) if l not in right]
                ck.row('%s: gives the value of the Python number' % who, 'proved' if not wrong else 'violated' if all(isinstance(l, Poly) and not refute.unknown_syms(leaf(l)) for _, l in wrong) else 'undecided', 'stores %s' % (', '.join(str(l)[:120] for _, l in wrong)))
            else:
                dec('%s: gives the truth value of the Python object' % who, flag(v), flag(app('py:PyObject_IsTrue', [it], 'i')), okc, 'at %s' % o[4])


def paths_of(v, c):
    """leaves of v reachable where c holds"""
    return [(TRUE, l) for l in set(leaves(constrain(v, c)))]


def samples(kinds, k):
    r = random.Random(k)
    n = r.choice([0, 1, 2, 3, 5, 20, 70, 150, 400])
    def lst(fl):
        l = refute.valid_list(r, n, fl)
        if r.random() < .15 and l: i = r.randrange(len(l)); l = l[:i] + [r.choice([-0.1, 1.5, 0.0, float('nan'), 0.9])] + l[i + 1:]
        if r.random() < .1: l = l + [1.0]
        if r.random() < .15: l = [int(x) if x in (0.0, 1.0) else x for x in l]
        return tuple(l) if r.random() < .2 else l
    fl = r.randrange(6)
    return [lst(fl) if c == 'l' else r.random() < .5 for c in kinds]


def valid(kinds, args):
    ls = [a for c, a in zip(kinds, args) if c == 'l']
    return all(all(0 <= x <= 1 for x in l) and all(x <= y for x, y in zip(l, l[1:])) for l in ls) and len(set(len(l) for l in ls)) <= 1


def python_side(ck, py):
    ext = '_crossprob'
    for X, kinds in pybind.FUNCTIONS.items():
        nm = 'crossprob.py: %s hands its arguments on and gives back the result' % X
        ck.analysed.append('crossprob.py: ' + X)
        try: m = pymod.Module(py, ext)
        except (SyntaxError, ValueError) as e: raise AnalysisError('crossprob.py cannot be parsed: %s' % e)
        if pymod.forwards(m, X, len(kinds)): ck.row(nm, 'proved'); continue
        verdict, done = None, 0
        try:
            for k in range(400):
                m.reset()
                seq_ = [samples(kinds, k)]
                h = random.Random(k + 77)
                for _ in range(k % 4):
                    a = [list(x) if not isinstance(x, bool) else x for x in seq_[0]]
                    if h.random() < .7:
                        for x in a:
                            if isinstance(x, list) and x and h.random() < .7: i = h.randrange(len(x)); x[i] = x[i - 1] if i else 0.0
                        if isinstance(a[-1], bool) and h.random() < .5: a[-1] = not a[-1]
                    else: a = samples(kinds, k + 1000)
                    seq_.insert(0, a)
                for args in seq_[:-1]: m.call(X, [list(a) if isinstance(a, (list, tuple)) else a for a in args])
                args = seq_[-1]
                want = ('value', ('call', X, tuple(list(a) if isinstance(a, (list, tuple)) else a for a in args)))
                got = m.call(X, [list(a) if isinstance(a, list) else a for a in args])
                done += 1
                if same(got, want): continue
                if got[0] == 'raised' and not valid(kinds, args): continue
                if got[0] == 'value' and got[1] == 1 and isinstance(got[1], (int, float)) and not args[0]: continue      # nothing to ask for: the probability is 1
                if got[0] == 'missing': verdict = ('violated', 'the module offers no %s' % X); break
                verdict = ('violated', 'for %s%s: %s' % (str(args)[:200], ' after %d earlier calls' % (len(seq_) - 1) if len(seq_) > 1 else '', str(got)[:300])); break
        except pymod.Unknown as e: verdict = ('undecided', 'not understood: %s' % e)
        if verdict is None: verdict = ('agreed', 'under %d interpretations' % done)
        ck.row(nm, *verdict)


def same(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b: return True
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def binding(ck):
    ck.rule = ('the wrapper that the method table names for each function is evaluated with abstract arguments: the computation is entered exactly when all arguments convert, with the converted lists and flag; '
               'its value, or an error and nothing, is returned; the list conversion keeps length, order and values; crossprob.py passes arguments and result through')
    ck.expected += ['indirect call', 'call of swig::type_info', 'call of SWIG_Python_ConvertPtrAndOwn']      # what(); objects that already wrap a list are left out
    ck.trusted += ['the CPython interface behaves as documented']
    cc, py = source()
    inc = pybind.includes()
    tb = pybind.table(build._compile(cc, tuple(inc)))
    for X in pybind.FUNCTIONS:
        if not tb: ck.row('crossprob.%s: is offered by the module' % X, 'undecided', 'no method table found'); continue
        if X not in tb: ck.row('crossprob.%s: is offered by the module' % X, 'violated', 'not in the method table'); continue
        E.TAINT[:] = []
        wrapper(ck, cc, inc, X, *tb[X])
    E.TAINT[:] = []
    conversions(ck, cc, inc)
    E.TAINT[:] = []
    python_side(ck, py)

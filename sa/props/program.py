"""C07, C08: what the command line program does.  main() is evaluated symbolically with the library's entry points and the
file reader opaque; the derived events (what is read, computed, printed, the exit status) are compared with the specified
ones for every combination of argument count, command, list lengths and failing callee, over arbitrary list contents."""
import re
from checks import *
import cli
from models import exn_is_a

RT, IOF = cli.RT, cli.IOF


class Scene(refute.Interp):
    """one situation: command line arguments, list lengths and contents, the callee that throws (qualified name, type)"""

    def strval(self, a):
        if a.kind == 'lit': return unescape(a.args[0])
        if a.kind == 'cstr':
            x = a.args[0]
            x = x.leaf if isinstance(x, Node) and x.atom is None else x
            y = x.single_atom() if isinstance(x, Poly) else None
            if y is not None and y.kind == 'sel' and y.args[0] == 'argv':
                i = self.poly(y.args[1])
                if 0 <= i < len(self.world['argv']): return self.world['argv'][i]
                raise refute.Unint('argv[%s]' % i)
            if isinstance(x, Opq) and x.key[0] == 'icall': return WHAT
        if a.kind == 'strcat': return ''.join(str(self.key(x)) for x in a.args)
        raise refute.Unint('string %s' % a)

    def poly(self, p):
        a = p.single_atom()
        if a is not None and a.sort == 's': return self.strval(a)
        return super().poly(p)

    def batom(self, b):
        if b.kind == 'streq': return self.key(b.args[0]) == self.key(b.args[1])
        if b.kind == 'throws':
            th = self.world.get('throws')
            if th is None: return False
            c = self.world['prog'].qual(b.args[0])
            return c == th[0] and b.args[2] == th[1]
        if b.kind not in ('le0', 'fle', 'flt', 'eq0', 'feq', 'exists', 'isnan'): raise refute.Unint('decision ' + b.kind)
        return super().batom(b)

    def other(self, a):
        if a.kind == 'strlen': return len(self.key(a.args[0]))
        if a.kind == 'strtol':
            try: return int(self.key(a.args[0]))
            except ValueError: raise refute.Unint('not a number')
        if a.kind.startswith('prob:'): return self.world['prob'](a)
        if a.kind == 'sel' and str(a.args[0]).startswith('uninit'): raise refute.Unint('unwritten')
        return super().other(a)


def unescape(t):
    return re.sub(r'\\x([0-9a-f][0-9a-f])', lambda m: chr(int(m.group(1), 16)), t)


WHAT = '<message of the exception>'


def scene(world, env):
    s = Scene(1, env); s.world = world
    s.strict = True
    return s


def run_main(unit, opaque=()):
    src = os.path.join(build.REPO, 'src', unit)
    if not os.path.exists(src): raise AnalysisError(unit + ' is gone')
    P = Program(build.extract(['main'], build.library_sources() + [src], extra_opaque=contracts.OPAQUE + cli.OPAQUE + ['^%s$' % x for x in opaque]))
    if P.find('main') is None: raise AnalysisError('main of %s is gone' % unit)
    f = Func(P.find('main'), exn=True)
    ev = evaluator(P, True); ev.throws = cli.THROWS
    m = E.Mem()
    argv = ev.new_obj('argv', None, 'param', stride=8); m.objs[argv] = E.OState()
    args = [leaf(sym('argc')), leaf(Ptr(argv, ZERO))]
    outs = ev.run(f, args[:len(f.params)], m)
    R = Result(ev, outs, args, {}, f); R.lists = []; R.prog = P
    return R


def trace(r, sc):
    """what happens in a situation: (list of events with their values, how it ends)"""
    out = []
    for e in r.ev.events:
        if e.name.startswith('call:') and sc.node(e.pc) and any(k in e.name for k in ('print', 'put', 'write')): raise refute.Unint(e.name)
        if e.name.startswith('ios:') or e.name.startswith('call:std::') and e.args and '_ZSt4cout' in str(e.args[0]):
            if sc.node(e.pc): out.append(e)
        elif e.name in ('out', 'usage', 'entry', 'read-file', 'abort', 'check_boundary_vector', 'exit', 'terminate'):
            if e.loops: raise refute.Unint('%s in a loop' % e.name)
            if sc.node(e.pc): out.append(e)
    ends = [o for o in r.outs if sc.node(o[2])]
    return out, ends


def printed(sc, e):
    """('number', v) | ('text', s) | ('manip', m)"""
    x = e.args[1]
    while x.atom is not None: x = x.hi if sc.batom(x.atom) else x.lo
    v = x.leaf
    if isinstance(v, Opq): return ('manip', str(v.key[1]) if v.key[0] == 'manip' else 'unknown')
    if isinstance(v, Poly):
        y = sc.poly(v)
        return ('text', y) if isinstance(y, str) else ('number', y)
    return ('unknown', str(v))


class Format:
    """how a stream is set to print numbers; 'small' when fewer than six significant digits may remain"""

    def __init__(self): self.prec, self.fixed, self.odd = 6, False, None

    def apply(self, sc, e):
        """True when the event is a formatting one"""
        n = e.name
        if n == 'out':
            if 'cout' not in str(e.args[0]): return False
            m = re.match(r'call:std::(setprecision|setw|setfill|setbase|setiosflags|resetiosflags|put_money|put_time)\((-?\d+)?', str(e.args[1]))
            if not m: return False
            if m.group(1) == 'setprecision':
                a = e.args[1].leaf.single_atom()
                self.prec = sc.key(a.args[0])
            elif m.group(1) not in ('setw', 'setfill', 'setbase'): self.odd = m.group(1)
            return True
        if not n.startswith(('ios:', 'call:std::')): return False
        if '_ZSt4cout' not in str(e.args[0]): return True
        k = n.split(':')[-1]
        if k == 'precision' and len(e.args) > 1: self.prec = sc.node(e.args[1])
        elif k in ('fixed',): self.fixed = True
        elif k in ('scientific', 'defaultfloat', 'hexfloat'): self.fixed = False
        elif k == 'setf':
            f = sc.node(e.args[1])
            if f & 4 and not f & 256: self.fixed = True
        elif k in ('unsetf', 'copyfmt', 'flags', 'setstate', 'clear', 'rdbuf', 'imbue', 'init'): self.odd = k
        return True

    def loss(self):
        if self.fixed: return 'printed in fixed notation: a small probability loses its digits'
        if isinstance(self.prec, int) and 0 <= self.prec < 6 or not isinstance(self.prec, int): return 'printed with %s significant digits' % self.prec
        return None


COMMANDS = {'ecdf1-mns2016': ('one', 'ecdf1_mns2016'), 'ecdf1-new': ('one', 'ecdf1_new'), 'ecdf2-ks2001': ('two', 0), 'ecdf2-mn2017': ('two', 1)}
WRONG = ['', 'ecdf', 'ecdf1', 'ecdf2', 'ecdf1-mns201', 'ecdf1-mns20166', 'ECDF1-NEW', 'ecdf1-new ', 'ecdf2-ks2002', 'ecdf2', 'help', '--help']


def expected(cmd, l1, l2):
    """(entry, lists, flag) the command has to evaluate, None if the request is an error"""
    c = COMMANDS.get(cmd)
    if c is None: return None
    if c[0] == 'one':
        if l1 and not l2: return c[1] + '_b', [l1], None
        if l2 and not l1: return c[1] + '_B', [l2], None
        return None
    if len(l1) != len(l2) and l1 and l2: return None
    n = max(len(l1), len(l2))
    return 'ecdf2', [l1 if l1 or not n else [0.0] * n, l2 if l2 or not n else [1.0] * n], c[1]


def situations(r, deep=1):
    nodes = [n for e in r.ev.events for n in [e.pc] + [a for a in e.args if isinstance(a, Node)]]
    ths = sorted({c for n in nodes for c in size_consts(n) if 3 < c < 400000})
    ths = ths[:4] + ths[4:][-4:]
    reals = sorted({c + d for n in nodes for c in refute.real_consts(n) for d in (-1e-3, 0, 1e-3)})[:8]
    sizes = sorted({0, 1, 2, 3, 7} | {c + d for c in ths for d in (-1, 0, 1)} | ({2 * max(ths) + 1} if ths else set()))
    for argc in (0, 1, 2, 4, 5, 9): yield argc, 'ecdf1-new', 2, 0, None, None
    for cmd in list(COMMANDS) + WRONG:
        for n1 in sizes:
            for n2 in sizes:
                if cmd in WRONG and n1 + n2 > 4: continue
                if n1 > 12 and n2 > 12 and n1 != n2 and abs(n1 - n2) > 1: continue
                yield 3, cmd, n1, n2, None, None
        for v in [-0.25, -1e-18, 0.0, 5e-320, 1e-100, 0.5, 1 - 2.0 ** -53, 1.0, 1 + 2.0 ** -40, 1.5] + reals:
            for n1, n2 in ((0, 2), (2, 0), (2, 2)): yield 3, cmd, n1, n2, None, v
        for n1, n2 in ((0, 0), (0, 2), (2, 0), (2, 2), (2, 3)):
            yield 3, cmd, n1, n2, ('read_and_check_boundaries_file', RT), None
            yield 3, cmd, n1, n2, ('read_and_check_boundaries_file', IOF), None
            for e in cli.ENTRY_NAMES: yield 3, cmd, n1, n2, (e, RT), None


def size_consts(n):
    """list lengths the decisions of n distinguish"""
    out = set(); seen = set()
    def rec(x):
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, Node):
            if x.atom is None: rec(x.leaf)
            else: rec(x.atom); rec(x.hi); rec(x.lo)
        elif isinstance(x, Poly):
            if any('len' in str(k) for k in x.m): out.update(abs(int(v)) for k, v in x.m.items() if not k)
            for k in x.m:
                for a, e in k: rec(a)
        elif isinstance(x, Atom):
            for y in x.args: rec(y)
        elif isinstance(x, BAtom): rec(x.args)
        elif isinstance(x, (tuple, list)):
            for y in x: rec(y)
    rec(n)
    return out


def describe(s): return 'argc %d, command "%s", lists of %d and %d elements%s' % (s[0], s[1], s[2], s[3], ', %s raises %s' % (s[4][0], 'a stream failure' if s[4][1] == IOF else 'a runtime error') if s[4] else ', computed value %g' % s[5] if s[5] is not None else '')


def explore(ck, want):
    """walks all situations; want: 'result' (C07) or 'errors' (C08)"""
    ck.expected.append('indirect call')      # the virtual what() of a caught error: handled as an event
    r = run_main('crossprob.cc')
    ck.analysed += ['main (crossprob.cc)'] + r.functions() + sorted({e.loc for e in r.ev.events})
    bad = {}; count = {}; unknown = {}
    def fail(row, s, why): bad.setdefault(row, (s, why))
    def unk(row, s, why): unknown.setdefault(row, (s, why))
    for s in situations(r):
        argc, cmd, n1, n2, th, pv = s
        rn = random.Random(n1 * 31 + n2)
        l1, l2 = refute.valid_list(rn, n1, 0), refute.valid_list(rn, n2, 0)
        probs = {}
        def prob(a):
            return probs.setdefault(a, pv if pv is not None else 0.123456789012345 + len(probs) * .0625)
        world = dict(argv=['crossprob', cmd, 'some/file.txt', 'x', 'y', 'z', 'u', 'v', 'w'][:max(argc, 0)], throws=th, prog=r.prog, prob=prob)
        env = {'hist': [], sym('argc').single_atom(): argc, 'arrays': {'file1_data': l1, 'file2_data': l2, ('len', 'file1'): n1, ('len', 'file2'): n2}}
        sc = scene(world, env)
        exp = expected(cmd, l1, l2) if argc == 3 else None
        if th and th[0] == 'read_and_check_boundaries_file': exp = None
        ok = exp is not None and not (th and th[0] == exp[0])
        kind = 'a request that fails' if not ok else 'a request that is answered'
        try: evs, ends = trace(r, sc)
        except refute.Unint as u:
            unk('situations', s, str(u)); continue
        # -- what is computed
        comp = [e for e in evs if e.name == 'entry']
        name = 'command %s: ' % cmd if cmd in COMMANDS else 'unknown command: '
        if argc != 3: name = 'wrong number of arguments: '
        if want == 'result':
            row = name + 'evaluates the right computation on the right lists'
            count[row] = count.get(row, 0) + 1
            if exp is None:
                if comp: fail(row, s, '%s is evaluated' % comp[0].args[0].leaf.key[0])
            elif len(comp) != 1: fail(row, s, '%d computations are evaluated instead of %s' % (len(comp), exp[0]))
            else:
                why = same_call(sc, comp[0], exp)
                if why and why.startswith('?'): unk(row, s, why)
                elif why: fail(row, s, why)
            reads = [e for e in evs if e.name == 'read-file']
            if argc == 3:
                row = 'the boundaries are read once, from the file named by the second argument'
                count[row] = count.get(row, 0) + 1
                try: fn = [sc.node(e.args[0]) for e in reads]
                except refute.Unint as u: unk(row, s, str(u)); fn = None
                if fn is not None and fn != ['some/file.txt'] and not (fn == [] and cmd not in COMMANDS): fail(row, s, 'files read: %s' % fn)
        pr = []; fmt = Format(); loss = None
        try:
            for e in evs:
                if fmt.apply(sc, e): continue
                if e.name == 'out' and 'cout' in str(e.args[0]):
                    pr.append(printed(sc, e))
                    if pr[-1][0] == 'number': loss = loss or fmt.loss()
        except refute.Unint as u: unk('output', s, str(u)); continue
        nums = [x for x in pr if x[0] in ('number', 'unknown')]
        if want == 'result' and ok:
            row = name + 'prints the computed probability and nothing else'
            count[row] = count.get(row, 0) + 1
            text = ''.join('\n' if x[0] == 'manip' and 'endl' in x[1] else x[1] for x in pr if x[0] == 'text' or x[0] == 'manip' and 'endl' in x[1])
            odd = [x for x in pr if x[0] == 'manip' and not any(k in x[1] for k in ('endl', 'flush'))]
            want_v = [v for a, v in probs.items() if a.kind == 'prob:' + exp[0]]
            if odd or fmt.odd or [x for x in nums if x[0] == 'unknown']: unk(row, s, 'formatted by %s %s' % ((odd + nums)[:2], fmt.odd))
            elif any(e.name == 'usage' for e in evs): fail(row, s, 'the usage text is printed')
            elif len(nums) != 1: fail(row, s, '%d numbers are printed' % len(nums))
            elif nums[0][1] not in want_v and not (len(want_v) == 1 and nums[0][1] == min(1.0, max(0.0, want_v[0])) and abs(nums[0][1] - want_v[0]) < 1e-6): fail(row, s, '%s is printed instead of the computed probability %s' % (nums[0][1], want_v))
            elif loss: fail(row, s, loss)
            elif text.strip(): fail(row, s, 'also prints "%s"' % text.strip()[:80])
            elif text != '\n': fail(row, s, 'the line is not ended')
        if want == 'errors':
            row = kind + ': the program ends with ' + ('exit status 0' if ok else 'a non-zero exit status')
            count[row] = count.get(row, 0) + 1
            if len(ends) != 1: unk(row, s, '%d ends' % len(ends)); continue
            o = ends[0]
            if o[0] != 'ret': fail(row, s, 'ends by %s %s' % (o[0], str(o[1])[:60]))
            else:
                try: st = sc.node(o[1])
                except refute.Unint as u: unk(row, s, str(u)); continue
                if ok and st != 0 or not ok and (not isinstance(st, int) or st % 256 == 0): fail(row, s, 'exit status %s' % st)
            if not ok:
                row = kind + ': no number is printed'
                count[row] = count.get(row, 0) + 1
                if [x for x in nums if x[0] == 'number']: fail(row, s, 'prints %s' % nums[0][1])
                row = kind + ': the user is told'
                count[row] = count.get(row, 0) + 1
                alltext = [x for x in pr if x[0] == 'text' and x[1].strip()] + [e for e in evs if e.name == 'usage'] + [e for e in evs if e.name == 'out' and 'cerr' in str(e.args[0])]
                if not alltext: fail(row, s, 'nothing is printed')
                if th and exp is None and argc == 3 and cmd in COMMANDS or th and exp and th[0] == exp[0]:
                    row = kind + ': the message of the error is printed'
                    count[row] = count.get(row, 0) + 1
                    cerr = []
                    try: cerr = [printed(sc, e) for e in evs if e.name == 'out' and 'cerr' in str(e.args[0])]
                    except refute.Unint: pass
                    if not any(x[0] == 'text' and WHAT in x[1] for x in pr + cerr): 
                        if th[0] == 'read_and_check_boundaries_file' or exp: fail(row, s, 'printed: %s' % [x[1] for x in pr][:6])
    for row in sorted(set(count) | set(unknown)):
        if row in bad: ck.row(row, 'violated', '%s: %s' % (describe(bad[row][0]), bad[row][1]))
        elif row in unknown: ck.row(row, 'undecided', '%s: %s' % (describe(unknown[row][0]), unknown[row][1]))
        else: ck.row(row, 'proved' if False else 'agreed', 'in all %d situations' % count[row])


def same_call(sc, e, exp):
    nm, lists, flag = exp
    try:
        got = e.args[0].leaf.key[0]
        if got != nm: return '%s is evaluated instead of %s' % (got, nm)
        a = e.args[1:]
        for k, l in enumerate(lists):
            n = sc.node(a[2 * k])
            if n != len(l): return 'list %d passed on has %s elements instead of %d' % (k + 1, n, len(l))
            for q in range(len(l)) if len(l) < 40 else sorted({0, 1, 2, len(l) - 3, len(l) - 2, len(l) - 1} | {random.Random(len(l)).randrange(len(l)) for _ in range(12)}):
                v = sc.sub(cli.J, q).node(a[2 * k + 1])
                if v != l[q]: return 'element %d of list %d passed on is %s instead of %s' % (q, k + 1, v, l[q])
        if flag is not None:
            f = sc.node(a[2 * len(lists)])
            if bool(f) != bool(flag): return 'the convolution method is %s instead of %s' % ('FFT' if f else 'direct', 'FFT' if flag else 'direct')
    except refute.Unint as u: return '? ' + str(u)
    return None


def result(ck):
    ck.rule = ('path conditions and arguments of every call, print and exit of main, derived symbolically with the library opaque: for each command and each shape of the two lists exactly the specified '
               'computation is evaluated on the specified lists, and its result is what is printed')
    explore(ck, 'result')


def errors(ck):
    ck.rule = ('path conditions of every exit and print of main, with every opaque callee returning or throwing: status 0 exactly when a result was printed, otherwise non-zero with a message and no number')
    explore(ck, 'errors')
    mc_errors(ck)


MC_WRONG = ['', 'ecd', 'ecdf2', 'poissonn', 'Poisson', 'ecdf1-new', 'help']


class McScene(Scene):
    def other(self, a):
        if a.kind in ('Xphi', 'phi', 'X', 'call:time') or a.kind.startswith(('call:', 'sum', 'fold')): return self.world['free'](a)
        return super().other(a)


def mc_situations():
    for argc in (0, 1, 2, 3, 5, 6): yield argc, 'ecdf', '10', 2, 2, None
    for sims in ('1', '10', '1000000', '0', '-1', '-1000000', '2147483648', '4294967296'):
        for cmd in ('poisson', 'ecdf') + (tuple(MC_WRONG) if sims == '10' else ('help',)):
            for n1, n2 in ((0, 0), (0, 2), (2, 0), (2, 2), (3, 2), (2, 3), (0, 60), (60, 60)): yield 4, cmd, sims, n1, n2, None
    for cmd in ('poisson', 'ecdf', 'help'):
        for n1, n2 in ((0, 0), (0, 2), (2, 2)):
            for th in ((('read_and_check_boundaries_file', RT)), ('read_and_check_boundaries_file', IOF), ('check_boundary_vector', RT), ('string_to_long', RT)):
                yield 4, cmd, 'x1' if th[0] == 'string_to_long' else '10', n1, n2, th


def mc_errors(ck):
    ck.expected.append('indirect call')
    r = run_main('crossprob_mc.cc')
    ck.analysed += ['main (crossprob_mc.cc)'] + r.functions()
    bad, count, unknown = {}, {}, {}
    pre = 'crossprob_mc: '
    for s in mc_situations():
        argc, cmd, sims, n1, n2, th = s
        rn = random.Random(n1 * 31 + n2)
        free = {}
        world = dict(argv=['crossprob_mc', cmd, 'some/file.txt', sims, 'y', 'z'][:argc], throws=th, prog=r.prog, prob=None,
                     free=lambda a: free.setdefault(a, 1 + len(free)))
        env = {'hist': [], sym('argc').single_atom(): argc, 'arrays': {'file1_data': refute.valid_list(rn, n1, 0), 'file2_data': refute.valid_list(rn, n2, 0), ('len', 'file1'): n1, ('len', 'file2'): n2}}
        sc = McScene(1, env); sc.world = world; sc.strict = True
        ok = argc == 4 and cmd in ('poisson', 'ecdf') and th is None and int(sims) > 0
        where = 'argc %d, command "%s", "%s" simulations, lists of %d and %d elements%s' % (argc, cmd, sims, n1, n2, ', %s raises an exception' % th[0] if th else '')
        def fail(row, why): bad.setdefault(pre + row, '%s: %s' % (where, why))
        def tick(row): count[pre + row] = count.get(pre + row, 0) + 1
        try:
            evs, ends = trace(r, sc)
            pr = []; fmt = Format()
            for e in evs:
                if fmt.apply(sc, e) or e.name != 'out': continue
                pr.append((('number', 1) if is_number(e.args[1]) else printed(sc, e), 'cout' in str(e.args[0])))
            row = 'exit status 0 exactly when an estimate was asked for correctly'; tick(row)
            if len(ends) != 1: raise refute.Unint('%d ends' % len(ends))
            if ends[0][0] != 'ret': fail(row, 'ends by %s' % ends[0][0])
            else:
                st = sc.node(ends[0][1])
                if ok and st != 0 or not ok and st % 256 == 0: fail(row, 'exit status %s' % st)
            nums = [x for x, out in pr if out and x[0] == 'number']
            if ok:
                row = 'an answered request prints one number'; tick(row)
                if len(nums) != 1: fail(row, '%d numbers are printed' % len(nums))
            else:
                row = 'a failed request prints a message and no number'; tick(row)
                if nums: fail(row, 'a number is printed')
                elif not any(x[0] == 'text' and x[1].strip() for x, _ in pr) and not any(e.name == 'usage' for e in evs): fail(row, 'nothing is printed')
                if th:
                    row = 'the message of the error is printed'; tick(row)
                    if not any(x[0] == 'text' and WHAT in x[1] for x, _ in pr): fail(row, 'printed: %s' % [x[1] for x, _ in pr][:4])
        except refute.Unint as u: unknown.setdefault(pre + 'situations', '%s: %s' % (where, u))
    for row in sorted(set(count) | set(unknown)):
        if row in bad: ck.row(row, 'violated', bad[row])
        elif row in unknown: ck.row(row, 'undecided', unknown[row])
        else: ck.row(row, 'agreed', 'in all %d situations' % count[row])


def is_number(n):
    """every leaf is a real number expression"""
    if n.atom is not None: return is_number(n.hi) and is_number(n.lo)
    return isinstance(n.leaf, Poly) and (n.leaf.single_atom() is None or n.leaf.single_atom().sort != 's')

"""C09: how text becomes boundary lists: lines of the file, fields of a line, the number in a field.  Each function is analysed
on its own; the terms and gating conditions derived for it are compared with the specification."""
from checks import *
import cli, text
from text import RT, IOF
from models import plead


class TextScene(refute.Interp):
    def batom(self, b):
        if b.kind == 'is_open': return self.world['open']
        if b.kind == 'read_ok':
            k = self.key(b.args[0])
            return self.world.get('missing', 99) > k - 1
        if b.kind == 'throws': return False
        if b.kind not in ('le0', 'fle', 'flt', 'eq0', 'feq', 'exists', 'isnan'): raise refute.Unint('decision ' + b.kind)
        return super().batom(b)

    def other(self, a):
        k = a.kind.split(':')[0]
        if k in self.world: return self.world[k]
        if a.kind == 'sel' and str(a.args[0]).startswith('chars('):
            i = self.poly(a.args[1]) if isinstance(a.args[1], Poly) else self.node(a.args[1])
            c = self.world['chars']
            if isinstance(c, dict): return c.get(i, 48)
            return c[i] if 0 <= i < len(c) else 0
        return super().other(a)


def scene(world, env=None):
    s = TextScene(1, dict(env or {}, arrays={})); s.world = world; s.strict = True
    return s


def run_text(root, opaque):
    P = program([root], opaque=list(opaque), drivers=False)
    if P.find(root) is None: raise AnalysisError(root + ' is gone')
    f = Func(P.find(root), exn=True)
    ev = evaluator(P, True); ev.throws = {}
    m = E.Mem(); args = []
    for p in f.params:
        if p['ty'] == 'ptr':
            o = ev.new_obj('arg%d' % len(args), None, 'param'); args.append(leaf(Ptr(o, ZERO)))
        else: args.append(leaf(sym('arg%d' % len(args))))
    outs = ev.run(f, args, m)
    R = Result(ev, outs, args, {}, f); R.prog = P; R.lists = []
    return R


def number(ck, fn, conv, situations, must):
    """fn(s) is conv(s), with an exception exactly when the specification says so"""
    R = run_text(fn, [])
    ck.analysed += [fn] + R.functions()
    s = leaf(sym('str:arg0+0', 's'))
    rows = {'%s: the value is the one of the whole text' % fn: None, '%s: raises an error exactly for text that is no number' % fn: None}
    r1, r2 = rows
    calls = [e for e in R.ev.events if e.name == 'conversion']
    if not calls: return [ck.row(r, 'undecided', 'no conversion by the C library found') for r in rows]
    und = {}
    for w in situations:
        sc = scene(w)
        try:
            ends = [o for o in R.outs if sc.node(o[2])]
            if len(ends) != 1: raise refute.Unint('%d ends' % len(ends))
            o = ends[0]; want = must(w)
            if want is not None and (o[0] == 'throw') != want:
                rows[r2] = rows[r2] or ('violated', '%s text for which %s consumes %d of %d characters, gives %s and range error %d' % ('rejects' if not want else 'accepts', conv, w['consumed'], w['strlen'], w['value'], w['range_error']))
            if o[0] == 'throw':
                th = [e for e in R.ev.events if e.name == 'throw' and sc.node(e.pc)]
                if th and not any(RT in str(e.args[1]) for e in th): rows[r2] = rows[r2] or ('violated', 'raises %s instead of a runtime error' % th[0].args[1])
            elif want is not True:
                e = [c for c in calls if sc.node(c.pc)]
                got = sc.node(o[1])
                if got != w['value']: rows[r1] = rows[r1] or ('violated', 'gives %s when %s gives %s' % (got, conv, w['value']))
                for c in e:
                    if c.args[0].leaf.key[0] not in (conv, conv + 'l', conv.replace('strtol', 'strtoll')):
                        rows[r1] = rows[r1] or ('violated', 'converts by %s' % c.args[0].leaf.key[0])
                    elif c.args[1] is not s: rows[r1] = rows[r1] or (('violated' if same_text(c.args[1]) else 'undecided'), 'converts %s' % c.args[1])
                    elif conv == 'strtol' and sc.node(c.args[2]) != 10: rows[r1] = rows[r1] or ('violated', 'in base %s' % c.args[2])
        except refute.Unint as u: und[r1] = und[r2] = str(u)
    for r, v in rows.items():
        if v: ck.row(r, *v)
        elif r in und: ck.row(r, 'undecided', und[r])
        else: ck.row(r, 'proved', 'for every outcome of the conversion')


def same_text(n):
    """a literal or another known part of the argument"""
    a = n.leaf.single_atom() if n.atom is None and isinstance(n.leaf, Poly) else None
    return a is not None and a.kind in ('substr', 'lit')


def doubles():
    for cons, ln in ((0, 0), (0, 5), (1, 1), (3, 3), (20, 20), (3, 4), (3, 5)):
        for v, err in ((0.0, 0), (-0.0, 0), (0.5, 0), (1.0, 0), (1e-300, 0), (-0.25, 0), (7.5, 0), (1e308, 0), (float('inf'), 34), (-float('inf'), 34), (float('inf'), 0), (0.0, 34), (-0.0, 34), (1e-310, 34)):
            if cons == 0 and (v != 0 or err): continue
            for c in ((' ', '\r', '\t') if cons < ln else ('',)):
                yield dict(value=v, range_error=err, consumed=cons, strlen=ln, chars=[48] * cons + [ord(x) for x in c] * (ln - cons))


def longs():
    M, m = 2 ** 63 - 1, -2 ** 63
    for cons, ln in ((0, 0), (0, 3), (1, 1), (3, 3), (19, 19), (2, 3), (1, 9)):
        for v, err in ((0, 0), (1, 0), (-1, 0), (1000000, 0), (2 ** 31, 0), (2 ** 32 + 7, 0), (M, 0), (m, 0), (M, 34), (m, 34)):
            if cons == 0 and (v or err): continue
            for c in ((' ', 'x', '.', 'e') if cons < ln else ('',)):
                yield dict(value=v, range_error=err, consumed=cons, strlen=ln, chars=[48] * cons + [ord(x) for x in c] * (ln - cons))


# ---------------------------------------------------------------- fields of a line
def fields(ck):
    R = run_text('read_comma_delimited_doubles', [r'^string_to_double$'])
    ev = R.ev
    ck.analysed += ['read_comma_delimited_doubles'] + R.functions()
    rows = ['a line is cut exactly at its commas, every character kept', 'the text after the last comma is the last field', 'only one empty last field is left out', 'element i is the number in field i']
    W = 'read_comma_delimited_doubles: '
    def und(k, why): ck.row(W + rows[k], 'undecided', why)
    pushes = [e for e in ev.events if e.name == 'push_back_string']
    inl = [e for e in pushes if e.loops]; post = [e for e in pushes if not e.loops]
    shape = None
    if len(inl) != 1 or len(post) != 1 or len(inl[0].loops) != 1: shape = '%d pushes in a loop, %d after it' % (len(inl), len(post))
    else:
        L = inl[0].loops[0]
        st = v = None
        for x in substrs(inl[0].args[1]):
            q = syms_of(wrap(x.args[1]))
            v = v or next((y for y in L['vars'].values() if y.sym is not None and y.sym != L['t'] and atom_of(y.sym) in q), None)
            if v is not None and st is None: st = atom_of(v.sym)
        if L['kind'] != 'counted' or v is None or not substrs(post[0].args[1]): shape = 'the loop over the characters is not understood'
        elif any(str(one_(x.args[0])) != 'str:arg1+0' for e in (inl[0], post[0]) for x in substrs(e.args[1])): shape = 'fields of another text'
    if shape:
        for k in range(4): und(k, shape)
        return
    t = atom_of(L['t'])
    key = next(k for k, x in L['vars'].items() if x is v)
    last = next((y for z in substrs(post[0].args[1]) for x in z.args[1:3] for y in syms_of(wrap(x)) if isinstance(y, Atom) and str(y.args[0]).startswith('X')), None)
    bad = {}; n = 0
    rn = random.Random(5)
    try:
        for k in range(600):
            ln = rn.choice([1, 2, 3, 5, 9, 300, 3000, 40000, 70000, 3000000]); T = rn.randrange(ln); start = rn.randrange(T + 1)
            if k % 3 == 0: start = T
            if k % 5 == 0: start = 0
            if k % 7 == 0: start = max(0, T - rn.choice([1, 2, 20, 40]))
            ch = {i: rn.choice([44, 44, 48, 32, 59, 46, 0x2c - 128, 9, 13]) for i in {0, max(0, T - 1), T, T + 1, start, max(start - 1, 0), ln - 1} if i < ln}
            w = dict(strlen=ln, chars=ch)
            sc = scene(w, {t: T, st: start})
            comma = ch[T] == 44
            got = sc.node(inl[0].pc)
            n += 1
            at = 'character %d of %d is %s, field began at %d' % (T, ln, ch[T], start)
            if bool(got) != comma: bad.setdefault(0, '%s: %s' % (at, 'no field is ended' if comma else 'a field is ended'))
            if got and comma:
                o, c = cut(sc, inl[0].args[1], ln)
                if (o, c) != (start, T - start): bad.setdefault(0, '%s: the field is %d characters from %d on' % (at, c, o))
            nx = sc.node(L['nxt'][key])
            if nx != (T + 1 if comma else start): bad.setdefault(0, '%s: the next field begins at %s' % (at, nx))
            if sc.node(v.init) != 0: bad.setdefault(0, 'the first field begins at %s' % v.init)
            if sc.node(L['N']) != ln: bad.setdefault(0, '%s of %d characters are looked at' % (sc.node(L['N']), ln))
            s2 = scene(w, {last: start} if last is not None else {})
            if not s2.node(post[0].pc): bad.setdefault(1, 'it is not always added')
            o, c = cut(s2, post[0].args[1], ln)
            if (o, c) != (start, ln - start): bad.setdefault(1, 'it is %d characters from %d on instead of all from %d to %d' % (c, o, start, ln))
    except refute.Unint as u:
        for k in range(4): und(k, str(u))
        return
    for k in (0, 1):
        if k in bad: ck.row(W + rows[k], 'violated', bad[k])
        else: ck.row(W + rows[k], 'agreed', 'one arbitrary character from an arbitrary state, %d interpretations' % n)
    convert(ck, R, W, rows, inl[0])


def substrs(n):
    """the substring atoms a string-valued node may be"""
    if not isinstance(n, Node): n = leaf(n)
    if n.atom is not None: return substrs(n.hi) + substrs(n.lo)
    a = one(n)
    return [a] if a is not None and a.kind == 'substr' else []


def cut(sc, n, ln):
    """(start, length) of the substring n is"""
    while n.atom is not None: n = n.hi if sc.batom(n.atom) else n.lo
    a = one(n)
    if a is None or a.kind != 'substr': raise refute.Unint('the field is %s' % str(n)[:60])
    o, c = sc.node(wrap(a.args[1])), sc.node(wrap(a.args[2]))
    return o, min(c % (1 << 64), ln - o)


def one_(x):
    return x.leaf if isinstance(x, Node) and x.atom is None else x


def one(x):
    x = one_(x)
    return x.single_atom() if isinstance(x, Poly) else x if isinstance(x, Atom) else None


def atom_of(x):
    return one(x) if not isinstance(x, Atom) else x


def wrap(x): return x if isinstance(x, Node) else leaf(x)


def convert(ck, R, W, rows, push):
    """the list that is returned"""
    ev = R.ev
    ret = [o for o in R.outs if o[0] == 'ret']
    if len(ret) != 1: return [ck.row(W + rows[k], 'undecided', '%d returns' % len(ret)) for k in (2, 3)]
    got = cli.vec_value(ev, ret[0][3], R.args[0], None)
    if got is None: return [ck.row(W + rows[k], 'undecided', 'the returned list is not understood') for k in (2, 3)]
    n, el = got
    vec = plead(push.args[0]).obj
    last = Atom('lastlen', (), 'i')
    bad = None; cnt = 0
    rn = random.Random(9)
    try:
        ths = sorted({c for c in set(refute.consts_of(n)) | set(refute.consts_of(el)) if 4 < c < 5000 and c != 44})[:4]
        lits = sorted({x for y in (n, el) for x in literals(y)})[:6]
        lines_ = [rn.choice([0, 1, 2, 3, 7, 40, 1200]) for _ in range(120)]
        lines_ = [''.join(rn.choice(',00.') for _ in range(l)) for l in lines_] + ['0,' * (c + d) + e for c in ths for d in (-2, -1, 0, 1, c) for e in ('', '1')]
        lines_ += [','.join(f) for c in [1, 2, 9, 40] + [c + d for c in ths for d in (0, 1)] for f in (['0' * c] * 3, ['1', '0' * c, '0' * c], ['0' * c, '0' * c, '1'], ['0' * c, '1', '0' * c], ['0' * c] * 2 + [''], ['1', '0' * c])]
        lines_ += [','.join(f) for w in lits + [' '] for f in ([w], ['0', w], [w, '0'], ['0', w, ''], [w, w], ['0', w, w, ''])]
        for ch in lines_:
            fs = ch.split(',')
            sc = ListScene(1, {'arrays': {}}); sc.strict = True
            sc.world = dict(line=ch, fields=fs, vec='vec(%s)' % vec.name)
            want = len(fs) - (fs[-1] == '')
            g = sc.node(n)
            cnt += 1
            if g != want: bad = bad or 'a line of %d characters with %d commas%s gives %s numbers instead of %d' % (len(ch), len(fs) - 1, ', the last field empty' if fs[-1] == '' else '', g, want)
    except refute.Unint as u: bad = None; ck.row(W + rows[2], 'undecided', str(u))
    else: ck.row(W + rows[2], 'violated' if bad else 'agreed', bad or 'length of the list under %d interpretations' % cnt)
    bad = None; cnt = 0
    try:
        for k in range(60):
            i = rn.choice([0, 1, 2, 5, 41, 300] + [2999] * (1 - k % 2))
            sc = ListScene(1, {'arrays': {}, cli.J: i}); sc.strict = True
            fs = [rn.choice(['', '0.5', '7' * 30, ' 1']) for _ in range(400)] if k % 2 else ['5'] * 3000
            sc.world = dict(line=','.join(fs + ['0']), fields=fs + ['0'], vec='vec(%s)' % vec.name)
            v = sc.node(el); cnt += 1
            if v != NUM(i): bad = bad or 'element %d is not the number in field %d' % (i, i)
    except refute.Unint as u: ck.row(W + rows[3], 'undecided', str(u))
    else: ck.row(W + rows[3], 'violated' if bad else 'agreed', bad or '%d interpretations' % cnt)


def NUM(k): return (k * 7919 + 13) % 100003


def literals(n):
    return {a.args[0] for a in syms_all(n) if a.kind == 'lit' and isinstance(a.args[0], str)}


def syms_all(n):
    out = set(); seen = set()
    def rec(x):
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, Node):
            if x.atom is None: rec(x.leaf)
            else: rec(x.atom); rec(x.hi); rec(x.lo)
        elif isinstance(x, Poly):
            for a in x.atoms(): rec(a)
        elif isinstance(x, (Atom, BAtom)):
            if isinstance(x, Atom): out.add(x)
            for y in (x.args if isinstance(x.args, tuple) else (x.args,)): rec(y)
        elif isinstance(x, tuple):
            for y in x: rec(y)
    rec(n)
    return out


class ListScene(TextScene):
    """one line cut into fields; number(field k) is NUM(k)"""

    def string(self, x):
        s = one(x)
        if s is None and str(one_(x)) == 'str:arg1+0' or s is not None and str(s.args[0]) == 'str:arg1+0' and s.kind == 'sym': return self.world['line'], None
        if s is not None and s.kind == 'lit': return s.args[0], None
        if s is not None and s.kind == 'strat' and s.args[0] == self.world['vec']:
            k = self.key(s.args[1]) // 32
            if not 0 <= k < len(self.world['fields']): raise refute.Unint('text of field %d of %d' % (k, len(self.world['fields'])))
            return self.world['fields'][k], k
        raise refute.Unint('text of %s' % x)

    def batom(self, b):
        if b.kind == 'streq': return self.string(b.args[0])[0] == self.string(b.args[1])[0]
        return super().batom(b)

    def other(self, a):
        if a.kind == 'strlen': return len(self.string(a.args[0])[0])
        if a.kind == 'number':
            k = self.string(a.args[0])[1]
            if k is None: raise refute.Unint('number in %s' % a.args[0])
            return NUM(k)
        if a.kind == 'sel' and isinstance(a.args[0], str) and a.args[0].startswith('chars('):
            i = self.poly(a.args[1]) if isinstance(a.args[1], Poly) else self.node(a.args[1])
            if a.args[0] != 'chars(str:arg1+0)': raise refute.Unint(a.args[0])
            c = self.world['line']
            return ord(c[i]) if 0 <= i < len(c) else 0
        return super().other(a)


# ---------------------------------------------------------------- lines of the file
def lines(ck):
    R = run_text('read_and_check_boundaries_file', text.LINES)
    ev = R.ev
    ck.analysed += ['read_and_check_boundaries_file'] + R.functions()
    W = 'read_and_check_boundaries_file: '
    opens = [e for e in ev.events if e.name == 'open']; gets = [e for e in ev.events if e.name == 'getline']
    rets = R.of('ret'); throws = [e for e in ev.events if e.name == 'throw']
    names = ['the named file is read', 'a file that cannot be opened is an error', 'the first list is that of the first line', 'the second list is that of the second line', 'a missing line is an error']
    if len(opens) != 1 or len(rets) != 1 or any(e.loops for e in opens + gets):
        return [ck.row(W + x, 'undecided', '%d files opened, %d returns' % (len(opens), len(rets))) for x in names]
    same = opens[0].args[0] is leaf(sym('str:arg1+0', 's'))
    if same: ck.row(W + names[0], 'proved')
    else: ck.row(W + names[0], 'undecided' if 'call:' in str(opens[0].args[0]) else 'violated', 'opens %s' % opens[0].args[0])
    # not open
    try:
        sc = scene(dict(open=False))
        ends = [o for o in R.outs if sc.node(o[2])]
        th = [e for e in throws if sc.node(e.pc)]
        ok = scene(dict(open=True))
        if [o for o in ends if o[0] == 'ret']:
            masked = [e for e in gets if sc.node(e.pc) and sc.node(e.args[1]) & 4]
            if masked: ck.row(W + names[1], 'agreed', 'reading from it raises a stream failure')
            else: ck.row(W + names[1], 'violated', 'returns lists although the file could not be opened')
        elif not th: ck.row(W + names[1], 'undecided', 'ends by %s' % [o[0] for o in ends])
        elif not any(RT in str(e.args[1]) or IOF in str(e.args[1]) for e in th): ck.row(W + names[1], 'violated', 'raises %s' % th[0].args[1])
        elif [o for o in R.outs if o[0] == 'throw' and ok.node(o[2])]: ck.row(W + names[1], 'violated', 'also raised for a file that was opened')
        else: ck.row(W + names[1], 'proved')
    except refute.Unint as u: ck.row(W + names[1], 'undecided', str(u))
    mem = rets[0][3]
    p = plead(R.args[0])
    for k in (0, 1):
        got = cli.vec_value(ev, mem, leaf(Ptr(p.obj, Poly.const(24 * k))), None)
        nm = 'fields(line(%d))' % k
        if got is None or len(gets) < 2: ck.row(W + names[2 + k], 'undecided', 'the list returned is not understood'); continue
        n, el = got
        want = leaf(Poly.atom(Atom('len', (nm,), 'i'))), leaf(Poly.atom(Atom('sel', (nm + '_data', Poly.atom(cli.J)), 'r')))
        r = same_list(n, el, k)
        if n is want[0] and el is want[1]: ck.row(W + names[2 + k], 'proved')
        elif r is not None: ck.row(W + names[2 + k], *r)
        elif all('fields(line(' in str(x) and 'call:' not in str(x) and 'havoc' not in str(x) and 'uninit' not in str(x) for x in (n, el)) or one(n) is None and one_(n) == ZERO and n.atom is None:
            ck.row(W + names[2 + k], 'violated', 'it has %s elements, element j is %s' % (n, el))
        else: ck.row(W + names[2 + k], 'undecided', 'it has %s elements, element j is %s' % (str(n)[:200], str(el)[:200]))
    try:
        sc = scene(dict(open=True))
        weak = [e for e in gets if sc.node(e.pc) and not sc.node(e.args[1]) & 4]
        state = any(k in str(o[2]) for o in R.outs for k in ('ios', 'getline', 'line('))
        if len(gets) < 2: ck.row(W + names[4], 'undecided', '%d reads of lines' % len(gets))
        elif not weak: ck.row(W + names[4], 'proved', 'a failed read raises a stream failure')
        elif all(not [o for o in R.outs if o[0] == 'ret' and scene(dict(open=True, missing=k)).node(o[2])] for k in range(2)): ck.row(W + names[4], 'agreed', 'the state of the stream is tested')
        elif state: ck.row(W + names[4], 'undecided', 'the state of the stream is tested')
        else: ck.row(W + names[4], 'violated', 'the read at %s does not report failure and the state of the stream is not looked at' % weak[0].loc)
        other = [e for e in gets if len(e.args) > 2 and sc.node(e.args[2]) != 10]
        ck.row(W + 'a line ends at a line end', 'violated' if other else 'proved', other and 'at %s' % other[0].args[2])
    except refute.Unint as u: ck.row(W + names[4], 'undecided', str(u))


def same_list(n, el, k):
    """the list (length, element at J) is that of line k: (status, detail), None when it cannot be interpreted"""
    rn = random.Random(3)
    for c in range(60):
        l = [rn.choice([0, 1, 2, 3, 9, 1500]) for _ in range(2)]
        arrays = {}
        for q in (0, 1):
            nm = 'fields(line(%d))' % q
            arrays[('len', nm)] = l[q]; arrays[nm + '_data'] = [q + 1 + i / 4096 for i in range(l[q])]
        w = TextScene(1, {'arrays': arrays}); w.strict = True; w.world = dict(open=True)
        try:
            g = w.node(n)
            if g != l[k]: return 'violated', 'lines with %d and %d fields: it has %s elements' % (l[0], l[1], g)
            if not g: continue
            j = rn.choice([0, g - 1, rn.randrange(g)])
            w = TextScene(1, {'arrays': arrays, cli.J: j}); w.strict = True; w.world = dict(open=True)
            v = w.node(el)
            if v != arrays['fields(line(%d))_data' % k][j]: return 'violated', 'lines with %d and %d fields: element %d is not that of line %d' % (l[0], l[1], j, k + 1)
        except refute.Unint: return None
    return 'agreed', 'length and elements under 60 interpretations'


def reading(ck):
    ck.rule = ('terms and gating conditions of the reading functions derived from the LLVM IR with the C library conversions and the stream opaque; compared with the specification for one arbitrary '
               'character, field and line from arbitrary state')
    for what, part in (('the lines of a file', lines), ('the fields of a line', fields),
                       ('the number in a field', lambda c: number(c, 'string_to_double', 'strtod', list(doubles()), lambda w: True if w['consumed'] == 0 or w['range_error'] else False)),
                       ('integer arguments', lambda c: number(c, 'string_to_long', 'strtol', list(longs()), lambda w: w['consumed'] == 0 or w['consumed'] < w['strlen'] or w['range_error'] != 0))):
        try: part(ck)
        except build.AnalysisError as e:
            if 'anchor vanished' not in str(e): raise
            ck.row(what, 'undecided', str(e))

"""Models used when the text handling code is analysed: number conversion by the C library and reading lines of a file."""
from terms import *
import re
from models import QTABLE, PATTERNS, model, pmodel, plead, str_val, set_str, lit
from eval import OState
import cli
from contracts import q

RT, IOF = cli.RT, cli.IOF
LINES = [r'^read_comma_delimited_doubles$']


def chars_of(ev, n):
    """the string a char pointer points to the start of"""
    def f(p):
        if isinstance(p, Ptr) and getattr(p.obj, 'string', None) is not None and p.off == ZERO: return p.obj.string
        return None
    if n.atom is None:
        s = f(n.leaf)
        if s is not None: return leaf(s)
    return lit(ev, n)


def conversion(fn, sort):
    def m(ev, ins, args, mem, pc):
        s = chars_of(ev, args[0])
        rest = list(args[2:])
        end = app('consumed:' + fn, [s] + rest, 'i')
        err = app('range_error:' + fn, [s] + rest, 'i')
        ev.event('conversion', [leaf(Opq(fn)), s] + rest, ins)
        p = plead(args[1])
        if isinstance(p, Ptr):
            mem.wr(p.obj).cells[p.off.cval()] = apply(lambda c, e: Ptr(c.obj, c.off + e) if isinstance(c, Ptr) and isinstance(e, Poly) else Opq('endptr'), args[0], end)
        o = ev.objmeta.get('errno')
        if o is None: o = ev.new_obj('errno', None, 'param')
        old = mem.get(o).cells.get(0, leaf(sym('errno0')))
        mem.wr(o).cells[0] = ite(apply(lambda e: ieq0(e), err), old, leaf(Poly.const(34)))
        return app('value:' + fn, [s] + rest, sort)
    return m


for n_, so_ in (('strtod', 'r'), ('strtof', 'r'), ('strtold', 'r'), ('strtol', 'i'), ('strtoll', 'i'), ('__isoc23_strtol', 'i'), ('__isoc23_strtoll', 'i')):
    model(n_)(conversion(n_.replace('__isoc23_', ''), so_))


# ---------------------------------------------------------------- files
POS, MASK = 7001, 7002
IFS = 'std::basic_ifstream<char, std::char_traits<char>>'


def cell(ev, mem, ref, k):
    p = plead(ref)
    if not isinstance(p, Ptr): return None, None
    return p.obj, k


@q(IFS + '::basic_ifstream')
def ifs_ctor(ev, ins, args, mem, pc):
    o, _ = cell(ev, mem, args[0], 0)
    st = mem.wr(o)
    st.cells[POS] = leaf(ZERO); st.cells[MASK] = leaf(ZERO)
    vt = ev.new_obj('vtable' + o.name, None, 'param')       # libstdc++: the virtual base std::ios is found through offset -24 of the virtual table
    mem.wr(vt).cells[-24] = leaf(Poly.const(256))
    st.cells[0] = leaf(Ptr(vt, ZERO))
    if len(args) >= 2: opened(ev, ins, args, mem)
    return leaf(UNDEF)


def opened(ev, ins, args, mem):
    dem = ev.prog.fns[ins.d['callee']]['dem']
    name = lit(ev, args[1]) if 'char const*' in dem else str_val(ev, mem, args[1])
    if 'char const*' in dem: name = chars_of(ev, args[1])
    ev.event('open', [name] + list(args[2:]), ins)


@q(IFS + '::open')
def ifs_open(ev, ins, args, mem, pc):
    opened(ev, ins, args, mem); return leaf(UNDEF)


@q(IFS + '::is_open')
def ifs_isopen(ev, ins, args, mem, pc): return batom('is_open')


@q(IFS + '::~basic_ifstream', IFS + '::close')
def ifs_dtor(ev, ins, args, mem, pc): return leaf(UNDEF)


@q('std::getline')
def getline(ev, ins, args, mem, pc):
    p = plead(args[0])
    if not isinstance(p, Ptr): return args[0]
    st = mem.wr(p.obj)
    k = st.cells.get(POS)
    if k is None: return args[0]
    ev.event('getline', [k, st.cells.get(MASK, leaf(ZERO))] + list(args[2:]), ins)
    set_str(ev, mem, args[1], app('line', [k], 's'))
    st.cells[POS] = n_add(k, TRUE)
    return args[0]


def ios_exceptions(ev, ins, args, mem, pc):
    o, st = stream_of(mem, args[0])
    if o is not None and len(args) > 1: mem.wr(o).cells[MASK] = args[1]
    return leaf(UNDEF) if ins.ty == 'void' else leaf(Poly.atom(Atom('call:exceptions', (ins.id,), 'i')))


def stream_of(mem, ref):
    p = plead(ref)
    if isinstance(p, Ptr):
        st = mem.objs.get(p.obj)
        if st is not None and POS in st.cells: return p.obj, st
    return None, None


def stream_state(ok):
    def f(ev, ins, args, mem, pc):
        o, st = stream_of(mem, args[0])
        if st is None: return app('call:stream_state', [leaf(Poly.const(ins.id))], 'i')
        k = st.cells[POS]
        r = batom('is_open') if k is FALSE or k == leaf(ZERO) else apply(lambda x: batom('read_ok', x), k)
        return r if ok else b_not(r)
    return f


IO = r'^std::(ios_base|basic_ios<char.*>)::'
PATTERNS.insert(0, (re.compile(IO + r'(operator bool|good)$'), stream_state(True)))
PATTERNS.insert(0, (re.compile(IO + r'(operator!|fail)$'), stream_state(False)))
PATTERNS.insert(0, (re.compile(r'^std::(ios_base|basic_ios<char.*>)::exceptions$'), ios_exceptions))


@q('string_to_double')
def number(ev, ins, args, mem, pc): return app('number', [str_val(ev, mem, args[0])], 'r')


@q('read_comma_delimited_doubles')
def fields(ev, ins, args, mem, pc):
    s = str_val(ev, mem, args[1])
    p = plead(args[0])
    cli.filelist(ev, mem, p.obj, p.off.cval(), 'fields(%s)' % (s,))
    ev.event('fields', [s], ins)
    return leaf(UNDEF)

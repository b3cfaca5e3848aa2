"""Models used when a command line program is analysed: the library's entry points and the file reader are opaque
(each is decided on its own elsewhere) and may throw what the library documents."""
from terms import *
from models import vec_range, vec_fields, set_str, str_val, leaf_div, plead, vec_set
from eval import OState
import order
from prove import constrain
from contracts import q

ENTRY_NAMES = ['ecdf2', 'ecdf1_new_b', 'ecdf1_new_B', 'ecdf1_mns2016_b', 'ecdf1_mns2016_B']
OPAQUE = [r'^(%s)$' % '|'.join(ENTRY_NAMES), r'^read_and_check_boundaries_file$', r'^string_to_long$', r'^print_usage$']
RT = '_ZTISt13runtime_error'; IOF = '_ZTINSt8ios_base7failureB5cxx11E'
THROWS = {n: (RT,) for n in ENTRY_NAMES}
THROWS.update({'read_and_check_boundaries_file': (RT, IOF), 'string_to_long': (RT,), 'check_boundary_vector': (RT,)})
J = Atom('sym', ('$elem',), 'i')


def vec_value(ev, mem, ref, ins):
    """(length, element at the symbolic index J) of a list argument"""
    r = vec_range(ev, mem, ref, ins)
    if r is None: return None
    b, e = r
    n = apply(lambda x, y: (y.off - x.off) if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj else (ZERO if x == y else Opq('vec?')), b, e)
    n = leaf_div(n, 8)
    def at(p):
        if not isinstance(p, Ptr): return leaf(Opq('vec?'))
        st = mem.get(p.obj).copy()
        k = ev.split_off(p.obj, p.off, 8)
        base = k[2] if k[0] == 'arr' else Poly.const(p.off.cval() // 8)
        return read_arr(ev.get_arr(st, p.obj, 0, 'r'), base + Poly.atom(J), 'r', ev.decide_node)
    return n, apply(at, b)


def entry(name):
    def f(ev, ins, args, mem, pc):
        c = b_and(*(ev.pcs + [pc]))
        if c is not FALSE: args = [constrain(a, c) for a in args]
        lists = [vec_value(ev, mem, a, ins) for a in args[:2 if name == 'ecdf2' else 1]]
        flat = [x for l in lists for x in (l or (leaf(Opq('vec?')),) * 2)]
        ev.event('entry', [leaf(Opq(name))] + flat + list(args[2:] if name == 'ecdf2' else args[1:]), ins, (ins.d['callee'], ins.id))
        return app('prob:' + name, [leaf(Poly.const(ins.id))], 'r')
    return f


for n_ in ENTRY_NAMES: q(n_)(entry(n_))


def filelist(ev, mem, o, off, nm):
    n = Poly.atom(Atom('len', (nm,), 'i'))
    d = ev.new_obj(nm + '_data', leaf(n.scale(8)), 'param', stride=8)
    mem.objs[d] = OState()
    vec_set(ev, mem, o, off, leaf(Ptr(d, ZERO)), leaf(Ptr(d, n.scale(8))))


@q('read_and_check_boundaries_file')
def rdfile(ev, ins, args, mem, pc):
    ev.event('read-file', [str_val(ev, mem, args[1])], ins)
    p = plead(args[0])
    filelist(ev, mem, p.obj, p.off.cval(), 'file1'); filelist(ev, mem, p.obj, p.off.cval() + 24, 'file2')
    return leaf(UNDEF)


@q('string_to_long')
def s2l(ev, ins, args, mem, pc): return app('strtol', [str_val(ev, mem, args[0])], 'i')


@q('print_usage')
def usage(ev, ins, args, mem, pc):
    ev.event('usage', [], ins); return leaf(UNDEF)

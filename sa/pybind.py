"""Models used when the Python binding is analysed: the interpreter's C interface and the conversion of arguments.
The library's entry points are opaque (each is decided on its own elsewhere) and may throw."""
import os, re, subprocess
from terms import *
from fractions import Fraction
from models import nop, QTABLE, TABLE, plead, str_val
from eval import OState
import build, cli

OPAQUE = [r'^swig::asptr$', r'^SWIG_AsVal_bool', r'^SWIG_Python_UnpackTuple', r'^SWIG_Python_SetErrorMsg$', r'^Py_X?(INC|DEC)REF$', r'^_Py_(INC|DEC)REF$', r'^SWIG_Python_GetSwigThis', r'^SWIG_Python_ConvertPtrAndOwn', r'^SWIG_Python_AddErrorMsg']
FUNCTIONS = {'ecdf2': 'llf', 'ecdf1_new_b': 'l', 'ecdf1_new_B': 'l', 'ecdf1_mns2016_b': 'l', 'ecdf1_mns2016_B': 'l'}     # l: list, f: flag
ERRORS = {'_ZTISt13runtime_error': 'PyExc_RuntimeError'}
THROWS = {n: ('_ZTISt13runtime_error', '_ZTISt12out_of_range', '_ZTISt9bad_alloc', '_ZTIi') for n in FUNCTIONS}
NEWOBJ, OLDOBJ = 512, 0


def includes():
    r = subprocess.run(['python3-config', '--includes'], capture_output=True, text=True)
    return r.stdout.split() if r.returncode == 0 else ['-I/usr/include/python3.12']


def table(bc):
    """the module's method table: Python name -> (wrapper symbol, flags)"""
    t = subprocess.run(['llvm-dis-18', '-o', '-', bc], capture_output=True, text=True).stdout
    strings = dict(re.findall(r'^@(\S+) = [^\n]*constant \[\d+ x i8\] c"((?:[^"\\]|\\..)*)\\00"', t, re.M))
    m = re.search(r'^@\w*SwigMethods\w* = [^\n]*%struct.PyMethodDef\] \[(.*)\]', t, re.M)
    out = {}
    for s, f, fl in re.findall(r'%struct.PyMethodDef \{ ptr @([^,]+), ptr @(\w+), i32 (\d+)', m.group(1) if m else ''):
        if s in strings: out[strings[s]] = (f, int(fl))
    return out


def item(ev, mem, i):
    nm = 'item%d' % i
    o = next((x for x in mem.objs if x.name == nm), None)
    return leaf(Ptr(o, ZERO)) if o is not None else leaf(Ptr(ev.new_obj(nm, None, 'param'), ZERO))


def owner(p):
    return p.obj.name if isinstance(p, Ptr) and p.off == ZERO and p.obj.name.startswith('item') else None


def unpack(ev, ins, args, mem, pc):
    tup, lo, hi = plead(args[0]), args[2], args[3]
    ev.event('unpack', [args[0], lo, hi], ins)
    p = plead(args[4])
    n = hi.leaf.cval() if hi.atom is None and hi.leaf.is_const() else 0
    ok = app('unpacked', [lo, hi], 'i')
    st = mem.wr(p.obj)
    for i in range(n):
        off = p.off.cval() + 8 * i
        st.cells[off] = item(ev, mem, i)
    return ok


def asptr(ev, ins, args, mem, pc):
    """conversion of a list argument: fails (negative), an existing vector (0), or a new one the caller owns (512)"""
    w = owner(plead(args[0])); p = plead(args[1])
    if w is None or not isinstance(p, Ptr): ev.unsup('conversion of %s' % (args[0],), ins); return leaf(UNDEF)
    ev.event('convert', [args[0]], ins)
    code = Poly.atom(Atom('sym', ('code:' + w,), 'i'))
    v = ev.new_obj('new#list:' + w, leaf(Poly.const(24)), 'heap'); d = ev.new_obj(w + '_data', None, 'param', stride=8)
    n = Poly.atom(Atom('len', (w,), 'i'))
    st = OState(); st.cells[0] = leaf(Ptr(d, ZERO)); st.cells[8] = leaf(Ptr(d, n.scale(8))); st.cells[16] = st.cells[8]
    mem.objs[v] = st; mem.objs[d] = OState()
    failed = ile0(code + ONE)
    o = mem.wr(p.obj); off = p.off.cval()
    old = o.cells.get(off, leaf(ZERO))
    null = ieq0(Poly.atom(Atom('sym', ('null:' + w,), 'i')))
    o.cells[off] = ite(failed, old, ite(null, leaf(ZERO), leaf(Ptr(v, ZERO))))
    return leaf(code)


def asbool(ev, ins, args, mem, pc):
    w = owner(plead(args[0])); p = plead(args[1])
    if w is None or not isinstance(p, Ptr): ev.unsup('conversion of %s' % (args[0],), ins); return leaf(UNDEF)
    ev.event('convert-flag', [args[0]], ins)
    code = Poly.atom(Atom('sym', ('code:' + w,), 'i'))
    o = mem.wr(p.obj); off = p.off.cval()
    old = o.cells.get(off)
    o.cells[off] = ite(ile0(code + ONE), old if old is not None else leaf(ZERO), leaf(Poly.atom(Atom('sym', ('flag:' + w,), 'i'))))
    return leaf(code)


def from_double(ev, ins, args, mem, pc): return app('pyfloat', [args[0]], 'i')


def seterr(ev, ins, args, mem, pc):
    ev.event('error', [args[0]], ins); return leaf(UNDEF)


QTABLE['SWIG_Python_UnpackTuple'] = unpack
QTABLE['swig::asptr'] = asptr
QTABLE['SWIG_AsVal_bool'] = asbool
QTABLE['SWIG_Python_SetErrorMsg'] = seterr
TABLE['PyErr_SetString'] = seterr
TABLE['PyFloat_FromDouble'] = from_double


CONVERT = [r'^SWIG_AsVal_double$', r'type_query$', r'^swig::type_info$'] + [x for x in OPAQUE if 'asptr' not in x]


def seq_of(ev, x):
    p = plead(x)
    return p.obj.name if isinstance(p, Ptr) and p.obj.name.startswith('item') and p.off == ZERO else None


def isseq(ev, ins, args, mem, pc): return app('isseq', [args[0]], 'i')
def this(ev, ins, args, mem, pc): return app('wrapped', [args[0]], 'i')
def occurred(ev, ins, args, mem, pc): return app('pending', [leaf(Poly.const(ins.id))], 'i')


def size(ev, ins, args, mem, pc):
    w = seq_of(ev, args[0])
    if w is None: ev.unsup('size of %s' % (args[0],), ins); return leaf(UNDEF)
    return leaf(Poly.atom(Atom('len', (w,), 'i')))


def getitem(ev, ins, args, mem, pc):
    w = seq_of(ev, args[0])
    if w is None: ev.unsup('element of %s' % (args[0],), ins); return leaf(UNDEF)
    o = next((x for x in mem.objs if x.name == 'elems:' + w), None)
    if o is None: o = ev.new_obj('elems:' + w, None, 'param', stride=8)
    return apply(lambda i: Ptr(o, i.scale(8)) if isinstance(i, Poly) else Opq('elem?'), args[1])


def asdouble(ev, ins, args, mem, pc):
    p, d = args[0], plead(args[1])
    def val(x, nm, s):
        if isinstance(x, Ptr) and x.obj.name.startswith('elems:'):
            return leaf(Poly.atom(Atom('sel', (x.obj.name[6:] + nm, x.off.scale(Fraction(1, 8))), s)))
        return leaf(Opq('elem?'))
    code = val(plead(p), '_code', 'i')
    if isinstance(d, Ptr): mem.wr(d.obj).cells[d.off.cval()] = val(plead(p), '_data', 'r')
    return code


TABLE['sprintf'] = nop
QTABLE['SWIG_Python_AddErrorMsg'] = nop
TABLE['PySequence_Check'] = isseq
TABLE['PySequence_Size'] = size
TABLE['PySequence_GetItem'] = getitem
TABLE['PyErr_Occurred'] = occurred
QTABLE['SWIG_AsVal_double'] = asdouble
QTABLE['SWIG_Python_GetSwigThis'] = this
for n_ in ('Py_INCREF', 'Py_DECREF', 'Py_XINCREF', 'Py_XDECREF', '_Py_INCREF', '_Py_DECREF'): QTABLE[n_] = lambda ev, ins, args, mem, pc: leaf(UNDEF)
for n_ in ('PyGILState_Ensure', 'PyGILState_Release'): TABLE[n_] = lambda ev, ins, args, mem, pc: leaf(ZERO)


def pyfun(name, sort):
    def f(ev, ins, args, mem, pc): return app('py:' + name, list(args), sort)
    TABLE[name] = f


for n_ in ('PyFloat_AsDouble', 'PyLong_AsDouble'): pyfun(n_, 'r')
for n_ in ('PyObject_IsTrue', 'PyType_IsSubtype'): pyfun(n_, 'i')
TABLE['PyErr_Clear'] = nop

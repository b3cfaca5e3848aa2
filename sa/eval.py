"""Gated value evaluation of a function's control-flow graph with loop summarisation.

Every SSA value becomes a canonical ADD over the inputs; loops are replaced by closed forms
(induction variables, sums, flags, range updates of arrays) or, failing that, havocked under
inferred linear invariants.  No input is ever supplied: nothing runs."""
import re
from terms import *
from terms import _sub
from prove import Ctx, constrain, leaves
from ir import Func, Program
from build import AnalysisError


class Obj:
    """abstract memory object"""
    tab = {}

    def __init__(self, name, size=None, kind='stack', loc='', stride=None):
        self.name = name; self.size = size; self.kind = kind; self.loc = loc; self.stride = stride

    def __repr__(self): return self.name

    def __hash__(self): return hash(self.name)

    def __eq__(self, o): return isinstance(o, Obj) and o.name == self.name


from refute import HISTORY


class OState:
    __slots__ = ('cells', 'arrs', 'alive', 'init')

    def __init__(self):
        self.cells = {}      # const byte offset -> Node
        self.arrs = {}       # field offset -> Node of Arr
        self.init = {}       # field offset -> Node of Arr: 1 where initialised
        self.alive = TRUE

    def copy(self):
        o = OState(); o.cells = dict(self.cells); o.arrs = dict(self.arrs); o.alive = self.alive; o.init = dict(self.init)
        return o


class Mem:
    def __init__(self, objs=None):
        self.objs = objs or {}

    def copy(self):
        return Mem(dict(self.objs))

    def get(self, o):
        s = self.objs.get(o)
        if s is None: s = OState(); self.objs[o] = s
        return s

    def wr(self, o):
        s = self.objs.get(o)
        s = s.copy() if s is not None else OState()
        self.objs[o] = s
        return s


class Edge:
    __slots__ = ('src', 'dst', 'cond', 'mem', 'exn')

    def __init__(self, src, dst, cond, mem, exn=None):
        self.src = src; self.dst = dst; self.cond = cond; self.mem = mem; self.exn = exn


class Obl:
    """a proof obligation"""
    __slots__ = ('kind', 'loc', 'what', 'ok', 'detail', 'cond', 'pc', 'facts', 'stuck')

    def __init__(self, kind, loc, what, ok, detail=''):
        self.kind = kind; self.loc = loc; self.what = what; self.ok = ok; self.detail = detail
        self.cond = self.pc = self.facts = self.stuck = None

    def __repr__(self): return '%s %s: %s%s' % ('ok ' if self.ok else 'FAIL', self.loc, self.kind, ' ' + self.what + ((' | ' + self.detail) if self.detail else ''))


class Event:
    __slots__ = ('name', 'args', 'pc', 'loc', 'facts', 'ret', 'loops')

    def __init__(self, name, args, pc, loc, facts, ret=None, loops=()):
        self.name = name; self.args = args; self.pc = pc; self.loc = loc; self.facts = facts; self.ret = ret; self.loops = loops

    def __repr__(self): return '%s(%s) if %s' % (self.name, ', '.join(map(str, self.args)), self.pc)


def typ_size(ty):
    m = {'double': 8, 'float': 4, 'ptr': 8, 'x86_fp80': 16, 'i1': 1}
    if ty in m: return m[ty]
    if re.fullmatch(r'i\d+', ty): return (int(ty[1:]) + 7) // 8
    return None


def sort_of(ty):
    if ty in ('double', 'float', 'x86_fp80'): return 'r'
    if ty == 'ptr': return 'p'
    return 'i'


TAINT = []      # constructs met so far whose effect on memory is not modelled


class Unsupported(Exception):
    pass


class LoopInfo:
    def __init__(self):
        self.t = None; self.N = None; self.N_node = None; self.phis = {}; self.resolved = {}; self.havoc = []
        self.early = None; self.invariants = []; self.loc = ''
        self.header = None; self.step = {}; self.init = {}; self.arrays = {}


class Evaluator:
    rounded = False       # keep every rounding of an arithmetic result in the terms
    def __init__(self, prog, models=None, exn=False, throws=None):
        self.prog = prog; self.models = models or {}; self.exn = exn
        self.throws = throws or {}
        self.env = {}
        self.ctx = Ctx()
        self.pcs = []                 # stack of enclosing path conditions
        self.obls = []; self.events = []; self.outcomes = []
        self.recording = True
        self.light = False            # leave out the contents of block writes (scalar-only passes)
        self.loopinfo = {}
        self.assume = []       # facts that hold here (ranges of iteration numbers)
        self.notes = []
        self.objmeta = {}
        self.loopstack = []
        self.recording_history = True
        self.inits = {}               # initial contents of argument cells: (obj, off) -> Node
        self.elem_sort = {}
        self.unsupported = []
        self.track_init = True
        DECIDE[0] = self.decide_node

    # ------------------------------------------------------------ facts
    def decide_node(self, n):
        if n is TRUE: return True
        if n is FALSE: return False
        c = self.cur_ctx()
        if c.prove(n): return True
        if c.prove(b_not(n)): return False
        return None

    def simp_now(self, n):
        """n simplified under everything known here"""
        return n if n.atom is None else self.cur_ctx().simplify(n)

    def dead_end(self, b):
        """no return is reachable from block b"""
        fn = self.fn
        r = getattr(fn, '_rets', None)
        if r is None:
            r = {x for x, blk in fn.blocks.items() if blk.ins and blk.ins[-1].op == 'ret'}
            grow = True
            while grow:
                grow = False
                for x, blk in fn.blocks.items():
                    if x not in r and any(y in r for y in blk.succ): r.add(x); grow = True
            fn._rets = r
        return b not in r

    def infeasible(self, pc):
        """pc contradicts what is known"""
        if self.cur_ctx().prove(FALSE): return True
        return self.ctx.prove(b_not(b_and(self.pc_now, pc)))

    def cur_ctx(self):
        """self.ctx plus the literals of the current path condition"""
        pc = self.pc_now
        k = (id(self.ctx), self.ctx.key(), pc.id)
        if getattr(self, '_ck', None) == k: return self._cc
        c = self.ctx.clone()
        c.add_node(pc)
        self._ck = k; self._cc = c
        return c

    def with_ctx(self):
        old = self.ctx
        self.ctx = old.clone()
        return old

    # ------------------------------------------------------------ objects & memory
    def new_obj(self, name, size=None, kind='stack', loc='', stride=None):
        o = Obj(name, size, kind, loc, stride)
        self.objmeta[name] = o
        return o

    def split_off(self, o, off, width, create=True):
        """byte offset Poly -> ('cell', int) or ('arr', field, idx Poly)"""
        meta = self.objmeta.get(o.name, o)
        if meta.stride is None:
            if off.is_const() and meta.kind != 'heap' : return ('cell', off.cval())
            if off.is_const() and meta.kind == 'heap' and not off.m:
                pass
            # derive the stride from symbolic coefficients
            g = 0
            from math import gcd
            for k, v in off.m.items():
                if k:
                    if not isinstance(v, int): raise Unsupported('offset %s' % off)
                    g = gcd(g, abs(v))
            if g == 0:
                return ('cell', off.cval())
            meta.stride = max(g, 1) if g else width
            self.migrate(o, meta.stride)
        s = meta.stride
        f = off.m.get((), 0)
        if not isinstance(f, int): raise Unsupported('offset')
        fo = f % s
        idx = {}
        for k, v in (off - fo).m.items():
            if isinstance(v, Fraction) or v % s != 0: raise Unsupported('offset %s not a multiple of %d in %s' % (off, s, o))
            idx[k] = v // s
        return ('arr', fo, Poly(idx))

    def migrate(self, o, s):
        pass   # cells of o are migrated lazily in get_arr

    def base_arr(self, o, f, sort):
        meta = self.objmeta.get(o.name, o)
        nm = '%s.%d' % (o.name, f) if f or (meta.stride or 8) > 8 and f else o.name
        if meta.kind in ('heap', 'stack', 'vec'): nm = 'uninit:' + nm
        return leaf(Arr('base', nm, sort))

    def get_arr(self, st, o, f, sort):
        a = st.arrs.get(f)
        if a is None:
            a = self.base_arr(o, f, sort)
        meta = self.objmeta.get(o.name, o)
        mig = [c for c in st.cells if meta.stride and c % meta.stride == f]
        for c in sorted(mig):
            i = Poly.const(c // meta.stride)
            a = self.store_arr(a, i, st.cells[c])
            st.init[f] = self.store_arr(self.get_init(st, o, f), i, TRUE)
            del st.cells[c]
        st.arrs[f] = a
        return a

    def get_init(self, st, o, f):
        a = st.init.get(f)
        if a is None:
            meta = self.objmeta.get(o.name, o)
            a = leaf(Arr('base', ('init0:' if meta.kind in ('heap', 'stack', 'vec') else 'init1:') + o.name, 'b'))
        return a

    def store_arr(self, a, i, v):
        bv = Atom('sym', ('$s',), 'i')
        v = v if isinstance(v, Node) else leaf(v)
        def f(arr):
            if isinstance(arr, Arr) and arr.kind == 'upd':
                p, lo, hi, b2, v2 = arr.args
                if lo == i and hi == i + ONE: return leaf(Arr('upd', p, i, i + ONE, bv, v))
            return leaf(Arr('upd', leaf(arr), i, i + ONE, bv, v))
        return apply(f, a)

    def load(self, mem, ptr, ty, ins):
        w = typ_size(ty)
        if w is None and ty.startswith('{'): raise Unsupported('aggregate load')
        def f(p):
            if isinstance(p, Poly):
                if p.is_const(): return leaf(Opq('load-null'))
                a = p.single_atom()
                if a is None: return leaf(Opq('load-unknown', p))
                p = Ptr(self.deref_obj(a), ZERO)
            if not isinstance(p, Ptr): return leaf(Opq('load?', p))
            return self.load1(mem, p.obj, p.off, w, sort_of(ty), ins)
        if ptr.atom is None: return apply(f, ptr)
        old = self.pc_now; vals = {}
        for c, p in guards(ptr):
            self.pc_now = b_and(old, c); vals[p] = f(p)
        self.pc_now = old
        return apply(lambda p: vals[p], ptr)

    def deref_obj(self, a):
        o = Obj('*%s' % a, kind='param')
        if o.name not in self.objmeta: self.objmeta[o.name] = o
        return o

    def load1(self, mem, o, off, w, sort, ins):
        if isinstance(o, tuple): return leaf(Opq('load', o, off))
        if o.kind == 'glob' and not self.variable(o): return self.load_global(o, off, w, sort)
        st = mem.get(o)
        self.check_access(mem, o, off, w, ins, 'read')
        k = self.split_off(o, off, w)
        if k[0] == 'cell':
            c = st.cells.get(k[1])
            if c is None:
                c = self.init_cell(o, k[1], sort, w)
                st.cells[k[1]] = c
            return c
        _, fo, idx = k
        arr = self.get_arr(st, o, fo, sort)
        r = read_arr(arr, idx, sort, self.decide_node)
        if self.track_init: self.check_init(mem, o, fo, idx, ins)
        return r

    def variable(self, o):
        """a global variable the analysed program itself defines and may change"""
        g = self.prog.globals.get(o.name)
        return bool(g) and not g.get('const') and g.get('init') is not None

    def load_global(self, o, off, w, sort):
        g = self.prog.globals.get(o.name)
        if g and g.get('const') and g.get('init'):
            v = g['init']
            if v['k'] in ('int', 'fp') and off.is_const() and off.cval() == 0: return self.const(v)
            if v['k'] == 'zero': return leaf(ZERO)
            if v['k'] in ('data', 'agg') and off.is_const():
                el = v.get('el') or []
                if el and off.cval() % w == 0 and off.cval() // w < len(el): return self.const(el[off.cval() // w])
                if 'str' in v and w == 1 and el and off.cval() < len(el): return self.const(el[off.cval()])
        return leaf(Poly.atom(Atom('gload', (o.name, off), sort)))

    def init_cell(self, o, off, sort, w):
        k = (o.name, off)
        if k in self.inits: return self.inits[k]
        if o.kind == 'glob': return leaf(Poly.atom(Atom('gload', (o.name, Poly.const(off)), sort)))
        pre = 'uninit:' if o.kind in ('stack', 'heap') else ''
        return sym('%s%s@%d' % (pre, o.name, off), sort).__class__ and leaf(sym('%s%s@%d' % (pre, o.name, off), sort))

    def store(self, mem, ptr, val, ty, ins, pc):
        w = typ_size(ty)
        if w is None: raise Unsupported('store of %s' % ty)
        if ptr.atom is None:
            self.store1(mem, ptr.leaf, val, w, sort_of(ty), ins, TRUE)
        else:
            # guarded stores to every candidate
            for cond, p in paths(ptr):
                self.store1(mem, p, val, w, sort_of(ty), ins, cond)

    def store1(self, mem, p, val, w, sort, ins, cond):
        if isinstance(p, Poly) and p.single_atom() is not None: p = Ptr(self.deref_obj(p.single_atom()), ZERO)
        if not isinstance(p, Ptr) or isinstance(p.obj, tuple):
            self.unsup('store through %s' % (p,), ins); return
        o = p.obj
        if o.kind == 'glob':
            self.event('global-store', [leaf(Opq('g', o.name)), val], ins)
            if not self.variable(o): return
        if cond is TRUE: self.check_access(mem, o, p.off, w, ins, 'write')
        else:
            old = self.pc_now; self.pc_now = b_and(old, cond)
            self.check_access(mem, o, p.off, w, ins, 'write'); self.pc_now = old
        st = mem.wr(o)
        k = self.split_off(o, p.off, w)
        if k[0] == 'cell':
            old = st.cells.get(k[1])
            if cond is not TRUE:
                if old is None: old = self.init_cell(o, k[1], sort, w)
                val = ite(cond, val, old)
            st.cells[k[1]] = val
            return
        _, fo, idx = k
        a = self.get_arr(st, o, fo, sort)
        n = self.store_arr(a, idx, val)
        st.arrs[fo] = n if cond is TRUE else ite(cond, n, a)
        if self.track_init:
            ini = self.get_init(st, o, fo)
            n = self.store_arr(ini, idx, TRUE)
            st.init[fo] = n if cond is TRUE else ite(cond, n, ini)

    def size_of(self, mem, meta):
        """byte size of an object, None when unbounded"""
        if meta.size is not None: return meta.size if isinstance(meta.size, Node) else leaf(meta.size)
        v = getattr(meta, 'vecof', None)
        if v is None: return None
        st = mem.get(v[0])
        b, e = st.cells.get(v[1]), st.cells.get(v[1] + 8)
        if b is None or e is None: return None
        return n_sub(e, b)

    def check_access(self, mem, o, off, w, ins, what):
        if not self.recording or ins is None: return
        meta = self.objmeta.get(o.name, o)
        st = mem.get(o)
        if st.alive is not TRUE:
            self.obl('use-after-free', ins, '%s of %s' % (what, o.name), st.alive)
        size = self.size_of(mem, meta)
        if size is None: return
        lo = ile0(-off); hi = apply(lambda s: ile0(off + Poly.const(w) - s) if isinstance(s, Poly) else FALSE, size)
        n = b_and(lo, hi)
        self.obl('bounds', ins, '%s of %d bytes at %s+%s, size %s' % (what, w, o.name, off, size), n)

    def check_init(self, mem, o, fo, idx, ins):
        meta = self.objmeta.get(o.name, o)
        if not self.recording or ins is None or meta.kind not in ('heap', 'vec', 'stack'): return
        n = self.read_init(mem, o, fo, idx)
        self.obl('init', ins, '%s[%s] is written before it is read' % (o.name, idx), n)

    def read_init(self, mem, o, fo, idx):
        a = self.get_init(mem.get(o), o, fo)
        r = read_arr(a, idx, 'b', self.decide_node)
        def f(p):
            if isinstance(p, Poly):
                at = p.single_atom()
                if at is not None and at.kind == 'sel' and isinstance(at.args[0], str):
                    return TRUE if at.args[0].startswith('init1:') else FALSE
                return leaf(p)
            return FALSE
        return apply(f, r)

    def obl(self, kind, ins, what, ok, detail=''):
        if not self.recording: return
        cond = None
        if isinstance(ok, Node):
            cond = ok
            ok = cond is TRUE or self.decide_node(cond) is True
            hyp = b_and(self.full_pc(), *self.assume)
            if not ok and hyp is not TRUE: ok = self.decide_node(b_or(b_not(hyp), cond)) is True
        o = Obl(kind, ins.loc() if ins is not None else '?', what, ok, detail if ok else detail + ' under ' + str(self.full_pc())[:600])
        if not ok:
            o.cond = cond; o.pc = b_and(self.full_pc(), *self.assume); o.facts = list(self.cur_ctx().facts)
        self.obls.append(o)

    def full_pc(self):
        return b_and(*(self.pcs + [self.pc_now]))

    def event(self, name, args, ins, ret=None):
        if self.recording:
            self.events.append(Event(name, args, self.full_pc(), ins.loc() if ins else '?', None, ret, tuple(self.loopstack)))

    def unsup(self, msg, ins, hard=True):
        """a construct whose effect is not modelled; hard: it may change memory the analysis reasons about"""
        at = (msg, ins.loc() if ins is not None else '?')
        self.unsupported.append(at)
        if hard and at not in TAINT: TAINT.append(at)

    # ------------------------------------------------------------ values
    def const(self, o):
        k = o['k']
        if k == 'int':
            v = int(o['v'])
            if o.get('w') == 1: v = abs(v)
            return leaf(Poly.const(v))
        if k == 'fp':
            v = o['v']
            if v in ('inf', '-inf', 'nan'):
                if v == '-inf': return leaf(-sym('INF', 'r'))
                return leaf(sym('INF' if v == 'inf' else 'NAN', 'r'))
            return leaf(Poly.const(Fraction(float(v))))
        if k == 'null': return leaf(ZERO)
        if k == 'undef': return leaf(UNDEF)
        if k == 'zero': return leaf(Opq('zeroinit'))
        if k == 'gv': return leaf(Ptr(Obj(o['n'], kind='glob'), ZERO))
        if k == 'fn': return leaf(Opq('fn', o['n']))
        if k == 'gep':
            b = self.const(o['b'])
            return apply(lambda p: Ptr(p.obj, p.off + Poly.const(o['o'])) if isinstance(p, Ptr) else Opq('cgep'), b)
        if k == 'agg': return leaf(Agg(self.const(x) for x in o['el']))
        return leaf(Opq('const', o.get('v', k)))

    def val(self, o):
        if o['k'] == 'v':
            v = self.env.get(o['i'])
            if v is None: raise AnalysisError('value %s used before it is evaluated' % o['i'])
            return v
        return self.const(o)

    # ------------------------------------------------------------ running
    def run(self, fn, args, mem=None, pre=None):
        """fn: Func; args: list of Nodes. Returns list of outcome edges (kind, value, pc, mem)."""
        self.fn = fn
        for p, a in zip(fn.params, args): self.env[p['i']] = a
        self.pc_now = TRUE
        mem = mem or Mem()
        for g in self.prog.globals:
            o = Obj(g, kind='glob')
            if self.variable(o) and o not in mem.objs: mem.objs[o] = OState()
        if pre:
            for p in pre: self.ctx.add_le(p)
        self.outcomes = []
        self.region(set(fn.blocks), fn.entry, [Edge(None, fn.entry, TRUE, mem)], None)
        if not self.recording_history: return self.outcomes
        # what a call leaves in global variables, for the interpretation of later calls
        HISTORY.clear()
        for o in self.outcomes:
            for ob, st in getattr(o[3], 'objs', {}).items():
                if ob.kind != 'glob': continue
                g = self.prog.globals.get(ob.name) or {}
                if g.get('const'): continue
                v = g.get('init') or {}
                for c, x in st.cells.items():
                    h = HISTORY.setdefault((ob.name, c), dict(init=self.const(v) if v.get('k') in ('int', 'fp') and c == 0 else leaf(ZERO) if v.get('k') == 'zero' else None, finals=[]))
                    h['finals'].append((o[2], x))
        return self.outcomes

    def region(self, blocks, entry, inedges, loop):
        """evaluate an acyclic region (inner loops summarised). Returns (latch edges, exit edges)."""
        pend = {entry: inedges}
        latch = []; exits = []
        fn = self.fn
        order = [b for b in fn.rpo if b in blocks]
        done = set()
        for b in order:
            if b in done: continue
            es = pend.pop(b, None)
            if not es: continue
            es = [e for e in es if e.cond is not FALSE]
            if not es: continue
            l = fn.loops.get(b)
            if l is not None and (loop is None or l is not loop):
                outs = self.run_loop(l, es)
                done |= l.body
            else:
                outs = self.block(b, es, loop)
            for e in outs:
                if loop is not None and e.dst == loop.header: latch.append(e)
                elif e.dst in blocks: pend.setdefault(e.dst, []).append(e)
                else: exits.append(e)
        return latch, exits

    def merge(self, es):
        pc = b_or(*[e.cond for e in es])
        mem = es[-1].mem if len(es) == 1 else self.merge_mem(es, pc)
        return pc, mem

    def sel(self, es, vals, pc):
        """value selected by edge conditions"""
        r = vals[-1]
        for e, v in list(zip(es, vals))[-2::-1]:
            r = ite(constrain(e.cond, pc), v, r) if v is not r else r
        return constrain(r, pc)

    def merge_mem(self, es, pc):
        m = Mem()
        keys = {}
        for e in es:
            for o in e.mem.objs: keys.setdefault(o)
        for o in keys:
            sts = [e.mem.objs.get(o) for e in es]
            have = [s for s in sts if s is not None]
            if all(s is have[0] for s in sts):
                m.objs[o] = have[0]; continue
            meta = self.objmeta.get(o.name, o)
            if any(s is None for s in sts) and meta.kind in ('heap', 'vec', 'stack'):
                # allocated on some of the paths only
                s2 = []; e2 = []
                n = OState()
                fallback = have[0]
                sts = [s if s is not None else None for s in sts]
                n = have[0].copy()
                if len(have) > 1:
                    sub = [(e, s) for e, s in zip(es, sts) if s is not None]
                    n = self.merge_states(o, [e for e, s in sub], [s for e, s in sub], pc)
                if meta.kind == 'heap':
                    n.alive = self.sel(es, [s.alive if s is not None else FALSE for s in sts], pc)
                m.objs[o] = n
                continue
            sts = [s if s is not None else OState() for s in sts]
            m.objs[o] = self.merge_states(o, es, sts, pc)
        return m

    def merge_states(self, o, es, sts, pc):
        n = OState()
        sts = [s.copy() for s in sts]
        cs = {}
        for s in sts:
            for c in s.cells: cs[c] = s.cells[c]
        fs = {}
        for s in sts:
            for f in s.arrs: fs.setdefault(f, s.arrs[f])
        meta = self.objmeta.get(o.name, o)
        if fs and cs and meta.stride:
            for s in sts:
                for f in list(fs) + [c % meta.stride for c in s.cells]:
                    self.get_arr(s, o, f, 'r')
            for s in sts:
                for f in s.arrs: fs.setdefault(f, s.arrs[f])
            cs = {}
            for s in sts:
                for c in s.cells: cs[c] = s.cells[c]
        for c in cs:
            sort = 'i'
            vals = [s.cells.get(c) for s in sts]
            if any(v is None for v in vals):
                d = self.init_cell(o, c, guess_sort(cs[c]), 8)
                vals = [v if v is not None else d for v in vals]
            n.cells[c] = self.sel(es, vals, pc)
        for f in fs:
            d = None
            for s in sts:
                if f not in s.arrs:
                    d = self.base_arr(o, f, arr_sort(fs[f])); s.arrs[f] = d
            n.arrs[f] = self.sel(es, [s.arrs[f] for s in sts], pc)
        for f in {f for s in sts for f in s.init}:
            n.init[f] = self.sel(es, [self.get_init(s, o, f) for s in sts], pc)
        n.alive = self.sel(es, [s.alive for s in sts], pc)
        return n

    def block(self, b, es, loop):
        B = self.fn.blocks[b]
        pc, mem = self.merge(es)
        mem = mem.copy()
        self.pc_now = pc
        phis = {}
        hdr = loop is not None and b == loop.header
        for ins in B.ins:
            if ins.op != 'phi': break
            if hdr: continue
            inc = {blk: v for v, blk in ins.d['in']}
            vals = [self.val(inc[e.src]) for e in es]
            phis[ins.id] = self.sel(es, vals, pc)
        self.env.update(phis)
        self.cur_exn = None
        if self.exn and any(e.exn is not None for e in es):
            self.cur_exn = self.sel(es, [e.exn if e.exn is not None else leaf(UNDEF) for e in es], pc)
        out = None
        for ins in B.ins:
            if ins.op == 'phi': continue
            out = self.inst(ins, mem, pc, B)
            if out is not None: break
        return out or []

    def branch(self, B, dst, cond, mem):
        return Edge(B.id, dst, cond, mem)

    def inst(self, ins, mem, pc, B):
        op = ins.op; d = ins.d
        if op == 'br':
            if len(B.succ) == 1 or len(d['ops']) == 1: return [Edge(B.id, B.succ[0], pc, mem)]
            c = self.truth(self.val(d['ops'][0]))
            c = constrain(c, pc)
            k = self.decide_node(c)
            if k is True: c = TRUE
            elif k is False: c = FALSE
            if B.succ[0] == B.succ[1]: return [Edge(B.id, B.succ[0], pc, mem)]
            if c.atom is not None:
                # an error branch that the facts rule out
                if self.dead_end(B.succ[0]) and self.infeasible(b_and(pc, c)): c = FALSE
                elif self.dead_end(B.succ[1]) and self.infeasible(b_and(pc, b_not(c))): c = TRUE
            r = []
            if c is not FALSE: r.append(Edge(B.id, B.succ[0], b_and(pc, c), mem))
            if c is not TRUE: r.append(Edge(B.id, B.succ[1], b_and(pc, b_not(c)), mem.copy()))
            return r
        if op == 'switch':
            v = self.val(d['cond'])
            rest = pc; r = []
            for cv, dst in d['cases']:
                c = apply(lambda x: ieq0(x - Poly.const(int(cv))) if isinstance(x, Poly) else batom('opqeq', x, cv), v)
                r.append(Edge(B.id, dst, b_and(rest, c), mem.copy()))
                rest = b_and(rest, b_not(c))
            r.append(Edge(B.id, d['default'], rest, mem.copy()))
            # merge edges to the same destination
            m = {}
            for e in r:
                if e.dst in m: m[e.dst].cond = b_or(m[e.dst].cond, e.cond)
                else: m[e.dst] = e
            return [e for e in m.values() if e.cond is not FALSE and not (self.dead_end(e.dst) and self.infeasible(e.cond))]
        if op == 'ret':
            v = self.val(d['ops'][0]) if d.get('ops') else None
            self.outcome('ret', v, pc, mem, ins)
            return []
        if op == 'unreachable':
            return []
        if op == 'resume':
            x = self.cur_exn
            if x is None and d.get('ops'):
                a = self.val(d['ops'][0])
                if a.atom is None and isinstance(a.leaf, Agg) and isinstance(a.leaf.el[0], Node): x = apply(lambda p: p.key[1] if isinstance(p, Opq) and p.key[0] == 'exnptr' else Opq("exn", "?"), a.leaf.el[0])
            self.outcome('throw', x, pc, mem, ins); return []
        if op in ('call', 'invoke'):
            r = self.call(ins, mem, pc)
            if r == 'noreturn' or d.get('noreturn'):
                thrown = self.thrown; self.thrown = None
                if self.infeasible(pc): return []
                if thrown is not None and self.exn and op == 'invoke': return self.unwind(B, ins, pc, mem, thrown)
                if thrown is not None: self.outcome('throw', thrown, pc, mem, ins)
                return []
            if op == 'invoke':
                outs = []
                th = self.may_throw(ins)
                rest = pc
                if self.exn and th:
                    for i, T in enumerate(th):
                        a = batom('throws', ins.d.get('callee', '?'), ins.id, T)
                        outs += self.unwind(B, ins, b_and(rest, a), mem.copy(), leaf(Opq('exn', T)))
                        rest = b_and(rest, b_not(a))
                outs.append(Edge(B.id, d['normal'], rest, mem))
                return outs
            if self.exn:
                th = self.may_throw(ins)
                for T in th or ():
                    a = batom('throws', ins.d.get('callee', '?'), ins.id, T)
                    self.outcome('throw', leaf(Opq('exn', T)), b_and(pc, a), mem, ins)
            return None
        self.env[ins.id] = self.compute(ins, mem, pc)
        return None

    thrown = None

    def may_throw(self, ins):
        c = ins.d.get('callee')
        if c is None: return ()
        q = self.prog.qual(c)
        return self.throws.get(q, self.throws.get('*', ()) if not ins.d.get('nounwind') and q not in self.nothrow else ())

    nothrow = set()

    def unwind(self, B, ins, cond, mem, exn):
        dst = ins.d['unwind']
        e = Edge(B.id, dst, cond, mem, exn)
        lp = next(i for i in self.fn.blocks[dst].ins if i.op == 'landingpad')
        ok = apply(lambda x: TRUE if (lp.d.get('cleanup') or any(k == 'catch' and (c['k'] == 'null' or self.is_a(x, c)) for k, c in lp.d['clauses'])) else FALSE, exn)
        if ok is TRUE: return [e]
        self.outcome('throw', exn, b_and(cond, b_not(ok)), mem, ins)
        e.cond = b_and(cond, ok)
        return [e] if e.cond is not FALSE else []

    def is_a(self, x, clause):
        from models import exn_is_a
        if not isinstance(x, Opq) or x.key[0] != 'exn': return False
        return exn_is_a(x.key[1], clause.get('n'))

    def outcome(self, kind, v, pc, mem, ins):
        if self.recording:
            self.outcomes.append((kind, v, b_and(*(self.pcs + [pc])), mem, ins.loc() if ins is not None else '?'))

    def truth(self, n):
        return apply(truth, n)

    def nonneg(self, n):
        """is integer node n provably >= 0"""
        return self.decide_node(apply(lambda p: ile0(-p) if isinstance(p, Poly) else FALSE, n)) is True

    def inrange(self, n, bits):
        lim = 1 << (bits - 1)
        c = apply(lambda p: b_and(ile0(-p - Poly.const(lim)), ile0(p - Poly.const(lim - 1))) if isinstance(p, Poly) else FALSE, n)
        return self.decide_node(c) is True

    def compute(self, ins, mem, pc):
        op = ins.op; d = ins.d
        if op == 'alloca':
            nm = 'stk%d' % ins.id
            if d.get('nm'): nm = '%s#%d' % (d['nm'].split('.')[0], ins.id)
            o = self.new_obj(nm, leaf(Poly.const(d['size'])) if 'size' in d else None, 'stack', ins.loc())
            m = re.match(r'\[\d+ x (.*)\]$', d.get('aty', ''))
            if m and typ_size(m.group(1)): self.objmeta[nm].stride = typ_size(m.group(1))
            mem.objs[o] = OState()
            return leaf(Ptr(o, ZERO))
        if op == 'getelementptr':
            b = self.val(d['base'])
            if d.get('bad'): return leaf(Opq('gep', ins.id))
            off = leaf(Poly.const(d['coff']))
            for v, s in d['voff']:
                off = n_add(off, n_mul(leaf(Poly.const(s)), self.val(v)))
            def f(p, x):
                if not isinstance(x, Poly): return Opq('gep', p, x)
                if isinstance(p, Ptr): return Ptr(p.obj, p.off + x)
                if isinstance(p, Poly):
                    a = p.single_atom()
                    if a is not None: return Ptr(self.deref_obj(a), x)
                    if p.is_const() and p.cval() == 0: return x
                return Opq('gep', p, x)
            r = apply(f, b, off)
            if d['voff'] and len(d['voff']) == 1 and isinstance(d['voff'][0][1], int) and not (d['voff'][0][1] == 1 and off.atom is None and off.leaf.is_const() if isinstance(off.leaf, Poly) else False):
                for p in leaves(r):
                    if isinstance(p, Ptr) and isinstance(p.obj, Obj):
                        meta = self.objmeta.get(p.obj.name)
                        if meta is not None and meta.stride is None and meta.kind != 'glob': meta.stride = abs(d['voff'][0][1])
            return r
        if op == 'load': return self.load(mem, self.val(d['ops'][0]), d['ty'], ins)
        if op == 'store':
            self.store(mem, self.val(d['ops'][1]), self.val(d['ops'][0]), d['sty'], ins, pc); return leaf(UNDEF)
        if op == 'landingpad':
            x = self.cur_exn if self.cur_exn is not None else leaf(UNDEF)
            return leaf(Agg([apply(lambda x: Opq('exnptr', x), x), apply(lambda x: Opq('sel', x), x)]))
        if op == 'extractvalue':
            a = self.val(d['ops'][0])
            def f(x):
                for i in d['idx']:
                    if isinstance(x, Node):
                        if x.atom is not None: return apply(lambda y: leaf(Opq('ev', y, i)), x)
                        x = x.leaf
                    if not isinstance(x, Agg): return leaf(Opq('ev', x, i))
                    x = x.el[i]
                return x
            return apply(f, a)
        if op == 'insertvalue':
            a, v = self.val(d['ops'][0]), self.val(d['ops'][1])
            i = d['idx']
            def f(x):
                if len(i) > 1: return leaf(Opq('iv'))
                el = list(x.el) if isinstance(x, Agg) else []
                while len(el) <= max(i[0], 1): el.append(leaf(UNDEF))
                el[i[0]] = v
                return leaf(Agg(el))
            return apply(f, a)
        if op == 'select':
            c = self.truth(self.val(d['ops'][0]))
            return ite(c, self.val(d['ops'][1]), self.val(d['ops'][2]))
        if op == 'freeze': return self.val(d['ops'][0])
        if op in ('fneg',): return n_neg(self.val(d['ops'][0]))
        if op in ('zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            return self.cast(ins, op, self.val(d['ops'][0]), d['ty'])
        a = self.val(d['ops'][0]); b = self.val(d['ops'][1]) if len(d['ops']) > 1 else None
        if op == 'icmp': return self.icmp(d['pred'], a, b, ins)
        if op == 'fcmp': return self.fcmp(d['pred'], a, b, ins)
        w = int(d['ty'][1:]) if re.fullmatch(r'i\d+', d['ty']) else 64
        if op in ('fadd', 'fsub', 'fmul', 'fdiv') and d['ty'] == 'float': return app('float', [{'fadd': n_add, 'fsub': n_sub, 'fmul': n_mul, 'fdiv': n_div}[op](a, b)], 'r')
        if self.rounded and op in ('fadd', 'fsub', 'fmul', 'fdiv') and d['ty'] == 'double':
            r = {'fadd': n_add, 'fsub': n_sub, 'fmul': n_mul, 'fdiv': n_div}[op](a, b)
            return apply(lambda x: leaf(x) if isinstance(x, Poly) and x.is_const() else app('double', [leaf(x)], 'r'), r)
        if op in ('add', 'fadd'): return n_add(a, b)
        if op in ('sub', 'fsub'):
            return n_sub(a, b)
        if op in ('mul', 'fmul'): return n_mul(a, b)
        if op == 'fdiv': return n_div(a, b)
        if op in ('sdiv', 'udiv'): return self.idiv(a, b, ins, op)
        if op in ('srem', 'urem'):
            q = self.idiv(a, b, ins, op[0] + 'div')
            return n_sub(a, n_mul(q, b))
        if op == 'shl':
            if b.atom is None and isinstance(b.leaf, Poly) and b.leaf.is_const(): return n_mul(a, leaf(Poly.const(1 << b.leaf.cval())))
            return app('shl', [a, b])
        if op in ('lshr', 'ashr'):
            if b.atom is None and isinstance(b.leaf, Poly) and b.leaf.is_const():
                return self.idiv(a, leaf(Poly.const(1 << b.leaf.cval())), ins, 'floor' if op == 'ashr' else 'udiv')
            return app(op, [a, b])
        if op in ('and', 'or', 'xor'):
            if d['ty'] == 'i1':
                a, b = self.truth(a), self.truth(b)
                if op == 'and': return b_and(a, b)
                if op == 'or': return b_or(a, b)
                return ite(a, b_not(b), b)
            return self.bitop(op, a, b, w)
        raise Unsupported('instruction %s' % op)

    def bitop(self, op, a, b, w):
        def f(x, y):
            if isinstance(x, Poly) and isinstance(y, Poly):
                if x.is_const() and not y.is_const(): x, y = y, x
                if y.is_const():
                    c = y.cval()
                    if x.is_const():
                        xx, m = x.cval(), (1 << w) - 1
                        r = {'and': xx & c, 'or': xx | c, 'xor': xx ^ c}[op]
                        return Poly.const(r)
                    if op == 'and' and c == 0: return ZERO
                    if op in ('or', 'xor') and c == 0: return x
                    if op == 'xor' and c == -1: return -x - ONE
                    if op == 'xor' and c == 1 and self.is01(x): return ONE - x
                    if op == 'and' and c == 1 and self.is01(x): return x
                    if op == 'and' and c > 0 and (c & (c + 1)) == 0:
                        # low bits: x mod 2^k when x >= 0
                        if self.decide_node(ile0(-x)) is True:
                            q = app('fdiv', [x, Poly.const(c + 1)])
                            return n_sub(leaf(x), n_mul(q, leaf(Poly.const(c + 1))))
                if repr(y) < repr(x): x, y = y, x
            return Poly.atom(Atom(op, (x, y), 'i'))
        return apply(f, a, b)

    def is01(self, x):
        a = x.single_atom()
        return a is not None and getattr(a, 'args', None) and ((a.kind == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith('bool:')) or a.kind == 'bool01')

    def idiv(self, a, b, ins, how):
        def f(x, y):
            if isinstance(x, Poly) and isinstance(y, Poly) and y.is_const() and y.cval() not in (0,):
                c = y.cval()
                if all(isinstance(v, int) and v % c == 0 for v in x.m.values()): return leaf(Poly({k: v // c for k, v in x.m.items()}))
                if c > 0 and (how == 'floor' or self.decide_node(ile0(-x)) is True):
                    return app('fdiv', [x, Poly.const(c)])
                return leaf(Poly.atom(Atom('tdiv' if how == 'sdiv' else how, (x, y), 'i')))
            if isinstance(x, Poly) and isinstance(y, Poly):
                if self.recording: self.obl('div-zero', ins, 'divisor %s is not zero' % y, b_not(ieq0(y)))
                return leaf(Poly.atom(Atom('xdiv', (x, y), 'i')))
            if isinstance(x, Opq) and x.key[0] == 'ptrdiff': return leaf(Opq('ptrdiff/', x, y))
            return leaf(Opq('idiv', x, y))
        return apply(f, a, b)

    def cast(self, ins, op, a, ty):
        if op in ('fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp'):
            if op == 'bitcast' and ty.startswith('i') : return apply(lambda x: Poly.atom(Atom('fbits', (x,), 'i')), a)
            if op == 'bitcast' and ty in ('double', 'float'): return apply(lambda x: Poly.atom(Atom('bitsf', (x,), 'r')) , a)
            if op in ('fptrunc', 'sitofp') and ty == 'float': return app('float', [a], 'r')
            return a
        src = ins.d['ops'][0]
        if op == 'zext':
            sty = self.ty_of(src)
            if sty == 'i1': return self.truth(a)
            if self.nonneg(a): return a
            return apply(lambda x: x if isinstance(x, Poly) and self.decide_node(ile0(-x)) is True else Poly.atom(Atom('zext', (x, sty), 'i')), a)
        if op == 'sext':
            sty = self.ty_of(src)
            if sty == 'i1': return n_neg(self.truth(a))
            return a
        if op == 'uitofp':
            sty = self.ty_of(src)
            return a
        if op == 'trunc':
            if ty == 'i1': return self.truth(a)
            w = int(ty[1:])
            def f(x):
                if isinstance(x, Poly):
                    k = self.inrange(leaf(x), w)
                    if k: return x
                    c = self.is01(x)
                    if c: return x
                    return Poly.atom(Atom('trunc', (x, w), 'i'))
                return Opq('trunc', x, w)
            return apply(f, a)
        if op in ('fptosi', 'fptoui'):
            def f(x):
                if isinstance(x, Poly):
                    if x.is_const(): return Poly.const(int(x.cval()))
                    if all(a.sort == 'i' for a in x.atoms()) and all(isinstance(v, int) for v in x.m.values()): return x
                    return Poly.atom(Atom('toint', (x,), 'i'))
                return Opq('toint', x)
            return apply(f, a)

    def ty_of(self, o):
        if o['k'] == 'v':
            t = self.types().get(o['i'])
            if t: return t
        if o['k'] == 'int': return 'i%d' % o.get('w', 32)
        return '?'

    def types(self):
        if getattr(self.fn, '_types', None) is None:
            t = {}
            for B in self.fn.blocks.values():
                for i in B.ins: t[i.id] = i.ty
            for p in self.fn.params: t[p['i']] = p['ty']
            self.fn._types = t
        return self.fn._types

    def icmp(self, pred, a, b, ins):
        def f(x, y):
            if isinstance(x, Opq) or isinstance(y, Opq):
                if isinstance(x, Opq) and isinstance(y, Opq) and x.key[0] == 'sel' and y.key[0] == 'typeid':
                    from models import exn_is_a
                    r = isinstance(x.key[1], Opq) and x.key[1].key[0] == 'exn' and exn_is_a(x.key[1].key[1], y.key[1])
                    return TRUE if r == (pred == 'eq') else FALSE
                return batom('icmp', pred, x, y)
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    if x.obj == y.obj: x, y = x.off, y.off
                    elif pred in ('eq', 'ne'): return TRUE if pred == 'ne' else FALSE
                    else: return batom('icmp', pred, x, y)
                else:
                    o = y if isinstance(x, Ptr) else x
                    if isinstance(o, Poly) and o.is_const() and o.cval() == 0 and pred in ('eq', 'ne'): return TRUE if pred == 'ne' else FALSE
                    if isinstance(o, Poly) and pred in ('eq', 'ne'): return batom('ptreq', x, y) if pred == 'eq' else b_not(batom('ptreq', x, y))
                    return batom('icmp', pred, x, y)
            if not (isinstance(x, Poly) and isinstance(y, Poly)): return batom('icmp', pred, x, y)
            nanp = self.nanpat(pred, x, y)
            if nanp is not None: return nanp
            p = x - y
            if pred == 'eq': return ieq0(p)
            if pred == 'ne': return b_not(ieq0(p))
            if pred == 'slt': return ile0(p + ONE)
            if pred == 'sle': return ile0(p)
            if pred == 'sgt': return ile0(ONE - p)
            if pred == 'sge': return ile0(-p)
            # unsigned
            q = {'ult': ile0(p + ONE), 'ule': ile0(p), 'ugt': ile0(ONE - p), 'uge': ile0(-p)}[pred]
            xn = self.known_nonneg(x); yn = self.known_nonneg(y)
            if xn is TRUE and yn is TRUE: return q
            big = TRUE if pred in ('ugt', 'uge') else FALSE    # x negative (huge), y nonneg
            same = q
            return ite(xn, ite(yn, q, b_not(big)), ite(yn, big, same))
        return apply(f, a, b)

    def known_nonneg(self, x):
        n = ile0(-x)
        r = self.decide_node(n)
        if r is True: return TRUE
        if r is False: return FALSE
        return n

    def nanpat(self, pred, x, y):
        """(bits(v) & 0x7fff...) compared with the exponent pattern: a NaN test"""
        INFB = 0x7ff0000000000000
        if not y.is_const(): return None
        a = x.single_atom()
        if a is None or a.kind != 'and': return None
        p, m = a.args
        if isinstance(p, Poly) and p.is_const(): p, m = m, p
        if not (isinstance(m, Poly) and m.is_const() and m.cval() == 0x7fffffffffffffff and isinstance(p, Poly)): return None
        b = p.single_atom()
        if b is None or b.kind != 'fbits': return None
        v = b.args[0]
        c = y.cval()
        if pred in ('ugt', 'sgt') and c == INFB: return batom('isnan', v)
        if pred in ('ule', 'sle') and c == INFB: return b_not(batom('isnan', v))
        if pred in ('uge', 'sge') and c == INFB + 1: return batom('isnan', v)
        if pred in ('ult', 'slt') and c == INFB + 1: return b_not(batom('isnan', v))
        if pred in ('uge', 'sge') and c == INFB: return batom('isnotfinite', v)
        if pred in ('ult', 'slt') and c == INFB: return b_not(batom('isnotfinite', v))
        if pred in ('ugt', 'sgt') and c == INFB - 1: return batom('isnotfinite', v)
        return None

    def fcmp(self, pred, a, b, ins):
        fast = ins.d.get('fmf')
        def f(x, y):
            if not (isinstance(x, Poly) and isinstance(y, Poly)): return batom('fcmp', pred, x, y)
            if pred in ('ord', 'uno') : return TRUE if pred == 'ord' else FALSE
            infs = self.inf_cmp(pred, x, y)
            if infs is not None: return infs
            p = x - y
            q = pred[1:] if pred not in ('true', 'false') else pred
            if q == 'eq': return feq0(p)
            if q == 'ne': return b_not(feq0(p))
            if q == 'lt': return flt0(p)
            if q == 'le': return fle0(p)
            if q == 'gt': return flt0(-p)
            if q == 'ge': return fle0(-p)
            return TRUE if pred == 'true' else FALSE
        return apply(f, a, b)

    def inf_cmp(self, pred, x, y):
        inf = Atom('sym', ('INF',), 'r')
        p = x - y
        c = p.coeff(inf)
        if c == 0: return None
        # p has the sign of c (finite other operand)
        q = pred[1:]
        pos = c > 0
        return {'lt': FALSE if pos else TRUE, 'le': FALSE if pos else TRUE, 'gt': TRUE if pos else FALSE, 'ge': TRUE if pos else FALSE, 'eq': FALSE, 'ne': TRUE}[q]

    # ------------------------------------------------------------ calls
    def reaches_memory(self, args):
        return any(isinstance(x, Ptr) and getattr(x.obj, 'kind', '') != 'glob' and getattr(x.obj, 'string', None) is None for a in args for x in leaves(a))

    def call(self, ins, mem, pc):
        import models
        d = ins.d
        c = d.get('callee')
        args = [self.val(a) if a['k'] != 'md' else leaf(UNDEF) for a in d['args']]
        if c is None:
            self.unsup('indirect call', ins, self.reaches_memory(args))
            self.event('indirect', args, ins)
            self.env[ins.id] = leaf(Opq('icall', ins.id)); return None
        q = self.prog.qual(c)
        m = self.models.get(c) or self.models.get(q) or models.lookup(c, q)
        if m is None:
            self.unsup('call of %s' % q, ins, self.reaches_memory(args))
            self.event('call:' + q, args, ins)
            self.env[ins.id] = leaf(Poly.atom(Atom('call:' + q, tuple(a.leaf if a.atom is None else a for a in args) + (ins.id,), sort_of(ins.ty)))) if ins.ty != 'void' else leaf(UNDEF)
            return None
        r = m(self, ins, args, mem, pc)
        if isinstance(r, str) and r == 'noreturn': return r
        self.env[ins.id] = r if r is not None else leaf(UNDEF)
        return None

    # ------------------------------------------------------------ loops
    def run_loop(self, l, es):
        import loops
        return loops.run_loop(self, l, es)


def guards(n):
    """[(condition, value)] for the distinct values of a decision"""
    return [(apply(lambda x: TRUE if x == p else FALSE, n), p) for p in dict.fromkeys(leaves(n))]


def paths(n):
    out = []
    def rec(x, c):
        if c is FALSE: return
        if x.atom is None: out.append((c, x.leaf)); return
        a = mk(x.atom, TRUE, FALSE)
        rec(x.hi, b_and(c, a)); rec(x.lo, b_and(c, b_not(a)))
    rec(n, TRUE)
    return out


def guess_sort(n):
    for x in leaves(n):
        if isinstance(x, Ptr): return 'p'
        if isinstance(x, Poly):
            for a in x.atoms():
                if a.sort == 'r': return 'r'
    return 'i'


def arr_sort(n):
    for a in leaves(n):
        while isinstance(a, Arr) and a.kind == 'upd':
            x = a.args[0]
            while x.atom is not None: x = x.hi
            a = x.leaf
        if isinstance(a, Arr) and len(a.args) > 1: return a.args[1]
    return 'r'


def _rw_fdiv(args, sort):
    p, c = args
    if not isinstance(p, Poly): return None
    c = c.cval() if isinstance(c, Poly) else c
    if p.is_const(): return Poly.const(p.cval() // c)
    hi, lo = {}, {}
    for k, v in p.m.items():
        q = v // c; r = v - q * c
        if q: hi[k] = q
        if r: lo[k] = r
    if not hi: 
        if isinstance(args[1], Poly): return None
    lo = Poly(lo)
    if not lo.m: return Poly(hi)
    if lo.is_const(): return Poly(hi)      # 0 <= r < c
    if lo == p: return None
    # nested floor division
    return Poly(hi) + _mkfdiv(lo, c)


def _mkfdiv(p, c):
    g = _content_int(p, c)
    return Poly.atom(Atom('fdiv', (p, Poly.const(c)), 'i'))


def _content_int(p, c): return 1


REWRITE['fdiv'] = _rw_fdiv


def _rw_sqrt(args, sort):
    p = args[0]
    if isinstance(p, Poly) and p.is_const():
        from math import isqrt
        v = p.cval()
        if isinstance(v, int) and v >= 0 and isqrt(v) ** 2 == v: return Poly.const(isqrt(v))
    return None


REWRITE['sqrt'] = _rw_sqrt


def _rw_toint(args, sort):
    p = args[0]
    if isinstance(p, Poly):
        if p.is_const(): return Poly.const(int(p.cval()))
        if all(a.sort == 'i' for a in p.atoms()) and all(isinstance(v, int) for v in p.m.values()): return p
    return None


REWRITE['toint'] = _rw_toint


def _rw_ldexp(args, sort):
    x, e = args
    if isinstance(x, Poly) and isinstance(e, Poly):
        if e.is_const(): return x.scale(Fraction(2) ** e.cval())
        return x * Poly.atom(Atom('pow2', (e,), 'r'))
    return None


REWRITE['ldexp'] = _rw_ldexp


def _rw_log(args, sort):
    p = args[0]
    if isinstance(p, Poly):
        if p == ONE: return ZERO
    return None


REWRITE['log'] = _rw_log


def _rw_lgamma(args, sort):
    p = args[0]
    if isinstance(p, Poly) and p.is_const() and p.cval() in (1, 2): return ZERO
    return None


REWRITE['lgamma'] = _rw_lgamma


def _rw_pow(args, sort):
    x, e = args
    if not isinstance(x, Poly) or not isinstance(e, Poly): return None
    if e == ZERO: return ONE
    if e == ONE: return x
    if x == ONE: return ONE
    if x == ZERO:
        if e.is_const(): return ZERO if e.cval() > 0 else None
        if all(a.sort == 'i' for a in e.atoms()): return ite(ieq0(e), leaf(ONE), ite(ile0(e), leaf(Poly.atom(Atom('pow', (x, e), 'r'))), leaf(ZERO)))
    return None


REWRITE['pow'] = _rw_pow


def _rw_pow2(args, sort):
    e = args[0]
    if isinstance(e, Poly) and e.is_const() and isinstance(e.cval(), int) and abs(e.cval()) < 20000: return Poly.const(Fraction(2) ** e.cval())
    return None


REWRITE['pow2'] = _rw_pow2

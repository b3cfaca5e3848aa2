"""What a name of a Python module does when called, derived from the module's syntax tree.

Functions of the extension module are uninterpreted: calling one yields the term ('call', name, arguments).  A small
abstract evaluator covers the constructs thin wrappers are written with; anything else raises Unknown."""
import ast, warnings
warnings.simplefilter('ignore', SyntaxWarning)


class Unknown(Exception): pass


class Raised(Exception):
    def __init__(self, what): self.what = what


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception): pass
class Cont(Exception): pass


class CMod:
    def __init__(self, name): self.name = name


class CFun:
    def __init__(self, name): self.name = name


class Fun:
    def __init__(self, node, env): self.node = node; self.env = env


class Thing:                # something the evaluator does not look into
    def __init__(self, what): self.what = what


class Value(tuple): pass    # the result of an extension call

PURE = {'len': len, 'list': list, 'tuple': tuple, 'sorted': sorted, 'min': min, 'max': max, 'bool': bool, 'float': float, 'int': int, 'abs': abs, 'range': range, 'sum': sum, 'any': any,
        'all': all, 'enumerate': enumerate, 'zip': zip, 'reversed': reversed, 'round': round, 'dict': dict, 'set': set, 'str': str, 'hash': hash, 'type': type, 'id': id}
TYPES = {'list': list, 'tuple': tuple, 'float': float, 'int': int, 'bool': bool, 'str': str, 'dict': dict, 'object': object}
METHODS = {list: {'append', 'copy', 'index', 'count', 'extend', 'reverse', 'sort', 'pop', 'insert'}, dict: {'get', 'setdefault', 'keys', 'items', 'values', 'pop', 'clear', 'update', 'copy'}, tuple: {'index', 'count'}, str: {'startswith', 'endswith', 'lower', 'upper', 'format', 'join'}, set: {'add'}}


def ok(v):
    if isinstance(v, (list, tuple, set)) and not isinstance(v, Value): return all(ok(x) for x in v)
    return not isinstance(v, (Thing,))


class Module:
    def __init__(self, path, ext):
        self.ext = ext
        self.tree = ast.parse(open(path).read())
        self.reset()

    def reset(self):
        """the module's names after it has been imported"""
        self.env = {}; self.steps = 0
        self.block(self.tree.body)

    def block(self, body, sure=True):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.env[s.name] = Fun(s, self.env) if sure and not s.decorator_list and isinstance(s, ast.FunctionDef) else Thing(s.name)
            elif isinstance(s, ast.ClassDef): self.env[s.name] = Thing(s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    nm = (a.asname or a.name).split('.')[0]
                    if a.name == '*' : 
                        if s.module and s.module.split('.')[-1] == self.ext: self.env['*'] = CMod(self.ext)
                        else: self.env['*'] = Thing('*')
                    elif isinstance(s, ast.ImportFrom) and s.module and s.module.split('.')[-1] == self.ext: self.env[nm] = CFun(a.name)
                    else: self.env[nm] = CMod(self.ext) if a.name.split('.')[-1] == self.ext else Thing(a.name)
            elif isinstance(s, ast.If): self.block(s.body, False); self.block(s.orelse, False)
            elif isinstance(s, ast.Try):
                self.block(s.body, False)
                for h in s.handlers: self.block(h.body, False)
                self.block(s.orelse, False); self.block(s.finalbody, False)
            elif isinstance(s, (ast.For, ast.While, ast.With)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): self.env[n.id] = Thing(n.id)
            else:
                try:
                    if not sure: raise Unknown('conditional')
                    self.stmt(s, self.env)
                except Exception:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): self.env[n.id] = Thing(n.id)

    def call(self, name, args):
        self.steps = 0
        f = self.env.get(name)
        if f is None and isinstance(self.env.get('*'), CMod): f = CFun(name)
        if f is None: return ('missing',)
        try: return ('value', self.apply(f, list(args), {}))
        except Raised as r: return ('raised', r.what)
        except RecursionError: raise Unknown('recursion')

    def apply(self, f, args, kw):
        if isinstance(f, CFun):
            if kw: raise Unknown('keywords')
            return Value(('call', f.name, tuple(list(a) if isinstance(a, (list, tuple)) and not isinstance(a, Value) else a for a in args)))
        if not isinstance(f, Fun): raise Unknown('call of %s' % (getattr(f, 'what', f),))
        a = f.node.args
        if a.kwonlyargs or a.kwarg: raise Unknown('keyword parameters')
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {'\0up': f.env}
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        rest = args[len(names):]
        for n, v in zip(names, args): env[n] = v
        if rest and not a.vararg: raise Raised('TypeError')
        if a.vararg: env[a.vararg.arg] = tuple(rest)
        for k, v in kw.items():
            if k not in names or k in env: raise Raised('TypeError')
            env[k] = v
        for n in names:
            if n not in env:
                if n not in defaults: raise Raised('TypeError')
                if not isinstance(defaults[n], (ast.Constant, ast.Name)):
                    key = ('default', id(defaults[n]))
                    if key not in self.env: self.env[key] = self.ex(defaults[n], f.env)
                    env[n] = self.env[key]
                else: env[n] = self.ex(defaults[n], f.env)
        env['\0globals'] = set()
        try: self.body(f.node.body, env)
        except Ret as r: return r.v
        return None

    def body(self, b, env):
        for s in b: self.stmt(s, env)

    def tick(self):
        self.steps += 1
        if self.steps > 200000: raise Unknown('too long')

    def stmt(self, s, env):
        self.tick()
        if isinstance(s, ast.Return): raise Ret(self.ex(s.value, env) if s.value else None)
        if isinstance(s, ast.Expr): self.ex(s.value, env); return
        if isinstance(s, ast.Pass): return
        if isinstance(s, ast.Assign):
            v = self.ex(s.value, env)
            for t in s.targets: self.assign(t, v, env)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value: self.assign(s.target, self.ex(s.value, env), env)
            return
        if isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.Name(s.target.id, ast.Load()), s) if isinstance(s.target, ast.Name) else None
            if load is None: raise Unknown('augmented')
            self.assign(s.target, self.bin(s.op, self.ex(load, env), self.ex(s.value, env)), env); return
        if isinstance(s, ast.If):
            self.body(s.body if self.truth(self.ex(s.test, env)) else s.orelse, env); return
        if isinstance(s, ast.For):
            for v in self.iter(self.ex(s.iter, env)):
                self.tick(); self.assign(s.target, v, env)
                try: self.body(s.body, env)
                except Brk: break
                except Cont: continue
            else: self.body(s.orelse, env)
            return
        if isinstance(s, ast.While):
            while self.truth(self.ex(s.test, env)):
                self.tick()
                try: self.body(s.body, env)
                except Brk: break
                except Cont: continue
            else: self.body(s.orelse, env)
            return
        if isinstance(s, ast.Break): raise Brk()
        if isinstance(s, ast.Continue): raise Cont()
        if isinstance(s, ast.Raise):
            e = s.exc
            if isinstance(e, ast.Call): e = e.func
            raise Raised(e.id if isinstance(e, ast.Name) else '?')
        if isinstance(s, ast.Assert):
            if not self.truth(self.ex(s.test, env)): raise Raised('AssertionError')
            return
        if isinstance(s, ast.Global): env.setdefault('\0globals', set()).update(s.names); return
        if isinstance(s, ast.FunctionDef) and not s.decorator_list: env[s.name] = Fun(s, env); return
        raise Unknown(type(s).__name__)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.get('\0globals', ()): self.env[t.id] = v
            else: env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iter(v))
            if len(vs) != len(t.elts): raise Raised('ValueError')
            for x, y in zip(t.elts, vs): self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            o = self.ex(t.value, env); k = self.ex(t.slice, env)
            if not isinstance(o, (list, dict)): raise Unknown('store')
            self.safe(lambda: o.__setitem__(k, v))
        else: raise Unknown('target')

    def safe(self, f):
        try: return f()
        except (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, OverflowError, AttributeError) as e: raise Raised(type(e).__name__)

    def truth(self, v):
        if isinstance(v, (Value, Thing, CFun, CMod)): raise Unknown('decision on a result')
        return bool(v)

    def iter(self, v):
        if isinstance(v, (Value, Thing, CFun, CMod, Fun)): raise Unknown('iteration')
        return self.safe(lambda: iter(v))

    def bin(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Value): return Value(('op', type(op).__name__, tuple(a) if isinstance(a, Value) else a, tuple(b) if isinstance(b, Value) else b))
            if isinstance(x, (Thing, CFun, CMod, Fun)): raise Unknown('operand')
        f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b,
             ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b}.get(type(op))
        if f is None: raise Unknown('operator')
        return self.safe(f)

    def lookup(self, n, env):
        e = env
        while e is not None:
            if n in e: return e[n]
            e = e.get('\0up')
        if n in self.env: return self.env[n]
        if n in PURE: return PURE[n]
        if n in ('isinstance', 'getattr', 'map', 'filter'): return Thing(n)
        raise Unknown('name ' + n)

    def ex(self, x, env):
        self.tick()
        E = lambda y: self.ex(y, env)
        if isinstance(x, ast.Constant): return x.value
        if isinstance(x, ast.Name): return self.lookup(x.id, env)
        if isinstance(x, ast.Attribute):
            o = E(x.value)
            if isinstance(o, CMod): return CFun(x.attr)
            for t, ms in METHODS.items():
                if type(o) is t and x.attr in ms: return ('\0method', o, x.attr)
            raise Unknown('attribute ' + x.attr)
        if isinstance(x, ast.Call):
            args = []
            for a in x.args:
                if isinstance(a, ast.Starred): args += list(self.iter(E(a.value)))
                else: args.append(a)
            if any(k.arg is None for k in x.keywords): raise Unknown('**')
            if isinstance(x.func, ast.Name) and x.func.id == 'isinstance' and 'isinstance' not in self.env and len(args) == 2:
                ts = args[1].elts if isinstance(args[1], ast.Tuple) else [args[1]]
                if not all(isinstance(t, ast.Name) and t.id in TYPES and t.id not in self.env for t in ts): raise Unknown('isinstance')
                v = E(args[0])
                if isinstance(v, (Value, Thing)): raise Unknown('isinstance')
                return isinstance(v, tuple(TYPES[t.id] for t in ts))
            if isinstance(x.func, ast.Name) and x.func.id == 'getattr' and 'getattr' not in self.env and len(args) == 2 and not x.keywords:
                o, a = E(args[0]), E(args[1])
                if isinstance(o, CMod) and isinstance(a, str): return CFun(a)
                raise Unknown('getattr')
            f = E(x.func)
            args = [E(a) if isinstance(a, ast.AST) else a for a in args]
            kw = {k.arg: E(k.value) for k in x.keywords}
            if f is float and len(args) == 1 and isinstance(args[0], Value): return args[0]
            if isinstance(f, tuple) and f[:1] == ('\0method',) or any(f is p for p in PURE.values()):
                for a in args + list(kw.values()):
                    if isinstance(a, (Thing, CFun, CMod, Fun)) : raise Unknown('argument')
                if not isinstance(f, tuple) and any(isinstance(a, Value) for a in args):
                    return Value(('fun', x.func.id if isinstance(x.func, ast.Name) else '?') + tuple(tuple(a) if isinstance(a, Value) else a for a in args))
                if f is id or f is type or f is hash: raise Unknown('identity')
                return self.safe(lambda: (getattr(f[1], f[2]) if isinstance(f, tuple) else f)(*args, **kw))
            return self.apply(f, args, kw)
        if isinstance(x, (ast.List, ast.Tuple)):
            v = []
            for y in x.elts:
                if isinstance(y, ast.Starred): v += list(self.iter(E(y.value)))
                else: v.append(E(y))
            return v if isinstance(x, ast.List) else tuple(v)
        if isinstance(x, ast.Dict):
            if any(k is None for k in x.keys): raise Unknown('dict')
            return {E(k): E(v) for k, v in zip(x.keys, x.values)}
        if isinstance(x, ast.UnaryOp):
            v = E(x.operand)
            if isinstance(x.op, ast.Not): return not self.truth(v)
            if isinstance(v, Value): return Value(('op', type(x.op).__name__, tuple(v)))
            if isinstance(x.op, ast.USub): return self.safe(lambda: -v)
            if isinstance(x.op, ast.UAdd): return self.safe(lambda: +v)
            raise Unknown('unary')
        if isinstance(x, ast.BinOp): return self.bin(x.op, E(x.left), E(x.right))
        if isinstance(x, ast.BoolOp):
            v = None
            for y in x.values:
                v = E(y)
                if self.truth(v) != isinstance(x.op, ast.And): return v
            return v
        if isinstance(x, ast.Compare):
            l = E(x.left)
            for o, y in zip(x.ops, x.comparators):
                r = E(y)
                if isinstance(o, (ast.Is, ast.IsNot)):
                    if l is not None and r is not None and not isinstance(r, bool): raise Unknown('identity')
                    v = (l is r) == isinstance(o, ast.Is)
                else:
                    if any(isinstance(z, (Value, Thing, CFun, CMod, Fun)) for z in (l, r)): raise Unknown('comparison')
                    f = {ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r, ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r, ast.In: lambda: l in r, ast.NotIn: lambda: l not in r}.get(type(o))
                    if f is None: raise Unknown('compare')
                    v = self.safe(f)
                if not v: return False
                l = r
            return True
        if isinstance(x, ast.IfExp): return E(x.body) if self.truth(E(x.test)) else E(x.orelse)
        if isinstance(x, ast.Subscript):
            o = E(x.value)
            if isinstance(o, (Value, Thing)): raise Unknown('element')
            if isinstance(x.slice, ast.Slice):
                s = slice(*[E(y) if y is not None else None for y in (x.slice.lower, x.slice.upper, x.slice.step)])
                return self.safe(lambda: o[s])
            k = E(x.slice)
            return self.safe(lambda: o[k])
        if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            out = []
            def rec(gs, e):
                if not gs: out.append(self.ex(x.elt, e)); return
                g = gs[0]
                if g.is_async: raise Unknown('async')
                for v in self.iter(self.ex(g.iter, e)):
                    self.tick()
                    e2 = {'\0up': e}; self.assign(g.target, v, e2)
                    if all(self.truth(self.ex(c, e2)) for c in g.ifs): rec(gs[1:], e2)
            rec(x.generators, env)
            return set(out) if isinstance(x, ast.SetComp) else out
        if isinstance(x, ast.Lambda):
            f = ast.FunctionDef(name='lambda', args=x.args, body=[ast.Return(x.body)], decorator_list=[])
            return Fun(f, env)
        raise Unknown(type(x).__name__)


def forwards(m, name, nparams):
    """syntactic fact: the name is a plain function that hands its parameters, unchanged and in order, to the extension
    function of the same name and returns what it gives (or it is that function)"""
    f = m.env.get(name)
    if isinstance(f, CFun): return f.name == name
    if f is None and isinstance(m.env.get('*'), CMod): return True
    if not isinstance(f, Fun): return False
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if len(b) != 1 or not isinstance(b[0], ast.Return) or not isinstance(b[0].value, ast.Call): return False
    c = b[0].value
    if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and isinstance(m.env.get(c.func.value.id), CMod) and c.func.value.id not in ps: ok_ = c.func.attr == name
    else: ok_ = False
    return ok_ and len(ps) == nparams and not c.keywords and [getattr(x, 'id', None) for x in c.args] == ps and not a.vararg

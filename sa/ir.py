"""Function-level view of the extracted program: blocks, edges, dominators, natural loops."""
from build import AnalysisError


class Inst:
    __slots__ = ('d', 'id', 'op', 'ty', 'blk')

    def __init__(self, d, blk):
        self.d = d; self.id = d['i']; self.op = d['op']; self.ty = d['ty']; self.blk = blk

    def loc(self):
        for f, l, s in self.d.get('loc', []):
            if '/src/' in f or f.startswith('src/'): return '%s:%d (%s)' % (f.split('/')[-1], l, s)
        l = self.d.get('loc')
        return '%s:%d (%s)' % (l[0][0].split('/')[-1], l[0][1], l[0][2]) if l else '?'


class Block:
    __slots__ = ('id', 'ins', 'succ', 'preds', 'nm')


class Loop:
    __slots__ = ('header', 'body', 'parent', 'children', 'latches', 'exits')


class Func:
    def __init__(self, d, exn=False):
        self.d = d; self.name = d['name']; self.qual = d.get('qual', d['name'])
        self.params = d['params']
        self.blocks = {}
        for b in d['blocks']:
            B = Block(); B.id = b['i']; B.ins = [Inst(i, b['i']) for i in b['ins']]; B.succ = list(b['succ']); B.preds = []; B.nm = b.get('nm')
            self.blocks[B.id] = B
        self.entry = d['blocks'][0]['i']
        if not exn: self.drop_unwind()
        self.prune()
        self.analyze()

    def drop_unwind(self):
        for b in self.blocks.values():
            t = b.ins[-1]
            if t.op == 'invoke': b.succ = [t.d['normal']]

    def prune(self):
        seen = set(); st = [self.entry]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st.extend(self.blocks[x].succ)
        self.blocks = {k: v for k, v in self.blocks.items() if k in seen}
        for b in self.blocks.values(): b.preds = []
        for b in self.blocks.values():
            for s in dict.fromkeys(b.succ): self.blocks[s].preds.append(b.id)

    def analyze(self):
        # reverse postorder
        order = []; seen = set()
        st = [(self.entry, iter(self.blocks[self.entry].succ))]; seen.add(self.entry)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); st.append((y, iter(self.blocks[y].succ))); break
            else:
                order.append(x); st.pop()
        self.rpo = order[::-1]
        self.rpon = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.blocks[b].preds if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while self.rpon[a] > self.rpon[c]: a = idom[a]
                        while self.rpon[c] > self.rpon[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.blocks[b].succ:
                if self.dom(s, b):
                    l = self.loops.get(s)
                    if l is None:
                        l = Loop(); l.header = s; l.body = {s}; l.latches = []; l.parent = None; l.children = []
                        self.loops[s] = l
                    l.latches.append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in l.body: continue
                        l.body.add(x); st.extend(self.blocks[x].preds)
                elif self.rpon[s] <= self.rpon[b]:
                    raise AnalysisError('irreducible control flow in %s' % self.name)
        ls = sorted(self.loops.values(), key=lambda l: len(l.body))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.header in m.body and m is not l:
                    l.parent = m; m.children.append(l); break
        for l in ls:
            l.exits = [(b, s) for b in sorted(l.body, key=lambda x: self.rpon[x]) for s in dict.fromkeys(self.blocks[b].succ) if s not in l.body]
        self.inner = {}
        for l in ls:
            for b in l.body:
                if b not in self.inner: self.inner[b] = l

    def dom(self, a, b):
        while True:
            if a == b: return True
            n = self.idom.get(b)
            if n is None or n == b: return False
            b = n


class Program:
    def __init__(self, js):
        self.js = js
        self.fns = {f['name']: f for f in js['functions']}
        self.globals = {g['n']: g for g in js['globals']}

    def find(self, qual):
        c = [f for f in self.js['functions'] if f.get('qual') == qual and not f['decl']]
        if not c: raise AnalysisError('anchor vanished: no function %s in the analysed program' % qual)
        return c[0]

    def qual(self, name):
        f = self.fns.get(name)
        return f.get('qual', name) if f else name

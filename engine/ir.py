"""Reader for the JSON that irdump emits: functions, CFG, dominators, natural loops."""
import json

class Block:
    __slots__ = ("idx", "ins", "succs", "preds")

class Loop:
    __slots__ = ("header", "body", "latches", "parent", "children")
    def __init__(self, header):
        self.header = header; self.body = {header}; self.latches = set(); self.parent = None; self.children = []

class Function:
    def __init__(self, j):
        self.name = j["name"]; self.dem = j["dem"]; self.rt = j["rt"]; self.args = j["args"]
        self.decl = j.get("decl", False); self.noreturn = j.get("noreturn", False)
        self.subs = j.get("subs", [])
        self.vararg = j.get("vararg", False)
        self.blocks = []
        if self.decl: return
        for i, ins in enumerate(j["blocks"]):
            b = Block(); b.idx = i; b.ins = ins; b.preds = []; b.succs = self._succs(ins[-1]); self.blocks.append(b)
        for b in self.blocks:
            for s in b.succs: self.blocks[s].preds.append(b.idx)
        self._analyse()

    @staticmethod
    def _succs(t):
        op = t["op"]
        if op == "br": l = list(t["succ"])
        elif op == "switch": l = [t["def"]] + [c[1] for c in t["cases"]]
        elif op == "indirectbr": l = list(t["succ"])
        elif op == "invoke": l = [t["normal"], t["unwind"]]
        else: l = []
        out = []
        for x in l:
            if x not in out: out.append(x)
        return out

    def _analyse(self):
        n = len(self.blocks)
        order = []; seen = set()
        stack = [(0, iter(self.blocks[0].succs))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.blocks[s].succs))); break
            else:
                order.append(b); stack.pop()
        self.rpo = list(reversed(order)); self.rpon = {b: i for i, b in enumerate(self.rpo)}
        idom = {0: 0}; changed = True
        def inter(a, b):
            while a != b:
                while self.rpon[a] > self.rpon[b]: a = idom[a]
                while self.rpon[b] > self.rpon[a]: b = idom[b]
            return a
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in self.blocks[b].preds if p in idom and p in self.rpon]
                if not ps: continue
                new = ps[0]
                for p in ps[1:]: new = inter(new, p)
                if idom.get(b) != new: idom[b] = new; changed = True
        self.idom = idom
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.blocks[b].succs:
                if dominates(s, b):
                    L = loops.setdefault(s, Loop(s)); L.latches.add(b)
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in L.body: continue
                        L.body.add(x)
                        work.extend(p for p in self.blocks[x].preds if p in self.rpon)
                elif self.rpon[s] <= self.rpon[b]:
                    self.irreducible = True
        ls = sorted(loops.values(), key=lambda l: len(l.body))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.header in m.body and l is not m:
                    l.parent = m; m.children.append(l); break
        self.loops = loops
        self.toploops = [l for l in ls if l.parent is None]

class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.globals = j["globals"]; self.roots = j["roots"]
        self.funcs = {}
        self._raw = j["funcs"]
    def fn(self, name):
        f = self.funcs.get(name)
        if f is None:
            r = self._raw.get(name)
            if r is None: return None
            f = self.funcs[name] = Function(r)
        return f
    def names(self): return list(self._raw)
    def dem(self, name):
        r = self._raw.get(name); return r["dem"] if r else name

"""Verification-condition generator over LLVM IR.

Forward symbolic execution with state merging.  Calls are replaced by the callee's contract where one is registered and
executed through otherwise; loops are either cut by inductive invariants (the candidates a proof supplies are filtered
to the largest inductive subset, Houdini style, every surviving candidate being proved on entry and preserved by the
body) or unrolled to the bound their operand width imposes, with an unwinding obligation.  Every assertion, every
in-bounds access, every `M_insist`, every sanitizer trap and every unwinding assertion reached becomes an obligation
    path condition  ==>  assertion
for the SMT back end."""
import os, re, time, itertools
import z3

class Unsupported(Exception): pass

T, F = z3.BoolVal(True), z3.BoolVal(False)
def bv(v, n=64): return z3.BitVecVal(v, n)
_fresh = itertools.count()
def fresh_name(p): return "%s!%d" % (p, next(_fresh))
def fbv(n, p="h"): return z3.BitVec(fresh_name(p), n)
def fbool(p="b"): return z3.Bool(fresh_name(p))

def simp(e): return z3.simplify(e)
def is_num(e): return z3.is_bv_value(e)
def cv(e):
    """python int of a constant bit-vector, or None"""
    if z3.is_bv_value(e): return e.as_long()
    return None
def scv(e):
    if z3.is_bv_value(e): return e.as_signed_long()
    return None

def Andl(l):
    l = [x for x in l if not z3.is_true(x)]
    if any(z3.is_false(x) for x in l): return F
    if not l: return T
    return l[0] if len(l) == 1 else z3.And(*l)
def Orl(l):
    l = [x for x in l if not z3.is_false(x)]
    if any(z3.is_true(x) for x in l): return T
    if not l: return F
    return l[0] if len(l) == 1 else z3.Or(*l)
def Ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)

_heavy = {}
def heavy(e):
    """multiplies or divides by something other than a power of two"""
    k = e.get_id()
    r = _heavy.get(k)
    if r is None or not r[0].eq(e):
        v = False
        if z3.is_app(e):
            d = e.decl().kind()
            if d in (z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BSDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSREM_I):
                v = not any(z3.is_bv_value(c) and bin(c.as_long()).count("1") in (1, c.size()) for c in e.children())
            v = v or any(heavy(c) for c in e.children())
        r = _heavy[k] = (e, v)
    return r[1]

NULL = 0
class Ptr:
    __slots__ = ("alts",)
    def __init__(self, alts): self.alts = alts
    @staticmethod
    def mk(obj, off=0): return Ptr([(T, obj, bv(off) if isinstance(off, int) else off)])
    def __repr__(self): return "Ptr(%s)" % ", ".join("%s+%s" % (getattr(o,"name",o), f) for _, o, f in self.alts)

class Obj:
    __slots__ = ("name", "size", "ty", "base", "const", "gran", "fn", "opaque", "kind", "ptrelem", "refs")
    def __init__(self, name, size, ty=None, const=False, kind="obj"):
        self.name = name; self.size = size; self.ty = ty; self.const = const; self.gran = None
        self.base = None; self.fn = None; self.opaque = False; self.kind = kind; self.ptrelem = None; self.refs = None
    def __repr__(self): return "<%s>" % self.name

class Region:
    __slots__ = ("start", "es", "n", "arr")
    def __init__(self, start, es, n, arr): self.start = start; self.es = es; self.n = n; self.arr = arr

class OState:
    __slots__ = ("cells", "regs", "init")
    def __init__(self, cells=None, regs=None, init="undef"):
        self.cells = cells if cells is not None else {}; self.regs = regs if regs is not None else []; self.init = init
    def copy(self): return OState(dict(self.cells), [Region(r.start, r.es, r.n, r.arr) for r in self.regs], self.init)

class State:
    __slots__ = ("pc", "mem")
    def __init__(self, pc=(), mem=None): self.pc = pc; self.mem = mem if mem is not None else {}
    def fork(self): return State(self.pc, dict(self.mem))
    def assume(self, c):
        if z3.is_true(c): return self
        if z3.is_and(c):
            self.pc = self.pc + tuple(c.children())
        else: self.pc = self.pc + (c,)
        return self
    def dead(self): return any(z3.is_false(c) for c in self.pc)

class Obl:
    def __init__(self, name, kind, pc, cond, loc): self.name = name; self.kind = kind; self.pc = pc; self.cond = cond; self.loc = loc

def width(t):
    if isinstance(t, str):
        if t[0] == "i": return int(t[1:])
        if t == "f32": return 32
        if t == "f64": return 64
        if t == "f80": return 80
        if t == "p": return 64
    raise Unsupported("width of %r" % (t,))
def tsize(t):
    if isinstance(t, str):
        if t == "p": return 8
        w = width(t); return 16 if t == "f80" else (w + 7) // 8
    return t["size"]

def to_bv(v, w):
    if z3.is_bool(v): return Ite(v, bv(1, w), bv(0, w))
    return v

def popcount(x):
    n = x.size(); w = n
    # SWAR with widening sums
    def rec(lo, hi):
        if hi - lo == 1: return z3.ZeroExt(7, z3.Extract(lo, lo, x))
        m = (lo + hi) // 2
        return rec(lo, m) + rec(m, hi)
    r = rec(0, n)
    return z3.ZeroExt(n - 8, r) if n > 8 else z3.Extract(n - 1, 0, r)
def cttz(x):
    n = x.size()
    r = bv(n, n)
    for i in reversed(range(n)): r = z3.If(z3.Extract(i, i, x) == 1, bv(i, n), r)
    return r
def ctlz(x):
    n = x.size()
    r = bv(n, n)
    for i in range(n): r = z3.If(z3.Extract(i, i, x) == 1, bv(n - 1 - i, n), r)
    return r
def pdep(src, mask):
    n = src.size(); k = bv(0, n); r = bv(0, n)
    for i in range(n):
        b = z3.Extract(i, i, mask) == 1
        s = z3.Extract(0, 0, z3.LShR(src, k)) == 1
        r = r | Ite(z3.And(b, s), bv(1 << i, n), bv(0, n)); k = k + Ite(b, bv(1, n), bv(0, n))
    return r
def pext(src, mask):
    n = src.size(); k = bv(0, n); r = bv(0, n)
    for i in range(n):
        b = z3.Extract(i, i, mask) == 1
        s = z3.Extract(i, i, src) == 1
        r = r | Ite(z3.And(b, s), bv(1, n) << k, bv(0, n)); k = k + Ite(b, bv(1, n), bv(0, n))
    return r

_uf = {}
def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _uf: _uf[k] = z3.Function(name, *sorts)
    return _uf[k]
def fop(name, w, *args):
    if name in ("fadd", "fmul") and not args[0].eq(args[1]):           # these commute
        f = uf("%s_%d" % (name, w), args[0].sort(), args[1].sort(), z3.BitVecSort(w)); a, b = args
        return z3.If(z3.ULE(a, b), f(a, b), f(b, a))
    f = uf("%s_%d" % (name, w), *([a.sort() for a in args] + [z3.BitVecSort(w)])); return f(*args)

def vars_of(e, cache={}):
    k = e.get_id()
    out = set(); seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        st.extend(x.children())
    return out

class Frame:
    __slots__ = ("fn", "env", "depth", "allocas")
    def __init__(self, fn, depth): self.fn = fn; self.env = {}; self.depth = depth; self.allocas = {}

INSIST = re.compile(r"^(m::_insist\(|m::_abort\(|m::_unreachable\(|__assert_fail|abort|_ZN1m7_insist|std::terminate\(|__ubsan_handle|_exit|exit$|std::__throw|__cxa_pure_virtual|llvm\.ubsantrap|llvm\.trap|__clang_call_terminate)")

class Ctx:
    """What invariant templates see: the loop's carried values and the named ghosts."""
    def __init__(self): self.labels = []; self.entry = {}; self.types = {}; self.ghosts = {}; self.fn = None; self.head = None; self.inv_vals = []; self.state = None; self.ex = None
    def by_type(self, t): return [l for l in self.labels if self.types[l] == t]

EXC_NOOP = re.compile(r"^(m::(\w+::)*(exception|logic_error|invalid_state|invalid_argument|out_of_range|runtime_error|frontend_exception|backend_exception|data_model_exception|duplicate_\w+|invalid_\w+|exceeding_\w+|cast_\w+)::~?\w+\(|std::(exception|runtime_error|logic_error|invalid_argument|out_of_range|domain_error|length_error|bad_\w+)::~?\w+\(|std::allocator<char>::~?allocator\()")
STR_CALL = re.compile(r"^(std::__cxx11::basic_string<char\b|std::basic_string<char\b|std::__cxx11::to_string|std::to_string|std::operator\+|.* std::operator\+)")
class Ambiguous(Exception): pass
class Exec:
    peeking = False
    def __init__(self, mod, opts):
        self.m = mod; self.o = opts
        self.obls = []; self.dry = 0; self.wlog = None; self.convlog = None
        self.globals = {}; self.fnobjs = {}
        self.ghosts = {}; self.covers = []; self.axioms = []
        self.contracts = [(re.compile(k), v) for k, v in opts.get("contracts", [])]
        self.templates = opts.get("templates")
        self.unroll = opts.get("unroll", 70)
        self.unroll_fn = [re.compile(r) for r in opts.get("unroll_fns", [])]
        self.allow_throw = opts.get("allow_throw", False)
        self.in_arrays = {}
        self.thrown = []; self.inflight = []; self.tids = {}
        self.called = {}; self.run_names = set(); self.used_contracts = {}; self.loops_done = {}
        self.solver_time = 0.0; self.nq = 0
        self.on_load = opts.get("on_load")
        self.loop_timeout = opts.get("loop_timeout", 20000); self.exact = opts.get("exact_index", False); self.small = {}
        self.houd = {}
        self.depth_limit = opts.get("depth", 60)
        self.deadline = opts.get("deadline")
        self.heap_n = itertools.count()
        self.inlined = set()
        self.cur_proof = ""
        self.variants = []
        self.seeds = {}; self.roles = {}

    # ---------------------------------------------------------------- solver
    def check(self, asserts, timeout=None):
        if self.deadline and time.time() > self.deadline: raise Unsupported("proof deadline exceeded")
        s = z3.Solver() if not self.o.get("tactic") else z3.Tactic(self.o["tactic"]).solver()
        s.set("timeout", int(timeout or self.loop_timeout))
        t = time.time()
        s.add(*self.axioms); s.add(*asserts)
        r = s.check(); self.solver_time += time.time() - t; self.nq += 1
        return r, (s.model() if r == z3.sat else None)

    # ---------------------------------------------------------------- obligations
    def oblige(self, state, cond, name, kind, ins=None):
        if self.dry: return
        if not z3.is_bool(cond): cond = cond != 0
        loc = ""
        if ins is not None and "line" in ins: loc = "%s:%d" % (ins.get("file", "?").split("/repo/")[-1], ins["line"])
        self.obls.append(Obl(name, kind, state.pc, cond, loc))

    # ---------------------------------------------------------------- memory
    def new_obj(self, state, name, size, ty=None, init="undef", const=False, kind="obj"):
        o = Obj("%s#%d" % (name, next(_fresh)), size, ty, const, kind)
        state.mem[o] = OState(init=init)
        return o

    def base(self, obj):
        if obj == NULL: return bv(0)
        if obj.base is None:
            obj.base = z3.BitVec("base_%s" % obj.name, 64)
            b = obj.base
            al = 16
            sz = bv(1 << 46) if obj.size is None else obj.size if not isinstance(obj.size, int) else bv(obj.size)
            self.axioms.append(z3.And(b & bv(al - 1) == 0, z3.UGT(b, bv(0xfff)), z3.ULT(b, bv(1 << 47)), z3.ULE(sz, bv(1 << 46)), z3.ULE(b, b + sz)))
        return obj.base

    def p2i(self, p):
        if not isinstance(p, Ptr): return p
        r = None
        for g, o, off in reversed(p.alts):
            if o == "raw": v = off
            else: v = self.base(o) + off if o != NULL else off
            r = v if r is None else Ite(g, v, r)
        return simp(r)

    def i2p(self, v, state):
        if isinstance(v, Ptr): return v
        v = simp(v)
        c = cv(v)
        if c is not None: return Ptr([(T, NULL, v)])
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c0, a, b = v.children(); pa = self.i2p(a, state); pb = self.i2p(b, state)
            return self.merge_ptr([(c0, pa), (T, pb)])
        vs = vars_of(v)
        cand = [o for o in state.mem if isinstance(o, Obj) and o.base is not None and o.base.decl().name() in vs]
        for o in cand:
            off = simp(v - o.base)
            if o.base.decl().name() not in vars_of(off): return Ptr.mk(o, off)
        return Ptr([(T, "raw", v)])

    def padd(self, p, off):
        if isinstance(off, int):
            if off == 0: return p
            off = bv(off)
        out = []
        for g, o, f in p.alts:
            out.append((g, o, simp(f + off)))
        return Ptr(out)

    def merge_ptr(self, gvs):
        """gvs: list of (guard, Ptr); last guard may be T meaning 'otherwise'"""
        rest = T; alts = []
        for g, p in gvs:
            for g2, o, f in p.alts:
                c = Andl([rest, g, g2])
                c = simp(c)
                if z3.is_false(c): continue
                for i, (gg, oo, ff) in enumerate(alts):
                    if oo is o or (isinstance(oo, (str, int)) and oo == o):
                        alts[i] = (z3.simplify(z3.Or(gg, c)), oo, ff if ff.eq(f) else z3.If(c, f, ff)); break
                else: alts.append((c, o, f))
            rest = Andl([rest, z3.Not(g)])
        if not alts: return Ptr([(T, NULL, bv(0))])
        if len(alts) == 1: alts = [(T, alts[0][1], alts[0][2])]
        if len(alts) > 64: raise Unsupported("pointer with %d targets" % len(alts))
        return Ptr(alts)

    def merge_vals(self, gvs):
        """gvs: list of (guard, value) with the guards exhaustive; the last is the default"""
        v0 = gvs[-1][1]
        if all(v is v0 for _, v in gvs): return v0
        if any(v is None for _, v in gvs):
            vs = [(g, v) for g, v in gvs if v is not None]
            if not vs: return None
            return self.merge_vals(vs)
        if isinstance(v0, tuple):
            return tuple(self.merge_vals([(g, v[i]) for g, v in gvs]) for i in range(len(v0)))
        if any(isinstance(v, Ptr) for _, v in gvs):
            return self.merge_ptr([(g, v if isinstance(v, Ptr) else Ptr([(T, NULL if cv(v) is not None else "raw", v)])) for g, v in gvs[:-1]] + [(T, gvs[-1][1] if isinstance(gvs[-1][1], Ptr) else Ptr([(T, NULL if cv(gvs[-1][1]) is not None else "raw", gvs[-1][1])]))])
        r = v0
        for g, v in reversed(gvs[:-1]):
            if v.sort() != r.sort(): raise Unsupported("merge of different sorts %s %s" % (v.sort(), r.sort()))
            r = Ite(g, v, r)
        return r

    def merge_states(self, states):
        """returns (state, guards) with one guard per input state"""
        if len(states) == 1: return states[0].fork(), [T]
        pcs = [s.pc for s in states]
        k = 0
        mn = min(len(p) for p in pcs)
        while k < mn and all(p[k].eq(pcs[0][k]) for p in pcs): k += 1
        guards = [Andl(list(p[k:])) for p in pcs]
        out = State(pcs[0][:k]); o = simp(Orl(guards)) if len(guards) <= 8 else Orl(guards)
        if not z3.is_true(o): out.pc = out.pc + (o,)
        objs = {}
        for s in states:
            for ob in s.mem: objs[ob] = 1
        for ob in objs:
            if ob.kind == "global" and any(ob not in s.mem for s in states):          # untouched there: as it is initially
                states = [s if ob in s.mem else s.fork() for s in states]
                for s in states: self.glob(s, ob.name)
            oss = [(g, s.mem[ob]) for g, s in zip(guards, states) if ob in s.mem]
            if all(x is oss[0][1] for _, x in oss): out.mem[ob] = oss[0][1]; continue
            out.mem[ob] = self.merge_os(ob, oss)
        return out, guards

    def merge_os(self, ob, oss):
        # unify regions
        keys = {}
        for _, x in oss:
            for r in x.regs: keys[(r.start, r.es, r.n)] = 1
        if keys:
            n = []
            for g, x in oss:
                have = {(r.start, r.es, r.n) for r in x.regs}
                if any(k not in have for k in keys):
                    x = x.copy()
                    for k in keys:
                        if k not in have: self.make_region(ob, x, *k)
                n.append((g, x))
            oss = n
        res = OState(init=oss[0][1].init)
        for k in keys:
            vals = []
            for g, x in oss:
                r = next(r for r in x.regs if (r.start, r.es, r.n) == k); vals.append((g, r.arr))
            res.regs.append(Region(k[0], k[1], k[2], self.merge_vals(vals)))
        offs = {}
        for _, x in oss:
            for off, c in x.cells.items(): offs.setdefault(off, set()).add(c[0])
        layouts = [frozenset((o, c[0]) for o, c in x.cells.items()) for _, x in oss]
        for off in sorted(offs):
            szs = offs[off]
            if len(szs) > 1 or any(off not in x.cells for _, x in oss):
                # different cell shapes: split to a common shape where possible
                sz = min(szs)
                allc = []
                ok = True
                for g, x in oss:
                    c = x.cells.get(off)
                    if c is not None and c[0] == sz: allc.append((g, c[1])); continue
                    v = self.read_cells(ob, x, off, sz, None)
                    if v is None: v = z3.BitVec("init_%s_%d_%d" % (ob.name, off, sz), 8 * sz)      # never written there: arbitrary
                    allc.append((g, v))
                vs = allc
                try: res.cells[off] = (sz, self.norm_merge(vs, sz))
                except Unsupported: raise
                # remaining bytes of larger cells
                mx = max(szs)
                if mx > sz:
                    p = off + sz
                    while p < off + mx:
                        if p in offs: break
                        vs = [(g, self.read_cells(ob, x, p, 1, None)) for g, x in oss]
                        vs = [(g, v if v is not None else z3.BitVec("init_%s_%d_1" % (ob.name, p), 8)) for g, v in vs]
                        if vs: res.cells[p] = (1, self.norm_merge(vs, 1))
                        p += 1
            else:
                res.cells[off] = (next(iter(szs)), self.norm_merge([(g, x.cells[off][1]) for g, x in oss], next(iter(szs))))
        return res

    def norm_merge(self, gvs, sz):
        if any(isinstance(v, Ptr) for _, v in gvs):
            gvs = [(g, v if isinstance(v, Ptr) else Ptr([(T, NULL if cv(v) is not None else "raw", v)])) for g, v in gvs]
        return self.merge_vals(gvs)

    def read_cells(self, ob, os, off, size, ty):
        """value of `size` bytes at constant offset `off` from cells only; None if never written"""
        c = os.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        parts = []; p = off; found = False
        while p < off + size:
            hit = None
            for co, (cs, v) in os.cells.items():
                if co <= p < co + cs: hit = (co, cs, v); break
            if hit is None:
                parts.append(bv(0, 8) if os.init == "zero" else self.undef_byte(ob, os, p)); p += 1; continue
            found = True
            co, cs, v = hit
            e = min(co + cs, off + size)
            if isinstance(v, Ptr): v = self.p2i(v)
            lo = (p - co) * 8; hi = (e - co) * 8 - 1
            parts.append(z3.Extract(hi, lo, v)); p = e
        if not found and os.init != "zero": return None
        r = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
        return simp(r)

    def undef_byte(self, ob, os, p):
        if os.init == "sym":
            return z3.BitVec("init_%s_%d" % (ob.name, p), 8)
        return fbv(8, "undef")

    def find_region(self, os, off, size):
        for r in os.regs:
            if r.n is None: 
                if off >= r.start: return r
            elif r.start <= off < r.start + r.es * r.n: return r
        return None

    def make_region(self, ob, os, start, es, n):
        arr = z3.Const(fresh_name("mem_" + ob.name), z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8 * es)))
        if os.init == "zero": arr = z3.K(z3.BitVecSort(64), bv(0, 8 * es))
        end = None if n is None else start + es * n
        inside = [(o, c) for o, c in os.cells.items() if o + c[0] > start and (end is None or o < end)]
        if inside:
            lo = min(o for o, _ in inside); hi = max(o + c[0] for o, c in inside)
            k = (lo - start) // es
            while start + k * es < hi:
                v = self.read_cells(ob, os, start + k * es, es, None)
                if v is not None:
                    if isinstance(v, Ptr): raise Unsupported("symbolic index into array of pointers %s" % ob.name)
                    arr = z3.Store(arr, bv(k), v)
                k += 1
            for o, c in inside: del os.cells[o]
        r = Region(start, es, n, arr); os.regs.append(r)
        if self.convlog is not None: self.convlog.add((ob, start, es, n))
        return r

    def type_array_at(self, t, off, size):
        """innermost array of scalar elements with element size == size that covers off in type t -> (start, es, n)"""
        if not isinstance(t, dict): return None
        if "s" in t:
            for e, o in zip(t["s"], t["offs"]):
                es = tsize(e)
                if o <= off < o + es:
                    r = self.type_array_at(e, off - o, size)
                    if r: return (r[0] + o, r[1], r[2])
                    return None
            return None
        if "a" in t:
            e = t["a"]; es = tsize(e); n = t["n"]
            if off >= 0:
                return (0, size, (es * n) // size) if (es * n) % size == 0 else None
        return None

    def linear(self, off):
        """split an offset into (const, remainder)"""
        off = simp(off)
        c = cv(off)
        if c is not None: return c, None
        if z3.is_app_of(off, z3.Z3_OP_BADD):
            ch = off.children()
            if is_num(ch[0]):
                rest = ch[1] if len(ch) == 2 else z3.Sum(ch[1:]) if False else self._bvsum(ch[1:])
                v = ch[0].as_signed_long()
                return v, rest
        return 0, off
    def _bvsum(self, l):
        r = l[0]
        for x in l[1:]: r = r + x
        return r

    def divisible(self, e, k):
        """syntactic check that bit-vector e is a multiple of power-of-two k; returns e/k or None"""
        if k == 1: return e
        sh = k.bit_length() - 1
        if (1 << sh) != k: 
            return self.div_any(e, k)
        low = simp(z3.Extract(sh - 1, 0, e))
        if cv(low) == 0: return simp(z3.LShR(e, sh))
        return None
    def index(self, st, e, k):
        """e/k, in its plainest form"""
        q = self.divisible(e, k); x = self.div_any(e, k) if q is not None else None
        if x is None or x.eq(q): return q
        known = self.small.setdefault(x.get_id(), (x, []))[1]
        for pc, ok in known:
            if len(st.pc) >= len(pc) and all(a is b or a.eq(b) for a, b in zip(pc, st.pc)):
                if ok: return x
                if len(pc) == len(st.pc): return q
        ok = self.check([a for a in st.pc if not heavy(a)] + [z3.UGE(x, 1 << 50)], 2000)[0] == z3.unsat
        known.append((st.pc, ok))
        return x if ok else q
    def div_any(self, e, k):
        c = cv(e)
        if c is not None: return bv(c // k) if c % k == 0 else None
        if z3.is_app_of(e, z3.Z3_OP_BMUL):
            ch = e.children()
            if is_num(ch[0]) and ch[0].as_signed_long() % k == 0:
                q = ch[0].as_signed_long() // k; r = self._bvprod(ch[1:])
                return simp(bv(q) * r)
        if z3.is_app_of(e, z3.Z3_OP_BADD):
            ps = [self.div_any(x, k) for x in e.children()]
            if all(p is not None for p in ps): return simp(self._bvsum(ps))
        return None
    def _bvprod(self, l):
        r = l[0]
        for x in l[1:]: r = r * x
        return r

    def locate(self, ob, os, off, size, state):
        """-> ('cell', c) | ('region', region, idx, sub)"""
        c, rem = self.linear(off)
        if rem is None:
            if c >= 1 << 63: c -= 1 << 64
            r = self.find_region(os, c, size)
            if r is None: return ("cell", c)
            k, sub = divmod(c - r.start, r.es)
            return ("region", r, bv(k), sub)
        if ob.size is not None and isinstance(ob.size, int) and c >= 1 << 63: c -= 1 << 64
        # symbolic offset
        cand = None
        for r in os.regs:
            if r.n is None or r.start <= c < r.start + r.es * r.n or len(os.regs) == 1:
                q = self.index(state, rem, r.es) if self.exact else self.divisible(rem, r.es)
                if q is not None:
                    k, sub = divmod(c - r.start, r.es)
                    return ("region", r, simp(q + bv(k)), sub)
                cand = r
        if cand is not None and cand.es % size == 0:
            # symbolic position inside an element: general (shift) access
            q = simp(z3.LShR(off - bv(cand.start), cand.es.bit_length() - 1)) if cand.es & (cand.es - 1) == 0 else None
            if q is not None:
                return ("regionshift", cand, q, simp((off - bv(cand.start)) & bv(cand.es - 1)))
        if cand is not None: raise Unsupported("access of %d bytes at symbolic offset %s of %s (region es=%d)" % (size, off, ob.name, cand.es))
        es = ob.gran or size
        ta = self.type_array_at(ob.ty, c, es) if ob.ty else None
        if ta is None:
            if ob.gran and ob.kind == "heap": ta = (0, es, ob.size // es if isinstance(ob.size, int) else None)
            elif isinstance(ob.size, int): ta = (c % es, es, (ob.size - c % es) // es)
            else: ta = (0 if c % es == 0 else c % es, es, None)
        r = self.make_region(ob, os, *ta)
        if self.wlog is not None: self.wlog.add((ob, "conv", ta))
        q = self.index(state, rem, es) if self.exact else self.divisible(rem, es)
        if q is None: raise Unsupported("unaligned symbolic offset %s in %s" % (off, ob.name))
        k, sub = divmod(c - r.start, es)
        return ("region", r, simp(q + bv(k)), sub)

    def bounds(self, state, ob, off, size, ins, guard=T):
        if ob.size is None or self.o.get("nobounds"): return
        c = cv(off)
        if isinstance(ob.size, int):
            if c is not None:
                if 0 <= c and c + size <= ob.size: return
                cond = F
            else: cond = z3.ULE(off, bv(ob.size - size)) if ob.size >= size else F
        else:
            cond = z3.And(z3.ULE(off + bv(size), ob.size), z3.ULE(off, off + bv(size)))
        if not z3.is_true(guard): cond = z3.Implies(guard, cond)
        self.oblige(state, cond, "in-bounds access of %s (%d bytes)" % (ob.name.split("#")[0], size), "memory", ins)

    def own(self, state, ob):
        os = state.mem[ob].copy(); state.mem[ob] = os; return os

    def load1(self, state, ob, off, size, ty, ins, guard=T):
        h = self.o.get("load_hook")
        if h:
            v = h(self, state, ob, off, size, ty, ins, guard)
            if v is not None: return v
        if ob == NULL or ob == "raw":
            self.oblige(state, z3.Not(guard), "valid pointer dereferenced", "memory", ins)
            return self.fresh_of(ty)
        if ob not in state.mem: raise Unsupported("dead object " + ob.name)
        self.bounds(state, ob, off, size, ins, guard)
        os = state.mem[ob]
        c = cv(off)
        if c is None and ty == "p" and not os.regs and isinstance(ob.size, int) and ob.size <= 64:       # a few pointers: every case
            at = [o for o in range(0, ob.size - 7, 8) if os.cells.get(o, (0,))[0] == 8]
            if any(isinstance(os.cells[o][1], Ptr) for o in at):
                self.oblige(state, z3.Implies(guard, Orl([off == o for o in at])), "pointer read is initialised", "memory", ins)
                return self.merge_ptr([(off == o, self.coerce(os.cells[o][1], "p", state)) for o in at[:-1]] + [(T, self.coerce(os.cells[at[-1]][1], "p", state))])
        if not (c is not None and c in os.cells and os.cells[c][0] == size and not os.regs):
            os = self.own(state, ob)
        loc = self.locate(ob, os, off, size, state)
        if loc[0] == "cell":
            v = self.read_cells(ob, os, loc[1], size, ty)
            if v is None:
                v = fbv(8 * size, "undef_" + ob.name)
                if os.init == "sym": v = z3.BitVec("init_%s_%d_%d" % (ob.name, loc[1], size), 8 * size)
                if size == 8 and ty == "p" and ob.ptrelem: v = ob.ptrelem(self, state, loc[1])
                os = self.own(state, ob); self.write_cell(os, loc[1], size, v)
            return v
        if loc[0] == "regionshift":
            _, r, q, sub = loc
            w = z3.Select(r.arr, q)
            return simp(z3.Extract(8 * size - 1, 0, z3.LShR(w, (z3.ZeroExt(8 * r.es - 64, sub) if r.es > 8 else z3.Extract(8 * r.es - 1, 0, sub)) * 8)))
        _, r, idx, sub = loc
        if sub + size <= r.es:
            w = z3.Select(r.arr, idx); w = simp(w) if cv(idx) is not None else w
            if self.on_load: 
                for f in self.on_load(self, ob, r, idx, w) or []: state.assume(f)
            if sub == 0 and size == r.es: return w
            return z3.Extract((sub + size) * 8 - 1, sub * 8, w)
        if sub != 0 or size % r.es: raise Unsupported("load of %d bytes at sub-offset %d across %d-byte elements" % (size, sub, r.es))
        return z3.Concat(*[z3.Select(r.arr, simp(idx + bv(i))) for i in reversed(range(size // r.es))])

    def fresh_of(self, ty):
        if isinstance(ty, dict):
            if "s" in ty: return tuple(self.fresh_of(t) for t in ty["s"])
            if "a" in ty: return tuple(self.fresh_of(ty["a"]) for _ in range(ty["n"]))
            if "v" in ty: return tuple(self.fresh_of(ty["v"]) for _ in range(ty["n"]))
            raise Unsupported("fresh of %r" % ty)
        if ty == "i1": return fbool()
        if ty == "void": return None
        if ty == "p": return Ptr([(T, "raw", fbv(64, "ptr"))])
        return fbv(width(ty))

    def load(self, state, p, size, ty, ins):
        if isinstance(ty, dict):
            if "s" in ty: return tuple(self.load(state, self.padd(p, o), tsize(e), e, ins) for e, o in zip(ty["s"], ty["offs"]))
            if "a" in ty or "v" in ty:
                e = ty.get("a") or ty["v"]; es = tsize(e); return tuple(self.load(state, self.padd(p, i * es), es, e, ins) for i in range(ty["n"]))
            raise Unsupported("load %r" % ty)
        vals = []
        for g, o, off in p.alts:
            vals.append((g, self.coerce(self.load1(state, o, off, size, ty, ins, g), ty, state)))
        # drop undefined alternatives of invalid targets
        good = [(g, v) for (g, v), (g2, o, f) in zip(vals, p.alts) if o != NULL and o != "raw"]
        return self.merge_vals(good or vals)

    def coerce(self, v, ty, state):
        if ty == "p": return v if isinstance(v, Ptr) else self.i2p(v, state)
        if isinstance(v, Ptr): v = self.p2i(v)
        if ty == "i1":
            return v if z3.is_bool(v) else (z3.Extract(0, 0, v) == 1)
        w = width(ty)
        if z3.is_bool(v): return Ite(v, bv(1, w), bv(0, w))
        if v.size() > w: return z3.Extract(w - 1, 0, v)
        if v.size() < w: return z3.ZeroExt(w - v.size(), v)
        return v

    def write_cell(self, os, off, size, v):
        c = os.cells.get(off)
        if c is not None and c[0] == size: os.cells[off] = (size, v); return
        over = [(o, s, x) for o, (s, x) in os.cells.items() if o < off + size and off < o + s]
        for o, s, x in over:
            del os.cells[o]
            if isinstance(x, Ptr): x = self.p2i(x)
            if o < off: os.cells[o] = (off - o, simp(z3.Extract((off - o) * 8 - 1, 0, x)))
            if o + s > off + size:
                k = off + size - o; os.cells[off + size] = (o + s - off - size, simp(z3.Extract(s * 8 - 1, k * 8, x)))
        os.cells[off] = (size, v)

    def log(self, ob, *what):
        if self.wlog is not None: self.wlog.add((ob,) + what)

    def store1(self, state, ob, off, size, v, ins, guard=T):
        if ob == NULL or ob == "raw":
            self.oblige(state, z3.Not(guard), "valid pointer dereferenced", "memory", ins); return
        if ob not in state.mem: raise Unsupported("dead object " + ob.name)
        self.bounds(state, ob, off, size, ins, guard)
        if ob.const: self.oblige(state, z3.Not(guard), "frame: %s is not modified" % ob.name.split("#")[0], "frame", ins)
        h = self.o.get("store_hook")
        if h and h(self, state, ob, off, size, v, ins, guard): return
        os = self.own(state, ob)
        loc = self.locate(ob, os, off, size, state)
        if loc[0] == "cell":
            self.log(ob, "cell", loc[1], size)
            if not z3.is_true(guard):
                old = self.read_cells(ob, os, loc[1], size, None)
                if old is not None: v = self.norm_merge([(guard, v), (T, old)], size)
            self.write_cell(os, loc[1], size, v); return
        if isinstance(v, Ptr): v = self.p2i(v)
        if z3.is_bool(v): v = to_bv(v, 8)
        if loc[0] == "regionshift":
            _, r, q, sub = loc
            self.log(ob, "region", r.start, r.es, r.n)
            W = 8 * r.es
            s = (z3.ZeroExt(W - 64, sub) if W > 64 else z3.Extract(W - 1, 0, sub)) * 8
            old = z3.Select(r.arr, q)
            mask = bv((1 << (8 * size)) - 1, W) << s
            v2 = (old & ~mask) | (z3.ZeroExt(W - 8 * size, v) << s)
            r.arr = z3.Store(r.arr, q, v2 if z3.is_true(guard) else z3.If(guard, v2, old)); return
        _, r, idx, sub = loc
        self.log(ob, "region", r.start, r.es, r.n)
        if sub + size <= r.es:
            old = z3.Select(r.arr, idx)
            if not (sub == 0 and size == r.es):
                parts = []
                if sub + size < r.es: parts.append(z3.Extract(8 * r.es - 1, 8 * (sub + size), old))
                parts.append(v)
                if sub > 0: parts.append(z3.Extract(8 * sub - 1, 0, old))
                v = z3.Concat(*parts)
            if not z3.is_true(guard): v = z3.If(guard, v, old)
            r.arr = z3.Store(r.arr, idx, v); return
        if sub != 0 or size % r.es: raise Unsupported("store of %d bytes at sub-offset %d across %d-byte elements" % (size, sub, r.es))
        a = r.arr
        for i in range(size // r.es):
            x = z3.Extract((i + 1) * 8 * r.es - 1, i * 8 * r.es, v); k = simp(idx + bv(i))
            if not z3.is_true(guard): x = z3.If(guard, x, z3.Select(a, k))
            a = z3.Store(a, k, x)
        r.arr = a

    def store(self, state, p, size, v, ty, ins):
        if isinstance(v, tuple):
            if "s" in ty:
                for x, e, o in zip(v, ty["s"], ty["offs"]): self.store(state, self.padd(p, o), tsize(e), x, e, ins)
                return
            e = ty.get("a") or ty["v"]; es = tsize(e)
            for i, x in enumerate(v): self.store(state, self.padd(p, i * es), es, x, e, ins)
            return
        if v is None: v = self.fresh_of(ty)
        if z3.is_bool(v) if not isinstance(v, Ptr) else False: v = to_bv(v, 8)
        if not isinstance(v, Ptr) and v.size() % 8: v = z3.ZeroExt(8 - v.size() % 8, v)
        single = len(p.alts) == 1
        for g, o, off in p.alts: self.store1(state, o, off, size, v, ins, T if single else g)

    def memcpy(self, state, dst, src, n, ins):
        n = simp(n); c = cv(n)
        if c == 0: return
        if len(dst.alts) != 1 or len(src.alts) != 1:
            if c is not None and c <= 64:
                for i in range(c): self.store(state, self.padd(dst, i), 1, self.load(state, self.padd(src, i), 1, "i8", ins), "i8", ins)
                return
            raise Unsupported("memcpy with ambiguous pointer")
        _, so, soff = src.alts[0]; _, do, doff = dst.alts[0]
        if so in (NULL, "raw") or do in (NULL, "raw"):
            self.oblige(state, n == 0, "valid pointer in memcpy", "memory", ins); return
        h = self.o.get("memcpy")
        if h:
            r = h(self, state, do, doff, so, soff, n, ins)
            if r: return
        if c is None: raise Unsupported("memcpy of symbolic size")
        sc, dc = cv(simp(soff)), cv(simp(doff))
        if sc is None or dc is None:
            # element-wise in the widest unit
            u = 8 if c % 8 == 0 else 4 if c % 4 == 0 else 2 if c % 2 == 0 else 1
            if c // u > 64: raise Unsupported("memcpy of %d bytes at symbolic offset" % c)
            vals = [self.load(state, self.padd(src, i), u, "i%d" % (8 * u), ins) for i in range(0, c, u)]
            for i, v in enumerate(vals): self.store(state, self.padd(dst, i * u), u, v, "i%d" % (8 * u), ins)
            return
        self.bounds(state, so, bv(sc), c, ins); self.bounds(state, do, bv(dc), c, ins)
        if so not in state.mem or do not in state.mem: raise Unsupported("memcpy of dead object")
        sos = state.mem[so]; dos = self.own(state, do)
        self.log(do, "range", dc, c)
        # regions of source wholly or partly inside
        delta = dc - sc
        for r in list(sos.regs):
            rs, re_ = r.start, (r.start + r.es * r.n if r.n is not None else sc + c)
            a, b = max(rs, sc), min(re_, sc + c)
            if a >= b: continue
            if rs >= sc and re_ <= sc + c:
                keep = []
                for d in dos.regs:
                    ds, de = d.start, d.start + d.es * d.n if d.n is not None else None
                    if d.start == rs + delta and d.es == r.es and d.n == r.n: continue
                    if de is not None and (de <= rs + delta or ds >= re_ + delta): keep.append(d); continue
                    raise Unsupported("memcpy between different array shapes")
                dos.regs = keep
                for o, (s, _) in list(dos.cells.items()):
                    if o < re_ + delta and o + s > rs + delta: del dos.cells[o]
                dos.regs.append(Region(rs + delta, r.es, r.n, r.arr))
                self.log(do, "region", rs + delta, r.es, r.n)
            else:
                for x in range(a, b, r.es):
                    if x + r.es > b: raise Unsupported("memcpy splits element")
                    v = simp(z3.Select(r.arr, bv((x - rs) // r.es)))
                    self.poke(do, dos, x + delta, r.es, v)
        for o, (s, v) in list(sos.cells.items()):
            a, b = max(o, sc), min(o + s, sc + c)
            if a >= b: continue
            if (a, b) != (o, o + s):
                if isinstance(v, Ptr): v = self.p2i(v)
                v = simp(z3.Extract((b - o) * 8 - 1, (a - o) * 8, v))
            self.poke(do, dos, a + delta, b - a, v)
        # bytes never written in the source stay unspecified: forget the destination's
        covered = [(o, o + s) for o, (s, _) in sos.cells.items()] + [(r.start, r.start + r.es * (r.n or 1 << 40)) for r in sos.regs]
        for o, (s, v) in list(dos.cells.items()):
            if o >= dc and o + s <= dc + c and not any(a <= o - delta and o - delta + s <= b for a, b in covered):
                if sos.init == "undef": del dos.cells[o]
                elif sos.init == "zero": dos.cells[o] = (s, bv(0, 8 * s))
        if sos.init == "zero":
            for i in range(dc, dc + c):
                if not any(o <= i < o + s for o, (s, _) in dos.cells.items()) and self.find_region(dos, i, 1) is None: dos.cells[i] = (1, bv(0, 8))

    def poke(self, do, dos, off, size, v):
        r = self.find_region(dos, off, size)
        if r is None: self.write_cell(dos, off, size, v); return
        if isinstance(v, Ptr): v = self.p2i(v)
        if size % r.es == 0 and (off - r.start) % r.es == 0:
            for i in range(size // r.es):
                r.arr = z3.Store(r.arr, bv((off - r.start) // r.es + i), simp(z3.Extract((i + 1) * 8 * r.es - 1, i * 8 * r.es, v)))
            self.log(do, "region", r.start, r.es, r.n)
        else: raise Unsupported("poke into region")

    def memset(self, state, dst, val, n, ins):
        c = cv(simp(n))
        if c == 0: return
        h = self.o.get("memset")
        if h and h(self, state, dst, val, n, ins): return
        if c is None: raise Unsupported("memset of symbolic size")
        if len(dst.alts) != 1: raise Unsupported("memset ambiguous")
        _, do, doff = dst.alts[0]
        if do in (NULL, "raw"): self.oblige(state, F, "valid pointer in memset", "memory", ins); return
        self.bounds(state, do, doff, c, ins)
        dos = self.own(state, do); dc = cv(simp(doff))
        if dc is None or any(True for r in dos.regs if r.start < (dc or 0) + c and (r.n is None or r.start + r.es * r.n > (dc or 0))):
            u = 8 if c % 8 == 0 else 4 if c % 4 == 0 else 1
            v = z3.Concat(*([val] * u)) if u > 1 else val
            v = simp(v)
            if dc is not None:
                for r in dos.regs:
                    if r.start == dc and r.n is not None and r.n * r.es == c:
                        r.arr = z3.K(z3.BitVecSort(64), simp(z3.Concat(*([val] * r.es))) if r.es > 1 else val); self.log(do, "region", r.start, r.es, r.n); return
            for i in range(0, c, u): self.store(state, self.padd(dst, i), u, v, "i%d" % (8 * u), ins)
            return
        self.log(do, "range", dc, c)
        if cv(val) == 0 and dc == 0 and isinstance(do.size, int) and c == do.size:
            state.mem[do] = OState(init="zero"); return
        i = 0
        while i < c:
            u = 8 if c - i >= 8 and (dc + i) % 8 == 0 else 4 if c - i >= 4 and (dc + i) % 4 == 0 else 1
            self.write_cell(dos, dc + i, u, simp(z3.Concat(*([val] * u))) if u > 1 else val); i += u

    # ---------------------------------------------------------------- globals
    def fnobj(self, name):
        if name not in self.fnobjs:
            o = Obj("fn:" + name, 1); o.fn = name; self.fnobjs[name] = o
        return self.fnobjs[name]

    def glob(self, state, name):
        o = self.globals.get(name)
        if o is None:
            g = self.m.globals.get(name, {"size": None, "const": False, "t": None})
            o = Obj(name, g["size"] or None, g.get("t"), False, "global"); self.globals[name] = o
        if o not in state.mem:
            g = self.m.globals.get(name, {})
            os = OState(init="undef")
            if "init" in g:
                if g["init"]["k"] == "zero": os.init = "zero"
                else: self.init_cells(os, 0, g["init"], g["t"], state)
            state.mem[o] = os
        return o

    def init_cells(self, os, off, c, t, state):
        k = c["k"]
        if k == "agg":
            if "s" in t:
                for x, e, o in zip(c["a"], t["s"], t["offs"]): self.init_cells(os, off + o, x, e, state)
            else:
                e = t.get("a") or t["v"]; es = tsize(e)
                for i, x in enumerate(c["a"]): self.init_cells(os, off + i * es, x, e, state)
        elif k == "zero":
            sz = tsize(t); i = 0
            while i < sz:
                u = 8 if sz - i >= 8 else 4 if sz - i >= 4 else 1
                os.cells[off + i] = (u, bv(0, 8 * u)); i += u
        elif k in ("undef", "poison"): pass
        else:
            v = self.val(None, c, state)
            if z3.is_bool(v) if not isinstance(v, Ptr) else False: v = to_bv(v, 8)
            os.cells[off] = (tsize(t), v)

    # ---------------------------------------------------------------- operands
    def val(self, fr, o, state, ty=None):
        k = o["k"]
        if k == "r": return fr.env[o["n"]]
        if k == "c":
            if o["t"] == "i1": return T if o["v"] == "1" else F
            return bv(int(o["v"]), width(o["t"]))
        if k == "null": return Ptr([(T, NULL, bv(0))])
        if k == "fp": return bv(int(o["v"]), width(o["t"]))
        if k in ("undef", "poison"): return self.fresh_of(o["t"])
        if k == "zero": return self.zero_of(o["t"])
        if k == "fn": return Ptr.mk(self.fnobj(o["n"]), 0)
        if k == "g": return Ptr.mk(self.glob(state, o["n"]), o["o"])
        if k == "gep": return self.padd(self.val(fr, o["b"], state), bv(o["o"]))
        if k == "p2i": return self.p2i(self.val(fr, o["b"], state))
        if k == "i2p": return self.i2p(self.val(fr, o["b"], state), state)
        if k == "agg": return tuple(self.val(fr, x, state) for x in o["a"])
        if k == "ba":
            return Ptr([(T, self.baobj(o), bv(0))])
        if k == "md" or k == "asm": return None
        if k == "ce":
            a = [self.val(fr, x, state) for x in o["a"]]
            a = [self.p2i(x) if isinstance(x, Ptr) else x for x in a]
            if o["op"] == "sub": return simp(a[0] - a[1])
            if o["op"] == "add": return simp(a[0] + a[1])
        raise Unsupported("operand %r" % o)

    def baobj(self, o):
        k = ("ba", o["f"], o["b"])
        if k not in self.fnobjs:
            ob = Obj("ba:%s:%d" % (o["f"], o["b"]), 1); ob.fn = k; self.fnobjs[k] = ob
        return self.fnobjs[k]

    def zero_of(self, ty):
        if isinstance(ty, dict):
            if "s" in ty: return tuple(self.zero_of(t) for t in ty["s"])
            e = ty.get("a") or ty["v"]; return tuple(self.zero_of(e) for _ in range(ty["n"]))
        if ty == "i1": return F
        if ty == "p": return Ptr([(T, NULL, bv(0))])
        return bv(0, width(ty))

    # ---------------------------------------------------------------- control
    def run(self, name, args, state, depth=0):
        fn = self.m.fn(name)
        if fn is None or fn.decl: raise Unsupported("call to function without body or contract: %s" % (fn.dem if fn else name))
        if depth > self.depth_limit: raise Unsupported("call depth")
        if fn.irreducible: raise Unsupported("irreducible control flow in " + fn.dem)
        self.run_names.add(fn.name); self.called[fn.dem] = self.called.get(fn.dem, 0) + 1
        fr = Frame(fn, depth)
        for i, a in enumerate(args): fr.env[i] = a
        rets = []
        exits = self.exec_range(fr, None, 0, [(state, {})], None, rets)
        if not rets: return None, None
        st, gs = self.merge_states([s for s, _ in rets])
        v = None
        if fn.rt != "void": v = self.merge_vals(list(zip(gs, [v for _, v in rets])))
        for ob in fr.allocas.values(): st.mem.pop(ob, None)
        return st, v

    def exec_range(self, fr, body, entry, incoming, cur, rets):
        """Run the blocks of `body` (None: whole function) from `entry`.  cur is the loop being executed (its header is
        `entry`), None for the function.  Returns edges that leave body or return to the header."""
        fn = fr.fn
        pend = {entry: incoming}; exits = []; skip = set()
        children = {l.header: l for l in (cur.children if cur else fn.toploops)}
        def route(p, t, st, ph):
            if (body is not None and t not in body) or (cur is not None and t == cur.header): exits.append((p, t, st, ph))
            else: pend.setdefault(t, []).append((st, ph))
        for b in fn.rpo:
            if b in skip or b not in pend or (body is not None and b not in body): continue
            inc = pend.pop(b)
            if b in children and not (cur is not None and b == cur.header):
                L = children[b]
                for (p, t, st, ph) in self.handle_loop(fr, L, inc, rets): route(p, t, st, ph)
                skip |= L.body
                continue
            inc = [(s, ph) for s, ph in inc if not s.dead()]
            if not inc: continue
            st, gs = self.merge_states([s for s, _ in inc])
            if inc[0][1]:
                for k in inc[0][1]: fr.env[k] = self.merge_vals([(g, ph[k]) for g, (_, ph) in zip(gs, inc)])
            for (t, s2, *extra) in self.exec_block(fr, b, st, rets):
                if s2.dead(): continue
                ph = self.edge_phis(fr, b, t, s2)
                if extra: ph.update(extra[0])
                route(b, t, s2, ph)
        return exits

    # ---------------------------------------------------------------- exceptions
    def ti_bases(self, ti):
        """names of the type infos ti derives from, itself included"""
        out = []; todo = [ti]
        def names(o):
            if isinstance(o, dict):
                if o.get("k") in ("g",) and o["n"].startswith("_ZTI"): out2.append(o["n"])
                for x in o.values():
                    if isinstance(x, (dict, list)): names(x)
            elif isinstance(o, list):
                for x in o: names(x)
        while todo:
            t = todo.pop()
            if t in out or t is None: continue
            out.append(t); g = self.m.globals.get(t); out2 = []
            if g and g.get("init"): names(g["init"]); todo += out2
        return out
    def tid(self, ti):
        if ti not in self.tids: self.tids[ti] = len(self.tids) + 2
        return self.tids[ti]
    def select(self, lp, ti):
        """selector value of landing pad lp for an exception of type ti; None: not entered"""
        bases = self.ti_bases(ti)
        for c in lp.get("a", []):
            if c.get("k") == "null": return 1
            if c.get("k") == "g" and c["n"] in bases: return self.tid(c["n"])
        return 0 if lp.get("cleanup") else None
    def throw(self, st, p, ti):
        self.thrown.append((st, p, ti)); return None

    def edge_phis(self, fr, p, t, st):
        ph = {}
        for ins in fr.fn.blocks[t].ins:
            if ins["op"] != "phi": break
            for pb, o in ins["in"]:
                if pb == p: ph[ins["id"]] = self.val(fr, o, st); break
        return ph

    def exec_block(self, fr, b, st, rets):
        for ins in fr.fn.blocks[b].ins:
            op = ins["op"]; self.cur = fr, ins
            if op == "phi": continue
            if op == "br":
                if "c" not in ins: return [(ins["succ"][0], st)]
                c = simp(self.val(fr, ins["c"], st))
                t, f = ins["succ"]
                if z3.is_true(c): return [(t, st)]
                if z3.is_false(c): return [(f, st)]
                if t == f: return [(t, st)]
                s2 = st.fork(); st.assume(c); s2.assume(simp(z3.Not(c)))
                return [(t, st), (f, s2)]
            if op == "switch":
                c = simp(self.val(fr, ins["c"], st)); w = width(ins["ot"])
                c = to_bv(c, w)
                k = cv(c)
                if k is not None:
                    for v, t in ins["cases"]:
                        if int(v) == k: return [(t, st)]
                    return [(ins["def"], st)]
                tg = {}
                allc = []
                for v, t in ins["cases"]:
                    e = c == bv(int(v), w); tg.setdefault(t, []).append(e); allc.append(e)
                d = Andl([z3.Not(e) for e in allc])
                tg.setdefault(ins["def"], []).append(d)
                out = []
                for t, cs in tg.items():
                    s2 = st.fork(); s2.assume(Orl(cs)); out.append((t, s2))
                return out
            if op == "indirectbr":
                h = self.o.get("indirectbr")
                if not h: raise Unsupported("indirectbr")
                return h(self, fr, ins, self.val(fr, ins["c"], st), st)
            if op == "ret":
                v = None
                if ins["a"]: v = self.val(fr, ins["a"][0], st)
                rets.append((st, v)); return []
            if op == "unreachable":
                self.oblige(st, F, "unreachable code is not reached", "unreachable", ins); return []
            if op in ("call", "invoke"):
                outer, self.thrown = self.thrown, []
                try: r = self.exec_call(fr, ins, st)
                finally: mine, self.thrown = self.thrown, outer
                out = []
                mine = [x for x in mine if not x[0].dead()]
                if op == "invoke" and mine:
                    lp = next(i for i in fr.fn.blocks[ins["unwind"]].ins if i["op"] == "landingpad")
                    land = []
                    for s2, p, ti in mine:
                        sel = self.select(lp, ti)
                        if sel is None: self.thrown.append((s2, p, ti))
                        else: land.append((s2, p, ti, sel))
                    if land:
                        s2, gs = self.merge_states([x[0] for x in land])
                        self.inflight = [x[2] for x in land]
                        out.append((ins["unwind"], s2, {lp["id"]: (self.merge_vals([(g, x[1]) for g, x in zip(gs, land)]), self.merge_vals([(g, bv(x[3], 32)) for g, x in zip(gs, land)]))}))
                else: self.thrown += mine
                if r is None: return out
                st, v = r
                fr.env[ins["id"]] = v
                if op == "invoke": return out + [(ins["normal"], st)]
                if st.dead(): return []
                continue
            if op == "resume":
                v = self.val(fr, ins["a"][0], st)
                sel = simp(v[1]) if v is not None else None
                # the landing pad ran as a clean-up only: the exception in flight continues, with its type
                for ti in (set(self.inflight) or {None}): self.thrown.append((st.fork(), v[0] if v is not None else Ptr.mk(NULL), ti))
                return []
            if op == "landingpad":
                if ins["id"] not in fr.env: raise Unsupported("landing pad")
                continue
            self.exec_ins(fr, ins, st)
        raise Unsupported("block without terminator")

    def exec_ins(self, fr, ins, st):
        op = ins["op"]; ty = ins["t"]
        if op == "getelementptr":
            if "b" not in ins: raise Unsupported("vector gep")
            p = self.val(fr, ins["b"], st)
            off = bv(ins["o"] & ((1 << 64) - 1))
            for sc, o, t in ins["v"]:
                x = self.val(fr, o, st); w = width(t)
                x = to_bv(x, w)
                if isinstance(x, Ptr): x = self.p2i(x)
                if w < 64: x = z3.SignExt(64 - w, x)
                off = off + x * bv(sc & ((1 << 64) - 1))
            fr.env[ins["id"]] = self.padd(p, simp(off)); return
        if op == "alloca":
            a = self.val(fr, ins["a"][0], st)
            n = cv(simp(a))
            if n is None: size = simp(a * bv(ins["size"]))
            else: size = n * ins["size"]
            o = self.new_obj(st, ins.get("name") or "alloca", size, ins["ety"] if n == 1 else None)
            fr.allocas[(ins["id"], o.name)] = o
            fr.env[ins["id"]] = Ptr.mk(o, 0); return
        a = [self.val(fr, x, st) for x in ins["a"]] if "a" in ins else []
        fr.env[ins["id"]] = self.alu(op, ins, a, st, fr)

    def alu(self, op, ins, a, st, fr):
        ty = ins["t"]
        if op == "load": return self.load(st, a[0], ins["size"], ty, ins)
        if op == "store": self.store(st, a[1], ins["size"], a[0], ins["at"][0], ins); return None
        if isinstance(ty, dict) and "v" in ty and op not in ("extractvalue", "insertvalue", "insertelement", "shufflevector", "select", "freeze"):
            n = ty["n"]
            out = []
            for i in range(n):
                sub = dict(ins); sub["t"] = ty["v"]; sub["at"] = [(t["v"] if isinstance(t, dict) and "v" in t else t) for t in ins.get("at", [])]
                if "ot" in ins: sub["ot"] = ins["ot"]["v"] if isinstance(ins["ot"], dict) else ins["ot"]
                out.append(self.alu(op, sub, [x[i] if isinstance(x, tuple) else x for x in a], st, fr))
            return tuple(out)
        if op == "select":
            c = a[0]
            if isinstance(c, tuple): return tuple(self.merge_vals([(simp(ci), x), (T, y)]) for ci, x, y in zip(c, a[1], a[2]))
            c = simp(c)
            if z3.is_true(c): return a[1]
            if z3.is_false(c): return a[2]
            return self.merge_vals([(c, a[1]), (T, a[2])])
        if op == "freeze": return a[0]
        if op == "icmp": return self.icmp(ins["pred"], a[0], a[1], st)
        if op == "fcmp":
            p = ins["pred"]; w = a[0].size()
            if p in ("true", "false"): return T if p == "true" else F
            # canonical direction, so that a<b and b>a agree
            flip = {"ogt": "olt", "oge": "ole", "ugt": "ult", "uge": "ule"}
            x, y = a
            if p in flip: p = flip[p]; x, y = y, x
            neg = {"ult": "oge", "ule": "ogt"}
            if p == "ult": return z3.Not(uf("f_ole_%d" % w, x.sort(), x.sort(), z3.BoolSort())(y, x))
            if p == "ule": return z3.Not(uf("f_olt_%d" % w, x.sort(), x.sort(), z3.BoolSort())(y, x))
            if p == "une": return z3.Not(self.feq(x, y, w))
            if p == "oeq": return self.feq(x, y, w)
            if p == "olt": return uf("f_olt_%d" % w, x.sort(), x.sort(), z3.BoolSort())(x, y)
            if p == "ole": return uf("f_ole_%d" % w, x.sort(), x.sort(), z3.BoolSort())(x, y)
            return uf("f_%s_%d" % (p, w), x.sort(), x.sort(), z3.BoolSort())(x, y)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            x = a[0]
            if op == "ptrtoint":
                v = self.p2i(x); w = width(ty)
                return v if w == 64 else simp(z3.Extract(w - 1, 0, v))
            if op == "inttoptr":
                if z3.is_bv(x) and x.size() < 64: x = z3.ZeroExt(64 - x.size(), x)
                return self.i2p(x, st)
            if op == "bitcast":
                if isinstance(ty, dict) or isinstance(x, tuple): return self.vec_bitcast(x, ins["at"][0], ty)
                return x
            w = width(ty)
            if op == "zext": return to_bv(x, w) if z3.is_bool(x) else z3.ZeroExt(w - x.size(), x)
            if op == "sext": return Ite(x, bv((1 << w) - 1, w), bv(0, w)) if z3.is_bool(x) else z3.SignExt(w - x.size(), x)
            if ty == "i1": return z3.Extract(0, 0, x) == 1
            return simp(z3.Extract(w - 1, 0, x))
        if op == "extractvalue":
            x = a[0]
            for i in ins["idx"]: x = x[i]
            return x
        if op == "insertvalue":
            def put(t, idx, v):
                if not idx: return v
                l = list(t); l[idx[0]] = put(l[idx[0]], idx[1:], v); return tuple(l)
            return put(a[0], ins["idx"], a[1])
        if op == "extractelement":
            i = cv(simp(a[1]))
            if i is None: raise Unsupported("extractelement")
            return a[0][i]
        if op == "insertelement":
            i = cv(simp(a[2])); l = list(a[0]); l[i] = a[1]; return tuple(l)
        if op == "shufflevector":
            l = list(a[0]) + list(a[1]); return tuple(l[i] if i >= 0 else a[0][0] for i in ins["mask"])
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"): 
            return fop(op, a[0].size(), a[0], a[1])
        if op == "fneg": return a[0] ^ bv(1 << (a[0].size() - 1), a[0].size())
        if op in ("fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
            x = a[0]
            if z3.is_bool(x): x = to_bv(x, 8)
            w = width(ty)
            return uf("%s_%d_%d" % (op, x.size(), w), x.sort(), z3.BitVecSort(w))(x)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            return self.binop(op, a[0], a[1], ins, st)
        if op in ("fence",): return None
        if op == "atomicrmw":
            p, v = a; t = ins["at"][1]; old = self.load(st, p, tsize(t), t, ins)
            k = ins["rmw"]
            new = {"add": lambda: old + v, "sub": lambda: old - v, "xchg": lambda: v, "or": lambda: old | v, "and": lambda: old & v, "xor": lambda: old ^ v}[k]()
            self.store(st, p, tsize(t), new, t, ins); return old
        raise Unsupported("instruction " + op)

    def vec_bitcast(self, x, fromt, ty):
        parts = list(x) if isinstance(x, tuple) else [x]
        parts = [to_bv(p, 1) if z3.is_bool(p) else p for p in parts]
        whole = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
        if isinstance(ty, dict):
            ew = width(ty["v"]); return tuple(simp(z3.Extract((i + 1) * ew - 1, i * ew, whole)) for i in range(ty["n"]))
        return simp(whole)

    def feq(self, x, y, w):
        return uf("f_oeq_%d" % w, x.sort(), y.sort(), z3.BoolSort())(*sorted((x, y), key=lambda e: e.hash()))

    def binop(self, op, x, y, ins, st):
        if isinstance(x, Ptr): x = self.p2i(x)
        if isinstance(y, Ptr): y = self.p2i(y)
        if z3.is_bool(x):
            if op == "and": r = z3.And(x, y)
            elif op == "or": r = z3.Or(x, y)
            elif op in ("xor", "add", "sub"): r = z3.Xor(x, y)
            elif op == "mul": r = z3.And(x, y)
            else: raise Unsupported("i1 " + op)
            return simp(r)
        const = is_num(x) and is_num(y)
        if op in ("udiv", "sdiv", "urem", "srem") and not (is_num(y) and cv(y) != 0):
            self.oblige(st, y != 0, "no division by zero", "ub", ins)
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "udiv": lambda: z3.UDiv(x, y), "sdiv": lambda: x / y,
             "urem": lambda: z3.URem(x, y), "srem": lambda: z3.SRem(x, y), "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
             "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y}[op]()
        return simp(r)

    def icmp(self, pred, x, y, st):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if not isinstance(x, Ptr): x = self.i2p(x, st)
            if not isinstance(y, Ptr): y = self.i2p(y, st)
            if pred in ("eq", "ne"):
                parts = []
                for g1, o1, f1 in x.alts:
                    for g2, o2, f2 in y.alts:
                        if o1 == o2: e = f1 == f2 if not f1.eq(f2) else T
                        elif o1 == "raw" or o2 == "raw":
                            e = (f1 if o1 == "raw" else self.base(o1) + f1) == (f2 if o2 == "raw" else self.base(o2) + f2)
                        else: e = F
                        parts.append(Andl([g1, g2, e]))
                r = simp(Orl(parts))
                return r if pred == "eq" else simp(z3.Not(r))
            if len(x.alts) == 1 and len(y.alts) == 1 and x.alts[0][1] == y.alts[0][1]: x, y = x.alts[0][2], y.alts[0][2]
            else: x, y = self.p2i(x), self.p2i(y)
        if z3.is_bool(x):
            if pred == "eq": return simp(x == y)
            if pred == "ne": return simp(z3.Xor(x, y))
            x, y = to_bv(x, 1), to_bv(y, 1)
        r = {"eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "ult": lambda: z3.ULT(x, y),
             "ule": lambda: z3.ULE(x, y), "sgt": lambda: x > y, "sge": lambda: x >= y, "slt": lambda: x < y, "sle": lambda: x <= y}[pred]()
        return simp(r)

    # ---------------------------------------------------------------- calls
    def dyncast(self, st, p, dst, ins):
        """the dynamic type of an object is that of its virtual table (single inheritance), or as the model of a pool says"""
        h = self.o.get("dyncast"); alts = []
        for g, o, off in p.alts:
            if o == NULL: alts.append((g, Ptr.mk(NULL))); continue
            c = h(self, st, o, off, dst) if h else None
            if c is None:
                if not isinstance(o, Obj): raise Unsupported("dynamic_cast of an unknown object")
                v = self.load(st, Ptr.mk(o, off), 8, "p", ins); cs = []
                for g2, vo, _ in v.alts:
                    if not (isinstance(vo, Obj) and vo.name.startswith("_ZTV")): raise Unsupported("dynamic_cast without virtual table")
                    ti = "_ZTI" + vo.name[4:]
                    if dst in self.ti_bases(ti): cs.append(g2)
                c = Orl(cs)
            c = simp(c)
            alts.append((Andl([g, c]), Ptr.mk(o, off))); 
            if not z3.is_true(c): alts.append((Andl([g, z3.Not(c)]), Ptr.mk(NULL)))
        return self.merge_ptr(alts)
    def cbytes(self, p):
        (_, o, off), = p.alts; g = self.m.globals[o.name]; i = g["init"]; k = cv(simp(off))
        if not g.get("const", True): raise ValueError
        if i.get("k") == "zero": return b""
        l = [int(x["v"]) & 255 for x in i["a"][k:]]
        return bytes(l[:l.index(0)])
    def opaque_string(self, st, dem, args, ins):
        """std::string operations on diagnostics: an opaque result, nothing but the string object itself is written"""
        base = dem.split("(")[0]
        if "~basic_string" in base: return st, None
        p = args[0]
        if isinstance(p, Ptr) and len(p.alts) == 1 and isinstance(p.alts[0][1], Obj): self.havoc_mem(st, p, 32, 8)
        return st, (None if ins["t"] == "void" else (p if ins["t"] == "p" else self.fresh_of(ins["t"])))
    def cstr(self, p, st):
        try:
            _, o, off = p.alts[0]; g = self.m.globals[o.name]; i = g["init"]; k = cv(off) or 0
            return bytes(int(x["v"]) for x in i["a"][k:] if int(x["v"])).decode("latin1")
        except Exception: return "?"

    def exec_call(self, fr, ins, st):
        c = ins["callee"]
        args = [self.val(fr, x, st) for x in ins["a"]]
        if c["k"] != "fn":
            if c["k"] == "asm": return st, self.fresh_of(ins["t"])
            p = self.val(fr, c, st)
            targets = [(g, o) for g, o, f in p.alts]
            outs = []
            for g, o in targets:
                if o in (NULL, "raw") or o.fn is None:
                    self.oblige(st, z3.Not(g), "call through a valid function pointer", "memory", ins); continue
                s2 = st.fork(); s2.assume(g)
                if s2.dead(): continue
                r = self.call_fn(fr, ins, o.fn, args, s2)
                if r is not None: outs.append(r)
            if not outs: return None
            s, gs = self.merge_states([x for x, _ in outs])
            v = None if ins["t"] == "void" else self.merge_vals(list(zip(gs, [v for _, v in outs])))
            return s, v
        return self.call_fn(fr, ins, c["n"], args, st)

    def call_fn(self, fr, ins, name, args, st):
        if "byval" in ins:
            for i, size in ins["byval"]:
                o = self.new_obj(st, "byval", size); fr.allocas[("bv", o.name)] = o
                self.memcpy(st, Ptr.mk(o), args[i], bv(size), ins); args[i] = Ptr.mk(o)
        if name.startswith("llvm."): return self.intrinsic(fr, ins, name, args, st)
        dem = self.m.dem(name)
        if name.startswith("__v_"): return self.vintr(fr, ins, name, args, st)
        for rx, h in self.contracts:
            if rx.search(dem):
                self.used_contracts[dem] = self.used_contracts.get(dem, 0) + 1
                if isinstance(h, str):
                    cand = [n for n in self.m.names() if n == h or self.m.dem(n).split("(")[0] == h]
                    if not cand: raise Unsupported("contract stub %s not found" % h)
                    if fr.fn.name == cand[0]: break
                    s, v = self.run(cand[0], args, st, fr.depth + 1)
                    return None if s is None else (s, v)
                r = h(self, fr, ins, args, st)
                if r == "noret": return None
                if r == "inline": break
                return r
        b = self.builtin(fr, ins, name, dem, args, st)
        if b is not False: return b
        f = self.m.fn(name)
        if f is not None and not f.decl:
            s, v = self.run(name, args, st, fr.depth + 1)
            return None if s is None else (s, v)
        if ins.get("noreturn") or (f and f.noreturn):
            self.oblige(st, F, "no abnormal termination (%s)" % dem, "abort", ins); return None
        raise Unsupported("call to external function without contract: " + dem)

    def builtin(self, fr, ins, name, dem, args, st):
        if name == "__cxa_throw":
            ti = args[1].alts[0][1] if isinstance(args[1], Ptr) else None
            return self.throw(st, args[0], ti.name if isinstance(ti, Obj) else None)
        if name == "__cxa_rethrow" or "__throw_" in dem: return self.throw(st, Ptr.mk(NULL), None)
        if EXC_NOOP.search(dem): return st, None
        if name == "__dynamic_cast": return st, self.dyncast(st, args[0], args[2].alts[0][1].name, ins)
        if name == "__cxa_get_exception_ptr": return st, args[0]
        if name == "__cxa_begin_catch": return st, args[0]
        if name == "strlen":
            try: return st, bv(len(self.cbytes(args[0])))
            except Exception: pass
        if STR_CALL.search(dem): return self.opaque_string(st, dem, args, ins)
        if name == "__cxa_allocate_exception":
            o = self.new_obj(st, "exc", None); return st, Ptr.mk(o)
        if name in ("__cxa_free_exception", "__cxa_end_catch"): return st, None
        if INSIST.search(dem):
            msg = dem.split("(")[0]
            if "_insist" in dem and len(args) >= 4 and not isinstance(args[0], Ptr):
                c = simp(args[0] if z3.is_bool(args[0]) else args[0] != 0)
                self.oblige(st, c, "M_insist(%s)" % self.cstr(args[3], st), "insist", ins)
                st.assume(c)
                return None if st.dead() else (st, None)
            self.oblige(st, F, msg, "insist", ins); return None
        if "* m::_notnull<" in dem:
            p = args[0] if isinstance(args[0], Ptr) else self.i2p(args[0], st)
            c = simp(self.p2i(p) != 0); self.oblige(st, c, "pointer is not null", "insist", ins); st.assume(c); return (st, p) if not st.dead() else None
        if re.match(r"operator new(\[\])?\(unsigned long", dem) or name in ("malloc",):
            n = simp(args[0]); c = cv(n)
            o = self.new_obj(st, "heap%d" % next(self.heap_n), c if c is not None else n)
            o.kind = "heap"
            return st, Ptr.mk(o)
        if name == "aligned_alloc":
            n = simp(args[1]); o = self.new_obj(st, "heap", n); o.kind = "heap"; return st, Ptr.mk(o)
        if dem.startswith("operator delete") or name == "free": return st, None
        if name in ("__cxa_guard_acquire",): return st, bv(0, 32)
        if name in ("__cxa_guard_release", "__cxa_atexit"): return st, bv(0, 32)
        if name in ("memcmp", "bcmp"):
            n = cv(simp(args[2]))
            if n is not None and n <= 64:
                r = bv(0, 32)
                for i in reversed(range(n)):
                    x = self.load(st, self.padd(args[0], i), 1, "i8", ins); y = self.load(st, self.padd(args[1], i), 1, "i8", ins)
                    r = Ite(x == y, r, Ite(z3.ULT(x, y), bv(0xffffffff, 32), bv(1, 32)))
                return st, r
        return False

    def intrinsic(self, fr, ins, name, a, st):
        n = name[5:]
        if n.startswith(("lifetime", "dbg", "assume", "experimental.noalias", "invariant", "donothing", "prefetch", "stackrestore", "va_", "sideeffect")): return st, None
        if n.startswith("stacksave"): return st, Ptr.mk(NULL)
        if n.startswith("expect"): return st, a[0]
        if n.startswith("eh.typeid.for"):
            o = a[0].alts[0][1]
            return st, bv(self.tid(o.name) if isinstance(o, Obj) else 1, 32)
        if n.startswith("is.constant"): return st, F
        if n.startswith("objectsize"): return st, bv((1 << 64) - 1)
        if n.startswith(("launder", "strip", "ptr.annotation", "ssa.copy")): return st, a[0]
        if n.startswith(("memcpy", "memmove")): self.memcpy(st, a[0], a[1], a[2], ins); return st, None
        if n.startswith("memset"): self.memset(st, a[0], a[1], a[2], ins); return st, None
        if n.startswith(("trap", "ubsantrap")):
            k = cv(a[0]) if a else None
            self.oblige(st, F, "no undefined behaviour (sanitizer check %s)" % k, "ub", ins); return None
        ty = ins["t"]
        if n.startswith("ctpop"): return st, simp(popcount(a[0]))
        if n.startswith("cttz") and self.o.get("lazy_cttz") and a[0].size() == 64 and cv(simp(a[0])) is None:
            x = simp(a[0]); i = z3.Function("cttz64", x.sort(), x.sort())(x)
            st.assume(z3.If(x == 0, i == 64, z3.And(z3.ULT(i, 64), bv(1) << i == x & -x, z3.Extract(0, 0, z3.LShR(x, i)) == 1))); return st, i
        if n.startswith("cttz"): return st, simp(cttz(a[0]))
        if n.startswith("ctlz"): return st, simp(ctlz(a[0]))
        if n.startswith("bswap"):
            w = a[0].size(); return st, z3.Concat(*[z3.Extract(i + 7, i, a[0]) for i in range(0, w, 8)])
        if n.startswith("umin"): return st, z3.If(z3.ULT(a[0], a[1]), a[0], a[1])
        if n.startswith("umax"): return st, z3.If(z3.UGT(a[0], a[1]), a[0], a[1])
        if n.startswith("smin"): return st, z3.If(a[0] < a[1], a[0], a[1])
        if n.startswith("smax"): return st, z3.If(a[0] > a[1], a[0], a[1])
        if n.startswith("abs"): return st, z3.If(a[0] < 0, -a[0], a[0])
        if n.startswith("uadd.sat"):
            s = a[0] + a[1]; return st, z3.If(z3.ULT(s, a[0]), bv((1 << s.size()) - 1, s.size()), s)
        if n.startswith("usub.sat"): return st, z3.If(z3.ULT(a[0], a[1]), bv(0, a[0].size()), a[0] - a[1])
        if n.startswith(("fshl", "fshr")):
            w = a[0].size(); s = z3.URem(a[2], bv(w, w)); c = z3.Concat(a[0], a[1]); s2 = z3.ZeroExt(w, s)
            if n.startswith("fshl"): return st, simp(z3.Extract(2 * w - 1, w, c << s2))
            return st, simp(z3.Extract(w - 1, 0, z3.LShR(c, s2)))
        m = re.match(r"([us])(add|sub|mul)\.with\.overflow", n)
        if m:
            w = a[0].size(); sg, o = m.groups(); x, y = a
            if o == "mul":
                ext = (lambda v: z3.SignExt(w, v)) if sg == "s" else (lambda v: z3.ZeroExt(w, v))
                full = ext(x) * ext(y); r = x * y
                ov = full != ext(r)
                if sg == "u": ov = z3.Not(z3.BVMulNoOverflow(x, y, False))
                else: ov = z3.Or(z3.Not(z3.BVMulNoOverflow(x, y, True)), z3.Not(z3.BVMulNoUnderflow(x, y)))
            elif o == "add":
                r = x + y
                ov = z3.ULT(r, x) if sg == "u" else z3.And((x < 0) == (y < 0), (r < 0) != (x < 0))
            else:
                r = x - y
                ov = z3.ULT(x, y) if sg == "u" else z3.And((x < 0) != (y < 0), (r < 0) != (x < 0))
            return st, (simp(r), simp(ov))
        if n.startswith("x86.bmi.pdep"): return st, simp(pdep(a[0], a[1]))
        if n.startswith("x86.bmi.pext"): return st, simp(pext(a[0], a[1]))
        if n.startswith("fabs"): return st, a[0] & bv((1 << (a[0].size() - 1)) - 1, a[0].size())
        if n.startswith("fmuladd") or n.startswith("fma"):
            return st, fop("fadd", a[0].size(), fop("fmul", a[0].size(), a[0], a[1]), a[2])
        if n.startswith(("floor", "ceil", "sqrt", "rint", "round", "pow", "log", "exp", "trunc")) and all(z3.is_bv(x) for x in a):
            return st, fop("fn_" + n.split(".")[0], width(ty), *a)
        if n.startswith("vector.reduce."):
            op = n.split(".")[2]; r = a[-1][0]
            for x in a[-1][1:]:
                r = {"add": lambda: r + x, "or": lambda: r | x if not z3.is_bool(r) else z3.Or(r, x), "and": lambda: r & x if not z3.is_bool(r) else z3.And(r, x), "xor": lambda: r ^ x, "mul": lambda: r * x,
                     "umax": lambda: z3.If(z3.UGT(r, x), r, x), "umin": lambda: z3.If(z3.ULT(r, x), r, x)}[op]()
            return st, r
        if n.startswith("threadlocal.address"): return st, a[0]
        raise Unsupported("intrinsic " + name)

    # specification primitives used by the harnesses
    def vintr(self, fr, ins, name, a, st):
        if name == "__v_assume": st.assume(simp(a[0])); return (st, None) if not st.dead() else None
        if name == "__v_assert":
            self.oblige(st, simp(a[0]), self.cstr(a[1], st), "post", ins)
            if self.o.get("assert_assume", True): st.assume(simp(a[0]))
            return (st, None) if not st.dead() else None
        if name == "__v_require":
            self.oblige(st, simp(a[0]), self.cstr(a[1], st), "pre", ins); st.assume(simp(a[0])); return (st, None) if not st.dead() else None
        if name == "__v_cover":
            if not self.dry: self.covers.append((self.cstr(a[0], st), st.pc))
            return st, None
        if name == "__v_name":
            self.ghosts[self.cstr(a[1], st)] = a[0]; return st, None
        if name == "__v_role":
            self.roles[self.cstr(a[1], st)] = a[0].alts[0][1]; return st, None
        if name == "__v_nondet_ptr": return st, Ptr([(T, "raw", fbv(64, "ptr"))])
        if name.startswith("__v_nondet_bool"): return st, fbool("nd")
        if name.startswith("__v_nondet"):
            return st, fbv(width(ins["t"]), "nd")
        if name.startswith("__v_input") and name != "__v_input_array":      # named nondeterministic input: reported in counterexamples
            nm = self.cstr(a[0], st)
            if ins["t"] == "i1": return st, z3.Bool("in_" + nm)
            return st, z3.BitVec("in_" + nm, width(ins["t"]))
        if name == "__v_input_array":         # (ptr, count, element size, name): arbitrary named contents
            (_, o, off), = a[0].alts; c = cv(simp(off)); n = cv(simp(a[1])); es = cv(simp(a[2])); nm = self.cstr(a[3], st)
            self.havoc_mem(st, a[0], n * es, es)
            arr = z3.Const("arr_" + nm, z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8 * es)))
            os = self.own(st, o)
            if n > 1: next(r for r in os.regs if r.start == c).arr = arr
            else: os.cells[c] = (es, z3.Select(arr, bv(0)))
            self.in_arrays[nm] = (arr, n)
            return st, None
        if name == "__v_heap":                # __v_heap(nbytes): fresh object of that size, arbitrary contents
            n = simp(a[0]); c = cv(n)
            o = self.new_obj(st, "vheap%d" % next(self.heap_n), c if c is not None else n); o.kind = "heap"
            if len(a) > 1 and cv(a[1]): o.gran = cv(a[1])
            return st, Ptr.mk(o)
        if name == "__v_size":
            (_, o, off), = a[0].alts
            return st, bv(o.size) if isinstance(o.size, int) else o.size
        if name == "__v_havoc":               # __v_havoc(ptr, nbytes, granularity)
            self.havoc_mem(st, a[0], cv(simp(a[1])), cv(simp(a[2])) if len(a) > 2 else 8); return st, None
        if name.startswith("__v_uf_"):        # uninterpreted specification function
            xs = [to_bv(x, 8) if z3.is_bool(x) else (self.p2i(x) if isinstance(x, Ptr) else x) for x in a]
            w = 1 if ins["t"] == "i1" else width(ins["t"])
            f = z3.Function(name, *([x.sort() for x in xs] + [z3.BoolSort() if ins["t"] == "i1" else z3.BitVecSort(w)]))
            return st, f(*xs)
        if name == "__v_impl": return st, z3.Implies(a[0], a[1])
        if name.startswith("__v_rowsel"): pass
        h = self.o.get("vintr", {}).get(name)
        if h: return h(self, fr, ins, a, st)
        raise Unsupported("unknown primitive " + name)

    def havoc_mem(self, st, p, n, gran):
        _, o, off = p.alts[0]; c = cv(simp(off))
        os = self.own(st, o); self.log(o, "range", c, n)
        for k, (s, v) in list(os.cells.items()):
            if k < c + n and c < k + s: del os.cells[k]
        os.regs = [r for r in os.regs if r.start + r.es * (r.n or 1 << 40) <= c or r.start >= c + n]
        cnt = n // gran
        if cnt > 1: os.regs.append(Region(c, gran, cnt, z3.Const(fresh_name("havoc_" + o.name), z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8 * gran)))))
        else: os.cells[c] = (n, fbv(8 * n, "havoc"))

    # ---------------------------------------------------------------- loops
    def feasible(self, st, timeout=5000):
        if st.dead(): return False
        r, _ = self.check(list(st.pc), timeout)
        return r != z3.unsat

    def handle_loop(self, fr, L, incoming, rets):
        mode = None
        lm = self.o.get("loop_mode")
        if lm: mode = lm(self, fr, L, incoming)
        if mode is None:
            mode = "inv" if self.templates else "unroll"
            if any(r.search(fr.fn.dem) for r in self.unroll_fn): mode = "unroll"
        if mode == "unroll": return self.loop_unroll(fr, L, incoming, rets)
        if self.o.get("peel", True): 
            incoming, done = self.peel(fr, L, incoming, rets)
            if done is not None: return done
        return self.loop_inv(fr, L, incoming, rets)

    def peel(self, fr, L, incoming, rets):
        """run the iterations whose control flow is determined (a loop over a constant range) one by one"""
        cur = [(s, ph) for s, ph in incoming if not s.dead()]
        if not cur: return cur, []
        if len(cur) > 1:
            st, gs = self.merge_states([s for s, _ in cur]); cur = [(st, {k: self.merge_vals([(g, ph[k]) for g, (_, ph) in zip(gs, cur)]) for k in cur[0][1]})]
        for it in range(self.o.get("peel_max", 300)):
            wl, th, pk, gh, env = self.wlog, list(self.thrown), self.peeking, dict(self.ghosts), dict(fr.env)
            self.peeking = True; self.dry += 1; self.wlog = set() if wl is not None else None; r2 = []
            try: exs = self.exec_range(fr, L.body, L.header, [(s.fork(), dict(ph)) for s, ph in cur], L, r2)
            except Ambiguous: exs = None
            finally: self.dry -= 1; self.peeking = pk; amb_th = len(self.thrown) != len(th); self.wlog, self.thrown, self.ghosts, fr.env = wl, th, gh, env
            if exs is None or r2 or amb_th or len(exs) != 1:
                if self.peeking: raise Ambiguous()
                return cur, None
            exs = self.exec_range(fr, L.body, L.header, cur, L, rets)
            if exs[0][1] != L.header: return cur, exs
            cur = [(exs[0][2], exs[0][3])]
        if self.peeking: raise Ambiguous()
        return cur, None

    def loop_unroll(self, fr, L, incoming, rets):
        cur = [(s.fork(), ph) for s, ph in incoming]; exits = []
        for k in range(self.unroll + 1):
            exs = self.exec_range(fr, L.body, L.header, cur, L, rets)
            backs = [(s, ph) for (p, t, s, ph) in exs if t == L.header]
            exits += [e for e in exs if e[1] != L.header]
            nb = []
            for s, ph in backs:
                if s.dead(): continue
                if self.feasible(s): nb.append((s, ph))
            if not nb: break
            cur = nb
        else:
            for s, ph in cur: self.oblige(s, F, "loop in %s is bounded by %d iterations (unwinding)" % (fr.fn.dem.split("(")[0], self.unroll), "unwind", None)
        # merge exits per (pred,target) edge
        by = {}
        for p, t, s, ph in exits: by.setdefault((p, t), []).append((s, ph))
        out = []
        for (p, t), l in by.items():
            st, gs = self.merge_states([s for s, _ in l])
            ph = {k: self.merge_vals([(g, x[k]) for g, (_, x) in zip(gs, l)]) for k in l[0][1]}
            out.append((p, t, st, ph))
        return out

    def fresh_like(self, v, lbl):
        if isinstance(v, Ptr):
            if len(v.alts) == 1 and isinstance(v.alts[0][1], Obj): return Ptr.mk(v.alts[0][1], fbv(64, lbl + "_off"))
            if len(v.alts) == 1: return Ptr([(T, v.alts[0][1], fbv(64, lbl + "_off"))])
            alts = []; rest = T
            sel = [fbool("psel") for _ in v.alts[:-1]]
            for s, (g, o, f) in zip(sel + [T], v.alts):
                alts.append((Andl([rest, s]), o, fbv(64, lbl + "_off") if o != NULL else f)); rest = Andl([rest, z3.Not(s)])
            return Ptr(alts)
        if isinstance(v, tuple): return tuple(self.fresh_like(x, lbl) for x in v)
        return z3.Const(fresh_name(lbl), v.sort())

    def strided_like(self, v, S):
        return Ptr.mk(v.alts[0][1], simp(v.alts[0][2] + bv(S) * fbv(64, "pidx")))
    def ptr_stride(self, fr, L, k):
        """the greatest number every step of a loop-carried pointer is a multiple of; 0 if that is not evident"""
        import math
        ins = {i["id"]: i for b in L.body for i in fr.fn.blocks[b].ins if "id" in i}
        seen = set()
        def go(o):
            if not isinstance(o, dict): return None
            if o.get("k") == "gep":
                g = go(o["b"]); return None if g is None else math.gcd(g, abs(o["o"]))
            if o.get("k") != "r": return None
            n = o["n"]
            if n == k or n in seen: return 0
            i = ins.get(n)
            if i is None: return None
            if i["op"] == "getelementptr" and "b" in i:
                g = go(i["b"])
                if g is None: return None
                g = math.gcd(g, abs(i["o"]))
                for sc, _, _ in i["v"]: g = math.gcd(g, abs(sc))
                return g
            if i["op"] == "phi":
                seen.add(n); gs = [go(x[1]) for x in i["in"]]
            elif i["op"] == "select": gs = [go(x) for x in i["a"][1:]]
            else: return None
            if any(g is None for g in gs): return None
            return math.gcd(*gs)
        p = ins.get(k)
        if p is None: return 0
        gs = [go(x[1]) for x in p["in"] if x[0] in L.body]
        if not gs or any(g is None for g in gs): return 0
        return math.gcd(*gs)

    def loop_inv(self, fr, L, incoming, rets):
        incoming = [(s, ph) for s, ph in incoming if not s.dead()]
        if not incoming: return []
        est, gs = self.merge_states([s for s, _ in incoming])
        phis = list(incoming[0][1])
        ephi = {k: self.merge_vals([(g, ph[k]) for g, (_, ph) in zip(gs, incoming)]) for k in phis}
        phit = {i["id"]: i["t"] for i in fr.fn.blocks[L.header].ins if i["op"] == "phi"}
        # 1. what the body modifies
        mods = set()
        savew, saved = self.wlog, self.dry
        strided = {}
        for k in phis:
            e = ephi[k]
            if isinstance(e, Ptr) and len(e.alts) == 1 and isinstance(e.alts[0][1], Obj):
                S = self.ptr_stride(fr, L, k)
                if S > 1: strided[k] = S
        fixed = {k for k in phis if isinstance(ephi[k], Ptr) and k not in strided and all(isinstance(o, Obj) for _, o, _ in ephi[k].alts)}     # until shown otherwise
        psym = {k: self.strided_like(ephi[k], strided[k]) if k in strided else ephi[k] if k in fixed else self.fresh_like(ephi[k], "phi") for k in phis}
        for it in range(12):
            self.wlog = set(); self.dry += 1; th = list(self.thrown)
            st = self.havoced(est, mods)
            try: exs = self.exec_range(fr, L.body, L.header, [(st, dict(psym))], L, [])
            finally: self.dry = saved; self.thrown = th
            for w in self.wlog:
                if w[0].kind == "global" and w[0] not in est.mem: self.glob(est, w[0].name)
            new = {w for w in self.wlog if w[0] in est.mem} - mods
            convs = [w for w in new if w[1] == "conv"]
            changed = bool(new)
            # pointer phis whose object varies
            for p, t, s, ph in exs:
                if t != L.header: continue
                for k in phis:
                    if k in fixed:
                        if isinstance(ph[k], Ptr) and len(ph[k].alts) == len(ephi[k].alts) and all(a[0].eq(b[0]) and a[1] is b[1] and simp(a[2]).eq(simp(b[2])) for a, b in zip(ph[k].alts, ephi[k].alts)): continue
                        fixed.discard(k); psym[k] = self.fresh_like(ephi[k], "phi"); changed = True
                    if isinstance(psym[k], Ptr) and isinstance(ph[k], Ptr):
                        have = [o for _, o, _ in psym[k].alts]
                        add = [o for _, o, _ in ph[k].alts if o not in have and (o in (NULL, "raw") or o in est.mem)]
                        if any(not (o in have or o in (NULL, "raw") or o in est.mem) for _, o, _ in ph[k].alts): raise Unsupported("loop-carried pointer to object allocated in the loop")
                        if add:
                            strided.pop(k, None)
                            base = ephi[k].alts + [(F, o, bv(0)) for o in have + add if o not in [x for _, x, _ in ephi[k].alts]]
                            psym[k] = self.fresh_like(Ptr(base), "phi"); changed = True
                    elif isinstance(psym[k], Ptr) != isinstance(ph[k], Ptr): raise Unsupported("phi kind")
            for w in convs:
                os = self.own(est, w[0])
                if not any((r.start, r.es, r.n) == w[2] for r in os.regs): self.make_region(w[0], os, *w[2])
            mods |= new
            if not changed: break
        else: raise Unsupported("modified set does not converge")
        self.wlog = savew
        if savew is not None: savew |= mods
        mods = {w for w in mods if w[1] != "conv"}
        # 2. candidates
        hst = self.havoced(est, mods)
        ctx = Ctx(); ctx.fn = fr.fn.dem; ctx.ghosts = dict(self.ghosts); ctx.ex = self; ctx.header = L.header; ctx.estate = est; ctx.fr = fr
        for k in phis:
            l = ("phi", k); ctx.labels.append(l); ctx.entry[l] = ephi[k]; ctx.types[l] = phit[k]
        def pidx(k, ph):                          # how many strides a pointer has advanced
            if len(ph[k].alts) != 1 or ph[k].alts[0][1] is not ephi[k].alts[0][1]: raise Unsupported("strided pointer")
            q = self.divisible(simp(ph[k].alts[0][2] - ephi[k].alts[0][2]), strided[k])
            if q is None: raise Unsupported("stride of a pointer carried by a loop")
            return q
        for k in strided:
            l = ("pidx", k); ctx.labels.append(l); ctx.entry[l] = bv(0); ctx.types[l] = "i64"
        for (ob, off, size) in self.mod_cells(hst, mods):
            l = ("cell", ob.name.split("#")[0], off, ob); ctx.labels.append(l); ctx.entry[l] = self.peek(est, ob, off, size)
            v = self.peek(hst, ob, off, size)
            ctx.types[l] = "p" if isinstance(v, Ptr) else "i%d" % (8 * size)
        def view(st, ph):
            d = {}
            for k in phis: d[("phi", k)] = ph[k]
            for k in strided: d[("pidx", k)] = pidx(k, ph)
            for l in ctx.labels:
                if l[0] == "cell": d[l] = self.peek(st, l[3], l[2], int(ctx.types[l][1:]) // 8 if ctx.types[l] != "p" else 8)
            for l, x in d.items():
                if isinstance(x, Ptr) and ctx.types[l] != "p": d[l] = self.p2i(x)
            return View(self, st, d)
        ctx.inv_vals = self.invariant_values(fr, L)
        key = (fr.fn.name, L.header, self.callkey(fr))
        cands = list(self.templates(ctx) if self.templates else [])
        prev = self.houd.get(key)
        ev = view(est, ephi)
        defs = list(self.o["facts"](ctx)) if self.o.get("facts") else []      # instances of the definitions of specification functions
        lems = list(self.o["lemmas"](ctx)) if self.o.get("lemmas") else []
        def safe(b, v):
            try:
                r = b(v); return r if r is not None else None
            except KeyError: return None
        def define(st, v):
            for f in defs:
                c = safe(f, v)
                if c is not None: st.assume(c)
            for l in list(lems):                  # consequences of the invariants, each proved and then used
                n, f = l; c = safe(f, v)
                if c is None: continue
                if self.dry:
                    r, _ = self.check(list(st.pc) + [z3.Not(c)], 5000)
                    if r != z3.unsat: lems.remove(l); continue
                else: self.oblige(st, c, "consequence of the loop invariants: " + n, "lemma")
                st.assume(c)
            return st
        cases = [F] if not self.o.get("splits") else self.o["splits"](ctx)          # the step of the loop is proved by cases, on its state before
        pv = view(hst, psym); cases = [c if z3.is_bool(c) and z3.is_false(c) else safe(c, pv) for c in cases]; cases = [c for c in cases if c is not None and not z3.is_false(c)]; cases = cases + [Andl([z3.Not(c) for c in cases])] if cases else []
        # entry filter
        act = [(n, b) for n, b in cands if safe(b, ev) is not None]
        if DEBUG and not self.dry: print("HOUD", fr.fn.dem[:40], L.header, "cands", len(cands), "well-defined", [n for n, _ in act])
        if self.dry and not self.o.get("houdini_in_dry", True): act = []
        self.dry += 1; savew2, self.wlog = self.wlog, (set() if self.wlog is not None else None)
        try:
            if self.wlog is None and act and not (saved and self.nohoud):
                act = self.filter_c(act, est, lambda b: safe(b, ev))
                if DEBUG: print("HOUD entry", [n for n, _ in act])
                rounds = 0
                while True:
                    rounds += 1
                    st = define(self.havoced_same(hst, act, lambda b: safe(b, view(hst, psym))), view(hst, psym))
                    th = list(self.thrown); exs = self.exec_range(fr, L.body, L.header, [(st, dict(psym))], L, []); self.thrown = th
                    backs = [(s, ph) for (p, t, s, ph) in exs if t == L.header and not s.dead()]
                    n0 = len(act)
                    for s, ph in backs:
                        vw = view(s, ph)
                        act = self.filter_c(act, s, lambda b: safe(b, vw), cases)
                        if DEBUG: print("HOUD round", rounds, [n for n, _ in act])
                    if len(act) == n0 or not backs: break
            elif self.wlog is not None: act = []
        finally:
            self.dry = saved; self.wlog = savew2
        # 3. final pass: obligations under the surviving invariants
        st = define(self.havoced_same(hst, act, lambda b: safe(b, view(hst, psym))), view(hst, psym))
        exs = self.exec_range(fr, L.body, L.header, [(st, dict(psym))], L, rets)
        if not self.dry:
            for s, ph in [(s, ph) for (p, t, s, ph) in exs if t == L.header]:
                vw = view(s, ph)
                for n, b in act:
                  for c in cases or [T]: self.oblige(s, safe(b, vw) if z3.is_true(c) else z3.Implies(c, safe(b, vw)), "loop invariant %s is preserved in %s" % (n, fr.fn.dem.split("(")[0]), "inv", fr.fn.blocks[L.header].ins[-1])
            for n, b in act: self.oblige(est, safe(b, ev), "loop invariant %s holds on entry in %s" % (n, fr.fn.dem.split("(")[0]), "inv", fr.fn.blocks[L.header].ins[-1])
            self.loops_done["%s#%d" % (fr.fn.dem.split("(")[0], L.header)] = [n for n, _ in act]
            var = self.o.get("variants")
            if var:
                ms = list(var(ctx)); ok = None
                hv = view(hst, psym)
                for s, ph in [(s, ph) for (p, t, s, ph) in exs if t == L.header]:
                    vw = view(s, ph); good = None
                    for n, b in ms:
                        c = z3.ULT(b(vw), b(hv))
                        r, _ = self.check(list(s.pc) + [z3.Not(c)], 5000)
                        if r == z3.unsat: good = (n, c); break
                    if good: self.oblige(s, good[1], "variant %s decreases in %s" % (good[0], fr.fn.dem.split("(")[0]), "term", fr.fn.blocks[L.header].ins[-1])
                    else: self.oblige(s, F, "some variant decreases (termination) in %s" % fr.fn.dem.split("(")[0], "term", fr.fn.blocks[L.header].ins[-1])
        return [e for e in exs if e[1] != L.header]

    nohoud = False
    def callkey(self, fr): return fr.depth

    def invariant_values(self, fr, L):
        """SSA values defined outside the loop, by type, that the body uses"""
        defd = set()
        for b in L.body:
            for i in fr.fn.blocks[b].ins: defd.add(i["id"])
        out = []; seen = set()
        def visit(o):
            if isinstance(o, dict):
                if o.get("k") == "r" and o["n"] not in defd and o["n"] not in seen and o["n"] in fr.env:
                    seen.add(o["n"]); v = fr.env[o["n"]]
                    if v is not None: out.append(v)
                for k, x in o.items():
                    if isinstance(x, (dict, list)): visit(x)
            elif isinstance(o, list):
                for x in o: visit(x)
        for b in sorted(L.body):
            for i in fr.fn.blocks[b].ins:
                for k in ("a", "in", "c", "b", "v"):
                    if k in i: visit(i[k])
        P = L.parent
        while P is not None:                   # what the enclosing loops carry
            for i in fr.fn.blocks[P.header].ins:
                if i["op"] == "phi" and i["id"] not in seen and fr.env.get(i["id"]) is not None: seen.add(i["id"]); out.append(fr.env[i["id"]])
            P = P.parent
        return out

    def filter_c(self, act, st, ev, cases=()):
        """largest subset (by model-guided dropping) of candidates implied at st"""
        for c in cases:
            s2 = st.fork(); s2.assume(c); act = self.filter_c(act, s2, ev)
        if cases: return act
        pairs = [(n, b, ev(b)) for n, b in act]
        pairs = [p for p in pairs if p[2] is not None]
        trivial = [p for p in pairs if z3.is_true(simp(p[2]))]
        keep = [p for p in pairs if not z3.is_true(simp(p[2]))]
        s = z3.Solver(); s.set("timeout", int(self.loop_timeout / 2)); s.add(*self.axioms); s.add(*st.pc)
        while keep:
            if self.deadline and time.time() > self.deadline: raise Unsupported("proof deadline exceeded")
            s.push(); s.add(z3.Not(Andl([p[2] for p in keep]))); t = time.time()
            r = s.check(); self.solver_time += time.time() - t; self.nq += 1
            if DEBUG and time.time() - t > 2:
                print("HOUD query", r, round(time.time() - t, 1), len(keep), len(st.pc))
                if os.environ.get("HOUDQ"): open("%s/%s_%d_%.1f.smt2" % (os.environ["HOUDQ"], r, os.getpid(), time.time() - t), "w").write("(set-logic ALL)\n" + s.to_smt2())
            if r == z3.unknown:
                t = time.time(); r = portfolio(s, 4 * self.loop_timeout / 1000); self.solver_time += time.time() - t
                if DEBUG: print("HOUD portfolio", r, round(time.time() - t, 1))
                if r != "unsat": s.pop(); keep = self.indiv(s, keep); break
                s.pop(); break
            if r == z3.unsat: s.pop(); break
            if r == z3.sat:
                m = s.model(); s.pop()
                if DEBUG and os.environ.get("HOUDX"):
                    for p in keep:
                        if re.search(os.environ["HOUDX"], p[0]) and z3.is_false(m.eval(p[2], model_completion=True)): print("HOUDX", p[0], z3.simplify(p[2])); print(m)
                n = [p for p in keep if not z3.is_false(m.eval(p[2], model_completion=True))]
                if len(n) == len(keep): keep = self.indiv(s, keep); break
                keep = n; continue
            s.pop(); keep = self.indiv(s, keep); break
        names = {id(p[1]) for p in keep + trivial}
        return [(n, b) for n, b in act if id(b) in names]

    def indiv(self, s, keep):
        out = []; al = list(s.assertions()); la = [a for a in al if not heavy(a)]; l = None
        if len(la) < len(al): l = z3.Solver(); l.set("timeout", int(self.loop_timeout / 4)); l.add(*la)
        for p in keep:
            for q in ([l] if l is not None else []) + [s]:
                if self.deadline and time.time() > self.deadline: raise Unsupported("proof deadline exceeded")
                q.push(); q.add(z3.Not(p[2])); t = time.time(); r = q.check(); q.pop(); self.solver_time += time.time() - t; self.nq += 1
                if r == z3.unsat: out.append(p); break
                if r == z3.sat and q is s: break
            else: r = z3.unknown
            if r == z3.unknown:
                s.push(); s.add(z3.Not(p[2])); t = time.time(); r = portfolio(s, 2 * self.loop_timeout / 1000); s.pop(); self.solver_time += time.time() - t
                if r == "unsat": out.append(p)
            if r not in (z3.unsat, "unsat"):
                if DEBUG: print("HOUD drops", p[0], r, round(time.time() - t, 1))
        return out

    def havoced_same(self, hst, act, ev):
        st = hst.fork()
        for n, b in act:
            c = ev(b)
            if c is not None: st.assume(c)
        return st

    def havoced(self, est, mods):
        st = est.fork()
        for w in sorted(mods, key=lambda w: (w[0].name, w[1])):
            ob = w[0]
            if ob not in st.mem: continue
            os = self.own(st, ob)
            if w[1] == "region":
                for r in os.regs:
                    if (r.start, r.es, r.n) == (w[2], w[3], w[4]): r.arr = z3.Const(fresh_name("hv_" + ob.name), r.arr.sort()); break
                else: 
                    r = self.make_region(ob, os, w[2], w[3], w[4]); r.arr = z3.Const(fresh_name("hv_" + ob.name), r.arr.sort())
            elif w[1] == "cell":
                off, size = w[2], w[3]
                c = os.cells.get(off)
                if c is not None and c[0] == size: os.cells[off] = (size, self.fresh_like(c[1], "hv"))
                else:
                    r = self.find_region(os, off, size)
                    if r is not None: r.arr = z3.Const(fresh_name("hv_" + ob.name), r.arr.sort())
                    else: self.write_cell(os, off, size, fbv(8 * size, "hv"))
            elif w[1] == "range":
                off, n = w[2], w[3]
                for o, (s, v) in list(os.cells.items()):
                    if o < off + n and off < o + s: os.cells[o] = (s, self.fresh_like(v, "hv"))
                for r in os.regs:
                    if r.start < off + n and (r.n is None or r.start + r.es * r.n > off): r.arr = z3.Const(fresh_name("hv_" + ob.name), r.arr.sort())
                if os.init == "zero":
                    for i in range(off, off + n):
                        if not any(o <= i < o + s for o, (s, _) in os.cells.items()) and self.find_region(os, i, 1) is None: os.cells[i] = (1, fbv(8, "hv"))
        return st

    def mod_cells(self, hst, mods):
        out = []; seen = set()
        for w in sorted(mods, key=lambda w: (w[0].name, str(w[1:]))):
            ob = w[0]
            if ob not in hst.mem: continue
            if w[1] == "cell": rng = (w[2], w[3])
            elif w[1] == "range": rng = (w[2], w[3])
            else: continue
            for o, (s, v) in hst.mem[ob].cells.items():
                if rng[0] <= o and o + s <= rng[0] + rng[1] and (ob, o) not in seen:
                    seen.add((ob, o)); out.append((ob, o, s))
        return out

    def peek(self, st, ob, off, size):
        os = st.mem.get(ob)
        if os is None: return None
        r = self.find_region(os, off, size)
        if r is not None:
            if size == r.es: return simp(z3.Select(r.arr, bv((off - r.start) // r.es)))
            return None
        return self.read_cells(ob, os, off, size, None)

def portfolio(solver, secs):
    """other solvers and strategies, side by side; the first answer counts"""
    import subprocess, tempfile
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False); f.write("(set-logic ALL)\n" + solver.to_smt2()); f.close()
    Z = ["/usr/local/bin/z3-new", "-memory:4000"]; ps = []; t0 = time.time(); res = "unknown"
    try:
        for c in (Z, Z + ["smt.random_seed=7"], Z + ["smt.relevancy=0"], ["cvc5", "--lang=smt2"]):
            try: ps.append(subprocess.Popen(c + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
            except OSError: pass
        live = list(ps)
        while live and time.time() - t0 < secs and res == "unknown":
            time.sleep(0.05)
            for p in list(live):
                if p.poll() is None: continue
                live.remove(p); r = p.stdout.read().split("\n")[0].strip()
                if r in ("sat", "unsat"): res = r; break
    finally:
        for p in ps:
            if p.poll() is None: p.kill()
            p.wait(); p.stdout.close()
        os.unlink(f.name)
    return res
DEBUG = bool(__import__("os").environ.get("HOUD"))
class View:
    def __init__(self, ex, st, d): self.ex = ex; self.st = st; self.d = d
    def __getitem__(self, l):
        v = self.d[l]
        if v is None: raise KeyError(l)
        return v
    def glob(self, name, size=8, off=0):
        ob = self.ex.globals.get(name)
        if ob is None: raise KeyError(name)
        if ob not in self.st.mem: self.ex.glob(self.st, name)
        v = self.ex.peek(self.st, ob, off, size)
        if v is None: raise KeyError(name)
        return v
    def arr(self, name, start=0):
        ob = self.ex.globals.get(name)
        if ob is None or ob not in self.st.mem: raise KeyError(name)
        for r in self.st.mem[ob].regs:
            if r.start == start: return r.arr
        raise KeyError(name)

import z3
from sym import bv, T, simp, Ptr, cv
from tmpl import *
import pipe, world
U8 = pipe.U8; U64 = pipe.U64; B = pipe.B
FNID, NARGS = [z3.Function("__v_uf_" + n, U64, U64) for n in ("fnid", "nargs")]
ACC = [z3.Function("__v_uf_acc" + n, U8, U64, U64, U64, s) for n, s in (("null", B), ("val", U64), ("num", U64))]
def vtuples(ex, fr, ins, a, st):
    """the i-th of these tuples has its (only) value in the i-th of the values"""
    o = a[0].alts[0][1]; o.kind = "heap"; ex.tupvals = getattr(ex, "tupvals", {}); ex.tupvals[o] = a[1]; return st, None
def expr_field(ex, st, e, f, size, ty):
    g = ex.ghosts
    if "FN_COUNT" in g: st.assume(z3.And(z3.Or(*[FNID(e) == g[x] for x in ("FN_COUNT", "FN_SUM", "FN_AVG", "FN_MIN", "FN_MAX")]), z3.Or(NARGS(e) == 1, z3.And(NARGS(e) == 0, FNID(e) == g["FN_COUNT"])), world.kind(pipe.ETYPE(e)) == 8))      # see wellformed
    if f == "func": return Ptr.mk(ex.glob(st, "pool_fns"), simp(e * bv(256)))
    if f == "args" or f == "argsend": return Ptr.mk(ex.glob(st, "pool_args"), simp(e * bv(256) + (NARGS(e) * 8 if f == "argsend" else 0)))
    return None
def load_hook(ex, st, ob, off, size, ty, ins, guard):
    n = getattr(ob, "name", None)
    if n == "pool_fns":
        c, rem = ex.linear(simp(off)); e = bv(0) if rem is None else ex.divisible(rem, 256)
        if e is None or pipe.LAY.get(0x1000 + c % 256) != "fnid": return None
        return z3.Extract(8 * size - 1, 0, simp(FNID(simp(e + bv(c // 256)))))
    if n == "pool_args" and ty == "p":
        c, rem = ex.linear(simp(off)); e = bv(0) if rem is None else ex.divisible(rem, 256)
        if e is None: return pipe.expr_ptr(ex, st, simp(bv(1 << 20) + z3.LShR(off, 8)))
        if c % 256: raise ValueError("second argument of an aggregate")
        return pipe.expr_ptr(ex, st, simp(bv(1 << 20) + e + bv(c // 256)))
    v = getattr(ex, "tupvals", {}).get(ob)
    if v is not None and ty == "p":
        i = ex.index(st, simp(off), 16)
        if i is None: return None
        ex.bounds(st, ob, off, size, ins, guard); return Ptr.mk(v.alts[0][1], simp(v.alts[0][2] + 8 * i))
    return pipe.load_hook(ex, st, ob, off, size, ty, ins, guard)
def one(c): return z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if z3.is_bool(c) else c
def state(v, base=0):
    """null, value, count of the aggregate followed"""
    ex = v.ex; g = ex.ghosts; a = g["a"]; nm = v.ex.peek(v.st, ex.roles.get("data"), cv(g["nulloff"]), 8)
    null = inx(a + base, nm); val = z3.Select(v.arr("g_aggs"), a + base)
    return null, z3.If(null, bv(0), z3.If(asb(g["narrow"]), z3.ZeroExt(32, z3.Extract(31, 0, val)), val)), z3.Select(v.arr("g_nums"), a)
def asb(x): return x if z3.is_bool(x) else x != 0
def want(ex, s, rows):
    g = ex.ghosts; n, v, c = s; xs = (one(n), v, c, rows)
    return z3.And(ACC[0](*xs) == asb(g["wnull"]), z3.Implies(z3.Not(asb(g["wnull"])), ACC[1](*xs) == g["wval"]), ACC[2](*xs) == g["wnum"])
def suffix(m, a): return (m & ~((a & -a) - 1)) == a

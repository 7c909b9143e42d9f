"""A model of SQL types: the objects live in a pool, `kind` and the fields of the tid-th are arbitrary."""
import z3
from sym import bv, T, F, NULL, Ptr, Obj, Orl, Andl, simp, cv
STRIDE = 128
KINDS = {"ErrorType": 1, "NoneType": 2, "Boolean": 3, "Bitmap": 4, "CharacterSequence": 5, "Date": 6, "DateTime": 7, "Numeric": 8, "FnType": 9}
PRIM = ("Boolean", "Bitmap", "CharacterSequence", "Date", "DateTime", "Numeric")
kind = z3.Function("__v_uf_kind", z3.BitVecSort(64), z3.BitVecSort(8))
def tid(ex, off):
    o = simp(off); e = getattr(ex, "tids", {}).get(o.get_id())
    if e is not None and e[0].eq(o): return e[1]
    return ex.divisible(o, STRIDE)
def is_kind(t, name):
    if name == "Type": return T
    if name == "PrimitiveType": return Orl([kind(t) == KINDS[k] for k in PRIM])
    return kind(t) == KINDS[name]
def tiname(ti):
    n = ti[len("_ZTIN1m"):-1]; i = 0
    while n[i].isdigit(): i += 1
    return n[i:]
def dyncast(ex, st, o, off, dst):
    if not (isinstance(o, Obj) and o.name == "pool_types"): return None
    t = tid(ex, off); st.assume(z3.And(z3.UGE(kind(t), 1), z3.ULE(kind(t), 9)))
    return is_kind(t, tiname(dst))
def type_ptr(ex, st, t):
    st.assume(z3.ULT(t, 1 << 40))
    o = simp(t * bv(STRIDE)); ex.tids = getattr(ex, "tids", {}); ex.tids[o.get_id()] = (o, t)
    return Ptr.mk(ex.glob(st, "pool_types"), o)
def load_hook(ex, st, ob, off, size, ty, ins, guard):
    """the virtual table of a type is that of its kind"""
    if isinstance(ob, Obj) and ob.name == "pool_types" and ty == "p" and size == 8:
        t = tid(ex, off)
        if t is None: return None
        alts = []
        for k, n in KINDS.items():
            g = "_ZTVN1m%d%sE" % (len(k), k)
            alts.append((kind(t) == n, Ptr.mk(ex.glob(st, g), 16)))
        st.assume(z3.And(z3.UGE(kind(t), 1), z3.ULE(kind(t), 9)))
        return ex.merge_ptr(alts[:-1] + [(T, alts[-1][1])])
    if isinstance(ob, Obj) and ob.name == "pool_types" and not isinstance(ty, dict) and ty != "p":
        c, rem = ex.linear(simp(off)); t = tid(ex, rem) if rem is not None else bv(c // STRIDE)
        if t is None: return None
        return field(t, c % STRIDE, size)
    return None
def field(t, o, size): return z3.Function("__v_uf_field%d_%d" % (o, size), z3.BitVecSort(64), z3.BitVecSort(8 * size))(t)

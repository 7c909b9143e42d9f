import z3, re, world
from sym import bv, fbv, cv, simp, Ptr, T, NULL as NULLP
U64, U8, B = z3.BitVecSort(64), z3.BitVecSort(8), z3.BoolSort()
NULL, BOOL = z3.Function("__v_uf_null", U64, U64, B), z3.Function("__v_uf_bool", U64, U64, B)
def null(ex, r, e=0): return NULL(r, bv(e))
def true(ex, r, e=0): return BOOL(r, bv(e))
def noop(ex, fr, ins, a, st): return st, None
def vtype(ex, fr, ins, a, st): return st, world.type_ptr(ex, st, a[0])
def vindex(ex, fr, ins, a, st):
    """(pointer, start, size): which element a pointer points to"""
    p, q, k = a[0], a[1], cv(simp(a[2])); out = []
    (_, so, soff), = [x for x in q.alts if x[1] != NULLP] or q.alts
    for g, o, off in p.alts:
        if o is not so: out.append((g, fbv(64, "other"))); continue
        d = simp(off - soff); i = ex.index(st, d, k)
        out.append((g, i if i is not None else z3.UDiv(d, bv(k))))
    r = out[-1][1]
    for g, i in out[-2::-1]: r = z3.If(g, i, r)
    return st, simp(r)
def current_row(ctx):
    """the positions of the tuples an argument vector on the stack points to (second entry), as seen at a loop head"""
    ex = ctx.ex; pipe = ex.roles.get("pipe"); out = []
    for o, os in ctx.estate.mem.items():
        if getattr(o, "kind", "") != "alloca" and "alloca" not in o.name: continue
        c = os.cells.get(8)
        if c is None or not isinstance(c[1], Ptr) or len(c[1].alts) != 1 or c[1].alts[0][1] is not pipe: continue
        i = ex.index(ctx.estate, simp(c[1].alts[0][2] - ex.ghosts["base"]), 24)
        if i is not None: out.append(i)
    return out
# expressions: objects of a pool, of any kind and type; `elements` are arrays of references to them
ESTRIDE = 256
ETYPE = z3.Function("__v_uf_exprtype", U64, U64)
LAY = {}
def eid(ex, off):
    e = getattr(ex, "eids", {}).get(simp(off).get_id())
    return e[1] if e is not None and e[0].eq(simp(off)) else ex.divisible(simp(off), ESTRIDE)
def expr_ptr(ex, st, e):
    st.assume(z3.ULT(e, 1 << 40)); o = simp(e * bv(ESTRIDE)); ex.eids = getattr(ex, "eids", {}); ex.eids[o.get_id()] = (o, e)
    return Ptr.mk(ex.glob(st, "pool_exprs"), o)
def vexpr(ex, fr, ins, a, st): return st, expr_ptr(ex, st, a[0])
def velems(ex, fr, ins, a, st):
    """(n, size, at, first): n elements, the i-th of which refers to expression first + i"""
    o = ex.new_obj(st, "elements%d" % next(ex.heap_n), simp(a[0] * a[1])); o.kind = "heap"; o.refs = (cv(simp(a[1])), cv(simp(a[2])), a[3])
    return st, Ptr.mk(o)
RECORDS = {}
def vrecords(ex, fr, ins, a, st):
    """(n, size, kind): n records of a kind; what their fields hold says RECORDS"""
    o = ex.new_obj(st, "records%d" % next(ex.heap_n), simp(a[0] * a[1])); o.kind = "heap"; o.refs = (cv(simp(a[1])), RECORDS[ex.cstr(a[2], st)])
    return st, Ptr.mk(o)
def vlayout(ex, fr, ins, a, st):
    LAY[cv(simp(a[0]))] = ex.cstr(a[1], st); return st, None
def load_hook(ex, st, ob, off, size, ty, ins, guard):
    if ob in (NULLP, "raw"): return None
    r = getattr(ob, "refs", None)
    if r is not None and callable(r[1]):                # records: (size, what a field of the i-th one is)
        c, rem = ex.linear(simp(off)); i = bv(0) if rem is None else ex.index(st, rem, r[0])
        if i is None: return None
        ex.bounds(st, ob, off, size, ins, guard); return r[1](ex, st, simp(i + bv(c // r[0])), c % r[0], size, ty)
    if r is not None and ty in ("p", "i64"):
        d = simp(off - bv(r[1])); i = ex.index(st, d, r[0])
        if i is None: return None
        ex.bounds(st, ob, off, size, ins, guard); return expr_ptr(ex, st, simp(r[2] + i))
    if ob.name == "pool_exprs":
        c, rem = ex.linear(simp(off))
        e = bv(0) if rem is None else eid(ex, rem)
        if e is None: return None
        e = simp(e + bv(c // ESTRIDE)); f = LAY.get(c % ESTRIDE)
        if f == "type": return world.type_ptr(ex, st, ETYPE(e))
        h = ex.o.get("expr_field")
        if h and f: return h(ex, st, e, f, size, ty)
        return None
    return world.load_hook(ex, st, ob, off, size, ty, ins, guard)
def dyncast(ex, st, o, off, dst):
    if getattr(o, "name", "") == "pool_exprs": return T
    return world.dyncast(ex, st, o, off, dst)
OPTS = dict(vintr={"__v_type": vtype, "__v_index": vindex, "__v_expr": vexpr, "__v_elems": velems, "__v_layout": vlayout, "__v_records": vrecords}, dyncast=dyncast, load_hook=load_hook, contracts=[(r"^m::Tuple::Tuple\(std::vector", "stub_tuple"), (r"^m::StackMachine::operator\(\)\(m::Tuple", "stub_run"), (r"^m::StackMachine::emit\(m::cnf::CNF", "stub_emit_cnf"), (r"^m::StackMachine::emit_St_Tup_b\(", "stub_emit_result"), (r"^m::StackMachine::(~?StackMachine|emit[A-Za-z_]*|add)\(", noop), (r"^m::Schema::(~?Schema|operator=)\(", noop), (r"^m::Type::Get_Boolean", "stub_get_boolean")])
KEEP = tuple(r for r, _ in OPTS["contracts"])
ROOTS = ("^prove_", "^stub_")

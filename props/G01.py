import z3
from tmpl import *
m = z3.Const("arr_m", z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(64)))
x, C, S, y, A, COL = [z3.BitVec("in_" + n, 64) for n in ("x", "C", "S", "y", "A", "COL")]
m2 = z3.Const("arr_m2", m.sort()); EQ = z3.BitVec("in_EQ", 64)
def opts(root):
    def on_load(ex, ob, r, idx, w):
        if root in ("prove_equal", "prove_unequal") and (r.arr.eq(m) or r.arr.eq(m2)): return [z3.Implies(EQ == 0, z3.Select(m, idx) == z3.Select(m2, idx))]
        if not r.arr.eq(m): return []
        if root == "prove_reachable_all": return [z3.Implies(inx(idx, C), sub(w, C))]
        if root in ("prove_equal", "prove_unequal"):
            for n1, a, c1 in ts:
                if c1: out.append(("rows below %s agree" % n1, lambda v, a=a: z3.Implies(z3.ULT(x, a(v)), mx == z3.Select(m2, x)))); out.append(("bound", lambda v, a=a: z3.ULE(a(v), z3.BitVec("in_n", 64))))
            return out
        if root == "prove_reachable_within": return [z3.Implies(inx(idx, C), sub(w & S, C))]
        if root == "prove_is_connected_true": return [z3.Implies(z3.And(inx(idx, C), inx(idx, S)), sub(w & S, C))]
        if root == "prove_neighbors": return [z3.Implies(z3.And(COL == 0, inx(idx, S)), z3.Not(inx(y, w)))]
        if root == "prove_is_connected_pair": return [z3.Implies(z3.And(COL == 0, inx(idx, z3.BitVec("in_B", 64))), w & A == 0)]
    mx = z3.Select(m, x)
    def rel(ctx, ts):
        out = []
        for n1, a, c1 in ts:
            if not c1: continue
            if root == "prove_neighbors": out.append(("COL => y notin " + n1, lambda v, a=a: z3.Implies(COL == 0, z3.Not(inx(y, a(v))))))
            if root == "prove_is_connected_pair": out.append(("COL => disjoint " + n1, lambda v, a=a: z3.Implies(COL == 0, a(v) & A == 0)))
        if root in ("prove_equal", "prove_unequal"):
            for n1, a, c1 in ts:
                if c1: out.append(("rows below %s agree" % n1, lambda v, a=a: z3.Implies(z3.ULT(x, a(v)), mx == z3.Select(m2, x)))); out.append(("bound", lambda v, a=a: z3.ULE(a(v), z3.BitVec("in_n", 64))))
            return out
        if root == "prove_reachable_within":
            for n1, a, c1 in ts:
                for n3, c, c3 in ts:
                    for n2, b, c2 in ts:
                        if c1 or c2 or c3: out.append(("x in %s-%s => m&S <= %s" % (n1, n2, n3), lambda v, a=a, b=b, c=c: z3.Implies(z3.And(inx(x, a(v)), z3.Not(inx(x, b(v)))), sub(mx & S, c(v)))))
        return out
    return dict(templates=None if root == "prove_access" else set_templates(elems=[("x", x, mx)], sets=[("C", C)] + ([("S", S)] if "within" in root or "is_connected" in root else []), rel=rel), on_load=on_load)
REPLAY = "G01.cpp"
FUNCTIONS = ["AdjacencyMatrix::reachable (both)", "AdjacencyMatrix::neighbors", "AdjacencyMatrix::is_connected (both)", "AdjacencyMatrix::operator()/at/Proxy::*", "AdjacencyMatrix::operator==/!="]
ASSUMPTIONS = ["a set is the set of reachable vertices iff it is the least superset of the sources closed under the edge relation (textbook definition)"]
PARTS = [dict(tu="G01.cpp", opts=opts, native=False),
         dict(tu="G01b.cpp", roots=("^prove_", "^contract_"), keep=("^m::AdjacencyMatrix::reachable[(]m::SmallBitset, m::SmallBitset[)]",), opts={"contracts": [("AdjacencyMatrix::reachable", "contract_reachable")]}, native=False)]

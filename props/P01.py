import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from sym import bv, T, simp
from tmpl import *
import pipe
FIRST = z3.Function("__v_uf_first", pipe.U64, pipe.U64)
def opts(root):
    dis = root == "prove_disjunction"
    def inner(ctx):          # over the predicates of the disjunction
        out = []
        for l in ctx.labels:
            if ctx.types[l] != "i64" or l[0] == "cell" or l[0] == "phi" and not w64(ctx.entry[l]): continue
            out.append(("predicates", lambda v, l=l: z3.ULE(v[l], ctx.ex.ghosts["n"])))
            for r in pipe.current_row(ctx): out.append(("none so far", lambda v, l=l, r=r: z3.ULE(v[l], FIRST(r))))
        return out
    def templates(ctx):
        ex = ctx.ex; k, m = ex.ghosts["k"], ex.ghosts["mask"]
        if dis and pipe.current_row(ctx): return inner(ctx)
        out = set_templates(sets=[("mask", m)])(ctx)
        keep = z3.ULT(FIRST(k), ex.ghosts["n"]) if dis else z3.And(z3.Not(pipe.null(ex, k)), pipe.true(ex, k))
        for n1, a, c1 in terms(ctx):
            if not c1: continue
            for n2, b, c2 in terms(ctx):
                if not c2 or n1 == n2: continue
                out.append(("%s done %s" % (n1, n2), lambda v, a=a, b=b: inx(k, b(v)) == z3.And(inx(k, m), z3.Or(inx(k, a(v)), keep))))
        return out
    o = dict(pipe.OPTS, templates=templates, lazy_cttz=True)
    if dis: o["contracts"] = [(r, "stub_pred" if h == "stub_run" else h) for r, h in o["contracts"]]
    return o
CTZ = z3.Function("cttz64", pipe.U64, pipe.U64)
PARTS = [dict(tu="P01.cpp", opts=opts, roots=pipe.ROOTS, keep=pipe.KEEP)]
PARTS[0]["native"] = False
REPLAY_SQL = ["filter"]
FUNCTIONS = ["Pipeline::operator()(const FilterOperator&)", "Pipeline::operator()(const DisjunctiveFilterOperator&)", "FilterData::FilterData", "Block::the_iterator, begin, end, erase, empty, mask"]
TRUSTED = ["by contract: a compiled condition evaluates to the same value for a tuple whenever it is run, and stores it where emit_St_Tup_b says (the operations themselves: V01, V02)", "by contract: constructors of Schema and StackMachine"]
ASSUMPTIONS = ["the predicates of a disjunction are compiled as the whole condition is (DisjunctiveFilterData::DisjunctiveFilterData is covered for an empty clause only)", "fewer than 2^30 predicates"]

import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from sym import bv, cv, T, simp
from tmpl import *
import pipe
PNULL, PTRUE = [z3.Function("__v_uf_" + n, pipe.U64, pipe.U64, pipe.B) for n in ("pnull", "ptrue")]
def opts(root):
    def templates(ctx):
        if os.environ.get("DBGL"): print("LABELS", [(l, ctx.types[l], str(ctx.entry[l])[:60]) for l in ctx.labels])
        ex = ctx.ex; m, k, q = ex.ghosts["mask"], ex.ghosts["k"], ex.ghosts["q"]; out = []; g = lambda v, x: v.glob("g_" + x)
        if root == "prove_collect":
            for l in ctx.labels:
                if ctx.types[l] != "i64" or l[0] == "cell": continue
                out.append(("%s rest" % (l,), lambda v, l=l: z3.And(v[l] & ~m == 0, z3.Implies(v[l] != 0, (m & ~((v[l] & -v[l]) - 1)) == v[l]))))
                out.append(("%s to be done" % (l,), lambda v, l=l: g(v, "clones") == z3.If(z3.And(inx(k, m), z3.Not(inx(k, v[l]))), bv(1), bv(0))))
            out.append(("none pending", lambda v: g(v, "left") == 0))
            return out
        n = ex.ghosts["n"]; asb = lambda x: x if z3.is_bool(x) else x != 0
        OK = lambda p: z3.Or(z3.Not(asb(ex.ghosts["pred"])), z3.And(z3.Not(PNULL(p, k)), PTRUE(p, k))); one = lambda c: z3.If(c, bv(1), bv(0))
        om = lambda v: ex.peek(v.st, ex.roles["data"], cv(ex.ghosts["maskoff"]), 8)
        poss = [o for o in ctx.estate.mem if o.name.startswith("heap") and str(o.size) == "8" and w64(ex.peek(ctx.estate, o, 0, 8))]
        outer = any(l[0] == "cell" and l[1] == "g_hits" for l in ctx.labels)
        for o in poss:
            pos = lambda v, o=o: ex.peek(v.st, o, 0, 8)
            for l in ctx.labels:
                if ctx.types[l] != "i64" or l[0] == "cell": continue
                if outer:
                    out.append(("%s input" % (l,), lambda v, l=l: z3.ULE(v[l], 1)))
                    out.append(("%s: position in %s" % (l, o.name), lambda v, l=l, pos=pos: z3.If(v[l] == 1, z3.ULT(pos(v), n), z3.ULE(pos(v) + 1, n))))
                    out.append(("%s: pairs before %s" % (l, o.name), lambda v, l=l, pos=pos: g(v, "hits") == one(z3.And(inx(k, m), OK(q), z3.ULT(q, z3.If(v[l] == 1, pos(v), pos(v) + 1))))))
                else:
                    out.append(("%s: kept" % (l,), lambda v, l=l, pos=pos: z3.And(inx(k, om(v)) == z3.And(inx(k, m), z3.Or(inx(k, v[l]), OK(pos(v)))), om(v) & ~m == 0, v[l] & ~om(v) == 0)))
                    out.append(("%s: rest" % (l,), lambda v, l=l: z3.And(v[l] & ~m == 0, z3.Implies(v[l] != 0, (m & ~((v[l] & -v[l]) - 1)) == v[l]))))
                    out.append(("%s: loaded" % (l,), lambda v, l=l, pos=pos: z3.And(g(v, "left") == z3.If(z3.And(inx(k, m), z3.Not(inx(k, v[l])), OK(pos(v))), pos(v) + 1, bv(0)), g(v, "right") == one(g(v, "left") != 0))))
        if outer: out.append(("nothing loaded", lambda v: z3.And(g(v, "left") == 0, g(v, "right") == 0)))
        return out
    return dict(pipe.OPTS, templates=templates, lazy_cttz=True, unroll_fns=[r"^std::(__)?fill", r"std::iota", r"std::__uninitialized", r"NestedLoopsJoinData::NestedLoopsJoinData"], contracts=CON + [(r"^m::Schema::Schema\(\)", "stub_schema"), (r"^m::Tuple::Tuple\(m::Schema const&\)", "stub_tuple_schema")] + [c for c in pipe.OPTS["contracts"]])
CON = [(r"^m::Tuple::clone\(", "stub_clone"), (r"std::vector<m::Tuple, .*::emplace_back<", "stub_keep"), (r"^m::Tuple::~Tuple\(", "stub_no_tuple"), (r"JoinData::emit_load_attrs\(", "stub_emit_load"), (r"^m::StackMachine::emit\(m::cnf::CNF const&, std::vector", "stub_emit_predicate")]
PARTS = [dict(deadline=500, tu="P08.cpp", opts=opts, roots=pipe.ROOTS, keep=pipe.KEEP + tuple(r for r, _ in CON) + (r"^m::Tuple::Tuple\(m::Schema const&\)",), flags=("-UM_ENABLE_SANITY_FIELDS",), native=False)]
REPLAY_SQL = ["join"]
FUNCTIONS = ["Pipeline::operator()(const JoinOperator&) (nested-loops join)", "NestedLoopsJoinData::NestedLoopsJoinData", "Block::the_iterator, begin, end, erase, empty, clear, mask, operator[]", "Tuple::clear, is_null, operator[]"]
TRUSTED = ["by contract: the program of the predicate evaluates it on the rows given and stores the result (V01, V02), the program loading the attributes of a row copies them (JoinData::emit_load_attrs is proved in P07)", "by contract: std::vector<Tuple>::emplace_back; Tuple::clone yields an equal tuple (proved in T01)", "by contract: constructors of Schema, Tuple and StackMachine, pooling of types"]
ASSUMPTIONS = ["joins have two inputs, as the optimizer makes them", "fewer than 2^40 rows of the left input", "the order in which the inputs are produced, and that the right one is only produced if the left one is not empty, is proved in P07", "induction over the blocks of the inputs by hand"]

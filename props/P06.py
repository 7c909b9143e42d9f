import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from sym import bv, T, simp
from tmpl import *
import pipe
def opts(root):
    def templates(ctx):
        ex = ctx.ex; out = []
        if root.startswith("prove_buffer"):
            m = ex.ghosts["mask"]
            for l in ctx.labels:
                if ctx.types[l] != "i64": continue
                out.append(("%s to be done" % (l,), lambda v, l=l: z3.And(v.glob("g_clones") == m & ~v[l], v.glob("g_kept") == v.glob("g_clones")))); out.append(("%s rest" % (l,), lambda v, l=l: z3.And(v[l] & ~m == 0, z3.Implies(v[l] != 0, (m & ~((v[l] & -v[l]) - 1)) == v[l]))))
            out.append(("nothing pending", lambda v: v.glob("g_pending") == 0)); return out
        n = ex.ghosts["n"]; g = lambda v, x: v.glob("g_" + x); ORD = z3.Function("__v_uf_ord", pipe.U64, pipe.U64)
        if any(l[0] == "cell" and l[1] == "g_res" for l in ctx.labels):
            for l in ctx.labels:
                if ctx.types[l] != "i64" or l[0] == "cell" or l[0] == "phi" and not w64(ctx.entry[l]): continue
                out.append(("%s <= n" % (l,), lambda v, l=l: z3.ULE(v[l], n))); out.append(("%s: keys before" % (l,), lambda v, l=l: z3.And(g(v, "res") == ORD(v[l]), (g(v, "stopped") != 0) == (ORD(v[l]) != 0), z3.ULE(g(v, "stopped"), 1))))
            return out
        import P03
        out += P03.scan(ctx)
        for l in ctx.labels:
            if ctx.types[l] == "p" and l[0] == "cell": out.append(("%s: next row" % (l,), lambda v, l=l: ex.p2i(v[l]) == ex.ghosts["buf"] + 16 * v.glob("g_loaded")))
        return out
    return dict(pipe.OPTS, templates=templates, lazy_cttz=True, contracts=CON + [(r"^m::Schema::Schema\(\)", "stub_schema"), (r"^m::Tuple::Tuple\(m::Schema const&\)", "stub_tuple_schema")] + pipe.OPTS["contracts"])
E = r"^m::StackMachine::emit_%s\("
CON = [(r"^m::StackMachine::StackMachine\(", "stub_program"), (r"^m::Tuple::clone\(", "stub_clone"), (r"std::vector<m::Tuple, .*::emplace_back<", "stub_keep"), (r"^m::Tuple::~Tuple\(", "stub_no_tuple"), (r"^m::StackMachine::emit\(m::ast::Expr const&, unsigned long\)", "stub_emit_key"), (r"^m::StackMachine::add\(m::Value\)", "stub_add"), (r"^m::Type::Get_Integer\(", "stub_get_integer"),
    (r"^m::swap\(m::Tuple&, m::Tuple&\)", "stub_swap")] + [(E % a, b) for a, b in (("Ld_Ctx", "stub_ctx"), ("Is_Null", "stub_is_null"), ("Cmp_b", "stub_cmp_b"), ("Cmp_s", "stub_cmp_s"), ("Cmp_i", "stub_cmp_i"), ("Cmp_f", "stub_cmp_f"), ("Cmp_d", "stub_cmp_d"), ("Minus_i", "stub_minus"), ("Sel", "stub_sel"), ("St_Tup_i", "stub_result"), ("Stop_NZ", "stub_stop_nz"))]
PARTS = [dict(deadline=500, tu="P06.cpp", opts=opts, roots=pipe.ROOTS, keep=pipe.KEEP + tuple(r for r, _ in CON) + (r"^m::Tuple::Tuple\(m::Schema const&\)",), flags=("-UM_ENABLE_SANITY_FIELDS",), native=False)]
REPLAY_SQL = ["sort"]
FUNCTIONS = ["Pipeline::operator()(const SortingOperator&)", "Interpreter::operator()(const SortingOperator&)", "SortingData::SortingData", "Block::the_iterator, begin, end, fill, clear, mask, operator[]", "Tuple::operator[], set, is_null", "visit(Type), Numeric::size, is_floating_point"]
TRUSTED = ["by contract: std::sort and std::stable_sort (a comparator that is a strict weak order yields a permutation in order)", "by contract: std::vector<Tuple>::emplace_back; Tuple::clone yields an equal tuple (proved in T01); swapping tuples", "by contract: what the emitted operations Is_Null, Cmp_*, Minus_i, Sel, Ld_Ctx, St_Tup_i and Stop_NZ do to the stack (V01, V02 prove most of them); compiling a key pushes its value for the given row", "by contract: constructors of Schema, Tuple and StackMachine, pooling of types"]
ASSUMPTIONS = ["fewer than 2^47 rows, fewer than 2^30 keys", "keys are BOOL, CHAR, VARCHAR, DATE, DATETIME or numeric; comparing two values of a key yields a number within 32 bits", "induction over the blocks of the input by hand"]

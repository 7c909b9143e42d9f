import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from sym import bv, cv, T, simp, Ptr
from tmpl import *
import pipe, world
U64, B = pipe.U64, pipe.B
SIZE, TOK, AT = [z3.Function("__v_uf_" + n, U64, U64) for n in ("clsize", "tok", "at")]
FOUND, DESIG, NEG, LEFT = [z3.Function("__v_uf_" + n, U64, B) for n in ("found", "designator", "negated", "left")]
def heap(ex, name, off): return Ptr.mk(ex.roles[name], simp(off))
def clauses(ex, st, i, f, size, ty):
    g = ex.ghosts; st.assume(z3.ULT(TOK(i), 1 << 16))
    if asone(g["single"]): st.assume(z3.And(SIZE(i) == 1, TOK(i) == z3.If(NEG(i), g["ne"], g["eq"]), pipe.ETYPE(2 * i) == pipe.ETYPE(2 * i + 1), z3.Or(*[world.kind(pipe.ETYPE(2 * i)) == k for k in (3, 5, 6, 7, 8)])))
    else: st.assume(z3.ULT(SIZE(i), 1 << 8))
    return heap(ex, "preds", (i << 3) + (SIZE(i) << 3 if f == 8 else 0))
def asone(x): return z3.is_true(simp(x == 1))
def pairs(ex, st, i, f, size, ty): return pipe.expr_ptr(ex, st, simp(ex.ghosts["pairs"] + 2 * i + f // 8))
def sides(ex, st, i, f, size, ty): return pipe.expr_ptr(ex, st, simp(2 * i + z3.If(LEFT(i) == (f == 0), bv(0), bv(1))))
def attributes(ex, st, i, f, size, ty):
    if f == 32 and ty == "p": st.assume(z3.And(z3.ULT(i, 1 << 32), z3.Implies(FOUND(i), z3.ULT(AT(i), ex.ghosts["m"])))); return world.type_ptr(ex, st, simp(i + 64))
    return None
pipe.RECORDS.update(sides=sides, clauses=clauses, pairs=pairs, attributes=attributes)
def expr_field(ex, st, e, f, size, ty):
    i = simp(e - ex.ghosts["binary"])
    if f in ("lhs", "rhs"): return pipe.expr_ptr(ex, st, simp(2 * i + (f == "rhs")))
    if f == "tok": return z3.Extract(8 * size - 1, 0, TOK(i))
    return None
def dyncast(ex, st, o, off, dst):
    if getattr(o, "name", "") == "pool_exprs" and "Designator" in dst:
        return DESIG(pipe.eid(ex, off))
    return pipe.dyncast(ex, st, o, off, dst)
COMP = ("prove_supported", "prove_decompose", "prove_build_key", "prove_probe_key", "prove_load_attrs")
def opts(root):
    def templates(ctx):
        if root == "prove_phases":
            ls = [l for l in ctx.labels if l[0] == "phi" and ctx.types[l] == "i64"]
            return [(str(l), lambda v, l=l: z3.And(v.glob("g_phase") == v[l], z3.ULE(v[l], 2), z3.Implies(v[l] != 0, v.glob("g_kept") != 0))) for l in ls]
        if root in COMP: return compiled(ctx)
        ex = ctx.ex; k, m, n = ex.ghosts["k"], ex.ghosts["mask"], ex.ghosts["n"]; out = []
        g = lambda v, x: v.glob("g_" + x); one = bv(1); KM = z3.Function("__v_uf_keymask", pipe.U64, pipe.U64); low = (one << n) - 1
        ok = z3.And(inx(k, m), KM(k) & low == 0); gcells = {l[1] for l in ctx.labels if l[0] == "cell" and l[1].startswith("g_")}
        if not gcells:                               # the attributes of the key
            for l in ctx.labels:
                if ctx.types[l] != "i64" or l[0] == "phi" and not w64(ctx.entry[l]): continue
                out.append(("%s: not NULL before" % (l,), lambda v, l=l: z3.And(z3.ULE(v[l], n), KM(g(v, "row")) & low & ((one << v[l]) - 1) == 0)))
            return out
        out.append(("parts", lambda v: z3.Or(g(v, "part") == 3, g(v, "part") == 0))); out.append(("both parts", lambda v: g(v, "part") == 3)); out.append(("compiled", lambda v: g(v, "evals") == 1)); out.append(("no copies", lambda v: g(v, "copies") == 0))
        for l in ctx.labels:
            if l[0] == "cell" and l[1].startswith("g_") or ctx.types[l] != "i64" or l[0] == "phi" and not w64(ctx.entry[l]): continue
            out.append(("%s to be done" % (l,), lambda v, l=l: g(v, "hits") == z3.If(z3.And(ok, z3.Not(inx(k, v[l]))), bv(1), bv(0)))); out.append(("%s rest" % (l,), lambda v, l=l: z3.And(v[l] & ~m == 0, z3.Implies(v[l] != 0, (m & ~((v[l] & -v[l]) - 1)) == v[l]))))
            out.append(("%s <= 64" % (l,), lambda v, l=l: z3.ULE(v[l], 64)))
            out.append(("%s fresh" % (l,), lambda v, l=l: g(v, "fresh") == z3.If(z3.ULT(v[l], 64), (one << v[l]) - 1, bv(2**64 - 1))))
            if l[0] == "cell": out.append(("%s all" % (l,), lambda v, l=l: v[l] == bv(2**64 - 1)))
        return out
    if root in COMP: return dict(pipe.OPTS, dyncast=dyncast, expr_field=expr_field, templates=templates, contracts=CCON[root] + [c for c in COMMON if c[0] not in [x[0] for x in CCON[root]]] + pipe.OPTS["contracts"])
    ph = [(r"^(m::)?supports_simple_hash_join\(", "stub_supported")] if root == "prove_phases" else []
    return dict(pipe.OPTS, templates=templates, lazy_cttz=True, contracts=ph + CON + [(r"^m::Schema::Schema\(\)", "stub_schema"), (r"^m::Tuple::Tuple\(m::Schema const&\)", "stub_tuple_schema")] + pipe.OPTS["contracts"])
CON = [(r"^m::Tuple::clone\(", "stub_clone"), (r"^m::Tuple::~Tuple\(", "stub_no_tuple"), (r"JoinData::emit_load_attrs\(", "stub_emit_load"), (r"SimpleHashJoinData::load_(build|probe)_key\(", "stub_load_key"), (r"^m::Catalog::Get\(\)", "stub_catalog")]
COMMON = [(r"^m::Schema::Schema\(\)", "stub_schema"), (r"^m::Tuple::Tuple\(m::Schema const&\)", "stub_tuple_schema"), (r"^m::Tuple::~Tuple\(", "stub_no_tuple"), (r"^m::Catalog::Get\(\)", "stub_catalog")]
PRED = [(r"^m::cnf::Predicate::expr\(\)", "stub_expr"), (r"^m::cnf::Predicate::negative\(\)", "stub_negative")]
CCON = dict(prove_supported=PRED, prove_decompose=PRED + [(r"^m::ast::Expr::get_required\(\)", "stub_required"), (r"operator&\(m::Schema const&, m::Schema const&\)|^m::Schema::operator&\(", "stub_meet"), (r"^m::Schema::add\(", "stub_add_key"), (r"^m::Catalog::pool\(char const", "stub_pool_string"), (r"vector<std::pair<m::ast::Expr const\*.*::emplace_back", "stub_pair")],
    prove_build_key=[(r"^m::StackMachine::emit\(m::ast::Expr const&, m::Schema", "stub_emit_expr"), (r"^m::StackMachine::emit_St_Tup\(", "stub_emit_st")],
    prove_load_attrs=[(r"^m::StackMachine::emit_St_Tup\(", "stub_emit_st"), (r"^m::StackMachine::emit_Ld_Tup\(", "stub_emit_ld"), (r"^m::Schema::find\(", "stub_find")])
CCON["prove_probe_key"] = CCON["prove_build_key"]
def compiled(ctx):
    if os.environ.get("DBGL"): print("LABELS", [(l, ctx.types[l], str(ctx.entry[l])[:60]) for l in ctx.labels])
    ex = ctx.ex; out = []; g = lambda v, x: v.glob("g_" + x); n = ex.ghosts["n"]
    for l in ctx.labels:
        for c in ("keys", "pairs", "emitted"):
            if ctx.types[l] == "i64" and l[0] == "phi": out.append(("%s made: %s" % (c, l), lambda v, l=l, c=c: g(v, c) == v[l]))
        if l[0] == "pidx":
            k = ex.ghosts["k"]; out.append(("in range %s" % (l,), lambda v, l=l: z3.ULE(v[l], n)))
            out.append(("supported before %s" % (l,), lambda v, l=l: z3.Implies(z3.ULT(k, v[l]), z3.And(SIZE(k) == 1, TOK(k) == z3.If(NEG(k), ex.ghosts["ne"], ex.ghosts["eq"]), DESIG(2 * k), DESIG(2 * k + 1)))))
            out.append(("same types before %s" % (l,), lambda v, l=l: z3.Implies(z3.ULT(k, v[l]), pipe.ETYPE(2 * k) == pipe.ETYPE(2 * k + 1))))
            for c in ("keys", "pairs"): out.append(("%s made: %s" % (c, l), lambda v, l=l, c=c: g(v, c) == v[l]))
        if ctx.types[l] == "i64" and l[0] == "phi":
            out.append(("in range %s" % (l,), lambda v, l=l: z3.ULE(v[l], n)))
            if "m" in ex.ghosts: out.append(("stored %s" % (l,), lambda v, l=l: g(v, "stored") == z3.If(z3.And(FOUND(ex.ghosts.get("k", bv(0))), z3.ULT(ex.ghosts.get("k", bv(0)), v[l])), bv(1), bv(0))))
        if l[0] == "cell" and ctx.types[l] == "p" and l[1].startswith("vheap") and "exprs" in ex.ghosts and l[2] in (cv(ex.ghosts["exprs"]), cv(ex.ghosts["exprs"]) + 8):
            end = l[2] != cv(ex.ghosts["exprs"]); out.append(("grown %s" % (l,), lambda v, l=l, end=end: ex.p2i(v[l]) == z3.If(g(v, "pairs") == 0, bv(0), ex.p2i(v.glob("g_vec")) + (16 * g(v, "pairs") if end else 0))))
    out.append(("as many", lambda v: g(v, "keys") == g(v, "pairs"))); out.append(("none pending", lambda v: g(v, "pend") == 0))
    return out
ALL = CON + COMMON + [c for x in CCON.values() for c in x] + [(r"^(m::)?supports_simple_hash_join\(", ""), (r"^m::cnf::CNF::is_equi\(", "")]
PARTS = [dict(deadline=500, tu="P07.cpp", opts=opts, roots=pipe.ROOTS, keep=pipe.KEEP + tuple(r for r, _ in ALL), flags=("-UM_ENABLE_SANITY_FIELDS",), native=False)]
REPLAY_SQL = ["hashjoin"]
FUNCTIONS = ["Pipeline::operator()(const JoinOperator&) (simple hash join)", "Interpreter::operator()(const JoinOperator&)", "supports_simple_hash_join, CNF::is_equi, Clause::is_equi, Predicate::is_equi", "SimpleHashJoinData::SimpleHashJoinData, load_build_key, load_probe_key, key_has_null", "JoinData::emit_load_attrs", "Block::the_iterator, begin, end, fill, mask, operator[]"]
TRUSTED = ["by contract: RefCountingHashMap (for_all calls back once for every entry with an equal key; insert_with_duplicates keeps what is there), KeyHash and KeyEqual (T01)", "by contract: the program loading the attributes of a row copies them, the program of a key computes it (V01, V02); Tuple::clone yields an equal tuple (proved in T01)", "by contract: Expr::get_required, the intersection of schemas, Schema::find, Schema::add, pooling of strings, std::vector::emplace_back", "by contract: cnf::Predicate::expr and negative (the tagged pointer)", "by contract: constructors of Schema, Tuple and StackMachine, Catalog::Get"]
ASSUMPTIONS = ["the comparisons of the predicate have operands of opposite inputs of the join, as the join graph has it", "fewer than 64 attributes of the key, at most 64 attributes of a row (the width of the NULL mask), fewer than 2^16 clauses", "joins have two inputs, as the optimizer makes them", "induction over the blocks of the inputs by hand"]

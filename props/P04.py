import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from agg import *
def frame(ctx):
    if "keys" in ctx.ex.ghosts: return group_frame(ctx)
    ex = ctx.ex; a, n = ex.ghosts["a"], ex.ghosts["n"]; out = []
    g = lambda v, x: v.glob("g_" + x)
    for l in ctx.labels:
        if ctx.types[l] != "i64" or l[0] == "cell" and l[1].startswith("g_") or l[0] == "phi" and not w64(ctx.entry[l]): continue
        out.append(("%s: programs made" % (l,), lambda v, l=l: g(v, "made") == v[l])); out.append(("%s <= n" % (l,), lambda v, l=l: z3.ULE(v[l], n)))
        out.append(("%s: arguments done" % (l,), lambda v, l=l: z3.And(g(v, "stored") == v[l], g(v, "filled") == v[l])))
        out.append(("%s: started" % (l,), lambda v, l=l: z3.Implies(z3.UGT(v[l], a), z3.And(started(v)))))
    out.append(("at most one argument", lambda v: z3.ULE(g(v, "stored"), 1)))
    out.append(("arguments of the aggregate", lambda v: z3.ULE(g(v, "stored"), NARGS(g(v, "made")))))
    for x in ("pending", "stored", "filled", "sized"): out.append(("no %s" % x, lambda v, x=x: g(v, x) == 0))
    out.append(("as many types as arguments", lambda v: g(v, "stored") == g(v, "filled")))
    return out
def group_frame(ctx):
    ex = ctx.ex; n, keys = ex.ghosts["n"], ex.ghosts["keys"]; out = []; g = lambda v, x: v.glob("g_" + x)
    for l in ctx.labels:
        if ctx.types[l] != "i64" or l[0] == "cell" and l[1].startswith("g_") or l[0] == "phi" and not w64(ctx.entry[l]): continue
        out.append(("%s: programs made" % (l,), lambda v, l=l: g(v, "made") == v[l])); out.append(("%s: keys made" % (l,), lambda v, l=l: g(v, "keys_made") == v[l])); out.append(("%s <= n" % (l,), lambda v, l=l: z3.ULE(v[l], n))); out.append(("%s <= keys" % (l,), lambda v, l=l: z3.ULE(v[l], keys)))
        out.append(("%s: arguments done" % (l,), lambda v, l=l: z3.And(g(v, "stored") == v[l], g(v, "filled") == v[l])))
    out.append(("at most one argument", lambda v: z3.ULE(g(v, "stored"), 1))); out.append(("arguments of the aggregate", lambda v: z3.ULE(g(v, "stored"), NARGS(g(v, "made")))))
    for x in ("pending", "stored", "filled", "sized"): out.append(("no %s" % x, lambda v, x=x: g(v, x) == 0))
    out.append(("program for the key", lambda v: z3.Implies(g(v, "keys_made") != 0, g(v, "keysm") == ex.ghosts["keysm"])))
    out.append(("as many types as arguments", lambda v: g(v, "stored") == g(v, "filled")))
    return out
def started(v):
    null, val, num = state(v); want = asb(v.ex.ghosts["startnull"])
    return [null == want, z3.Or(null, val == 0), num == 0]
def opts(root):
    def templates(ctx):
        if root in ("prove_frame", "prove_group_frame"): return frame(ctx)
        ex = ctx.ex; m = ex.ghosts["mask"]; a = ex.ghosts["a"]; out = set_templates(sets=[("mask", m)])(ctx)
        sets = [(n, x, c) for n, x, c in terms(ctx)]
        out.append(("only MIN and MAX are NULL", lambda v: z3.Or(asb(ex.ghosts["nullable"]), z3.Not(state(v)[0]))))
        for n, x, c in sets:
            if not c: continue
            out.append(("%s is the rest" % n, lambda v, x=x: z3.Implies(x(v) != 0, suffix(m, x(v)))))
            out.append(("%s to be done" % n, lambda v, x=x: want(ex, state(v), x(v))))
            out.append(("%s <= n" % n, lambda v, x=x: z3.ULE(x(v), ex.ghosts["n"])))
            for n2, y, c2 in sets:
                if n != n2: out.append(("%s aggregates done of the first of %s" % (n, n2), lambda v, x=x, y=y: want(ex, state(v), z3.If(z3.UGT(x(v), a), y(v) & (y(v) - 1), y(v)))))
        return out
    o = dict(pipe.OPTS, templates=templates, lazy_cttz=True, load_hook=load_hook, expr_field=expr_field, vintr=dict(pipe.OPTS["vintr"], __v_tuples=vtuples), contracts=[(r"^m::Schema::Schema\(\)", "stub_schema"), (r"^m::Tuple::Tuple\(m::Schema const&\)", "stub_tuple_schema"), (r"^std::(__cxx11::)?(basic_)?ostringstream(<.*>)?::~?(basic_)?ostringstream\(", pipe.noop), (r"^m::Catalog::Get\(", "stub_catalog")] + pipe.OPTS["contracts"])
    if root in ("prove_frame", "prove_group_frame"): o["contracts"] = FRAME + o["contracts"]
    return o
FRAME = [(r"^m::StackMachine::emit\(m::ast::Expr const&, unsigned long\)", "stub_emit_arg"), (r"^m::StackMachine::emit_Cast\(", "stub_emit_cast"), (r"^m::StackMachine::emit_St_Tup\(", "stub_emit_store"), (r"^m::Tuple::Tuple\(std::vector", "stub_tuple_types")]
VEC = [(r"std::vector<m::Type const\*.*::push_back\(", "stub_push_type"), (r"std::vector<m::Tuple,.*::emplace_back", "stub_add_args"), (r"std::vector<m::StackMachine,.*::emplace_back", "stub_add_program"), (r"std::vector<unsigned long,.*::resize\(", "stub_resize")]
FRAME += VEC
PARTS = [dict(deadline=500, tu="P04.cpp", opts=opts, roots=pipe.ROOTS, keep=pipe.KEEP + (r"^m::Catalog::Get\(", r"^m::Tuple::Tuple\(m::Schema const&\)", r"^std::(__cxx11::)?(basic_)?ostringstream(<.*>)?::~?(basic_)?ostringstream\(") + tuple(r for r, _ in VEC), flags=("-UM_ENABLE_SANITY_FIELDS",), native=False)]
REPLAY_SQL = ["agg"]
FUNCTIONS = ["Pipeline::operator()(const AggregationOperator&)", "Interpreter::operator()(const AggregationOperator&)", "AggregationData::AggregationData", "Block::the_iterator, begin, end, fill, operator[]", "Tuple::operator[], set, is_null, null, operator=(Tuple&&)"]
TRUSTED = ["by contract: running the compiled argument program stores the value of the argument, converted to the type of the aggregate, or NULL", "by contract: compiling an expression (StackMachine::emit, emit_Cast, emit_St_Tup) and constructors of Schema, Tuple and StackMachine"]
ASSUMPTIONS = ["sums do not overflow 64 bits, fewer than 2^62 rows, fewer than 63 aggregates", "semantic analysis gives AVG a double type, SUM a 64-bit type, and at most one argument to each aggregate", "induction over the blocks of the input by hand: one block continues from any state"]

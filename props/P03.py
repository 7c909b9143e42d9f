import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from sym import bv, T, simp
from tmpl import *
import pipe
def scan(ctx):
    out = []; loaded, fresh, passed = [lambda v, n=n: v.glob(n) for n in ("g_loaded", "g_fresh", "g_passed")]; rows = ctx.ex.ghosts["rows"]; one = bv(1)
    ls = [l for l in ctx.labels if ctx.types[l] == "i64" and l[0] != "cell" and not (l[0] == "phi" and not w64(ctx.entry[l]))]
    ts = [("%s" % (l,), lambda v, l=l: v[l], True) for l in ls] + [(n, lambda v, x=x: x, False) for n, x in [("rows", rows)] + [("inv%d" % i, x) for i, x in enumerate(ctx.inv_vals) if w64(x)]]
    out.append(("none loaded since", lambda v: fresh(v) == 0)); out.append(("all passed on", lambda v: passed(v) == loaded(v)))
    for n1, a, c1 in ts:
        for n2, b, c2 in ts:
            if n1 != n2 and (c1 or c2): out.append(("%s <= %s" % (n1, n2), lambda v, a=a, b=b: z3.ULE(a(v), b(v)))); out.append(("loaded = %s + %s" % (n1, n2), lambda v, a=a, b=b: loaded(v) == a(v) + b(v)))
            if n1 != n2 and c1: out.append(("loaded - passed: %s <= %s" % (n1, n2), lambda v, a=a, b=b: passed(v) + a(v) == loaded(v)))
        out.append(("loaded = %s" % n1, lambda v, a=a: loaded(v) == a(v))); out.append(("passed = %s" % n1, lambda v, a=a: passed(v) == a(v)))
        if c1:
            out.append(("%s <= 64" % n1, lambda v, a=a: z3.ULE(a(v), 64)))
            out.append(("%s fresh" % n1, lambda v, a=a: z3.Implies(z3.ULT(a(v), 64), fresh(v) == (one << a(v)) - 1)))
            out.append(("%s all fresh" % n1, lambda v, a=a: z3.Implies(z3.UGE(a(v), 64), fresh(v) == bv((1 << 64) - 1))))
            out.append(("%s multiple of 64" % n1, lambda v, a=a: z3.Extract(5, 0, a(v)) == 0))
    return out
def opts(root):
    def templates(ctx):
        ex = ctx.ex; k, m = ex.ghosts["k"], ex.ghosts["mask"]; out = set_templates(sets=[("mask", m)])(ctx)
        n = ex.ghosts.get("n"); comp = lambda v: v.glob("g_compiled"); hits = lambda v: v.glob("g_hits"); pend = lambda v: v.glob("g_pending")
        for l in ctx.labels:
            if ctx.types[l] != "i64" or l[0] == "cell" or l[0] == "phi" and not w64(ctx.entry[l]): continue
            if n is not None:
                out.append(("%s compiled" % (l,), lambda v, l=l: v[l] == comp(v)))
                out.append(("%s: number of projections" % (l,), lambda v, l=l: z3.ULE(v[l], n)))
        if "rows" in ex.ghosts: return scan(ctx)
        out.append(("no line open", lambda v: v.glob("g_open") == 0)); out.append(("nothing pending", lambda v: pend(v) == 0))
        for c in (0, 1):
            out.append(("input %d" % c, lambda v, c=c: z3.Implies(comp(v) != 0, v.glob("g_in") == c)))
            out.append(("output %d" % c, lambda v, c=c: z3.Implies(comp(v) != 0, v.glob("g_out") == c)))
        for n1, a, c1 in terms(ctx):
            if c1: out.append(("hits, %s to be done" % n1, lambda v, a=a: hits(v) == z3.If(z3.And(inx(k, m), z3.Not(inx(k, a(v)))), bv(1), bv(0))))
        return out
    o = dict(pipe.OPTS, templates=templates, lazy_cttz=True)
    o["contracts"] = [(r"^m::StackMachine::emit\(m::ast::Expr const&, unsigned long\)", "stub_emit_expr"), (r"^m::StackMachine::emit_St_Tup\(", "stub_emit_store"), (r"^m::Tuple::Tuple\(m::Schema const&\)", "stub_tuple_schema")] + o["contracts"]
    if root == "prove_scan": o["contracts"] = [(r"^m::Schema::Schema\(\)", "stub_schema"), (r"^m::ScanOperator::store\(", "stub_store"), (r"^m::Interpreter::compile_load\(", "stub_compile_load"), (r"^m::StackMachine::operator\(\)\(m::Tuple", "stub_loader"), (r"^m::ConcreteTable::|^m::TableDecorator::schema|^m::Tuple::clear\(", pipe.noop)] + o["contracts"]
    if root == "prove_print": o["contracts"] = [(r"^m::Schema::Schema\(\)", "stub_schema"), (r"^m::StackMachine::operator\(\)\(m::Tuple", "stub_print"), (r"^std::(basic_)?ostream.*operator<<.*, char\)$", "stub_put")] + o["contracts"]
    return o
PARTS = [dict(tu="P03.cpp", opts=opts, roots=pipe.ROOTS, keep=pipe.KEEP + (r"^m::Tuple::Tuple\(m::Schema const&\)", r"^m::ScanOperator::store\(", r"^m::Interpreter::compile_load\(", r"^m::Tuple::clear\(", r"^m::TableDecorator::schema", r"^std::(basic_)?ostream.*operator<<.*, char\)$"))]
PARTS[0]["native"] = False
REPLAY_SQL = ["proj", "scan", "sort"]
FUNCTIONS = ["Pipeline::operator()(const ScanOperator&)", "Pipeline::operator()(const ProjectionOperator&)", "Pipeline::operator()(const CallbackOperator&)", "Pipeline::operator()(const PrintOperator&)", "Pipeline::operator()(const NoOpOperator&)", "ProjectionData::emit_projections", "Block::the_iterator, begin, end, fill, clear, mask, operator[]"]
TRUSTED = ["by contract: the program compiled to load rows loads the next row of the store whenever it is run", "by contract: compiling an expression (StackMachine::emit) and storing its value (emit_St_Tup)", "by contract: constructors of Schema, Tuple and StackMachine, output of a character"]
ASSUMPTIONS = ["fewer than 2^47 rows, fewer than 2^30 projections"]

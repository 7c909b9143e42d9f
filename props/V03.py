import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from sym import bv, cv, T, simp, Ptr, NULL as NULLP
from tmpl import *
import pipe, world
MEMBER = z3.Function("__v_uf_member", pipe.U64, pipe.U64, pipe.U64); PREFIX = z3.Function("__v_uf_prefix", pipe.U64, pipe.U64, pipe.U8)
TRUTH = z3.Function("__v_uf_truth", pipe.U64, pipe.U8)
def lits(s):
    def f(ex, st, i, f, size, ty):
        if f or size != 8: return None
        l = MEMBER(bv(s), i); t = TRUTH(l & ~3); st.assume(z3.And(z3.ULE(t, 2), z3.ULE(PREFIX(bv(s), i), 2), PREFIX(bv(s), i + 1) == mx(PREFIX(bv(s), i), z3.If(l & 1 == 1, 2 - t, t)))); return l
    return f
def clauses(s):
    return lambda ex, st, i, f, size, ty: None
pipe.RECORDS.update(lits0=lits(0), lits1=lits(1), clauses0=clauses(0), clauses1=clauses(1))
def mn(a, b): return z3.If(z3.ULT(a, b), a, b)
def mx(a, b): return z3.If(z3.ULT(a, b), b, a)
def expr_field(ex, st, e, f, size, ty):
    if f in ("lhs", "rhs"): return pipe.expr_ptr(ex, st, bv({"lhs": 1, "rhs": 2}[f]))
    return None
def indices(ctx): return [l for l in ctx.labels if l[0] == "pidx" or (l[0] == "phi" and ctx.types[l] == "i64" and str(ctx.entry[l]) == "0")]
def over(ctx, l, o): return l[0] == "phi" or ctx.entry[("phi", l[1])].alts[0][1] is o
def known(ctx, o):
    """where the loops around this one are: the element of `o` a pointer points to, or a number"""
    ex = ctx.ex; r = []
    for x in ctx.fr.env.values():
        k = None
        if isinstance(x, Ptr): k = ex.index(ctx.estate, x.alts[0][2], 24) if len(x.alts) == 1 and x.alts[0][1] is o and o is not None else None
        elif z3.is_bv(x) and x.size() == 64 and z3.is_const(x): k = x
        if k is not None and not z3.is_bv_value(k) and not any(k.eq(y) for y in r): r.append(k)
    return r
def opts(root):
    def templates(ctx):
        ex = ctx.ex; out = []
        if os.environ.get("DBGL"): print("LABELS", [(l, ctx.types[l], str(ctx.entry[l])[:60]) for l in ctx.labels])
        P = lambda s, i: PREFIX(bv(s), i); V = lambda i: z3.Extract(7, 0, MEMBER(bv(0), i)); m = ex.ghosts.get("m")
        objs = {}
        for l in ctx.labels:
            if l[0] == "cell" and ctx.types[l] == "p": objs.setdefault(l[3], {})[l[2]] = l
        res = [d for d in objs.values() if set(d) == {0, 8, 16}]; idx = indices(ctx)
        outer = known(ctx, ex.roles.get("rec0"))
        for l in idx:
            for b in ("n", "m"):
                if b in ex.ghosts: out.append(("%s at most %s" % (l, b), lambda v, l=l, b=b: z3.ULE(v[l], ex.ghosts[b])))
        for d in res:
            at = lambda x, d=d: (ex.p2i(x[d[8]]), ex.p2i(x[d[16]])); val = lambda x, e=2: z3.If(at(x)[1] == 0, bv(e, 8), z3.Extract(7, 0, at(x)[1]) - 4)
            ok = lambda v: z3.And(ex.p2i(v[d[0]]) == 0, z3.Or(at(v)[1] == 0, z3.And(z3.UGE(at(v)[1], 4), z3.ULE(at(v)[1], 6))), (at(v)[1] == 0) == (at(v)[0] == 0), z3.ULT(at(v)[0], 24 << 32), z3.Or(at(v)[0] == 0, z3.UGE(at(v)[0], 24)))
            if root == "prove_clause_or": ok = lambda v: z3.And(ex.p2i(v[d[0]]) == 0, z3.Or(at(v)[1] == 0, z3.And(z3.UGE(at(v)[1], 4), z3.ULE(at(v)[1], 6))), z3.Or(at(v)[1] != 0, at(v)[0] == 0), z3.ULT(at(v)[0], 8 << 32))
            out.append(("a conjunction", ok))
            for l in idx:
                i = lambda v, l=l: v[l]
                for t in (0, 1):
                    if root == "prove_cnf_and" and over(ctx, l, ex.roles["rec%d" % t]): out.append(("%s taken" % (l,), lambda v, i=i, t=t: z3.And(val(v) == mn(val(ctx.entry), P(t, i(v))), (at(v)[0] == 0) == z3.And(at(ctx.entry)[0] == 0, i(v) == 0))))
                    if root == "prove_clause_or" and over(ctx, l, ex.roles["rec%d" % t]): out.append(("%s taken" % (l,), lambda v, i=i, t=t: z3.And(val(v, 0) == mx(val(ctx.entry, 0), P(t, i(v))), at(v)[0] == at(ctx.entry)[0] + 8 * i(v))))
                if root == "prove_not_clause": out.append(("%s negated" % (l,), lambda v, i=i: z3.And(val(v) == 2 - P(0, i(v)), (at(v)[0] == 0) == (i(v) == 0))))
                if root == "prove_not_cnf": out.append(("%s negated" % (l,), lambda v, i=i: z3.If(i(v) == 0, at(v)[0] == 0, z3.And(val(v) == 2 - P(0, i(v)), at(v)[0] != 0))))
                if root == "prove_cnf_or":
                    out.append(("%s pairs" % (l,), lambda v, i=i: z3.And(val(v) == mx(P(0, i(v)), P(1, m)), (at(v)[0] == 0) == (i(v) == 0))))
                    for k in outer:
                        if over(ctx, l, ex.roles["rec1"]): out.append(("%s pairs of one" % (l,), lambda v, i=i, k=k: z3.And(val(v) == mn(val(ctx.entry), mx(V(k), P(1, i(v)))), (at(v)[0] == 0) == z3.And(at(ctx.entry)[0] == 0, i(v) == 0))))
        return out
    def facts(ctx):
        P = lambda i: PREFIX(bv(0), i); V = lambda i: MEMBER(bv(0), i)
        return [lambda v, l=l: z3.And(z3.ULE(V(v[l]), 2), z3.ULE(P(v[l]), 2), P(v[l] + 1) == mn(P(v[l]), z3.Extract(7, 0, V(v[l])))) for l in indices(ctx) if root == "prove_cnf_or"]
    own = dict(prove_clause_or=r"^m::cnf::operator\|\|\(m::cnf::Clause", prove_cnf_and=r"^m::cnf::operator&&\(m::cnf::CNF", prove_cnf_or=r"^m::cnf::operator\|\|\(m::cnf::CNF", prove_not_clause=r"^m::cnf::operator!\(m::cnf::Clause", prove_not_cnf=r"^m::cnf::operator!\(m::cnf::CNF").get(root)
    return dict(vintr=pipe.OPTS["vintr"], dyncast=pipe.dyncast, load_hook=pipe.load_hook, expr_field=expr_field, templates=templates, facts=facts, contracts=[c for c in CON if c[0] != own])
VP, VC = r"vector<m::cnf::Predicate, std::allocator<m::cnf::Predicate>>::", r"vector<m::cnf::Clause, std::allocator<m::cnf::Clause>>::"
CON = [(VP + "reserve\\(", "stub_reserve"), (VC + "reserve\\(", "stub_reserve"), (VP + "insert<", "stub_insert_lits"), (VC + "insert<", "stub_insert_clauses"), (VC + "(push_back|emplace_back<.*>)\\(", "stub_push_clause"), (VP + "(push_back|emplace_back<.*>)\\(", "stub_push_lit"),
    (VP + "vector\\(std::initializer_list", "stub_list_lits"), (VC + "vector\\(std::initializer_list", "stub_list_clauses"), (VC + "vector\\(std::vector<m::cnf::Clause, std::allocator<m::cnf::Clause>> const&\\)", "stub_copy_cnf"), (VP + "vector\\(std::vector<m::cnf::Predicate, std::allocator<m::cnf::Predicate>> const&\\)", "stub_copy_clause"), (VC + "~vector\\(", "stub_no_cnf"), (VC + r"operator=\(std::vector<m::cnf::Clause, std::allocator<m::cnf::Clause>>( const)?&&?\)", "stub_move_cnf"),
    (r"^m::cnf::operator\|\|\(m::cnf::Clause", "stub_clause_or"), (r"^m::cnf::operator!\(m::cnf::Clause", "stub_not_clause"), (r"^m::cnf::operator&&\(m::cnf::CNF", "stub_cnf_and"), (r"^m::cnf::operator\|\|\(m::cnf::CNF", "stub_cnf_or"), (r"^m::cnf::operator!\(m::cnf::CNF", "stub_cnf_not"),
    (r"Visitor.*::operator\(\)\(m::ast::Expr const&\)", "stub_visit"), (r"^m::ast::(Binary|Unary)Expr::op\(\)", "stub_op"), (r"^m::ast::Token::~Token\(", "stub_no_token"), (r"^m::ast::Token::Token\(m::ast::Token (const)?&&?\)", "stub_copy_token")]
OFF, LEN = [z3.Function("__v_uf_" + x, pipe.U64, pipe.U64) for x in ("litoff", "litlen")]; LIT = z3.Function("__v_uf_lit", pipe.U64, pipe.U64); LP = z3.Function("__v_uf_litprefix", pipe.U64, pipe.U64, pipe.U8)
def shape(ex, i): return z3.And(z3.ULT(OFF(i), 1 << 40), LEN(i) != 0, z3.ULT(LEN(i), 1 << 24), z3.ULE(OFF(i) + LEN(i), ex.ghosts["nl"]), LP(i, bv(0)) == 0)
def clauses2(ex, st, i, f, size, ty):
    if f not in (0, 8) or size != 8: return None
    st.assume(shape(ex, i)); return Ptr.mk(ex.roles["lits"], simp((OFF(i) if f == 0 else OFF(i) + LEN(i)) * bv(8)))
def lits2(ex, st, i, f, size, ty): return LIT(i) if f == 0 and size == 8 else None
pipe.RECORDS.update(clauses=clauses2, lits=lits2)
def value(l): return z3.If(l & 1 == 1, 2 - TRUTH(l & ~3), TRUTH(l & ~3))
def opts2(root):
    def facts(ctx):
        ex = ctx.ex; P = lambda i: PREFIX(bv(0), i); out = []
        for l in indices(ctx):
            if over(ctx, l, ex.roles["clauses"]): out.append(lambda v, l=l: z3.And(z3.ULE(P(v[l]), 2), z3.ULE(LP(v[l], LEN(v[l])), 2), P(v[l] + 1) == mn(P(v[l]), LP(v[l], LEN(v[l])))))
            if over(ctx, l, ex.roles["lits"]):
                for k in known(ctx, ex.roles["clauses"]): out.append(lambda v, l=l, k=k: z3.Implies(z3.ULT(v[l], LEN(k)), z3.And(z3.ULE(TRUTH(LIT(OFF(k) + v[l]) & ~3), 2), z3.ULE(LP(k, v[l]), 2), LP(k, v[l] + 1) == mx(LP(k, v[l]), value(LIT(OFF(k) + v[l]))))))
        return out
    def templates(ctx):
        ex = ctx.ex; out = []; g = lambda v, x: v.glob("g_" + x) if x == "depth" else v.glob("g_" + x, 1); P = lambda i: PREFIX(bv(0), i)
        if os.environ.get("DBGL"): print("LABELS", [(l, ctx.types[l], str(ctx.entry[l])[:60]) for l in ctx.labels])
        one = lambda c: z3.If(c, bv(1), bv(0))
        for l in indices(ctx):
            if over(ctx, l, ex.roles["clauses"]):
                out.append(("clauses so far", lambda v, l=l: z3.And(z3.ULE(v[l], ex.ghosts["n"]), g(v, "depth") == one(v[l] != 0), z3.Or(v[l] == 0, g(v, "top") == P(v[l])))))
            if over(ctx, l, ex.roles["lits"]):
                for k in known(ctx, ex.roles["clauses"]): out.append(("literals so far", lambda v, l=l, k=k: z3.And(z3.ULE(v[l], LEN(k)), g(v, "depth") == one(k != 0) + one(v[l] != 0), z3.If(v[l] == 0, z3.Or(k == 0, g(v, "top") == P(k)), z3.And(g(v, "top") == LP(k, v[l]), z3.Or(k == 0, g(v, "below") == P(k)))))))
        return out
    return dict(vintr=pipe.OPTS["vintr"], load_hook=pipe.load_hook, templates=templates, facts=facts, contracts=CON2)
CON2 = [(r"^m::StackMachine::emit\(m::ast::Expr const&, unsigned long\)", "stub_emit_id"), (r"^m::StackMachine::emit\(m::ast::Expr const&, std::vector", "stub_emit_schemas"), (r"vector<m::StackMachine::Opcode.*::(push_back|emplace_back<.*>)\(", "stub_push_op")]
PARTS = [dict(tu="V03b.cpp", opts=opts2, roots=pipe.ROOTS, keep=tuple(r for r, _ in CON2), native=False), dict(tu="V03.cpp", opts=opts, roots=pipe.ROOTS, keep=tuple(r for r, _ in CON), native=False)]
REPLAY_SQL = ["logic"]
FUNCTIONS = ["cnf::to_CNF", "CNFGenerator::operator() for every kind of expression but ErrorExpr (Designator, Constant, FnApplicationExpr, QueryExpr, UnaryExpr, BinaryExpr)", "cnf::operator||(Clause, Clause)", "cnf::operator&&(Clause, Clause)", "cnf::operator&&(CNF, CNF)", "cnf::operator||(CNF, CNF)", "cnf::operator!(Clause)", "cnf::operator!(CNF)", "cnf::Predicate::Create, Positive, Negative, negative, expr, operator!", "StackMachine::emit(const cnf::CNF&, std::size_t)", "StackMachine::emit(const cnf::CNF&, std::vector<Schema>&, std::vector<std::size_t>&)"]
TRUSTED = ["by contract: std::vector (reserve, insert of a range, push_back, emplace_back, copy, initializer lists) of literals, clauses and operations", "by contract: the visitor dispatches to the operator() of the expression's kind, each of which is proved", "by contract: the program of a literal pushes the value of its expression (V01 proves the operations)", "ast::Token copies"]
ASSUMPTIONS = ["the truth value of AND, OR, NOT, = and != over operands is SQL's three-valued one", "expressions are at least 4-byte aligned, so that the sign of a literal fits its pointer", "conjunctions and clauses have fewer than 2^24 members", "clauses and conjunctions that are not empty (those made by to_CNF are proved not to be)", "induction over the expression by hand: an operand is normalised by contract"]

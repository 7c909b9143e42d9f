// Conditions keep their meaning: truth values (FALSE < NULL < TRUE) of an arbitrary assignment to the literals are followed.
#include "IR/CNF.cpp"
#include "catalog/Type.cpp"
#include "v.hpp"
using Cl = cnf::Clause;
extern "C" {
const Type * __v_type(uint64_t); const ast::Expr * __v_expr(uint64_t); void * __v_records(uint64_t n, uint64_t size, const char *kind); void __v_layout(uint64_t off, const char *field); uint64_t __v_uf_exprtype(uint64_t); uint8_t __v_uf_kind(uint64_t); uint64_t __v_index(const void *, const void *start, uint64_t size);
uint8_t __v_uf_truth(uint64_t expr);                                      // what an expression (its address) evaluates to
uint64_t __v_uf_member(uint64_t side, uint64_t i); uint8_t __v_uf_prefix(uint64_t side, uint64_t i);   // the i-th literal of a clause, or what the i-th clause of a conjunction evaluates to; what the first i evaluate to together
}
enum : uint8_t { F = 0, N = 1, T = 2 };
static uint8_t both(uint8_t a, uint8_t b) { return a < b ? a : b; }
static uint8_t either(uint8_t a, uint8_t b) { return a < b ? b : a; }
static uint8_t inv(uint8_t a) { return T - a; }
static uint8_t truth(uint64_t e) { uint8_t t = __v_uf_truth(e); __v_assume(t <= T); return t; }
static uint8_t literal(uint64_t l) { uint8_t t = truth(l & ~3UL); return l & 1 ? inv(t) : t; }
// a clause or a conjunction made: how many members it has, and what it evaluates to (0 if it is empty)
template<class V> static uint8_t meaning(const V *v, uint8_t empty) { uint64_t c = uint64_t(v->_M_impl._M_end_of_storage); return c ? c - 4 : empty; }
template<class V> static void make(V *v, uint64_t n, uint8_t t) { auto &I = v->_M_impl; I._M_start = nullptr; I._M_finish = decltype(I._M_finish)(n * sizeof(*I._M_finish)); I._M_end_of_storage = decltype(I._M_finish)(uint64_t(t) + 4); }
static uint8_t value(const Cl *c) { return meaning(c, F); }
static uint8_t value(const cnf::CNF *c) { return meaning(c, T); }
static Cl g_c[2]; static cnf::CNF g_d[2];
static uint64_t many() { uint64_t n = __v_nondet_u64(); __v_assume(n and n < 1UL << 32); return n; }
extern "C" {
uint64_t g_n[2]; uint8_t g_neg; void *g_rec[2];
static uint8_t member(uint64_t s, uint64_t i, bool clause) { uint64_t m = __v_uf_member(s, i); uint8_t t; if (clause) t = literal(m); else { t = m; __v_assume(m <= T); } uint8_t p = __v_uf_prefix(s, i), q = __v_uf_prefix(s, i + 1); __v_assume(p <= T and q == (clause ? either(p, t) : both(p, t))); if (i == 0) __v_assume(p == (clause ? F : T)); return t; }
/*----- vectors, by contract ----------------------------------------------------------------------------------------------*/
void stub_reserve(void*, uint64_t) { }
static uint8_t all(uint64_t s) { uint8_t p = __v_uf_prefix(s, g_n[s]); __v_assume(p <= T); return p; }
void * stub_insert_lits(Cl *v, void *pos, const cnf::Predicate *a, const cnf::Predicate *b) {
    __v_assert(a == g_rec[0] or a == g_rec[1], "the literals of a clause are taken"); if (a == g_rec[0] and b == (cnf::Predicate*) g_rec[0] + g_n[0]) make(v, v->size() + g_n[0], either(value(v), all(0))); else { __v_assert(a == g_rec[1] and b == (cnf::Predicate*) g_rec[1] + g_n[1], "all literals are taken"); make(v, v->size() + g_n[1], either(value(v), all(1))); } return nullptr;
}
void * stub_insert_clauses(cnf::CNF *v, void *pos, const Cl *a, const Cl *b) {
    __v_assert(a == g_rec[0] or a == g_rec[1], "the clauses of a conjunction are taken"); if (a == g_rec[0] and b == (Cl*) g_rec[0] + g_n[0]) make(v, v->size() + g_n[0], both(value(v), all(0))); else { __v_assert(a == g_rec[1] and b == (Cl*) g_rec[1] + g_n[1], "all clauses are taken"); make(v, v->size() + g_n[1], both(value(v), all(1))); } return nullptr;
}
static uint8_t clause(const Cl *c) {
    uint64_t i = __v_index(c, g_rec[0], sizeof(Cl)), j = __v_index(c, g_rec[1], sizeof(Cl));
    if (i < g_n[0] and c == (Cl*) g_rec[0] + i) return member(0, i, false); if (j < g_n[1] and c == (Cl*) g_rec[1] + j) return member(1, j, false); return value(c);
}
static bool fits(const Cl *c) { uint64_t i = __v_index(c, g_rec[0], sizeof(Cl)), j = __v_index(c, g_rec[1], sizeof(Cl)); return (i < g_n[0] and c == (Cl*) g_rec[0] + i) or (j < g_n[1] and c == (Cl*) g_rec[1] + j) or c->size(); }
void stub_push_clause(cnf::CNF *v, const Cl *c) { __v_assert(fits(c), "clauses are not empty"); make(v, many(), both(value(v), clause(c))); }
void stub_push_lit(Cl *v, const cnf::Predicate *p) { make(v, v->size() + 1, either(value(v), literal(*(const uint64_t*) p))); }
void stub_list_lits(Cl *v, const cnf::Predicate *p, uint64_t n, void *alloc) { __v_assert(n == 1, "a clause of one literal"); make(v, 1, literal(*(const uint64_t*) p)); }
void stub_list_clauses(cnf::CNF *v, const Cl *c, uint64_t n, void *alloc) { __v_assert(n == 1, "a conjunction of one clause"); make(v, 1, value(c)); }
static uint8_t conj(const cnf::CNF *c) { return c == &g_d[0] ? all(0) : c == &g_d[1] ? all(1) : value(c); }
void stub_copy_cnf(cnf::CNF *v, const cnf::CNF *c) { uint8_t t = conj(c); make(v, c->size(), t); }
void stub_copy_clause(Cl *v, const Cl *c) { uint8_t t = clause(c); bool f = fits(c); make(v, f ? many() : 0, t); }
void stub_no_cnf(cnf::CNF*) { }
cnf::CNF * stub_move_cnf(cnf::CNF *v, cnf::CNF *c) { uint8_t t = conj(c); make(v, c->size(), t); return v; }
/*----- operations proved here, by contract of the others ---------------------------------------------------------------*/
void stub_clause_or(Cl *ret, const Cl *a, const Cl *b) { make(ret, many(), either(clause(a), clause(b))); }
void stub_not_clause(cnf::CNF *ret, const Cl *c) { __v_assert(fits(c), "clauses are not empty"); make(ret, many(), inv(clause(c))); }
void stub_cnf_and(cnf::CNF *ret, const cnf::CNF *a, const cnf::CNF *b) { make(ret, many(), both(value(a), value(b))); }
void stub_cnf_or(cnf::CNF *ret, const cnf::CNF *a, const cnf::CNF *b) { if (a->size() == 0) make(ret, b->size(), value(b)); else if (b->size() == 0) make(ret, a->size(), value(a)); else make(ret, many(), either(value(a), value(b))); }
void stub_cnf_not(cnf::CNF *ret, const cnf::CNF *a) { __v_require(a->size(), "the conjunction negated is not empty"); make(ret, many(), inv(value(a))); }
}
static void side(uint64_t s, const char *n, bool clause, auto *v) {
    g_n[s] = IN64(n); __v_assume(g_n[s] < 1UL << 24); __v_name(g_n[s], n); g_rec[s] = __v_records(g_n[s], clause ? 8 : sizeof(Cl), clause ? (s ? "lits1" : "lits0") : (s ? "clauses1" : "clauses0")); __v_role(g_rec[s], s ? "rec1" : "rec0");
    auto &I = v->_M_impl; I._M_start = decltype(I._M_start)(g_rec[s]); I._M_finish = I._M_start + g_n[s]; I._M_end_of_storage = nullptr; all(s);
}
template<class V> static V * fresh() { return (V*) __v_heap(sizeof(V), 0); }
static void base(uint64_t s, bool clause) { __v_assume(__v_uf_prefix(s, 0) == (clause ? F : T)); }
ROOT prove_clause_or() { side(0, "n", true, &g_c[0]); side(1, "m", true, &g_c[1]); base(0, true); base(1, true); auto r = g_c[0] or g_c[1]; __v_assert(value(&r) == either(all(0), all(1)), "the disjunction of both clauses"); __v_assert(r.size() == g_n[0] + g_n[1], "of all literals"); __v_cover("end"); }
ROOT prove_clause_and() { g_rec[0] = g_rec[1] = nullptr; g_n[0] = g_n[1] = 0; uint8_t a = IN64("a") % 3, b = IN64("b") % 3; make(&g_c[0], 1, a); make(&g_c[1], 1, b); auto r = fresh<cnf::CNF>(); new (r) cnf::CNF(g_c[0] and g_c[1]); __v_assert(value(r) == both(a, b), "the conjunction of both clauses"); __v_cover("end"); }
ROOT prove_cnf_and() { side(0, "n", false, &g_d[0]); side(1, "m", false, &g_d[1]); auto r = fresh<cnf::CNF>(); base(0, false); base(1, false); new (r) cnf::CNF(g_d[0] and g_d[1]); __v_assert(value(r) == both(all(0), all(1)), "the conjunction of both"); __v_cover("end"); }
ROOT prove_cnf_or() {
        side(0, "n", false, &g_d[0]); side(1, "m", false, &g_d[1]); auto r = fresh<cnf::CNF>(); base(0, false); base(1, false); new (r) cnf::CNF(g_d[0] or g_d[1]);
    __v_assert(value(r) == (g_n[0] == 0 ? all(1) : g_n[1] == 0 ? all(0) : either(all(0), all(1))), "the disjunction of both"); __v_assert(g_n[0] == 0 or g_n[1] == 0 or r->size(), "not empty"); __v_cover("end");
}
ROOT prove_not_clause() { side(0, "n", true, &g_c[0]); base(0, true); auto r = fresh<cnf::CNF>(); new (r) cnf::CNF(not g_c[0]); __v_assert(value(r) == inv(all(0)), "the negation of the clause"); __v_assert((r->size() == 0) == (g_n[0] == 0), "empty if the clause is"); __v_cover("end"); }
ROOT prove_not_cnf() { side(0, "n", false, &g_d[0]); __v_assume(g_n[0]); base(0, false); g_rec[1] = nullptr; g_n[1] = 0; auto r = fresh<cnf::CNF>(); new (r) cnf::CNF(not g_d[0]); __v_assert(value(r) == inv(all(0)), "the negation of the conjunction"); __v_assert(r->size() != 0, "not empty"); __v_cover("end"); }
/*----- from expressions ------------------------------------------------------------------------------------------------*/
extern "C" {
void stub_visit(CNFGenerator *g, const ast::Expr *e) { uint8_t t = truth(uint64_t(e)); make(&g->result_, many(), g->is_negative_ ? inv(t) : t); }
uint64_t __v_uf_tok(uint64_t);
void stub_op(ast::Token *ret, const ast::Expr *e) { ret->type = TokenType(__v_uf_tok(__v_index(e, __v_expr(0), 256))); }
void stub_no_token(ast::Token*) { }
void stub_copy_token(ast::Token *a, const ast::Token *b) { a->type = b->type; }
}
static CNFGenerator * generator() { auto g = (CNFGenerator*) __v_heap(sizeof(CNFGenerator), 0); new (g) CNFGenerator; g->is_negative_ = __v_nondet_bool(); g_neg = g->is_negative_; g_rec[0] = g_rec[1] = nullptr; g_n[0] = g_n[1] = 0; __v_layout(offsetof(ast::Expr, type_), "type"); __v_layout(offsetof(ast::BinaryExpr, lhs), "lhs"); __v_layout(offsetof(ast::BinaryExpr, rhs), "rhs"); static_assert(offsetof(ast::UnaryExpr, expr) == offsetof(ast::BinaryExpr, lhs)); return g; }
template<class E> static void visit(uint8_t want, CNFGenerator *g, const ast::Expr *e) {
    g->CNFGenerator::operator()(*(const E*) e); __v_assert(value(&g->result_) == (g_neg ? inv(want) : want), "the condition keeps its meaning, or is negated where asked"); __v_assert(g->result_.size() != 0, "the result is not empty"); __v_assert(g->is_negative_ == g_neg, "the polarity is restored"); __v_cover("end");
}
template<class E> static void leaf() { auto g = generator(); auto e = __v_expr(0); __v_assume(uint64_t(e) % 8 == 0); visit<E>(truth(uint64_t(e)), g, e); }
ROOT prove_designator() { leaf<ast::Designator>(); }
ROOT prove_constant() { leaf<ast::Constant>(); }
ROOT prove_function() { leaf<ast::FnApplicationExpr>(); }
ROOT prove_query() { leaf<ast::QueryExpr>(); }
ROOT prove_binary() {
    auto g = generator(); auto e = __v_expr(0); __v_assume(uint64_t(e) % 8 == 0); uint64_t l = uint64_t(__v_expr(1)), r = uint64_t(__v_expr(2)); uint8_t a = truth(l), b = truth(r), t = truth(uint64_t(e)), eq = both(either(inv(a), b), either(inv(b), a)); uint64_t k = __v_uf_tok(0);
    if (__v_uf_kind(__v_uf_exprtype(1)) == 3 and __v_uf_kind(__v_uf_exprtype(2)) == 3) { __v_assume(k == TK_And or k == TK_Or or k == TK_EQUAL or k == TK_BANG_EQUAL); __v_assume(t == (k == TK_And ? both(a, b) : k == TK_Or ? either(a, b) : k == TK_EQUAL ? eq : inv(eq))); }
    visit<ast::BinaryExpr>(t, g, e);
}
ROOT prove_unary() {
    auto g = generator(); auto e = __v_expr(0); __v_assume(uint64_t(e) % 8 == 0); uint8_t a = truth(uint64_t(__v_expr(1))), t = truth(uint64_t(e)); if (TokenType(__v_uf_tok(0)) == TK_Not) __v_assume(t == inv(a)); visit<ast::UnaryExpr>(t, g, e);
}
ROOT prove_to_CNF() { g_rec[0] = g_rec[1] = nullptr; g_n[0] = g_n[1] = 0; auto e = __v_expr(0); __v_assume(uint64_t(e) % 8 == 0); uint8_t t = truth(uint64_t(e)); auto r = fresh<cnf::CNF>(); new (r) cnf::CNF(cnf::to_CNF(*e)); __v_assert(value(r) == t, "the condition keeps its meaning"); __v_assert(r->size() != 0, "not empty"); __v_cover("end"); }

// A conjunction of clauses compiled: running the program leaves the truth value of the conjunction.
#include "backend/StackMachine.cpp"
#include "v.hpp"
using Cl = cnf::Clause;
extern "C" {
void * __v_records(uint64_t n, uint64_t size, const char *kind);
uint8_t __v_uf_truth(uint64_t expr); uint8_t __v_uf_prefix(uint64_t side, uint64_t i);      // what an expression (its address) evaluates to; what the first i clauses of the conjunction evaluate to together
}
enum : uint8_t { F = 0, N = 1, T = 2 };
static uint8_t both(uint8_t a, uint8_t b) { return a < b ? a : b; }
static uint8_t either(uint8_t a, uint8_t b) { return a < b ? b : a; }
extern "C" {
uint64_t g_depth; uint8_t g_top, g_below, g_third; uint64_t g_n, g_l; void *g_clauses, *g_lits; const void *g_with, *g_ids; uint64_t g_id;
static void push(uint64_t e) { uint8_t t = __v_uf_truth(e); __v_assume(t <= T); __v_assert(g_depth < 3, "at most three values are held"); g_third = g_below; g_below = g_top; g_top = t; ++g_depth; }
static void pop() { g_below = g_third; --g_depth; }
void stub_emit_id(void*, const ast::Expr *e, uint64_t id) { __v_assert(id == g_id, "the tuple asked for"); push(uint64_t(e)); }
void stub_emit_schemas(void*, const ast::Expr *e, const void *s, const void *ids) { __v_assert(s == g_with and ids == g_ids, "the schemas asked for"); push(uint64_t(e)); }
void stub_push_op(void*, const StackMachine::Opcode *o) {
    switch (*o) {
        case StackMachine::Opcode::Not_b: __v_assert(g_depth >= 1, "one operand"); g_top = T - g_top; break;
        case StackMachine::Opcode::Or_b: __v_assert(g_depth >= 2, "two operands"); g_top = either(g_below, g_top); pop(); break;
        case StackMachine::Opcode::And_b: __v_assert(g_depth >= 2, "two operands"); g_top = both(g_below, g_top); pop(); break;
        default: __v_assert(false, "only negations, disjunctions and conjunctions");
    }
}
}
static StackMachine * begin(cnf::CNF *c) {
    g_n = IN64("n"); g_l = IN64("literals"); __v_assume(g_n < 1UL << 24 and g_l < 1UL << 40); __v_name(g_n, "n"); __v_name(g_l, "nl"); g_clauses = __v_records(g_n, sizeof(Cl), "clauses"); g_lits = __v_records(g_l, 8, "lits"); __v_role(g_clauses, "clauses"); __v_role(g_lits, "lits");
    auto &I = c->_M_impl; I._M_start = (Cl*) g_clauses; I._M_finish = I._M_start + g_n; g_depth = 0; __v_assume(__v_uf_prefix(0, 0) == T); return (StackMachine*) __v_heap(sizeof(StackMachine), 0);
}
static void end() { __v_assert(g_depth == (g_n != 0), "one value is left"); __v_assert(g_n == 0 or g_top == __v_uf_prefix(0, g_n), "the value of the conjunction"); __v_cover("end"); }
ROOT prove_emit() { static cnf::CNF c; auto M = begin(&c); g_id = IN64("id"); M->emit(c, g_id); end(); }
ROOT prove_emit_schemas() { static cnf::CNF c; auto M = begin(&c); auto s = (std::vector<Schema>*) __v_heap(24, 0); auto ids = (std::vector<std::size_t>*) __v_heap(24, 0); g_with = s; g_ids = ids; M->emit(c, *s, *ids); end(); }

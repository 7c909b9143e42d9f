// Filters keep exactly the tuples on which the condition is TRUE.
#include "pipe.hpp"
extern "C" {
// the program compiled: the condition on a tuple of the argument list, stored to an attribute of a tuple of that list
uint64_t g_in, g_out, g_slot, g_programs;
void stub_emit_cnf(StackMachine*, const cnf::CNF*, std::size_t tuple_id) { g_in = tuple_id; g_programs |= 1; }
void stub_emit_result(StackMachine*, std::size_t tuple_id, std::size_t index) { __v_assert(g_programs == 1, "the condition is compiled before its result is stored"); g_out = tuple_id; g_slot = index; g_programs |= 2; }
void stub_run(const StackMachine *sm, Tuple **args) {
    __v_assert(g_programs == 3, "the program evaluates the condition and stores its result"); const Tuple *t = args[g_in]; uint64_t r = row(t); __v_assert(r < 64 and uint64_t(t) == g_base + r * TS, "the condition is evaluated on a tuple of the block");
    if (__v_uf_null(r, 0)) args[g_out]->null(g_slot); else args[g_out]->set(g_slot, Value(__v_uf_bool(r, 0)));
}
}
static bool holds(uint64_t r) { return not __v_uf_null(r, 0) and __v_uf_bool(r, 0); }
ROOT prove_filter() {
    auto p = pipeline(); auto op = new FilterOperator(cnf::CNF()); Sink sink; op->parent(&sink);
    uint64_t m = p->block_.mask_; 
    g_programs = 0; (*p)((const FilterOperator&) *op);
    uint64_t now = p->block_.mask_; bool in = (m >> g_k) & 1, out = (now >> g_k) & 1;
    __v_assert(out == (in and holds(g_k)), "a tuple is kept iff the condition is TRUE for it");
    __v_assert(g_pushes == (now != 0), "the parent runs once, unless nothing is left"); if (g_pushes) __v_assert(g_pushed == now and g_pushbase == g_base, "the parent gets the tuples kept"); __v_cover("end");
}
/*----- disjunctions: FIRST(row) is the first of the n predicates that is TRUE for a row, n if there is none ----------------*/
extern "C" { StackMachine *g_preds; uint64_t g_n; uint64_t __v_uf_first(uint64_t);
void stub_pred(const StackMachine *sm, Tuple **args) {
    uint64_t r = row(args[1]), e = __v_index(sm, g_preds, sizeof(StackMachine)); __v_assert(r < 64 and uint64_t(args[1]) == g_base + r * TS, "a predicate is evaluated on a tuple of the block");
    __v_assert(e < g_n, "the predicate is one of the filter's"); uint64_t first = __v_uf_first(r); bool null = __v_uf_null(r, e), t = not null and __v_uf_bool(r, e);
    __v_assume(first <= g_n and (e < first ? not t : e == first ? t : true));
    if (null) args[0]->null(0); else args[0]->set(0, Value(__v_uf_bool(r, e)));
}
}
ROOT prove_disjunction() {
    auto p = pipeline(); cnf::CNF c; auto &I = c._M_impl; I._M_start = (cnf::Clause*) __v_heap(sizeof(cnf::Clause), 0); I._M_finish = I._M_end_of_storage = I._M_start + 1;
    auto &J = I._M_start->_M_impl; J._M_start = J._M_finish = J._M_end_of_storage = nullptr;
    alignas(DisjunctiveFilterOperator) static char buf[sizeof(DisjunctiveFilterOperator)]; auto op = new FilterOperator(std::move(c)); Sink sink; op->parent(&sink);
    auto d = new DisjunctiveFilterData((const DisjunctiveFilterOperator&) *op, Schema()); g_n = IN64("n"); __v_assume(g_n < 1UL << 30); __v_name(g_n, "n"); 
    auto &K = d->predicates._M_impl; K._M_start = (StackMachine*) __v_heap(g_n * sizeof(StackMachine), sizeof(StackMachine)); K._M_finish = K._M_end_of_storage = K._M_start + g_n; g_preds = K._M_start; op->data(d);
    uint64_t m = p->block_.mask_;
    p->Pipeline::operator()((const DisjunctiveFilterOperator&) *op);
    uint64_t now = p->block_.mask_; bool in = (m >> g_k) & 1, out = (now >> g_k) & 1; __v_assume(__v_uf_first(g_k) <= g_n);
    __v_assert(out == (in and __v_uf_first(g_k) < g_n), "a tuple is kept iff one of the conditions is TRUE for it");
    __v_assert(g_pushes == (now != 0), "the parent runs once, unless nothing is left"); if (g_pushes) __v_assert(g_pushed == now and g_pushbase == g_base, "the parent gets the tuples kept"); __v_cover("end");
}

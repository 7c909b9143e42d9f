// Nested-loops joins: every pair of rows on which the predicate is TRUE is joined and passed on exactly once.
#include "catalog/Type.cpp"
#include "pipe.hpp"
extern "C" {
bool __v_uf_pnull(uint64_t left, uint64_t right); bool __v_uf_ptrue(uint64_t left, uint64_t right);        // the predicate on a pair of rows
uint64_t g_n, g_q, g_hits, g_left, g_right, g_phase, g_programs, g_clones; Tuple *g_outs, *g_buf; StackMachine *g_load; JoinOperator *g_op; NestedLoopsJoinData *g_data; bool g_pred; Value *g_copy; Schema *g_schemas;
static uint64_t row2(const Tuple *t) { return __v_index(t, g_buf, TS); }
void stub_emit_load(JoinData *d, const Schema *S) { auto &V = d->load_attrs._M_impl; __v_assert(d == g_data and V._M_finish == g_load + g_phase, "loading is compiled once per input"); ++V._M_finish; }
void stub_emit_predicate(StackMachine *sm, const cnf::CNF *c, const std::vector<Schema> *S, const std::vector<std::size_t> *ids) {
    __v_assert(sm == &g_data->predicate and c == &g_op->predicate() and S == &g_data->buffer_schemas and S->size() == 2, "the predicate of the join is compiled for both inputs"); auto i = ids->_M_impl._M_start; __v_assert(ids->size() == 2 and i[0] == 1 and i[1] == 2, "on the rows it is given"); g_programs = 1;
}
void stub_emit_result(StackMachine *sm, uint8_t tuple_id, uint8_t index) { __v_assert(sm == &g_data->predicate and g_programs == 1 and tuple_id == 0 and index == 0, "its result is stored"); g_programs = 3; }
void stub_run(const StackMachine *sm, Tuple **args) {
    if (sm == &g_data->predicate) {
        __v_assert(g_pred and g_programs == 3 and args[0] == &g_data->res, "the predicate is compiled"); uint64_t p = row2(args[1]), r = row(args[2]);
        __v_assert(p < g_n and args[1] == g_buf + p and r < 64 and uint64_t(args[2]) == g_base + r * TS, "and evaluated on a row of either input"); if (__v_uf_pnull(p, r)) g_data->res.null_mask_ = SmallBitset(1); else { g_data->res.null_mask_ = SmallBitset(0); g_data->res.values_[0] = Value(__v_uf_ptrue(p, r)); } return;
    }
    bool right = sm == g_load + 1; __v_assert(right or sm == g_load, "attributes are loaded"); __v_assert(g_data->load_attrs.size() == 2, "by compiled programs"); uint64_t s = __v_index(args[0], g_outs, TS); __v_assert(s < 64 and args[0] == g_outs + s, "to a tuple of the block");
    if (right) { uint64_t r = row(args[1]); __v_assert(r < 64 and uint64_t(args[1]) == g_base + r * TS and r == s, "of the row at this position"); if (s == g_k) g_right = 1; }
    else { uint64_t p = row2(args[1]); __v_assert(p < g_n and args[1] == g_buf + p, "of a row of the left input"); if (s == g_k) g_left = p + 1; }
}
void stub_clone(Tuple *ret, const Tuple *t, const Schema *S) { uint64_t r = row(t); __v_assert(r < 64 and uint64_t(t) == g_base + r * TS, "a row of the block is kept"); __v_assert(not g_left, "one at a time"); ret->values_ = g_copy; g_left = 1; if (r == g_k) ++g_clones; }
void stub_keep(std::vector<Tuple> *v, Tuple *t) { __v_assert(v == g_data->buffers and g_left == 1 and t->values_ == g_copy, "a copy of the row is kept"); g_left = 0; }
void stub_no_tuple(Tuple*) { }
}
static bool row_ok(uint64_t p, uint64_t k) { return not g_pred or (not __v_uf_pnull(p, k) and __v_uf_ptrue(p, k)); }
struct JoinSink : Consumer {
    void accept(OperatorVisitor&) override { }
    void accept(ConstOperatorVisitor &v) const override {
        auto &p = static_cast<Pipeline&>(v); __v_assert(&p == &g_data->pipeline, "joined rows are passed on");
        if ((p.block_.mask_ >> g_k) & 1) { __v_assert(g_left and g_right, "a row is made of both rows"); __v_assert(row_ok(g_left - 1, g_k), "only rows on which the predicate is TRUE"); if (g_left - 1 == g_q) ++g_hits; g_left = g_right = 0; }
        p.block_.mask_ = __v_nondet_u64();
    }
};
struct JoinChild : Producer { void accept(OperatorVisitor&) override { } void accept(ConstOperatorVisitor&) const override { } };
static void join(JoinSink &sink, Producer *c, uint64_t active) {
    alignas(JoinOperator) static char buf[sizeof(JoinOperator)]; auto op = new (buf) JoinOperator(cnf::CNF()); g_op = op; op->parent(&sink); static Producer *cs[2]; cs[0] = cs[1] = c; auto &C = op->children_._M_impl; C._M_start = cs; C._M_finish = C._M_end_of_storage = cs + 2;
    g_pred = IN64("pred") & 1; if (g_pred) { auto &V = const_cast<cnf::CNF&>(op->predicate())._M_impl; V._M_start = (cnf::Clause*) __v_heap(sizeof(cnf::Clause), 0); V._M_finish = V._M_end_of_storage = V._M_start + 1; }
    g_hits = g_left = g_right = g_programs = g_clones = 0; g_load = (StackMachine*) __v_heap(2 * sizeof(StackMachine), 0); g_copy = (Value*) __v_heap(8, 8);
    auto d = (NestedLoopsJoinData*) __v_heap(sizeof(NestedLoopsJoinData), 0); g_data = new (d) NestedLoopsJoinData(*op); op->data(d); __v_role(d, "data"); g_outs = d->pipeline.block_.data_.data(); d->active_child = active; g_phase = active;
    bool again = __v_nondet_bool(); auto &L = d->load_attrs._M_impl; L._M_start = g_load; L._M_end_of_storage = g_load + 2; L._M_finish = g_load + active + (again ? 1 : 0); g_schemas = (Schema*) __v_heap(2 * sizeof(Schema), 0); auto &S = d->buffer_schemas._M_impl; S._M_start = g_schemas; S._M_end_of_storage = g_schemas + 2; S._M_finish = g_schemas + active + (again ? 1 : 0); g_programs = active and again ? 3 : 0;
    g_n = IN64("n"); __v_assume(g_n and g_n < 1UL << 40); __v_name(g_n, "n"); g_buf = (Tuple*) __v_heap(g_n * TS, 0); auto &B = d->buffers[0]._M_impl; B._M_start = g_buf; B._M_finish = B._M_end_of_storage = g_buf + g_n; __v_role(g_buf, "buf"); g_q = IN64("q"); __v_assume(g_q < g_n); __v_name(g_q, "q"); __v_name(g_pred, "pred"); __v_name(uint64_t(&d->pipeline.block_.mask_) - uint64_t(d), "maskoff"); d->pipeline.block_.mask_ = IN64("oldmask");
}
ROOT prove_collect() {
    auto p = pipeline(); JoinSink sink; JoinChild c; join(sink, &c, 0); uint64_t m = p->block_.mask_;
    p->Pipeline::operator()((const JoinOperator&) *g_op);
    __v_assert(g_clones == ((m >> g_k) & 1) and not g_left, "every row of the left input is kept once, and nothing else"); __v_assert(g_data->load_attrs.size() == 1 and g_data->buffer_schemas.size() == 1, "loading is compiled"); __v_cover("end");
}
ROOT prove_nested_loops() {
    auto p = pipeline(); JoinSink sink; JoinChild c; join(sink, &c, 1); uint64_t m = p->block_.mask_;
    p->Pipeline::operator()((const JoinOperator&) *g_op);
    __v_assert(g_hits == ((m >> g_k) & 1 and row_ok(g_q, g_k)), "every pair of rows is passed on once if the predicate is TRUE, and else not"); __v_assert(p->block_.mask_ == m, "the rows of the right input are left alone"); __v_cover("end");
}

// Aggregates over a whole input: after all rows, every aggregate is what folding its function over the rows, in order, yields.
#include "agg.hpp"
extern "C" {
AggregationData *g_data; bool g_started;
void stub_run(const StackMachine *sm, Tuple **args) {
    uint64_t r = row(args[1]), e = __v_index(sm, g_programs, sizeof(StackMachine)); __v_assert(r < 64 and uint64_t(args[1]) == g_base + r * TS, "arguments are computed on a tuple of the block");
    __v_assert(e < g_n, "the program is one of the operator's"); __v_assert(args[0] == g_args + e, "the arguments of an aggregate go to its own tuple"); wellformed(e);
    if (__v_uf_nargs(e)) { if (__v_uf_argnull(r, e)) args[0]->null(0); else { Value v; v.val_.i = __v_uf_arg(r, e); args[0]->set(0, v); } }
    no_overflow(e, r, g_aggs[e]);
    if (e == g_a) {                                   // what ACC is, on the rows from this one on
        wellformed(g_a); uint64_t bit = 1UL << r, rows = g_pos & ~(bit - 1); AState s = current(g_a), t = acc(s, rows), u = acc(step(s, g_a, r), rows & (rows - 1));
        __v_assume(t.null == u.null and t.val == u.val and t.num == u.num);
    }
}
}
ROOT prove_fold() {
    auto p = pipeline(); auto op = new AggregationOperator({}); Sink sink; op->parent(&sink); auto d = new AggregationData((const AggregationOperator&) *op); g_data = d;
    aggregates(op); arguments(d); wellformed(g_a);
    d->aggregates.values_ = (Value*) g_aggs; d->aggregates.null_mask_ = SmallBitset(IN64("nulls")); g_null = &d->aggregates.null_mask_.bits_; auto &N = d->num_values._M_impl; N._M_start = g_nums; N._M_finish = N._M_end_of_storage = g_nums + g_n; __v_role(d, "data"); __v_name(offsetof(AggregationData, aggregates) + offsetof(Tuple, null_mask_), "nulloff");
    op->data(d); uint64_t m = g_pos = p->block_.mask_; AState s0 = current(g_a), want = acc(s0, m);
    bool mm = __v_uf_fnid(g_a) == Function::FN_MIN or __v_uf_fnid(g_a) == Function::FN_MAX; __v_assume(mm or not s0.null); __v_name(mm, "nullable");
    __v_name((__v_uf_fnid(g_a) == Function::FN_MIN or __v_uf_fnid(g_a) == Function::FN_MAX) and is_f32(g_a), "narrow"); __v_name(want.null, "wnull"); __v_name(want.val, "wval"); __v_name(want.num, "wnum");
    p->Pipeline::operator()((const AggregationOperator&) *op);
    AState s = current(g_a), none = acc(s, 0); __v_assume(none.null == s.null and none.val == s.val and none.num == s.num);
    __v_assert(same(s, want), "the aggregate accounts for every tuple once"); __v_assert(g_pushes == 0, "nothing is passed on yet"); __v_cover("end");
}
/*----- the start values, and the one result tuple --------------------------------------*/
extern "C" {
AggregationOperator *g_op; uint64_t g_final, g_children;
void stub_tuple_types(Tuple *self, std::vector<const Type*>*) { self->values_ = (Value*) g_aggs; self->null_mask_ = SmallBitset(~0UL); }
void stub_resize(std::vector<uint64_t> *v, uint64_t n, const uint64_t *x) { auto &N = v->_M_impl; N._M_start = g_nums; N._M_finish = N._M_end_of_storage = g_nums + n; g_nums[g_a] = *x; __v_role(v, "data"); }
}
struct Child : Producer {
    void accept(OperatorVisitor&) override { }
    void accept(ConstOperatorVisitor&) const override {
        auto d = static_cast<AggregationData*>(g_op->data()); g_null = &d->aggregates.null_mask_.bits_; __v_assert(g_made == g_n, "every aggregate has a program"); 
        wellformed(g_a); __v_assert(d->num_values._M_impl._M_start == g_nums and same(current(g_a), start(g_a)), "every aggregate starts without any row");
        ++g_children; d->aggregates.null_mask_ = SmallBitset(g_final = IN64("final"));
    }
};
struct AggSink : Consumer {
    void accept(OperatorVisitor&) override { }
    void accept(ConstOperatorVisitor &v) const override {
        auto &p = static_cast<Pipeline&>(v); ++g_pushes; __v_assert(g_children == 1, "the result is passed on at the end"); __v_assert(p.block_.mask_ == 1, "one tuple is passed on"); auto &t = p.block_.data_[0];
        __v_assert(t.values_ == (Value*) g_aggs and t.null_mask_.bits_ == g_final, "it holds the aggregates");
    }
};
ROOT prove_frame() {
    auto op = new AggregationOperator({}); g_op = op; AggSink sink; Child child; op->parent(&sink); static Producer *cs[1]; cs[0] = &child; auto &C = static_cast<Consumer*>(op)->children_._M_impl; C._M_start = cs; C._M_finish = C._M_end_of_storage = cs + 1;
    aggregates(op); wellformed(g_a); g_made = g_pending = g_stored = g_children = g_pushes = g_filled = g_sized = 0; __v_name(uint64_t(start(g_a).null), "startnull"); __v_name(offsetof(AggregationData, aggregates) + offsetof(Tuple, null_mask_), "nulloff"); __v_name(0, "narrow");
    Interpreter I; I.Interpreter::operator()((const AggregationOperator&) *op);
    __v_assert(g_children == 1 and g_pushes == 1, "the input is evaluated once, and the result passed on once"); __v_cover("end");
}

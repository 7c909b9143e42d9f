// Every tuple is passed on, or delivered, exactly once.
#include "pipe.hpp"
extern "C" {
const ast::Expr * __v_expr(uint64_t); void * __v_elems(uint64_t n, uint64_t size, uint64_t at, uint64_t first); void __v_layout(uint64_t off, const char *field); uint64_t __v_uf_exprtype(uint64_t);
}
/*----- Projection: the i-th expression, on the tuple, goes to the i-th attribute of the tuple passed on ----------------*/
extern "C" {
uint64_t g_n, g_compiled, g_pending, g_in, g_out, g_hits, g_p; Tuple *g_outs;      // g_compiled: how many projections the program stores
void stub_emit_expr(StackMachine*, const ast::Expr *e, std::size_t tuple_id) {
    uint64_t i = __v_index(e, __v_expr(0), 256); __v_assert(i == g_compiled and not g_pending, "the next projection is compiled"); if (i) __v_assert(g_in == tuple_id, "all are evaluated on the same tuple"); g_in = tuple_id; g_pending = 1;
}
void stub_emit_store(StackMachine*, std::size_t tuple_id, std::size_t index, const Type *ty) {
    __v_assert(g_pending and index == g_compiled, "the value of the i-th projection is attribute i"); __v_assert(ty == __v_type(__v_uf_exprtype(g_compiled)), "it is stored as what it is"); if (g_compiled) __v_assert(g_out == tuple_id, "all are stored to the same tuple"); g_out = tuple_id; g_pending = 0; ++g_compiled;
}
void stub_run(const StackMachine *sm, Tuple **args) {
    __v_assert(g_compiled == g_n and not g_pending, "the program computes all projections"); __v_assert(g_in <= 1 and g_out <= 1, "two tuples are given"); const Tuple *in = g_in ? args[1] : args[0], *out = g_out ? args[1] : args[0];
    uint64_t r = row(in), o = __v_index(out, g_outs, TS); __v_assert(r < 64 and uint64_t(in) == g_base + r * TS, "projections are evaluated on a tuple of the block"); __v_assert(o == r and uint64_t(out) == uint64_t(g_outs) + o * TS, "and stored to the tuple of the same index");
    if (r == g_k) ++g_hits;
}
}
ROOT prove_projection() {
    auto p = pipeline(); __v_layout(offsetof(ast::Expr, type_), "type");
    alignas(ProjectionOperator) static char buf[sizeof(ProjectionOperator)]; auto op = new ProjectionOperator(std::vector<ProjectionOperator::projection_type>()); Sink sink; op->parent(&sink);
    g_n = IN64("n"); __v_assume(g_n and g_n < 1UL << 30); __v_name(g_n, "n"); constexpr uint64_t ES = sizeof(ProjectionOperator::projection_type);
    auto &V = op->projections_._M_impl; V._M_start = (ProjectionOperator::projection_type*) __v_elems(g_n, ES, 0, 0); V._M_finish = V._M_end_of_storage = V._M_start + g_n;
    auto d = new ProjectionData((const ProjectionOperator&) *op); g_outs = d->pipeline.block_.data_.data(); op->data(d); d->pipeline.block_.mask_ = IN64("oldmask");
    bool again = __v_nondet_bool(); g_compiled = g_pending = g_hits = 0; g_in = g_out = 0;
    if (again) { d->projections.emplace(p->schema()); g_compiled = g_n; g_in = 1; g_out = 0; }
    uint64_t m = p->block_.mask_;
    p->Pipeline::operator()((const ProjectionOperator&) *op);
    __v_assert(g_hits == ((m >> g_k) & 1), "every tuple is projected exactly once");
    __v_assert(g_pushes == 1 and g_pushed == m and g_pushbase == uint64_t(g_outs), "the parent gets exactly the projected tuples"); __v_cover("end");
}
static_assert(offsetof(ast::Expr, type_) < 256);
/*----- scans: the loader, run for the i-th time, loads row i (its contract) ---------------------------------------------*/
extern "C" {
uint64_t g_loaded, g_fresh, g_passed, g_rows; bool g_clean;       // rows loaded; the tuples loaded since the last push; rows passed on
Store *g_store; void *g_mem;
Store * stub_store(const ScanOperator*) { return g_store; }
void stub_compile_load(StackMachine *ret, const Schema*, void *addr, const storage::DataLayout*, const Schema*, std::size_t row, std::size_t tuple) { __v_assert(addr == g_mem and row == 0 and tuple == 0, "the loader starts at the first row of the store"); }
void stub_loader(const StackMachine*, Tuple **args) {
    uint64_t r = row(args[0]); __v_assert(r < 64 and uint64_t(args[0]) == g_base + r * TS, "rows are loaded to tuples of the block"); __v_assert(g_loaded < g_rows, "only rows of the store are loaded");
    __v_assert(not ((g_fresh >> r) & 1), "no row loaded is overwritten before it is passed on"); g_fresh |= 1UL << r; ++g_loaded;
}
}
struct ScanSink : Consumer {
    void accept(OperatorVisitor&) override { }
    void accept(ConstOperatorVisitor &v) const override { auto &p = static_cast<Pipeline&>(v); __v_assert(p.block_.mask_ == g_fresh, "the rows loaded are passed on, and nothing else"); g_fresh = 0; g_passed = g_loaded; p.block_.mask_ = __v_nondet_u64(); }
};
struct ScanTable : TableDecorator { ScanTable() : TableDecorator(nullptr) { } Schema schema(const ThreadSafePooledOptionalString &) const override { return Schema(); } const storage::DataLayout & layout() const override { return *(const storage::DataLayout*) g_mem; } };
struct ScanStore : Store { memory::Memory m; ScanStore(const Table &t) : Store(t) { } const memory::Memory & memory() const override { return m; } std::size_t num_rows() const override { return g_rows; } void append() override { } void drop() override { } void dump(std::ostream&) const override { } };
ROOT prove_scan() {
    auto p = pipeline(); alignas(ScanTable) static char tb[sizeof(ScanTable)]; auto table = new (tb) ScanTable(); auto store = new ScanStore(*table); g_store = store; g_mem = __v_heap(8, 0); store->m.addr_ = g_mem;
    g_rows = IN64("rows"); __v_assume(g_rows < 1UL << 47); __v_name(g_rows, "rows"); g_loaded = g_fresh = g_passed = 0;
    static char alias[sizeof(ThreadSafePooledString)]; auto op = new ScanOperator(*store, std::move(*(ThreadSafePooledString*) alias)); ScanSink sink; op->parent(&sink);
    p->Pipeline::operator()((const ScanOperator&) *op);
    __v_assert(g_loaded == g_rows, "every row is loaded once"); __v_assert(g_passed == g_rows and g_fresh == 0, "every row loaded is passed on"); __v_cover("end");
}
/*----- delivery --------------------------------------------------------------------------------------------------------*/
ROOT prove_callback() {
    auto p = pipeline(); g_hits = 0; uint64_t m = p->block_.mask_;
    CallbackOperator op([](const Schema&, const Tuple &t) { uint64_t r = row(&t); __v_assert(r < 64 and uint64_t(&t) == g_base + r * TS, "the callback gets a tuple of the block"); if (r == g_k) ++g_hits; });
    p->Pipeline::operator()((const CallbackOperator&) op);
    __v_assert(g_hits == ((m >> g_k) & 1), "the callback gets every tuple exactly once"); __v_cover("end");
}
ROOT prove_noop() {
    auto p = pipeline(); NoOpOperator op(*(std::ostream*) __v_heap(8, 0)); auto d = new NoOpData(); uint32_t n = d->num_rows = __v_input_u32("n"); op.data(d); uint64_t m = p->block_.mask_;
    p->Pipeline::operator()((const NoOpOperator&) op);
    __v_assert(d->num_rows == n + uint32_t(__builtin_popcountl(m)), "every tuple is counted"); __v_cover("end");
}
extern "C" {
uint64_t g_open;                                       // a tuple was printed, and its line is not ended
void stub_print(const StackMachine*, Tuple **args) { uint64_t r = row(args[0]); __v_assert(r < 64 and uint64_t(args[0]) == g_base + r * TS, "a tuple of the block is printed"); __v_assert(not g_open, "one tuple per line"); g_open = 1; if (r == g_k) ++g_hits; }
std::ostream & stub_put(std::ostream &out, char c) { __v_assert(c == '\n' and g_open, "every line holds one tuple"); g_open = 0; return out; }
}
ROOT prove_print() {
    auto p = pipeline(); PrintOperator op(*(std::ostream*) __v_heap(8, 0)); auto d = new PrintData((const PrintOperator&) op); uint32_t n = d->num_rows = __v_input_u32("n"); op.data(d); uint64_t m = p->block_.mask_; g_open = g_hits = 0;
    p->Pipeline::operator()((const PrintOperator&) op);
    __v_assert(d->num_rows == n + uint32_t(__builtin_popcountl(m)), "every tuple is counted"); __v_assert(g_hits == ((m >> g_k) & 1) and not g_open, "every tuple is printed exactly once"); __v_cover("end");
}

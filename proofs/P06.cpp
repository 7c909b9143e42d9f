// Sorting: all rows are kept, the comparator orders by the first key that differs, and the rows are passed on in order.
#include <algorithm>
#include <vector>
namespace m { struct Tuple; }
namespace std {            // sorting, by contract: the comparator is checked on an arbitrary pair of rows
template<typename C> void sort(__gnu_cxx::__normal_iterator<m::Tuple*, std::vector<m::Tuple>>, __gnu_cxx::__normal_iterator<m::Tuple*, std::vector<m::Tuple>>, C);
template<typename C> void stable_sort(__gnu_cxx::__normal_iterator<m::Tuple*, std::vector<m::Tuple>>, __gnu_cxx::__normal_iterator<m::Tuple*, std::vector<m::Tuple>>, C);
}
#include "catalog/Type.cpp"
#include "pipe.hpp"
extern "C" {
const ast::Expr * __v_expr(uint64_t); void * __v_elems(uint64_t n, uint64_t size, uint64_t at, uint64_t first); void __v_layout(uint64_t off, const char *field); uint64_t __v_uf_exprtype(uint64_t);
bool __v_uf_keynull(uint64_t key, uint64_t side); uint64_t __v_uf_keycmp(uint64_t key);            // of an arbitrary pair of rows
uint64_t __v_uf_ord(uint64_t keys);                                                              // the order of the rows, by the first so many keys
uint64_t g_rows, g_loaded, g_fresh, g_passed, g_children, g_sorted, g_n, g_lo, g_hi; Tuple *g_buf; SortingOperator *g_op; SortingData *g_data; const StackMachine *g_cmp;
}
using Order = SortingOperator::order_type; static Order *g_order;
/*----- buffering ------------------------------------------------------------------------------------------------------*/
/** Types are of one of these classes. */
extern "C" const Type * stub_types(int k) { auto T = Type::TY_Scalar; switch (k) { case 3: return new Boolean(T); case 4: return new Bitmap(T, 1); case 5: return new CharacterSequence(T, 1, false); case 6: return new Date(T); case 7: return new DateTime(T); case 8: return new Numeric(T, Numeric::N_Int, 4, 0); case 1: return new ErrorType(); case 2: return new NoneType(); default: return new FnType(nullptr, {}); } }
extern "C" {
void stub_get_integer(ThreadSafePool<Type>::proxy_type<Numeric> *ret, Type::category_t, unsigned) { auto cell = (const Type**) __v_heap(24, 0); cell[0] = __v_type(2); ((uint64_t*) cell)[1] = 1; __v_assume(__v_uf_kind(2) == 8); ((void**) ret)[0] = cell; ((uint64_t*) ret)[1] = (uint64_t) cell; }
uint64_t g_clones, g_kept, g_pending;
void stub_clone(Tuple *ret, const Tuple *t, const Schema *S) { uint64_t r = row(t); __v_assert(r < 64 and uint64_t(t) == g_base + r * TS, "a tuple of the block is kept"); __v_assert(g_pending == 0 and (g_clones >> r) == 0, "rows are kept in order"); g_clones |= 1UL << r; g_pending = 1; }
Tuple * stub_keep(std::vector<Tuple> *v, Tuple *t) { __v_assert(v == &static_cast<SortingData*>(g_op->data())->buffer and g_pending == 1, "the copy is kept"); g_pending = 0; g_kept = g_clones; return t; }
void stub_no_tuple(Tuple*) { }
}
static void buffer(bool first) {
    auto p = pipeline(); auto op = new SortingOperator({}); g_op = op; Sink sink; op->parent(&sink); if (not first) op->data(new SortingData(Schema())); uint64_t m = p->block_.mask_; g_clones = g_kept = g_pending = 0;
    p->Pipeline::operator()((const SortingOperator&) *op);
    __v_assert(g_kept == m and g_pending == 0, "every row is kept exactly once, in order"); __v_assert(g_pushes == 0, "nothing is passed on yet"); __v_cover("end");
}
ROOT prove_buffer() { buffer(false); }
ROOT prove_buffer_first() { buffer(true); }
/*----- the comparator: what the program emitted computes, for an arbitrary pair of rows -------------------------------*/
extern "C" {
uint64_t g_k0, g_k1, g_k2, g_k3, g_x0, g_x1, g_x2, g_x3, g_v0, g_v1, g_v2, g_v3, g_z0, g_z1, g_z2, g_z3, g_ctx[8], g_nctx, g_res, g_stopped;
// The stack of the machine: x = 1: a number v, otherwise the value of key k of row v; z: NULL
static void push(uint64_t x, uint64_t k, uint64_t v, uint64_t z) { g_x3 = g_x2; g_k3 = g_k2; g_v3 = g_v2; g_z3 = g_z2; g_x2 = g_x1; g_k2 = g_k1; g_v2 = g_v1; g_z2 = g_z1; g_x1 = g_x0; g_k1 = g_k0; g_v1 = g_v0; g_z1 = g_z0; g_x0 = x; g_k0 = k; g_v0 = v; g_z0 = z; }
static void pop() { g_x0 = g_x1; g_k0 = g_k1; g_v0 = g_v1; g_z0 = g_z1; g_x1 = g_x2; g_k1 = g_k2; g_v1 = g_v2; g_z1 = g_z2; g_x2 = g_x3; g_k2 = g_k3; g_v2 = g_v3; g_z2 = g_z3; g_x3 = 2; }
static const Numeric & num_type(uint64_t key) { return *(const Numeric*) __v_type(__v_uf_exprtype(key)); }
static uint8_t kind(uint64_t key) { return __v_uf_kind(__v_uf_exprtype(key)); }
/** How a key orders the rows: NULL comes first; otherwise ascending or descending. */
static int64_t decide(uint64_t key) {
    bool a = __v_uf_keynull(key, 0), b = __v_uf_keynull(key, 1); if (a != b) return a ? -1 : 1; if (a) return 0;
    int64_t c = int64_t(__v_uf_keycmp(key)); return g_order[key].second ? c : -c;
}
void stub_emit_key(StackMachine *sm, const ast::Expr *e, std::size_t tuple_id) {
    uint64_t i = __v_index(e, __v_expr(0), 256); __v_assert(i < g_n and (tuple_id == 1 or tuple_id == 2), "keys of the two rows are computed"); __v_assert(sm == g_cmp, "by one program");
    __v_assume(int64_t(__v_uf_keycmp(i)) <= 1L << 31 and int64_t(__v_uf_keycmp(i)) >= -(1L << 31)); __v_assume(__v_uf_ord(i + 1) == (__v_uf_ord(i) ? __v_uf_ord(i) : uint64_t(decide(i))));
    uint8_t k = kind(i); auto &t = num_type(i); __v_assume(k == 3 or k == 5 or k == 6 or k == 7 or k == 8); if (k == 8) { __v_assume(t.kind == Numeric::N_Int or t.kind == Numeric::N_Float or t.kind == Numeric::N_Decimal); if (t.kind == Numeric::N_Float) __v_assume(t.precision == 32 or t.precision == 64); }
    push(0, i, tuple_id - 1, __v_uf_keynull(i, tuple_id - 1));
}
void stub_program(StackMachine *sm, const Schema*) { __v_assert(not g_cmp, "one program"); g_cmp = sm; }
uint64_t stub_add(StackMachine*, uint64_t v) { __v_assert(g_nctx < 8, "few constants"); g_ctx[g_nctx] = v; return g_nctx++; }
void stub_ctx(StackMachine*, uint8_t i) { __v_assert(i < g_nctx, "a constant of the program"); push(1, 0, g_ctx[i & 7], 0); }
void stub_is_null(StackMachine*) { uint64_t z = g_z0; g_x0 = 1; g_v0 = z; g_z0 = 0; }
static void compare(bool fits, bool strings) {
    uint64_t z = g_z0 | g_z1;
    if (g_x0 == 1) { __v_assert(g_x1 == 1 and not strings, "numbers are compared with numbers"); int64_t l = g_v1, r = g_v0; pop(); g_v0 = l < r ? -1 : l > r; g_z0 = z; return; }
    __v_assert(g_x0 == 0 and g_x1 == 0 and g_k1 == g_k0 and g_v0 != g_v1, "values of the same key are compared"); __v_assert(fits, "they are compared as what they are");
    int64_t c = int64_t(__v_uf_keycmp(g_k0)); if (g_v1 == 1) c = -c; pop(); g_x0 = 1; g_v0 = c; g_z0 = z;
}
static uint64_t cur() { return g_k0; }
void stub_cmp_b(StackMachine*) { compare(kind(cur()) == 3, false); }
void stub_cmp_s(StackMachine*) { compare(kind(cur()) == 5, true); }
void stub_cmp_i(StackMachine*) { auto k = kind(cur()); compare(k == 6 or k == 7 or (k == 8 and num_type(cur()).kind != Numeric::N_Float), false); }
void stub_cmp_f(StackMachine*) { auto k = kind(cur()); compare(k == 8 and num_type(cur()).kind == Numeric::N_Float and num_type(cur()).precision == 32, false); }
void stub_cmp_d(StackMachine*) { auto k = kind(cur()); compare(k == 8 and num_type(cur()).kind == Numeric::N_Float and num_type(cur()).precision == 64, false); }
void stub_minus(StackMachine*) { __v_assert(g_x0 == 1, "a number is negated"); g_v0 = -g_v0; }
void stub_sel(StackMachine*) { __v_assert(g_x2 == 1 and not g_z2, "the condition is a truth value"); bool c = g_v2; uint64_t x = c ? g_x1 : g_x0, k = c ? g_k1 : g_k0, v = c ? g_v1 : g_v0, z = c ? g_z1 : g_z0; pop(); pop(); g_x0 = x; g_k0 = k; g_v0 = v; g_z0 = z; }
void stub_result(StackMachine*, uint8_t tuple_id, uint8_t index) { __v_assert(tuple_id == 0 and index == 0, "the order is stored as the result"); __v_assert(g_x0 == 1, "the order is a number"); __v_assert(g_stopped or not g_z0, "the order is not NULL"); if (not g_stopped) g_res = g_v0; }
void stub_stop_nz(StackMachine*) { __v_assert(g_x0 == 1 and (g_stopped or not g_z0), "a number is tested"); if (not g_stopped) g_stopped = g_v0 != 0; }
void stub_run(const StackMachine *sm, Tuple **args) {
    __v_assert(sm == g_cmp, "the comparator is run"); bool a = args[1] == g_buf + g_lo and args[2] == g_buf + g_hi; __v_assert(a, "on the two rows to be compared, in order"); Value v; v.val_.i = g_res; args[0]->set(0, v);
}
}
template<typename I, typename C> static void sorts(I b, I e, C c) {
    __v_assert(&*b == g_buf and e - b == g_rows, "all rows are sorted"); if (g_rows == 0) { g_sorted = 1; return; } g_lo = __v_nondet_u64(); g_hi = __v_nondet_u64(); __v_assume(g_lo < g_rows and g_hi < g_rows);
    bool r = c(b[g_lo], b[g_hi]); __v_assert(r == (int64_t(__v_uf_ord(g_n)) < 0), "a row comes before another iff the first key that tells them apart says so"); g_sorted = 1;
}
namespace std {
template<typename C> void sort(__gnu_cxx::__normal_iterator<m::Tuple*, std::vector<m::Tuple>> b, __gnu_cxx::__normal_iterator<m::Tuple*, std::vector<m::Tuple>> e, C c) { sorts(b, e, c); }
template<typename C> void stable_sort(__gnu_cxx::__normal_iterator<m::Tuple*, std::vector<m::Tuple>> b, __gnu_cxx::__normal_iterator<m::Tuple*, std::vector<m::Tuple>> e, C c) { sorts(b, e, c); }
}
/*----- the rows are passed on in order ---------------------------------------------------------------------------------*/
extern "C" {
void stub_swap(Tuple *a, Tuple *b) {
    if (not g_sorted) return; uint64_t r = row(a), i = __v_index(b, g_buf, TS); __v_assert(r < 64 and uint64_t(a) == g_base + r * TS, "a row is moved to the block"); __v_assert(i == g_loaded and i < g_rows, "in the order sorted");
    __v_assert((g_fresh >> r) == 0, "no row is overwritten or overtaken"); g_fresh |= 1UL << r; ++g_loaded;
}
}
struct SortSink : Consumer {
    void accept(OperatorVisitor&) override { }
    void accept(ConstOperatorVisitor &v) const override { auto &p = static_cast<Pipeline&>(v); __v_assert(p.block_.mask_ == g_fresh, "the rows moved to the block are passed on, and nothing else"); g_fresh = 0; g_passed = g_loaded; p.block_.mask_ = __v_nondet_u64(); }
};
struct SortChild : Producer {
    void accept(OperatorVisitor&) override { }
    void accept(ConstOperatorVisitor&) const override {
        ++g_children; if (g_rows == 0) return; auto d = new SortingData(Schema()); g_data = d; g_op->data(d); auto &V = d->buffer._M_impl; V._M_start = g_buf; V._M_finish = V._M_end_of_storage = g_buf + g_rows; g_tuples = d->pipeline.block_.data_.data(); g_base = uint64_t(g_tuples);
    }
};
ROOT prove_sorting() {
    __v_layout(offsetof(ast::Expr, type_), "type"); auto op = new SortingOperator({}); g_op = op; SortSink sink; op->parent(&sink); SortChild c; static Producer *cs[1]; cs[0] = &c; auto &C = op->children_._M_impl; C._M_start = cs; C._M_finish = C._M_end_of_storage = cs + 1;
    g_rows = IN64("rows"); g_n = IN64("n"); __v_assume(g_rows < 1UL << 47 and g_n and g_n < 1UL << 30); __v_name(g_rows, "rows"); __v_name(g_n, "n"); g_loaded = g_fresh = g_passed = g_children = g_sorted = g_nctx = g_res = g_stopped = 0; g_cmp = nullptr; __v_assume(__v_uf_ord(0) == 0);
    auto &V = op->order_by_._M_impl; V._M_start = g_order = (Order*) __v_elems(g_n, sizeof(Order), 0, 0); V._M_finish = V._M_end_of_storage = V._M_start + g_n; g_buf = (Tuple*) __v_heap(g_rows * TS, TS); __v_name(uint64_t(g_buf), "buf");
    Interpreter I; I.Interpreter::operator()((const SortingOperator&) *op);
    __v_assert(g_children == 1, "the input is evaluated once"); __v_assert(g_rows == 0 or g_sorted, "the rows are sorted"); __v_assert(g_loaded == g_rows and g_passed == g_rows and g_fresh == 0, "every row is passed on once"); __v_cover("end");
}

#pragma once
// Aggregation: an arbitrary number of arbitrary aggregates, the g_a-th of which is followed through the rows.
#include "pipe.hpp"
extern "C" {
const ast::Expr * __v_expr(uint64_t); void * __v_elems(uint64_t n, uint64_t size, uint64_t at, uint64_t first); void __v_layout(uint64_t off, const char *field); void __v_tuples(void *, void *values); uint64_t __v_uf_exprtype(uint64_t);
uint64_t __v_uf_fnid(uint64_t), __v_uf_nargs(uint64_t);                                // of an expression
bool __v_uf_argnull(uint64_t row, uint64_t e); uint64_t __v_uf_arg(uint64_t row, uint64_t e);      // the (casted) argument of aggregate e
// the aggregate after the rows of a set, in order, starting from a state: ACC(s, {}) = s, ACC(s, R) = ACC(step(s, first of R), rest of R)
bool __v_uf_accnull(bool null, uint64_t val, uint64_t num, uint64_t rows); uint64_t __v_uf_accval(bool null, uint64_t val, uint64_t num, uint64_t rows), __v_uf_accnum(bool null, uint64_t val, uint64_t num, uint64_t rows);
uint64_t g_a, g_n, g_pos;                              // the aggregate followed; the number of aggregates; the attribute of the first aggregate
Tuple *g_args; StackMachine *g_programs; uint64_t g_aggs[64], g_nums[64]; uint64_t *g_null;
}
extern "C" void * stub_catalog() { return __v_heap(8, 0); }
static_assert(sizeof(Value) == 8 and sizeof(Tuple) == 16);
struct AState { bool null; uint64_t val, num; };
static const Numeric & num_type(uint64_t e) { return *(const Numeric*) __v_type(__v_uf_exprtype(e)); }
static bool is_real(uint64_t e) { return num_type(e).kind == Numeric::N_Float; }
static bool is_f32(uint64_t e) { return is_real(e) and num_type(e).precision == 32; }
static uint64_t payload(double d) { return __builtin_bit_cast(uint64_t, d); }
static double real(uint64_t v) { return __builtin_bit_cast(double, v); }
static float real32(uint64_t v) { return __builtin_bit_cast(float, uint32_t(v)); }
static uint64_t normal(uint64_t e, uint64_t v) { auto f = __v_uf_fnid(e); return (f == Function::FN_MIN or f == Function::FN_MAX) and is_f32(e) ? uint32_t(v) : v; }
/** What aggregates are: their kinds, numbers of arguments and types (ensured by semantic analysis). */
static void wellformed(uint64_t e) {
    uint64_t f = __v_uf_fnid(e), n = __v_uf_nargs(e); auto &t = num_type(e);
    __v_assume(f == Function::FN_COUNT or f == Function::FN_SUM or f == Function::FN_AVG or f == Function::FN_MIN or f == Function::FN_MAX);
    __v_assume(n <= 1 and (n == 1 or f == Function::FN_COUNT)); __v_assume(__v_uf_kind(__v_uf_exprtype(e)) == 8);
    __v_assume(t.kind == Numeric::N_Int or t.kind == Numeric::N_Float or t.kind == Numeric::N_Decimal); if (t.kind == Numeric::N_Float) __v_assume(t.precision == 32 or t.precision == 64);
    if (f == Function::FN_AVG) __v_assume(t.kind == Numeric::N_Float and t.precision == 64); if (f == Function::FN_SUM) __v_assume(t.kind != Numeric::N_Float or t.precision == 64); if (f == Function::FN_COUNT) __v_assume(t.kind == Numeric::N_Int);
}
/** The state of an aggregate before any row. */
static AState start(uint64_t e) { auto f = __v_uf_fnid(e); return f == Function::FN_MIN or f == Function::FN_MAX ? AState{true, 0, 0} : AState{false, 0, 0}; }
/** The state of an aggregate after one more row. */
static AState step(AState s, uint64_t e, uint64_t r) {
    bool null = __v_uf_argnull(r, e); uint64_t x = __v_uf_arg(r, e);
    switch (__v_uf_fnid(e)) {
        case Function::FN_COUNT: if (__v_uf_nargs(e) == 0 or not null) ++s.val; return s;
        case Function::FN_SUM: if (not null) s.val = is_real(e) ? payload(real(s.val) + real(x)) : s.val + x; return s;
        case Function::FN_AVG: if (not null) { ++s.num; s.val = payload(real(s.val) + (real(x) - real(s.val)) / s.num); } return s;
        case Function::FN_MIN:
            if (null) return s; if (s.null) { s.null = false; s.val = normal(e, x); return s; }
            if (is_f32(e) ? real32(x) < real32(s.val) : is_real(e) ? real(x) < real(s.val) : int64_t(x) < int64_t(s.val)) s.val = normal(e, x); return s;
        default:
            if (null) return s; if (s.null) { s.null = false; s.val = normal(e, x); return s; }
            if (is_f32(e) ? real32(s.val) < real32(x) : is_real(e) ? real(s.val) < real(x) : int64_t(s.val) < int64_t(x)) s.val = normal(e, x); return s;
    }
}
static AState acc(AState s, uint64_t rows) { return { __v_uf_accnull(s.null, s.val, s.num, rows), __v_uf_accval(s.null, s.val, s.num, rows), __v_uf_accnum(s.null, s.val, s.num, rows) }; }
static bool same(AState a, AState b) { return a.null == b.null and (a.null or a.val == b.val) and a.num == b.num; }
static AState current(uint64_t a, uint64_t base = 0) { bool null = (*g_null >> (base + a)) & 1; return { null, null ? 0 : normal(a, g_aggs[base + a]), g_nums[a] }; }
static void no_overflow(uint64_t e, uint64_t r, int64_t now) {
    int64_t x = __v_uf_arg(r, e), y; bool o = __builtin_add_overflow(now, x, &y); auto f = __v_uf_fnid(e);
    if (f == Function::FN_SUM and not is_real(e)) __v_assume(not o); if (f == Function::FN_COUNT) __v_assume(now >= 0 and now < int64_t(1UL << 62));
}
template<typename Op> static void aggregates(Op *op) {
    __v_layout(offsetof(ast::Expr, type_), "type"); __v_layout(offsetof(ast::FnApplicationExpr, func_), "func"); __v_layout(offsetof(ast::FnApplicationExpr, args), "args"); __v_layout(offsetof(ast::FnApplicationExpr, args) + 8, "argsend"); __v_layout(offsetof(Function, fnid) + 0x1000, "fnid");
    __v_name(Function::FN_COUNT, "FN_COUNT"); __v_name(Function::FN_SUM, "FN_SUM"); __v_name(Function::FN_AVG, "FN_AVG"); __v_name(Function::FN_MIN, "FN_MIN"); __v_name(Function::FN_MAX, "FN_MAX");
    g_n = IN64("n"); g_a = IN64("a"); __v_assume(g_n < 63 and g_a < g_n); __v_name(g_n, "n"); __v_name(g_a, "a");
    auto &V = op->aggregates_._M_impl; V._M_start = (std::reference_wrapper<const ast::FnApplicationExpr>*) __v_elems(g_n, 8, 0, 0); V._M_finish = V._M_end_of_storage = V._M_start + g_n;
}
template<typename D> static void arguments(D *d) {
    void *vals = __v_heap(8 * g_n, 8); g_args = (Tuple*) __v_heap(sizeof(Tuple) * g_n, 8); __v_tuples(g_args, vals);
    auto &A = d->args._M_impl; A._M_start = g_args; A._M_finish = A._M_end_of_storage = g_args + g_n;
    auto &P = d->compute_aggregate_arguments._M_impl; P._M_start = (StackMachine*) __v_heap(g_n * sizeof(StackMachine), sizeof(StackMachine)); P._M_finish = P._M_end_of_storage = P._M_start + g_n; g_programs = P._M_start;
}
/*----- the programs for the arguments, the start values, and the one result tuple --------------------------------------*/
extern "C" {
uint64_t g_made, g_pending, g_stored, g_filled, g_sized; uint64_t g_keys_made, g_keysm;
static const Type * result_type(uint64_t e) { return __v_type(__v_uf_exprtype(__v_uf_fnid(e) == Function::FN_COUNT ? (1UL << 20) + e : e)); }       // arguments are computed as this
void stub_emit_arg(StackMachine *sm, const ast::Expr *e, std::size_t tuple_id) {
    uint64_t i = __v_index(e, __v_expr(0), 256); if (i >= 1UL << 21) { __v_assert(i == (1UL << 21) + g_keys_made and tuple_id == 1 and g_pending == 0, "the keys are compiled in order"); g_pending = 3; g_keysm = uint64_t(sm); return; }
    __v_assert(i == (1UL << 20) + g_made and tuple_id == 1 and g_pending == 0, "the argument of the aggregate is compiled"); g_pending = 1;
}
void stub_emit_cast(StackMachine*, const Type *to, const Type *from) { __v_assert(g_pending == 1 and to == result_type(g_made) and from == __v_type(__v_uf_exprtype((1UL << 20) + g_made)), "the argument is converted to what the aggregate computes with"); g_pending = 2; }
void stub_emit_store(StackMachine *sm, std::size_t tuple_id, std::size_t index, const Type *ty) {
    if (g_pending == 3) { __v_assert(tuple_id == 0 and index == g_keys_made and ty == __v_type(__v_uf_exprtype((1UL << 21) + g_keys_made)) and uint64_t(sm) == g_keysm, "a key is stored at its place"); g_pending = 0; ++g_keys_made; return; }
    __v_assert(g_pending == 2 and tuple_id == 0 and index == 0 and ty == result_type(g_made), "and stored where the aggregate reads it"); g_pending = 0; ++g_stored;
}
void stub_push_type(std::vector<const Type*>*, const Type **ty) { __v_assert(*ty == result_type(g_made), "the tuple for the arguments fits them"); ++g_filled; }
void stub_add_args(std::vector<Tuple>*, Tuple*) { wellformed(g_made); __v_assert(g_pending == 0 and g_stored == __v_uf_nargs(g_made) and g_filled == g_stored, "all arguments are computed"); ++g_sized; }
void stub_add_program(std::vector<StackMachine>*, StackMachine*) { __v_assert(g_sized == 1, "an aggregate has a program and a tuple"); ++g_made; g_stored = g_filled = g_sized = 0; }
}

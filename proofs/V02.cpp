#include "sm.hpp"
using I = int64_t;
/*----- stack manipulation */
ROOT prove_Pop() { auto M = machine(O::Pop); Test t(M, 1, 1); t.run(nullptr, -1); __v_cover("end"); }
ROOT prove_Push_Null() { auto M = machine(O::Push_Null); Test t(M, 0, 0, 1); t.run(nullptr, 1); __v_assert(slot(M, g_top).null, "NULL is pushed"); __v_cover("end"); }
ROOT prove_Dup() { auto M = machine(O::Dup); Test t(M, 1, 0, 1); Slot l = slot(M, g_top - 1); t.run(nullptr, 1); Slot x = slot(M, g_top); __v_assert(x.null == l.null and same(x.val, l.val), "the topmost entry is duplicated"); __v_cover("end"); }
/*----- control flow ------------------------------------------------------------------------------------------------*/
static void stop(O opc, bool boolean, bool on) {
    auto M = machine(opc); Test t(M, 1, 0); Slot l = slot(M, g_top - 1); __v_assume(l.val.type == (boolean ? Value::Vb : Value::Vi)); if (boolean) __v_assume(vbits<bool>(l.val) <= 1);
    bool v = boolean ? vbits<bool>(l.val) : l.val.val_.i != 0;
    (*M)(nullptr); bool stopped = g_mid == 0;
    __v_assert(stopped == (v == on), "the program stops exactly on the condition"); __v_assert(stopped or g_mid == g_top + 1, "the stack is kept");
    if (t.frame) { Slot now = slot(M, t.k); __v_assert(now.null == t.old.null and same(now.val, t.old.val), "the stack entries keep their value"); }
    __v_assert(M->top_ == 0 and uint64_t(M->ops._M_impl._M_finish - M->ops._M_impl._M_start) == t.size and &*M->op_ == g_code, "the machine is ready for its next run"); __v_cover("end");
}
ROOT prove_Stop_Z() { stop(O::Stop_Z, false, false); }
ROOT prove_Stop_NZ() { stop(O::Stop_NZ, false, true); }
ROOT prove_Stop_False() { stop(O::Stop_False, true, false); }
ROOT prove_Stop_True() { stop(O::Stop_True, true, true); }
/*----- context -----------------------------------------------------------------------------------------------------*/
static Value * context(StackMachine *M, uint8_t idx, uint64_t j) {
    uint64_t n = IN64("context"); __v_assume(idx < n and j < n and n < MAXSZ); auto c = (Value*) __v_heap(n * sizeof(Value), sizeof(Value));
    auto &v = M->context_._M_impl; v._M_start = c; v._M_finish = c + n; v._M_end_of_storage = c + n; return c;
}
ROOT prove_Ld_Ctx() {
    uint8_t i = __v_input_u8("i"); auto M = machine(O::Ld_Ctx, 1, i); uint64_t j = IN64("j"); Value *c = context(M, i, j); Test t(M, 0, 0, 1); Value v = c[i], w = c[j];
    t.run(nullptr, 1); Slot x = slot(M, g_top); __v_assert(not x.null and same(x.val, v), "the context value is loaded"); Value w2 = c[j]; __v_assert(same(w2, w), "the context is kept"); __v_cover("end");
}
ROOT prove_Upd_Ctx() {
    uint8_t i = __v_input_u8("i"); auto M = machine(O::Upd_Ctx, 1, i); uint64_t j = IN64("j"); Value *c = context(M, i, j); Test t(M, 1, 0); Slot l = slot(M, g_top - 1); Value w = c[j]; __v_assume(c[i].type == l.val.type);
    t.run(nullptr, 0); Value v = c[i], w2 = c[j]; __v_assert(same(v, l.val), "the context value is updated"); __v_assert(j == i or same(w2, w), "other context values are kept"); __v_cover("end");
}
/*----- tuples ------------------------------------------------------------------------------------------------------*/
struct Tuples { Tuple *arr[3]; uint64_t null[3], n[3]; uint64_t j; Value old[3];
    Tuples(uint64_t at) { j = IN64("j");
        for (int i = 0; i != 3; ++i) { n[i] = IN64(i == 0 ? "n0" : i == 1 ? "n1" : "n2"); __v_assume(n[i] <= 64 and j < n[i] and at < n[i]); auto t = (Tuple*) __v_heap(sizeof(Tuple), 0); t->values_ = (Value*) __v_heap(n[i] * sizeof(Value), sizeof(Value)); t->num_values_ = n[i]; null[i] = IN64(i == 0 ? "null0" : i == 1 ? "null1" : "null2"); t->null_mask_ = SmallBitset(null[i]); arr[i] = t; old[i] = t->values_[j]; } }
    void frame(int w, uint64_t at) { for (int i = 0; i != 3; ++i) { uint64_t m = uint64_t(arr[i]->null_mask_), f = i == w ? ~(1UL << at) : ~0UL; __v_assert((m & f) == (null[i] & f), "no other NULL bit changes"); Value v = arr[i]->values_[j]; __v_assert((i == w and j == at) or same(v, old[i]), "no other value changes"); __v_assert(arr[i]->num_values_ == n[i], "frame"); } } };
template<int W> static void ld_tup() {
    uint8_t at = __v_input_u8("at"); auto M = machine(O::Ld_Tup, 2, W, at); Tuples ts(at); Test t(M, 0, 0, 1); Value v = ts.arr[W]->values_[at];
    t.run(ts.arr, 1); Slot x = slot(M, g_top); __v_assert(x.null == ((ts.null[W] >> at) & 1), "the NULL bit is loaded"); __v_assert(same(x.val, v), "the value is loaded"); ts.frame(-1, 0); __v_cover("end");
}
ROOT prove_Ld_Tup_0() { ld_tup<0>(); }
ROOT prove_Ld_Tup_2() { ld_tup<2>(); }
template<int W> static void st_tup(O opc) {
    uint8_t at = __v_input_u8("at"); auto M = machine(opc, 2, W, at); Tuples ts(at); Test t(M, 1, 0); Slot l = slot(M, g_top - 1);
    t.run(ts.arr, 0); __v_assert(((uint64_t(ts.arr[W]->null_mask_) >> at) & 1) == l.null, "the NULL bit is stored"); Value v = ts.arr[W]->values_[at]; __v_assert(l.null or same(v, l.val), "the value is stored"); ts.frame(W, at); __v_cover("end");
}
ROOT prove_St_Tup_i() { st_tup<0>(O::St_Tup_i); }
ROOT prove_St_Tup_f() { st_tup<1>(O::St_Tup_f); }
ROOT prove_St_Tup_d() { st_tup<2>(O::St_Tup_d); }
ROOT prove_St_Tup_b() { st_tup<1>(O::St_Tup_b); }
ROOT prove_St_Tup_Null() {
    uint8_t at = __v_input_u8("at"); auto M = machine(O::St_Tup_Null, 2, 1, at); Tuples ts(at); Test t(M, 0, 0);
    t.run(ts.arr, 0); __v_assert((uint64_t(ts.arr[1]->null_mask_) >> at) & 1, "NULL is stored"); ts.frame(1, at); __v_cover("end");
}
/*----- memory -------------------------------------------------------------------------------------------------------*/
static uint8_t * bytes_(uint64_t n) { return (uint8_t*) __v_heap(n, 1); }
static void put(StackMachine *M, uint64_t i, void *p) { M->values_[i] = Value(p); }
static uint64_t rd(const uint8_t *p, unsigned n) { uint64_t r = 0; for (unsigned i = 0; i != n; ++i) r |= uint64_t(p[i]) << (8 * i); return r; }
template<class To, class From> static void load(O opc) {
    uint64_t n = IN64("bytes"), at = IN64("at"), j = IN64("j"); auto M = machine(opc); Test t(M, 1, 1); __v_assume(n < MAXSZ and at < n and sizeof(From) <= n - at and j < n);
    auto mem = bytes_(n); uint8_t old = mem[j]; put(M, g_top - 1, mem + at); bool null = slot(M, g_top - 1).null; uint64_t raw = rd(mem + at, sizeof(From));
    t.run(nullptr, 0); Slot x = slot(M, g_top - 1); uint64_t want = std::is_integral_v<From> ? uint64_t(int64_t(From(raw))) : raw;
    __v_assert(x.val.type == vtag<To>() and vbits<To>(x.val) == want, "the value in memory is loaded"); __v_assert(x.null == null, "loading keeps the NULL bit of the address"); __v_assert(mem[j] == old, "loading changes nothing in memory"); __v_cover("end");
}
template<class To, class From> static void store(O opc) {
    uint64_t n = IN64("bytes"), at = IN64("at"), j = IN64("j"); auto M = machine(opc); Test t(M, 2, 2); __v_assume(n < MAXSZ and at < n and sizeof(To) <= n - at and j < n);
    auto mem = bytes_(n); uint8_t old = mem[j]; put(M, g_top - 2, mem + at); Slot v = slot(M, g_top - 1); __v_assume(v.null or v.val.type == vtag<From>());
    t.run(nullptr, -2); bool inside = j >= at and j - at < sizeof(To);
    __v_assert(v.null or not inside or mem[j] == uint8_t(uint64_t(v.val.val_.i) >> (8 * ((j - at) & 7))), "the value is stored");
    __v_assert((inside and not v.null) or mem[j] == old, "storing changes nothing else in memory, and NULL stores nothing"); __v_cover("end");
}
ROOT prove_Ld_i8() { load<I, int8_t>(O::Ld_i8); }
ROOT prove_Ld_i16() { load<I, int16_t>(O::Ld_i16); }
ROOT prove_Ld_i32() { load<I, int32_t>(O::Ld_i32); }
ROOT prove_Ld_i64() { load<I, int64_t>(O::Ld_i64); }
ROOT prove_Ld_f() { load<float, float>(O::Ld_f); }
ROOT prove_Ld_d() { load<double, double>(O::Ld_d); }
ROOT prove_St_i8() { store<int8_t, I>(O::St_i8); }
ROOT prove_St_i16() { store<int16_t, I>(O::St_i16); }
ROOT prove_St_i32() { store<int32_t, I>(O::St_i32); }
ROOT prove_St_i64() { store<int64_t, I>(O::St_i64); }
ROOT prove_St_f() { store<float, float>(O::St_f); }
ROOT prove_St_d() { store<double, double>(O::St_d); }
ROOT prove_Ld_b() {      // the operand is the mask of one bit
    uint64_t n = IN64("bytes"), at = IN64("at"), j = IN64("j"); uint8_t bit = __v_input_u8("bit"); __v_assume(bit < 8); auto M = machine(O::Ld_b, 1, uint8_t(1u << bit)); Test t(M, 1, 1); __v_assume(n < MAXSZ and at < n and j < n);
    auto mem = bytes_(n); uint8_t old = mem[j], byte = mem[at]; put(M, g_top - 1, mem + at); bool null = slot(M, g_top - 1).null;
    t.run(nullptr, 0); Slot x = slot(M, g_top - 1); __v_assert(holds<bool>(x, (byte >> bit) & 1), "the bit is loaded"); __v_assert(x.null == null and mem[j] == old, "loading changes nothing"); __v_cover("end");
}
ROOT prove_St_b() {
    uint64_t n = IN64("bytes"), at = IN64("at"), j = IN64("j"); uint8_t bit = __v_input_u8("bit"); __v_assume(bit < 8); auto M = machine(O::St_b, 1, bit); Test t(M, 2, 2); __v_assume(n < MAXSZ and at < n and j < n);
    auto mem = bytes_(n); uint8_t old = mem[j]; put(M, g_top - 2, mem + at); Slot v = slot(M, g_top - 1); __v_assume(v.null or (v.val.type == Value::Vb and vbits<bool>(v.val) <= 1));
    t.run(nullptr, -2); uint8_t now = mem[j]; __v_assert(now == (j == at and not v.null ? uint8_t((old & ~(1u << bit)) | (vbits<bool>(v.val) << bit)) : old), "exactly the one bit is stored, none if NULL"); __v_cover("end");
}
/*----- character sequences: strncpy by contract -------------------------------------------------------------------------*/
extern "C" { uint8_t *g_dst; const uint8_t *g_src; uint64_t g_len, g_copies;
void * contract_strncpy(uint8_t *dst, const uint8_t *src, uint64_t n) { g_dst = dst; g_src = src; g_len = n; ++g_copies; return dst; } }
ROOT prove_Ld_s() {
    uint64_t n = IN64("bytes"), at = IN64("at"), len = IN64("len"); auto M = machine(O::Ld_s); __v_input_array(M->memory_, StackMachine::SIZE_OF_MEMORY, 1, "mem"); Test t(M, 2, 2); __v_assume(n < MAXSZ and at < n and len < StackMachine::SIZE_OF_MEMORY); g_copies = 0;
    auto mem = bytes_(n); put(M, g_top - 2, mem + at); M->values_[g_top - 1] = Value(int64_t(len)); bool null = slot(M, g_top - 2).null; bool lnull = slot(M, g_top - 1).null; __v_assume(not lnull);
    t.run(nullptr, -1); Slot x = slot(M, g_top - 2);
    __v_assert(g_copies == 1 and g_src == mem + at and g_len == len, "the characters at the address are copied"); __v_assert(x.val.type == Value::Vp and x.val.as_p() == g_dst and x.null == null, "the copy is the result");
    __v_assert(g_dst == M->memory_ and M->memory_[len] == 0, "the copy is terminated and within the machine's memory"); __v_cover("end");
}
ROOT prove_St_s() {
    uint64_t n = IN64("bytes"), at = IN64("at"), len = IN64("len"), n2 = IN64("bytes2"), at2 = IN64("at2"); auto M = machine(O::St_s); Test t(M, 3, 3); __v_assume(n < MAXSZ and at < n and n2 < MAXSZ and at2 < n2); g_copies = 0;
    auto mem = bytes_(n), mem2 = bytes_(n2); put(M, g_top - 3, mem + at); put(M, g_top - 2, mem2 + at2); M->values_[g_top - 1] = Value(int64_t(len)); bool null = slot(M, g_top - 2).null;
    t.run(nullptr, -3); __v_assert(g_copies == not null, "a string is stored unless it is NULL"); __v_assert(null or (g_dst == mem + at and g_src == mem2 + at2 and g_len == len), "the string is copied to the address"); __v_cover("end");
}
ROOT prove_St_Tup_s() {
    uint8_t at = __v_input_u8("at"); uint64_t n = IN64("bytes"), off = IN64("off"), len = IN64("len"), n2 = IN64("bytes2"), off2 = IN64("off2"); auto M = machine(O::St_Tup_s, 2, 1, at); Tuples ts(at); Test t(M, 2, 2);
    __v_assume(n < MAXSZ and off < n and len < n - off and n2 < MAXSZ and off2 < n2); g_copies = 0; auto mem = bytes_(n), mem2 = bytes_(n2); __v_assume(ts.j != at);
    ts.arr[1]->values_[at] = Value((void*) (mem + off)); put(M, g_top - 2, mem2 + off2); M->values_[g_top - 1] = Value(int64_t(len)); bool null = slot(M, g_top - 2).null;
    t.run(ts.arr, -1); __v_assert(((uint64_t(ts.arr[1]->null_mask_) >> at) & 1) == null and g_copies == not null, "the NULL bit is stored, and a string unless it is NULL"); __v_assert(null or (g_dst == mem + off and g_src == mem2 + off2 and g_len == len and mem[off + len] == 0), "the string is copied into the tuple and terminated"); ts.frame(1, at); __v_cover("end");
}

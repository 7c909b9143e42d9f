// The operations of the expression evaluator.  The real interpreter loop executes one operation, whatever it is, on an
// arbitrary stack: arbitrary depth, arbitrary values, arbitrary NULL bits.  props/V01.py puts the machine into that state
// when the first operation is dispatched (phase0) and observes it when the next one is (phase1).
#include "sm.hpp"
template<class T, class R, class F, class P> static void binary(O opc, F f, P pre) {
    auto M = machine(opc); Test t(M, 2, 2);
    Slot l = slot(M, g_top - 2), r = slot(M, g_top - 1);
    __v_assume((l.null or l.val.type == vtag<T>()) and (r.null or r.val.type == vtag<T>()));
    if constexpr (std::is_same_v<T, bool>) __v_assume(vbits<T>(l.val) <= 1 and vbits<T>(r.val) <= 1);
    bool some = not l.null and not r.null; R want{};
    if (some) { T a = get<T>(l.val), b = get<T>(r.val); __v_assume(pre(a, b)); want = f(a, b); }
    t.run(nullptr, -1);
    Slot x = slot(M, g_top - 2);
    __v_assert(x.null == not some, "the result is NULL iff an operand is NULL");
    __v_assert(not some or holds<R>(x, want), "the result is that of the operation on the two operands"); __v_cover("end");
}
template<class T, class R, class F, class P> static void unary(O opc, F f, P pre) {
    auto M = machine(opc); Test t(M, 1, 1);
    Slot l = slot(M, g_top - 1); __v_assume(l.null or l.val.type == vtag<T>());
    if constexpr (std::is_same_v<T, bool>) __v_assume(vbits<T>(l.val) <= 1);
    R want{};
    if (not l.null) { T a = get<T>(l.val); __v_assume(pre(a)); want = f(a); }
    t.run(nullptr, 0);
    Slot x = slot(M, g_top - 1);
    __v_assert(x.null == l.null, "the result is NULL iff the operand is NULL");
    __v_assert(l.null or holds<R>(x, want), "the result is that of the operation on the operand"); __v_cover("end");
}
#define ANY [](auto, auto) { return true; }
#define ANY1 [](auto) { return true; }
#define BIN(OPC, T, R, EXPR) ROOT prove_##OPC() { binary<T, R>(O::OPC, [](T a, T b) -> R { return EXPR; }, ANY); }
#define BINP(OPC, T, R, EXPR, PRE) ROOT prove_##OPC() { binary<T, R>(O::OPC, [](T a, T b) -> R { return EXPR; }, [](T a, T b) -> bool { return PRE; }); }
#define UN(OPC, T, R, EXPR) ROOT prove_##OPC() { unary<T, R>(O::OPC, [](T a) -> R { return EXPR; }, ANY1); }
#define UNP(OPC, T, R, EXPR, PRE) ROOT prove_##OPC() { unary<T, R>(O::OPC, [](T a) -> R { return EXPR; }, [](T a) -> bool { return PRE; }); }
static bool okadd(int64_t a, int64_t b) { int64_t r; return not __builtin_add_overflow(a, b, &r); }
static bool oksub(int64_t a, int64_t b) { int64_t r; return not __builtin_sub_overflow(a, b, &r); }
static bool okmul(int64_t a, int64_t b) { int64_t r; return not __builtin_mul_overflow(a, b, &r); }
static bool okdiv(int64_t a, int64_t b) { return b != 0 and not (a == INT64_MIN and b == -1); }
using D = double; using Fl = float; using I = int64_t;
BINP(Add_i, I, I, a + b, okadd(a, b)) BINP(Sub_i, I, I, a - b, oksub(a, b)) BINP(Mul_i, I, I, a * b, okmul(a, b)) BINP(Div_i, I, I, a / b, okdiv(a, b)) BINP(Mod_i, I, I, a % b, okdiv(a, b))
BIN(Add_f, Fl, Fl, a + b) BIN(Sub_f, Fl, Fl, a - b) BIN(Mul_f, Fl, Fl, a * b) BIN(Div_f, Fl, Fl, a / b)
BIN(Add_d, D, D, a + b) BIN(Sub_d, D, D, a - b) BIN(Mul_d, D, D, a * b) BIN(Div_d, D, D, a / b)
BIN(And_i, I, I, a & b) BIN(Or_i, I, I, a | b) BIN(Xor_i, I, I, a ^ b)
BIN(Eq_i, I, bool, a == b) BIN(NE_i, I, bool, a != b) BIN(LT_i, I, bool, a < b) BIN(GT_i, I, bool, a > b) BIN(LE_i, I, bool, a <= b) BIN(GE_i, I, bool, a >= b)
BIN(Eq_f, Fl, bool, a == b) BIN(NE_f, Fl, bool, a != b) BIN(LT_f, Fl, bool, a < b) BIN(GT_f, Fl, bool, a > b) BIN(LE_f, Fl, bool, a <= b) BIN(GE_f, Fl, bool, a >= b)
BIN(Eq_d, D, bool, a == b) BIN(NE_d, D, bool, a != b) BIN(LT_d, D, bool, a < b) BIN(GT_d, D, bool, a > b) BIN(LE_d, D, bool, a <= b) BIN(GE_d, D, bool, a >= b)
BIN(Eq_b, bool, bool, a == b) BIN(NE_b, bool, bool, a != b)
UNP(Inc, I, I, a + 1, a != INT64_MAX) UNP(Dec, I, I, a - 1, a != INT64_MIN) UNP(Minus_i, I, I, -a, a != INT64_MIN) UN(Minus_f, Fl, Fl, -a) UN(Minus_d, D, D, -a) UN(Neg_i, I, I, ~a)
UN(Not_b, bool, bool, not a) UN(Cast_i_b, bool, I, a ? 1 : 0) UN(Cast_f_i, I, Fl, float(a)) UN(Cast_d_i, I, D, double(a)) UN(Cast_f_d, D, Fl, float(a)) UN(Cast_d_f, Fl, D, double(a))
__attribute__((no_sanitize("float-cast-overflow"))) static int64_t toint(double x) { return int64_t(x); }
__attribute__((no_sanitize("float-cast-overflow"))) static int64_t tointf(float x) { return int64_t(x); }
UNP(Cast_i_d, D, I, toint(a), a > -9223372036854777856.0 and a < 9223372036854775808.0) UNP(Cast_i_f, Fl, I, tointf(a), a > -9223373136366403584.f and a < 9223372036854775808.f)
BIN(Cmp_i, I, I, a < b ? -1 : a > b ? 1 : 0) BIN(Cmp_b, bool, I, int64_t(a) - int64_t(b)) BIN(Cmp_f, Fl, I, int64_t(a >= b) - int64_t(a <= b)) BIN(Cmp_d, D, I, int64_t(a >= b) - int64_t(a <= b))
/*----- strings: strcmp by contract (the usual order of character sequences, as an uninterpreted function) ------------*/
extern "C" { int __v_uf_strcmp(const void *, const void *); bool __v_uf_like(const void *, const void *); bool __v_uf_regex(const void *, const void *);
int contract_strcmp(const char *a, const char *b) { return __v_uf_strcmp(a, b); }
bool contract_like(const char **s, const char **p) { return __v_uf_like(*s, *p); } }
using S = void*;
BINP(Eq_s, S, bool, __v_uf_strcmp(a, b) == 0, a and b) BINP(NE_s, S, bool, __v_uf_strcmp(a, b) != 0, a and b) BINP(LT_s, S, bool, __v_uf_strcmp(a, b) < 0, a and b) BINP(GT_s, S, bool, __v_uf_strcmp(a, b) > 0, a and b) BINP(LE_s, S, bool, __v_uf_strcmp(a, b) <= 0, a and b) BINP(GE_s, S, bool, __v_uf_strcmp(a, b) >= 0, a and b)
BINP(Cmp_s, S, I, int64_t(__v_uf_strcmp(a, b)), a and b)
/*----- three-valued logic -----------------------------------------------------------------------------------------*/
enum K { FALSE_, UNKNOWN, TRUE_ };
static K kleene(const Slot &s) { return s.null ? UNKNOWN : (s.val.val_.i & 0xff) ? TRUE_ : FALSE_; }
static void logic(O opc, bool conj) {
    auto M = machine(opc); Test t(M, 2, 2); Slot l = slot(M, g_top - 2), r = slot(M, g_top - 1);
    __v_assume((l.null or (l.val.type == Value::Vb and vbits<bool>(l.val) <= 1)) and (r.null or (r.val.type == Value::Vb and vbits<bool>(r.val) <= 1)));
    K a = kleene(l), b = kleene(r), want = conj ? (a < b ? a : b) : (a > b ? a : b);
    t.run(nullptr, -1); Slot x = slot(M, g_top - 2);
    __v_assert(kleene(x) == want, "three-valued logic"); __v_assert(x.null or x.val.type == Value::Vb, "the result is Boolean"); __v_cover("end");
}
ROOT prove_And_b() { logic(O::And_b, true); }
ROOT prove_Or_b() { logic(O::Or_b, false); }
/*----- operations that are only ever given operands that are not NULL --------------------------------------------------*/
ROOT prove_ShL_i() {
    auto M = machine(O::ShL_i); Test t(M, 2, 2); Slot l = slot(M, g_top - 2), r = slot(M, g_top - 1); __v_assume(l.val.type == Value::Vi and r.val.type == Value::Vi and uint64_t(r.val.val_.i) < 64);
    t.run(nullptr, -1); Slot x = slot(M, g_top - 2); __v_assert(x.null == l.null and holds<I>(x, int64_t(uint64_t(l.val.val_.i) << r.val.val_.i)), "shift left"); __v_cover("end");
}
ROOT prove_ShLi_i() {
    uint8_t c = __v_input_u8("c"); __v_assume(c < 64); auto M = machine(O::ShLi_i, 1, c); Test t(M, 1, 1); Slot l = slot(M, g_top - 1); __v_assume(l.val.type == Value::Vi);
    t.run(nullptr, 0); Slot x = slot(M, g_top - 1); __v_assert(x.null == l.null and holds<I>(x, int64_t(uint64_t(l.val.val_.i) << c)), "shift left by a constant"); __v_cover("end");
}
ROOT prove_SARi_i() {
    uint8_t c = __v_input_u8("c"); __v_assume(c < 64); auto M = machine(O::SARi_i, 1, c); Test t(M, 1, 1); Slot l = slot(M, g_top - 1); __v_assume(l.val.type == Value::Vi);
    t.run(nullptr, 0); Slot x = slot(M, g_top - 1); __v_assert(x.null == l.null and holds<I>(x, l.val.val_.i >> c), "arithmetic shift right by a constant"); __v_cover("end");
}
ROOT prove_EqZ_i() { auto M = machine(O::EqZ_i); Test t(M, 1, 1); Slot l = slot(M, g_top - 1); __v_assume(l.val.type == Value::Vi); t.run(nullptr, 0); Slot x = slot(M, g_top - 1); __v_assert(x.null == l.null and holds<bool>(x, l.val.val_.i == 0), "test for zero"); __v_cover("end"); }
ROOT prove_NEZ_i() { auto M = machine(O::NEZ_i); Test t(M, 1, 1); Slot l = slot(M, g_top - 1); __v_assume(l.val.type == Value::Vi); t.run(nullptr, 0); Slot x = slot(M, g_top - 1); __v_assert(x.null == l.null and holds<bool>(x, l.val.val_.i != 0), "test for not zero"); __v_cover("end"); }
ROOT prove_Add_p() {
    auto M = machine(O::Add_p); Test t(M, 2, 2); Slot l = slot(M, g_top - 2), r = slot(M, g_top - 1); __v_assume(l.val.type == Value::Vi and r.val.type == Value::Vp and not l.null and not r.null);
    t.run(nullptr, -1); Slot x = slot(M, g_top - 2); __v_assert(not x.null and x.val.type == Value::Vp and uint64_t(x.val.val_.i) == uint64_t(l.val.val_.i) + uint64_t(r.val.val_.i), "pointer plus offset"); __v_cover("end");
}
/*----- NULL tests, selection -----*/
ROOT prove_Is_Null() { auto M = machine(O::Is_Null); Test t(M, 1, 1); Slot l = slot(M, g_top - 1); t.run(nullptr, 0); Slot x = slot(M, g_top - 1); __v_assert(not x.null and holds<bool>(x, l.null), "NULL test"); __v_cover("end"); }
ROOT prove_Sel() {
    auto M = machine(O::Sel); Test t(M, 3, 3); Slot c = slot(M, g_top - 3), a = slot(M, g_top - 2), b = slot(M, g_top - 1); __v_assume(c.null or (c.val.type == Value::Vb and vbits<bool>(c.val) <= 1));
    t.run(nullptr, -2); Slot x = slot(M, g_top - 3); bool cond = c.val.val_.i & 1; const Slot &w = cond ? a : b;
    __v_assert(implies(c.null, x.null), "selection by NULL gives NULL"); __v_assert(c.null or (x.null == w.null and same(x.val, w.val)), "selection picks the chosen entry"); __v_cover("end");
}

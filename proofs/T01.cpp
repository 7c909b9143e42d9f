// Values and tuples.  The real IR/Tuple.cpp and IR/Tuple.hpp on arbitrary tuples.
#include "IR/Tuple.cpp"
#include "v.hpp"
static Tuple * tuple(uint64_t n, const char *nm) {
    auto t = (Tuple*) __v_heap(sizeof(Tuple), 0); t->values_ = (Value*) __v_heap(n * sizeof(Value), sizeof(Value)); t->num_values_ = n; t->null_mask_ = SmallBitset(IN64(nm)); return t;
}
static uint64_t mask(const Tuple *t) { return uint64_t(t->null_mask_); }
static bool bit(uint64_t m, uint64_t i) { return (m >> i) & 1; }
static bool same(const Value &a, const Value &b) { return a.type == b.type and a.val_.i == b.val_.i; }
extern "C" { uint64_t g_alive, g_k, g_same; Value *g_values, *g_other; }
/*----- values -------------------------------------------------------------------------------------------------------*/
template<class T> static void roundtrip(T x, Value::value_type tag) {
    Value v(x); __v_assert(v.type == tag, "the value has the type it was made of"); T y = v.template as<T>(); __v_assert(__builtin_memcmp(&x, &y, sizeof x) == 0, "a value is read back as it was written");
    const Value c(x); T z = c.template as<T>(); __v_assert(__builtin_memcmp(&x, &z, sizeof x) == 0, "a constant value is read back as it was written");
    Value w; w = v; __v_assert(w == v and std::hash<Value>{}(w) == std::hash<Value>{}(v), "a copy is equal"); __v_cover("end");
}
ROOT prove_value_b() { roundtrip<bool>(__v_input_bool("x"), Value::Vb); }
ROOT prove_value_i() { roundtrip<int64_t>(IN64("x"), Value::Vi); }
ROOT prove_value_d() { uint64_t b = IN64("x"); double d; __builtin_memcpy(&d, &b, 8); roundtrip<double>(d, Value::Vd); }
ROOT prove_value_f() { uint32_t b = __v_input_u32("x"); float d; __builtin_memcpy(&d, &b, 4); roundtrip<float>(d, Value::Vf); }
ROOT prove_value_p() { roundtrip<void*>((void*) IN64("x"), Value::Vp); }
ROOT prove_value_int() { int32_t x = __v_input_u32("x"); Value v(x); __v_assert(v.as_i() == x and int32_t(v) == x and int64_t(v) == x, "an integer keeps its value and sign"); uint16_t u = __v_input_u16("u"); Value w(u); __v_assert(w.as_i() == u, "an unsigned integer keeps its value"); __v_cover("end"); }
template<class T> static void equality(T x, T y) {
    Value v(x), w(y); bool eq = __builtin_memcmp(&x, &y, sizeof x) == 0;
    __v_assert((v == w) == eq, "values are equal iff they hold the same"); __v_assert((v != w) == not eq, "values differ iff they hold different things");
    __v_assert(not eq or std::hash<Value>{}(v) == std::hash<Value>{}(w), "equal values have equal hashes"); __v_cover("end");
}
ROOT prove_equal_b() { equality<bool>(__v_input_bool("x"), __v_input_bool("y")); }
ROOT prove_equal_i() { equality<int64_t>(IN64("x"), IN64("y")); }
ROOT prove_equal_f() { uint32_t a = __v_input_u32("x"), b = __v_input_u32("y"); float f, g; __builtin_memcpy(&f, &a, 4); __builtin_memcpy(&g, &b, 4); equality<float>(f, g); }
/*----- attributes ---------------------------------------------------------------------------------------------------*/
struct Test {
    uint64_t n, i, k, m; Tuple *t; Value old;
    Test(const char *nm = "null") { n = IN64("n"); i = IN64("i"); k = IN64("k"); __v_assume(n <= 64 and i < n and k < n); t = tuple(n, nm); m = mask(t); old = t->values_[k]; }
    void frame(bool also_bits = true) { if (also_bits) __v_assert((mask(t) & ~(1UL << i)) == (m & ~(1UL << i)), "no other NULL bit changes"); __v_assert(k == i or same(t->values_[k], old), "no other value changes"); __v_cover("end"); }
};
static Value any() { Value v; v.type = Value::value_type(__v_input_u8("type") & 7); v.val_.i = IN64("val"); return v; }
ROOT prove_set() { Test s; Value v = any(); s.t->set(s.i, v); __v_assert(same(s.t->values_[s.i], v) and not s.t->is_null(s.i), "the value is set, not NULL"); __v_assert(same(s.t->get(s.i), v) and same((*s.t)[s.i], v), "the value set is read"); s.frame(); }
ROOT prove_set_null() { Test s; Value v = any(); bool null = __v_input_bool("b"); s.t->set(s.i, v, null); __v_assert(same((*s.t)[s.i], v) and s.t->is_null(s.i) == null, "value and NULL bit are set"); s.frame(); }
ROOT prove_null() { Test s; s.t->null(s.i); __v_assert(s.t->is_null(s.i), "the attribute is NULL"); s.frame(); }
ROOT prove_not_null() { Test s; s.t->not_null(s.i); __v_assert(not s.t->is_null(s.i), "the attribute is not NULL"); s.frame(); __v_assert(same(s.t->values_[s.k], s.old), "the value is kept"); }
ROOT prove_is_null() { Test s; __v_assert(s.t->is_null(s.i) == bit(s.m, s.i), "the NULL bit is read"); s.frame(); __v_assert(mask(s.t) == s.m, "reading changes nothing"); }
ROOT prove_clear() { Test s; s.t->clear(); __v_assert(s.t->is_null(s.i), "every attribute is NULL"); s.frame(false); }
ROOT prove_insert() {
    Test s; uint64_t n2 = IN64("n2"), pos = IN64("pos"), len = IN64("len"); __v_assume(n2 and n2 <= 64 and len <= n2 and pos <= s.n and len <= s.n - pos); auto o = tuple(n2, "null2"); uint64_t m2 = mask(o);
    bool in = s.k >= pos and s.k - pos < len; Value v = o->values_[in ? s.k - pos : 0]; bool want_null = in ? bit(m2, (s.k - pos) & 63) : bit(s.m, s.k);
    __v_name(s.k, "k"); __v_name(pos, "pos"); __v_name(len, "len"); __v_name(s.m, "m"); __v_name(m2, "m2"); __v_role(s.t->values_, "values"); __v_role(s.t, "tuple"); __v_role(o->values_, "other"); __v_name(s.old.type, "old0"); __v_name(s.old.val_.i, "old1");
    s.t->insert(*o, pos, len);
    Value now = s.t->values_[s.k]; __v_assert(same(now, in ? v : s.old), "the values of the other tuple are inserted, and all others kept"); __v_assert(s.t->is_null(s.k) == want_null, "the NULL bits of the other tuple are inserted, and all others kept");
    Value v2 = o->values_[in ? s.k - pos : 0]; __v_assert(mask(o) == m2 and same(v2, v), "the tuple inserted is kept"); __v_cover("end");
}
/*----- equality and hash --------------------------------------------------------------------------------------------*/
// inputs of equal schemas: same width, types agree
struct Pair { uint64_t n, k, m; Tuple *a, *b; bool alive;
    Pair(bool same_mask) { n = IN64("n"); k = IN64("k"); __v_assume(n <= 64 and k < n); a = tuple(n, "nulla"); b = tuple(n, "nullb"); m = mask(a); __v_assume(n == 64 or (~m >> n) == 0); __v_assume(n == 64 or (~mask(b) >> n) == 0); if (same_mask) __v_assume(mask(b) == m);
        alive = not bit(m, k); __v_role(a->values_, "a"); __v_role(b->values_, "b"); __v_name(~m, "alive"); __v_name(k, "k"); } };
ROOT prove_equal_sound() { Pair p(false); Value x = p.a->values_[p.k], y = p.b->values_[p.k]; g_same = same(x, y); __v_name(g_same, "same"); bool r = *p.a == *p.b;
    __v_assert(not r or mask(p.a) == mask(p.b), "equal tuples have the same NULL attributes"); __v_assert(not r or not p.alive or same(x, y), "equal tuples have equal values"); __v_cover("end"); }
ROOT prove_unequal_sound() { Pair p(false); Value x = p.a->values_[p.k], y = p.b->values_[p.k]; g_same = same(x, y); __v_name(g_same, "same"); bool r = not (*p.a != *p.b);
    __v_assert(not r or mask(p.a) == mask(p.b), "tuples not unequal have the same NULL attributes"); __v_assert(not r or not p.alive or same(x, y), "tuples not unequal have equal values"); __v_cover("end"); }
ROOT prove_unequal_complete() { Pair p(true); __v_assert(not (*p.a != *p.b), "tuples with the same NULL attributes and values are not unequal"); __v_cover("end"); }
ROOT prove_equal_complete() { Pair p(true); __v_assert(*p.a == *p.b, "tuples with the same NULL attributes and values are equal"); __v_cover("end"); }
ROOT prove_equal_differ() { Pair p(false); __v_assume(mask(p.a) != mask(p.b)); __v_assert(not (*p.a == *p.b), "tuples with different NULL attributes differ"); __v_cover("end"); }
ROOT prove_hash_reads() { Pair p(true); uint64_t h = std::hash<Tuple>{}(*p.a); __v_name(h, "hash"); __v_assert(true, "the hash is a function of the NULL bits and the values that are not NULL"); __v_cover("end"); }
/*----- moves --------------------------------------------------------------------------------------------------------*/
ROOT prove_moves() {
    uint64_t n = IN64("n"), n2 = IN64("n2"); __v_assume(n <= 64 and n2 <= 64); auto a = tuple(n, "nulla"), b = tuple(n2, "nullb"); auto va = a->values_, vb = b->values_; auto ma = mask(a), mb = mask(b);
    swap(*a, *b); __v_assert(a->values_ == vb and b->values_ == va and mask(a) == mb and mask(b) == ma and a->num_values_ == n2 and b->num_values_ == n, "swap exchanges the tuples");
    { Tuple c(std::move(*a)); __v_assert(c.values_ == vb and mask(&c) == mb and c.num_values_ == n2 and a->values_ == nullptr and a->num_values_ == 0, "a move takes over the values"); *a = std::move(c); }
    __v_assert(a->values_ == vb and mask(a) == mb and a->num_values_ == n2, "a move assignment takes over the values"); __v_cover("end");
}

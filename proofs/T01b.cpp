// The memory of a tuple: the constructors of the real Tuple, on arbitrary schemas, and cloning.
#include "IR/Tuple.cpp"
#include "v.hpp"
extern "C" { uint64_t __v_uf_ps(uint64_t); bool __v_uf_ischar(uint64_t); uint64_t __v_uf_len(uint64_t); void __v_facts(uint64_t); }
static constexpr uint64_t E = sizeof(Schema::entry_type);
static Schema * schema(uint64_t n) {
    auto s = (Schema*) __v_heap(sizeof(Schema), 0); auto e = (Schema::entry_type*) __v_heap(n * E, E); __v_role(e, "entries");
    auto &I = s->entries_._M_impl; I._M_start = e; I._M_finish = e + n; I._M_end_of_storage = e + n; return s;
}
static uint64_t place(uint64_t n, uint64_t k) { return n * sizeof(Value) + __v_uf_ps(k); }
static void slots(const Tuple &t, uint64_t n, uint64_t k) {
    uint64_t off = t.values_[k].val_.i - (uint64_t) t.values_;
    __v_assert(t.num_values_ == n, "the tuple has a value per attribute"); __v_assert(t.is_null(k), "every attribute of a fresh tuple is NULL");
    if (__v_uf_ischar(k)) {
        __v_assert(t.values_[k].type == Value::Vp, "a string attribute holds a pointer");
        __v_assert(off == place(n, k), "a string lies behind the values and the strings before it");
    }
    __v_assert(__v_size(t.values_) >= place(n, n), "there is memory for all values and strings");
    __v_cover("end");
}
struct Test { uint64_t n, j, k; Test() { n = IN64("n"); j = IN64("j"); k = IN64("k"); __v_assume(n <= 64 and j < n and k < n); __v_name(offsetof(CharacterSequence, length), "lenoff"); __v_name(Value::Vp, "Vp"); __v_name(n, "n"); __v_name(j, "j"); __v_name(k, "k"); } };
// offsets are bounded and ordered as the attributes are: proved here by induction for arbitrary j, k; used for those that occur below
ROOT prove_lemma() { Test s; __v_facts(0); __v_facts(s.j); uint64_t t = 0; for (; t != s.k; ++t) __v_facts(t);
    if (s.j < s.k and __v_uf_ischar(s.j)) __v_assert(place(s.n, s.j) + __v_uf_len(s.j) + 1 <= place(s.n, s.k), "the places of strings, with their terminating NUL bytes, do not overlap");
    __v_assert(__v_uf_ps(s.k) <= s.k << 33, "the bytes needed are bounded"); if (s.j < s.k) __v_assert(__v_uf_ps(s.j + 1) <= __v_uf_ps(s.k), "the bytes needed grow with the attributes"); __v_cover("end"); }
ROOT prove_ctor_schema() { Test s; __v_facts(s.j); __v_facts(s.k); auto S = schema(s.n); Tuple t(*S); slots(t, s.n, s.k); t.values_ = nullptr; }
ROOT prove_ctor_types() { Test s; __v_facts(s.j); __v_facts(s.k); std::vector<const Type*> v; auto e = (const Type**) __v_heap(s.n * 8, 8); __v_role(e, "types"); auto &I = v._M_impl; I._M_start = e; I._M_finish = e + s.n; I._M_end_of_storage = e + s.n;
    Tuple t(std::move(v)); slots(t, s.n, s.k); t.values_ = nullptr; }
/*----- cloning ------------------------------------------------------------------------------------------------------*/
extern "C" { uint64_t g_k, g_n, g_slot, g_src, g_copies; }
// what the proofs above show of the constructor
extern "C" void stub_ctor(Tuple *self, const Schema *) { self->values_ = (Value*) __v_heap(g_n * sizeof(Value), sizeof(Value)); self->num_values_ = g_n; self->null_mask_ = SmallBitset(~0UL); __v_role(self->values_, "copy"); __v_name((uint64_t) self->values_, "copyaddr");
    __v_assume(self->values_[g_k].val_.i == place(g_n, g_k) + (uint64_t) self->values_); g_slot = self->values_[g_k].val_.i; __v_name(g_slot, "slot"); if (__v_uf_ischar(g_k)) __v_assume(self->values_[g_k].type == Value::Vp); }
extern "C" char * stub_strcpy(char *dst, const char *src) { if ((uint64_t) dst == g_slot) { ++g_copies; g_src = (uint64_t) src; } return dst; }
ROOT prove_clone() {
    Test s; __v_facts(s.k); g_k = s.k; g_n = s.n; g_copies = 0; auto S = schema(s.n); auto t = (Tuple*) __v_heap(sizeof(Tuple), 0); t->values_ = (Value*) __v_heap(s.n * sizeof(Value), sizeof(Value)); t->num_values_ = s.n; uint64_t m = IN64("null"); t->null_mask_ = SmallBitset(m);
    __v_role(t->values_, "orig"); Value old = t->values_[s.k]; if (__v_uf_ischar(s.k)) __v_assume(old.type == Value::Vp); __v_name(m, "m"); __v_name(old.type, "old0"); __v_name(old.val_.i, "old1");
    Tuple c = t->clone(*S); bool null = (m >> s.k) & 1; Value now = c.values_[s.k];
    __v_assert(c.num_values_ == s.n, "the clone has as many values"); __v_assert(c.is_null(s.k) == null, "an attribute of the clone is NULL iff it is in the original");
    if (not null and __v_uf_ischar(s.k)) { __v_assert(uint64_t(now.val_.i) == g_slot, "a string of the clone lies in the clone"); __v_assert(g_copies == 1 and g_src == uint64_t(old.val_.i), "a string is copied from the original"); }
    if (not null and not __v_uf_ischar(s.k)) __v_assert(now.type == old.type and now.val_.i == old.val_.i, "a value of the clone is that of the original");
    __v_assert(uint64_t(t->null_mask_) == m and t->values_[s.k].val_.i == old.val_.i, "the original is kept"); __v_cover("end"); c.values_ = nullptr;
}

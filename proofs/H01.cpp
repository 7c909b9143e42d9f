// The hash table: an arbitrary slot, and an arbitrary position of an arbitrary probe sequence, are followed.
#include <mutable/mutable.hpp>
#include "util/container/RefCountingHashMap.hpp"
#include "v.hpp"
using namespace m;
extern "C" {
void * __v_records(uint64_t n, uint64_t size, const char *kind);
uint64_t __v_uf_hash(uint64_t key);                         // an arbitrary hash function
uint64_t __v_uf_distance(uint64_t t);                       // the t-th triangular number
uint64_t __v_uf_position(uint64_t bucket, uint64_t slot);   // where in the probe sequence of a bucket a slot is
uint32_t __v_uf_oldlen(uint64_t slot); uint32_t __v_uf_oldkey(uint64_t slot);
}
struct Val { uint32_t v, pad; Val() = default; Val(const Val &o) : v(o.v) { } Val(Val &&o) : v(o.v) { } };
struct Hash { uint64_t operator()(uint32_t k) const { return __v_uf_hash(k); } };
using Map = RefCountingHashMap<uint32_t, Val, Hash>; using E = Map::entry_type; static_assert(sizeof(E) == 16);
extern "C" {
Map *g_map; E *g_tab, *g_new; uint64_t g_cap, g_mask, g_q, g_calls, g_resized, g_size, g_free; uint32_t g_key; uint64_t g_len0;
static uint64_t pl(uint64_t i) { return g_tab[i].probe_length; }
static uint32_t key(uint64_t i) { return g_tab[i].value.first; }
static uint32_t val(uint64_t i) { return g_tab[i].value.second.v; }
static uint64_t home(uint64_t i) { return __v_uf_hash(key(i)) & g_mask; }
static uint64_t slot(uint64_t b, uint64_t t) { return (b + __v_uf_distance(t)) & g_mask; }
static uint64_t where(uint64_t b, uint64_t s) { uint64_t p = __v_uf_position(b, s); __v_assume(p <= g_mask and slot(b, p) == s); return p; }
static void sequence(uint64_t b, uint64_t t) { __v_assume(t > g_mask or __v_uf_position(b, slot(b, t)) == t); }
static bool reachable(uint64_t s) { return pl(s) == 0 or where(home(s), s) < pl(home(s)); }       // every element is found from its bucket
static bool filled(uint64_t b, uint64_t t) { return t >= pl(b) or pl(slot(b, t)) != 0; }           // the probe sequence of a bucket has no gaps
static bool bounded(uint64_t b) { return pl(b) <= g_cap; }
/*----- contracts -------------------------------------------------------------------------------------------------------*/
void * stub_realloc(void *p, uint64_t n) { __v_assert(p == nullptr, "a table of its own"); auto r = (E*) __v_heap(n, 4); if (not g_new) g_new = r; return r; }
void * stub_malloc(uint64_t n) { return stub_realloc(nullptr, n); }
void stub_free(void *p) { }
void stub_resize(Map *m, uint64_t n) { __v_assert(m == g_map and n == 2 * g_size, "grows to twice the capacity"); __v_assert(g_resized == 0, "once"); g_resized = 1; m->table_ = g_tab; m->capacity_ = g_cap; m->watermark_high_ = __v_nondet_u64(); }
void stub_call(void*, Map::value_type *v) { if (v == &g_tab[g_q].value) ++g_calls; __v_assert(v->first == g_key, "only elements of the key"); }
}
// a map of arbitrary capacity and contents; if `grow`, the table is only got when the map is resized
static uint64_t pick(const char *n) { uint64_t i = __v_input_u64(n); __v_assume(i < g_cap); __v_name(i, n); return i; }
static void start(bool grow) {
    g_cap = IN64("capacity"); __v_assume(g_cap != 0 and (g_cap & (g_cap - 1)) == 0 and g_cap <= 1UL << 31); g_mask = g_cap - 1; __v_name(g_mask, "mask");
    g_map = (Map*) __v_heap(sizeof(Map), 0); g_tab = (E*) __v_heap(g_cap * sizeof(E), 4); __v_role(g_tab, "table"); g_resized = 0; g_calls = 0; __v_assume(__v_uf_distance(0) == 0);
    g_map->size_ = IN64("size"); __v_assume(g_map->size_ < g_cap); g_map->watermark_high_ = IN64("watermark"); __v_assume(g_map->watermark_high_ < g_cap); g_size = g_cap;
    g_map->table_ = g_tab; g_map->capacity_ = g_cap; if (grow and g_map->size_ >= g_map->watermark_high_) { g_size = IN64("oldcapacity"); __v_assume(g_size and g_size < 1UL << 31); g_map->table_ = (E*) __v_heap(g_size * sizeof(E), 4); g_map->capacity_ = g_size; }
    g_key = __v_input_u32("key"); __v_name(g_key, "key"); g_q = pick("q"); __v_assume(reachable(g_q)); g_free = pick("free"); __v_assume(pl(g_free) == 0);
}
static uint64_t bucket() { uint64_t b = __v_uf_hash(g_key) & g_mask; __v_name(b, "b"); __v_assume(bounded(b)); __v_name(where(b, g_free), "last"); __v_name(where(b, g_q), "at"); __v_name(pl(b), "len"); return b; }
struct Old { uint64_t len, klen; uint32_t key, val; };
static Old old(uint64_t s) { return {pl(s), 0, key(s), val(s)}; }
static void kept(uint64_t s, Old o) { __v_assert((pl(s) != 0) == (o.len != 0) and key(s) == o.key and val(s) == o.val, "every other element stays as it is"); }
ROOT prove_distance() {
    uint32_t t = __v_input_u32("t"), x = __v_input_u32("x"); auto F = [](uint32_t t) -> uint32_t { return t * t + t; };
    __v_assert(F(t + 1) == F(t) + 2 * (t + 1), "twice the distance, modulo 2^32"); __v_assert((F(t) & 1) == 0, "which is even"); if ((x & 1) == 0) __v_assert((((x + 2 * (t + 1)) >> 1) & 0x7fffffff) == (((x >> 1) + t + 1) & 0x7fffffff), "so half of it is the distance, modulo the capacity"); __v_cover("end");
}
// what is to be proved of an insertion: 0 about elements, 1 about being found, 2 about probe sequences
static void inserted(int what, uint64_t n, uint64_t c, uint64_t t, uint64_t b, uint64_t size, Old o, uint32_t v) {
    __v_assert(n < g_cap, "the element is put into the table"); sequence(b, pl(b) - 1);
    if (what == 0) { if (n == g_q) __v_assert(o.len == 0, "a free slot is taken"); else kept(g_q, o); }
    if (what == 1) { __v_assert(reachable(g_q), "every element is found from its bucket"); }
    if (what == 2) { __v_assert(filled(c, t), "probe sequences have no gaps"); }
    if (what == 3) { __v_assert(pl(n) != 0 and key(n) == g_key and val(n) == v, "it holds key and value"); __v_assert(bounded(b), "probe sequences are no longer than the table"); __v_assert(g_map->size_ == size + 1, "one more element"); }
    __v_cover("inserted");
}
struct Arbitrary { uint64_t b, c, t, size; uint32_t v; Old o; };
static Arbitrary arbitrary(int what) {
    Arbitrary a; start(true); a.b = bucket(); a.c = a.t = 0; if (what == 2) { a.c = pick("c"); a.t = IN64("t"); __v_name(a.t, "t"); __v_assume(bounded(a.c) and filled(a.c, a.t) and filled(a.b, a.t)); }
    a.size = g_map->size_; __v_assume(filled(a.b, where(a.b, g_free))); a.o = old(g_q); a.v = __v_input_u32("value"); return a;
}
static void with_duplicates(int what) {
    Arbitrary a = arbitrary(what); uint32_t p = pl(a.b); __v_assume((__v_uf_distance(p) & g_mask) == (((uint64_t) uint32_t(p * p + p) >> 1) & g_mask)); __v_assume(__v_uf_distance(p + 1UL) == __v_uf_distance(p) + p + 1); sequence(a.b, p);
    Val x; x.v = a.v; auto r = g_map->insert_with_duplicates(g_key, x); inserted(what, r.bucket_ - g_tab, a.c, a.t, a.b, a.size, a.o, a.v);
}
static void without_duplicates(int what) {
    Arbitrary a = arbitrary(what); Val x; x.v = a.v; auto r = g_map->insert_without_duplicates(g_key, x); uint64_t n = r.first.bucket_ - g_tab;
    if (r.second) { if (what == 0) __v_assert(a.o.len == 0 or a.o.key != g_key, "there was no element of that key"); inserted(what, n, a.c, a.t, a.b, a.size, a.o, a.v); }
    else { __v_assert(n < g_cap and pl(n) != 0 and key(n) == g_key, "the element of that key is returned"); kept(g_q, a.o); __v_assert(pl(g_q) == a.o.len and g_map->size_ == a.size, "nothing is changed"); __v_cover("found"); }
}
ROOT prove_with_duplicates_elements() { with_duplicates(0); }
ROOT prove_with_duplicates_found() { with_duplicates(1); }
ROOT prove_with_duplicates_sequence() { with_duplicates(2); }
ROOT prove_with_duplicates_inserted() { with_duplicates(3); }
ROOT prove_without_duplicates_elements() { without_duplicates(0); }
ROOT prove_without_duplicates_found() { without_duplicates(1); }
ROOT prove_without_duplicates_sequence() { without_duplicates(2); }
ROOT prove_without_duplicates_inserted() { without_duplicates(3); }
ROOT prove_find() {
    start(false); bucket(); uint64_t size = g_map->size_; Old o = old(g_q); auto r = g_map->find(g_key);
    if (r == g_map->end()) { __v_assert(o.len == 0 or o.key != g_key, "there is no element of that key"); __v_cover("none"); } else { uint64_t n = r.bucket_ - g_tab; __v_assert(n < g_cap and pl(n) != 0 and key(n) == g_key, "an element of that key is returned"); __v_cover("found"); }
    kept(g_q, o); __v_assert(pl(g_q) == o.len and g_map->size_ == size, "nothing is changed");
}
static void called(Old o) { __v_assert(g_calls == (o.len != 0 and o.key == g_key), "called exactly once for every element of the key"); kept(g_q, o); __v_assert(pl(g_q) == o.len, "nothing is changed"); __v_cover("end"); }
ROOT prove_for_all() { start(false); bucket(); Old o = old(g_q); std::function<void(Map::value_type&)> f; g_map->for_all(g_key, f); called(o); }
ROOT prove_for_all_const() { start(false); bucket(); Old o = old(g_q); std::function<void(const Map::value_type&)> f; const_cast<const Map*>(g_map)->for_all(g_key, f); called(o); }
/*----- iterating: an arbitrary element is not passed over, and what is reached is an element -------------------------------*/
static void reached(uint64_t n, uint64_t from, bool first) {
    __v_assert(n == g_cap or (n < g_cap and pl(n) != 0), "an element is reached, or the end"); __v_assert(first or n > from, "every element is reached at most once"); __v_assert(pl(g_q) == 0 or (not first and g_q <= from) or g_q >= n, "no element is passed over"); if (n == g_cap) __v_cover("end"); else __v_cover("element");
}
static uint64_t started() { start(false); return pick("from"); }
ROOT prove_begin() { start(false); reached(g_map->begin().bucket_ - g_tab, 0, true); }
ROOT prove_begin_const() { start(false); reached(g_map->cbegin().bucket_ - g_tab, 0, true); }
ROOT prove_next() { uint64_t i = started(); Map::iterator it(*g_map, g_tab + i); auto &r = ++it; reached(r.bucket_ - g_tab, i, false); __v_assert(&r == &it, "the iterator itself"); }
ROOT prove_next_postfix() { uint64_t i = started(); Map::const_iterator it(*g_map, g_tab + i); auto r = it++; reached(it.bucket_ - g_tab, i, false); __v_assert(r.bucket_ == g_tab + i, "the iterator as it was"); }
ROOT prove_bucket_iterator() {
    start(false); uint64_t b = bucket(), t = IN64("t"), n = __v_uf_distance(t); __v_assume(t < g_cap and n == (t * t + t) / 2 and __v_uf_distance(t + 1) == n + t + 1); auto it = g_map->bucket(g_key); __v_assert(it.bucket_index_ == b and it.step_ == 0 and it.has_next() == (pl(b) != 0), "at the first element of the bucket");
    it.step_ = t; it.bucket_index_ = slot(b, t); auto o = it++; __v_assert(o.step_ == t and o.bucket_index_ == slot(b, t) and o.bucket_index() == b, "the iterator as it was"); __v_assert(it.step_ == t + 1 and it.bucket_index_ == slot(b, t + 1) and it.has_next() == (t + 1 < pl(b)) and it.probe_length() == t + 1, "at the next slot of the probe sequence"); __v_cover("end");
}
/*----- rehashing, by contract of the insertion ---------------------------------------------------------------------------*/
extern "C" { uint64_t g_next;
struct It { void *map, *bucket; };
It stub_insert(Map *m, uint32_t k, const Val *v) {
    uint64_t i = v->v; __v_assert(m == g_map and m->table_ == g_new and m->capacity_ == g_cap, "into the new table"); __v_assert(i < g_size and __v_uf_oldlen(i) != 0 and k == __v_uf_oldkey(i), "an element of the old table, with its key"); if (i == g_q) ++g_calls; 
    __v_assert(g_new[g_free].probe_length == 0, "the new table is empty"); __v_assert(m->size_ == g_next, "elements are counted anew"); ++g_next; m->size_ = g_next; return {m, nullptr};
}
}
ROOT prove_rehash() {
    g_size = IN64("oldcapacity"); g_cap = IN64("capacity"); __v_assume(g_size and g_size <= 1UL << 31 and g_cap and g_cap <= 1UL << 31 and (g_cap & (g_cap - 1)) == 0); g_map = (Map*) __v_heap(sizeof(Map), 0); __v_role(g_map, "map"); g_map->table_ = (E*) __v_records(g_size, sizeof(E), "entries"); g_map->capacity_ = g_size; g_map->size_ = IN64("size"); g_map->watermark_high_ = IN64("watermark"); __v_assume(g_map->size_ <= g_map->watermark_high_);
    g_q = IN64("q"); g_free = IN64("free"); __v_assume(g_q < g_size and g_free < g_cap); __v_name(g_q, "q"); __v_name(g_free, "free"); __v_name(g_size, "oldcap"); __v_name(g_cap, "cap"); g_calls = 0; g_next = 0; g_new = nullptr;
    g_map->rehash(g_cap); __v_assert(g_calls == (__v_uf_oldlen(g_q) != 0), "every element is taken over exactly once"); __v_assert(g_map->capacity_ == g_cap and g_map->table_ == g_new, "the capacity asked for"); __v_cover("end");
}
ROOT prove_construct() {
    g_cap = 0; uint64_t n = IN64("n"); __v_assume(n and n <= 1UL << 31); g_free = IN64("free"); __v_name(g_free, "free"); g_new = nullptr; auto m = (Map*) __v_heap(sizeof(Map), 0); new (m) Map(n); __v_assert(m->capacity_ >= n and (m->capacity_ & (m->capacity_ - 1)) == 0, "a power of two, no less than what is asked for"); __v_assume(g_free < m->capacity_);
    __v_assert(m->table_[g_free].probe_length == 0 and m->size_ == 0, "every slot is free"); __v_cover("end");
}

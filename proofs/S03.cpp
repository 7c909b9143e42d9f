// Subset enumeration.  next_subset walks the subsets of a set in increasing numeric order; GospersHack walks the
// k-element subsets of {0..n-1} in increasing numeric order; SubsetEnumerator maps the latter onto an arbitrary set.
// cnt(x, b) is the ghost cardinality of { e in x : e < b }, defined by cnt(x,0)=0, cnt(x,b+1)=cnt(x,b)+[b in x].
#include <mutable/util/ADT.hpp>
#include "v.hpp"
using namespace m;
static bool in(uint64_t s, uint64_t x) { return (s >> x) & 1; }
static uint64_t below(uint64_t b) { return b >= 64 ? ~0UL : (1UL << b) - 1; }     // { e : e < b }
static uint64_t elem(const char *n) { uint64_t x = __v_input_u64(n); __v_assume(x < 64); return x; }

ROOT prove_next_subset() {
    uint64_t N = IN64("N"), s = IN64("s"), t = IN64("t");
    __v_assume((s & ~N) == 0 and (t & ~N) == 0);
    uint64_t r = uint64_t(next_subset(SmallBitset(s), SmallBitset(N)));
    __v_assert((r & ~N) == 0, "the successor is a subset");
    __v_assert(implies(t > s, s < r and r <= t), "no subset is skipped, the order is strictly increasing");
    __v_assert((r == 0) == (s == N), "the enumeration ends after the set itself and not before"); __v_cover("end");
}
ROOT prove_least_subset() {
    uint64_t N = IN64("N"), t = IN64("t"); __v_assume(t != 0 and (t & ~N) == 0);
    uint64_t r = uint64_t(least_subset(SmallBitset(N)));
    __v_assert(r != 0 and (r & ~N) == 0 and r <= t, "the enumeration starts with the numerically least nonempty subset"); __v_cover("end");
}

/*----- ghost cardinality and its lemmas ---------------------------------------------------------------------------*/
#ifdef NATIVE
extern "C" uint64_t __v_uf_cnt(uint64_t x, uint64_t b) { return __builtin_popcountll(x & below(b)); }
#else
extern "C" uint64_t __v_uf_cnt(uint64_t x, uint64_t b);
#endif
static uint64_t cnt(uint64_t x, uint64_t b) { return __v_uf_cnt(x, b); }
static void def0(uint64_t x) { __v_assume(cnt(x, 0) == 0); }
static void def1(uint64_t x, uint64_t b) { __v_assume(cnt(x, b + 1) == cnt(x, b) + in(x, b)); }
static uint64_t span(uint64_t a, uint64_t c) { return below(c) & ~below(a); }     // { e : a <= e < c }
// lemma statements
static bool Bound(uint64_t x, uint64_t b) { return cnt(x, b) <= b; }
static bool Zero(uint64_t x, uint64_t a, uint64_t c) { return implies((x & span(a, c)) == 0, cnt(x, c) == cnt(x, a)); }
static bool Ones(uint64_t x, uint64_t a, uint64_t c) { return implies((x & span(a, c)) == span(a, c), cnt(x, c) == cnt(x, a) + (c - a)); }
static bool Ext(uint64_t x, uint64_t y, uint64_t a, uint64_t c) { return implies(((x ^ y) & span(a, c)) == 0, cnt(x, c) - cnt(x, a) == cnt(y, c) - cnt(y, a)); }
static bool Mono(uint64_t x, uint64_t a, uint64_t c) { return cnt(x, a) <= cnt(x, c); }
static bool Min(uint64_t x, uint64_t b) { return (x & below(b)) >= below(cnt(x, b)); }
// proofs by induction on the upper end c in [a, 64]
ROOT prove_lemmas_base() {
    uint64_t x = IN64("x"), y = IN64("y"), a = IN64("a"); __v_assume(a <= 64); def0(x);
    __v_assert(Bound(x, 0) and Min(x, 0) and Zero(x, a, a) and Ones(x, a, a) and Ext(x, y, a, a) and Mono(x, a, a), "lemmas hold at the base"); __v_cover("end");
}
ROOT prove_lemmas_step() {
    uint64_t x = IN64("x"), y = IN64("y"), a = IN64("a"), c = IN64("c"); __v_assume(a <= c and c < 64);
    __v_assume(Bound(x, c) and Bound(y, c) and Min(x, c) and Zero(x, a, c) and Ones(x, a, c) and Ext(x, y, a, c) and Mono(x, a, c));
    def1(x, c); def1(y, c);
    __v_assert(Bound(x, c + 1), "cardinality is bounded by the range"); __v_assert(Zero(x, a, c + 1), "no elements, no count"); __v_assert(Ones(x, a, c + 1), "all elements counted");
    __v_assert(Ext(x, y, a, c + 1), "cardinality is extensional"); __v_assert(Mono(x, a, c + 1), "cardinality is monotone"); __v_assert(Min(x, c + 1), "a k-set is at least 2^k - 1");
    __v_cover("end");
}
// the successor of s among the sets of its size: q = lowest element, b = first gap above q
struct Shape { uint64_t s, q, b, succ; };
static Shape shape() {
    uint64_t s = IN64("s"), q = IN64("q"), b = IN64("b");
    __v_assume(s < (1UL << 63) and q < b and b <= 63);
    __v_assume((s & below(q)) == 0 and (s & span(q, b)) == span(q, b) and not in(s, b));
    return { s, q, b, (s & ~below(b)) | (1UL << b) | below(b - q - 1) };
}
ROOT prove_shape_total() {   // every nonempty set below 2^63 has such a shape
    uint64_t s = IN64("s"); __v_assume(s != 0 and s < (1UL << 63));
    uint64_t q = __builtin_ctzll(s), b = q + __builtin_ctzll(~(s >> q));
    __v_assert(q < b and b <= 63 and (s & below(q)) == 0 and (s & span(q, b)) == span(q, b) and not in(s, b), "lowest run of elements"); __v_cover("end");
}
ROOT prove_gosper_step() {
    Shape h = shape(); uint64_t n = IN64("n"); __v_assume(n < 64 and h.s < (1UL << n));
    GospersHack gh; gh.set_ = SmallBitset(h.s); gh.limit_ = 1UL << n;
    __v_assert(bool(gh) and uint64_t(*gh) == h.s, "the current subset");
    GospersHack &r = ++gh;
    __v_assert(&r == &gh and uint64_t(*gh) == h.succ, "advance to the successor among the sets of the same size");
    __v_assert(bool(gh) == (h.succ < (1UL << n)), "ended iff the successor exceeds the ground set"); __v_cover("end");
}
ROOT prove_gosper_empty() {
    uint64_t n = IN64("n"); __v_assume(n < 64);
    GospersHack gh = GospersHack::enumerate_all(0, n);
    __v_assert(bool(gh) and (*gh).empty(), "the only subset of size 0"); ++gh;
    __v_assert(not gh, "the enumeration of the subsets of size 0 ends"); __v_cover("end");
}
ROOT prove_gosper_start() {
    uint64_t k = IN64("k"), n = IN64("n"), t = IN64("t"); __v_assume(k <= n and n < 64);
    GospersHack gh = GospersHack::enumerate_all(k, n);
    __v_assert(uint64_t(*gh) == below(k), "starts with {0..k-1}"); __v_assert(bool(gh) == (below(k) < (1UL << n)) and bool(gh), "not ended at the start");
    __v_assume(Min(t, 64)); __v_assert(implies(cnt(t, 64) == k, uint64_t(*gh) <= t), "which is the least subset of size k");
    uint64_t s = IN64("s"); __v_assume(s < (1UL << n)); GospersHack g2 = GospersHack::enumerate_from(SmallBitset(s), n);
    __v_assert(uint64_t(*g2) == s and bool(g2), "resume from a given subset"); __v_assert(g2.limit_ == gh.limit_, "over the same ground set"); __v_cover("end");
}
ROOT prove_succ_size() {
    Shape h = shape(); uint64_t s = h.s, f = h.succ, q = h.q, b = h.b, j = b - q - 1;
    def0(s); def0(f); def1(s, b); def1(f, b);
    __v_assume(Zero(s, 0, q) and Ones(s, q, b) and Ones(f, 0, j) and Zero(f, j, b) and Ext(s, f, b + 1, 64));
    __v_assert(f > s, "strictly increasing"); __v_assert(cnt(f, 64) == cnt(s, 64), "same size"); __v_cover("end");
}
ROOT prove_succ_least() {
    Shape h = shape(); uint64_t s = h.s, f = h.succ, q = h.q, b = h.b, t = IN64("t"), d = IN64("d");
    __v_assume(t > s and cnt(t, 64) == cnt(s, 64));
    __v_assume(d < 64 and in(t, d) and not in(s, d) and ((t ^ s) & ~below(d + 1)) == 0);     // highest difference
    def0(s); def1(s, d); def1(t, d); def1(s, b); def1(t, b);
    __v_assume(Ext(s, t, d + 1, 64) and Zero(s, 0, q) and Zero(s, 0, d) and Ones(s, q, b) and Min(t, b) and Bound(t, d) and Bound(t, 64) and Bound(s, 64) and Bound(t, b)); def0(t);
    __v_assert(f <= t, "no set of the same size lies between"); __v_cover("end");
}
ROOT prove_highest_difference() {
    uint64_t s = IN64("s"), t = IN64("t"); __v_assume(t > s); uint64_t d = 63 - __builtin_clzll(s ^ t);
    __v_assert(d < 64 and in(t, d) and not in(s, d) and ((t ^ s) & ~below(d + 1)) == 0, "highest difference exists"); __v_cover("end");
}
/*----- SubsetEnumerator: the k-subsets of {0..|S|-1}, scattered onto S --------------------------------------------*/
ROOT prove_subset_enumerator() {
    uint64_t S = IN64("S"), k = IN64("k"); __v_assume(k <= (uint64_t) __builtin_popcountll(S) and S != ~0UL);
    SubsetEnumerator se(SmallBitset(S), k);
    GospersHack gh = GospersHack::enumerate_all(k, __builtin_popcountll(S));
    __v_assert(bool(se) == bool(gh) and bool(se), "starts like the enumeration over {0..|S|-1}");
    __v_assert(uint64_t(*se) == _pdep_u64(uint64_t(*gh), S), "scattered onto the set");
    uint64_t g = IN64("g"); se.GH_.set_ = SmallBitset(g); gh.set_ = SmallBitset(g);       // any position
    __v_assert(uint64_t(*se) == _pdep_u64(g, S), "current subset"); __v_assert((uint64_t(*se) & ~S) == 0, "is a subset of S");
    __v_assert(bool(se) == (g < (1UL << __builtin_popcountll(S))), "ends with the enumeration over {0..|S|-1}");
    __v_assume(g < (1UL << __builtin_popcountll(S))); SubsetEnumerator &r = ++se; ++gh;
    __v_assert(&r == &se and uint64_t(*se.GH_) == uint64_t(*gh) and uint64_t(se.set_) == S and bool(se) == bool(gh), "advances with it"); __v_cover("end");
}

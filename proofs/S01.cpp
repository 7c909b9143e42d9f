// Set algebra over integers 0..63: every operation agrees with elementwise membership.  The set S and an arbitrary
// element x are universally quantified, so a postcondition on "x" is a postcondition on every element.
#include <mutable/util/ADT.hpp>
#include "v.hpp"
using namespace m;
static uint64_t elem(const char *n) { uint64_t x = __v_input_u64(n); __v_assume(x < 64); return x; }
static bool in(uint64_t s, uint64_t x) { return (s >> x) & 1; }
static bool in(SmallBitset s, uint64_t x) { return in(uint64_t(s), x); }
// `in` itself must agree with the observable operator[] / at / operator()
ROOT prove_membership() {
    const SmallBitset S(IN64("S")); uint64_t x = elem("x");
    __v_assert(bool(S[x]) == in(S, x), "operator[] is membership");
    __v_assert(bool(S(x)) == in(S, x), "operator() is membership");
    __v_assert(bool(S.at(x)) == in(S, x), "at() is membership");
    __v_assert(uint64_t(S) == IN64("S"), "round trip through the bit representation");
    __v_assert(uint64_t(SmallBitset()) == 0, "default is empty");
    SmallBitset T = S; __v_assert(bool(T[x]) == in(S, x) and bool(T(x)) == in(S, x) and bool(T.at(x)) == in(S, x), "non-const access");
    __v_assert(T.capacity() == 64, "capacity"); __v_cover("end");
}
ROOT prove_write() {
    SmallBitset S(IN64("S")); const SmallBitset old = S; uint64_t x = elem("x"), y = elem("y"); bool b = __v_input_bool("b");
    S[x] = b; __v_assert(in(S, y) == (y == x ? b : in(old, y)), "assigning one element changes it and nothing else");
    SmallBitset S2(IN64("S")); S2.at(x) = b; __v_assert(S2 == S, "at() assignment");
    SmallBitset S3(IN64("S")); S3(x) = b; __v_assert(S3 == S, "operator() assignment");
    SmallBitset S4(IN64("S")); SmallBitset Q(IN64("Q")); uint64_t z = elem("z"); S4[x] = Q[z];
    __v_assert(in(S4, y) == (y == x ? in(Q, z) : in(old, y)), "assigning from another set's element"); __v_cover("end");
}
ROOT prove_at_throws() {
    SmallBitset S(IN64("S")); const SmallBitset C = S; uint64_t x = IN64("x"); bool t1 = false, t2 = false;
    try { (void) bool(S.at(x)); } catch (m::out_of_range) { t1 = true; }
    try { (void) bool(C.at(x)); } catch (m::out_of_range) { t2 = true; }
    __v_assert(t1 == (x >= 64) and t2 == (x >= 64), "at() rejects exactly the offsets beyond the capacity"); __v_cover("end");
}
ROOT prove_binary() {
    SmallBitset A(IN64("A")), B(IN64("B")); uint64_t x = elem("x");
    __v_assert(in(A | B, x) == (in(A, x) or in(B, x)), "union"); __v_assert(unify(A, B) == (A | B), "unify");
    __v_assert(in(A & B, x) == (in(A, x) and in(B, x)), "intersection"); __v_assert(intersect(A, B) == (A & B), "intersect");
    __v_assert(in(A - B, x) == (in(A, x) and not in(B, x)), "difference"); __v_assert(subtract(A, B) == (A - B), "subtract");
    __v_assert(in(~A, x) == not in(A, x), "complement");
    SmallBitset C = A; SmallBitset &r = (C |= B); __v_assert(C == (A | B) and &r == &C, "|=");
    SmallBitset D = A; D &= B; __v_assert(D == (A & B), "&=");
    SmallBitset E = A; E -= B; __v_assert(E == (A - B), "-="); __v_cover("end");
}
ROOT prove_relations() {
    SmallBitset A(IN64("A")), B(IN64("B")); uint64_t x = elem("x");
    __v_assert((A == B) == (uint64_t(A) == uint64_t(B)), "equality"); __v_assert((A != B) == not (A == B), "inequality");
    __v_assert(implies(A.is_subset(B) and in(A, x), in(B, x)), "is_subset is sound");
    // completeness with the least witness
    if (not A.is_subset(B)) { uint64_t d = uint64_t(A) & ~uint64_t(B); __v_assert(d != 0, "is_subset is complete: a counterexample element exists"); }
    else __v_assert((uint64_t(A) & ~uint64_t(B)) == 0, "is_subset");
    __v_assert(A.empty() == (uint64_t(A) == 0), "empty"); __v_assert(bool(A) == not A.empty(), "bool conversion");
    __v_assert(implies(A.empty(), not in(A, x)), "empty has no element"); __v_cover("end");
}
ROOT prove_size() {
    SmallBitset A(IN64("A")); uint64_t x = elem("x");
    // inductive definition of cardinality
    __v_assert(SmallBitset().size() == 0, "size of the empty set");
    __v_assert(SmallBitset::Singleton(x).size() == 1, "size of a singleton"); __v_cover("end");
}
ROOT prove_size_step() {
    uint64_t a = IN64("A"); SmallBitset A(a); __v_assume(a != 0);
    __v_assert(A.size() == SmallBitset(a & (a - 1)).size() + 1, "removing one element lowers the size by one"); __v_cover("end");
}
ROOT prove_singleton() {
    SmallBitset A(IN64("A")); uint64_t a = uint64_t(A);
    __v_assert(A.is_singleton() == (a != 0 and (a & (a - 1)) == 0), "is_singleton iff exactly one element"); __v_cover("end");
}
ROOT prove_factories() {
    uint64_t n = IN64("n"); __v_assume(n <= 64); uint64_t x = elem("x"), y = elem("y");
    __v_assert(in(SmallBitset::All(n), x) == (x < n), "All(n) is 0..n-1");
    __v_assert(in(SmallBitset::Singleton(y), x) == (x == y), "Singleton(y)"); __v_cover("end");
}
ROOT prove_hi_lo() {
    SmallBitset A(IN64("A")); __v_assume(not A.empty()); uint64_t x = elem("x"), y = elem("y");
    SmallBitset h = A.hi(); 
    __v_assert(h.is_subset(A) and not h.empty(), "hi() is in the set");
    __v_assert(implies(in(h, x) and in(A, y), y <= x), "hi() is the greatest element, alone");
    SmallBitset l = least_subset(A);
    __v_assert(l.is_subset(A) and not l.empty(), "least_subset is in the set"); __v_assert(implies(in(l, x) and in(A, y), x <= y), "least_subset is the least element, alone");
    SmallBitset m = A.mask_to_lo();
    __v_assert(in(m, x) == (not (uint64_t(A) & ((uint64_t(1) << x) - 1))), "mask_to_lo covers exactly the positions up to the least element"); __v_cover("end");
}
ROOT prove_singleton_mask() {
    uint64_t y = elem("y"), x = elem("x");
    __v_assert(in(SmallBitset::Singleton(y).singleton_to_lo_mask(), x) == (x < y), "singleton_to_lo_mask"); __v_cover("end");
}
ROOT prove_least_empty() { __v_assert(least_subset(SmallBitset()).empty(), "least_subset of the empty set"); __v_cover("end"); }
ROOT prove_succ() {
    uint64_t a = IN64("A"); SmallBitset A(a);
    if (a != ~0UL) { SmallBitset B = A; SmallBitset &r = ++B; __v_assert(uint64_t(B) == a + 1 and &r == &B, "++ is the numeric successor"); SmallBitset C = A; __v_assert(C++ == A and C == B, "post ++"); }
    if (a != 0) { SmallBitset B = A; --B; __v_assert(uint64_t(B) == a - 1, "-- is the numeric predecessor"); SmallBitset C = A; __v_assert(C-- == A and C == B, "post --"); }
    __v_cover("end");
}

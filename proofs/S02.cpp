// Iteration over a SmallBitset.  An iterator's abstract state is the set of elements still to be visited: begin() has
// all of S, dereferencing yields the least (greatest) of them, advancing removes exactly that one, and it equals end()
// iff none is left.  By induction over the finite remaining set: every element once, in order, then the end.
#include <mutable/util/ADT.hpp>
#include "v.hpp"
using namespace m;
static uint64_t elem(const char *n) { uint64_t x = __v_input_u64(n); __v_assume(x < 64); return x; }
static bool in(uint64_t s, uint64_t x) { return (s >> x) & 1; }
template<typename It> static uint64_t remaining(const It &it) { return it.bits_; }      // abstraction function
ROOT prove_begin_end() {
    SmallBitset S(IN64("S"));
    __v_assert(remaining(S.begin()) == uint64_t(S) and remaining(S.cbegin()) == uint64_t(S), "begin() has all elements ahead");
    __v_assert(remaining(S.rbegin()) == uint64_t(S) and remaining(S.crbegin()) == uint64_t(S), "rbegin() has all elements ahead");
    __v_assert(remaining(S.end()) == 0 and remaining(S.cend()) == 0 and remaining(S.rend()) == 0 and remaining(S.crend()) == 0, "end() has none ahead");
    __v_assert((S.begin() == S.end()) == S.empty() and (S.begin() != S.end()) == not S.empty(), "empty iff begin is end");
    __v_assert((S.rbegin() == S.rend()) == S.empty() and (S.rbegin() != S.rend()) == not S.empty(), "empty iff rbegin is rend");
    __v_cover("end");
}
template<typename It> static void step(It it, bool asc, uint64_t R) {
    uint64_t x = elem("x"), e = *it;
    __v_assert(e < 64 and in(R, e), "dereferencing yields an element still to be visited");
    __v_assert(implies(in(R, x), asc ? e <= x : x <= e), "it is the next in order");
    SmallBitset one = it.as_set();
    __v_assert(uint64_t(one) == uint64_t(1) << e, "as_set() is the singleton of the current element");
    It j = it; It &r = ++j; 
    __v_assert(&r == &j and remaining(j) == (R & ~(uint64_t(1) << e)), "advancing removes exactly the current element");
    It k = it; It old = k++; __v_assert(remaining(old) == R and remaining(k) == remaining(j), "post-increment");
    __v_assert((j == It(0)) == (remaining(j) == 0) and (j != It(0)) == (remaining(j) != 0), "reaches the end iff nothing is left");
    __v_assert(not (it == j) and it != j and it == old, "iterator equality is equality of the remaining elements");
    __v_cover("end");
}
ROOT prove_forward_step() { uint64_t R = IN64("R"); __v_assume(R != 0); step(SmallBitset(R).begin(), true, R); }
ROOT prove_reverse_step() { uint64_t R = IN64("R"); __v_assume(R != 0); step(SmallBitset(R).rbegin(), false, R); }

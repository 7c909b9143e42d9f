// is_connected(S) against the contract of reachable(): reach(src, S) stands for its result, whose meaning is proved in G01.cpp
#include <mutable/util/AdjacencyMatrix.hpp>
#include "v.hpp"
using namespace m;
extern "C" uint64_t __v_uf_reach(const void *, uint64_t src, uint64_t S);
extern "C" uint64_t contract_reachable(const AdjacencyMatrix *M, uint64_t src, uint64_t S) { return __v_uf_reach(M, src, S); }
ROOT prove_is_connected() {
    AdjacencyMatrix M; __v_input_array(&M.m_, 64, 8, "m"); M.num_vertices_ = __v_input_u64("n"); uint64_t S = IN64("S"); __v_assume(S != 0);
    uint64_t v = IN64("v"); bool c = M.is_connected(SmallBitset(S));
    __v_assert(c == (__v_uf_reach(&M, S & -S, S) == S), "connected iff one vertex reaches every other within the set"); __v_cover("end");
}

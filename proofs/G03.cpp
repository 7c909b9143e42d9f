// Enumeration of connected subgraphs.  Fix an arbitrary connected vertex set T (ghost).  A pending work item (S, X)
// generates T iff S is part of T and T \ S avoids X.  Contract: sum over the pending items of [generates T] plus the
// number of times T was reported is what it should be; every reported set is connected and within `super`.
// The work list (a standard container) is replaced by its contract: a bag whose next element is arbitrary among those put
// in; neighbors() by its contract, proved in G01.
#include <mutable/util/AdjacencyMatrix.hpp>
#include "v.hpp"
using namespace m;
extern "C" {
uint64_t __v_uf_nb(uint64_t S);          // neighbours of S
bool __v_uf_conn(uint64_t S);            // S is connected
uint64_t g_T, g_super, g_hiT, g_count, g_emit, g_S, g_X, g_cell[2];
bool g_empty, g_has;
}
static bool sub(uint64_t a, uint64_t b) { return (a & ~b) == 0; }
static uint64_t gen(uint64_t S, uint64_t X) { return sub(S, g_T) & (((g_T & ~S) & X) == 0); }
static bool inv(uint64_t S, uint64_t X) { return (S != 0) & sub(S, g_super) & __v_uf_conn(S); }
static void choose() {
    if (g_has) return;
    g_S = __v_nondet_u64(); g_X = __v_nondet_u64(); g_has = true;
    __v_assume(inv(g_S, g_X) & (gen(g_S, g_X) <= g_count));
}
extern "C" {
void bag_ctor(void *) { g_empty = true; g_has = false; g_count = 0; }
void bag_push(void *, uint64_t *S, uint64_t *X) {
    uint64_t s = *S, x = *X;
    __v_assume(implies((s != 0) & ((s & (s - 1)) == 0), __v_uf_conn(s)));                          // a single vertex is connected
    __v_assume(implies(__v_uf_conn(g_S) & sub(g_S, s) & sub(s & ~g_S, __v_uf_nb(g_S)), __v_uf_conn(s)));   // so is a connected set with some of its neighbours
    __v_require(inv(s, x), "pending sets are connected, nonempty and within the given vertices");
    g_count += gen(s, x); g_empty = false;
}
void bag_push_pair(void *b, uint64_t *p) { bag_push(b, p, p + 1); }
void * bag_front(void *) { __v_require(not g_empty, "the work list is not empty"); choose(); g_cell[0] = g_S; g_cell[1] = g_X; return g_cell; }
void bag_pop(void *) {
    __v_require(not g_empty, "the work list is not empty"); choose();
    g_count -= gen(g_S, g_X); g_has = false; g_cell[0] = __v_nondet_u64(); g_cell[1] = __v_nondet_u64(); g_empty = __v_nondet_bool(); __v_assume(implies(g_empty, g_count == 0));
}
bool bag_empty(const void *) { return g_empty; }
uint64_t contract_neighbors(const void *, uint64_t S) {
    uint64_t N = __v_uf_nb(S); __v_assume((N & S) == 0);
    __v_assume(implies((S != 0) & sub(S, g_T) & (S != g_T), (N & g_T) != 0));                      // T is connected
    return N;
}
void contract_callback(const void *, uint64_t S) {
    __v_assert(__v_uf_conn(S) and S != 0, "every reported set is connected"); __v_assert(sub(S, g_super), "every reported set is within the given vertices");
    g_emit += S == g_T;
}
}
ROOT prove_each_once() {
    uint64_t super = IN64("super"), source = IN64("source"), T = IN64("T");
    __v_assume(T != 0 and sub(T, super));
    g_T = T; g_super = super; g_count = g_emit = 0; uint64_t ts = T & source & super; g_hiT = ts ? 1UL << (63 - __builtin_clzll(ts)) : 0; g_empty = true; g_has = false; g_S = 0;
    AdjacencyMatrix M; std::function<void(SmallBitset)> cb;
    M.for_each_CSG_undirected(SmallBitset(super), SmallBitset(source), std::move(cb));
    __v_assert(g_emit == (ts != 0), "a connected set that contains a source is reported exactly once, any other never"); __v_cover("end");
}

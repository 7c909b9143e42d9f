// Enumeration of pairs of connected, adjacent, disjoint subgraphs (csg-cmp pairs), against the contract of the connected
// subgraph enumeration proved in G03: for_each_CSG_undirected(super, source, f) calls f exactly once for every connected
// nonempty T within super that contains a vertex of source.  Fix an arbitrary pair {A, B}; the outer enumeration is
// followed for the members F = A, F = B and an arbitrary other F, the inner one for A, B and an arbitrary other set.
#include <mutable/util/AdjacencyMatrix.hpp>
#include "v.hpp"
using namespace m;
extern "C" {
uint64_t __v_uf_nb(uint64_t S);          // neighbours of S
bool __v_uf_conn(uint64_t S);            // S is connected
uint64_t g_A, g_B, g_Z, g_F, g_super, g_level, g_emit, g_calls, g_bad;
}
static bool sub(uint64_t a, uint64_t b) { return (a & ~b) == 0; }
typedef std::function<void(SmallBitset)> fun;
static bool member(uint64_t T, uint64_t super, uint64_t source) { return (T != 0) & __v_uf_conn(T) & sub(T, super) & ((T & source) != 0); }
extern "C" {
void contract_csg(const AdjacencyMatrix *, uint64_t super, uint64_t source, fun *f) {
    if (g_level == 0) { g_level = 1; if (member(g_F, super, source)) (*f)(SmallBitset(g_F)); g_level = 0; }
    else {
        if (member(g_A, super, source)) (*f)(SmallBitset(g_A));
        if (g_B != g_A and member(g_B, super, source)) (*f)(SmallBitset(g_B));
        uint64_t Z = g_Z; if (Z != g_A and Z != g_B and member(Z, super, source)) (*f)(SmallBitset(Z));
    }
}
uint64_t contract_neighbors(const void *, uint64_t S) { uint64_t N = __v_uf_nb(S); __v_assume((N & S) == 0); return N; }
void contract_pair(const void *, uint64_t S, uint64_t T) {
    __v_assert(S != 0 and T != 0 and __v_uf_conn(S) and __v_uf_conn(T), "both reported sets are connected"); __v_assert(sub(S | T, g_super), "both are within the given vertices");
    __v_assert((S & T) == 0, "they are disjoint"); __v_assert((__v_uf_nb(S) & T) != 0, "they are joined by an edge");
    g_emit += (S == g_A and T == g_B) or (S == g_B and T == g_A);
}
void contract_single(const void *, uint64_t S) { g_calls += S == g_A; g_bad += S != g_A; }
}
ROOT prove_each_pair_once() {
    uint64_t super = IN64("super"), A = IN64("A"), B = IN64("B"), F = IN64("F"); g_A = A; g_B = B; g_super = super; g_level = 0; g_Z = IN64("Z"); g_emit = 0;
    __v_assume(A != B);
    __v_assume(implies((A & B) == 0, ((__v_uf_nb(A) & B) != 0) == ((__v_uf_nb(B) & A) != 0)));     // edges are undirected
    AdjacencyMatrix M;
    { std::function<void(SmallBitset, SmallBitset)> cb; g_F = A; M.for_each_CSG_pair_undirected(SmallBitset(super), std::move(cb)); }
    { std::function<void(SmallBitset, SmallBitset)> cb; g_F = B; M.for_each_CSG_pair_undirected(SmallBitset(super), std::move(cb)); }
    bool ccp = (A != 0) & (B != 0) & __v_uf_conn(A) & __v_uf_conn(B) & sub(A | B, super) & ((A & B) == 0) & ((__v_uf_nb(A) & B) != 0);
    __v_assert(g_emit == ccp, "every connected, disjoint, adjacent pair is reported exactly once in one order, any other never");
    __v_assume(F != A and F != B); g_emit = 0;
    { std::function<void(SmallBitset, SmallBitset)> cb; g_F = F; M.for_each_CSG_pair_undirected(SmallBitset(super), std::move(cb)); }
    __v_assert(g_emit == 0, "and not again while another set is first"); __v_cover("end");
}
ROOT prove_all_sources() {       // the overload without sources uses every vertex as source
    uint64_t super = IN64("super"), A = IN64("A"); g_F = A; g_A = A; g_level = g_calls = g_bad = 0; AdjacencyMatrix M; std::function<void(SmallBitset)> cb;
    M.for_each_CSG_undirected(SmallBitset(super), std::move(cb));
    __v_assert(g_calls == member(A, super, super), "without sources, every connected set is reported once"); __v_assert(g_bad == 0, "and no other"); __v_cover("end");
}

// Reachability and neighbourhoods in the join graph.  m[] is arbitrary.  A set R is the set of vertices reachable from
// src iff it is the least set that contains src and is closed under m: proved with an arbitrary ghost vertex x (closed)
// and an arbitrary ghost closed superset C of src (least).  The fact that C is closed is supplied, for each row the code
// reads, by props/G01.py.
#include <mutable/util/AdjacencyMatrix.hpp>
#include "v.hpp"
using namespace m;
static bool in(uint64_t s, uint64_t x) { return (s >> x) & 1; }
static bool sub(uint64_t a, uint64_t b) { return (a & ~b) == 0; }
static uint64_t elem(const char *n) { uint64_t x = __v_input_u64(n); __v_assume(x < 64); return x; }
static void any(AdjacencyMatrix &M) { __v_input_array(&M.m_, 64, 8, "m"); M.num_vertices_ = __v_input_u64("n"); __v_assume(M.num_vertices_ <= 64); }

ROOT prove_reachable_all() {
    AdjacencyMatrix M; any(M); uint64_t src = IN64("src"), x = elem("x"), C = IN64("C"); __v_assume(sub(src, C));
    uint64_t R = uint64_t(M.reachable(SmallBitset(src)));
    __v_assert(sub(src, R), "the sources are reachable");
    uint64_t mx = uint64_t(M.m_[x]);
    __v_assert(implies(in(R, x), sub(mx, R)), "everything adjacent to a reachable vertex is reachable");
    __v_assert(sub(R, C), "nothing else is reachable"); __v_cover("end");
}
ROOT prove_reachable_within() {
    AdjacencyMatrix M; any(M); uint64_t src = IN64("src"), S = IN64("S"), x = elem("x"), C = IN64("C"); __v_assume(sub(src & S, C));
    uint64_t R = uint64_t(M.reachable(SmallBitset(src), SmallBitset(S)));
    __v_assert(sub(src & S, R), "the sources within S are reachable"); __v_assert(sub(R, S), "within S");
    uint64_t mx = uint64_t(M.m_[x]);
    __v_assert(implies(in(R, x), sub(mx & S, R)), "everything in S adjacent to a reachable vertex is reachable");
    __v_assert(sub(R, C), "nothing else is reachable"); __v_cover("end");
}
ROOT prove_neighbors() {
    AdjacencyMatrix M; any(M); uint64_t S = IN64("S"), x = elem("x"), y = elem("y");
    uint64_t N = uint64_t(M.neighbors(SmallBitset(S)));
    uint64_t mx = uint64_t(M.m_[x]);
    __v_assert((N & S) == 0, "neighbours are outside the set");
    __v_assert(implies(in(S, x) and in(mx, y) and not in(S, y), in(N, y)), "every adjacent outside vertex is a neighbour");
    __v_assert(implies(uint64_t(0) == __v_input_u64("COL") /* no member of S is adjacent to y */, not in(N, y)), "only adjacent vertices are neighbours"); __v_cover("end");
}
ROOT prove_is_connected_pair() {
    AdjacencyMatrix M; any(M); uint64_t A = IN64("A"), B = IN64("B"), x = elem("x");
    bool c = M.is_connected(SmallBitset(A), SmallBitset(B));
    uint64_t mx = uint64_t(M.m_[x]);
    __v_assert(implies(in(B, x) and (mx & A) != 0, c), "an edge between the sets connects them");
    __v_assert(implies(uint64_t(0) == __v_input_u64("COL"), not c), "connected only by an edge"); __v_cover("end");
}
/*----- connectedness: no proper part of S is separated from the rest ----------------------------------------------*/
ROOT prove_is_connected_true() {     // C: any part of S, closed under m within S, that holds the least vertex of S
    AdjacencyMatrix M; any(M); uint64_t S = IN64("S"), C = IN64("C"); __v_assume(S != 0); __v_assume(sub(S & -S, C));
    __v_assert(implies(M.is_connected(SmallBitset(S)), sub(S, C)), "a connected set has no separated proper part"); __v_cover("end");
}
/*----- element access --------------------------------------------------------------------------------------------*/
ROOT prove_access() {
    AdjacencyMatrix M; any(M); uint64_t i = IN64("i"), j = IN64("j"), k = elem("k"), l = elem("l"), n = M.num_vertices_; bool b = __v_input_bool("b");
    uint64_t mi = i < 64 ? uint64_t(M.m_[i]) : 0, mk = uint64_t(M.m_[k]); const AdjacencyMatrix &cM = M;
    bool t1 = false, t2 = false;
    try { (void) bool(M.at(i, j)); } catch (m::out_of_range) { t1 = true; }
    try { (void) bool(cM.at(i, j)); } catch (m::out_of_range) { t2 = true; }
    __v_assert(t1 == (i >= n or j >= n) and t2 == t1, "checked access rejects exactly the vertices that do not exist");
    __v_assume(i < n and j < n);
    __v_assert(bool(M(i, j)) == in(mi, j) and bool(cM(i, j)) == in(mi, j) and bool(M.at(i, j)) == in(mi, j) and bool(cM.at(i, j)) == in(mi, j), "reading an entry");
    bool kl = in(mk, l); M(i, j) = b;
    __v_assert(in(uint64_t(M.m_[k]), l) == (k == i and l == j ? b : kl), "writing an entry changes it and nothing else");
    bool old = in(uint64_t(M.m_[k]), l), e = bool(cM(j, i)); M(i, j) = M(j, i);
    __v_assert(in(uint64_t(M.m_[k]), l) == (k == i and l == j ? e : old), "copying an entry"); __v_assert(M.num_vertices_ == n, "number of vertices unchanged"); __v_cover("end");
}
ROOT prove_equal() {
    AdjacencyMatrix M; any(M); AdjacencyMatrix N; __v_input_array(&N.m_, 64, 8, "m2"); N.num_vertices_ = __v_input_u64("n2"); __v_assume(N.num_vertices_ <= 64);
    uint64_t x = elem("x"), EQ = IN64("EQ"); uint64_t a = uint64_t(M.m_[x]), b = uint64_t(N.m_[x]);
    bool eq = M == N;
    __v_assert(implies(eq, M.num_vertices_ == N.num_vertices_ and implies(x < M.num_vertices_, a == b)), "equal matrices agree everywhere");
    __v_assert(implies(EQ == 0 and M.num_vertices_ == N.num_vertices_, eq), "matrices that agree everywhere are equal"); __v_cover("end");
}

ROOT prove_unequal() {
    AdjacencyMatrix M; any(M); AdjacencyMatrix N; __v_input_array(&N.m_, 64, 8, "m2"); N.num_vertices_ = __v_input_u64("n2"); __v_assume(N.num_vertices_ <= 64);
    uint64_t x = elem("x"), EQ = IN64("EQ"); uint64_t a = uint64_t(M.m_[x]), b = uint64_t(N.m_[x]);
    bool eq = not (M != N);
    __v_assert(implies(eq, M.num_vertices_ == N.num_vertices_ and implies(x < M.num_vertices_, a == b)), "equal matrices agree everywhere");
    __v_assert(implies(EQ == 0 and M.num_vertices_ == N.num_vertices_, eq), "matrices that agree everywhere are equal"); __v_cover("end");
}

#include "graph.hpp"
void one() {
    G g = any_graph(rnd(2), 12); auto M = mk(g); const AdjacencyMatrix &cM = M; uint64_t A = sset(g), B = sset(g);
    cur_case += F(" A=%lx B=%lx", A, B);
    if (uint64_t(M.reachable(SmallBitset(A))) != reach(g, A, all(g))) fail("reachable(A)");
    if (uint64_t(M.reachable(SmallBitset(A), SmallBitset(B))) != reach(g, A, B)) fail("reachable(A,B)");
    if (uint64_t(M.neighbors(SmallBitset(A))) != nb(g, A)) fail("neighbors(A)");
    if (A and M.is_connected(SmallBitset(A)) != conn(g, A)) fail("is_connected(A)");
    uint64_t t = 0; for (unsigned i = 0; i != g.n; ++i) if (B >> i & 1) t |= g.m[i];
    if (M.is_connected(SmallBitset(A), SmallBitset(B)) != ((t & A) != 0)) fail("is_connected(A,B)");
    unsigned i = rnd(66), j = rnd(66); bool thr = false, thr2 = false;
    try { if (bool(M.at(i, j)) != (g.m[i] >> j & 1)) fail("at(%u,%u)", i, j); } catch (m::out_of_range) { thr = true; }
    try { if (bool(cM.at(i, j)) != (g.m[i] >> j & 1)) fail("at(%u,%u)", i, j); } catch (m::out_of_range) { thr2 = true; }
    if (thr != (i >= g.n or j >= g.n) or thr2 != thr) fail("at(%u,%u) range check", i, j);
    G h = g; i = rnd(g.n); j = rnd(g.n); 
    if (rnd(2)) { h.m[i] ^= 1UL << j; M(i, j) = h.m[i] >> j & 1; } else { unsigned k = rnd(g.n), l = rnd(g.n); h.m[i] = (h.m[i] & ~(1UL << j)) | (h.m[k] >> l & 1) << j; M(i, j) = M(k, l); }
    for (unsigned a = 0; a != g.n; ++a) for (unsigned b = 0; b != g.n; ++b) if (bool(M(a, b)) != (h.m[a] >> b & 1) or bool(cM(a, b)) != (h.m[a] >> b & 1)) fail("entry (%u,%u) after writing (%u,%u)", a, b, i, j);
    G k = rnd(2) ? h : any_graph(false, 3); auto N = mk(k); bool eq = k.n == h.n; for (unsigned a = 0; eq and a != k.n; ++a) eq = k.m[a] == h.m[a];
    if ((M == N) != eq or (M != N) == eq) fail("equality");
}

#pragma once
#include "r.hpp"
#include <mutable/util/AdjacencyMatrix.hpp>
#include "util/AdjacencyMatrix.cpp"
using namespace m;
struct G { unsigned n; uint64_t m[64]; };
static G any_graph(bool undirected, unsigned maxn = 6) {
    G g; g.n = 1 + rnd(maxn); unsigned hi = rnd(8) == 0 && maxn > 8 ? 64 : g.n; g.n = hi; for (auto &r : g.m) r = 0;
    unsigned den = 1 + rnd(6);
    for (unsigned i = 0; i != g.n; ++i) for (unsigned j = 0; j != g.n; ++j) if (i != j and rnd(8) < den and (g.n < 16 or rnd(8) == 0)) { g.m[i] |= 1UL << j; if (undirected) g.m[j] |= 1UL << i; }
    if (not undirected and rnd(3) == 0) g.m[rnd(g.n)] |= 1UL << rnd(g.n);
    return g;
}
static AdjacencyMatrix mk(const G &g) { AdjacencyMatrix M(g.n); for (unsigned i = 0; i != g.n; ++i) for (unsigned j = 0; j != g.n; ++j) if (g.m[i] >> j & 1) M(i, j) = true; 
    cur_case = F("n=%u rows:", g.n); for (unsigned i = 0; i != g.n; ++i) cur_case += F(" %lx", g.m[i]); return M; }
static uint64_t reach(const G &g, uint64_t src, uint64_t S) { uint64_t R = src & S; for (;;) { uint64_t N = R; for (unsigned i = 0; i != g.n; ++i) if (R >> i & 1) N |= g.m[i] & S; if (N == R) return R; R = N; } }
static bool conn(const G &g, uint64_t S) { return reach(g, S & -S, S) == S; }
static uint64_t nb(const G &g, uint64_t S) { uint64_t N = 0; for (unsigned i = 0; i != g.n; ++i) if (S >> i & 1) N |= g.m[i]; return N & ~S; }
static uint64_t all(const G &g) { return g.n == 64 ? ~0UL : (1UL << g.n) - 1; }
static uint64_t sset(const G &g) { uint64_t a = rng() & all(g); if (g.n > 8) a &= rng(); return a; }

#include "graph.hpp"
void one() {
    G g = any_graph(true, 6); auto M = mk(g); if (g.n > 8) { return; }
    uint64_t super = rnd(3) ? all(g) : sset(g); cur_case += F(" super=%lx", super);
    std::map<std::pair<uint64_t,uint64_t>, int> seen;
    M.for_each_CSG_pair_undirected(SmallBitset(super), [&](SmallBitset S, SmallBitset T) { uint64_t s(S), t(T); ++seen[{ std::min(s, t), std::max(s, t) }]; });
    for (uint64_t S = 0; S <= all(g); ++S) for (uint64_t T = S; T <= all(g); ++T) {
        int want = S and T and not (S & T) and ((S | T) & ~super) == 0 and conn(g, S) and conn(g, T) and (nb(g, S) & T); auto it = seen.find({ S, T });
        int got = it == seen.end() ? 0 : it->second; if (got != want) fail("pair {%lx,%lx} reported %d times, expected %d", S, T, got, want);
    }
}

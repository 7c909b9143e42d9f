#include "graph.hpp"
void one() {
    G g = any_graph(true, 7); auto M = mk(g); if (g.n > 8) { return; }
    uint64_t super = rnd(3) ? all(g) : sset(g), source = rnd(2) ? super : sset(g); cur_case += F(" super=%lx source=%lx", super, source);
    std::map<uint64_t, int> seen; bool two = rnd(3) == 0;
    if (two) { source = super; M.for_each_CSG_undirected(SmallBitset(super), [&](SmallBitset S) { ++seen[uint64_t(S)]; }); }
    else M.for_each_CSG_undirected(SmallBitset(super), SmallBitset(source), [&](SmallBitset S) { ++seen[uint64_t(S)]; });
    for (uint64_t T = 0; T <= all(g); ++T) { int want = T and (T & ~super) == 0 and (T & source) and conn(g, T); if ((seen.count(T) ? seen[T] : 0) != want) fail("set %lx reported %d times, expected %d", T, seen[T], want); }
}

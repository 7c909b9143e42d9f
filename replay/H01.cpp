#include "r.hpp"
#include "util/container/RefCountingHashMap.hpp"
using namespace m;
// the hash table against std::multimap, with few hash values and arbitrary capacities
static unsigned spread; struct Hash { uint64_t operator()(uint32_t k) const { return spread ? uint64_t(k) * 0x9E3779B97F4A7C15UL % spread : 7; } };
using Map = RefCountingHashMap<uint32_t, uint32_t, Hash>; using Ref = std::multimap<uint32_t, uint32_t>;
static std::multiset<uint32_t> of(const Ref &r, uint32_t k) { std::multiset<uint32_t> s; for (auto [i, e] = r.equal_range(k); i != e; ++i) s.insert(i->second); return s; }
static void look(Map &m, const Ref &r, uint32_t k) {
    auto want = of(r, k); std::multiset<uint32_t> a, b; auto f = m.find(k); if ((f != m.end()) != !want.empty()) fail("find(%u): %d, but there are %zu", k, f != m.end(), want.size()); if (f != m.end() and (f->first != k or !want.count(f->second))) fail("find(%u) yields (%u, %u)", k, f->first, f->second);
    m.for_all(k, std::function<void(Map::value_type&)>([&](Map::value_type &v) { if (v.first != k) fail("for_all(%u) yields key %u", k, v.first); a.insert(v.second); })); const_cast<const Map&>(m).for_all(k, std::function<void(const Map::value_type&)>([&](const Map::value_type &v) { b.insert(v.second); }));
    if (a != want or b != want) fail("for_all(%u) yields %zu and %zu elements, not %zu, or other ones", k, a.size(), b.size(), want.size());
    std::multiset<uint32_t> c; for (auto it = m.bucket(k); it.has_next();) { auto o = it++; if (o->first == k) c.insert(o->second); } if (c != want) fail("the bucket of %u has %zu elements, not %zu, or other ones", k, c.size(), want.size());
}
static void all(Map &m, const Ref &r) {
    if (m.size() != r.size()) fail("size %zu, not %zu", m.size(), r.size()); std::multiset<std::pair<uint32_t, uint32_t>> a, b(r.begin(), r.end()), c; for (auto it = m.begin(); it != m.end(); ++it) a.emplace(it->first, it->second); for (auto it = m.cbegin(); it != m.cend();) { auto o = it++; c.emplace(o->first, o->second); } if (a != b or c != b) fail("iterating yields %zu and %zu elements, not %zu, or other ones", a.size(), c.size(), b.size());
    if (m.capacity() & (m.capacity() - 1)) fail("capacity %zu", m.capacity());
}
void one() {
    spread = rnd(3) ? rnd(9) : 1 << 20; unsigned n = 1 + rnd(40); Map m(n); Ref r; unsigned ops = 1 + rnd(rnd(4) ? 40 : 400), keys = 1 + rnd(rnd(2) ? 6 : 300); cur_case = F("capacity %u, %u operations on %u keys, hash %% %u", n, ops, keys, spread); all(m, r);
    for (unsigned i = 0; i != ops; ++i) {
        uint32_t k = rnd(keys), v = rng();
        switch (rnd(12)) {
            case 0: case 1: case 2: { bool had = r.count(k); auto p = m.insert_without_duplicates(k, v); if (p.second == had) fail("insert_without_duplicates(%u): inserted is %d", k, p.second); if (p.first->first != k or (p.second ? p.first->second != v : !of(r, k).count(p.first->second))) fail("insert_without_duplicates(%u) yields another element", k); if (!had) r.emplace(k, v); break; }
            case 3: m.rehash(); break; case 4: if (rnd(4) == 0 and m.size()) m.resize(m.capacity() * 2); break;
            default: { auto p = m.insert_with_duplicates(k, v); if (p->first != k or p->second != v) fail("insert_with_duplicates(%u) yields another element", k); r.emplace(k, v); }
        }
        look(m, r, k); look(m, r, rnd(keys)); if (rnd(8) == 0) all(m, r);
    }
    all(m, r); for (unsigned k = 0; k != keys; ++k) look(m, r, k);
}

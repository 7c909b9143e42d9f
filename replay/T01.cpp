#include "r.hpp"
#include "IR/Tuple.cpp"
#include "catalog/Type.cpp"
static Tuple mk(unsigned n) { Tuple t; t.values_ = (Value*) malloc(n * sizeof(Value)); t.num_values_ = n; for (unsigned i = 0; i != n; ++i) new (&t.values_[i]) Value(); t.clear(); return t; }
static int64_t num_() { switch (rnd(6)) { case 0: return 0; case 1: return -1; case 2: return rnd(5); case 3: return INT64_MIN + rnd(2); default: return int64_t(rng()) >> rnd(64); } }
static Value any_() { switch (rnd(5)) { case 0: return Value(num_()); case 1: return Value(bool(rnd(2))); case 2: return Value(float(rnd(9)) / 2); case 3: return Value(double(rnd(9)) / 2); default: return Value((char*) (rng() & 0xffff)); } }
static bool same(Value a, Value b) { return a.type == b.type and !memcmp(&a.val_, &b.val_, 8); }
struct Mod { std::vector<Value> v; std::vector<bool> null; };
static void eqm(const Tuple &t, const Mod &m, const char *what) { for (unsigned i = 0; i != m.v.size(); ++i) { if (t.is_null(i) != m.null[i]) fail("after %s: NULL of %u is %d", what, i, t.is_null(i)); if (!same(t[i], m.v[i])) fail("after %s: value %u differs", what, i); } }
static void fill(Tuple &t, Mod &m, unsigned n) { m.v.resize(n); m.null.resize(n); for (unsigned i = 0; i != n; ++i) { m.v[i] = any_(); m.null[i] = rnd(2); t.set(i, m.v[i]); if (m.null[i]) t.null(i); } }
static void ops() {
    unsigned n = rnd(3) ? 1 + rnd(8) : 58 + rnd(7); Tuple t = mk(n); Mod m; fill(t, m, n); eqm(t, m, "set and null");
    for (unsigned q = 0; q != 12; ++q) { unsigned i = rnd(4) ? rnd(n) : n - 1; Value v = any_();
        switch (rnd(7)) {
            case 0: cur_case = F("set(%u)", i); t.set(i, v); m.v[i] = v; m.null[i] = false; break;
            case 1: { bool b = rnd(2); cur_case = F("set(%u, %d)", i, b); t.set(i, v, b); m.v[i] = v; m.null[i] = b; break; }
            case 2: cur_case = F("null(%u)", i); t.null(i); m.null[i] = true; break;
            case 3: cur_case = F("not_null(%u)", i); t.not_null(i); m.null[i] = false; break;
            case 4: cur_case = "clear"; t.clear(); m.null.assign(n, true); break;
            case 5: { unsigned n2 = 1 + rnd(n); Tuple o = mk(n2); Mod mo; fill(o, mo, n2); unsigned len = rnd(n2 + 1), pos = rnd(n - len + 1); cur_case = F("insert %u of %u at %u of %u", len, n2, pos, n); t.insert(o, pos, len); for (unsigned k = 0; k != len; ++k) { m.v[pos + k] = mo.v[k]; m.null[pos + k] = mo.null[k]; } eqm(o, mo, "insert (other)"); break; }
            case 6: { cur_case = "moves"; unsigned n2 = 1 + rnd(8); Tuple o = mk(n2); Mod mo; fill(o, mo, n2); swap(t, o); eqm(t, mo, "swap"); eqm(o, m, "swap"); Tuple c(std::move(o)); eqm(c, m, "move"); t = std::move(c); break; }
        }
        eqm(t, m, cur_case.c_str());
    }
}
static void equality() {
    unsigned n = rnd(3) ? 1 + rnd(8) : 58 + rnd(7); Tuple a = mk(n), b = mk(n); bool eq = true; std::vector<unsigned> diff;
    for (unsigned i = 0; i != n; ++i) { Value v = any_(); bool null = rnd(3) == 0; a.set(i, v); b.set(i, v); if (null) { a.null(i); b.null(i); if (rnd(2)) b[i] = any_(); } }
    if (rnd(3)) { unsigned i = rnd(4) ? rnd(n) : n - 1; if (rnd(2)) { if (a.is_null(i)) { a.not_null(i); a[i] = b[i]; } else a.null(i); eq = false; } else if (!a.is_null(i)) { Value v = a[i]; uint64_t bits; memcpy(&bits, &v.val_, 8); bits ^= 1UL << (v.type == Value::Vb ? 0 : v.type == Value::Vf ? rnd(32) : rnd(64)); Value w = v; memcpy(&w.val_, &bits, 8); b[i] = w; eq = false; } cur_case = F("%u attributes, one differs: %u", n, i); } else cur_case = F("%u attributes, equal", n);
    if ((a == b) != eq) fail("== is %d, expected %d", a == b, eq); if ((a != b) != !eq) fail("!= is %d", a != b); if (eq and std::hash<Tuple>{}(a) != std::hash<Tuple>{}(b)) fail("hashes of equal tuples differ");
}
static void values() {
    cur_case = "values"; int64_t x = num_(); if (Value(x).as_i() != x or Value(x).as<int64_t>() != x) fail("integer %ld is not kept", (long) x); float f = float(num_()) / 4; if (Value(f).as_f() != f) fail("float"); double d = double(num_()) / 4; if (Value(d).as_d() != d) fail("double"); bool b = rnd(2); if (Value(b).as_b() != b) fail("bool"); void *p = (void*) num_(); if (Value(p).as_p() != p) fail("pointer");
    int32_t i = num_(); if (Value(i).as_i() != i) fail("int32"); Value v = any_(), w = v; if (v != w or !(v == w) or std::hash<Value>{}(v) != std::hash<Value>{}(w)) fail("a copy differs");
    int64_t y = rnd(2) ? x ^ (1L << rnd(64)) : x; if ((Value(x) == Value(y)) != (x == y)) fail("equality of %ld and %ld", (long) x, (long) y);
}
static void schemas() {
    unsigned n = 1 + rnd(8); auto S = (Schema*) calloc(1, sizeof(Schema)); auto e = (Schema::entry_type*) calloc(n, sizeof(Schema::entry_type)); S->entries_._M_impl._M_start = e; S->entries_._M_impl._M_finish = S->entries_._M_impl._M_end_of_storage = e + n;
    std::vector<const Type*> tys; cur_case.clear();
    for (unsigned i = 0; i != n; ++i) { const Type *t; switch (rnd(4)) { case 0: t = &*Type::Get_Integer(Type::TY_Vector, 8); cur_case += "INT8 "; break; case 1: t = &*Type::Get_Boolean(Type::TY_Vector); cur_case += "BOOL "; break; default: { unsigned l = 1 + rnd(6); t = rnd(2) ? &*Type::Get_Char(Type::TY_Vector, l) : &*Type::Get_Varchar(Type::TY_Vector, l); cur_case += F("CHAR(%u) ", l); } } e[i].type = t; tys.push_back(t); }
    for (bool by_types : { false, true }) {
        Tuple t = by_types ? Tuple(tys) : Tuple(*S); std::vector<std::string> want(n); std::vector<Value> vs(n);
        for (unsigned i = 0; i != n; ++i) if (!t.is_null(i)) fail("attribute %u of a fresh tuple is not NULL", i);
        for (unsigned i = 0; i != n; ++i) if (auto cs = cast<const CharacterSequence>(tys[i])) { auto p = (char*) t[i].as_p(); if ((uint8_t*) p < (uint8_t*) (t.values_ + n)) fail("string %u lies in the values", i); for (unsigned k = 0; k != cs->length; ++k) want[i] += 'a' + rnd(26); strcpy(p, want[i].c_str()); t.not_null(i); } else { vs[i] = tys[i]->is_boolean() ? Value(bool(rnd(2))) : Value(num_()); t.set(i, vs[i]); }
        for (unsigned i = 0; i != n; ++i) if (is<const CharacterSequence>(tys[i])) { if (want[i] != (char*) t[i].as_p()) fail("string %u is overwritten", i); } else if (!same(t[i], vs[i])) fail("value %u is overwritten", i);
        if (by_types) continue;
        std::vector<bool> null(n); for (unsigned i = 0; i != n; ++i) if (rnd(3) == 0) { null[i] = true; t.null(i); }
        Tuple c = t.clone(*S);
        for (unsigned i = 0; i != n; ++i) { if (c.is_null(i) != null[i]) fail("NULL of attribute %u of the clone is %d", i, c.is_null(i)); if (null[i]) continue; if (is<const CharacterSequence>(tys[i])) { if (c[i].as_p() == t[i].as_p()) fail("the clone shares string %u", i); if (want[i] != (char*) c[i].as_p()) fail("string %u of the clone differs", i); } else if (!same(c[i], vs[i])) fail("value %u of the clone differs", i); }
        for (unsigned i = 0; i != n; ++i) if (t.is_null(i) != null[i]) fail("cloning changes the original");
    }
    free(e); free(S);
}
void one() { switch (rnd(4)) { case 0: ops(); break; case 1: equality(); break; case 2: values(); break; default: schemas(); } }

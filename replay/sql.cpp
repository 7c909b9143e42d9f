// Random queries on random tables, executed by the real system (interpreter), against an oracle written from the SQL
// semantics.  prog <seconds> <seed> <mode>
#include "r_.hpp"
#include "storage/RowStore.hpp"
#include "storage/PaxStore.hpp"
#include <mutable/mutable.hpp>
#include <mutable/storage/DataLayoutFactory.hpp>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cmath>
#include <sys/wait.h>
#include <sys/mman.h>
using namespace m;
enum Kind { INT, DBL, FLT, BOOL_, STR, DATE };
struct Col { std::string name; Kind kind; unsigned size; bool var; bool notnull; std::string decl() const { std::ostringstream o; o << name << " "; switch (kind) { case INT: o << "INT(" << size << ")"; break; case DBL: o << "DOUBLE"; break; case FLT: o << "FLOAT"; break; case BOOL_: o << "BOOL"; break; case STR: o << (var ? "VARCHAR(" : "CHAR(") << size << ")"; break; case DATE: o << "DATE"; } if (notnull) o << " NOT NULL"; return o.str(); } };
struct Cell { bool null = true; int64_t i = 0; double d = 0; std::string s;
    bool operator<(const Cell &o) const { return std::tie(null, i, d, s) < std::tie(o.null, o.i, o.d, o.s); } bool operator==(const Cell &o) const { return std::tie(null, i, d, s) == std::tie(o.null, o.i, o.d, o.s); } };
using Row = std::vector<Cell>;
struct Tab { std::string name; std::vector<Col> cols; std::vector<Row> rows; };
static char *last;                       // shared with the parent: what is being executed
static void note(const std::string &s) { strncpy(last, s.c_str(), 60000); }
static std::string setup;
static std::string lit(const Col &c, const Cell &v) { if (v.null) return "NULL"; std::ostringstream o; switch (c.kind) { case INT: if (v.i < 0) o << "-" << -v.i; else o << v.i; break; case DBL: case FLT: o << (v.d < 0 ? "-" : "") << std::fixed << std::abs(v.d); break; case BOOL_: o << (v.i ? "TRUE" : "FALSE"); break; case STR: o << '"' << v.s << '"'; break; case DATE: { char b[40]; snprintf(b, 40, "d'%04d-%02d-%02d'", int(v.i >> 9), int(v.i >> 5 & 15), int(v.i & 31)); o << b; } } return o.str(); }
static Cell val(const Col &c, bool wide = false) { Cell v; if (!c.notnull and rnd(5) == 0) return v; v.null = false; switch (c.kind) { case INT: { int64_t lim = c.size == 1 ? 127 : c.size == 2 ? 32767 : c.size == 4 ? 2147483647 : 1000000000000; v.i = wide or rnd(12) == 0 ? int64_t(rnd(lim)) - int64_t(rnd(2) ? lim / 2 : 0) : int64_t(rnd(9)) - 3; break; } case DBL: case FLT: v.d = double(int64_t(rnd(17)) - 8) / 2; break; case BOOL_: v.i = rnd(2); break; case STR: { unsigned n = rnd(4) ? std::min<unsigned>(c.size, rnd(3)) : rnd(c.size + 1); for (unsigned k = 0; k != n; ++k) v.s += 'a' + rnd(2); break; } case DATE: v.i = (1970 + rnd(3)) << 9 | (1 + rnd(12)) << 5 | (1 + rnd(28)); } return v; }
static Diagnostic *diag; static std::ostringstream dout, derr;
static void exec(const std::string &s) { note(s.substr(0, 3000)); auto st = statement_from_string(*diag, s); if (diag->num_errors()) fail("rejected: %s", derr.str().substr(0, 500).c_str()); execute_statement(*diag, *st); }
static unsigned tabno;
static Tab table(unsigned nrows, bool nullfree = false, int maxcols = 7) {
    Tab t; t.name = "t" + std::to_string(tabno++); unsigned n = 2 + rnd(maxcols - 1); unsigned idpos = rnd(n);
    for (unsigned i = 0; i != n; ++i) { Col c; if (i == idpos) { c = Col{"id", INT, 4, false, rnd(2) == 0}; } else { static const unsigned sz[] = {1, 2, 4, 8}; c = Col{"c" + std::to_string(i), Kind(rnd(6)), 0, rnd(2) == 0, rnd(4) == 0 or nullfree}; if (rnd(3) == 0) c.kind = INT; c.size = c.kind == INT ? sz[rnd(4)] : c.kind == STR ? 1 + rnd(7) : 8; } t.cols.push_back(c); }
    std::string s = "CREATE TABLE " + t.name + " ( "; for (auto &c : t.cols) s += (&c == &t.cols[0] ? "" : ", ") + c.decl(); s += " );"; setup += s + " "; exec(s);
    for (unsigned r = 0; r != nrows; ++r) { Row w; for (auto &c : t.cols) { w.push_back(val(c)); if (c.name == "id") { w.back() = Cell(); w.back().null = false; w.back().i = r; } } t.rows.push_back(w); }
    for (unsigned r = 0; r < nrows;) { unsigned e = std::min(nrows, r + 1 + (unsigned) rnd(60)); std::string q = "INSERT INTO " + t.name + " VALUES "; for (; r != e; ++r) { q += "( "; for (unsigned i = 0; i != n; ++i) q += (i ? ", " : "") + lit(t.cols[i], t.rows[r][i]); q += r + 1 == e ? " );" : " ), "; } if (setup.size() < 6000) setup += q + " "; exec(q); }
    return t;
}
static std::vector<Row> run(const std::string &q, const std::vector<Kind> &kinds) {
    note(q); auto st = statement_from_string(*diag, q); if (diag->num_errors()) fail("rejected: %s; query: %s", derr.str().substr(0, 300).c_str(), q.c_str());
    std::vector<Row> out; auto sel = static_cast<ast::SelectStmt*>(st.release());
    auto cb = std::make_unique<CallbackOperator>([&](const Schema &S, const Tuple &T) { Row r; for (unsigned i = 0; i != kinds.size(); ++i) { Cell c; c.null = T.is_null(i); if (!c.null) switch (kinds[i]) { case INT: c.i = T[i].as_i(); break; case DATE: c.i = int32_t(T[i].as_i()); break; case DBL: c.d = T[i].as_d(); break; case FLT: c.d = T[i].as_f(); break; case BOOL_: c.i = T[i].as_b(); break; case STR: { auto p = (const char*) T[i].as_p(); auto cs = cast<const CharacterSequence>(S[i].type); c.s = std::string(p, strnlen(p, cs->length)); } } r.push_back(c); } out.push_back(r); });
    execute_query(*diag, *sel, std::move(cb)); return out;
}
static std::string show(const Row &r) { std::ostringstream o; o << "("; for (auto &c : r) { if (&c != &r[0]) o << ", "; if (c.null) o << "NULL"; else if (!c.s.empty()) o << c.s; else if (c.d != 0) o << c.d; else o << c.i; } o << ")"; return o.str(); }
static void same(const std::string &q, std::vector<Row> got, std::vector<Row> want, bool ordered) {
    if (!ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
    if (got == want) return;
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) if (i >= got.size() or i >= want.size() or !(got[i] == want[i])) fail("query %s: row %zu of the result is %s, expected %s (%zu rows, expected %zu); setup: %s", q.c_str(), i, i < got.size() ? show(got[i]).c_str() : "missing", i < want.size() ? show(want[i]).c_str() : "nothing", got.size(), want.size(), setup.substr(0, 1500).c_str());
}
/*----- conditions, with three-valued logic -----*/
using Tri = std::optional<bool>;
struct Cond { std::string text; std::function<Tri(const Row&)> eval; };
struct Scope { std::vector<std::pair<std::string, Col>> cols; };      // qualified names
static Scope scope(std::initializer_list<const Tab*> ts) { Scope s; for (auto t : ts) for (auto &c : t->cols) s.cols.push_back({ (ts.size() > 1 ? t->name + "." : "") + c.name, c }); return s; }
static int cmp(const Cell &a, const Cell &b, Kind k) { return k == STR ? (a.s < b.s ? -1 : a.s != b.s) : k == DBL or k == FLT ? (a.d < b.d ? -1 : a.d != b.d) : (a.i < b.i ? -1 : a.i != b.i); }
static bool equalities = false;          // compare the truth values of conditions, too (not nested: their normal form grows exponentially)
static Cond atom(const Scope &S) {
    static const char *ops[] = {"=", "!=", "<", "<=", ">", ">="};
    for (;;) {
        unsigned i = rnd(S.cols.size()); auto &[n, c] = S.cols[i]; unsigned o = rnd(6); auto pick = [o](int r) { switch (o) { case 0: return r == 0; case 1: return r != 0; case 2: return r < 0; case 3: return r <= 0; case 4: return r > 0; default: return r >= 0; } };
        if (rnd(8) == 0) return Cond{"ISNULL(" + n + ")", [i](const Row &r) { return Tri(r[i].null); }};
        if (c.kind == BOOL_) { if (equalities or rnd(2)) return Cond{n, [i](const Row &r) { return r[i].null ? Tri() : Tri(r[i].i); }}; o %= 2; bool b = rnd(2); return Cond{n + (o ? " != " : " = ") + (b ? "TRUE" : "FALSE"), [i, b, o](const Row &r) { return r[i].null ? Tri() : Tri((r[i].i == b) != bool(o)); }}; }
        if (rnd(3)) { Cell v; do v = val(c); while (v.null); if (c.kind == FLT) continue; Kind k = c.kind; return Cond{n + " " + ops[o] + " " + lit(c, v), [=](const Row &r) { return r[i].null ? Tri() : Tri(pick(cmp(r[i], v, k))); }}; }
        unsigned j = rnd(S.cols.size()); auto &[n2, c2] = S.cols[j]; if (c2.kind != c.kind or i == j) continue; Kind k = c.kind;
        return Cond{n + " " + ops[o] + " " + n2, [=](const Row &r) { return r[i].null or r[j].null ? Tri() : Tri(pick(cmp(r[i], r[j], k))); }};
    }
}

static Cond cond(const Scope &S, unsigned depth) {
    if (equalities and depth == 1 and rnd(3) == 0) { Cond a = cond(S, depth - 1), b = cond(S, depth - 1); bool ne = rnd(2); return Cond{"(" + a.text + (ne ? ") != (" : ") = (") + b.text + ")", [=](const Row &r) { Tri x = a.eval(r), y = b.eval(r); return x and y ? Tri((*x == *y) != ne) : Tri(); }}; }
    if (depth == 0 or rnd(4) == 0) return atom(S);
    if (rnd(4) == 0) { Cond a = cond(S, depth - 1); return Cond{"NOT (" + a.text + ")", [=](const Row &r) { Tri x = a.eval(r); return x ? Tri(!*x) : Tri(); }}; }
    Cond a = cond(S, depth - 1), b = cond(S, depth - 1); bool con = rnd(2);
    return Cond{"(" + a.text + (con ? ") AND (" : ") OR (") + b.text + ")", [=](const Row &r) { Tri x = a.eval(r), y = b.eval(r); if (con) return x and !*x or y and !*y ? Tri(false) : !x or !y ? Tri() : Tri(true); return x and *x or y and *y ? Tri(true) : !x or !y ? Tri() : Tri(false); }};
}
static bool yes(const Cond &c, const Row &r) { Tri t = c.eval(r); return t and *t; }
/*----- the queries -----*/
static std::vector<unsigned> choose(unsigned n) { std::vector<unsigned> v; unsigned k = 1 + rnd(std::min(n, 4u)); std::vector<unsigned> all(n); std::iota(all.begin(), all.end(), 0); std::shuffle(all.begin(), all.end(), rng); all.resize(k); return all; }
static Row sub(const Row &r, const std::vector<unsigned> &v) { Row o; for (auto i : v) o.push_back(r[i]); return o; }
static std::string names(const Scope &S, const std::vector<unsigned> &v) { std::string s; for (auto i : v) s += (s.empty() ? "" : ", ") + S.cols[i].first; return s; }
static std::vector<Kind> kinds(const Scope &S, const std::vector<unsigned> &v) { std::vector<Kind> k; for (auto i : v) k.push_back(S.cols[i].second.kind); return k; }
static void q_filter(const Tab &t) {
    Scope S = scope({&t}); auto v = choose(t.cols.size()); Cond c; if (rnd(2)) { c = atom(S); for (unsigned k = rnd(4); k--;) { Cond a = c, b = atom(S); c = Cond{a.text + " OR " + b.text, [=](const Row &r) { return Tri(yes(a, r) or yes(b, r)); }}; } } else c = cond(S, rnd(4));
    std::string q = "SELECT " + names(S, v) + " FROM " + t.name + " WHERE " + c.text + ";"; std::vector<Row> want; for (auto &r : t.rows) if (yes(c, r)) want.push_back(sub(r, v)); same(q, run(q, kinds(S, v)), want, true);
}
static void q_logic(const Tab &t) {
    equalities = true; Scope S = scope({&t}); auto v = choose(t.cols.size()); Cond c = cond(S, 1 + rnd(2)); equalities = false;
    std::string q = "SELECT " + names(S, v) + " FROM " + t.name + " WHERE " + c.text + ";"; std::vector<Row> want; for (auto &r : t.rows) if (yes(c, r)) want.push_back(sub(r, v)); same(q, run(q, kinds(S, v)), want, true);
}
static void q_scan(const Tab &t) { Scope S = scope({&t}); auto v = choose(t.cols.size()); std::string q = "SELECT " + names(S, v) + " FROM " + t.name + ";"; std::vector<Row> want; for (auto &r : t.rows) want.push_back(sub(r, v)); same(q, run(q, kinds(S, v)), want, true); }
static void q_limit(const Tab &t) {
    Scope S = scope({&t}); auto v = choose(t.cols.size()); bool f = rnd(2); Cond c; if (f) c = atom(S); uint64_t n = t.rows.size(), l = 1 + (rnd(3) ? rnd(n + 3) : rnd(5)), o = rnd(3) ? rnd(n + 3) : 0; if (rnd(8) == 0) l = 9223372036854775807UL;
    if (rnd(3) == 0) l = std::max<uint64_t>(1, l / 64 * 64); if (rnd(3) == 0) o = o / 64 * 64;
    std::string q = "SELECT " + names(S, v) + " FROM " + t.name + (f ? " WHERE " + c.text : "") + " LIMIT " + std::to_string(l) + (o ? " OFFSET " + std::to_string(o) : "") + ";"; std::vector<Row> want; uint64_t p = 0; for (auto &r : t.rows) if (!f or yes(c, r)) { if (p >= o and p - o < l) want.push_back(sub(r, v)); ++p; } same(q, run(q, kinds(S, v)), want, true);
}
struct Agg { std::string text; Kind kind; std::function<Cell(const std::vector<const Row*>&)> eval; };
static Agg agg(const Scope &S, const std::vector<unsigned> &g) {
    for (;;) {
        unsigned i = rnd(S.cols.size()); auto &[n, c] = S.cols[i]; Kind k = c.kind; if (std::count(g.begin(), g.end(), i)) { if (rnd(2)) return {"COUNT(*)", INT, [=](auto &rs) { Cell o; o.null = false; o.i = rs.size(); return o; }}; continue; }      // (aggregates over grouping keys are not supported)
        auto numbers = [i](const std::vector<const Row*> &rs) { std::vector<Cell> o; for (auto r : rs) if (!(*r)[i].null) o.push_back((*r)[i]); return o; };
        auto cell = [](int64_t i, double d) { Cell c; c.null = false; c.i = i; c.d = d; return c; };
        switch (rnd(6)) {
            case 0: return {"COUNT(*)", INT, [=](auto &rs) { return cell(rs.size(), 0); }};
            case 1: return {"COUNT(" + n + ")", INT, [=](auto &rs) { return cell(numbers(rs).size(), 0); }};
            case 2: if (k != INT and k != DBL and k != FLT) continue; return {"SUM(" + n + ")", k == INT ? INT : DBL, [=](auto &rs) { Cell o = cell(0, 0); for (auto &x : numbers(rs)) { o.i += x.i; o.d += x.d; } return o; }};
            case 3: if (k != INT and k != DBL and k != FLT) continue; return {"MIN(" + n + ")", k, [=](auto &rs) { Cell o; for (auto &x : numbers(rs)) if (o.null or cmp(x, o, k) < 0) o = x; return o; }};
            case 4: if (k != INT and k != DBL and k != FLT) continue; return {"MAX(" + n + ")", k, [=](auto &rs) { Cell o; for (auto &x : numbers(rs)) if (o.null or cmp(x, o, k) > 0) o = x; return o; }};
            default: if (k != INT and k != DBL or k == INT and c.size == 8) continue; return {"AVG(" + n + ")", DBL, [=](auto &rs) { Cell o = cell(0, 0); auto xs = numbers(rs); for (auto &x : xs) o.d += x.i + x.d; if (xs.size()) o.d /= xs.size(); return o; }};
        }
    }
}
static void round_(std::vector<Row> &rs) { for (auto &r : rs) for (auto &c : r) c.d = std::abs(c.d) < 1e13 ? std::round((c.d + 0.00012345678) * 1000) / 1000 : c.d; }
static void q_agg(const Tab &t, bool grouped) {
    Scope S = scope({&t}); bool f = rnd(3) == 0; Cond c; if (f) c = atom(S); std::vector<unsigned> g; if (grouped) g = choose(t.cols.size()); for (auto i : g) if (S.cols[i].second.kind == FLT) return; std::vector<Agg> as; std::set<std::string> seen; for (unsigned k = 1 + rnd(4); k--;) { Agg a = agg(S, g); if (seen.insert(a.text).second) as.push_back(a); }
    std::string sel = names(S, g); for (auto &a : as) sel += (sel.empty() ? "" : ", ") + a.text; auto ks = kinds(S, g); for (auto &a : as) ks.push_back(a.kind);
    std::string q = "SELECT " + sel + " FROM " + t.name + (f ? " WHERE " + c.text : "") + (grouped ? " GROUP BY " + names(S, g) : "");
    bool h = grouped and rnd(2); Agg ha; unsigned ho = rnd(3); Cell hv; if (h) { ha = agg(S, g); h = ha.kind == INT; if (h) { hv.null = false; hv.i = rnd(4); q += " HAVING " + ha.text + (ho == 0 ? " > " : ho == 1 ? " < " : " = ") + std::to_string(hv.i); } } q += ";";
    auto having = [&](const std::vector<const Row*> &rs) { if (!h) return true; Cell x = ha.eval(rs); return !x.null and (ho == 0 ? x.i > hv.i : ho == 1 ? x.i < hv.i : x.i == hv.i); };
    std::map<Row, std::vector<const Row*>> gs; if (!grouped) gs[{}]; for (auto &r : t.rows) if (!f or yes(c, r)) gs[sub(r, g)].push_back(&r);
    std::vector<Row> want; for (auto &[k, rs] : gs) { if (!having(rs)) continue; Row o = k; for (auto &a : as) o.push_back(a.eval(rs)); want.push_back(o); } auto got = run(q, ks); round_(got); round_(want); same(q, got, want, false);
}
static void q_sort(const Tab &t) {
    Scope S = scope({&t}); std::vector<unsigned> v = choose(t.cols.size()), o = choose(t.cols.size()); v.erase(std::remove_if(v.begin(), v.end(), [&](unsigned i) { return t.cols[i].name == "id"; }), v.end()); std::vector<bool> asc; std::string q = "SELECT " + names(S, v) + (v.empty() ? "" : ", ") + "id FROM " + t.name + " ORDER BY "; auto ks = kinds(S, v); ks.push_back(INT); for (unsigned i = 0; i != o.size(); ++i) { asc.push_back(rnd(2)); q += (i ? ", " : "") + S.cols[o[i]].first + (asc.back() ? (rnd(2) ? " ASC" : "") : " DESC"); }
    uint64_t n = t.rows.size(), l = n, off = 0; if (rnd(3) == 0) { l = 1 + rnd(n + 3); off = rnd(2) ? rnd(n + 3) : 0; q += " LIMIT " + std::to_string(l) + (off ? " OFFSET " + std::to_string(off) : ""); } q += ";";
    unsigned id = 0; while (t.cols[id].name != "id") ++id; auto w = v; w.push_back(id); std::vector<Row> want; for (auto &r : t.rows) want.push_back(sub(r, w)); auto got = run(q, ks); if (l == n and not off) same(q, got, want, false);
    else {          // the rows from `off` on, in the order of the keys
        std::vector<unsigned> p(n); std::iota(p.begin(), p.end(), 0); std::stable_sort(p.begin(), p.end(), [&](unsigned a, unsigned b) { for (unsigned k = 0; k != o.size(); ++k) { auto &x = t.rows[a][o[k]], &y = t.rows[b][o[k]]; int r = x.null or y.null ? int(y.null) - int(x.null) : cmp(x, y, S.cols[o[k]].second.kind) * (asc[k] ? 1 : -1); if (r) return r < 0; } return false; });
        std::vector<Row> keys, have; std::set<int64_t> ids; for (uint64_t i = off; i < n and i - off < l; ++i) keys.push_back(sub(t.rows[p[i]], o)); for (auto &r : got) { int64_t i = r.back().i; if (i < 0 or uint64_t(i) >= n or not ids.insert(i).second) fail("query %s: row %s is no row of the table, or occurs twice; setup: %s", q.c_str(), show(r).c_str(), setup.substr(0, 1500).c_str()); have.push_back(sub(t.rows[i], o)); } same(q, have, keys, true);
    }
    for (size_t i = 0; i + 1 < got.size(); ++i) { auto &a = t.rows[got[i].back().i], &b = t.rows[got[i + 1].back().i]; for (unsigned k = 0; k != o.size(); ++k) { auto &x = a[o[k]], &y = b[o[k]]; int r = x.null or y.null ? int(y.null) - int(x.null) : cmp(x, y, S.cols[o[k]].second.kind) * (asc[k] ? 1 : -1); if (r < 0) break; if (r > 0) fail("query %s: row %zu %s comes before %s; setup: %s", q.c_str(), i, show(got[i]).c_str(), show(got[i + 1]).c_str(), setup.substr(0, 1500).c_str()); } }
}
static void q_join(const std::vector<Tab> &ts, unsigned mode) {          // mode: 0 = equi, 1 = any
    unsigned n = 2 + (rnd(4) == 0); std::vector<const Tab*> in; std::vector<unsigned> all(ts.size()); std::iota(all.begin(), all.end(), 0); std::shuffle(all.begin(), all.end(), rng); for (unsigned i = 0; i != n; ++i) in.push_back(&ts[all[i]]);
    Scope S; std::vector<unsigned> first; for (auto t : in) { first.push_back(S.cols.size()); for (auto &c : t->cols) S.cols.push_back({t->name + "." + c.name, c}); } first.push_back(S.cols.size());
    std::vector<Cond> cs; size_t prod = 1; for (auto t : in) prod *= t->rows.size() + 1; if (prod > 60000) return;
    for (unsigned k = 0; k + 1 < n; ++k) { std::vector<Cond> opts; for (unsigned i = first[0]; i != first[k + 1]; ++i) for (unsigned j = first[k + 1]; j != first[k + 2]; ++j) { Col a = S.cols[i].second, b = S.cols[j].second; if (a.kind != b.kind or a.size != b.size or a.kind == FLT) continue; if (a.kind == STR and a.var != b.var) continue; Kind kd = a.kind; static const char *ops[] = {"=", "<", "!=", ">="}; unsigned o = mode == 0 ? 0 : kd == BOOL_ ? rnd(2) * 2 : rnd(4); bool sw = rnd(2) and o == 0; opts.push_back(Cond{sw ? S.cols[j].first + " = " + S.cols[i].first : S.cols[i].first + " " + ops[o] + " " + S.cols[j].first, [=](const Row &r) { if (r[i].null or r[j].null) return Tri(); int x = cmp(r[i], r[j], kd); return Tri(o == 0 ? x == 0 : o == 1 ? x < 0 : o == 2 ? x != 0 : x >= 0); }}); } if (opts.empty()) return; for (unsigned q = 1 + (rnd(3) == 0); q--;) cs.push_back(opts[rnd(opts.size())]); }
    if (rnd(3) == 0) { Scope one = scope({in[0]}); Cond c = atom(one); unsigned p = 0; Cond d = c; /* qualify */ std::string tx = c.text; if (tx.find("ISNULL(") == 0) tx = "ISNULL(" + in[0]->name + "." + tx.substr(7); else { tx = in[0]->name + "." + tx; for (auto &cc : in[0]->cols) { auto sp = tx.rfind(" " + cc.name); if (sp != std::string::npos and sp + 1 + cc.name.size() == tx.size()) tx = tx.substr(0, sp + 1) + in[0]->name + "." + cc.name; } } d.text = tx; cs.push_back(d); }
    auto v = choose(S.cols.size()); std::string q = "SELECT " + names(S, v) + " FROM "; for (unsigned i = 0; i != n; ++i) q += (i ? ", " : "") + in[i]->name; for (unsigned i = 0; i != cs.size(); ++i) q += (i ? " AND " : " WHERE ") + cs[i].text; q += ";";
    std::vector<Row> want; std::function<void(Row, unsigned)> rec = [&](Row r, unsigned k) { if (k == n) { for (auto &c : cs) if (!yes(c, r)) return; want.push_back(sub(r, v)); return; } for (auto &x : in[k]->rows) { Row y = r; y.insert(y.end(), x.begin(), x.end()); rec(y, k + 1); } }; rec({}, 0); if (want.size() > 20000) return; same(q, run(q, kinds(S, v)), want, false);
}
static void q_proj(const Tab &t) {
    Scope S = scope({&t}); std::vector<std::function<Cell(const Row&)>> fs; std::vector<Kind> ks; std::string sel; bool f = rnd(2); Cond w; if (f) w = atom(S);
    for (unsigned k = 1 + rnd(4); k--;) { std::string tx; unsigned i = rnd(S.cols.size()), j = rnd(S.cols.size()); auto &[n, c] = S.cols[i]; auto &[n2, c2] = S.cols[j];
        if (rnd(3) == 0 and c.kind == INT and c2.kind == INT and c.size == 8 - 0 * 8 and c2.size == 8) { bool sub_ = rnd(2); tx = n + (sub_ ? " - " : " + ") + n2; ks.push_back(INT); fs.push_back([=](const Row &r) { Cell o; if (r[i].null or r[j].null) return o; o.null = false; o.i = sub_ ? r[i].i - r[j].i : r[i].i + r[j].i; return o; }); }
        else if (rnd(3) == 0) { Cond a = atom(S); tx = a.text; ks.push_back(BOOL_); fs.push_back([=](const Row &r) { Cell o; auto x = a.eval(r); if (!x) return o; o.null = false; o.i = *x; return o; }); }
        else { tx = n; ks.push_back(c.kind); fs.push_back([=](const Row &r) { return r[i]; }); }
        sel += (sel.empty() ? "" : ", ") + tx + " AS x" + std::to_string(ks.size()); }
    std::string q = "SELECT " + sel + " FROM " + t.name + (f ? " WHERE " + w.text : "") + ";"; std::vector<Row> want; for (auto &r : t.rows) if (!f or yes(w, r)) { Row o; for (auto &g : fs) o.push_back(g(r)); want.push_back(o); } same(q, run(q, ks), want, true);
}
static void episode(const std::string &mode) {
    setup.clear(); tabno = 0; Catalog::Clear(); auto &C = Catalog::Get(); C.default_backend(C.pool("Interpreter")); dout.str(""); derr.str(""); diag = new Diagnostic(false, dout, derr);
    if (rnd(2)) { static const char *ls[] = {"row", "pax4k", "pax4M", "pax1024Tup", "pax16Tup"}; std::string l; for (unsigned k = 0; k != 5; ++k) { l = ls[rnd(5)]; try { C.default_data_layout(C.pool(l.c_str())); setup += "layout " + l + "; "; break; } catch (...) { } } }
    exec("CREATE DATABASE d;"); exec("USE d;");
    unsigned n = rnd(3) == 0 ? rnd(5) : rnd(3) == 0 ? 64 * (1 + rnd(3)) + rnd(3) - 1 : rnd(200); std::vector<Tab> ts; bool join = mode == "join" or mode == "hashjoin" or mode == "any";
    ts.push_back(table(n)); if (join) for (unsigned k = 0; k != 2; ++k) { unsigned m = rnd(4) == 0 ? 64 + rnd(80) : rnd(20); ts.push_back(table(m, false, 5)); }
    for (unsigned k = 0; k != 12; ++k) { unsigned which = mode == "any" ? rnd(8) : 99; auto is = [&](const char *m, unsigned w) { return mode == m or which == w; };
        if (is("filter", 0)) q_filter(ts[0]); if (is("limit", 1)) q_limit(ts[0]); if (is("agg", 2)) q_agg(ts[0], false); if (is("group", 3)) q_agg(ts[0], true); if (is("sort", 4)) q_sort(ts[0]); if (is("join", 5)) q_join(ts, rnd(3) == 0 ? 0 : 1); if (is("hashjoin", 6)) q_join(ts, 0); if (is("proj", 7)) q_proj(ts[0]); if (mode == "logic") q_logic(ts[0]); if (mode == "scan" or which == 8) q_scan(ts[0]); }
}
int main(int argc, char **argv) {
    double secs = argc > 1 ? atof(argv[1]) : 10; uint64_t seed = (argc > 2 ? strtoull(argv[2], nullptr, 10) : 1) * 7919 + 3; std::string mode = argc > 3 ? argv[3] : "any";
    last = (char*) mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); auto t0 = std::chrono::steady_clock::now(); uint64_t n = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        fflush(stdout); pid_t p = fork(); if (!p) { rng.seed(seed + n); alarm(60); try { episode(mode); } catch (const std::exception &e) { printf("FAIL exception %s; query: %s; setup: %s\n", e.what(), last, setup.substr(0, 1500).c_str()); fflush(stdout); _exit(1); } fflush(stdout); _exit(0); }
        int r; waitpid(p, &r, 0); ++n; if (WIFSIGNALED(r)) { printf("FAIL signal %d while executing: %.3000s\n", WTERMSIG(r), last); return 1; } if (WEXITSTATUS(r)) return 1;
    }
    printf("OK %lu databases\n", (unsigned long) n); return 0;
}

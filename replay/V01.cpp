#include "r.hpp"
#include "backend/StackMachine.cpp"
using O = StackMachine::Opcode;
static Tuple mk(unsigned n) { Tuple t; t.values_ = (Value*) malloc(n * sizeof(Value)); t.num_values_ = n; for (unsigned i = 0; i != n; ++i) new (&t.values_[i]) Value(); t.clear(); return t; }
static int64_t some_i() { switch (rnd(8)) { case 0: return 0; case 1: return -1; case 2: return 1; case 3: return int64_t(rnd(7)) - 3; case 4: return INT64_MIN + rnd(3); case 5: return INT64_MAX - rnd(3); case 6: return int64_t(rng()) >> rnd(64); default: return rng(); } }
static double some_d() { return rnd(3) ? (double) (int64_t(rnd(9)) - 4) / 2 : (double) some_i(); }
static const char *strs[] = { "", "a", "b", "ab", "aa", "abc", "b" };
struct R { bool null; Value v; };
using Fn = std::function<bool(Value, Value, Value&)>;      // false: outside the preconditions
static void put(Tuple &t, unsigned i, Value v, bool null) { t.values_[i] = null ? Value() : v; if (null) t.null_mask_ |= SmallBitset(1UL << i); else t.null_mask_ -= SmallBitset(1UL << i); }
#define B(OPC, T, E) { #OPC, O::OPC, 2, #T[0], [](Value X, Value Y, Value &r) { auto a = X.as<T>(), b = Y.as<T>(); (void) a; (void) b; E; return true; } },
#define U(OPC, T, E) { #OPC, O::OPC, 1, #T[0], [](Value X, Value, Value &r) { auto a = X.as<T>(); (void) a; E; return true; } },
using i = int64_t; using f = float; using d = double; using b_ = bool; using p = char*;
struct Op { const char *name; O op; int n; char t; Fn fn; };
static int sg(int x) { return x < 0 ? -1 : x > 0; }
static Op ops[] = {
    B(Add_i, i, i x; if (__builtin_add_overflow(a, b, &x)) return false; r = x) B(Sub_i, i, i x; if (__builtin_sub_overflow(a, b, &x)) return false; r = x) B(Mul_i, i, i x; if (__builtin_mul_overflow(a, b, &x)) return false; r = x)
    B(Div_i, i, if (!b || (b == -1 && a == INT64_MIN)) return false; r = a / b) B(Mod_i, i, if (!b || (b == -1 && a == INT64_MIN)) return false; r = a % b)
    B(And_i, i, r = a & b) B(Or_i, i, r = a | b) B(Xor_i, i, r = a ^ b)
    B(Add_f, f, r = a + b) B(Sub_f, f, r = a - b) B(Mul_f, f, r = a * b) B(Div_f, f, r = a / b) B(Add_d, d, r = a + b) B(Sub_d, d, r = a - b) B(Mul_d, d, r = a * b) B(Div_d, d, r = a / b)
#define REL(T, t) B(Eq_##T, t, r = a == b) B(NE_##T, t, r = a != b) B(LT_##T, t, r = a < b) B(GT_##T, t, r = a > b) B(LE_##T, t, r = a <= b) B(GE_##T, t, r = a >= b) B(Cmp_##T, t, r = i(a > b) - i(a < b))
    REL(i, i) REL(f, f) REL(d, d) B(Eq_b, b_, r = a == b) B(NE_b, b_, r = a != b) B(Cmp_b, b_, r = i(a) - i(b))
    B(Eq_s, p, r = strcmp(a, b) == 0) B(NE_s, p, r = strcmp(a, b) != 0) B(LT_s, p, r = strcmp(a, b) < 0) B(GT_s, p, r = strcmp(a, b) > 0) B(LE_s, p, r = strcmp(a, b) <= 0) B(GE_s, p, r = strcmp(a, b) >= 0)
    U(Inc, i, if (a == INT64_MAX) return false; r = a + 1) U(Dec, i, if (a == INT64_MIN) return false; r = a - 1) U(Minus_i, i, if (a == INT64_MIN) return false; r = -a) U(Minus_f, f, r = -a) U(Minus_d, d, r = -a) U(Neg_i, i, r = ~a)
    U(Not_b, b_, r = !a) U(Cast_i_b, b_, r = i(a)) U(Cast_f_i, i, r = f(a)) U(Cast_d_i, i, r = d(a)) U(Cast_f_d, d, r = f(a)) U(Cast_d_f, f, r = d(a)) U(Cast_i_d, d, if (!(a > -9e18 && a < 9e18)) return false; r = i(a)) U(Cast_i_f, f, if (!(a > -9e18 && a < 9e18)) return false; r = i(a))
};
static Value any_(char t) { switch (t) { case 'i': return Value(some_i()); case 'f': return Value(float(some_d())); case 'd': return Value(some_d()); case 'b': return Value(bool(rnd(2))); default: return Value((char*) strs[rnd(7)]); } }
static std::string show(Value v, bool null) { return null ? "NULL" : v.type == Value::Vp ? F("'%s'", v.as<char*>()) : v.type == Value::Vf ? F("%g", v.as_f()) : v.type == Value::Vd ? F("%g", v.as_d()) : F("%ld", (long) (v.type == Value::Vb ? v.as_b() : v.as_i())); }
static bool eq(Value a, Value b) { if (a.type != b.type) return false; switch (a.type) { case Value::Vb: return a.as_b() == b.as_b(); case Value::Vf: { f x = a.as_f(), y = b.as_f(); return x == y || (x != x && y != y); } case Value::Vd: { d x = a.as_d(), y = b.as_d(); return x == y || (x != x && y != y); } case Value::Vp: return a.as_p() == b.as_p(); default: return a.as_i() == b.as_i(); } }
static void expr() {
    Tuple in = mk(6), out = mk(6); Tuple *ts[] = { &out, &in };
    StackMachine M; unsigned depth = rnd(3); Value below[3]; bool bn[3];
    for (unsigned k = 0; k != depth; ++k) { bn[k] = rnd(3) == 0; below[k] = any_("ifdb"[rnd(4)]); put(in, k, below[k], bn[k]); M.emit_Ld_Tup(1, k); }
    Value want; bool wn, chk = true; unsigned k = rnd(sizeof ops / sizeof *ops + 4); std::string what;
    if (k >= sizeof ops / sizeof *ops) {
        unsigned w = k - sizeof ops / sizeof *ops;
        if (w < 2) { bool an = rnd(2), bn = rnd(2), a = rnd(2), b = rnd(2); put(in, 4, Value(a), an); put(in, 5, Value(b), bn); M.emit_Ld_Tup(1, 4); M.emit_Ld_Tup(1, 5); if (w) M.emit_And_b(); else M.emit_Or_b();
            int x = an ? 1 : a * 2, y = bn ? 1 : b * 2, r = w ? std::min(x, y) : std::max(x, y); wn = r == 1; want = Value(bool(r == 2)); what = F("%s %s %s", show(Value(a), an).c_str(), w ? "AND" : "OR", show(Value(b), bn).c_str());
        } else if (w == 2) { bool an = rnd(2); put(in, 4, any_('i'), an); M.emit_Ld_Tup(1, 4); M.emit_Is_Null(); wn = false; want = Value(an); what = "IS NULL";
        } else { bool cn = rnd(4) == 0, c = rnd(2), an = rnd(3) == 0, bn = rnd(3) == 0; Value a = any_('i'), b = any_('i'); put(in, 3, Value(c), cn); put(in, 4, a, an); put(in, 5, b, bn); for (int q = 3; q != 6; ++q) M.emit_Ld_Tup(1, q); M.emit_Sel();
            wn = cn || (c ? an : bn); want = c ? a : b; what = F("Sel %s %s %s", show(Value(c), cn).c_str(), show(a, an).c_str(), show(b, bn).c_str()); }
    } else {
        Op &o = ops[k]; Value a = any_(o.t), b = any_(o.t); bool an = rnd(4) == 0, bn = o.n == 2 && rnd(4) == 0;
        put(in, 4, a, an); put(in, 5, b, bn); M.emit_Ld_Tup(1, 4); if (o.n == 2) { M.emit_Ld_Tup(1, 5); } wn = an || bn; if (!wn && !o.fn(a, b, want)) return;
        M.emit(o.op); what = F("%s %s %s", o.name, show(a, an).c_str(), o.n == 2 ? show(b, bn).c_str() : "");
    }
    M.required_stack_size_ = depth + 3; M.emit_St_Tup_i(0, 5); for (unsigned k = depth; k--; ) { M.emit(O::Pop); M.emit(O::St_Tup_i); M.emit(O(0)); M.emit(O(k)); }
    cur_case = what; 
    for (int run = 0; run != 2; ++run) { M(ts);
        if (out.is_null(5) != wn) fail("NULL is %d, expected %d", out.is_null(5), wn); if (!wn && !eq(out[5], want)) fail("result %s, expected %s", show(out[5], false).c_str(), show(want, false).c_str());
        for (unsigned k = 0; k != depth; ++k) if (out.is_null(k) != bn[k] || (!bn[k] && !eq(out[k], below[k]))) fail("stack entry %u changed to %s", k, show(out[k], out.is_null(k)).c_str()); }
}
static void mem() {
    uint8_t buf[32], ref[32]; for (auto &x : buf) x = rng(); memcpy(ref, buf, 32); unsigned at = 8 * rnd(4); Tuple in = mk(3), out = mk(3); Tuple *ts[] = { &out, &in }; StackMachine M;
    unsigned w = rnd(14); bool null = rnd(3) == 0; M.required_stack_size_ = 4; bool bit = rnd(2); unsigned bno = rnd(8);
    if (w < 7) { // load
        put(in, 0, Value(buf + at), false); M.emit_Ld_Tup(1, 0); Value want; 
        switch (w) { case 0: M.emit_Ld_i8(); want = Value(i(*(int8_t*)(buf + at))); break; case 1: M.emit_Ld_i16(); want = Value(i(*(int16_t*)(buf + at))); break; case 2: M.emit_Ld_i32(); want = Value(i(*(int32_t*)(buf + at))); break; case 3: M.emit_Ld_i64(); want = Value(i(*(int64_t*)(buf + at))); break;
            case 4: M.emit_Ld_f(); want = Value(*(float*)(buf + at)); break; case 5: M.emit_Ld_d(); want = Value(*(double*)(buf + at)); break; default: M.emit_Ld_b(1u << bno); want = Value(bool((buf[at] >> bno) & 1)); }
        M.emit_St_Tup_i(0, 1); cur_case = F("load %u at %u", w, at); M(ts); if (out.is_null(1) || !eq(out[1], want)) fail("loaded %s, expected %s", show(out[1], out.is_null(1)).c_str(), show(want, false).c_str());
    } else {
        put(in, 0, Value(buf + at), false); put(in, 1, Value(int64_t(42)), false); Value v = any_("iiiifdb"[w - 7]); put(in, 2, v, null); M.emit_Ld_Tup(1, 1); M.emit_Ld_Tup(1, 0); M.emit_Ld_Tup(1, 2);
        switch (w - 7) { case 0: M.emit_St_i8(); if (!null) *(int8_t*)(ref + at) = v.as_i(); break; case 1: M.emit_St_i16(); if (!null) *(int16_t*)(ref + at) = v.as_i(); break; case 2: M.emit_St_i32(); if (!null) *(int32_t*)(ref + at) = v.as_i(); break; case 3: M.emit_St_i64(); if (!null) *(int64_t*)(ref + at) = v.as_i(); break;
            case 4: M.emit_St_f(); if (!null) *(float*)(ref + at) = v.as_f(); break; case 5: M.emit_St_d(); if (!null) *(double*)(ref + at) = v.as_d(); break; default: M.emit_St_b(bno); if (!null) ref[at] = (ref[at] & ~(1u << bno)) | (v.as_b() << bno); }
        M.emit_St_Tup_i(0, 1); cur_case = F("store %u at %u %s", w - 7, at, show(v, null).c_str()); M(ts); if (memcmp(buf, ref, 32)) fail("memory differs"); if (out.is_null(1) || !eq(out[1], Value(int64_t(42)))) fail("stack entry changed");
    }
    (void) bit;
}
static void misc() {
    Tuple in = mk(5), out = mk(5); Tuple *ts[] = { &out, &in }; StackMachine M; M.required_stack_size_ = 5; Value v[5]; bool n[5]; for (int q = 0; q != 5; ++q) { v[q] = any_("ifdb"[rnd(4)]); n[q] = rnd(3) == 0; put(in, q, v[q], n[q]); put(out, q, Value(int64_t(7)), rnd(2)); }
    unsigned w = rnd(6); uint64_t before = uint64_t(out.null_mask_); Value want[2]; bool wn[2]; int m = 1;
    auto ld = [&](unsigned q) { M.emit_Ld_Tup(1, q); };
    switch (w) {
        case 0: ld(0); ld(1); M.emit_Pop(); want[0] = v[0]; wn[0] = n[0]; break;
        case 1: ld(0); M.emit_Dup(); want[0] = want[1] = v[0]; wn[0] = wn[1] = n[0]; m = 2; break;
        case 2: ld(0); M.emit_Push_Null(); wn[0] = true; want[1] = v[0]; wn[1] = n[0]; m = 2; break;
        case 3: { M.add(Value(int64_t(5))); unsigned c = M.add(v[2]); M.add(Value(int64_t(6))); M.emit_Ld_Ctx(c); want[0] = v[2]; wn[0] = false; break; }
        case 4: { M.add(v[3]); M.add(v[4]); if (n[3]) return; ld(3); M.emit_Upd_Ctx(0); M.emit_Pop(); M.emit_Ld_Ctx(1); M.emit_Ld_Ctx(0); want[0] = v[3]; want[1] = v[4]; wn[0] = wn[1] = false; m = 2; break; }
        default: { bool c = rnd(2), z = rnd(2); unsigned k = rnd(4); put(in, 4, k < 2 ? Value(int64_t(z ? 0 : 3)) : Value(c), false); ld(0); M.emit_St_Tup_i(0, 1); ld(4); switch (k) { case 0: M.emit_Stop_Z(); break; case 1: M.emit_Stop_NZ(); break; case 2: M.emit_Stop_False(); break; default: M.emit_Stop_True(); }
            bool stops = k == 0 ? z : k == 1 ? !z : k == 2 ? !c : c; ld(2); M.emit_St_Tup_i(0, 1); cur_case = F("conditional stop %u", k); M(ts); unsigned x = stops ? 0 : 2; if (out.is_null(1) != n[x] || (!n[x] && !eq(out[1], v[x]))) fail("stops wrongly"); return; }
    }
    cur_case = F("stack operation %u", w); for (int q = 0; q != m; ++q) { M.emit_St_Tup_i(0, q ? 3 : 1); M.emit_Pop(); }
    M(ts); for (int q = 0; q != m; ++q) { unsigned x = q ? 3 : 1; if (out.is_null(x) != wn[q] || (!wn[q] && !eq(out[x], want[q]))) fail("entry %d is %s, expected %s", q, show(out[x], out.is_null(x)).c_str(), show(want[q], wn[q]).c_str()); }
    for (unsigned x = 0; x != 5; ++x) if (x != 1 && !(x == 3 && m == 2) && (out.is_null(x) != ((before >> x) & 1) || !eq(out[x], Value(int64_t(7))))) if (!(before >> x & 1)) fail("tuple entry %u changed", x);
}
static void str() {
    char a[40], b[40]; unsigned la = rnd(12), lb = rnd(12), len = rnd(12) + 1; for (unsigned q = 0; q != 40; ++q) { a[q] = 'a' + rnd(26); b[q] = '#'; } a[la] = 0; (void) lb; bool null = rnd(3) == 0;
    Tuple in = mk(3), out = mk(3); Tuple *ts[] = { &out, &in }; StackMachine M; M.required_stack_size_ = 4; put(in, 0, Value(a), null); put(in, 1, Value(b), false); put(in, 2, Value(int64_t(len)), false); out.values_[1] = Value(b); std::string A(a), W = A.substr(0, len);
    cur_case = F("string '%s' length %u null %d", a, len, null);
    switch (rnd(3)) {
        case 0: if (null) in.not_null(0), in.values_[0] = Value(a); M.emit_Ld_Tup(1, 0); M.emit_Ld_Tup(1, 2); M.emit_Ld_s(); M.emit_St_Tup_i(0, 0); M(ts); if (out.is_null(0) || W != out[0].as<char*>()) fail("loaded string differs"); break;
        case 1: M.emit_Ld_Tup(1, 1); M.emit_Ld_Tup(1, 0); M.emit_Ld_Tup(1, 2); M.emit_St_s(); M(ts); if (null ? b[0] != '#' : strncmp(b, a, len) || b[len] != '#') fail("stored string differs"); break;
        default: M.emit_Ld_Tup(1, 0); M.emit_Ld_Tup(1, 2); M.emit_St_Tup_s(0, 1); M(ts); if (out.is_null(1) != null || (!null && W != out[1].as<char*>())) fail("string in tuple differs"); break;
    }
}
void one() { switch (rnd(8)) { case 0: mem(); break; case 1: misc(); break; case 2: str(); break; default: expr(); } }

import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from agg import *
import P04
KEYN, KEY = z3.Function("__v_uf_keynull", U64, U64, B), z3.Function("__v_uf_key", U64, U64, U64)
def cur(v):
    ex = v.ex; g = ex.ghosts; null, val, num = state(v, g["keys"]); ne = v.glob("g_exists") == 0; new = z3.Or(ne, z3.And(null, z3.Not(asb(g["nullable"]))))
    return z3.If(new, asb(g["startnull"]), null), z3.If(new, bv(0), val), z3.If(new, bv(0), num)
def keys_opts(root):
    def templates(ctx):
        ex = ctx.ex; g = ex.ghosts; out = []
        for t, x, c in terms(ctx):
            if c: out += [("%s <= n" % t, lambda v, x=x: z3.ULE(x(v), g["n"])), ("%s: agree so far" % t, lambda v, x=x: z3.Implies(z3.UGT(x(v), g["q"]), asb(g["eq"])))]
        return out
    def load_hook(ex, st, ob, off, size, ty, ins, guard):
        if ob is None: return None
        for r, b in (("ka", 0), ("kb", 1)):
            if ob is ex.roles.get(r) and "eq" in ex.ghosts:
                g = ex.ghosts; i = ex.index(st, simp(off), 8)
                if i is None: return None
                if root == "prove_keys_hash": ex.oblige(st, z3.And(z3.ULT(i, g["n"]), inx(i, g["alive"])), "only values that are not NULL are read", "frame", ins)
                if ty == "p":
                    ex.bounds(st, ob, off, size, ins, guard); return pipe.expr_ptr(ex, st, simp(2 * i + b))
                if root == "prove_keys_hash": ex.oblige(st, world.kind(KT + i) != world.KINDS["CharacterSequence"], "strings are hashed by their characters", "frame", ins)
                def arr(o):
                    os = ex.own(st, o)
                    for r in os.regs:
                        if r.es == 8: return r.arr
                    ex.make_region(o, os, 0, 8, None); return arr(o)
                if root == "prove_keys_agree": st.assume(z3.Implies(world.kind(KT + i) != world.KINDS["CharacterSequence"], z3.Select(arr(ex.roles["ka"]), i) == z3.Select(arr(ex.roles["kb"]), i)))
                return None
        if ob is ex.roles.get("entries") and ty == "p":
            c, rem = ex.linear(simp(off)); q = bv(c // 48) if rem is None else ex.index(st, simp(rem + bv(c - c % 48)), 48)
            if q is not None and c % 48 == 32: ex.bounds(st, ob, off, size, ins, guard); return world.type_ptr(ex, st, simp(KT + q))
        return pipe.load_hook(ex, st, ob, off, size, ty, ins, guard)
    return dict(pipe.OPTS, templates=templates, load_hook=load_hook, contracts=KEYS)
KT = bv(1 << 30)
KEYS = [(r"^m::streq\(", "stub_streq"), (r"^m::FNV1a\(char const\*\)", "stub_strhash"), (r"^std::hash<m::Value>::operator\(\)", "stub_valhash")]
def opts(root):
    if root.startswith("prove_keys"): return keys_opts(root)
    if root == "prove_group_frame":
        o = P04.opts(root); o["contracts"] = CON + PLAIN + [(r, "stub_tuple" if h == "stub_tuple_types" else h) for r, h in o["contracts"]]; return o
    if root == "prove_emit":
        import P03
        o = P04.opts("prove_fold"); 
        o["templates"] = lambda ctx: P03.scan(ctx) + [("%s: next group" % (l[:3],), lambda v, l=l: ctx.ex.p2i(v[l]) == ctx.ex.ghosts["nodes"] + 64 * v.glob("g_loaded")) for l in ctx.labels if l[0] == "cell" and ctx.types[l] == "p"]
        o["contracts"] = EMIT + CON + o["contracts"]; return o
    def templates(ctx):
        ex = ctx.ex; g = ex.ghosts; m = g["mask"]; a, base, G, n, q = g["a"], g["keys"], g["group"], g["n"], g["q"]; out = []
        E = lambda v: v.glob("g_exists"); R = m & G; low = R & -R
        sets = [(t, x, c) for t, x, c in terms(ctx) if "cell" not in t]
        out.append(("counts start at 0", lambda v: z3.Implies(z3.And(E(v) != 0, state(v, base)[0], z3.Not(asb(g["nullable"]))), state(v, base)[2] == 0)))
        out.append(("exists <= 1", lambda v: z3.ULE(E(v), 1))); out.append(("stays", lambda v: z3.Implies(g["was"] != 0, E(v) != 0)))
        out.append(("exists", lambda v: z3.Implies(z3.And(g["was"] == 0, R == 0), E(v) == 0)))
        out.append(("key of the group", lambda v: z3.Implies(E(v) != 0, z3.Implies(g["was"] != 0, inx(q, v.ex.peek(v.st, ex.roles["data"], cv(g["nulloff"]), 8)) == asb(g["keynull0"])))))
        key = lambda v: z3.Select(v.arr("g_aggs"), q); nm = lambda v: v.ex.peek(v.st, ex.roles["data"], cv(g["nulloff"]), 8)
        out.append(("old key", lambda v: z3.Implies(g["was"] != 0, key(v) == g["key0"])))
        first = [(P, lambda v, P=P: z3.Implies(z3.And(E(v) != 0, g["was"] == 0), P(v))) for P in ()]
        f = ex.ghosts["first"]
        out.append(("new key", lambda v: z3.Implies(z3.And(E(v) != 0, g["was"] == 0), z3.And(inx(q, nm(v)) == KEYN(f, q), key(v) == KEY(f, q)))))
        out.append(("values", lambda v: z3.Implies(z3.And(E(v) != 0, z3.Not(asb(g["nullable"]))), z3.Or(z3.Not(state(v, base)[0]), v.glob("g_cur") != 0))))
        for l in ctx.labels:
            if l[0] == "cell" and ctx.types[l] == "p": out.append(("%s stays" % (l[:3],), lambda v, l=l: ex.p2i(v[l]) == ex.p2i(ctx.entry[l])))
            if l[0] == "cell" and l[1].startswith("alloca") and ctx.types[l] == "i64": out.append(("%s: no aggregates" % (l[:3],), lambda v, l=l: inx(base + a, v[l])))
        for t, x, c in sets:
            if not c: continue
            out.append(("%s is the rest" % t, lambda v, x=x: z3.Implies(x(v) != 0, suffix(m, x(v)))))
            out.append(("%s to be done" % t, lambda v, x=x: want(ex, cur(v), R & x(v))))
            out.append(("%s: the group exists iff" % t, lambda v, x=x: (E(v) != 0) == z3.Or(g["was"] != 0, R & ~x(v) != 0)))
            out.append(("%s <= n" % t, lambda v, x=x: z3.ULE(x(v), n)))
            out.append(("%s: has a value" % t, lambda v, x=x: z3.Implies(z3.And(E(v) != 0, z3.Not(asb(g["nullable"])), z3.Or(g["was"] != 0, z3.UGT(x(v), a), )), z3.Not(state(v, base)[0]))))
        out.append(("has a value", lambda v: z3.Implies(z3.And(E(v) != 0, z3.Not(asb(g["nullable"]))), z3.Not(state(v, base)[0]))))
        for t, x, c in sets:
            if not c: continue
            for t2, y, c2 in sets:
                if t == t2: continue
                out.append(("%s: the group exists iff, done of %s" % (t, t2), lambda v, y=y: (E(v) != 0) == z3.Or(g["was"] != 0, R & ~(y(v) & (y(v) - 1)) != 0)))
                out.append(("%s: has a value or not yet, %s" % (t, t2), lambda v, x=x, y=y: z3.Implies(z3.And(E(v) != 0, z3.Not(asb(g["nullable"])), z3.Or(z3.UGT(x(v), a), z3.Not(R & (y(v) & -y(v)) != 0))), z3.Not(state(v, base)[0]))))
                out.append(("%s aggregates done of the first of %s" % (t, t2), lambda v, x=x, y=y: want(ex, cur(v), R & z3.If(z3.UGT(x(v), a), y(v) & (y(v) - 1), y(v)))))
        return out
    def splits(ctx):
        g = ctx.ex.ghosts; sets = [(t, x) for t, x, c in terms(ctx) if c and "cell" not in t]; rest = [x for t, x, c in terms(ctx) if not c and t.startswith("inv")]
        return [lambda v, x=x: x(v) == g["a"] for t, x in sets] if pipe.current_row(ctx) or rest and len(sets) == 1 else []
    o = P04.opts("prove_fold"); o["templates"] = templates; o["splits"] = splits
    o["contracts"] = CON + [(r"^m::Tuple::Tuple\(m::Schema const&\)", "stub_key_tuple")] + o["contracts"]
    return o
CON = [(r"std::unordered_map<m::Tuple, .*::unordered_map\(", pipe.noop), (r"std::unordered_map<m::Tuple, .*::find\(", "stub_find"), (r"std::unordered_map<m::Tuple, .*::emplace_hint<", "stub_emplace"), (r"^std::vector<unsigned long, .*::vector\(unsigned long, unsigned long const", "stub_counts"), (r"^m::Tuple::~Tuple\(", "stub_no_tuple")]
PLAIN = [(r"^m::Pooled<char const\*.*::~?Pooled\(", pipe.noop)]
EMIT = [(r"std::unordered_map<m::Tuple, .*::size\(", "stub_size"), (r"std::unordered_map<m::Tuple, .*::begin\(", "stub_begin"), (r"std::__detail::_Node_iterator<std::pair<m::Tuple const, .*::operator\+\+\(int\)", "stub_next"), (r"std::__detail::_Node_iterator<std::pair<m::Tuple const, .*::operator\+\+\(\)", "stub_next2"),
    (r"std::unordered_map<m::Tuple, .*::extract\(", "stub_extract"), (r"^m::swap\(m::Tuple&, m::Tuple&\)", "stub_swap"), (r"^std::_Node_handle_common<m::Tuple.*::~_Node_handle_common", pipe.noop), (r"^std::_Node_handle<m::Tuple.*::~_Node_handle", pipe.noop)]
P = P04.PARTS[0]
PARTS = [dict(deadline=500, tu="P05.cpp", opts=opts, roots=pipe.ROOTS, keep=P["keep"] + tuple(r for r, _ in CON + EMIT + PLAIN + KEYS), flags=P["flags"], native=False)]
REPLAY_SQL = ["group"]
FUNCTIONS = ["Pipeline::operator()(const GroupingOperator&)", "Interpreter::operator()(const GroupingOperator&)", "GroupingData::GroupingData", "HashBasedGroupingData::HashBasedGroupingData", "KeyHash::operator()", "KeyEqual::operator()", "Block::the_iterator, begin, end, fill, operator[]", "Tuple::operator[], get, set, is_null, null, move", "Value::operator==, !="]
TRUSTED = ["by contract: std::unordered_map<Tuple, std::vector<uint64_t>, KeyHash, KeyEqual> holds at most one group per key: find, emplace_hint, size, begin, iteration and extract", "by contract: running the compiled key program stores the key of a row, running the argument program of an aggregate its argument, converted to the type of the aggregate, or NULL", "by contract: compiling an expression (StackMachine::emit, emit_Cast, emit_St_Tup), constructors of Schema, Tuple and StackMachine", "by contract: streq and FNV1a of strings, std::hash<Value> as functions of characters and value"]
ASSUMPTIONS = P04.ASSUMPTIONS[:2] + ["fewer than 63 keys and aggregates together", "a group seen before has a value for each aggregate but MIN and MAX (proved to be kept)", "induction over the blocks of the input by hand: one block continues from any state of the group followed"]

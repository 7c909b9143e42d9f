import z3, world
from sym import bv, T, simp, cv, Ptr
from tmpl import *
def ghosts(ex, *ns): return [ex.ghosts[n] for n in ns]
def sel(v, role, i):
    ob = v.ex.roles[role]
    for r in v.st.mem[ob].regs:
        if r.es == 16: return z3.Select(r.arr, i)
    raise KeyError(role)
def cell(v, role, off, size=8): 
    x = v.ex.peek(v.st, v.ex.roles[role], off, size)
    if x is None: raise KeyError(role)
    return x
def bitat(x, i): return z3.Extract(0, 0, z3.LShR(x, i)) == 1
def eqv(x, y): return z3.And(z3.Extract(31, 0, x) == z3.Extract(31, 0, y), z3.Extract(127, 64, x) == z3.Extract(127, 64, y))   # bits 32..63 are padding
def opts(root):
    o = {}
    if root == "prove_insert":
        def templates(ctx):
            ex = ctx.ex; k, pos, ln, m, m2, o0, o1 = ghosts(ex, "k", "pos", "len", "m", "m2", "old0", "old1")
            out = []
            for n, a, c in terms(ctx):
                if not c: continue
                for dn, d in (("i", lambda v, a=a: a(v)), ("i-pos", lambda v, a=a: a(v) - pos)):
                    done = lambda v, d=d: z3.And(z3.UGE(k, pos), z3.ULT(k - pos, d(v)))
                    w = lambda v: sel(v, "values", k)
                    out.append(("%s value" % dn, lambda v, d=d, w=w, done=done: z3.If(done(v), eqv(w(v), sel(v, "other", k - pos)), z3.And(z3.Extract(31, 0, w(v)) == z3.Extract(31, 0, o0), z3.Extract(127, 64, w(v)) == o1))))
                    out.append(("%s bit" % dn, lambda v, d=d, done=done: bitat(cell(v, "tuple", 8), k) == z3.If(done(v), bitat(m2, k - pos), bitat(m, k))))
                    out.append(("%s<=len" % dn, lambda v, d=d: z3.ULE(d(v), ln)))
            return out
        o["templates"] = templates
    elif root.endswith(("equal_sound", "equal_complete", "equal_differ")) or root == "prove_hash_reads":
        def templates(ctx):
            alive, k = ghosts(ctx.ex, "alive", "k"); out = set_templates(sets=[("alive", alive)])(ctx)
            if "same" in ctx.ex.ghosts:
                s = ctx.ex.ghosts["same"] != 0
                for n, a, c in terms(ctx):
                    if c: out.append(("k notin %s => same" % n, lambda v, a=a: z3.Or(inx(k, a(v)), z3.Not(inx(k, alive)), s)))
            return out
        o["templates"] = templates
        def load_hook(ex, st, ob, off, size, ty, ins, guard):
            if "a" not in ex.roles or "b" not in ex.roles or ob not in (ex.roles["a"], ex.roles["b"]) or "alive" not in ex.ghosts: return
            idx = simp(z3.LShR(off, 4)); al = bitat(ex.ghosts["alive"], idx)
            if root == "prove_hash_reads": ex.oblige(st, al, "only values that are not NULL are read", "frame", ins)
            def arr(o):
                os = ex.own(st, o)
                for r in os.regs:
                    if r.es == 16: return r.arr
                ex.make_region(o, os, 0, 16, None); return arr(o)
            x, y = z3.Select(arr(ex.roles["a"]), idx), z3.Select(arr(ex.roles["b"]), idx)
            lo = z3.Extract(31, 0, x) == z3.Extract(31, 0, y); hi = z3.Extract(127, 64, x) == z3.Extract(127, 64, y)
            st.assume(z3.Implies(al, lo))                                   # the types of the attributes agree
            if root.endswith("equal_complete"): st.assume(z3.Implies(al, hi))
        o["load_hook"] = load_hook
    return o
# ---- the memory of a tuple: PS(i) is the number of bytes of the strings before attribute i
U64 = z3.BitVecSort(64)
PS, ISCHAR, LEN, TY = z3.Function("__v_uf_ps", U64, U64), z3.Function("__v_uf_ischar", U64, z3.BoolSort()), z3.Function("__v_uf_len", U64, U64), z3.Function("__v_uf_typeof", U64, U64)
def need(i): return z3.If(ISCHAR(i), LEN(i) + 1, bv(0))
def facts(ex, i):
    return [PS(bv(0)) == 0, PS(i + 1) == PS(i) + need(i), z3.ULT(LEN(i), 1 << 32), ISCHAR(i) == (world.kind(TY(i)) == world.KINDS["CharacterSequence"]), LEN(i) == world.field(TY(i), cv(simp(ex.ghosts["lenoff"])), 8)]
def lemma(ex, i):                    # prove_lemma
    n, j, k = ghosts(ex, "n", "j", "k")
    le = lambda a, b: z3.Implies(z3.And(z3.ULT(a, b), z3.ULE(b, n)), z3.ULE(PS(a + 1), PS(b)))
    return [z3.ULE(PS(i), i << 33), z3.ULE(PS(i + 1), (i + 1) << 33), z3.ULE(PS(n), n << 33), le(i, n), le(j, k), le(j, i), le(k, i)]
def opts_b(root):
    know = (lambda ex, i: facts(ex, i)) if root == "prove_lemma" else (lambda ex, i: facts(ex, i) + lemma(ex, i))
    o = dict(dyncast=world.dyncast, exact_index=True)
    def load_hook(ex, st, ob, off, size, ty, ins, guard):
        for r in ("orig", "copy"):
            if ob is not None and ob is ex.roles.get(r) and (r == "orig" or "slot" in ex.ghosts):     # the type invariant of a tuple; strings have places of their own
                c, rem = ex.linear(simp(off)); q = bv(c // 16) if rem is None else ex.index(st, simp(rem + bv(c - c % 16)), 16)
                os = ex.own(st, ob)
                w = [z3.Select(x.arr, q) for x in os.regs if x.es == 16]
                if w:
                    st.assume(z3.Implies(ISCHAR(q), z3.Extract(31, 0, w[0]) == z3.Extract(31, 0, ex.ghosts["Vp"])))
                    if r == "copy": st.assume(z3.Implies(z3.And(ISCHAR(q), q != ex.ghosts["k"]), z3.Extract(127, 64, w[0]) != ex.ghosts["slot"]))
                return None
        for r, es, at in (("entries", 48, 32), ("types", 8, 0)):
            if ob is ex.roles.get(r) and ob is not None and ty == "p":
                c, rem = ex.linear(simp(off))
                q = bv((c - at) // es) if rem is None else ex.index(st, simp(rem + bv(c - at)), es)
                if q is None or (c - at) % es: return None
                ex.bounds(st, ob, off, size, ins, guard)
                for f in know(ex, q): st.assume(f)
                return world.type_ptr(ex, st, TY(q))
        return world.load_hook(ex, st, ob, off, size, ty, ins, guard)
    o["load_hook"] = load_hook
    def malloc(ex, fr, ins, a, st):
        ob = ex.new_obj(st, "values", simp(a[0])); ob.kind = "heap"; ob.gran = 16; ex.roles["mem"] = ob; ex.ghosts["base"] = ex.p2i(Ptr.mk(ob)); return st, Ptr.mk(ob)
    def xfacts(ex, fr, ins, a, st):
        for f in know(ex, a[0]): st.assume(f)
        return st, None
    o["contracts"] = [("^malloc$", malloc)] if root != "prove_clone" else [(r"^m::Tuple::Tuple\(m::Schema const&\)$", "stub_ctor"), ("^strcpy$", "stub_strcpy")]; o["vintr"] = {"__v_facts": xfacts}
    def store_hook(ex, st, ob, off, size, v, ins, guard):
        if ob is not ex.roles.get("mem") or size != 1: return False
        ex.oblige(st, z3.UGE(off, 16 * ex.ghosts["n"]), "a string does not reach into the values", "memory", ins); return True
    o["store_hook"] = store_hook
    def templates(ctx):
        ex = ctx.ex; n, j, k = ghosts(ex, "n", "j", "k"); out = []
        ts = [t for t in terms(ctx) if t[2]]
        for a, fa, _ in ts:
            out.append((a + "<=n", lambda v, fa=fa: z3.ULE(fa(v), n))); out.append((a + "<=k", lambda v, fa=fa: z3.ULE(fa(v), k)))
            if root == "prove_lemma": out.append(("PS(%s) is bounded" % a, lambda v, fa=fa: z3.ULE(PS(fa(v)), fa(v) << 33)))
            if root == "prove_lemma":
              for g, gn in ((j, "j"), (k, "k")): out.append(("PS(%s+1)<=PS(%s)" % (gn, a), lambda v, fa=fa, g=g: z3.Implies(z3.UGT(fa(v), g), z3.ULE(PS(g) + need(g), PS(fa(v))))))
            for b, fb, _ in ts:
                if a != b: out.append(("%s=PS(%s)" % (b, a), lambda v, fa=fa, fb=fb: fb(v) == PS(fa(v))))
            for l in ctx.labels:
                if ctx.types[l] == "p" and l[0] == "phi":
                    def f(v, fa=fa, l=l):
                        p = v[l]
                        if len(p.alts) != 1 or p.alts[0][1] is not ex.roles.get("mem"): raise KeyError
                        return p.alts[0][2] == 16 * n + PS(fa(v))
                    out.append(("%s at PS(%s)" % (l, a), f))
            if "mem" in ex.roles:
                for g, gn in ((j, "j"), (k, "k")):
                    def f(v, fa=fa, g=g):
                        w = sel(v, "mem", g)
                        return z3.Implies(z3.And(z3.UGT(fa(v), g), ISCHAR(g)), z3.And(z3.Extract(127, 64, w) == ex.ghosts["base"] + 16 * n + PS(g), z3.Extract(31, 0, w) == z3.Extract(31, 0, ex.ghosts["Vp"])))
                    out.append(("slot %s by %s" % (gn, a), f))
        return out
    def clone_templates(ctx):
        ex = ctx.ex; n, k, m, o0, o1, slot = ghosts(ex, "n", "k", "m", "old0", "old1", "slot"); out = []
        for a, fa, c in terms(ctx):
            if not c: continue
            out.append((a + "<=n", lambda v, fa=fa: z3.ULE(fa(v), n)))
            for nm, done in (("up", lambda v, fa=fa: z3.UGT(fa(v), k)), ("down", lambda v, fa=fa: z3.ULE(fa(v), k))):
                for l in ctx.labels:
                    if l[0] == "cell" and not l[1].startswith("g_") and ctx.types[l] == "i64": out.append(("%s: bit of %s" % (a + nm, l[:3]), lambda v, l=l, done=done: bitat(v[l], k) == z3.If(done(v), bitat(m, k), T)))
                live = lambda v, done=done: z3.And(done(v), z3.Not(bitat(m, k)))
                out.append((a + nm + ": copies", lambda v, live=live: v.glob("g_copies") == z3.If(z3.And(live(v), ISCHAR(k)), bv(1), bv(0))))
                out.append((a + nm + ": source", lambda v, live=live: z3.Implies(z3.And(live(v), ISCHAR(k)), v.glob("g_src") == o1)))
                def val(v, live=live):
                    w = sel(v, "copy", k); hi = z3.Extract(127, 64, w); lo = z3.Extract(31, 0, w)
                    return z3.If(ISCHAR(k), hi == slot, z3.Implies(live(v), z3.And(hi == o1, lo == z3.Extract(31, 0, o0))))
                out.append((a + nm + ": value", val))
        return out
    o["templates"] = templates if root != "prove_clone" else clone_templates
    return o
PARTS = [dict(tu="T01.cpp", opts=opts), dict(tu="T01b.cpp", roots=("^prove_", "^stub_"), opts=opts_b, keep=(r"^m::Tuple::Tuple\(m::Schema const&\)$",))]
REPLAY = "T01.cpp"
PARTS[1]["native"] = False
FUNCTIONS = ["Value: constructors, as<T>(), as_b/i/f/d/p, operator==/!=, std::hash<Value>", "Tuple::is_null/null/clear/not_null/set/operator[]/get/insert", "Tuple::operator==/!=", "std::hash<Tuple> (what it reads)", "swap and moves of tuples", "Tuple::Tuple(const Schema&), Tuple::Tuple(std::vector<const Type*>)", "Tuple::clone"]
TRUSTED = ["strcpy copies a string to the given place (by contract: called once per string attribute, with the right places)", "dynamic_cast decides the kind of a type"]
ASSUMPTIONS = ["tuples have at most 64 attributes (the width of the NULL mask)", "types are immutable; a string attribute holds a string of at most the length of its type", "attributes at the same position of the tuples compared have values of the same type"]

import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from sym import bv, cv, T, simp, Ptr, NULL as NULLP
from tmpl import *
import pipe
U32 = z3.BitVecSort(32)
D = z3.Function("__v_uf_distance", pipe.U64, pipe.U64); POS = z3.Function("__v_uf_position", pipe.U64, pipe.U64, pipe.U64); OLEN = z3.Function("__v_uf_oldlen", pipe.U64, U32); OKEY = z3.Function("__v_uf_oldkey", pipe.U64, U32)
def entries(ex, st, i, f, size, ty): return {0: OLEN(i), 4: OKEY(i), 8: z3.Extract(31, 0, i), 12: OKEY(~i)}.get(f) if size == 4 else None
pipe.RECORDS.update(entries=entries)
def opts(root):
    def templates(ctx):
        ex = ctx.ex; out = []
        if os.environ.get("DBGL"): print("LABELS", [(l, ctx.types[l], str(ctx.entry[l])[:60]) for l in ctx.labels])
        g = ex.ghosts; one = lambda c: z3.If(c, bv(1), bv(0)); HASH = z3.Function("__v_uf_hash", pipe.U64, pipe.U64)
        ptrs = [l for l in ctx.labels if ctx.types[l] == "p" and l[0] == "phi"]; nums = [l for l in ctx.labels if ctx.types[l] == "i64" and l[0] in ("phi", "pidx")]
        if root in ("prove_rehash", "prove_construct"):
            free = g["free"]
            def clear(v, o, n):
                for r in v.st.mem[o].regs:
                    if r.es == 4 and r.start == 0: return z3.Or(z3.UGE(free, n), z3.Select(r.arr, 4 * free) == 0)
            mem = ctx.estate.mem; heaps = [o for o in mem if o.name.startswith("vheap") and any(r.es == 4 and r.start == 0 for r in mem[o].regs)]; sz = lambda o: o.size if not isinstance(o.size, int) else bv(o.size)
            for l in ctx.labels:
                if ctx.types[l] != "i64" or l[0] not in ("phi", "pidx"): continue
                out.append(("%s stays" % (l,), lambda v, l=l: v[l] == ctx.entry[l]))
                for o in heaps:
                    out.append(("%s in %s" % (l, o.name), lambda v, l=l, o=o: z3.ULE(v[l], z3.UDiv(sz(o), bv(16)))))
                    out.append(("%s cleared up to %s" % (o.name, l), lambda v, l=l, o=o: clear(v, o, v[l])))
                if "oldcap" in g:
                    out.append(("%s in old table" % (l,), lambda v, l=l: z3.ULE(v[l], g["oldcap"])))
                    out.append(("taken over up to %s" % (l,), lambda v, l=l: v.glob("g_calls") == one(z3.And(OLEN(g["q"]) != 0, z3.ULT(g["q"], v[l])))))
            if "oldcap" in g:
                out.append(("size", lambda v: v.glob("g_next") == ex.peek(v.st, ex.roles["map"], 24, 8)))
                for o in heaps: out.append(("new table %s" % o.name, lambda v, o=o: clear(v, o, free + 1)))
        elif root.startswith("prove_"):
            m, q = g["mask"], g["q"]; b = g.get("b", m); tab = ex.roles["table"]
            def fld(st, i, f):
                for r in st.mem[tab].regs:
                    if r.es == 4 and r.start == 0: return z3.Select(r.arr, 4 * i + f)
                raise KeyError("table")
            at = lambda t: (b + D(t)) & m; occ = lambda v, i: fld(v.st, i, 0) != 0; e = lambda i, f: fld(ctx.estate, i, f)
            index = lambda v, l: z3.LShR(v[l].alts[0][2], 4) if len(v[l].alts) == 1 and v[l].alts[0][1] is tab else None
            if root.startswith(("prove_begin", "prove_next")):
                first = g.get("from", bv(0)); never = [z3.ULE(q, first)] if "from" in g else []
                for p in ptrs:
                    out.append(("in table", lambda v, p=p: z3.And(z3.ULE(first, index(v, p)), z3.ULE(index(v, p), m), v[p].alts[0][2] == 16 * index(v, p)) if index(v, p) is not None else None))
                    for off in (0, 1): out.append(("not passed over %d" % off, lambda v, p=p, off=off: z3.Or(*never, z3.Not(occ(v, q)), z3.UGE(q, index(v, p) + off)) if index(v, p) is not None else None))
                return out
            mine = lambda v: z3.And(occ(v, q), fld(v.st, q, 1) == z3.Extract(31, 0, g["key"]))
            steps = [("%s" % (l,), lambda v, l=l: v[l]) for l in nums]
            dup, ins, all_ = "with_duplicates" in root, "duplicates" in root, root.startswith("prove_for_all")
            if dup: steps = [("length", lambda v: z3.ZeroExt(32, fld(v.st, b, 0)))] + [("%s" % (l,), lambda v, l=l: z3.ZeroExt(32, v[l])) for l in ctx.labels if ctx.types[l] == "i32" and l[0] == "phi"]
            for n, t in steps:
                out.append((n + " at most last", lambda v, t=t: z3.ULE(t(v), g["last"])))
                if not ins: out.append((n + " at most length", lambda v, t=t: z3.ULE(t(v), g["len"])))
                if not dup and not all_: out.append((n + " before q", lambda v, t=t: z3.Or(z3.Not(mine(v)), z3.UGE(g["at"], t(v)))))
                if all_: out.append((n + " called", lambda v, t=t: v.glob("g_calls") == one(z3.And(mine(v), z3.ULT(g["at"], t(v))))))
                if ins: out.append((n + " started", lambda v, t=t: z3.Or(t(v) == 0, occ(v, b))))
                if "t" in g: out.append((n + " no gaps", lambda v, t=t: z3.Or(z3.UGE(g["t"], t(v)), occ(v, at(g["t"])))))
                for l in nums:
                    out.append(("%s distance of %s" % (l, n), lambda v, l=l, t=t: (v[l] & m) == (D(t(v)) & m)))
                    if not dup: out.append(("%s slot of %s" % (l, n), lambda v, l=l, t=t: v[l] == at(t(v))))
                for l in ptrs: out.append(("%s slot of %s" % (l, n), lambda v, l=l, t=t: v[l].alts[0][2] == 16 * at(t(v)) if index(v, l) is not None else None))
            for l in nums: out.append(("%s is the capacity" % (l,), lambda v, l=l: v[l] == m + 1))
            if dup:
                X = [("q", q), ("free", g["free"]), ("home", HASH(z3.ZeroExt(32, e(q, 1))) & m)] + ([("c", g["c"]), ("t", at(g["t"])), ("ct", (g["c"] + D(g["t"])) & m)] if "t" in g else [])
                for n, i in X:
                    for f in (0, 1, 2) if n == "q" else (0,): out.append(("%s.%d stays" % (n, f), lambda v, i=i, f=f: z3.Or(*([i == b] if f == 0 else []), fld(v.st, i, f) == e(i, f))))
                if len(steps) > 1: out.append(("b.0 stays", lambda v: fld(v.st, b, 0) == e(b, 0)))
                for n, t in steps: out.append((n + " grows", lambda v, t=t: z3.And(z3.UGE(t(v), g["len"]), t(v) != 0)))
        return out
    def facts(ctx):
        ex = ctx.ex; g = ex.ghosts
        if "b" not in g: return []
        b, m = g["b"], g["mask"]; at = lambda t: (b + D(t)) & m; fact = lambda t: z3.And(D(t + 1) == D(t) + t + 1, z3.Or(z3.UGT(t, m), POS(b, at(t)) == t), z3.Or(z3.UGE(t, m), POS(b, at(t + 1)) == t + 1))
        tab = ex.roles["table"]
        def length(v):
            for r in v.st.mem[tab].regs:
                if r.es == 4 and r.start == 0: return fact(z3.ZeroExt(32, z3.Select(r.arr, 4 * b)))
        return [lambda v, l=l: fact(v[l]) for l in ctx.labels if ctx.types[l] == "i64" and l[0] in ("phi", "pidx")] + ([length] + [lambda v, l=l: fact(z3.ZeroExt(32, v[l])) for l in ctx.labels if ctx.types[l] == "i32" and l[0] == "phi"] if "with_duplicates" in root else [])
    def facts2(ctx):
        ex = ctx.ex; g = ex.ghosts
        if root == "prove_find" or "without" in root or root.startswith("prove_for_all"):
            b, m = g["b"], g["mask"]
            for r in ctx.estate.mem[ex.roles["table"]].regs:
                if r.es == 4 and r.start == 0: return [lambda v, l=l, r=r: z3.Or(z3.UGE(v[l], g["len"]), z3.Select(r.arr, 4 * ((b + D(v[l])) & m)) != 0) for l in ctx.labels if ctx.types[l] == "i64" and l[0] in ("phi", "pidx")]
        return []
    con = [(r, s) for r, s in CON if not (s == "stub_insert" and root != "prove_rehash")]
    return dict(vintr=pipe.OPTS["vintr"], load_hook=pipe.load_hook, templates=templates, facts=lambda ctx: facts(ctx) + facts2(ctx), contracts=con)
CON = [("^realloc$", "stub_realloc"), ("^malloc$", "stub_malloc"), ("^free$", "stub_free"), (r"::resize\(unsigned long", "stub_resize"), (r"std::function<void \(.*\)>::operator\(\)\(", "stub_call"), (r"::insert_with_duplicates\(", "stub_insert")]
PARTS = [dict(tu="H01.cpp", opts=opts, roots=pipe.ROOTS, keep=tuple(r for r, _ in CON), native=False, flags=("-fno-sanitize=float-cast-overflow",), timeout=40, deadline=400)]
LEMMAS = ["triangular.lean"]
REPLAY = "H01.cpp"
FUNCTIONS = ["RefCountingHashMap::insert_with_duplicates, insert_without_duplicates, find, for_all (both), bucket", "RefCountingHashMap::RefCountingHashMap, rehash, initialize, allocate", "RefCountingHashMap::begin, cbegin, end; iterator and const_iterator ++ (both); bucket_iterator ++, has_next, bucket_index, probe_length"]
TRUSTED = ["by contract: resize (arithmetic of floats): afterwards the map is as before, in a table of at least twice the capacity (rehash is proved), of which at least one slot is free as the size stays below the capacity", "by contract: std::function, realloc and free", "of the probe sequence: position(b, slot(b, t)) = t for t below the capacity, as triangular numbers are distinct modulo a power of two (proofs/triangular.lean, checked on every run by Lean) and a map of a finite set to itself that is one-to-one is onto"]
ASSUMPTIONS = ["capacities of at most 2^31 slots (probe lengths have 32 bits)", "keys of 4 and values of 8 bytes; an arbitrary pure hash function", "conversions of floats to integers are in range (the sanitizer's check of them is left out)", "the loops end (the free slot is reached, as there is one; see the invariant)", "induction over the history of a map by hand: each operation is proved to keep, for an arbitrary slot and an arbitrary step of an arbitrary probe sequence, the invariants it assumes"]

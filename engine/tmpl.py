"""candidate invariants for loops over 64-bit sets"""
import z3
from sym import bv
def sub(a, b): return a & ~b == 0
def inx(x, a): return z3.Extract(0, 0, z3.LShR(a, x)) == 1
def w64(v): return z3.is_bv(v) and v.size() == 64

def terms(ctx, extra=()):
    """(name, view -> value, changes)"""
    out = []; seen = []
    for l in ctx.labels:
        if l[0] == "cell" and l[1].startswith("g_"): continue          # ghost variables have templates of their own
        if ctx.types[l] == "i64" and (l[0] != "phi" or w64(ctx.entry[l])): out.append((str(l[:3]), (lambda v, l=l: v[l]), True))
    vals = [("inv%d" % i, v) for i, v in enumerate(ctx.inv_vals) if w64(v)] + list(extra)
    for l in ctx.labels:                                   # entry values of carried variables are fixed too
        e = ctx.entry.get(l)
        if l[0] == "cell" and l[1].startswith("g_"): continue
        if w64(e): vals.append(("entry" + str(l[:3]), e))
    for n, v in vals:
        if z3.is_bv_value(v) and v.as_long() not in (0,): continue
        if any(v.eq(s) for s in seen): continue
        seen.append(v); out.append((n, (lambda w, v=v: v), False))
    return out

def set_templates(elems=(), sets=(), single=(), rel=None, triples=True):
    """elems: ghost elements (name, x, m[x]) ; sets: extra fixed sets (name, value)"""
    def f(ctx):
        ts = terms(ctx, sets); out = []
        for n1, a, c1 in ts:
            for n2, b, c2 in ts:
                if n1 != n2 and (c1 or c2): out.append(("%s<=%s" % (n1, n2), lambda v, a=a, b=b: sub(a(v), b(v))))
        for nx, x, mx in elems:
            for n1, a, c1 in ts:
                if c1: out.append(("%s in %s" % (nx, n1), lambda v, a=a, x=x: inx(x, a(v)))); out.append(("%s notin %s" % (nx, n1), lambda v, a=a, x=x: z3.Not(inx(x, a(v)))))
            if mx is None: continue
            for n1, a, c1 in ts:
                for n3, c, c3 in ts:
                    if c1 or c3: out.append(("%s in %s => m <= %s" % (nx, n1, n3), lambda v, a=a, c=c, x=x, mx=mx: z3.Implies(inx(x, a(v)), sub(mx, c(v)))))
                    if not triples: continue
                    for n2, b, c2 in ts:
                        if n2 != n1 and (c1 or c2 or c3): out.append(("%s in %s-%s => m <= %s" % (nx, n1, n2, n3), lambda v, a=a, b=b, c=c, x=x, mx=mx: z3.Implies(z3.And(inx(x, a(v)), z3.Not(inx(x, b(v)))), sub(mx, c(v)))))
        if rel: out += rel(ctx, ts)
        return out
    return f

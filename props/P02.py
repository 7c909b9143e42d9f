import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from sym import bv, T, simp
from tmpl import *
import pipe
POP = z3.Function("__v_uf_pop", pipe.U64, pipe.U64)
def opts(root):
    def rem(ctx): return [(n, a) for n, a, c in terms(ctx) if c and n.startswith("('phi'")]
    def S(ctx): return simp(ctx.ex.ghosts["mask"] & (z3.BitVecVal((1 << 64) - 1, 64) << ctx.ex.ghosts["k"]))       # from k on
    def facts(ctx):          # the number of elements of a set
        return [lambda v, a=a: z3.And(z3.ULE(POP(a(v)), 64), POP(bv(0)) == 0, z3.Implies(a(v) != 0, POP(a(v)) == POP(simp(a(v) & (a(v) - 1))) + 1)) for n, a in rem(ctx)]
    def lemmas(ctx):
        k = ctx.ex.ghosts["k"]; s = S(ctx)
        pos = ctx.ex.ghosts["n0"] + (POP(ctx.ex.ghosts["mask"]) - POP(s))
        return [("the lowest element of %s" % n, lambda v, a=a: z3.Implies(inx(k, a(v)), z3.If(inx(k, a(v) & -a(v)), z3.And(s == a(v), z3.Not(inx(k, a(v) & (a(v) - 1)))), inx(k, a(v) & (a(v) - 1))))) for n, a in rem(ctx)] + [("the position is %s" % n2, lambda v, a=a, b=b: z3.Implies(inx(k, a(v) & -a(v)), b(v) == pos)) for n, a in rem(ctx) for n2, b, c in terms(ctx) if c and n2 != n]
    def templates(ctx):
        ex = ctx.ex; k, m, n0, off, lim = [ex.ghosts[x] for x in ("k", "mask", "n0", "offset", "limit")]; out = set_templates(sets=[("mask", m)])(ctx)
        s = S(ctx); pos = n0 + (POP(m) - POP(s)); keep = z3.And(z3.UGE(pos, off), z3.ULT(pos - off, lim))
        for n1, a in rem(ctx):
            out.append(("%s: what is left from k on" % n1, lambda v, a=a: z3.Implies(inx(k, a(v)), a(v) & (z3.BitVecVal((1 << 64) - 1, 64) << k) == s)))
            for n2, b, c2 in terms(ctx):
                if not c2 or n1 == n2: continue
                out.append(("%s done %s" % (n1, n2), lambda v, a=a, b=b: inx(k, b(v)) == z3.And(inx(k, m), z3.Or(inx(k, a(v)), keep))))
                out.append(("%s counts %s" % (n2, n1), lambda v, a=a, b=b: b(v) == n0 + (POP(m) - POP(a(v)))))
        return out
    return dict(pipe.OPTS, templates=templates, facts=facts, lemmas=lemmas, lazy_cttz=True)
PARTS = [dict(tu="P02.cpp", opts=opts, roots=pipe.ROOTS, keep=pipe.KEEP)]
PARTS[0]["native"] = False
REPLAY_SQL = ["limit"]
FUNCTIONS = ["Pipeline::operator()(const LimitOperator&)", "Block::the_iterator, begin, end, erase, empty, mask"]
TRUSTED = ["the number of elements of a set is an uninterpreted function with its recursive definition (pop(0) = 0, pop(s) = 1 + pop(s without its lowest element))"]
ASSUMPTIONS = ["fewer than 2^62 tuples arrive"]

import z3
from sym import bv, to_bv
from tmpl import *
nb = z3.Function("__v_uf_nb", z3.BitVecSort(64), z3.BitVecSort(64))
def opts(root):
    def templates(ctx):
        ts = terms(ctx); out = []
        b1 = lambda c: z3.If(c, bv(1), bv(0))
        G = lambda v, n, s=8: v.glob(n, s)
        tot = lambda v: G(v, "g_count") + G(v, "g_emit")
        gen = lambda v: z3.And(sub(G(v, "g_S"), G(v, "g_T")), G(v, "g_T") & ~G(v, "g_S") & G(v, "g_X") == 0)
        ws = [("0", lambda v: bv(0)), ("1", lambda v: bv(1)), ("all", lambda v: b1(G(v, "g_hiT") != 0))]
        for n1, a, c1 in ts:
            ws.append(("hiT notin %s" % n1, lambda v, a=a: b1(z3.And(G(v, "g_hiT") != 0, G(v, "g_hiT") & a(v) == 0))))
            ws.append(("hiT notin %s-low" % n1, lambda v, a=a: b1(z3.And(G(v, "g_hiT") != 0, G(v, "g_hiT") & (a(v) & (a(v) - 1)) == 0))))
        for nw, w in ws:
            out.append(("count+emit = [%s]" % nw, lambda v, w=w: tot(v) == w(v)))
            out.append(("emit = [%s]" % nw, lambda v, w=w: G(v, "g_emit") == w(v)))
            for n1, a, c1 in ts:
                if not c1: continue
                def f(v, w=w, a=a):
                    TN = G(v, "g_T") & nb(G(v, "g_S")) & G(v, "g_super") & ~G(v, "g_X")
                    pend = z3.And(gen(v), G(v, "g_T") != G(v, "g_S"), a(v) != 0, z3.UGE(TN, a(v)))
                    return tot(v) + b1(pend) == w(v)
                out.append(("count+emit+pending(%s) = [%s]" % (n1, nw), f))
        out.append(("count<=tot", lambda v: z3.ULE(G(v, "g_count"), 1)))
        out.append(("emit<=1", lambda v: z3.ULE(G(v, "g_emit"), 1)))
        out.append(("empty => count=0", lambda v: z3.Implies(G(v, "g_empty", 1) != 0, G(v, "g_count") == 0)))
        out.append(("empty", lambda v: G(v, "g_empty", 1) != 0)); out.append(("count=0", lambda v: G(v, "g_count") == 0)); out.append(("nofront", lambda v: G(v, "g_has", 1) == 0))
        conn = z3.Function("__v_uf_conn", z3.BitVecSort(64), z3.BoolSort())
        out.append(("S ok", lambda v: z3.And(conn(G(v, "g_S")), sub(G(v, "g_S"), G(v, "g_super")), G(v, "g_S") != 0)))
        for n1, a, c1 in ts:
            if not c1: continue
            for n2, b, c2 in ts:
                if n1 != n2 and not c2: out.append(("%s <= %s" % (n1, n2), lambda v, a=a, b=b: sub(a(v), b(v))))
            out.append(("%s <= N" % n1, lambda v, a=a: sub(a(v), nb(G(v, "g_S")) & G(v, "g_super") & ~G(v, "g_X"))))
            out.append(("%s <= super" % n1, lambda v, a=a: sub(a(v), G(v, "g_super"))))
        return out
    return dict(templates=templates, contracts=CONTRACTS)
B = r"std::(deque|vector|list|queue|stack)<std::pair<m::SmallBitset"
def stub(name):
    def f(ex, fr, ins, args, st):
        s, v = ex.run(name, args, st, fr.depth + 1)
        return "noret" if s is None else (s, v)
    return f
def push(ex, fr, ins, args, st): return stub("bag_push" if len(args) == 3 else "bag_push_pair")(ex, fr, ins, args, st)
CONTRACTS = [(B + r".*>::(emplace_back|emplace_front|emplace|push_back|push_front|push)[(<]", push),
             (B + r".*>::(front|back|top)[(]", "bag_front"), (B + r".*>::(pop_front|pop_back|pop)[(]", "bag_pop"), (B + r".*>::empty[(]", "bag_empty"),
             (B + r".*>::~", lambda ex, fr, ins, args, st: (st, None)), (B + r".*>::(deque|vector|list|queue|stack)[(<]", "bag_ctor"),
             ("^m::AdjacencyMatrix::neighbors", "contract_neighbors"), ("^std::function<void [(]m::SmallBitset[)]>::operator[(][)]", "contract_callback")]
F1 = "^std::function<void [(]m::SmallBitset[)]>::operator[(][)]"
PARTS = [dict(tu="G03.cpp", roots=("^prove_", "^bag_", "^contract_"), keep=("%s.*>::(~|emplace|push|pop|front|back|top|empty|deque|vector|list|queue|stack)" % B, "^m::AdjacencyMatrix::neighbors", "^std::function<void [(]m::SmallBitset[)]>::operator[(][)]"), opts=opts, native=False, weight=2),
         dict(tu="G04.cpp", roots=("^prove_", "^contract_"), only="prove_all_sources", keep=(F1, "^m::AdjacencyMatrix::for_each_CSG_undirected[(]m::SmallBitset, m::SmallBitset,"), native=False,
              opts={"contracts": [("^m::AdjacencyMatrix::for_each_CSG_undirected[(]m::SmallBitset, m::SmallBitset,", "contract_csg"), (F1, "contract_single")]})]
FUNCTIONS = ["AdjacencyMatrix::for_each_CSG_undirected (both)"]
TRUSTED = ["the standard work list (deque) hands out exactly the items put in, each once", "std::function invokes the callable it holds"]
ASSUMPTIONS = ["graph theory: a single vertex is connected; a connected set with some of its neighbours is connected; a connected T has a neighbour of every proper nonempty part of it inside T",
  "neighbors() is used through its contract (proved by G01)", "partial correctness: termination is not proved"]
REPLAY = "G03.cpp"

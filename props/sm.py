import z3
from sym import bv, T, Unsupported
def dispatch(ex, fr, ins, v, st):
    (_, o, off), = v.alts
    if o == 0 or isinstance(o, str) or not isinstance(o.fn, tuple): raise Unsupported("dispatch to an unknown operation")
    s, _ = ex.run("phase%d" % min(ex.o["phase"](ex, st), 1), [], st, fr.depth + 1)
    return [(o.fn[2], s)]
def phase(ex, st):
    ob = ex.glob(st, "g_mid"); v = ex.peek(st, ob, 0, 8)
    return 0 if v is None or not hasattr(v, "as_long") or v.as_long() == (1 << 64) - 1 else 1
OPTS = dict(indirectbr=dispatch, phase=phase, unroll=12, contracts=[("^strcmp$", "contract_strcmp"), ("^strncpy$", "contract_strncpy"), ("^m::like[(]", "contract_like")])
ROOTS = ("^prove_", "^phase", "^contract_")

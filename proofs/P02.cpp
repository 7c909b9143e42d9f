// LIMIT and OFFSET: of the tuples that arrive, those from position OFFSET on, at most LIMIT, are passed on.
#include "pipe.hpp"
extern "C" { uint64_t __v_uf_pop(uint64_t); }            // the number of elements of a set
ROOT prove_limit() {
    auto p = pipeline(); uint64_t limit = IN64("limit"), offset = IN64("offset"), n0 = IN64("n0"); __v_assume(n0 < 1UL << 62);
    auto op = new LimitOperator(limit, offset); Sink sink; op->parent(&sink); auto d = new LimitData(); d->num_tuples = n0; op->data(d);
    uint64_t m = p->block_.mask_; bool in = (m >> g_k) & 1; uint64_t from = m & (~0UL << g_k), all = __v_uf_pop(m), pos = n0 + (all - __v_uf_pop(from)); __v_assume(all <= 64 and __v_uf_pop(from) <= all);
    __v_name(n0, "n0"); __v_name(limit, "limit"); __v_name(offset, "offset");
    bool stop = false; try { (*p)((const LimitOperator&) *op); } catch (LimitOperator::stack_unwind&) { stop = true; }
    uint64_t now = p->block_.mask_; bool out = (now >> g_k) & 1;
    __v_assert(out == (in and pos >= offset and pos - offset < limit), "a tuple is passed on iff its position is in the range asked for");
    __v_assert(d->num_tuples == n0 + all, "the tuples seen are counted");
    __v_assert(g_pushes == (now != 0), "the parent runs once, unless nothing is left"); if (g_pushes) __v_assert(g_pushed == now and g_pushbase == g_base, "the parent gets the tuples passed on");
    __v_assert(stop == (n0 + all >= offset and n0 + all - offset >= limit), "evaluation ends once, and only when, all tuples asked for were produced"); __v_cover("end");
}

#pragma once
// Operators of the interpreter: the real operator functions on an arbitrary block of tuples, with the expression machine
// and the parent operator by contract.
#include "IR/Operator.cpp"
#include "backend/Interpreter.cpp"
#include "v.hpp"
extern "C" {
uint64_t g_base, g_k;                                    // address of the tuples of the block; an arbitrary position
uint64_t g_pushes, g_pushed, g_pushbase;                           // how often the parent was run, on which mask and tuples
bool __v_uf_null(uint64_t row, uint64_t e); bool __v_uf_bool(uint64_t row, uint64_t e);      // what an expression evaluates to
}
#ifdef M_ENABLE_SANITY_FIELDS
#define NUM_VALUES(T, N) (T).num_values_ = (N)
#else
#define NUM_VALUES(T, N)
#endif
extern "C" { const Type * __v_type(uint64_t); uint8_t __v_uf_kind(uint64_t);          // types: any objects, of a given kind
void stub_get_boolean(ThreadSafePool<Type>::proxy_type<Boolean> *ret, int) { auto cell = (const Type**) __v_heap(24, 0); cell[0] = __v_type(1); ((uint64_t*) cell)[1] = 1; __v_assume(__v_uf_kind(1) == 3); ((void**) ret)[0] = cell; ((uint64_t*) ret)[1] = (uint64_t) cell; }
void stub_schema(Schema *self) { auto &V = self->entries_._M_impl; V._M_start = V._M_finish = V._M_end_of_storage = nullptr; }
void stub_tuple_schema(Tuple *self, const Schema*) { self->values_ = nullptr; NUM_VALUES(*self, 0); self->null_mask_ = SmallBitset(~0UL); }
void stub_tuple(Tuple *self, std::vector<const Type*> *) { self->values_ = (Value*) __v_heap(sizeof(Value), sizeof(Value)); NUM_VALUES(*self, 1); self->null_mask_ = SmallBitset(~0UL); }
}
static_assert(sizeof(ThreadSafePool<Type>::proxy_type<Boolean>) == 16);
static constexpr uint64_t TS = sizeof(Tuple);
extern "C" { uint64_t __v_index(const void *, const void *start, uint64_t size); Tuple *g_tuples; }
static uint64_t row(const Tuple *t) { return __v_index(t, g_tuples, TS); }
struct Sink : Consumer {
    void accept(OperatorVisitor&) override { }
    void accept(ConstOperatorVisitor &v) const override { auto &p = static_cast<Pipeline&>(v); ++g_pushes; g_pushed = p.block_.mask_; g_pushbase = uint64_t(p.block_.data_.data()); }
};
static Pipeline * pipeline() {
    auto p = (Pipeline*) __v_heap(sizeof(Pipeline), 0); new (p) Pipeline; p->block_.mask_ = IN64("mask"); __v_role(p, "pipe");
    for (auto &t : p->block_.data_) { }
    g_tuples = p->block_.data_.data(); g_base = uint64_t(g_tuples); __v_name(g_base, "abase"); __v_name(uint64_t(g_tuples) - uint64_t(p), "base"); g_pushes = 0; g_k = IN64("k"); __v_assume(g_k < 64); __v_name(g_k, "k"); __v_name(p->block_.mask_, "mask"); return p;
}

#pragma once
// The operations of the expression evaluator.  The real interpreter loop executes one operation, whatever it is, on an
// arbitrary stack: arbitrary depth, arbitrary values, arbitrary NULL bits.  props/sm.py puts the machine into that state
// when the first operation is dispatched (phase0) and observes it when the next one is (phase1).
#include "backend/StackMachine.cpp"
#include "v.hpp"
using O = StackMachine::Opcode;
extern "C" { StackMachine *g_M; uint64_t g_top, g_mid, g_need, g_ops; uint8_t g_ended; StackMachine::Opcode *g_code;
void phase0() { g_M->top_ = g_top; g_mid = 0; }
void phase1() { g_mid = g_M->top_ + 1; g_ops = &*g_M->op_ - g_code; g_M->top_ = g_top; }
}
static constexpr uint64_t MAXSZ = 1UL << 32;
static StackMachine * machine(O opc, unsigned nargs = 0, uint8_t a = 0, uint8_t b = 0) {
    auto M = (StackMachine*) __v_heap(sizeof(StackMachine), 0);
    auto code = (O*) __v_heap(8, 0); g_code = code;
    code[0] = opc; code[1] = nargs > 0 ? O(a) : O::Stop; code[2] = nargs > 1 ? O(b) : O::Stop; code[3] = O::Stop;
    auto &v = M->ops._M_impl; v._M_start = code; v._M_finish = code + 1 + nargs; v._M_end_of_storage = code + 8;
    uint64_t size = IN64("stack_size"); __v_assume(size >= 8 and size < MAXSZ);
    M->required_stack_size_ = size; M->current_stack_size_ = 0;
    M->values_ = (Value*) __v_heap(size * sizeof(Value), sizeof(Value)); M->null_bits_ = (bool*) __v_heap(size, 1);
    M->context_._M_impl._M_start = nullptr; M->context_._M_impl._M_finish = nullptr; M->context_._M_impl._M_end_of_storage = nullptr;
    g_M = M; g_mid = -1; g_top = IN64("top"); __v_assume(g_top <= size); return M;
}
struct Slot { bool null; Value val; };
static Slot slot(StackMachine *M, uint64_t i) { __v_assume(((uint8_t*) M->null_bits_)[i] <= 1); return { M->null_bits_[i], M->values_[i] }; }
static bool same(const Value &a, const Value &b) { return a.type == b.type and a.val_.i == b.val_.i; }
// `below` entries must exist; entries below the `popped` topmost ones are the frame
struct Test {
    StackMachine *M; uint64_t k, need; bool frame; Slot old; uint64_t size;
    Test(StackMachine *M, uint64_t need, uint64_t keep_below, uint64_t grow = 0) : M(M), need(need) {
        __v_assume(g_top >= need and g_top + grow <= uint64_t(M->required_stack_size_)); k = IN64("k"); frame = k < g_top - keep_below; if (frame) old = slot(M, k); size = M->ops._M_impl._M_finish - M->ops._M_impl._M_start;
    }
    void run(Tuple **t, int delta) {
        (*M)(t);
        __v_assert(g_mid == g_top + delta + 1, "the stack grows and shrinks as declared for the operation");
        __v_assert(g_ops == size + 1, "exactly the operation and its operands are consumed");
        if (frame) { Slot now = slot(M, k); __v_assert(now.null == old.null and same(now.val, old.val), "entries further down the stack keep their value"); }
        __v_assert(M->top_ == 0 and uint64_t(M->ops._M_impl._M_finish - M->ops._M_impl._M_start) == size and &*M->op_ == g_code, "the machine is ready for its next run");
    }
};
template<class T> static T get(const Value &v) { return v.as<T>(); }
template<class T> static auto vtag() { if constexpr (std::is_same_v<T, bool>) return Value::Vb; else if constexpr (std::is_same_v<T, int64_t>) return Value::Vi; else if constexpr (std::is_same_v<T, float>) return Value::Vf; else if constexpr (std::is_same_v<T, double>) return Value::Vd; else return Value::Vp; }
template<class T> static uint64_t bits(T x) { uint64_t r = 0; __builtin_memcpy(&r, &x, sizeof x); return r; }
template<class T> static uint64_t vbits(const Value &v) { if constexpr (sizeof(T) == 8) return v.val_.i; else if constexpr (sizeof(T) == 4) return uint32_t(v.val_.i); else return uint8_t(v.val_.i); }
template<class T> static bool holds(const Slot &s, T x) { return s.val.type == vtag<T>() and vbits<T>(s.val) == bits(x); }


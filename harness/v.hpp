// Specification primitives.  Under the verifier these are interpreted symbolically; `__v_assert` becomes an obligation,
// `__v_assume` a precondition, `__v_input_*` an arbitrary value of its type.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void __v_assume(bool);
void __v_assert(bool, const char *);
void __v_require(bool, const char *);            // callee precondition, checked at the call site of a contract
void __v_cover(const char *);                    // reachability witness (vacuity guard)
uint64_t __v_input_u64(const char *);
uint32_t __v_input_u32(const char *);
uint16_t __v_input_u16(const char *);
uint8_t __v_input_u8(const char *);
bool __v_input_bool(const char *);
uint64_t __v_nondet_u64();
uint32_t __v_nondet_u32();
uint8_t __v_nondet_u8();
bool __v_nondet_bool();
void __v_name(uint64_t, const char *);           // make a ghost value available to invariant templates
void __v_input_array(void *, uint64_t count, uint64_t elem_size, const char *);   // arbitrary named contents
void *__v_heap(uint64_t nbytes, uint64_t granularity);
void __v_role(const void *, const char *);        // lets the contracts of a proof refer to an object
uint64_t __v_size(const void *);                 // the size of an allocation
void __v_havoc(void *, uint64_t nbytes, uint64_t granularity);
}
#define ROOT extern "C" void
#define IN64(x) __v_input_u64(x)
static inline bool implies(bool a, bool b) { return !a | b; }

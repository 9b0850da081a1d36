// Harness API.  In the solver build these are builtins of the symbolic executor; in the native build
// (replay) they are provided by native.cpp, which feeds the solver's concrete values back in.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t nsx_u8(const char* name);
uint16_t nsx_u16(const char* name);
uint32_t nsx_u32(const char* name);
uint64_t nsx_u64(const char* name);
void nsx_bytes(void* p, uint64_t n, const char* name);
uint64_t nsx_choice(uint64_t lo, uint64_t hi, const char* name);   // explored as separate concrete values
uint64_t nsx_range(uint64_t lo, uint64_t hi, const char* name);    // symbolic value in [lo,hi]
uint64_t nsx_concretize(uint64_t v);
void nsx_assume(bool c);
void nsx_assert(bool c, const char* msg);
void nsx_fail(const char* msg) __attribute__((noreturn));
void nsx_reach(const char* label);
void nsx_observe(uint64_t v);
int64_t nsx_live_heap(void);
uint64_t nsx_heap_size(const void* p);   // solver build only
int nsx_is_symbolic(void);
int64_t nsx_param(uint64_t i, int64_t def);
uint64_t nsx_steps(void);
void nsx_tag(const char* t);
void nsx_print(const char* s);
void nsx_printu(const char* s, uint64_t v);
void nsx_main(void);
}
#define CHECK(c) nsx_assert((c), #c)
#define CHECKM(c, m) nsx_assert((c), m)

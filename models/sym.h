// Interface between the harnesses and what runs them.  The same harness source is compiled to bitcode, where the symx
// engine implements these functions symbolically, and natively, where models/native.cpp replays recorded inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

extern "C" {
void sx_bytes(void *p, size_t n, const char *name);     // n arbitrary bytes
uint8_t sx_i8(const char *name);                        // arbitrary integers
uint32_t sx_i32(const char *name);
uint64_t sx_i64(const char *name);
uint32_t sx_choice(uint32_t n, const char *name);       // one path for each value below n
void sx_assume(bool c);                                 // paths where c is false are outside the claim
void sx_check(bool c, const char *msg);                 // the property
void sx_same(uint64_t a, uint64_t b, int kind, const char *msg);  // equal bits (0) or floats (1: 32, 2: 64 bits), NaN = NaN
[[noreturn]] void sx_fail(const char *msg);
bool sx_split(bool c);                                  // decide c now (a hint, no effect on the claim)
void sx_observe(const char *name, uint64_t v);          // compared between the encoding and the real code
uint64_t sx_live();                                     // blocks from operator new not yet released
void sx_reach(const char *label);                       // reachability witness
uint32_t sx_param(uint32_t i);                          // bounds given on the command line
// f(a) and g(b) in two threads, to their ends; no other sx_ function is called in them
void sx_parallel(void (*f)(void *), void *a, void (*g)(void *), void *b);
void sx_bound(const char *what);                        // the claim's bound is not enough: no verdict
}

static inline float sx_f32(const char *n) { uint32_t b = sx_i32(n); float f; memcpy(&f, &b, 4); return f; }
static inline double sx_f64(const char *n) { uint64_t b = sx_i64(n); double f; memcpy(&f, &b, 8); return f; }
static inline uint32_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static inline uint64_t bits(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }

// C06: +, -, *, NEG and POS on INT32 and INT64 are exact modulo 2^32 and 2^64.
#include "h.h"
#include "around.h"
template <typename T, typename U> static void arith() {
  T a = sym<T>("a"), b = sym<T>("b");
  const Byte ty = TypeId<T>::v;
  uint32_t k = sx_choice(5, "op");
  Operand r;
  U w;
  switch (k) {
  case 0: r = apply2(ty, a, ty, b, {0x83, ty}); w = (U)a + (U)b; break;
  case 1: r = apply2(ty, a, ty, b, {0x84, ty}); w = (U)a - (U)b; break;
  case 2: r = apply2(ty, a, ty, b, {0x85, ty}); w = (U)a * (U)b; break;
  case 3: r = apply1(ty, a, {0x82, ty}); w = (U)0 - (U)a; break;
  default: r = apply1(ty, a, {0x81, ty}); w = (U)a; break;
  }
  expectValue<T>(r, (T)w, "integer arithmetic is modulo 2^w");
  sx_reach(k == 2 ? "mul" : "other");
}
ENTRY(C06_i32) { arith<int32_t, uint32_t>(); }
ENTRY(C06_i64) { arith<int64_t, uint64_t>(); }
// Operators above other values.  params: operator group
AROUND(C06_around)

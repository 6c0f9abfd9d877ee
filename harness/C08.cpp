// C08: FLOAT and DOUBLE arithmetic is IEEE 754 in the operand's own precision.
#include "h.h"
#include "around.h"
template <typename T> static void arith() {
  const Byte ty = TypeId<T>::v;
  T a = sym<T>("a"), b = sym<T>("b");
  const char *m = "IEEE 754 result in the operand's precision";
  switch (sx_choice(6, "op")) {
  case 0: expectValue<T>(apply2(ty, a, ty, b, {0x83, ty}), a + b, m); break;
  case 1: expectValue<T>(apply2(ty, a, ty, b, {0x84, ty}), a - b, m); break;
  case 2: expectValue<T>(apply2(ty, a, ty, b, {0x85, ty}), a * b, m); break;
  case 3: {
    Operand r = apply2(ty, a, ty, b, {0x86, ty});
    if (sx_split(b == 0)) { sx_reach("zero"); expectNull(r, "dividing by zero gives NULL"); }
    else { sx_reach("div"); expectValue<T>(r, a / b, m); }
    break;
  }
  case 4: {
    // the sign bit flips, even of zeros and infinities
    T w = a;
    if (sizeof(T) == 4) { uint32_t q; memcpy(&q, &a, 4); q ^= 0x80000000u; memcpy(&w, &q, 4); }
    else { uint64_t q; memcpy(&q, &a, 8); q ^= 0x8000000000000000ull; memcpy(&w, &q, 8); }
    expectValue<T>(apply1(ty, a, {0x82, ty}), w, "negation flips the sign");
    break;
  }
  default: expectValue<T>(apply1(ty, a, {0x81, ty}), a, "unary + keeps the value"); break;
  }
}
ENTRY(C08_f32) { arith<float>(); }
ENTRY(C08_f64) { arith<double>(); }
// Operators above other values.  params: operator group
AROUND(C08_around)

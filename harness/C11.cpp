// C11: IS_NULL, IS_TRUE, IS_FALSE.
#include "h.h"
#include "around.h"
static void expectBool(const Operand &r, bool want, const char *m) { expectValue<bool>(r, want, m); }
ENTRY(C11_null) {
  Byte ty = TYPES[sx_choice(6, "type")];
  expectBool(apply1(ty, nullptr, {0xA1, ty}), true, "IS_NULL(NULL) is TRUE");
  expectBool(apply1(ty, nullptr, {0xA2, ty}), false, "IS_TRUE(NULL) is FALSE");
  expectBool(apply1(ty, nullptr, {0xA3, ty}), false, "IS_FALSE(NULL) is FALSE");
  sx_reach("null");
}
template <typename T> static void num() {
  const Byte ty = TypeId<T>::v;
  T v = sym<T>("v");
  bool zero;
  if constexpr (std::is_same_v<T, float>) zero = (bits(v) << 1) == 0;
  else if constexpr (std::is_same_v<T, double>) zero = (bits(v) << 1) == 0;
  else zero = !v;
  switch (sx_choice(3, "op")) {
  case 0: expectBool(apply1(ty, v, {0xA1, ty}), false, "IS_NULL of a value is FALSE"); break;
  case 1: expectBool(apply1(ty, v, {0xA2, ty}), !zero, "IS_TRUE exactly for values different from zero"); break;
  default: expectBool(apply1(ty, v, {0xA3, ty}), zero, "IS_FALSE exactly for zero"); break;
  }
  sx_reach("value");
}
ENTRY(C11_i32) { num<int32_t>(); }
ENTRY(C11_i64) { num<int64_t>(); }
ENTRY(C11_bool) { num<bool>(); }
ENTRY(C11_f32) { num<float>(); }
ENTRY(C11_f64) { num<double>(); }
ENTRY(C11_str) {
  String v(symStringUpTo(sx_param(0), "v"));
  expectBool(apply1(S, v, {0xA1, S}), false, "IS_NULL of a string is FALSE");
  expectBool(apply1(S, v, {0xA2, S}), false, "IS_TRUE of a string is FALSE");
  expectBool(apply1(S, v, {0xA3, S}), true, "IS_FALSE of a string is TRUE");
  sx_reach("value");
}
// Operators above other values.  params: operator group
AROUND(C11_around)

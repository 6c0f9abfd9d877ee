// C14: casts between numeric types and BOOL.
#include "h.h"
#include "around.h"
static Operand cast(Byte d, Byte s, const Operand &v, int op = 0xF0) { return apply1(s, v, {op, (d << 4) | s}); }
ENTRY(C14_int) {
  int32_t i = sym<int32_t>("i");
  int64_t l = sym<int64_t>("l");
  bool b = sym<bool>("b");
  const char *m = "integer and boolean casts";
  switch (sx_choice(8, "cast")) {
  case 0: expectValue<int64_t>(cast(L, I, i), (int64_t)((uint64_t)(uint32_t)i | (i < 0 ? 0xffffffff00000000ull : 0)), "INT32 to INT64 widens exactly"); break;
  case 1: expectValue<int32_t>(cast(I, L, l), (int32_t)(uint32_t)((uint64_t)l & 0xffffffffu), "INT64 to INT32 keeps the low bits"); break;
  case 2: expectValue<bool>(cast(B, I, i), i != 0, m); break;
  case 3: expectValue<bool>(cast(B, L, l), l != 0, m); break;
  case 4: expectValue<int32_t>(cast(I, B, b), b ? 1 : 0, m); break;
  case 5: expectValue<int64_t>(cast(L, B, b), b ? 1 : 0, m); break;
  case 6: expectValue<float>(cast(F, B, b), b ? 1.0f : 0.0f, m); break;
  default: expectValue<double>(cast(D, B, b), b ? 1.0 : 0.0, m); break;
  }
  sx_reach("int");
}
ENTRY(C14_tobool) {
  float f = sx_f32("f");
  double d = sx_f64("d");
  if (sx_choice(2, "double")) expectValue<bool>(cast(B, D, d), (bits(d) << 1) != 0, "BOOL is TRUE exactly for values different from zero");
  else expectValue<bool>(cast(B, F, f), (bits(f) << 1) != 0, "BOOL is TRUE exactly for values different from zero");
  sx_reach("tobool");
}
ENTRY(C14_tofp) {
  int32_t i = sym<int32_t>("i");
  int64_t l = sym<int64_t>("l");
  float f = sx_f32("f");
  double d = sx_f64("d");
  const char *m = "conversion to floating point rounds to nearest";
  switch (sx_choice(6, "cast")) {
  case 0: expectValue<float>(cast(F, I, i), (float)i, m); break;
  case 1: expectValue<double>(cast(D, I, i), (double)i, m); break;
  case 2: expectValue<float>(cast(F, L, l), (float)l, m); break;
  case 3: expectValue<double>(cast(D, L, l), (double)l, m); break;
  case 4: expectValue<double>(cast(D, F, f), (double)f, m); break;
  default: expectValue<float>(cast(F, D, d), (float)d, m); break;
  }
  sx_reach("tofp");
}
// FP to integer: r is the integer with |r - v| <= 1/2, ties away from zero.  v = t + f with t its integral part.
template <typename R, typename T> static void toInt(Byte d, T lo, T hi) {
  const Byte ty = TypeId<T>::v;
  T v = symByExponent<T>(sizeof(R) == 8 ? 63 : 31, "v");
  sx_assume((v > lo) & (v < hi));  // the rounded value fits
  T t = __builtin_trunc(v);
  T f = v - t;  // exact
  R w = (R)t;
  if (f >= (T)0.5) w = w + 1;
  else if (f <= (T)-0.5) w = w - 1;
  expectValue<R>(cast(d, ty, v), w, "floating point to integer rounds to nearest, halves away from zero");
  sx_reach("toint");
}
// bounds: the rounded value is representable exactly when lo < v < hi
ENTRY(C14_f32i32) { toInt<int32_t, float>(I, -2147483904.0f, 2147483648.0f); }
ENTRY(C14_f64i32) { toInt<int32_t, double>(I, -2147483648.5, 2147483647.5); }
ENTRY(C14_f32i64) { toInt<int64_t, float>(L, -9223373136366403584.0f, 9223372036854775808.0f); }
ENTRY(C14_f64i64) { toInt<int64_t, double>(L, -9223372036854777856.0, 9223372036854775808.0); }
ENTRY(C14_same) {
  Byte ty = TYPES[sx_choice(6, "type")];
  Operand v = symOrNull(ty, sx_param(0), "v");
  int op = sx_choice(2, "checked") ? 0xFC : 0xF0;
  Operand r = cast(ty, ty, v, op);
  observeOperand(r, ty);
  sameOperand(r, v, ty, "casting a type to itself leaves the value unchanged");
  sx_reach("same");
}
// Operators above other values.  params: operator group
AROUND(C14_around)

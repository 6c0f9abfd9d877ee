// C15: checked casts.
#include "h.h"
#include "around.h"
static Operand cast(Byte d, Byte s, const Operand &v, int op) { return apply1(s, v, {op, (d << 4) | s}); }
ENTRY(C15_i64i32) {
  int64_t l = sym<int64_t>("l");
  bool fits = sx_split((l >= -2147483648ll) & (l <= 2147483647ll));
  bool threw = false;
  Operand r;
  try { r = cast(I, L, l, 0xFC); } catch (const std::exception &) { threw = true; }
  sx_observe("threw", threw);
  sx_check(threw == !fits, "the checked cast fails exactly when the value does not fit");
  if (!threw) expectValue<int32_t>(r, (int32_t)l, "the checked cast keeps the value");
  sx_reach(threw ? "threw" : "value");
}
template <typename R, typename T> static void checked(Byte d, T lo, T hi) {
  const Byte ty = TypeId<T>::v;
  T v = symByExponent<T>(sizeof(R) == 8 ? 63 : 31, "v");
  bool fits = sx_split((v > lo) & (v < hi));
  bool threw = false;
  Operand r;
  try { r = cast(d, ty, v, 0xFC); } catch (const std::exception &) { threw = true; }
  sx_observe("threw", threw);
  sx_check(threw == !fits, "the checked cast fails exactly when the rounded value does not fit");
  if (!threw) {
    T t = __builtin_trunc(v);
    T f = v - t;
    R w = (R)t;
    if (f >= (T)0.5) w = w + 1;
    else if (f <= (T)-0.5) w = w - 1;
    expectValue<R>(r, w, "the checked cast rounds to nearest, halves away from zero");
  }
  sx_reach(threw ? "threw" : "value");
}
ENTRY(C15_f32i32) { checked<int32_t, float>(I, -2147483904.0f, 2147483648.0f); }
ENTRY(C15_f64i32) { checked<int32_t, double>(I, -2147483648.5, 2147483647.5); }
ENTRY(C15_f32i64) { checked<int64_t, float>(L, -9223373136366403584.0f, 9223372036854775808.0f); }
ENTRY(C15_f64i64) { checked<int64_t, double>(L, -9223372036854777856.0, 9223372036854775808.0); }
// Every other numeric or boolean pair: as the unchecked cast
ENTRY(C15_other) {
  static const Byte T5[] = {I, L, B, F, D};
  Byte d = T5[sx_choice(5, "dst")], s = T5[sx_choice(5, "src")];
  sx_assume(!(d == I && (s == L || s == F || s == D)) && !(d == L && (s == F || s == D)));
  Operand v = symOperand(s, 0, "v");
  Operand a = cast(d, s, v, 0xFC), b = cast(d, s, v, 0xF0);
  observeOperand(a, d);
  sx_check(hasType(a, d), "the checked cast has the target type");
  sameOperand(a, b, d, "the checked cast equals the unchecked one");
  sx_reach("other");
}
// Operators above other values.  params: operator group
AROUND(C15_around)

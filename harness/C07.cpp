// C07: integer / and %.
#include "h.h"
#include "around.h"
// Truncating division written with magnitudes, so that it shares nothing with the code under test.
// param: 0, or the largest magnitude of the operands
template <typename T, typename U> static void divmod(Byte code) {
  const Byte ty = TypeId<T>::v;
  T a = sym<T>("a"), b = sym<T>("b");
  if (uint32_t lim = sx_param(0)) sx_assume((a >= -(T)lim) & (a <= (T)lim) & (b >= -(T)lim) & (b <= (T)lim));
  if (sx_split(b == 1)) b = 1;  // code may treat these on their own
  else if (sx_split(b == -1)) b = -1;
  Operand r = apply2(ty, a, ty, b, {code, ty});
  if (sx_split(b == 0)) {
    sx_reach("zero");
    expectNull(r, "dividing by zero gives NULL");
    return;
  }
  sx_reach("nonzero");
  U ua = a < 0 ? (U)0 - (U)a : (U)a, ub = b < 0 ? (U)0 - (U)b : (U)b;
  if (code == 0x86) {
    U q = ua / ub;
    if ((a < 0) != (b < 0)) q = (U)0 - q;
    expectValue<T>(r, (T)q, "quotient truncated towards zero");
  } else {
    U m = ua % ub;
    if (a < 0) m = (U)0 - m;
    expectValue<T>(r, (T)m, "remainder with the sign of the dividend");
  }
}
ENTRY(C07_div32) { divmod<int32_t, uint32_t>(0x86); }
ENTRY(C07_mod32) { divmod<int32_t, uint32_t>(0x87); }
ENTRY(C07_div64) { divmod<int64_t, uint64_t>(0x86); }
ENTRY(C07_mod64) { divmod<int64_t, uint64_t>(0x87); }
// quotient * divisor + remainder == dividend, on the results themselves
template <typename T, typename U> static void identity(T lim) {
  const Byte ty = TypeId<T>::v;
  T a = sym<T>("a"), b = sym<T>("b");
  sx_assume(b != 0);
  sx_split(a < 0);
  sx_split(b < 0);
  if (lim) sx_assume((a >= -lim) & (a <= lim) & (b >= -lim) & (b <= lim));
  Operand q = apply2(ty, a, ty, b, {0x86, ty}), m = apply2(ty, a, ty, b, {0x87, ty});
  U s = (U)q.GetValue<T>() * (U)b + (U)m.GetValue<T>();
  observe("s", (T)s);
  same((T)s, a, "quotient * divisor + remainder = dividend");
  sx_reach("identity");
}
ENTRY(C07_id32) { identity<int32_t, uint32_t>((int32_t)sx_param(0)); }
ENTRY(C07_id64) { identity<int64_t, uint64_t>((int64_t)sx_param(0)); }
// Operators above other values.  params: operator group
AROUND(C07_around)

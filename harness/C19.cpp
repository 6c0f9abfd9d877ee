// C19: the mathematical functions.
#include <cmath>
#include "h.h"
#include "around.h"
static Operand fun(int f, double v) { return apply1(D, v, {0xF1, f}); }
// CEIL and FLOOR from their definition: integral, on the right side of v, less than 1 away.
ENTRY(C19_round) {
  double v = symByExponent<double>(52, "v");
  bool up = sx_choice(2, "ceil");
  double r = fun(up ? 0x01 : 0x02, v).GetValue<double>();
  observe("r", r);
  uint64_t e = (bits(v) >> 52) & 0x7ff;
  if (sx_split(v != v)) { sx_check(r != r, "NaN stays NaN"); sx_reach("nan"); return; }
  if (sx_split(e >= 1075)) {  // already integral (or infinite)
    same(r, v, "integral values are unchanged");
    sx_reach("big");
    return;
  }
  sx_reach("small");
  // |v| < 2^52: the integral part fits an integer
  int64_t t = (int64_t)v;  // towards zero
  double ft = (double)t;
  int64_t w = up ? (ft < v ? t + 1 : t) : (ft > v ? t - 1 : t);
  double want = (double)w;
  if (w == 0) sx_check(r == 0, up ? "CEIL is the smallest integral value not less than the operand" : "FLOOR is the largest integral value not greater than the operand");
  else same(r, want, up ? "CEIL is the smallest integral value not less than the operand" : "FLOOR is the largest integral value not greater than the operand");
}
ENTRY(C19_libm) {
  double v = sx_f64("v");
  const char *m = "the function named by the encoding";
  switch (sx_choice(11, "fun")) {
  case 0: expectValue<double>(fun(0x07, v), ::sin(v), m); break;
  case 1: expectValue<double>(fun(0x08, v), ::cos(v), m); break;
  case 2: expectValue<double>(fun(0x09, v), ::tan(v), m); break;
  case 3: expectValue<double>(fun(0x0A, v), ::asin(v), m); break;
  case 4: expectValue<double>(fun(0x0B, v), ::acos(v), m); break;
  case 5: expectValue<double>(fun(0x0C, v), ::atan(v), m); break;
  case 6: expectValue<double>(fun(0x0D, v), ::sinh(v), m); break;
  case 7: expectValue<double>(fun(0x0E, v), ::cosh(v), m); break;
  case 8: expectValue<double>(fun(0x0F, v), ::tanh(v), m); break;
  case 9: expectValue<double>(fun(0x10, v), ::exp(v), m); break;
  default: expectValue<double>(fun(0x11, v), ::log(v), m); break;
  }
  sx_reach("libm");
}
// Operators above other values.  params: operator group
AROUND(C19_around)

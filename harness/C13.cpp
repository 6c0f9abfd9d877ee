// C13: MIN, MAX, ABS and the checked ABS.
#include "h.h"
#include "around.h"
template <typename T> static void minmax() {
  const Byte ty = TypeId<T>::v;
  T a = sym<T>("a"), b = sym<T>("b");
  bool max = sx_choice(2, "max");
  Operand r = apply2(ty, a, ty, b, {max ? 0xB2 : 0xB1, ty});
  sx_check(r != nullptr, "MIN/MAX of two values is a value");
  T v = r.GetValue<T>();
  observe("r", v);
  if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) {
    bool isA = bits(v) == bits(a), isB = bits(v) == bits(b);
    sx_check(isA | isB | ((a != a) & (v != v)) | ((b != b) & (v != v)), "MIN/MAX returns one of its operands");
    bool ordered = !(a != a) & !(b != b);
    sx_check(!ordered | (max ? (v >= a) & (v >= b) : (v <= a) & (v <= b)), "MIN is the smaller, MAX the larger operand");
  } else {
    same(v, max ? (a > b ? a : b) : (a < b ? a : b), "MIN is the smaller, MAX the larger operand");
  }
  sx_reach("minmax");
}
ENTRY(C13_i32) { minmax<int32_t>(); }
ENTRY(C13_i64) { minmax<int64_t>(); }
ENTRY(C13_bool) { minmax<bool>(); }
ENTRY(C13_f32) { minmax<float>(); }
ENTRY(C13_f64) { minmax<double>(); }
ENTRY(C13_str) {
  std::string a = symStringUpTo(sx_param(0), "a"), b = symStringUpTo(sx_param(0), "b");
  bool max = sx_choice(2, "max");
  bool less = a.size() < b.size();  // a < b
  size_t m = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = m; i-- > 0;) {
    unsigned char x = a[i], y = b[i];
    less = x < y ? true : x > y ? false : less;
  }
  less = sx_split(less);
  expectString(apply2(S, String(a), S, String(b), {max ? 0xB2 : 0xB1, S}), less == max ? b : a, "MIN is the smaller, MAX the larger string");
  sx_reach("str");
}
// Long strings that agree up to some place.
ENTRY(C13_long) {
  static const uint32_t AT[] = {15, 16, 31, 63, 64, 127, 128, 255, 256, 300, 4096, 32767, 32768, 65535, 65536, 300000};
  uint32_t at = AT[sx_choice(16, "at")];
  std::string a(at, 'm');
  for (uint32_t i = 0; i < at; ++i) a[i] = (char)(i * 11 + 3);
  std::string b = a;
  uint32_t x = sx_choice(4, "first"), y = sx_choice(4, "second");
  unsigned char p = x ? sx_i8("p") : 0, q = y ? sx_i8("q") : 0;
  if (x) a.push_back((char)p);
  if (y) b.push_back((char)q);
  if (x >= 2) a += std::string(x == 2 ? 200 : 200 + at, '\x01');
  if (y >= 2) b += std::string(y == 2 ? 200 : 200 + at, '\x01');
  bool less = sx_split(!x || !y || p == q ? x < y : p < q), max = sx_choice(2, "max");
  const std::string &want = less == max ? b : a;
  Operand r = apply2(S, String(a), S, String(b), {max ? 0xB2 : 0xB1, S});
  sx_check(r != nullptr, "MIN/MAX of two values is a value");
  const std::string &g = *r.GetValue<String>();
  sx_observe("size", g.size());
  sx_check(g.size() == want.size(), "MIN is the smaller, MAX the larger string");
  sx_check(memcmp(g.data(), want.data(), g.size()) == 0, "MIN is the smaller, MAX the larger string");
  sx_reach("str");
}
template <typename T, typename U> static void absInt() {
  const Byte ty = TypeId<T>::v;
  T a = sym<T>("a");
  U w = a < 0 ? (U)0 - (U)a : (U)a;
  if (sx_choice(2, "checked") == 0) {
    expectValue<T>(apply1(ty, a, {0xB3, ty}), (T)w, "ABS is the magnitude");
    sx_reach("abs");
    return;
  }
  bool smallest = (U)a == (U)1 << (sizeof(T) * 8 - 1);
  smallest = sx_split(smallest);
  bool threw = false;
  Operand r;
  try {
    r = apply1(ty, a, {0xB4, ty});
  } catch (const std::exception &e) {
    threw = true;
  }
  sx_observe("threw", threw);
  sx_check(threw == smallest, "checked ABS fails for exactly the smallest integer");
  if (!threw) expectValue<T>(r, (T)w, "checked ABS is the magnitude");
  sx_reach(threw ? "threw" : "checked");
}
ENTRY(C13_abs32) { absInt<int32_t, uint32_t>(); }
ENTRY(C13_abs64) { absInt<int64_t, uint64_t>(); }
ENTRY(C13_absf32) {
  float a = sx_f32("a");
  uint32_t q = bits(a) & 0x7fffffff;
  float w;
  memcpy(&w, &q, 4);
  expectValue<float>(apply1(F, a, {sx_choice(2, "checked") ? 0xB4 : 0xB3, F}), w, "ABS clears the sign");
  sx_reach("abs");
}
ENTRY(C13_absf64) {
  double a = sx_f64("a");
  uint64_t q = bits(a) & 0x7fffffffffffffffull;
  double w;
  memcpy(&w, &q, 8);
  expectValue<double>(apply1(D, a, {sx_choice(2, "checked") ? 0xB4 : 0xB3, D}), w, "ABS clears the sign");
  sx_reach("abs");
}
// Operators above other values.  params: operator group
AROUND(C13_around)

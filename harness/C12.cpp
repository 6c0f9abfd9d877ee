// C12: the six comparisons.
#include "h.h"
#include "around.h"
// order: -1, 0, 1, or 2 for unordered
static bool expected(Byte op, int o) {
  switch (op) {
  case 0x91: return o == 0;
  case 0x92: return (o == 0) | (o == 1);
  case 0x93: return o == 1;
  case 0x94: return (o == 0) | (o == -1);
  case 0x95: return o == -1;
  default: return o != 0;
  }
}
template <typename T> static int order(T a, T b) { return a == b ? 0 : a < b ? -1 : a > b ? 1 : 2; }
static int ieee(int nanA, int nanB, int64_t ka, int64_t kb) { return nanA | nanB ? 2 : ka == kb ? 0 : ka < kb ? -1 : 1; }
// IEEE order from the bit patterns: sign-magnitude integers
static int order(float a, float b) {
  uint32_t x = bits(a), y = bits(b);
  int64_t kx = x >> 31 ? -(int64_t)(x & 0x7fffffff) : (int64_t)x, ky = y >> 31 ? -(int64_t)(y & 0x7fffffff) : (int64_t)y;
  return ieee((x & 0x7fffffff) > 0x7f800000, (y & 0x7fffffff) > 0x7f800000, kx, ky);
}
static int order(double a, double b) {
  const uint64_t m = 0x7fffffffffffffffull;
  uint64_t x = bits(a), y = bits(b);
  int64_t kx = x >> 63 ? -(int64_t)(x & m) : (int64_t)x, ky = y >> 63 ? -(int64_t)(y & m) : (int64_t)y;
  return ieee((x & m) > 0x7ff0000000000000ull, (y & m) > 0x7ff0000000000000ull, kx, ky);
}
template <typename T> static void cmp() {
  const Byte ty = TypeId<T>::v;
  T a = sym<T>("a"), b = sym<T>("b");
  Byte op = 0x91 + sx_choice(6, "op");
  expectValue<bool>(apply2(ty, a, ty, b, {op, ty}), expected(op, order(a, b)), "comparison agrees with the order");
  sx_reach("cmp");
}
ENTRY(C12_i32) { cmp<int32_t>(); }
ENTRY(C12_i64) { cmp<int64_t>(); }
ENTRY(C12_bool) { cmp<bool>(); }
ENTRY(C12_f32) { cmp<float>(); }
ENTRY(C12_f64) { cmp<double>(); }
ENTRY(C12_str) {
  std::string a = symStringUpTo(sx_param(0), "a"), b = symStringUpTo(sx_param(0), "b");
  Byte op = 0x91 + sx_choice(6, "op");
  int o = a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
  size_t m = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = m; i-- > 0;) {
    unsigned char x = a[i], y = b[i];
    o = x < y ? -1 : x > y ? 1 : o;
  }
  expectValue<bool>(apply2(S, String(a), S, String(b), {op, S}), expected(op, o), "string comparison is byte-wise lexicographic");
  sx_reach("str");
}
// Long strings that agree up to some place, where one of them has another byte or ends.
ENTRY(C12_long) {
  static const uint32_t AT[] = {15, 16, 31, 63, 64, 127, 128, 255, 256, 300, 4096, 32767, 32768, 65535, 65536, 300000};
  uint32_t at = AT[sx_choice(16, "at")];
  std::string a(at, 'm');
  for (uint32_t i = 0; i < at; ++i) a[i] = (char)(i * 11 + 3);
  std::string b = a;
  uint32_t x = sx_choice(4, "first"), y = sx_choice(4, "second");
  unsigned char p = x ? sx_i8("p") : 0, q = y ? sx_i8("q") : 0;
  if (x) a.push_back((char)p);
  if (y) b.push_back((char)q);
  if (x >= 2) a += std::string(x == 2 ? 200 : 200 + at, '\x01');
  if (y >= 2) b += std::string(y == 2 ? 200 : 200 + at, '\x01');
  int rest = x < y ? -1 : x > y ? 1 : 0;
  int o = !x || !y ? rest : p < q ? -1 : p > q ? 1 : rest;
  Byte op = 0x91 + sx_choice(6, "op");
  expectValue<bool>(apply2(S, String(a), S, String(b), {op, S}), expected(op, o), "string comparison is byte-wise lexicographic");
  sx_reach("str");
}
// Trichotomy and complements, on the results themselves
template <typename T> static void laws() {
  const Byte ty = TypeId<T>::v;
  T a = sym<T>("a"), b = sym<T>("b");
  bool r[6];
  for (int i = 0; i < 6; ++i) r[i] = apply2(ty, a, ty, b, {0x91 + i, ty}).template GetValue<bool>();
  bool eq = r[0], ge = r[1], gt = r[2], le = r[3], lt = r[4], ne = r[5];
  sx_check(ne == !eq, "<> is the complement of =");
  bool unordered = (a != a) | (b != b);
  sx_check(((int)lt + (int)eq + (int)gt == 1) | unordered, "exactly one of <, =, > holds");
  sx_check((le == !gt) | unordered, "<= is the complement of >");
  sx_check((ge == !lt) | unordered, ">= is the complement of <");
  sx_check((lt == apply2(ty, b, ty, a, {0x93, ty}).template GetValue<bool>()), "a < b is b > a");
  sx_reach("laws");
}
ENTRY(C12_laws_i32) { laws<int32_t>(); }
ENTRY(C12_laws_i64) { laws<int64_t>(); }
ENTRY(C12_laws_f32) { laws<float>(); }
ENTRY(C12_laws_f64) { laws<double>(); }
// Operators above other values.  params: operator group
AROUND(C12_around)

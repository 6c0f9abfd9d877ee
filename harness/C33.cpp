// C33: casting FLOAT and DOUBLE to STRING.
#include "h.h"
// Reads [-]digits.digits and checks its form; ip and the decimals scaled to 15 digits.
static void parseText(const std::string &s, bool neg, uint64_t &ip, uint64_t &frac) {
  size_t i = 0, n = s.size();
  if (neg) { sx_check(n > 0 && s[0] == '-', "a negative value starts with a minus sign"); i = 1; }
  size_t b = i;
  ip = 0;
  for (; i < n && s[i] != '.'; ++i) {
    sx_check((unsigned char)s[i] - (unsigned)'0' < 10u, "only digits before the decimal point");
    ip = ip * 10 + (uint64_t)((unsigned char)s[i] - (unsigned)'0');
  }
  sx_check(i > b && i < n, "digits, then a decimal point");
  sx_check(i == b + 1 || s[b] != '0', "no leading zero");
  size_t k = n - ++i;
  sx_check(k >= 1, "at least one decimal");
  sx_check(k <= 15, "at most 15 decimals");
  frac = 0;
  for (size_t j = 0; j < 15; ++j) {
    unsigned d = 0;
    if (j < k) { d = (unsigned char)s[i + j] - (unsigned)'0'; sx_check(d < 10u, "only digits after the decimal point"); }
    frac = frac * 10 + (uint64_t)d;
  }
  sx_check(k == 1 || s[n - 1] != '0', "no trailing zero");
}
// v = (2^L + x) / 2^u with x < 2^L arbitrary: L and u are chosen concretely.
template <typename T> static void value(int L, int u, bool neg) {
  const bool f32 = sizeof(T) == 4;
  uint64_t x = 0;
  if (L > 0) { x = L <= 8 ? sx_i8("x") : L <= 32 ? sx_i32("x") : sx_i64("x"); sx_assume(x < (1ull << L)); }
  uint64_t n = (1ull << L) + x;
  T v;
  if (f32) {
    uint32_t b = ((uint32_t)neg << 31) | ((uint32_t)(127 + L - u) << 23) | (uint32_t)(x << (23 - L));
    memcpy(&v, &b, 4);
  } else {
    uint64_t b = ((uint64_t)neg << 63) | ((uint64_t)(1023 + L - u) << 52) | (x << (52 - L));
    memcpy(&v, &b, 8);
  }
  const Byte ty = TypeId<T>::v;
  Operand r = apply1(ty, v, {0xF0, (S << 4) | ty});
  sx_check(r != nullptr, "a value");
  String str = r.GetValue<String>();
  observe("text", *str);
  uint64_t ip, frac;
  parseText(*str, neg, ip, frac);
  // |ip + frac / 10^15 - n / 2^u| <= 10^-15 / 2
  const uint64_t P5 = 30517578125ull, P10 = 1000000000000000ull;
  if (u <= 0) { same((int64_t)ip, (int64_t)(n << -u), "the integer"); sx_check(frac == 0, "an integer has no decimals"); }
  else if (u <= 15) {
    same((int64_t)ip, (int64_t)(n >> u), "the integral part");
    same((int64_t)frac, (int64_t)((n & ((1ull << u) - 1)) * (P10 >> u)), "the decimals are exact");
  } else {
    // compare in units of 10^-15 / 2^(u - 15), relative to the integral part
    uint64_t whole = n >> u, rest = n & ((1ull << u) - 1);
    uint64_t got = (frac << (u - 15)) + (ip == whole ? 0 : P5 << u), want = rest * P5;
    sx_check(ip == whole || ip == whole + 1, "the integral part");
    uint64_t diff = got > want ? got - want : want - got;
    sx_check(diff <= (1ull << (u - 16)), "within half a unit of the fifteenth decimal");
  }
  sx_reach("text");
}
// params: L from, L to, u from, u to
template <typename T> static void values() {
  int L = (int)(sx_param(0) + sx_choice(sx_param(1) - sx_param(0) + 1, "L"));
  int u = (int)(sx_param(2) + sx_choice(sx_param(3) - sx_param(2) + 1, "u"));
  value<T>(L, u, sx_choice(2, "negative"));
}
ENTRY(C33_f32) { values<float>(); }
ENTRY(C33_f64) { values<double>(); }
// zero, and the halves, quarters... at the edges of what is printed; huge values
ENTRY(C33_zero) {
  bool neg = sx_choice(2, "negative");
  Operand r = sx_choice(2, "type") ? apply1(D, neg ? -0.0 : 0.0, {0xF0, (S << 4) | D}) : apply1(F, neg ? -0.0f : 0.0f, {0xF0, (S << 4) | F});
  const std::string &s = *r.GetValue<String>();
  observe("text", s);
  uint64_t ip, frac;
  parseText(s, neg, ip, frac);
  sx_check(ip == 0 && frac == 0, "zero");
  sx_reach("zero");
}
static void expectPrefix(const std::string &s, const char *want) {
  size_t n = strlen(want);
  sx_check(s.size() == n && memcmp(s.data(), want, n) == 0, "the exact integer, one decimal");
}
ENTRY(C33_huge) {
  int i = (int)sx_choice(4, "case");
  const double v[] = {1e19, 1.2676506002282294e30, -4e100 , 1e22};
  const char *w[] = {"10000000000000000000.0", "1267650600228229401496703205376.0", nullptr, "10000000000000000000000.0"};
  Operand r = apply1(D, v[i], {0xF0, (S << 4) | D});
  const std::string &s = *r.GetValue<String>();
  observe("text", s);
  if (w[i]) expectPrefix(s, w[i]);
  else sx_check(s.size() == 104 && s[0] == '-' && s[1] == '4' && s[103] == '0' && s[102] == '.', "the exact integer, one decimal");
  sx_reach("huge");
}

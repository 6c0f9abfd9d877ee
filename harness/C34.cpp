// C34: casting STRING to FLOAT and DOUBLE reads the numeric prefix.
#include "h.h"
static bool dig(unsigned char c) { return c - (unsigned)'0' < 10u; }
// The longest numeric prefix: digits as an integer, and a power of ten.
struct Num { bool any, neg; uint64_t d; int e, digits; };
static Num prefix(const std::string &s) {
  Num r{false, false, 0, 0, 0};
  size_t i = 0, n = s.size();
  auto at = [&](size_t k) -> unsigned char { return k < n ? s[k] : 0; };
  while (i < n && sx_split((at(i) == ' ') | (at(i) - 9u < 5u))) ++i;
  if (sx_split(at(i) == '-')) { r.neg = true; ++i; }
  else if (sx_split(at(i) == '+')) ++i;
  int before = 0, after = 0;
  for (; sx_split(dig(at(i))); ++i, ++before) r.d = r.d * 10 + (at(i) - '0');
  if (sx_split(at(i) == '.')) {
    size_t k = i + 1;
    for (; sx_split(dig(at(k))); ++k, ++after) r.d = r.d * 10 + (at(k) - '0');
    i = k;
  }
  r.any = before + after > 0;
  r.digits = before + after;
  if (!r.any) return r;
  r.e = -after;
  if (sx_split((at(i) | 32) == 'e')) {
    size_t k = i + 1;
    bool neg = false;
    if (sx_split(at(k) == '-')) { neg = true; ++k; }
    else if (sx_split(at(k) == '+')) ++k;
    int x = 0;
    for (; sx_split(dig(at(k))); ++k)
      for (unsigned v = 0; v < 10; ++v) if (sx_split(at(k) == '0' + v)) { if (x < 1000) x = x * 10 + v; break; }
    r.e += neg ? -x : x;
  }
  return r;
}
static const char *const BEFORE[] = {"", " \t", "-", "1", "12.", "+.5", "3e", "7.25e-", "16777", "9e0", ".", "-0", "+", "00", "\v\f\r\n2"};
static const char *const AFTER[] = {"", "5", "e1", "rest"};
template <typename T> static void cast() {
  const Byte ty = TypeId<T>::v;
  std::string s = BEFORE[sx_param(1)];
  s += symStringUpTo(sx_param(0), "s");
  s += AFTER[sx_choice(4, "after")];
  bool letters = false;  // inf, nan and hexadecimal numbers are outside the claim
  for (unsigned char c : s) letters |= ((c | 32) == 'x') | ((c | 32) == 'i') | ((c | 32) == 'n');
  sx_assume(!letters);
  Num w = prefix(s);
  if (w.any) {  // and so are numbers that are not the quotient or product of two that the type holds exactly
    sx_assume(w.digits <= 15);
    sx_assume(sizeof(T) == 4 ? w.d < (1u << 24) : true);
    int lim = sizeof(T) == 4 ? 10 : 22;
    if (w.d == 0) ; else sx_assume(w.e >= -lim && w.e <= lim);
  }
  T want = 0;
  if (w.any && w.d) {
    T p = 1;
    for (int k = w.e < 0 ? -w.e : w.e; k > 0; --k) p *= 10;
    want = w.e < 0 ? (T)w.d / p : (T)w.d * p;
  }
  if (w.any && w.neg) want = -want;
  Operand r;
  try {
    r = apply1(S, String(s), {0xF0, ty << 4 | S});
  } catch (const std::exception &) {
    sx_fail("casting never fails on such a string");
  }
  sx_check(r != nullptr, "a value");
  T v = r.GetValue<T>();
  observe("v", v == 0 ? (T)0 : v);
  sx_check(v == want, "the nearest value of the longest numeric prefix, 0 if there is none");
  if (w.any) sx_reach("number"); else sx_reach("none");
}
// params: arbitrary bytes, what comes before them
ENTRY(C34_f64) { cast<double>(); }
ENTRY(C34_f32) { cast<float>(); }
// Strings without a number.
ENTRY(C34_none) {
  static const char *const T[] = {"", " ", "abc", "-", "+-1", "e5", ".", ".e1", "--2", "\t\n", "- 3", "$4", "/5", ":6"};
  std::string s = T[sx_choice(14, "text")];
  bool f = sx_choice(2, "float");
  Operand r;
  try { r = apply1(S, String(s), {0xF0, f ? 0x47 : 0x57}); } catch (const std::exception &) { sx_fail("casting never fails on a string without a number"); }
  sx_check(f ? r.GetValue<float>() == 0 : r.GetValue<double>() == 0, "0 if there is none");
  sx_reach("none");
}
// Numbers at and next to the middle between two neighbouring values: the digits and the power of ten of the middle (cut
// off after 60 digits if `more`), and the bits of the smaller neighbour.
struct Middle { int width; const char *digits; int exp; bool more; uint64_t below; };
static const Middle MIDDLE[] = {
    {32, "1000000059604644775390625", 0, 0, 0x3f800000ull},
    {32, "1000000052154064178466796875", -1, 0, 0x3dcccccdull},
    {32, "16777217", 7, 0, 0x4b800000ull},
    {32, "314159286022186279296875", 0, 0, 0x40490fdbull},
    {32, "10000000512", 10, 0, 0x501502f9ull},
    {32, "100000005019085088386255166588472624270457858839273321618912", -30, 1, 0xda24260ull},
    {32, "340282336497324057985868971510891282432", 38, 0, 0x7f7ffffeull},
    {32, "117549470114690358917300426815464150029769837683757299063769", -38, 1, 0x800002ull},
    {64, "100000000000000011102230246251565404236316680908203125", 0, 0, 0x3ff0000000000000ull},
    {64, "100000000000000012490009027033011079765856266021728515625", -1, 0, 0x3fb999999999999aull},
    {64, "9007199254740993", 15, 0, 0x4340000000000000ull},
    {64, "1", 23, 0, 0x44b52d02c7e14af6ull},
    {64, "100000000000000010794955241978970949473451457579780024977573", -300, 1, 0x1a56e1fc2f8f359ull},
    {64, "179769313486231560835325876058105298516207002341652166261661", 308, 1, 0x7feffffffffffffeull},
    {64, "222507385850720212418870147920222032907240528279439037814303", -308, 1, 0x10000000000001ull},
    {64, "602214076000000020578304", 23, 0, 0x44dfe185ca57c517ull},
};
// params: which.  One digit, far enough to the right, is arbitrary; what follows is the middle's, nothing, or nines.
ENTRY(C34_middle) {
  const Middle &m = MIDDLE[sx_param(0)];
  std::string d = m.digits;
  size_t n = d.size(), least = m.width == 32 ? 9 : 18;
  while (d.size() <= least) d.push_back('0');
  n = d.size();
  size_t at = least + sx_choice((uint32_t)(n - least), "place");
  unsigned char c = sx_i8("digit");
  sx_assume(c - (unsigned)'0' < 10u);
  for (unsigned v = '0'; v <= '9'; ++v) if (sx_split(c == v)) { c = (unsigned char)v; break; }
  int o = c < (unsigned char)d[at] ? -1 : c > (unsigned char)d[at] ? 1 : 0;
  std::string t = d.substr(0, at);
  t.push_back((char)c);
  uint32_t rest = sx_choice(3, "rest");
  if (rest == 0) { t += d.substr(at + 1); if (o == 0) o = m.more ? -1 : 0; }
  if (rest == 1 && o == 0) { o = m.more ? -1 : 0; for (size_t i = at + 1; i < n; ++i) if (d[i] != '0') o = -1; }
  if (rest == 2) {
    t += std::string(n - at, '9');
    if (o == 0) o = 1;
  }
  uint32_t form = sx_choice(3, "form");
  std::string s = sx_choice(2, "negative") ? "-" : "";
  bool neg = !s.empty();
  int e = m.exp;
  if (form == 0) { s += t.substr(0, 1) + "." + t.substr(1); }
  else if (form == 1) { s += t; e -= (int)t.size() - 1; }
  else { s += "0.0" + t; e += 2; }
  s += "e" + std::to_string(e) + " rest";
  Operand r;
  try {
    r = apply1(S, String(s), {0xF0, m.width == 32 ? 0x47 : 0x57});
  } catch (const std::exception &) {
    sx_fail("casting never fails on such a string");
  }
  uint64_t want = o < 0 ? m.below : o > 0 ? m.below + 1 : m.below + (m.below & 1);
  if (neg) want |= m.width == 32 ? 0x80000000ull : 0x8000000000000000ull;
  uint64_t got = m.width == 32 ? bits(r.GetValue<float>()) : bits(r.GetValue<double>());
  sx_observe("v", got);
  sx_check(got == want, "the nearest value, the even one of two");
  sx_reach("middle");
}

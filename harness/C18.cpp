// C18: CONCAT, LOWER, UPPER and the TRIM family.
#include "h.h"
#include "around.h"
static Operand un(Byte f, const Operand &s) { return apply1(S, s, {0xF1, f}); }
static void unchanged(const Operand &o, const std::string &s) {
  String v = o.GetValue<String>();
  sx_check(v->size() == s.size(), "the operand is unchanged");
  sx_check(memcmp(v->data(), s.data(), s.size()) == 0, "the operand is unchanged");
}
ENTRY(C18_concat) {
  std::string a = symStringUpTo(sx_param(0), "a"), b = symStringUpTo(sx_param(0), "b");
  Operand x = String(a), y = String(b);
  bool fun = sx_choice(2, "function");
  Operand r = fun ? apply2(S, x, S, y, {0xF1, 0x21}) : apply2(S, x, S, y, {0x83, 0x07});
  std::string want = a;
  for (size_t i = 0; i < b.size(); ++i) want.push_back(b[i]);
  expectString(r, want, "the left string followed by the right one");
  unchanged(x, a);
  unchanged(y, b);
  sx_reach("concat");
}
// one value as both operands
ENTRY(C18_self) {
  std::string a = symStringUpTo(sx_param(0), "a");
  Operand x = String(a);
  Tuple t;
  t.push_back(x);
  Code c;
  c << 0x37 << 0 << 0x37 << 0;
  if (sx_choice(2, "function")) c << 0xF1 << 0x21; else c << 0x83 << 0x07;
  std::string want = a;
  for (size_t i = 0; i < a.size(); ++i) want.push_back(a[i]);
  expectString(runOn(c, &t), want, "the string twice");
  unchanged(x, a);
  unchanged(t[0], a);
  sx_reach("self");
}
ENTRY(C18_case) {
  std::string a = symStringUpTo(sx_param(0), "a");
  Operand x = String(a);
  bool up = sx_choice(2, "upper");
  std::string want = a;
  for (size_t i = 0; i < want.size(); ++i) {
    unsigned char ch = (unsigned char)a[i];
    bool letter = up ? (ch >= 'a' && ch <= 'z') : (ch >= 'A' && ch <= 'Z');
    want[i] = (char)(letter ? ch ^ 0x20 : ch);
  }
  expectString(un(up ? 0x23 : 0x22, x), want, "each ASCII letter is mapped, nothing else");
  unchanged(x, a);
  sx_reach("case");
}
static bool space(char c) {
  unsigned char u = (unsigned char)c;
  return sx_split(u == ' ' || (u >= 9 && u <= 13));
}
ENTRY(C18_trim) {
  std::string a = symStringUpTo(sx_param(0), "a");
  Operand x = String(a);
  uint32_t k = sx_choice(3, "which");
  size_t from = 0, to = a.size();
  if (k != 2) while (from < to && space(a[from])) ++from;
  if (k != 1) while (to > from && space(a[to - 1])) --to;
  std::string want;
  for (size_t i = from; i < to; ++i) want.push_back(a[i]);
  static const Byte f[] = {0x26, 0x28, 0x2A};
  expectString(un(f[k], x), want, "exactly the whitespace at the ends is removed");
  unchanged(x, a);
  sx_reach("trim");
}
// long strings: runs of whitespace and letters of any length around the sizes where representations change
static void isText(const Operand &r, const std::string &want, const char *msg) {
  sx_check(r != nullptr, msg);
  const std::string &g = *r.GetValue<String>();
  sx_observe(msg, g.size());
  sx_check(g.size() == want.size(), msg);
  sx_check(memcmp(g.data(), want.data(), g.size()) == 0, msg);
}
ENTRY(C18_long) {
  static const uint32_t lens[] = {15, 16, 40, 300, 33000, 70000};
  uint32_t len = lens[sx_choice(6, "len")], k = sx_choice(3, "spaces");
  uint32_t l = k == 0 ? 0 : k == 1 ? 1 : len / 2, r = k == 2 ? len - l - 1 : k;
  std::string s(len, 'x');
  for (uint32_t i = 0; i < len; ++i) s[i] = (char)(i < l ? 9 + i % 5 : i >= len - r ? ' ' : 'A' + i % 26);
  Operand x = String(s);
  isText(un(0x26, x), s.substr(l, len - l - r), "TRIM");
  isText(un(0x28, x), s.substr(l), "LTRIM");
  isText(un(0x2A, x), s.substr(0, len - r), "RTRIM");
  std::string low = s;
  for (auto &c : low) if (c >= 'A' && c <= 'Z') c += 32;
  isText(un(0x22, x), low, "LOWER");
  isText(un(0x23, String(low)), s, "UPPER");
  isText(apply2(S, x, S, String(low), {0xF1, 0x21}), s + low, "CONCAT");
  unchanged(x, s);
  sx_reach("long");
}
// Operators above other values.  params: operator group
AROUND(C18_around)

// C17: LEFT, RIGHT, SUBSTR and MID select the documented bytes.
#include "h.h"
#include "around.h"
// The bytes of s at the 0-based positions from <= i < to that exist.
static std::string slice(const std::string &s, int64_t from, int64_t to) {
  std::string r;
  for (int64_t i = 0; i < (int64_t)s.size(); ++i)
    if (sx_split(i >= from && i < to)) r.push_back(s[i]);
  return r;
}
static int64_t maxOf(int64_t a, int64_t b) { return a > b ? a : b; }
static Byte fun(Byte f) { return f; }
static void check2(Byte f, const std::string &s, int32_t a, const std::string &want, const char *msg) {
  Operand so = String(s);
  Operand r = apply2(S, so, I, a, {0xF1, fun(f)});
  expectString(r, want, msg);
  sx_check(*so.GetValue<String>() == s, "the operand is unchanged");
}
static void check3(Byte f, const std::string &s, int32_t a, int32_t b, const std::string &want, const char *msg) {
  Operand so = String(s);
  Operand r = apply3(S, so, I, a, I, b, {0xF1, fun(f)});
  expectString(r, want, msg);
  sx_check(*so.GetValue<String>() == s, "the operand is unchanged");
}
// params: longest string
ENTRY(C17_left) {
  std::string s = symStringUpTo(sx_param(0), "s");
  int32_t n = sym<int32_t>("n");
  check2(0x24, s, n, slice(s, 0, n), "LEFT gives the first n bytes");
  sx_reach("left");
}
ENTRY(C17_right) {
  std::string s = symStringUpTo(sx_param(0), "s");
  int32_t n = sym<int32_t>("n");
  int64_t len = s.size();
  check2(0x25, s, n, slice(s, len - maxOf(n, 0), len), "RIGHT gives the last n bytes");
  sx_reach("right");
}
ENTRY(C17_substr3) {
  std::string s = symStringUpTo(sx_param(0), "s");
  int32_t b = sym<int32_t>("b"), e = sym<int32_t>("e");
  check3(0x2C, s, b, e, slice(s, b, e), "SUBSTR gives the bytes from b up to e");
  sx_reach("substr3");
}
ENTRY(C17_substr2) {
  std::string s = symStringUpTo(sx_param(0), "s");
  int32_t b = sym<int32_t>("b");
  check2(0x2D, s, b, slice(s, b, s.size()), "SUBSTR gives the bytes from b to the end");
  sx_reach("substr2");
}
// the 0-based start of MID, or the length when the position is outside the string
static int64_t midStart(int32_t p, int64_t len) {
  if (sx_split(p >= 1 && p <= len)) return (int64_t)p - 1;
  if (sx_split(p <= -1 && p >= -len)) return len + p;
  return len;
}
ENTRY(C17_mid3) {
  std::string s = symStringUpTo(sx_param(0), "s");
  int32_t p = sym<int32_t>("p"), n = sym<int32_t>("n");
  int64_t b = midStart(p, s.size());
  check3(0x2E, s, p, n, slice(s, b, b + maxOf(n, 0)), "MID gives n bytes from position p");
  sx_reach("mid3");
}
ENTRY(C17_mid2) {
  std::string s = symStringUpTo(sx_param(0), "s");
  int32_t p = sym<int32_t>("p");
  check2(0x2F, s, p, slice(s, midStart(p, s.size()), s.size()), "MID gives the bytes from position p to the end");
  sx_reach("mid2");
}
// a few long strings, so that lengths beyond one byte are seen as well
// As check2 and check3, for strings too long to look at each byte on its own.
static void long2(Byte f, const std::string &s, int32_t a, const std::string &want, const char *msg) {
  Operand so = String(s);
  Operand r = apply2(S, so, I, a, {0xF1, fun(f)});
  sx_check(r != nullptr, msg);
  const std::string &g = *r.GetValue<String>();
  sx_observe(msg, g.size());
  sx_check(g.size() == want.size(), msg);
  sx_check(memcmp(g.data(), want.data(), g.size()) == 0, msg);
  sx_check(memcmp(so.GetValue<String>()->data(), s.data(), s.size()) == 0, "the operand is unchanged");
}
static void long3(Byte f, const std::string &s, int32_t a, int32_t b, const std::string &want, const char *msg) {
  Operand so = String(s);
  Operand r = apply3(S, so, I, a, I, b, {0xF1, fun(f)});
  sx_check(r != nullptr, msg);
  const std::string &g = *r.GetValue<String>();
  sx_observe(msg, g.size());
  sx_check(g.size() == want.size(), msg);
  sx_check(memcmp(g.data(), want.data(), g.size()) == 0, msg);
  sx_check(memcmp(so.GetValue<String>()->data(), s.data(), s.size()) == 0, "the operand is unchanged");
}
ENTRY(C17_long) {
  static const uint32_t lens[] = {15, 16, 17, 130, 300, 33000, 70000};
  uint32_t len = lens[sx_choice(7, "len")];
  std::string s(len, 'x');
  for (uint32_t i = 0; i < len; ++i) s[i] = (char)(i * 7 + i / 256 + 1);
  s[0] = (char)sx_i8("first");
  s[len - 1] = (char)sx_i8("last");
  uint32_t k = sx_choice(5, "position");
  int32_t at = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? (int32_t)len - 1 : k == 3 ? (int32_t)len : (int32_t)(len / 2 + 3);
  int32_t neg = -at;
  long2(0x24, s, at, s.substr(0, at), "LEFT");
  long2(0x25, s, at, s.substr(len - at), "RIGHT");
  long2(0x2D, s, at, s.substr(at), "SUBSTR");
  long3(0x2C, s, at, (int32_t)len, s.substr(at), "SUBSTR");
  long3(0x2C, s, 0, at, s.substr(0, at), "SUBSTR");
  long2(0x2F, s, at, at ? s.substr(at - 1) : std::string(), "MID");
  long2(0x2F, s, neg, at ? s.substr(len - at) : std::string(), "MID");
  long3(0x2E, s, neg, 3, at ? s.substr(len - at, 3) : std::string(), "MID");
  long3(0x2E, s, 1, at, s.substr(0, at), "MID");
  sx_reach("long");
}
// Operators above other values.  params: operator group
AROUND(C17_around)

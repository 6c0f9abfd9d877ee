// C37: the text form of values and types.
#include <climits>
#include <sstream>

#include "expr/types.h"
#include "rel.h"
static std::string text(const Operand &v) {
  std::ostringstream o;
  o << '<' << v << '>';
  return o.str();
}
// The digits of v: minus sign, no leading zeros.  Compared backwards, so that no digit is decided by a branch.
static void expectDecimal(const std::string &s, uint64_t mag, bool neg, const char *msg) {
  sx_check(s.size() >= 3 && s[0] == '<' && s[s.size() - 1] == '>', msg);
  size_t b = 1, e = s.size() - 1;
  if (neg) { sx_check(s[b] == '-', msg); ++b; }
  sx_check(b < e && e - b <= 20, msg);
  sx_check(e - b == 1 || s[b] != '0', msg);
  uint64_t v = 0;
  for (size_t i = b; i < e; ++i) {
    sx_check(s[i] >= '0' && s[i] <= '9', msg);
    v = v * 10 + (uint64_t)(s[i] - '0');
  }
  sx_check(v == mag, msg);
}
ENTRY(C37_i32) {
  int32_t v = sym<int32_t>("v");
  bool neg = sx_split(v < 0);
  uint32_t mag = neg ? 0u - (uint32_t)v : (uint32_t)v;
  expectDecimal(text(v), mag, neg, "an INT32 in decimal");
  observe("text", text(v));
  sx_reach("i32");
}
// params: bits of the magnitude
ENTRY(C37_i64) {
  int64_t v = sym<int64_t>("v");
  bool neg = sx_split(v < 0);
  uint64_t mag = neg ? 0ull - (uint64_t)v : (uint64_t)v;
  if (sx_param(0) < 64) sx_assume(mag >> sx_param(0) == 0);
  expectDecimal(text(v), mag, neg, "an INT64 in decimal");
  sx_reach("i64");
}
ENTRY(C37_edges) {
  static const int64_t V[] = {INT64_MIN, INT64_MAX, INT64_MIN + 1, 1000000000000000000, 999999999999999999, -1000000000000000000, (int64_t)1 << 32, -((int64_t)1 << 32), 10000000000, 9999999999};
  static const char *const W[] = {"-9223372036854775808", "9223372036854775807", "-9223372036854775807", "1000000000000000000", "999999999999999999", "-1000000000000000000", "4294967296", "-4294967296", "10000000000", "9999999999"};
  uint32_t k = sx_choice(10, "which");
  sx_check(text(V[k]) == std::string("<") + W[k] + ">", "an INT64 in decimal");
  sx_reach("edges");
}
ENTRY(C37_other) {
  bool b = sym<bool>("b");
  std::string s = text(b);
  sx_check(s.size() == 3 && s[1] == '0' + b, "a BOOL as 0 or 1");
  sx_check(text(nullptr) == "<(null)>", "NULL");
  sx_check(text(Operand()) == "<(null)>", "NULL");
  static const char *const NAMES[] = {"UNKNOWN", "INT32", "INT64", "BOOL", "FLOAT", "DOUBLE", "DECIMAL", "STRING"};
  Byte t = sx_i8("type");
  std::string name = TypeName(t);
  uint32_t k = 0;
  for (uint32_t i = 1; i < 8; ++i) if (sx_split(t == i)) k = i;
  sx_check(name == NAMES[k], "the name of a type");
  observe("name", name);
  sx_reach("other");
}
// params: length
ENTRY(C37_string) {
  std::string v = symStringUpTo(sx_param(0), "s"), s = text(String(v));
  sx_check(s.size() == v.size() + 2, "a STRING is its bytes");
  sx_check(memcmp(s.data() + 1, v.data(), v.size()) == 0, "a STRING is its bytes");
  std::ostringstream o;
  o << String(v) << String(v);
  sx_check(o.str() == v + v, "a STRING is its bytes");
  observe("s", s);
  sx_reach("string");
}
ENTRY(C37_long) {
  std::string v(40000, 'x');
  sx_bytes(&v[39000], 2, "s");
  sx_check(text(String(v)) == "<" + v + ">", "a STRING is its bytes");
  sx_reach("long");
}
// Rows of all types in one stream.
ENTRY(C37_row) {
  Tuple t{Operand(sym<int32_t>("v") & 7), Operand(nullptr), Operand(String(std::string("a\0b", 3))), Operand(true), Operand((int64_t)-1), Operand(1.5f), Operand(-0.25)};
  std::ostringstream o;
  for (const Operand &v : t) o << v << ' ';
  std::string s = o.str();
  sx_check(s.substr(1) == std::string(" (null) a\0b 1 -1 1.5 -0.25 ", 27), "values one after another");
  sx_check(s[0] == '0' + t[0].GetValue<int32_t>(), "values one after another");
  sx_reach("row");
}
// Writing a value leaves the stream's format as it was, and is written in that format.
ENTRY(C37_format) {
  static const double V[] = {0.1, 1.0 / 3, 98765.4, -2.5, 123456, 0};
  uint32_t k = sx_choice(12, "value"), f = sx_choice(5, "format");
  Operand v = k < 6 ? Operand(V[k]) : k == 6 ? Operand(0.1f) : k == 7 ? Operand(true) : k == 8 ? Operand((int64_t)1 << 40) : k == 9 ? Operand(255) : k == 10 ? Operand(nullptr) : Operand(String(std::string("str")));
  std::ostringstream o, w;
  for (int i = 0; i < 2; ++i) {
    std::ostringstream *s = i ? &w : &o;
    if (f == 1) s->precision(12);
    if (f == 2) *s << std::fixed;
    if (f == 3) s->precision(17);
    if (f == 4) *s << std::showpos;
  }
  std::ios_base::fmtflags before = o.flags();
  std::streamsize precision = o.precision();
  o << v << ' ' << 7 << ' ' << 0.7 << ' ' << true;
  if (k < 6) w << V[k];
  else if (k == 6) w << 0.1f;
  else if (k == 7) w << true;
  else if (k == 8) w << ((int64_t)1 << 40);
  else if (k == 9) w << 255;
  else w << (k == 10 ? "(null)" : "str");
  w << ' ' << 7 << ' ' << 0.7 << ' ' << true;
  sx_check(o.str() == w.str(), "values are written in the format of the stream, which stays what it is");
  sx_check(o.flags() == before && o.precision() == precision && o.good(), "the stream's format is left alone");
  sx_reach("format");
}

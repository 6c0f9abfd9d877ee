// C16: casts between strings and integers or booleans.
#include "h.h"
#include "around.h"
// integer -> text -> integer; values v with |v| < lim when lim is given, or base + [0, span)
template <typename T, typename U> static void toText(T v) {
  const Byte ty = TypeId<T>::v;
  Operand r = apply1(ty, v, {0xF0, (S << 4) | ty});
  sx_check(r != nullptr, "a value");
  String str = r.GetValue<String>();
  const std::string &s = *str;
  observe("text", s);
  // shortest decimal form: optional minus, no leading zero, digits only, denoting v
  size_t i = 0, n = s.size();
  bool neg = sx_split(v < 0);
  if (neg) { sx_check(n > 0 && s[0] == '-', "a negative value starts with a minus sign"); i = 1; }
  sx_check(i < n, "at least one digit");
  sx_check(n - i == 1 || s[i] != '0', "no leading zero");
  uint64_t x = 0;
  sx_check(n - i <= 20, "no more digits than needed");
  for (; i < n; ++i) {
    unsigned d = (unsigned char)s[i] - (unsigned)'0';
    sx_check(d < 10, "decimal digits only");
    x = x * 10 + (uint64_t)d;
  }
  same((T)x, (T)(neg ? (U)0 - (U)v : (U)v), "the text denotes the value");
  sx_reach("text");
}


ENTRY(C16_text32) { toText<int32_t, uint32_t>(sym<int32_t>("v")); }
ENTRY(C16_text64) { toText<int64_t, uint64_t>(sym<int64_t>("v")); }
template <typename T> static void back(T v) {
  const Byte ty = TypeId<T>::v;
  Tuple t;
  t.push_back(v);
  Code c;
  c << varOp(ty) << 0 << 0xF0 << ((S << 4) | ty) << 0xF0 << ((ty << 4) | S);
  expectValue<T>(runOn(c, &t), v, "casting to STRING and back gives the same integer");
  sx_reach("back");
}
ENTRY(C16_back32) { back<int32_t>(sym<int32_t>("v")); }
ENTRY(C16_back64) { back<int64_t>(sym<int64_t>("v")); }
ENTRY(C16_bool) {
  bool v = sym<bool>("v");
  Operand r = apply1(B, v, {0xF0, (S << 4) | B});
  expectString(r, sx_split(v) ? "true" : "false", "BOOL to STRING");
  sx_reach("bool");
}
// text -> integer: an arbitrary string of up to maxLen bytes after a prefix chosen from a list
static const char *const PREFIX32[] = {"", "214748364", "-214748364", " +21474836", "000000000000", "4294967", "-000214748364", "0000000000000000000000000000000000000000000000000000000000000000000000", "                                        -"};
static const char *const PREFIX64[] = {"", "922337203685477580", "-922337203685477580", "\t+92233720368547758", "00000000000000000000000", "18446744073709551", "-00922337203685477580", "0000000000000000000000000000000000000000000000000000000000000000000000", "                                        -"};
template <typename T, typename U> static void fromText(const char *const *prefix) {
  const Byte ty = TypeId<T>::v;
  std::string s = prefix[sx_param(1)] + symString(sx_choice(sx_param(0) + 1, "len"), "s");
  Operand in = String(s);
  Tuple t;
  t.push_back(in);
  Byte op = sx_choice(2, "checked") ? 0xFC : 0xF0;
  Code c;
  c << varOp(S) << 0 << op << ((ty << 4) | S);
  Runner r;
  decode(r, c);
  r.BindTuple(&t);
  bool refused = false;
  try { r.Run(); } catch (const std::exception &) { refused = true; }
  sx_observe("refused", refused);
  // the specification
  size_t i = 0, n = s.size();
  while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) ++i;
  bool neg = false;
  if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  const uint64_t lim = (uint64_t)std::numeric_limits<T>::max() + (neg ? 1 : 0);
  uint64_t v = 0;
  bool over = false;
  for (; i < n && s[i] >= '0' && s[i] <= '9'; ++i) {
    unsigned d = (unsigned)(s[i] - '0');
    if (over || v > lim / 10 || (v == lim / 10 && d > lim % 10)) over = true;
    else v = v * 10 + d;
  }
  if (over) {
    sx_reach("refused");
    sx_check(refused, "a number that does not fit the type is an error");
    return;
  }
  sx_check(!refused, "a string whose number fits, or without a number, is accepted");
  expectValue<T>(r.Get(), (T)(neg ? (U)0 - (U)v : (U)v), "the longest run of digits after whitespace and sign, 0 without digits");
  sx_reach("value");
}
ENTRY(C16_parse32) { fromText<int32_t, uint32_t>(PREFIX32); }
ENTRY(C16_parse64) { fromText<int64_t, uint64_t>(PREFIX64); }
// Operators above other values.  params: operator group
AROUND(C16_around)

// C02: constants evaluate to exactly the encoded value.
#include "h.h"
static void varint(Code &c, uint32_t v) {
  while (v >= 0x80) { c << (int)(Byte)(v | 0x80); v >>= 7; }
  c << (int)v;
}
static void expect2(const Code &c, Byte ty, const Operand &want) {
  Code d = c;
  d << 0x11 << 0x05;  // the next operator
  Runner r;
  runOn(r, d, nullptr);
  Tuple *all = r.GetAll();
  sx_check(all->size() == 2, "the next operator starts right after the constant");
  sx_check((*all)[1].GetValue<int32_t>() == 5, "the next operator is decoded as such");
  observeOperand((*all)[0], ty);
  sameOperand((*all)[0], want, ty, "the encoded constant");
  delete all;
}
ENTRY(C02_f32) {
  uint32_t b = sx_i32("bits");
  Code c;
  c << 0x14 << (int)(Byte)(b >> 24) << (int)(Byte)(b >> 16) << (int)(Byte)(b >> 8) << (int)(Byte)b;
  float f;
  memcpy(&f, &b, 4);
  expect2(c, F, f);
  sx_reach("f32");
}
ENTRY(C02_f64) {
  uint64_t b = sx_i64("bits");
  Code c;
  c << 0x15;
  for (int i = 7; i >= 0; --i) c << (int)(Byte)(b >> (8 * i));
  double f;
  memcpy(&f, &b, 8);
  expect2(c, D, f);
  sx_reach("f64");
}
ENTRY(C02_bool) {
  bool v = sx_choice(2, "v");
  Code c;
  c << (v ? 0x13 : 0x23);
  expect2(c, B, v);
  sx_reach("bool");
}
ENTRY(C02_null) {
  Byte ty = TYPES[sx_choice(6, "type")];
  Code c;
  c << ty;
  expect2(c, ty, nullptr);
  sx_reach("null");
}
// params: maximal length, padding bytes of the length prefix
ENTRY(C02_str) {
  std::string s = symStringUpTo(sx_param(0), "s");
  Code c;
  c << 0x17;
  uint32_t pad = sx_choice(sx_param(1) + 1, "padding");
  if (!pad) varint(c, (uint32_t)s.size());
  else {
    c << (int)(s.size() | 0x80);
    for (uint32_t i = 1; i < pad; ++i) c << 0x80;
    c << 0;
  }
  for (char ch : s) c << (int)(Byte)ch;
  expect2(c, S, String(s));
  sx_reach("str");
}
// a length above 127 takes two bytes; the contents: arbitrary ends around a fixed middle
ENTRY(C02_long) {
  static const uint32_t len[] = {126, 127, 128, 129, 200, 300, 16383, 16384, 65535, 65536, 70000, 1048575, 1048576, 1500000};
  uint32_t n = len[sx_choice(14, "len")];
  std::string s(n, 'm');
  s[0] = (char)sx_i8("first");
  s[n / 2] = (char)sx_i8("middle");
  s[n - 1] = (char)sx_i8("last");
  Code h;
  h << 0x17;
  varint(h, n);
  Byte *b = new Byte[h.n + n + 1];
  memcpy(b, h.b, h.n);
  memcpy(b + h.n, s.data(), n);
  b[h.n + n] = 0x13;
  Runner r;
  sx_check(r.Decode(b, h.n + n + 1) == b + h.n + n + 1, "Decode consumes the whole program");
  delete[] b;
  r.Run();
  Tuple *all = r.GetAll();
  sx_check(all->size() == 2, "the next operator starts right after the constant");
  sx_check((*all)[1].GetValue<bool>(), "the next operator is decoded as such");
  const std::string &g = *(*all)[0].GetValue<String>();
  sx_check(g.size() == n, "the encoded length");
  sx_check(memcmp(g.data(), s.data(), n) == 0, "the encoded bytes");
  delete all;
  sx_reach("long");
}
// At any place of a program: after so many operators.
static const uint32_t PLACE[] = {1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 99, 127, 128, 255, 256, 1000};
static void prefixed(Runner &r, uint32_t n, const Code &c) {
  std::vector<Byte> b;
  for (uint32_t i = 0; i < n; ++i) b.push_back(i % 3 ? 0x13 : 0x01);
  b.insert(b.end(), c.b, c.b + c.n);
  Byte *p = new Byte[b.size()];
  memcpy(p, b.data(), b.size());
  sx_check(r.Decode(p, b.size()) == p + b.size(), "Decode consumes the whole program");
  delete[] p;
}
ENTRY(C02_place) {
  uint32_t n = PLACE[sx_choice(19, "place")], kind = sx_choice(4, "kind");
  Code c;
  Byte raw[8];
  uint32_t w = kind == 0 ? 4 : kind == 1 ? 8 : 3;
  sx_bytes(raw, w, "bytes");
  if (kind == 0) c << 0x14; else if (kind == 1) c << 0x15; else if (kind == 2) c << 0x17 << 3; else c << 0x23;
  if (kind != 3) for (uint32_t i = 0; i < w; ++i) { c << 0; c.b[c.n - 1] = raw[i]; }
  Runner r;
  prefixed(r, n, c);
  r.Run();
  Operand v = r.Get();
  const char *m = "the encoded value, wherever it is";
  if (kind == 0) {
    sx_check(hasType(v, F), m);
    sx_same(bits(v.GetValue<float>()), (uint32_t)raw[0] << 24 | (uint32_t)raw[1] << 16 | (uint32_t)raw[2] << 8 | raw[3], 0, m);
  } else if (kind == 1) {
    sx_check(hasType(v, D), m);
    uint64_t x = 0;
    for (int i = 0; i < 8; ++i) x = x << 8 | raw[i];
    sx_same(bits(v.GetValue<double>()), x, 0, m);
  } else if (kind == 2) {
    sx_check(hasType(v, S), m);
    const std::string &s = *v.GetValue<String>();
    sx_check(s.size() == 3 && memcmp(s.data(), raw, 3) == 0, m);
  } else expectValue<bool>(v, false, m);
  Tuple *all = r.GetAll();
  sx_check(all->size() == n + 1, "one value for each");
  delete all;
  sx_reach("place");
}

// C01: integers written as varints.
#include "h.h"
// Writes a varint of n bytes with arbitrary payload bits; returns the 64 bits it stands for.
static uint64_t symVarint(Code &c, uint32_t n) {
  Byte b[10];
  sx_bytes(b, n, "varint");
  uint64_t v = 0;
  for (uint32_t i = 0; i < n; ++i) {
    sx_assume(((b[i] >> 7) != 0) == (i + 1 < n));
    v |= (uint64_t)(b[i] & 0x7f) << (7 * i);
    c << b[i];
  }
  return v;
}
// params: shortest and longest encoding
static uint32_t lengths() { return sx_param(0) + sx_choice(sx_param(1) - sx_param(0) + 1, "length"); }

template <typename T> static void constant(Byte op, bool neg) {
  Code c;
  c << op;
  T v = (T)symVarint(c, lengths());
  c << 0x11 << 0x05;  // what follows is the next operator
  Runner r;
  runOn(r, c, nullptr);
  sx_check(r.Get().GetValue<int32_t>() == 5, "the next operator starts right after the varint");
  Tuple *all = r.GetAll();
  sx_check(all->size() == 2, "two values");
  T got = (*all)[0].GetValue<T>();
  observe("v", got);
  same(got, neg ? (T)(0 - (uint64_t)v) : v, "the encoded integer");
  delete all;
  sx_reach("constant");
}
ENTRY(C01_i32) { constant<int32_t>(0x11, false); }
ENTRY(C01_n32) { constant<int32_t>(0x21, true); }
ENTRY(C01_i64) { constant<int64_t>(0x12, false); }
ENTRY(C01_n64) { constant<int64_t>(0x22, true); }
// Every integer has the shortest form the encoding prescribes: v -> bytes -> v.
template <typename T, typename U> static void roundTrip(Byte op, int groups) {
  T v = sym<T>("v");
  Code c;
  c << op;
  U u = (U)v;
  for (int i = 0; i < groups; ++i) {
    if (sx_split(u < 0x80)) { c << (int)(Byte)u; u = 0; break; }
    c << (int)(Byte)(u | 0x80);
    u >>= 7;
  }
  Runner r;
  runOn(r, c, nullptr);
  T got = r.Get().GetValue<T>();
  observe("v", got);
  same(got, v, "the encoded integer");
  sx_reach("roundtrip");
}
ENTRY(C01_rt32) { roundTrip<int32_t, uint32_t>(0x11, 5); }
ENTRY(C01_rt64) { roundTrip<int64_t, uint64_t>(0x12, 10); }
// Index of a variable: row i holds the value i; any encoding of an index below 200
ENTRY(C01_var) {
  Code c;
  Byte ty = TYPES[sx_choice(2, "type")];
  c << varOp(ty);
  uint64_t v = symVarint(c, lengths());
  sx_assume((uint32_t)v < sx_param(2));
  Tuple t;
  for (uint32_t i = 0; i < sx_param(2); ++i) { if (ty == I) t.push_back((int32_t)i); else t.push_back((int64_t)i); }
  Operand o = runOn(c, &t);
  int64_t got = ty == I ? o.GetValue<int32_t>() : o.GetValue<int64_t>();
  observe("v", got);
  same(got, (int64_t)(uint32_t)v, "the encoded index");
  sx_reach("var");
}
// At any place of a program: after so many operators.
static const uint32_t PLACE[] = {1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 99, 127, 128, 255, 256, 1000};
static void prefixed(Runner &r, uint32_t n, const Code &c) {
  std::vector<Byte> b;
  for (uint32_t i = 0; i < n; ++i) b.push_back(i % 3 ? 0x13 : 0x01);
  b.insert(b.end(), c.b, c.b + c.n);
  Byte *p = new Byte[b.size()];
  memcpy(p, b.data(), b.size());
  sx_check(r.Decode(p, b.size()) == p + b.size(), "Decode consumes the whole program");
  delete[] p;
}
ENTRY(C01_place) {
  uint32_t n = PLACE[sx_choice(19, "place")], kind = sx_choice(4, "kind");
  bool wide = kind & 1, neg = kind & 2;
  Code c;
  c << (neg ? 0x20 : 0x10) + (wide ? 2 : 1);
  uint64_t v = 0;
  for (uint32_t i = 0; i < (wide ? 10u : 5u); ++i) {
    Byte b = sx_i8("byte");
    sx_assume((b & 0x80) == (i + 1 < (wide ? 10u : 5u) ? 0x80 : 0));
    v |= (uint64_t)(b & 0x7f) << (7 * i);
    c << 0;
    c.b[c.n - 1] = b;
  }
  Runner r;
  prefixed(r, n, c);
  r.Run();
  if (neg) v = 0 - v;
  if (wide) expectValue<int64_t>(r.Get(), (int64_t)v, "the encoded value, wherever it is");
  else expectValue<int32_t>(r.Get(), (int32_t)(uint32_t)v, "the encoded value, wherever it is");
  sx_reach("place");
}

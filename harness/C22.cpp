// C22: variables read the bound row.
#include "h.h"
static void put(Code &c, Byte ty, uint32_t i) {
  c << varOp(ty);
  while (i > 127) { c << (int)(0x80 | (i & 0x7f)); i >>= 7; }
  c << (int)i;
}
// params: row size, longest string: one variable of any type at any position of a row of any other values
ENTRY(C22_one) {
  uint32_t n = sx_param(0), i = sx_choice(n, "index");
  Byte ty = TYPES[sx_choice(6, "type")];
  Tuple t;
  for (uint32_t k = 0; k < n; ++k) t.push_back(k == i ? symOrNull(ty, sx_param(1), "v") : Operand((int32_t)(1000 + k)));
  Tuple before = t;
  Code c;
  put(c, ty, i);
  Runner r;
  runOn(r, c, &t);
  Operand v = r.Get();
  observeOperand(v, ty);
  sameOperand(v, before[i], ty, "the variable is the value of the row");
  sx_check(r.GetType() == ty, "of the declared type");
  sx_check(t.size() == n, "the row is unchanged");
  for (uint32_t k = 0; k < n; ++k) sameOperand(t[k], before[k], k == i ? ty : I, "the row is unchanged");
  sx_reach("one");
}
// all variables of a row, in any order
ENTRY(C22_all) {
  static const Byte ty[] = {I, S, D, B, L, F};
  uint32_t n = sx_param(0), at[6];
  Tuple t;
  for (uint32_t k = 0; k < n; ++k) t.push_back(symOrNull(ty[k], 1, "v"));
  Tuple before = t;
  Code c;
  for (uint32_t k = 0; k < n; ++k) { at[k] = sx_choice(n, "index"); put(c, ty[at[k]], at[k]); }
  Runner r;
  runOn(r, c, &t);
  Tuple *all = r.GetAll();
  sx_check(all->size() == n, "one value for each variable");
  for (uint32_t k = 0; k < n; ++k) { observeOperand((*all)[k], ty[at[k]]); sameOperand((*all)[k], before[at[k]], ty[at[k]], "each variable is the value at its index"); }
  delete all;
  for (uint32_t k = 0; k < n; ++k) sameOperand(t[k], before[k], ty[k], "the row is unchanged");
  sx_reach("all");
}
// a row so long that indices take more than one byte
ENTRY(C22_long) {
  uint32_t n = sx_param(0);
  static const uint32_t at[] = {0, 63, 64, 126, 127, 128, 129, 191, 192, 255, 256, 257, 16383, 16384, 32767, 32768, 65535, 65536, 69999};
  uint32_t i = at[sx_choice(19, "index")];
  sx_assume(i < n);
  Tuple t;
  t.reserve(n);
  for (uint32_t k = 0; k < n; ++k) t.push_back((int64_t)k);
  int64_t v = sym<int64_t>("v");
  t[i] = v;
  Code c;
  put(c, L, i);
  expectValue(runOn(c, &t), v, "the variable is the value of the row");
  sx_reach("long");
}
// the row bound last
ENTRY(C22_last) {
  uint32_t n = 1 + sx_choice(sx_param(0), "binds");
  Tuple t[4];
  Code c;
  put(c, L, 1);
  Runner r;
  bool first = sx_choice(2, "bind first");
  if (!first) decode(r, c);
  for (uint32_t i = 0; i < n; ++i) {
    t[i].push_back(nullptr);
    t[i].push_back(symOrNull(L, 0, "v"));
    r.BindTuple(&t[i]);
  }
  if (first) decode(r, c);
  bool run = sx_choice(2, "run");
  r.Run();
  if (run) { r.BindTuple(&t[0]); r.Run(); n = 1; }
  observeOperand(r.Get(), L);
  sameOperand(r.Get(), t[n - 1][1], L, "the row bound last counts");
  sx_reach("last");
}
// no row
ENTRY(C22_none) {
  Byte ty = TYPES[sx_choice(6, "type")];
  uint32_t i = sx_choice(3, "index"), how = sx_choice(3, "how");
  Tuple t;
  for (int k = 0; k < 3; ++k) t.push_back(symOperand(ty, 1, "v"));
  Code c;
  put(c, ty, i);
  Runner r, other;
  if (how == 1) r.BindTuple(nullptr);
  if (how == 2) { r.BindTuple(&t); r.BindTuple(nullptr); }
  other.BindTuple(&t);
  decode(r, c);
  bool threw = false;
  try { r.Run(); } catch (const std::exception &) { threw = true; }
  sx_observe("threw", threw);
  sx_check(threw, "a variable without a row is an error");
  r.BindTuple(&t);
  r.Run();
  sameOperand(r.Get(), t[i], ty, "and works once a row is bound");
  sx_reach("none");
}
// At any place of a program: after so many operators.
static const uint32_t PLACE[] = {1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 99, 127, 128, 255, 256, 1000};
static void prefixed(Runner &r, uint32_t n, const Code &c) {
  std::vector<Byte> b;
  for (uint32_t i = 0; i < n; ++i) b.push_back(i % 3 ? 0x13 : 0x01);
  b.insert(b.end(), c.b, c.b + c.n);
  Byte *p = new Byte[b.size()];
  memcpy(p, b.data(), b.size());
  sx_check(r.Decode(p, b.size()) == p + b.size(), "Decode consumes the whole program");
  delete[] p;
}
ENTRY(C22_place) {
  uint32_t n = PLACE[sx_choice(19, "place")], k = sx_choice(6, "type"), at = sx_choice(3, "index") * 70;
  Tuple t;
  for (uint32_t i = 0; i <= 140; ++i) t.push_back(i == at ? symOperand(TYPES[k], 2, "v") : Operand((int32_t)i));
  Code c;
  c << varOp(TYPES[k]);
  if (at > 127) c << 0x80 + at % 128 << 1; else c << at;
  Runner r;
  prefixed(r, n, c);
  r.BindTuple(&t);
  r.Run();
  observeOperand(r.Get(), TYPES[k]);
  sameOperand(r.Get(), t[at], TYPES[k], "the value of the bound row, wherever it is read");
  sx_reach("place");
}

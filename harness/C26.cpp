// C26: ungrouped aggregation folds over all rows.
#include "rel.h"
static void expectRow(const RelRunner &r, const AggSpec *a, const Operand *want, size_t n, bool rows) {
  const Tuple *out = r.Get();
  sx_check((out != nullptr) == rows, "one row exactly when there were rows");
  if (rows) {
    sx_check(out->size() == n, "one value for each aggregate");
    for (size_t i = 0; i < n; ++i) {
      observeAgg((*out)[i], aggType(a[i]));
      sameAgg((*out)[i], want[i], aggType(a[i]), "the value of each aggregate");
    }
    delete out;
  }
  sx_check(r.Get() == nullptr, "exactly one row");
  sx_check(r.Get() == nullptr, "exactly one row");
}
static Bytes program(const AggSpec *a, size_t n, bool eoe = true) {
  Bytes c;
  c << 0x74;
  varint(c, n);
  for (size_t i = 0; i < n; ++i) encode(c, a[i]);
  if (eoe) c << 0;
  return c;
}
static void put(const RelRunner &r, const Tuple &t) { sx_check(r.Put(new Tuple(t)) == nullptr, "putting a row emits nothing"); }
// One aggregate, any number of rows up to a bound, twice.  params: aggregate, rows, string length
ENTRY(C26_one) {
  AggSpec all[32];
  size_t n = allAggs(all);
  AggSpec a = all[sx_param(0)];
  sx_assume(sx_param(0) < n);
  Byte ty = a.kind == COUNT_ALL ? I : a.type;
  a.col = a.kind == COUNT_ALL ? 0 : 1;
  RelRunner r;
  decode(r, program(&a, 1, sx_choice(2, "eoe")));
  for (int round = 0; round < 2; ++round) {
    uint32_t rows = sx_choice((round ? 1 : sx_param(1)) + 1, "rows");
    Operand acc;
    for (uint32_t i = 0; i < rows; ++i) {
      Tuple t{Operand(7), symOrNull(ty, sx_param(2), "v")};
      noNaN(t[1], ty);
      acc = fold(a, acc, t);
      put(r, t);
    }
    expectRow(r, &a, &acc, 1, rows > 0);
  }
  sx_reach("one");
}
// The order of the rows does not matter.  params: aggregate, rows (2 or 3), string length
ENTRY(C26_order) {
  AggSpec all[32];
  allAggs(all);
  AggSpec a = all[sx_param(0)];
  uint32_t n = sx_param(1);
  Byte ty = a.kind == COUNT_ALL ? I : a.type;
  static const Byte PERM[6][3] = {{1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}, {0, 1, 2}};
  const Byte *p = PERM[n == 2 ? 0 : sx_choice(5, "order")];
  RelRunner r, q;
  decode(r, program(&a, 1));
  decode(q, program(&a, 1));
  Tuple t[3];
  for (uint32_t i = 0; i < n; ++i) { t[i].push_back(symOrNull(ty, sx_param(2), "v")); noNaN(t[i][0], ty); }
  for (uint32_t i = 0; i < n; ++i) { put(r, t[i]); put(q, t[p[i]]); }
  const Tuple *x = r.Get(), *y = q.Get();
  sx_check(x && y && x->size() == 1 && y->size() == 1, "one row");
  sameAgg((*x)[0], (*y)[0], aggType(a), "the order of the rows does not matter");
  delete x;
  delete y;
  sx_reach("order");
}
// Several aggregates at once over rows (INT32, STRING, DOUBLE, INT64).  params: aggregates, rows, NULLs
static const AggSpec MIX[] = {{COUNT_ALL, 0, 0}, {COUNT, S, 1}, {SUM, I, 0}, {MIN, I, 0}, {MAX, S, 1}, {SUM, D, 2}, {SUM, L, 3}, {MAX, L, 3}};
static const Byte COLS[] = {I, S, D, L};
static Tuple row(bool nulls) {
  Tuple t;
  for (int i = 0; i < 4; ++i) {
    t.push_back(i == 1 ? (nulls ? symOrNull(S, 1, "s") : Operand(String(symString(1, "s")))) : nulls && i < 3 ? symOrNull(COLS[i], 0, "v") : symOperand(COLS[i], 0, "v"));
    noNaN(t[i], COLS[i]);
  }
  return t;
}
ENTRY(C26_several) {
  uint32_t n = sx_param(0);
  AggSpec a[8];
  Operand acc[8];
  for (uint32_t i = 0; i < n; ++i) a[i] = MIX[sx_choice(8, "aggregate")];
  RelRunner r;
  decode(r, program(a, n));
  for (uint32_t k = 0; k < sx_param(1); ++k) {
    Tuple t = row(sx_param(2));
    for (uint32_t i = 0; i < n; ++i) acc[i] = fold(a[i], acc[i], t);
    put(r, t);
  }
  expectRow(r, a, acc, n, sx_param(1) > 0);
  sx_reach("several");
}
// Rounds: each starts from scratch.  params: rounds, rows of each
ENTRY(C26_rounds) {
  AggSpec a[3] = {MIX[0], MIX[2], MIX[4]};
  RelRunner r;
  decode(r, program(a, 3));
  for (uint32_t k = 0; k < sx_param(0); ++k) {
    Operand acc[3];
    uint32_t rows = sx_choice(sx_param(1) + 1, "rows");
    for (uint32_t j = 0; j < rows; ++j) {
      Tuple t = row(true);
      for (int i = 0; i < 3; ++i) acc[i] = fold(a[i], acc[i], t);
      put(r, t);
    }
    expectRow(r, a, acc, 3, rows > 0);
  }
  sx_reach("rounds");
}
// Many rows, many columns, many aggregates.  params: rows, columns
ENTRY(C26_many) {
  uint32_t rows = sx_param(0), cols = sx_param(1);
  std::vector<AggSpec> a;
  for (uint32_t i = 0; i < cols; ++i) a.push_back({i % 2 ? SUM : COUNT, I, (int32_t)(cols - 1 - i)});
  std::vector<Operand> acc(cols);
  RelRunner r;
  decode(r, program(a.data(), cols));
  for (uint32_t k = 0; k < rows; ++k) {
    Tuple t;
    for (uint32_t i = 0; i < cols; ++i) t.push_back((i + k) % 5 == 4 ? Operand(nullptr) : k % 16 == 3 && k < 400 ? symOperand(I, 0, "v") : Operand((int32_t)(k * 31 + i)));
    for (uint32_t i = 0; i < cols; ++i) acc[i] = fold(a[i], acc[i], t);
    put(r, t);
  }
  expectRow(r, a.data(), acc.data(), cols, rows > 0);
  sx_reach("many");
}
// Two runners at a time.
ENTRY(C26_two) {
  AggSpec a = MIX[2], b = MIX[3];
  RelRunner r, q;
  decode(r, program(&a, 1));
  decode(q, program(&b, 1));
  Operand x, y;
  for (int k = 0; k < 3; ++k) {
    Tuple t = row(false);
    if (sx_choice(2, "null")) t[0] = nullptr;
    if (sx_choice(2, "to")) { x = fold(a, x, t); put(r, t); sx_reach("first"); }
    else { y = fold(b, y, t); put(q, t); sx_reach("second"); }
  }
  const Tuple *u = r.Get(), *v = q.Get();
  if (u) { sameAgg((*u)[0], x, I, "each runner's own"); delete u; } else sx_check(x == nullptr, "each runner's own");
  if (v) { sameAgg((*v)[0], y, I, "each runner's own"); delete v; } else sx_check(y == nullptr, "each runner's own");
  sx_reach("two");
}
// MIN and MAX of long strings that agree up to some place.
ENTRY(C26_long) {
  static const uint32_t AT[] = {8, 15, 16, 31, 32, 64, 128, 255, 256, 4096, 70000};
  uint32_t at = AT[sx_choice(11, "at")];
  std::string a(at, 'm');
  for (uint32_t i = 0; i < at; ++i) a[i] = (char)(i * 11 + 3);
  std::string b = a;
  uint32_t x = sx_choice(3, "first"), y = sx_choice(3, "second");
  unsigned char p = x ? sx_i8("p") : 0, q = y ? sx_i8("q") : 0;
  if (x) a.push_back((char)p);
  if (y) b.push_back((char)q);
  if (x == 2) a += std::string(at, 'z');
  if (y == 2) b += std::string(at, 'z');
  bool less = !x ? y != 0 : y && (sx_split(p < q) || (sx_split(p == q) && x < y)), same = x == y && (!x || sx_split(p == q));
  AggSpec agg[2] = {{MIN, S, 0}, {MAX, S, 0}};
  RelRunner r;
  decode(r, program(agg, 2));
  put(r, Tuple{Operand(String(a))});
  put(r, Tuple{Operand(String(b))});
  const Tuple *o = r.Get();
  sx_check(o && o->size() == 2, "one value for each aggregate");
  const std::string &lo = *(*o)[0].GetValue<String>(), &hi = *(*o)[1].GetValue<String>(), &wl = less || same ? a : b, &wh = less || same ? b : a;
  sx_check(lo.size() == wl.size() && memcmp(lo.data(), wl.data(), lo.size()) == 0, "MIN of the strings");
  sx_check(hi.size() == wh.size() && memcmp(hi.data(), wh.data(), hi.size()) == 0, "MAX of the strings");
  delete o;
  sx_reach("long");
}

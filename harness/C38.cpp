// C38: a row that raises an error leaves no trace.
#include "rel.h"
// Relational codes over rows (INT64, INT32, STRING).  The error each may raise: $0 does not fit INT32 (checked cast).
static const Bytes CAST0 = {0x32, 0, 0xFC, 0x12};  // CAST_C $0 to INT32
static Bytes code(uint32_t w) {
  Bytes c;
  switch (w) {
  case 0: c << 0x71 << CAST0 << 0x31 << 1 << 0x93 << 1 << 0; break;                               // $0 > $1
  case 1: c << 0x72 << 0x31 << 1 << CAST0 << 0x37 << 2 << 0; break;                               // $1, $0, $2
  case 2: c << 0x72 << 0x31 << 1 << CAST0 << 0 << 0x74 << 3 << 0x10 << 0x21 << 0 << 0x31 << 1 << 0; break;
  case 3: c << 0x72 << 0x31 << 1 << CAST0 << 0 << 0x73 << 0x61 << 1 << 0 << 2 << 0x10 << 0x41 << 1 << 0; break;
  case 4: c << 0x71 << CAST0 << 0x31 << 1 << 0x96 << 1 << 0 << 0x74 << 2 << 0x10 << 0x22 << 0 << 0; break;
  case 5: c << 0x71 << 0x31 << 1 << 0x11 << 3 << 0x96 << 1 << 0 << 0x71 << CAST0 << 0x81 << 1 << 0x11 << 7 << 0x95 << 1 << 0 << 0x72 << 0x31 << 1 << 0x37 << 2 << 0; break;
  case 6: c << 0x71 << 0x31 << 1 << 0x11 << 3 << 0x96 << 1 << 0 << 0x72 << 0x37 << 2 << CAST0 << 0 << 0x73 << 0x61 << 1 << 0 << 1 << 0x21 << 1 << 0; break;
  case 8: c << 0x72 << 0x31 << 1 << 0x37 << 2 << 0xF0 << 0x17 << 0x37 << 2 << 0; break;             // $1, CAST $2 to INT32, $2
  case 9: c << 0x71 << 0x37 << 2 << 0xF0 << 0x27 << 0x12 << 7 << 0x93 << 2 << 0 << 0x74 << 2 << 0x10 << 0x21 << 1 << 0; break;  // CAST $2 to INT64 > 7: COUNT, SUM $1
  default: c << 0x72 << 0x31 << 1 << 0x32 << 0 << 0xB4 << 2 << 0xFC << 0x12 << 0; break;          // ABS_CHECK, then the cast
  }
  return c;
}
static const char *const TEXTS[] = {"12", "5 x", "99999999999999999999", "-9223372036854775809"};
static bool grouped(uint32_t w) { return w == 3 || w == 6; }
static bool sameOp(const Operand &a, const Operand &b) {
  if (a == nullptr || b == nullptr) return a == nullptr && b == nullptr;
  if (hasType(a, S)) {
    if (!hasType(b, S)) return false;
    const std::string &x = *a.GetValue<String>(), &y = *b.GetValue<String>();
    return x.size() == y.size() && memcmp(x.data(), y.data(), x.size()) == 0;
  }
  if (hasType(a, I)) return hasType(b, I) && sx_split(a.GetValue<int32_t>() == b.GetValue<int32_t>());
  if (hasType(a, L)) return hasType(b, L) && sx_split(a.GetValue<int64_t>() == b.GetValue<int64_t>());
  return false;
}
static bool sameRow(const Tuple &a, const Tuple &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!sameOp(a[i], b[i])) return false;
  return true;
}
typedef std::vector<Tuple> Out;
static void take(Out &o, const Tuple *t) { o.push_back(*t); delete t; }
static void compare(Out &got, Out &want, bool any, const char *m) {
  sx_check(got.size() == want.size(), m);
  for (size_t i = 0; i < want.size(); ++i) {
    size_t k = any ? 0 : i;
    while (any && k < got.size() && !sameRow(got[k], want[i])) ++k;
    sx_check(k < got.size() && (any || sameRow(got[k], want[i])), m);
    if (any) got.erase(got.begin() + k);
  }
}
static bool fits(uint32_t w, const Tuple &t) {
  if (t[0] == nullptr) return true;
  int64_t v = t[0].GetValue<int64_t>();
  if (w == 5 || w == 6) {  // only rows that pass the first filter reach the cast
    if (t[1] == nullptr || sx_split(t[1].GetValue<int32_t>() == 3)) return true;
  }
  if (w == 7) return sx_split((v >= -2147483647ll) & (v <= 2147483647ll));
  return sx_split((v >= -2147483648ll) & (v <= 2147483647ll));
}
// params: code, rows, NULLs
ENTRY(C38_rows) {
  uint32_t w = sx_param(0), n = sx_param(1);
  RelRunner r, fresh;
  decode(r, code(w));
  decode(fresh, code(w));
  Out got, want;
  uint32_t errors = 0;
  for (uint32_t i = 0; i < n; ++i) {
    Tuple t{sx_param(2) ? symOrNull(L, 0, "v") : symOperand(L, 0, "v"), w == 3 ? Operand((int32_t)sx_choice(2, "key")) : symOperand(I, 0, "k"), Operand(String(i % 2 ? "odd" : "even"))};
    bool ok = w < 8 && fits(w, t), threw = false;
    if (w >= 8) {
      uint32_t k = sx_choice(4, "text");
      t[2] = String(TEXTS[k]);
      ok = k < 2;
    }
    const Tuple *o = nullptr;
    try { o = r.Put(new Tuple(t)); } catch (const std::exception &) { threw = true; }
    sx_check(threw == !ok, "an error exactly where a value does not fit");
    errors += threw;
    if (o) take(got, o);
    if (ok) { const Tuple *f = fresh.Put(new Tuple(t)); if (f) take(want, f); }
  }
  compare(got, want, false, "rows after an error are treated as if it had not been");
  Out g, f;
  while (const Tuple *t = r.Get()) { sx_check(g.size() < 8, "ends"); take(g, t); }
  while (const Tuple *t = fresh.Get()) take(f, t);
  compare(g, f, grouped(w), "the rows that raised an error are not part of the result");
  sx_observe("errors", errors);
  sx_reach(errors ? "errors" : "none");
}
// An error while draining loses the row that raised it, and no other.  params: groups
ENTRY(C38_drain) {
  uint32_t n = sx_param(0), w = sx_choice(3, "what");
  Bytes c;
  c << 0x73 << 0x61 << 1 << 1 << 1 << 0x22 << 0 << 0;                                   // by $1: SUM $0
  if (w == 1) c << 0x71 << 0x32 << 1 << 0xFC << 0x12 << 0x11 << 5 << 0x96 << 1 << 0;    // the sum fits and is not 5
  else c << 0x72 << 0x31 << 0 << 0x32 << 1 << 0xFC << 0x12 << 0;                        // key, the sum
  if (w == 2) c << 0x74 << 2 << 0x10 << 0x21 << 1 << 0;
  RelRunner r;
  decode(r, c);
  std::vector<int64_t> v;
  std::vector<bool> ok, seen(n, false);
  uint32_t bad = 0, passed = 0;
  int32_t sum = 0;
  for (uint32_t i = 0; i < n; ++i) {
    v.push_back(sym<int64_t>("v"));
    ok.push_back(sx_split((v[i] >= -2147483648ll) & (v[i] <= 2147483647ll)));
    bad += !ok[i];
    if (ok[i]) sum = (int32_t)((uint32_t)sum + (uint32_t)v[i]);
    sx_check(r.Put(new Tuple{v[i], (int32_t)(i * 10)}) == nullptr, "nothing before the end");
  }
  uint32_t errors = 0;
  for (uint32_t turn = 0; turn <= 2 * n + 2; ++turn) {
    const Tuple *t = nullptr;
    try { t = r.Get(); } catch (const std::exception &) { ++errors; continue; }
    if (!t) break;
    sx_check(turn < 2 * n + 2, "ends");
    ++passed;
    if (w == 2) {
      sx_check(passed == 1 && t->size() == 2, "one row");
      sx_check((*t)[0].GetValue<int64_t>() == n - bad, "all rows but those that raised an error");
      same((*t)[1].GetValue<int32_t>(), sum, "all rows but those that raised an error");
    } else {
      uint32_t k = (uint32_t)(*t)[0].GetValue<int32_t>() / 10;
      sx_check(k < n && ok[k] && !seen[k], "each group that raises no error, once");
      seen[k] = true;
      if (w == 0) same((*t)[1].GetValue<int32_t>(), (int32_t)v[k], "with its value");
    }
    delete t;
  }
  sx_check(errors == bad, "one error for each row that raises one");
  if (w != 2) for (uint32_t k = 0; k < n; ++k) sx_check(seen[k] == (ok[k] && (w == 0 || sx_split(v[k] != 5))), "each group that raises no error, once");
  else sx_check(passed == (n > bad), "the rows that remain");
  sx_reach(bad ? "errors" : "none");
}
// The same of a single expression evaluated on one row after another.  params: rows
ENTRY(C38_eval) {
  static const Bytes E[] = {
      {0x31, 1, 0x32, 0, 0xFC, 0x12, 0x83, 1},              // $1 + CAST_C $0
      {0x33, 2, 0x32, 0, 0xFC, 0x12, 0x11, 3, 0x95, 1, 0x52},  // $2 AND CAST_C $0 < 3: evaluated in full
      {0x32, 0, 0xB4, 2},                                   // ABS_CHECK $0
      {0x31, 1, 0x31, 1, 0x32, 0, 0xFC, 0x12},              // more than one result
      {0x37, 3, 0xF0, 0x17, 0x31, 1, 0x84, 1},              // text to integer, out of range
  };
  uint32_t w = sx_choice(5, "program"), n = sx_param(0);
  Runner r;
  Byte *b = new Byte[E[w].size()];
  memcpy(b, E[w].data(), E[w].size());
  r.Decode(b, E[w].size());
  delete[] b;
  Tuple rows[4];
  for (uint32_t i = 0; i < n; ++i) {
    bool far = w == 4 && sx_choice(2, "far");
    rows[i] = Tuple{symOperand(L, 0, "l"), symOperand(I, 0, "i"), symOperand(B, 0, "b"), Operand(String(far ? "99999999999" : "12"))};
    int64_t l = rows[i][0].GetValue<int64_t>();
    int32_t x = rows[i][1].GetValue<int32_t>();
    bool ok = w == 4 ? !far : w == 2 ? sx_split(l >= -9223372036854775807ll) : sx_split((l >= -2147483648ll) & (l <= 2147483647ll)), threw = false;
    r.BindTuple(&rows[i]);
    try { r.Run(); } catch (const std::exception &) { threw = true; }
    sx_check(threw == !ok, "an error exactly where a value does not fit");
    if (threw) { sx_reach("errors"); continue; }
    Tuple *all = r.GetAll();
    sx_check(all->size() == (w == 3 ? 3 : 1), "the values of this row, none left from an error");
    const Operand &v = all->back();
    switch (w) {
    case 0: expectValue<int32_t>(v, (int32_t)((uint32_t)x + (uint32_t)(int32_t)l), "as if the error had not been"); break;
    case 1: expectValue<bool>(v, rows[i][2].GetValue<bool>() & (l < 3), "as if the error had not been"); break;
    case 2: expectValue<int64_t>(v, l < 0 ? -l : l, "as if the error had not been"); break;
    case 3:
      expectValue<int32_t>((*all)[0], x, "as if the error had not been");
      expectValue<int32_t>((*all)[1], x, "as if the error had not been");
      expectValue<int32_t>(v, (int32_t)l, "as if the error had not been");
      break;
    default: expectValue<int32_t>(v, (int32_t)(12u - (uint32_t)x), "as if the error had not been");
    }
    delete all;
  }
  sx_reach("values");
}

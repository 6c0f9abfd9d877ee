// C24: a filter passes exactly the rows whose predicate is TRUE.
#include "rel.h"
// Predicates over rows (BOOL, INT32, INT32, STRING, DOUBLE) and what they mean: 0 FALSE, 1 TRUE, 2 NULL, 3 an error
static const Bytes PRED[] = {
    {0x33, 0},
    {0x31, 1, 0x31, 2, 0x95, 1},
    {0x37, 3, 0x17, 2, 'a', 'b', 0x91, 7},
    {0x13},
    {0x23},
    {0x03},
    {0x33, 0, 0x51},
    {0x33, 0, 0x31, 1, 0x31, 2, 0x95, 1, 0x52},
    {0x33, 0, 0x31, 1, 0xA1, 1, 0x53},
    {0x33, 0, 0xA2, 3},
    {0x35, 4, 0x15, 0x3F, 0xE0, 0, 0, 0, 0, 0, 0, 0x93, 5},
    {0x31, 1, 0xB4, 1, 0x11, 5, 0x93, 1},
    {0x31, 1, 0xF0, 0x31},
    {0x01}, {0x02}, {0x04}, {0x05}, {0x07},
};
static const uint32_t NP = sizeof PRED / sizeof PRED[0];
static int tri(const Operand &v) { return v == nullptr ? 2 : sx_split(v.GetValue<bool>()); }
static int less(const Operand &a, const Operand &b) {
  if (a == nullptr || b == nullptr) return 2;
  return sx_split(a.GetValue<int32_t>() < b.GetValue<int32_t>());
}
static int meaning(uint32_t p, const Tuple &t) {
  int b = tri(t[0]);
  bool n1 = t[1] == nullptr;
  int32_t v = n1 ? 0 : t[1].GetValue<int32_t>();
  switch (p) {
  case 0: return b;
  case 1: return less(t[1], t[2]);
  case 2: {
    if (t[3] == nullptr) return 2;
    String s = t[3].GetValue<String>();
    return s->size() == 2 && sx_split((*s)[0] == 'a' && (*s)[1] == 'b');
  }
  case 3: return 1;
  case 4: return 0;
  case 5: case 13: case 14: case 15: case 16: case 17: return 2;
  case 6: return b == 2 ? 2 : !b;
  case 7: { int l = less(t[1], t[2]); return b == 0 || l == 0 ? 0 : b == 2 || l == 2 ? 2 : 1; }
  case 8: return n1 ? 1 : b == 1 ? 1 : b;
  case 9: return b == 1;
  case 10: return t[4] == nullptr ? 2 : sx_split(t[4].GetValue<double>() > 0.5);
  case 11: return n1 ? 2 : sx_split(v == INT32_MIN) ? 3 : sx_split(v > 5 || v < -5);
  default: return n1 ? 2 : sx_split(v != 0);
  }
}
static const Byte COLS[] = {B, I, I, S, D};
static Tuple row(uint32_t nulls) {
  Tuple t;
  for (uint32_t i = 0; i < 5; ++i)
    if (i == 3 && nulls != 3) t.push_back(String(symString(2, "s")));
    else t.push_back(nulls == i || (nulls == 5 && i < 3) ? symOrNull(COLS[i], 2, "c") : symOperand(COLS[i], 2, "c"));
  return t;
}
static void judge(const RelRunner &r, const Tuple &want, int pass) {
  const Tuple *out = nullptr;
  bool threw = false;
  try {
    out = r.Put(new Tuple(want));
  } catch (const std::exception &) {
    threw = true;
  }
  sx_observe("passed", out != nullptr);
  sx_check(threw == (pass == 3), "an error exactly when the predicate raises one");
  if (threw) { sx_reach("error"); return; }
  sx_check((out != nullptr) == (pass == 1), "a row passes exactly when the predicate is TRUE");
  if (!out) { sx_reach("dropped"); return; }
  sx_check(out->size() == want.size(), "the row is unchanged");
  for (size_t i = 0; i < want.size(); ++i) sameOperand((*out)[i], want[i], COLS[i], "the row is unchanged");
  delete out;
  sx_reach("passed");
}
// params: rows, NULLs in column n (5: in the first three, 6: in none)
ENTRY(C24_rows) {
  uint32_t p = sx_choice(NP, "predicate");
  Bytes c;
  c << 0x71 << PRED[p] << 0;
  RelRunner r;
  decode(r, c);
  for (uint32_t i = 0; i < sx_param(0); ++i) {
    Tuple want = row(sx_param(1));
    judge(r, want, meaning(p, want));
  }
  sx_check(r.Get() == nullptr, "nothing is kept back");
  sx_reach("rows");
}
// Every documented operator with a BOOL result as the predicate; what it means is what the expression runner says.
// params: operator group, string length
ENTRY(C24_ops) {
  Op ops[MAX_OPS];
  size_t n = opGroup(sx_param(0), ops), k = 0;
  for (size_t i = 0; i < n; ++i) if (ops[i].res == B) ops[k++] = ops[i];
  const Op &o = ops[sx_choice(k, "op")];
  Bytes e, c;
  Tuple t;
  for (int i = 0; i < o.arity; ++i) { t.push_back(symOrNull(o.arg[i], sx_param(1), "a")); e << varOp(o.arg[i]) << i; }
  for (int i = 0; i < o.len; ++i) e << o.code[i];
  c << 0x71 << e << 0;
  RelRunner r;
  decode(r, c);
  int want = tri(evalOn(e, t));
  const Tuple *out = r.Put(new Tuple(t));
  sx_observe("passed", out != nullptr);
  sx_check((out != nullptr) == (want == 1), "a row passes exactly when the predicate is TRUE");
  if (out) {
    sx_check(out->size() == t.size(), "the row is unchanged");
    for (size_t i = 0; i < t.size(); ++i) sameOperand((*out)[i], t[i], o.arg[i], "the row is unchanged");
  }
  delete out;
  sx_reach("ops");
}
// Rows of any width pass unchanged.  params: widest
ENTRY(C24_width) {
  uint32_t n = sx_choice(sx_param(0) + 1, "width");
  RelRunner r;
  Bytes c;
  bool keep = sx_choice(2, "keep");
  c << 0x71 << (keep ? 0x13 : 0x23) << 0;
  decode(r, c);
  Tuple t;
  for (uint32_t i = 0; i < n; ++i) t.push_back(i % 5 == 4 ? Operand(nullptr) : symOperand(I, 0, "c"));
  for (int k = 0; k < 2; ++k) {
    const Tuple *out = r.Put(new Tuple(t));
    sx_check((out != nullptr) == keep, "a row passes exactly when the predicate is TRUE");
    if (!out) continue;
    sx_check(out->size() == n, "the row is unchanged");
    for (uint32_t i = 0; i < n; ++i) sameOperand((*out)[i], t[i], I, "the row is unchanged");
    delete out;
  }
  sx_reach("width");
}
// A long run of rows.  params: rows, 0: some pass, 1: none but the last may, 2: all but the last do
ENTRY(C24_many) {
  RelRunner r;
  Bytes c;
  c << 0x71 << PRED[0] << 0;
  decode(r, c);
  for (uint32_t i = 0; i < sx_param(0); ++i) {
    Tuple t;
    bool null = i % 7 == 3 && sx_param(1) != 2, want = sx_param(1) ? sx_param(1) == 2 : !null && i % 3 == 0;
    if (i + 1 == sx_param(0)) { null = false; want = sx_split(sym<bool>("last")); }
    t.push_back(null ? Operand(nullptr) : Operand(want));
    t.push_back(symOperand(I, 0, "v"));
    const Tuple *out = r.Put(new Tuple(t));
    sx_check((out != nullptr) == want, "a row passes exactly when the predicate is TRUE");
    if (out) sameOperand((*out)[1], t[1], I, "the row is unchanged");
    delete out;
  }
  sx_check(r.Get() == nullptr, "nothing is kept back");
  sx_reach("many");
}

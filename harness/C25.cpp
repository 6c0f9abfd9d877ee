// C25: a projection emits one row of all its expressions.
#include "rel.h"
// Expressions over rows (INT32, INT32, STRING, BOOL, DOUBLE)
struct Ex { Bytes code; Byte type; };
static const Ex EX[] = {
    {{0x31, 0}, I},
    {{0x31, 1}, I},
    {{0x31, 0, 0x31, 1, 0x84, 1}, I},
    {{0x37, 2}, S},
    {{0x37, 2, 0x17, 1, 'z', 0xF1, 0x21}, S},
    {{0x01}, I},
    {{0x11, 7}, I},
    {{0x33, 3, 0x31, 0, 0xA1, 1, 0x52}, B},
    {{0x35, 4}, D},
    {{0x32, 0, 0xA1, 2}, B},
    {{0x31, 1, 0xF0, 0x21}, L},
    {{0x17, 0}, S},
};
static const uint32_t NE = sizeof EX / sizeof EX[0];
static Tuple row(bool nulls) {
  Tuple t;
  t.push_back(nulls ? symOrNull(I, 0, "a") : symOperand(I, 0, "a"));
  t.push_back(nulls ? symOrNull(I, 0, "b") : symOperand(I, 0, "b"));
  t.push_back(nulls ? symOrNull(S, 2, "s") : Operand(String(symString(2, "s"))));
  t.push_back(symOperand(B, 0, "c"));
  t.push_back(symOperand(D, 0, "d"));
  return t;
}
// params: most expressions, rows, NULLs
ENTRY(C25_rows) {
  uint32_t n = sx_choice(sx_param(0) + 1, "expressions");
  const Ex *e[8];
  Bytes c;
  c << 0x72;
  for (uint32_t i = 0; i < n; ++i) { e[i] = &EX[sx_choice(NE, "expression")]; c << e[i]->code; }
  c << 0;
  RelRunner r;
  decode(r, c);
  for (uint32_t k = 0; k < sx_param(1); ++k) {
    Tuple t = row(sx_param(2)), before = t;
    const Tuple *out = r.Put(new Tuple(t));
    sx_check(out != nullptr, "one row for each row");
    sx_check(out->size() == n, "one value for each expression");
    for (uint32_t i = 0; i < n; ++i) {
      observeOperand((*out)[i], e[i]->type);
      sameOperand((*out)[i], evalOn(e[i]->code, t), e[i]->type, "the value of each expression, in order");
    }
    delete out;
    sx_check(t[2] == nullptr || before[2] == nullptr || *t[2].GetValue<String>() == *before[2].GetValue<String>(), "strings are left alone");
    sx_check(r.Get() == nullptr, "exactly one row");
  }
  sx_reach("rows");
}
// Every documented operator in a projection, between two columns.  params: group, string length
ENTRY(C25_ops) {
  Op ops[MAX_OPS];
  size_t n = opGroup(sx_param(0), ops);
  const Op &o = ops[sx_choice(n, "op")];
  Bytes e, c;
  Tuple t;
  for (int i = 0; i < o.arity; ++i) {
    bool text = o.res == S && (o.arg[i] == F || o.arg[i] == D);  // formatting arbitrary numbers is C33's subject
    Operand a = !text ? symOrNull(o.arg[i], sx_param(1), "a") : sx_choice(2, "null") ? Operand(nullptr) : o.arg[i] == F ? Operand(-2.5f) : Operand(1234.0625);
    noNaN(a, o.arg[i]);
    t.push_back(a);
    e << varOp(o.arg[i]) << i;
  }
  for (int i = 0; i < o.len; ++i) e << o.code[i];
  c << 0x72 << varOp(o.arg[0]) << 0 << e << 0x11 << 9 << 0;
  Operand want;
  bool threw = false;
  try { want = evalOn(e, t); } catch (const std::exception &) { threw = true; }
  RelRunner r;
  decode(r, c);
  const Tuple *out = nullptr;
  try { out = r.Put(new Tuple(t)); } catch (const std::exception &) { sx_check(threw, "an error only when an expression raises one"); sx_reach("ops"); return; }
  sx_check(!threw, "an error when an expression raises one");
  sx_check(out != nullptr && out->size() == 3, "one row, one value for each expression");
  sameOperand((*out)[0], t[0], o.arg[0], "the first expression");
  if ((o.res == F || o.res == D) && want != nullptr) sameAgg((*out)[1], want, o.res, "the second expression");
  else sameOperand((*out)[1], want, o.res, "the second expression");
  sx_check((*out)[2] == Operand(9), "the third expression");
  delete out;
  sx_reach("ops");
}
// An error on one row says nothing about the next.
ENTRY(C25_error) {
  RelRunner r;
  Bytes c;
  c << 0x72 << 0x31 << 1 << 0x31 << 0 << 0xB4 << 1 << 0x31 << 1 << 0;
  decode(r, c);
  for (int k = 0; k < 3; ++k) {
    Tuple t{symOperand(I, 0, "a"), symOperand(I, 0, "b")};
    int32_t a = t[0].GetValue<int32_t>();
    bool bad = sx_split(a == INT32_MIN), threw = false;
    const Tuple *out = nullptr;
    try { out = r.Put(new Tuple(t)); } catch (const std::exception &) { threw = true; }
    sx_observe("threw", threw);
    sx_check(threw == bad, "an error exactly when an expression raises one");
    if (threw) { sx_reach("error"); continue; }
    sx_check(out != nullptr && out->size() == 3, "one row of all expressions");
    sameOperand((*out)[0], t[1], I, "the first");
    sameOperand((*out)[1], Operand((int32_t)(a < 0 ? 0u - (uint32_t)a : (uint32_t)a)), I, "the second");
    sameOperand((*out)[2], t[1], I, "the third");
    delete out;
  }
  sx_reach("after");
}
// Many expressions, in reverse.  params: columns
ENTRY(C25_wide) {
  uint32_t n = sx_param(0);
  RelRunner r;
  Bytes c;
  c << 0x72;
  Tuple t;
  for (uint32_t i = 0; i < n; ++i) { c << 0x31; varint(c, n - 1 - i); t.push_back(i % 9 == 5 ? Operand(nullptr) : symOperand(I, 0, "c")); }
  c << 0;
  decode(r, c);
  for (int k = 0; k < 2; ++k) {
    const Tuple *out = r.Put(new Tuple(t));
    sx_check(out != nullptr && out->size() == n, "one value for each expression");
    for (uint32_t i = 0; i < n; ++i) sameOperand((*out)[i], t[n - 1 - i], I, "in order");
    delete out;
  }
  sx_reach("wide");
}
// Many expressions over a narrow row.  params: expressions, columns
ENTRY(C25_narrow) {
  uint32_t n = sx_param(0), w = sx_param(1);
  bool nulls = sx_choice(2, "nulls");
  RelRunner r;
  Bytes c;
  c << 0x72;
  Tuple t;
  for (uint32_t i = 0; i < w; ++i) t.push_back(symOperand(I, 0, "c"));
  for (uint32_t i = 0; i < n; ++i) {
    if (i % 11 == 7 || (nulls && i + 3 > n)) c << 0x01;
    else if (w && i % 3 != 1) c << 0x31 << (int)(i % w);
    else { c << 0x11; varint(c, i); }
  }
  c << 0;
  decode(r, c);
  for (int k = 0; k < 2; ++k) {
    const Tuple *out = r.Put(new Tuple(t));
    sx_check(out != nullptr && out->size() == n, "one value for each expression");
    for (uint32_t i = 0; i < n; ++i) sameOperand((*out)[i], i % 11 == 7 || (nulls && i + 3 > n) ? Operand(nullptr) : w && i % 3 != 1 ? t[i % w] : Operand((int32_t)i), I, "in order");
    delete out;
  }
  sx_reach("wide");
}
// Two projections of different widths in turn: neither sees the other.
ENTRY(C25_two) {
  static const uint32_t W[] = {0, 1, 2, 5, 9, 17, 40};
  uint32_t n[2] = {W[sx_choice(7, "one")], W[sx_choice(7, "other")]};
  RelRunner r[2];
  Tuple t[2];
  for (int k = 0; k < 2; ++k) {
    Bytes c;
    c << 0x72;
    for (int i = 0; i < 3; ++i) t[k].push_back(symOperand(I, 0, "c"));
    for (uint32_t i = 0; i < n[k]; ++i) c << 0x31 << (int)((i + k) % 3);
    c << 0;
    decode(r[k], c);
  }
  static const int TURN[] = {0, 1, 1, 0, 1};
  for (int k : TURN) {
    const Tuple *out = r[k].Put(new Tuple(t[k]));
    sx_check(out != nullptr && out->size() == n[k], "one value for each expression");
    for (uint32_t i = 0; i < n[k]; ++i) sameOperand((*out)[i], t[k][(i + k) % 3], I, "in order");
    delete out;
  }
  sx_reach("two");
}

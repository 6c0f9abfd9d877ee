// C20: evaluation is compositional postfix evaluation.
#include "h.h"
#include "around.h"
// One step of a program: pops operands of the given types, pushes one of type res.
struct Step { Byte code[3]; Byte len, arity; Byte arg[3], res; };
static const Step STEPS[] = {
    {{0x31, 0}, 2, 0, {0, 0, 0}, TYPE_INT32},          // 0 $[0]
    {{0x31, 1}, 2, 0, {0, 0, 0}, TYPE_INT32},          // 1 $[1]
    {{0x33, 2}, 2, 0, {0, 0, 0}, TYPE_BOOL},           // 2 $[2]
    {{0x37, 3}, 2, 0, {0, 0, 0}, TYPE_STRING},         // 3 $[3]
    {{0x11, 0x03}, 2, 0, {0, 0, 0}, TYPE_INT32},       // 4 constant 3
    {{0x84, 0x01}, 2, 2, {I, I, 0}, TYPE_INT32},       // 5 SUB
    {{0x82, 0x01}, 2, 1, {I, 0, 0}, TYPE_INT32},       // 6 NEG
    {{0x95, 0x01}, 2, 2, {I, I, 0}, TYPE_BOOL},        // 7 LT
    {{0x51}, 1, 1, {B, 0, 0}, TYPE_BOOL},              // 8 NOT
    {{0x52}, 1, 2, {B, B, 0}, TYPE_BOOL},              // 9 AND
    {{0xA1, 0x01}, 2, 1, {I, 0, 0}, TYPE_BOOL},        // 10 IS_NULL
    {{0xF0, 0x13}, 2, 1, {B, 0, 0}, TYPE_INT32},       // 11 INT32(BOOL)
    {{0xF0, 0x11}, 2, 1, {I, 0, 0}, TYPE_INT32},       // 12 INT32(INT32)
    {{0xF1, 0x21}, 2, 2, {S, S, 0}, TYPE_STRING},      // 13 CONCAT
    {{0xF1, 0x2C}, 2, 3, {S, I, I}, TYPE_STRING},      // 14 SUBSTR
    {{0x91, 0x07}, 2, 2, {S, S, 0}, TYPE_BOOL},        // 15 EQ of strings
    {{0x01}, 1, 0, {0, 0, 0}, TYPE_INT32},             // 16 NULL
    {{0x53}, 1, 2, {B, B, 0}, TYPE_BOOL},              // 17 OR
    {{0x03}, 1, 0, {0, 0, 0}, TYPE_BOOL},              // 18 NULL
    {{0x86, 0x01}, 2, 2, {I, I, 0}, TYPE_INT32},       // 19 DIV
};
static const uint32_t ALL = sizeof STEPS / sizeof STEPS[0];
// Which steps a run may use.  0: integers and booleans, 1: NULLs and connectives, 2: strings
static const Byte SETS[][11] = {{9, 0, 1, 2, 4, 5, 6, 7, 8, 11}, {9, 0, 2, 16, 18, 9, 17, 10, 19, 7}, {8, 3, 0, 4, 13, 14, 15, 12, 1}, {8, 0, 1, 5, 19, 7, 9, 10, 2}};
static Tuple rowOf(bool nulls, uint32_t maxLen) {
  Tuple t;
  t.push_back(nulls ? symOrNull(I, 0, "v0") : symOperand(I, 0, "v0"));
  t.push_back(symOperand(I, 0, "v1"));
  t.push_back(nulls ? symOrNull(B, 0, "v2") : symOperand(B, 0, "v2"));
  std::string s = symString(maxLen, "v3");
  t.push_back(String(s));
  return t;
}
// The operator alone, over variables that hold its operands.
static Operand alone(const Step &s, const Operand *a, const Tuple &row) {
  Code c;
  Tuple t;
  for (uint32_t i = 0; i < s.arity; ++i) { t.push_back(a[i]); c << varOp(s.arg[i]) << (int)i; }
  for (uint32_t i = 0; i < s.len; ++i) c << s.code[i];
  return runOn(c, s.arity ? &t : &row);
}
// params: steps, set, NULLs, string length: every well-typed program of that many steps leaves the values its operators give one by one
ENTRY(C20_programs) {
  uint32_t len = sx_param(0), set = sx_param(1);
  Tuple row = rowOf(sx_param(2), sx_param(3)), before = row;
  Operand st[8];
  Byte ty[8];
  int sp = 0;
  Code c;
  for (uint32_t i = 0; i < len; ++i) {
    const Step &s = STEPS[SETS[set][1 + sx_choice(SETS[set][0], "step")]];
    sx_assume(sp >= s.arity);
    for (int k = 0; k < s.arity; ++k) sx_assume(ty[sp - s.arity + k] == s.arg[k]);
    sp -= s.arity;
    Operand r = alone(s, st + sp, row);
    st[sp] = r;
    ty[sp++] = s.res;
    for (uint32_t k = 0; k < s.len; ++k) c << s.code[k];
  }
  Runner r;
  runOn(r, c, &row);
  Tuple *all = r.GetAll();
  sx_check((int)all->size() == sp, "as many values as the operators leave");
  for (int i = 0; i < sp; ++i) {
    observeOperand((*all)[i], ty[i]);
    sameOperand((*all)[i], st[i], ty[i], "the values, in the order they were pushed");
  }
  sameOperand(r.Get(), st[sp - 1], ty[sp - 1], "the result is the value pushed last");
  sx_check(r.GetType() == ty[sp - 1], "the type is that of the last operator");
  delete all;
  sx_reach("programs");
}
AROUND(C20_around)
// Two operators in a row: B on the value of A gives what B gives on a variable that holds the value of A alone.
// params: group of A, n: integer operands are -n to n-1 (a power of two), or -11, 0, 11 if n is 0
static Operand pairOperand(Byte type, bool null, bool wide) {
  if (null) return nullptr;
  switch (type) {
  case TYPE_FLOAT: return Operand(sx_choice(2, "float") ? 1.5f : -0.0f);
  case TYPE_DOUBLE: return Operand(sx_choice(2, "double") ? sx_param(1) ? 0.25 : 1e9 + 0.1 : -0.0);
  case TYPE_STRING: return Operand(String(std::string(sx_choice(2, "string") ? "1" : " Ab")));
  case TYPE_BOOL: return symOperand(type, 0, "v");
  default: break;
  }
  if (wide) return symOperand(type, 0, "v");
  int32_t n = (int32_t)sx_param(1), k = n ? 0 : (int32_t)sx_choice(4, "int"), w = n ? (sym<int32_t>("v") & (2 * n - 1)) - n : k < 3 ? k * 11 - 11 : 0x1000001;
  if (type == TYPE_INT64) return Operand(k == 3 ? (int64_t)0x20000000000001 : (int64_t)w);
  return Operand(w);
}
ENTRY(C20_pairs) {
  Op o[MAX_OPS], q[MAX_OPS];
  size_t n = opGroup(sx_param(0), o), m = opGroup(sx_choice(OP_GROUPS, "group"), q);
  const Op &a = o[sx_choice((uint32_t)n, "first")];
  const Op &b = q[sx_choice((uint32_t)m, "second")];
  uint32_t at = sx_choice(b.arity, "position");
  sx_assume(b.arg[at] == a.res);
  uint32_t null = sx_choice(1 + a.arity + (b.arity > 1), "null");
  // casts of integers: all values
  bool wide = a.arity == 1 && b.arity == 1 && a.arg[0] <= B && a.res <= B && b.res <= B && !sx_param(1);
  Tuple t, u;
  Code c, d, e;
  int k = 0;
  for (uint32_t i = 0; i < b.arity; ++i) {
    e << varOp(b.arg[i]) << (int)i;
    if (i != at) {
      Operand v = pairOperand(b.arg[i], null == 1u + a.arity, wide);
      t.push_back(v);
      u.push_back(v);
      c << varOp(b.arg[i]) << k++;
      continue;
    }
    u.push_back(nullptr);
    for (uint32_t j = 0; j < a.arity; ++j) {
      t.push_back(pairOperand(a.arg[j], null == 1u + j, wide));
      c << varOp(a.arg[j]) << k;
      d << varOp(a.arg[j]) << k++;
    }
    for (int j = 0; j < a.len; ++j) { c << a.code[j]; d << a.code[j]; }
  }
  for (int j = 0; j < b.len; ++j) { c << b.code[j]; e << b.code[j]; }
  bool bad = false, bad2 = false;
  Runner r1, r2, r3;
  try {
    runOn(r1, d, &t);
    u[at] = r1.Get();
    runOn(r2, e, &u);
  } catch (const std::exception &) { bad = true; }
  try { runOn(r3, c, &t); } catch (const std::exception &) { bad2 = true; }
  sx_observe("error", bad);
  sx_check(bad == bad2, "an error exactly when one of the two operators raises one");
  if (bad) return;
  observeOperand(r2.Get(), b.res);
  sameOperand(r3.Get(), r2.Get(), b.res, "two operators in a row give what they give one by one");
  sx_reach("pairs");
}
// too few operands, for every operator
ENTRY(C20_few) {
  Op o[MAX_OPS];
  size_t n = opGroup(sx_param(0), o);
  const Op &op = o[sx_choice((uint32_t)n, "op")];
  uint32_t have = sx_choice(op.arity, "have");
  static const Byte null[] = {0, 1, 2, 3, 4, 5, 0, 7};
  Code c;
  Tuple t;
  bool nulls = sx_choice(2, "null");
  for (uint32_t i = 0; i < have; ++i) {
    Byte ty = op.arg[op.arity - have + i];
    if (nulls) c << null[ty];
    else { t.push_back(ty == S ? Operand(String(std::string("a"))) : ty == F ? Operand(1.5f) : ty == D ? Operand(2.5) : symOperand(ty, 0, "v")); c << varOp(ty) << (int)i; }
  }
  for (int i = 0; i < op.len; ++i) c << op.code[i];
  Runner r;
  decode(r, c);
  r.BindTuple(&t);
  bool threw = false;
  try { r.Run(); } catch (const std::exception &) { threw = true; }
  sx_observe("threw", threw);
  sx_check(threw, "too few operands are an error");
  // and the runner is usable afterwards
  Code ok;
  ok << 0x11 << 5;
  runOn(r, ok, nullptr);
  expectValue<int32_t>(r.Get(), 5, "the runner works after the error");
  sx_reach("few");
}
// reading a result where there is none
ENTRY(C20_empty) {
  Runner r;
  Code c;
  if (sx_choice(2, "eoe")) c << 0;
  decode(r, c);
  r.Run();
  bool threw = false;
  try { (void)r.Get(); } catch (const std::exception &) { threw = true; }
  sx_check(threw, "an empty expression has no result");
  Tuple *t = r.GetAll();
  sx_check(t->empty(), "an empty expression leaves no values");
  delete t;
  sx_reach("empty");
}
// many values: param 0 of them
ENTRY(C20_many) {
  uint32_t n = sx_param(0);
  Byte *b = new Byte[3 * n];
  size_t k = 0;
  for (uint32_t i = 0; i < n; ++i) { b[k++] = 0x11; if (i >= 128) b[k++] = (Byte)(i & 0x7f) | 0x80, b[k++] = (Byte)(i >> 7); else b[k++] = (Byte)i; }
  Runner r;
  sx_check(r.Decode(b, k) == b + k, "all consumed");
  delete[] b;
  for (int again = 0; again < 2; ++again) {
    r.Run();
    Tuple *t = r.GetAll();
    sx_check(t->size() == n, "every value");
    for (uint32_t i = 0; i < n; ++i) same((*t)[i].GetValue<int32_t>(), (int32_t)i, "in order");
    delete t;
  }
  expectValue<int32_t>(r.Get(), (int32_t)n - 1, "the last one");
  sx_reach("many");
}
// a deep expression: v - (v - (v - ...)), param 0 deep
ENTRY(C20_deep) {
  uint32_t n = sx_param(0);
  Tuple t;
  int32_t v = sym<int32_t>("v"), w = sym<int32_t>("w");
  t.push_back(v);
  t.push_back(w);
  bool right = sx_choice(2, "right");
  Byte *b = new Byte[4 * n + 4];
  size_t k = 0;
  int32_t want;
  if (right) {
    for (uint32_t i = 0; i < n; ++i) { b[k++] = 0x31; b[k++] = 0; }
    b[k++] = 0x31; b[k++] = 1;
    for (uint32_t i = 0; i < n; ++i) { b[k++] = 0x84; b[k++] = 1; }
    uint32_t x = (uint32_t)w;
    for (uint32_t i = 0; i < n; ++i) x = (uint32_t)v - x;
    want = (int32_t)x;
  } else {
    b[k++] = 0x31; b[k++] = 0;
    for (uint32_t i = 0; i < n; ++i) { b[k++] = 0x31; b[k++] = 1; b[k++] = 0x84; b[k++] = 1; }
    uint32_t x = (uint32_t)v;
    for (uint32_t i = 0; i < n; ++i) x -= (uint32_t)w;
    want = (int32_t)x;
  }
  Runner r;
  r.Decode(b, k);
  delete[] b;
  r.BindTuple(&t);
  r.Run();
  expectValue(r.Get(), want, "a deep expression");
  sx_reach("deep");
}
// The last operator of a long program decides its type and, by itself, its result.
ENTRY(C20_last) {
  static const uint32_t N[] = {0, 1, 2, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 300, 1023, 1024, 4096};
  uint32_t n = N[sx_choice(18, "before")], k = sx_choice(6, "last");
  Byte *b = new Byte[2 * n + 8];
  size_t p = 0;
  for (uint32_t i = 0; i < n; ++i) { b[p++] = 0x11; b[p++] = (Byte)(i & 0x7f); }
  static const Byte LAST[6][6] = {{2, 0x12, 5}, {1, 0x13}, {5, 0x14, 0x3F, 0xC0, 0, 0}, {1, 0x05}, {3, 0x17, 1, 'q'}, {4, 0x11, 7, 0xF0, 0x21}};
  static const Byte TYPE[] = {TYPE_INT64, TYPE_BOOL, TYPE_FLOAT, TYPE_DOUBLE, TYPE_STRING, TYPE_INT64};
  const Operand want[] = {Operand((int64_t)5), Operand(true), Operand(1.5f), Operand(nullptr), Operand(String(std::string("q"))), Operand((int64_t)7)};
  for (int i = 1; i <= LAST[k][0]; ++i) b[p++] = LAST[k][i];
  Runner r;
  sx_check(r.Decode(b, p) == b + p, "all consumed");
  delete[] b;
  sx_check(r.GetType() == TYPE[k], "the type is that of the last operator");
  r.Run();
  sameOperand(r.Get(), want[k], TYPE[k], "the result is the value pushed last");
  sx_check(r.GetType() == TYPE[k], "the type is that of the last operator");
  sx_reach("last");
}
// Constants in place of variables.  Each operand of an operator is a constant or a variable of the same value.
// params: group
static const Byte VALS[][4][10] = {
    {},
    {{2, 0x11, 0}, {2, 0x11, 1}, {2, 0x21, 1}, {2, 0x11, 3}},
    {{2, 0x12, 0}, {2, 0x12, 1}, {2, 0x22, 1}, {2, 0x12, 3}},
    {{1, 0x23}, {1, 0x13}, {1, 0x23}, {1, 0x13}},
    {{5, 0x14, 0, 0, 0, 0}, {5, 0x14, 0x80, 0, 0, 0}, {5, 0x14, 0x3F, 0x80, 0, 0}, {5, 0x14, 0x7F, 0xC0, 0, 0}},
    {{9, 0x15, 0, 0, 0, 0, 0, 0, 0, 0}, {9, 0x15, 0x80, 0, 0, 0, 0, 0, 0, 0}, {9, 0x15, 0x3F, 0xF0, 0, 0, 0, 0, 0, 0}, {9, 0x15, 0x7F, 0xF8, 0, 0, 0, 0, 0, 0}},
    {},
    {{2, 0x17, 0}, {3, 0x17, 1, '1'}, {4, 0x17, 2, ' ', 'A'}, {3, 0x17, 1, 0}},
};
ENTRY(C20_const) {
  Op o[MAX_OPS];
  size_t n = opGroup(sx_param(0), o);
  const Op &op = o[sx_choice((uint32_t)n, "op")];
  uint32_t consts = 1 + sx_choice((1u << op.arity) - 1, "constants");
  Tuple t;
  Code c, d;
  for (int i = 0; i < op.arity; ++i) {
    Byte ty = op.arg[i];
    d << varOp(ty) << i;
    bool con = consts >> i & 1;
    uint32_t k = sx_choice(con || ty >= F ? 5 : 2, "value");
    if (con) {
      Code x;
      if (k == 0) x << ty;
      else for (int j = 1; j <= VALS[ty][k - 1][0]; ++j) x << VALS[ty][k - 1][j];
      for (size_t j = 0; j < x.n; ++j) c << x.b[j];
      t.push_back(runOn(x, nullptr));
      continue;
    }
    c << varOp(ty) << i;
    if (k == 0) t.push_back(nullptr);
    else if (ty == S) t.push_back(String(std::string(k == 1 ? "" : k == 2 ? "ab" : k == 3 ? "7" : " A ", k == 4 ? 3 : k == 2 ? 2 : k == 3 ? 1 : 0)));
    else if (ty == F) t.push_back(k == 1 ? -0.0f : k == 2 ? 0.0f : k == 3 ? 2.5f : __builtin_inff());
    else if (ty == D) t.push_back(k == 1 ? -0.0 : k == 2 ? 0.0 : k == 3 ? -2.5 : __builtin_inf());
    else t.push_back(symOperand(ty, 0, "v"));
  }
  for (int j = 0; j < op.len; ++j) { c << op.code[j]; d << op.code[j]; }
  Runner r, q;
  bool bad = false, bad2 = false;
  try { runOn(q, d, &t); } catch (const std::exception &) { bad = true; }
  try { runOn(r, c, &t); } catch (const std::exception &) { bad2 = true; }
  sx_observe("error", bad);
  sx_check(bad == bad2, "an error does not depend on whether operands are constants");
  if (bad) return;
  Operand v = r.Get(), w = q.Get();
  observeOperand(w, op.res);
  if (w == nullptr) sx_check(v == nullptr, "the value does not depend on whether operands are constants");
  else if (op.res == F) { sx_check(v != nullptr, "the value does not depend on whether operands are constants"); same(v.GetValue<float>(), w.GetValue<float>(), "the value does not depend on whether operands are constants"); }
  else if (op.res == D) { sx_check(v != nullptr, "the value does not depend on whether operands are constants"); same(v.GetValue<double>(), w.GetValue<double>(), "the value does not depend on whether operands are constants"); }
  else sameOperand(v, w, op.res, "the value does not depend on whether operands are constants");
  Tuple *all = r.GetAll();
  sx_check(all->size() == 1, "one value");
  delete all;
  sx_check(r.GetType() == q.GetType(), "nor does the type");
  sx_reach("const");
}

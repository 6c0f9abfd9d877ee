// C21: evaluation does not depend on earlier use.
#include "h.h"
// Programs over a row (INT32, INT32, STRING, DOUBLE), and what their results are.
struct Prog { Byte n; Byte b[16]; Byte res; };
static const Prog P[] = {
    {6, {0x31, 0, 0x31, 1, 0x84, 1}, TYPE_INT32},
    {6, {0x31, 0, 0x31, 1, 0x86, 1}, TYPE_INT32},
    {4, {0x37, 2, 0xF1, 0x23}, TYPE_STRING},
    {9, {0x37, 2, 0x17, 2, 'a', 'b', 0xF1, 0x21, 0x00}, TYPE_STRING},
    {6, {0x35, 3, 0x35, 3, 0x85, 5}, TYPE_DOUBLE},
    {4, {0x31, 0, 0xB4, 1}, TYPE_INT32},  // ABS_C: an error for the smallest integer
    {5, {0x31, 0, 0xA1, 1, 0x51}, TYPE_BOOL},
    {1, {0x01}, TYPE_INT32},
    {7, {0x11, 1, 0x31, 1, 0x31, 0, 0}, TYPE_INT32},  // leaves three values
    {9, {0x15, 0x40, 0, 0, 0, 0, 0, 0, 0}, TYPE_DOUBLE},
};
static const uint32_t NP = sizeof P / sizeof P[0];
static Tuple symRow(bool nulls) {
  Tuple t;
  t.push_back(nulls ? symOrNull(I, 0, "a") : symOperand(I, 0, "a"));
  t.push_back(symOperand(I, 0, "b"));
  t.push_back(String(symString(2, "s")));
  t.push_back(symOperand(D, 0, "d"));
  return t;
}
static void load(Runner &r, const Prog &p) {
  Byte *b = new Byte[p.n];
  memcpy(b, p.b, p.n);
  const Byte *e = r.Decode(b, p.n);
  sx_check(e == b + p.n, "decoded completely");
  delete[] b;
}
struct Out { bool threw; Operand v; Tuple all; };
static Out eval(const Runner &r) {
  Out o;
  o.threw = false;
  try {
    r.Run();
    o.v = r.Get();
    Tuple *t = r.GetAll();
    o.all = *t;
    delete t;
  } catch (const std::exception &) {
    o.threw = true;
  }
  return o;
}
static void compare(const Out &a, const Out &b, const Prog &p, const char *msg) {
  sx_observe("threw", a.threw);
  sx_check(a.threw == b.threw, msg);
  if (a.threw) return;
  observeOperand(a.v, p.res);
  sameOperand(a.v, b.v, p.res, msg);
  sx_check(a.all.size() == b.all.size(), msg);
  for (size_t i = 0; i < a.all.size(); ++i) sameOperand(a.all[i], b.all[i], i + 1 == a.all.size() ? p.res : I, msg);
}
// Something happens to a runner.  The row it may be bound to stays alive until the end.
static void disturb(Runner &r, Runner &other, const Tuple &row, uint32_t what) {
  static const Byte unknown[] = {0x31, 0, 0x11, 5, 0xEE, 1};
  static const Byte cut[] = {0x11, 0x05, 0x17, 9, 'x'};
  static const Byte few[] = {0x11, 5, 0x83, 1};
  static const Byte mixed[] = {0x31, 0, 0x31, 1, 0x83, 4};  // operands of the wrong type
  try {
    switch (what) {
    case 0: load(r, P[sx_choice(NP, "earlier")]); r.BindTuple(&row); r.Run(); (void)r.Get(); break;
    case 1: r.Decode(unknown, sizeof unknown); break;
    case 2: r.Decode(cut, sizeof cut); break;
    case 3: r.Decode(few, sizeof few); r.Run(); break;
    case 4: r.Decode(mixed, sizeof mixed); r.BindTuple(&row); r.Run(); break;
    case 5: load(other, P[sx_choice(NP, "other")]); other.BindTuple(&row); other.Run(); (void)other.Get(); break;
    case 6: load(r, P[0]); r.BindTuple(nullptr); r.Run(); break;
    case 7: load(r, P[8]); r.BindTuple(&row); r.Run(); r.Run(); break;  // leaves values behind
    }
  } catch (const std::exception &) {
    sx_reach("error");
  }
}
// params: earlier events, which of them 0: all, NULLs
ENTRY(C21_history) {
  const Prog &p = P[sx_choice(NP, "program")];
  Tuple old = symRow(false), row = symRow(sx_param(1));
  Runner r, other, fresh;
  for (uint32_t i = 0; i < sx_param(0); ++i) disturb(r, other, old, sx_choice(8, "event"));
  load(r, p);
  r.BindTuple(&row);
  Out a = eval(r);
  load(fresh, p);
  fresh.BindTuple(&row);
  Out b = eval(fresh);
  compare(a, b, p, "the same as in a fresh runner");
  Out c = eval(r);
  compare(c, a, p, "repeating an evaluation repeats its result");
  sx_reach("history");
}
// After evaluating one row, another one is bound, or the row changes in place.
ENTRY(C21_rows) {
  const Prog &p = P[sx_choice(NP, "program")];
  Tuple one = symRow(sx_param(0)), two = symRow(sx_param(0)), tmp = one;
  Runner r, f1, f2;
  load(r, p);
  bool inPlace = sx_choice(2, "in place");
  r.BindTuple(inPlace ? &tmp : &one);
  Out a = eval(r);
  if (inPlace) tmp = two; else r.BindTuple(&two);
  bool get = sx_choice(2, "between");
  if (get) { Runner q; load(q, p); q.BindTuple(&one); (void)eval(q); }
  Out b = eval(r);
  load(f1, p); f1.BindTuple(&one);
  load(f2, p); f2.BindTuple(&two);
  compare(a, eval(f1), p, "the result on the first row");
  compare(b, eval(f2), p, "the result on the second row");
  if (!inPlace) { r.BindTuple(&one); compare(eval(r), a, p, "the first row again"); }
  sx_reach("rows");
}
// Two runners take turns, on rows and programs of their own.
ENTRY(C21_turns) {
  const Prog &p = P[sx_choice(NP, "program")], &q = P[sx_choice(NP, "other")];
  Tuple one = symRow(false), two = symRow(false);
  Runner a, b, fa, fb;
  load(a, p);
  load(b, q);
  a.BindTuple(&one);
  b.BindTuple(&two);
  bool ea = false, eb = false;
  try { a.Run(); } catch (const std::exception &) { ea = true; }
  try { b.Run(); } catch (const std::exception &) { eb = true; }
  load(fa, p); fa.BindTuple(&one); Out oa = eval(fa);
  load(fb, q); fb.BindTuple(&two); Out ob = eval(fb);
  sx_check(ea == oa.threw && eb == ob.threw, "errors are each runner's own");
  sx_observe("ea", ea);
  if (!ea) { observeOperand(a.Get(), p.res); sameOperand(a.Get(), oa.v, p.res, "results are each runner's own"); }
  if (!eb) { observeOperand(b.Get(), q.res); sameOperand(b.Get(), ob.v, q.res, "results are each runner's own"); }
  sx_reach("turns");
}
// A result stays what it was whatever the runner does next, also after the runner is gone.
ENTRY(C21_keep) {
  const Prog &p = P[sx_choice(NP, "program")];
  Tuple one = symRow(false), two = symRow(false);
  Runner *r = new Runner, f;
  load(*r, p);
  r->BindTuple(&one);
  Out a = eval(*r);
  r->BindTuple(&two);
  (void)eval(*r);
  load(*r, P[3]);
  (void)eval(*r);
  delete r;
  load(f, p); f.BindTuple(&one);
  compare(a, eval(f), p, "a result is kept");
  sx_reach("keep");
}
// An earlier program left many values, or failed with many on the stack.  params: at most so many values
ENTRY(C21_left) {
  static const uint32_t N[] = {15, 64, 99, 128, 300, 5000, 20000};
  static const Byte PICK[] = {0, 3, 8};
  const Prog &p = P[PICK[sx_choice(3, "program")]];
  uint32_t n = N[sx_choice(sx_param(0), "values")];
  bool bad = sx_choice(2, "error");
  Tuple row = symRow(false);
  Runner r, fresh;
  Byte *b = new Byte[2 * n + 2];
  for (uint32_t i = 0; i < n; ++i) { b[2 * i] = 0x31; b[2 * i + 1] = i & 1; }
  b[2 * n] = bad ? 0x83 : 0x84;
  b[2 * n + 1] = bad ? 5 : 1;  // DOUBLE operands: an error
  r.Decode(b, 2 * n + 2);
  delete[] b;
  r.BindTuple(&row);
  bool threw = false;
  try { r.Run(); } catch (const std::exception &) { threw = true; }
  sx_check(threw == bad, "an error exactly when an operator raises one");
  bool same = sx_choice(2, "again");
  if (same && !bad) {
    r.Run();
    Tuple *t = r.GetAll();
    sx_check(t->size() == n - 1, "repeating an evaluation repeats its result");
    for (uint32_t i = 0; i + 2 < n; ++i) sameOperand((*t)[i], row[i & 1], I, "repeating an evaluation repeats its result");
    delete t;
  }
  load(r, p);
  r.BindTuple(&row);
  Out a = eval(r);
  load(fresh, p);
  fresh.BindTuple(&row);
  compare(a, eval(fresh), p, "the same as in a fresh runner");
  sx_reach("left");
}
// Many evaluations.  params: how many, 0: the same row, 1: two rows in turn, 2: decoded anew, 3: all but the last fail, 4: a runner for each, 5: programs that fail to decode
ENTRY(C21_many) {
  uint32_t n = sx_param(0), kind = sx_param(1);
  Tuple one{symOperand(I, 0, "a"), symOperand(I, 0, "b"), Operand(5)}, two{symOperand(I, 0, "c"), symOperand(I, 0, "d"), Operand(INT32_MIN)};
  static const Byte SUB[] = {0x31, 0, 0x31, 1, 0x84, 1}, MORE[] = {0x31, 1, 0x31, 1, 0x31, 0, 0x84, 1}, ABS[] = {0x31, 2, 0x31, 0, 0x31, 1, 0x84, 1, 0x31, 2, 0xB4, 1, 0x31, 0, 0x31, 1, 0x84, 1}, CUT[] = {0x31, 0, 0x17, 5, 'x'};
  Operand want1 = (int32_t)((uint32_t)one[0].GetValue<int32_t>() - (uint32_t)one[1].GetValue<int32_t>());
  Operand want2 = (int32_t)((uint32_t)two[0].GetValue<int32_t>() - (uint32_t)two[1].GetValue<int32_t>());
  Operand want3 = (int32_t)((uint32_t)one[1].GetValue<int32_t>() - (uint32_t)one[0].GetValue<int32_t>());
  Runner r;
  const Byte *p = kind == 3 ? ABS : SUB;
  size_t len = kind == 3 ? sizeof ABS : sizeof SUB;
  r.Decode(p, len);
  r.BindTuple(&one);
  for (uint32_t i = 0; i < n; ++i) {
    bool odd = i & 1, last = i + 1 == n;
    if (kind == 1) r.BindTuple(odd ? &two : &one);
    if (kind == 2) r.Decode(odd ? MORE : SUB, odd ? sizeof MORE : sizeof SUB);
    if (kind == 3) {
      r.BindTuple(last ? &one : &two);
      bool threw = false;
      try { r.Run(); } catch (const std::exception &) { threw = true; }
      sx_check(threw == !last, "an error exactly when an operator raises one");
      if (!last) continue;
      Tuple *all = r.GetAll();
      sx_check(all->size() == 4, "as many values as the operators leave");
      delete all;
      sameOperand(r.Get(), want1, I, "the same however often something was evaluated before");
      continue;
    }
    if (kind == 5 && !last) {
      bool threw = false;
      try { r.Decode(CUT, sizeof CUT); } catch (const std::exception &) { threw = true; }
      sx_check(threw, "a cut-off program is an error");
      continue;
    }
    if (kind == 5) r.Decode(SUB, sizeof SUB);
    if (kind == 4) {
      Runner q;
      q.Decode(SUB, sizeof SUB);
      q.BindTuple(odd ? &two : &one);
      q.Run();
      sameOperand(q.Get(), odd ? want2 : want1, I, "the same however often something was evaluated before");
      continue;
    }
    r.Run();
    sameOperand(r.Get(), kind == 1 && odd ? want2 : kind == 2 && odd ? want3 : want1, I, "the same however often something was evaluated before");
    {
      Tuple *all = r.GetAll();
      sx_check(all->size() == (kind == 2 && odd ? 2u : 1u), "as many values as the operators leave");
      delete all;
    }
  }
  sx_reach("many");
}

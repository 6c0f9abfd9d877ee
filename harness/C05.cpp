// C05: the result is NULL or of the type the expression declares, which is the documented one.
#include "h.h"
ENTRY(C05) {
  uint32_t g = sx_param(0);
  Op ops[MAX_OPS];
  size_t n = opGroup(g, ops);
  const Op o = ops[sx_choice(n, "operator")];
  bool fpText = (g == 4 || g == 5) && o.res == S && (o.arg[0] == F || o.arg[0] == D);
  uint32_t maxLen = (g == 4 || g == 5) && (o.res == F || o.res == D) ? 1 : sx_param(1);
  Tuple t;
  Code c;
  for (int i = 0; i < o.arity; ++i) {
    if (fpText) { double v = sx_choice(2, "v") ? 1.5 : -0.25; if (o.arg[0] == F) t.push_back((float)v); else t.push_back(v); }
    else if (sx_param(2)) t.push_back(symOrNull(o.arg[i], maxLen, "v"));
    else t.push_back(symOperand(o.arg[i], maxLen, "v"));
    c << varOp(o.arg[i]) << i;
  }
  for (int i = 0; i < o.len; ++i) c << o.code[i];
  Runner r;
  decode(r, c);
  sx_observe("type", r.GetType());
  sx_check(r.GetType() == o.res, "the declared type is the documented one");
  r.BindTuple(&t);
  try {
    r.Run();
  } catch (const ExprError &) {  // checked operators may refuse the value
    sx_reach("refused");
    return;
  } catch (const std::out_of_range &) {
    sx_reach("refused");
    return;
  }
  Operand v = r.Get();
  sx_observe("isnull", v == nullptr);
  sx_check(v == nullptr || hasType(v, o.res), "the result is NULL or of the declared type");
  sx_reach("done");
}
// constants, NULLs and variables
ENTRY(C05_leaf) {
  Byte ty = TYPES[sx_choice(6, "type")];
  Runner r;
  Tuple t;
  Code c;
  uint32_t k = sx_choice(4, "kind");
  if (k == 0) c << ty;                        // NULL
  else if (k == 1) {                          // variable
    t.push_back(symOrNull(ty, 2, "v"));
    c << varOp(ty) << 0;
  } else if (k == 2) {
    c << (0x10 | ty);
    if (ty == I || ty == L) c << 5;
    if (ty == F) c << 1 << 2 << 3 << 4;
    if (ty == D) c << 1 << 2 << 3 << 4 << 5 << 6 << 7 << 8;
    if (ty == S) c << 1 << 'x';
  } else {
    sx_assume(ty == I || ty == L || ty == B);
    c << (0x20 | ty);
    if (ty != B) c << 5;
  }
  runOn(r, c, &t);
  sx_check(r.GetType() == ty, "the declared type is the documented one");
  Operand v = r.Get();
  sx_check(k == 0 ? v == nullptr : k == 1 ? (v == nullptr || hasType(v, ty)) : hasType(v, ty), "the result is NULL or of the declared type");
  sx_reach("leaf");
}
// long programs: the last operator's type
ENTRY(C05_long) {
  static const uint32_t N[] = {1, 15, 16, 31, 32, 33, 64, 127, 128, 255, 256, 1024, 5000};
  uint32_t n = N[sx_choice(13, "before")], k = sx_choice(5, "last");
  Byte *b = new Byte[2 * n + 8];
  size_t p = 0;
  for (uint32_t i = 0; i < n; ++i) { b[p++] = 0x31; b[p++] = 0; }
  static const Byte LAST[5][5] = {{4, 0x31, 0, 0xF0, 0x21}, {4, 0x31, 0, 0xF0, 0x51}, {4, 0x31, 0, 0x95, 1}, {4, 0x31, 0, 0xF0, 0x71}, {4, 0x31, 0, 0x83, 1}};
  static const Byte TYPE[] = {TYPE_INT64, TYPE_DOUBLE, TYPE_BOOL, TYPE_STRING, TYPE_INT32};
  for (int i = 1; i <= LAST[k][0]; ++i) b[p++] = LAST[k][i];
  Runner r;
  sx_check(r.Decode(b, p) == b + p, "all consumed");
  delete[] b;
  sx_check(r.GetType() == TYPE[k], "the declared type is the documented one");
  Tuple t{symOrNull(I, 0, "v")};
  r.BindTuple(&t);
  r.Run();
  Operand v = r.Get();
  sx_check(v == nullptr || hasType(v, TYPE[k]), "the result is NULL or of the declared type");
  sx_reach("long");
}
// The type asked for at several moments of a runner's life.
ENTRY(C05_again) {
  static const Byte CODE[][8] = {{1, 0x13}, {2, 0x11, 5}, {4, 0x31, 0, 0xF0, 0x21}, {3, 0x17, 1, 'x'}, {4, 0x31, 0, 0xF0, 0x51}, {4, 0x31, 0, 0x31, 0}, {6, 0x31, 0, 0x31, 0, 0x95, 1}, {2, 0x11, 0x85}, {2, 0x13, 0xEE}};
  static const Byte TYPE[] = {TYPE_BOOL, TYPE_INT32, TYPE_INT64, TYPE_STRING, TYPE_DOUBLE, TYPE_INT32, TYPE_BOOL};
  Runner r;
  Tuple t{symOrNull(I, 0, "v")};
  for (int k = 0; k < 3; ++k) {
    uint32_t w = sx_choice(k == 2 ? 7 : 9, "program");
    bool threw = false;
    Byte *b = new Byte[CODE[w][0]];
    memcpy(b, CODE[w] + 1, CODE[w][0]);
    try { r.Decode(b, CODE[w][0]); } catch (const std::exception &) { threw = true; }
    delete[] b;
    sx_check(threw == (w >= 7), "an error exactly where there is one");
    if (threw) continue;
    uint32_t ask = k == 2 ? 3 : sx_choice(4, "ask");
    if (ask & 1) sx_check(r.GetType() == TYPE[w], "the declared type is the documented one");
    if (ask & 2) {
      r.BindTuple(&t);
      r.Run();
      Operand v = r.Get();
      sx_check(v == nullptr || hasType(v, TYPE[w]), "the result is NULL or of the declared type");
      sx_check(r.GetType() == TYPE[w], "the declared type is the documented one");
    }
  }
  sx_reach("again");
}

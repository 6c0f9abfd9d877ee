// C10: NOT, AND and OR are Kleene's three-valued logic.
#include "h.h"
#include "around.h"
// a truth value: 0 false, 1 true, 2 NULL
struct K3 { bool null, v; };
static K3 symK(const char *n) {
  K3 k;
  k.null = sx_choice(2, "isnull");
  k.v = k.null ? false : sym<bool>(n);
  return k;
}
static Operand operand(K3 k) { if (k.null) return nullptr; return k.v; }
static int num(K3 k) { return k.null ? 1 : k.v ? 2 : 0; }  // F < U < T
static int kNot(int a) { return 2 - a; }
static int kAnd(int a, int b) { return a < b ? a : b; }
static int kOr(int a, int b) { return a > b ? a : b; }
static int kBin(Byte op, int a, int b) { return op == 0x52 ? kAnd(a, b) : kOr(a, b); }
static void expectK(const Operand &r, int want) {
  int got = r == nullptr ? 1 : r.GetValue<bool>() ? 2 : 0;
  sx_observe("r", (uint32_t)got);
  sx_same((uint32_t)got, (uint32_t)want, 0, "three-valued logic");
}
ENTRY(C10_unary) {
  K3 a = symK("a");
  expectK(apply1(B, operand(a), {0x51}), kNot(num(a)));
  sx_reach("not");
}
ENTRY(C10_binary) {
  K3 a = symK("a"), b = symK("b");
  Byte op = 0x52 + sx_choice(2, "op");
  expectK(apply2(B, operand(a), B, operand(b), {op}), kBin(op, num(a), num(b)));
  sx_reach("binary");
}
// Every expression tree over n variables: a random program is any valid postfix sequence of variables and connectives.
ENTRY(C10_nested) {
  uint32_t nv = sx_param(0), len = sx_param(1);
  Tuple t;
  int val[4];
  for (uint32_t i = 0; i < nv; ++i) {
    K3 k = symK("v");
    t.push_back(operand(k));
    val[i] = num(k);
  }
  Code c;
  int st[8], sp = 0;
  for (uint32_t i = 0; i < len; ++i) {
    uint32_t left = len - i;
    // 0..nv-1 push a variable; nv NOT; nv+1 AND; nv+2 OR.  Keep the stack reducible to one value.
    uint32_t k = sx_choice(nv + 3, "step");
    if (k < nv) { if (sp + 1 > (int)left) { sx_assume(false); } st[sp++] = val[k]; c << varOp(B) << (int)k; }
    else if (k == nv) { sx_assume(sp >= 1); st[sp - 1] = kNot(st[sp - 1]); c << 0x51; }
    else { sx_assume(sp >= 2); --sp; Byte op = k == nv + 1 ? 0x52 : 0x53; st[sp - 1] = kBin(op, st[sp - 1], st[sp]); c << op; }
  }
  sx_assume(sp == 1);
  expectK(runOn(c, &t), st[0]);
  sx_reach("nested");
}
// Constant operands TRUE, FALSE and NULL instead of variables
ENTRY(C10_const) {
  static const Byte code[3] = {0x23, 0x03, 0x13};
  int a = sx_choice(3, "a"), b = sx_choice(3, "b");
  Byte op = 0x52 + sx_choice(2, "op");
  Code c;
  c << code[a] << code[b] << op;
  expectK(runOn(c, nullptr), kBin(op, a, b));
  Code d;
  d << code[a] << 0x51;
  expectK(runOn(d, nullptr), kNot(a));
  sx_reach("const");
}
// Operators above other values.  params: operator group
AROUND(C10_around)

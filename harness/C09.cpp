// C09: strict operators return NULL when any operand is NULL and never fail because of it.
#include "h.h"
#include "around.h"
ENTRY(C09) {
  Op ops[MAX_OPS];
  size_t n = opGroup(sx_param(0), ops);
  const Op o = ops[sx_choice(n, "operator")];
  uint32_t nulls = 1 + sx_choice((1u << o.arity) - 1, "nulls");  // which operands are NULL, at least one
  Tuple t;
  Code c;
  for (int i = 0; i < o.arity; ++i) {
    if (nulls >> i & 1) t.push_back(nullptr);
    else t.push_back(symOperand(o.arg[i], sx_param(1), "v"));
    c << varOp(o.arg[i]) << i;
  }
  for (int i = 0; i < o.len; ++i) c << o.code[i];
  Operand r = runOn(c, &t);
  expectNull(r, "a NULL operand gives NULL");
  sx_reach("done");
}
// the same with NULL constants instead of variables
ENTRY(C09_const) {
  Op ops[MAX_OPS];
  size_t n = opGroup(sx_param(0), ops);
  const Op o = ops[sx_choice(n, "operator")];
  int k = sx_choice(o.arity, "which");
  Tuple t;
  Code c;
  for (int i = 0; i < o.arity; ++i) {
    t.push_back(symOperand(o.arg[i], sx_param(1), "v"));
    if (i == k) c << o.arg[i];
    else c << varOp(o.arg[i]) << i;
  }
  for (int i = 0; i < o.len; ++i) c << o.code[i];
  expectNull(runOn(c, &t), "a NULL operand gives NULL");
  sx_reach("done");
}
// Operators above other values.  params: operator group
AROUND(C09_around)

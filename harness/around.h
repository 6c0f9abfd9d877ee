#pragma once
#include "h.h"
// A sub-expression and what surrounds it: some values below, then the operator, then a value above.
inline void around() {
  Op o[MAX_OPS];
  size_t n = opGroup(sx_param(0), o);
  const Op &op = o[sx_choice((uint32_t)n, "op")];
  static const uint32_t BELOW[] = {1, 2, 3, 4, 7, 8, 16, 33};
  uint32_t below = BELOW[sx_choice(8, "below")], nulls = sx_choice(1u << op.arity, "nulls");
  Tuple t;
  t.push_back(sym<int32_t>("below"));
  Code c, d;
  for (uint32_t i = 0; i < below; ++i) c << 0x31 << 0;
  for (int i = 0; i < op.arity; ++i) {
    Operand v = nulls >> i & 1 ? Operand(nullptr) : op.arg[i] == F ? Operand(1.5f) : op.arg[i] == D ? Operand(0.25) : op.arg[i] == S ? Operand(String(std::string("1"))) : symOperand(op.arg[i], 0, "v");
    t.push_back(v);
    c << varOp(op.arg[i]) << i + 1;
    d << varOp(op.arg[i]) << i + 1;
  }
  for (int i = 0; i < op.len; ++i) { c << op.code[i]; d << op.code[i]; }
  c << 0x11 << 9;
  Runner r, q;
  bool bad = false;
  try { runOn(q, d, &t); } catch (const std::exception &) { bad = true; }
  bool bad2 = false;
  try { runOn(r, c, &t); } catch (const std::exception &) { bad2 = true; }
  sx_observe("error", bad);
  sx_check(bad == bad2, "an error does not depend on what surrounds the operator");
  if (bad) { sx_reach("error"); return; }
  Tuple *all = r.GetAll();
  sx_check(all->size() == below + 2, "the operator consumes its operands and leaves one value");
  for (uint32_t i = 0; i < below; ++i) sameOperand((*all)[i], t[0], I, "values below are untouched");
  observeOperand(q.Get(), op.res);
  sameOperand((*all)[below], q.Get(), op.res, "the value does not depend on what surrounds it");
  sameOperand((*all)[below + 1], Operand(9), I, "values above follow");
  delete all;
  sx_reach("around");
}
#define AROUND(name) ENTRY(name) { around(); }

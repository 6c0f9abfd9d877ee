// C36: a value of another type than an operator works on is an error, never read as something else.
#include "rel.h"
// Kinds of values: NULL, the six types, an array.
static const uint32_t KINDS = 8;
static Operand valueOf(uint32_t kind) {
  switch (kind) {
  case 0: return nullptr;
  case 1: return sym<int32_t>("i");
  case 2: return sym<int64_t>("l");
  case 3: return sym<bool>("b");
  case 4: return 1.5f;
  case 5: return 0.25;
  case 6: return std::make_shared<std::vector<int32_t>>(2, 7);
  default: return String(std::string("1"));
  }
}
static Byte kindOf(uint32_t k) { return (Byte)k; }  // 6 is no type of an operand
struct Out { bool bad; Operand v; };
static Out run(const Runner &r, const Tuple &t) {
  Out o{false, nullptr};
  try {
    r.BindTuple(&t);
    r.Run();
    o.v = r.Get();
  } catch (const std::exception &) {
    o.bad = true;
  }
  sx_observe("error", o.bad);
  return o;
}
// Every operator on values of any types, at least one of which is not what the operator works on.  params: group
// The values come in by variables declared with the operator's types or their own.
ENTRY(C36_op) {
  uint32_t g = sx_param(0);
  Op o[MAX_OPS];
  size_t n = opGroup(g, o);
  const Op &op = o[sx_choice((uint32_t)n, "op")];
  bool declared = sx_choice(2, "declared");
  Tuple t, good;
  Code c;
  bool null = false, bad = false;
  uint32_t k[3];
  for (uint32_t i = 0; i < op.arity; ++i) {
    k[i] = sx_choice(KINDS, "kind");
    null |= k[i] == 0;
    bad |= k[i] != 0 && kindOf(k[i]) != op.arg[i];
    t.push_back(valueOf(k[i]));
    good.push_back(valueOf(op.arg[i]));
    c << varOp(declared || k[i] == 0 || k[i] == 6 ? op.arg[i] : kindOf(k[i])) << (int)i;
  }
  sx_assume(bad);
  for (uint32_t i = 0; i < op.len; ++i) c << op.code[i];
  Runner r, q;
  decode(r, c);
  Out a = run(r, t);
  if (g == 2) {  // predicates
    bool isNull = op.code[0] == 0xA1;
    if (!isNull && op.arg[0] != S) sx_check(a.bad, "IS_TRUE or IS_FALSE of a value of another type is an error");
    if (!a.bad) expectValue<bool>(a.v, op.code[0] == 0xA3, "a value of another type is not NULL; no string is TRUE");
  } else if (g == 7) {  // connectives
    if (op.arity == 1) sx_check(a.bad, "NOT of a value of another type is an error");
    if (!a.bad) {
      // the other operand decides alone
      bool deciding = op.code[0] == 0x53;
      uint32_t other = k[0] == B ? 0 : 1;
      if (k[other] == B) expectValue<bool>(a.v, deciding, "the operand that is a BOOL decides");
      else expectNull(a.v, "no operand is a BOOL");
      if (k[other] == B) sx_check(t[other].GetValue<bool>() == deciding, "the operand that is a BOOL decides");
    }
  } else if (null) {
    if (!a.bad) expectNull(a.v, "an operator with a NULL operand gives NULL or an error");
  } else {
    sx_check(a.bad, "an operator on a value of another type is an error");
  }
  if (a.bad) sx_reach("error");
  // and the runner goes on to work
  Out b = run(r, good);
  decode(q, c);
  Out w = run(q, good);
  sx_check(b.bad == w.bad, "after an error the runner works as a new one does");
  if (!b.bad && op.res != 0) { observeOperand(b.v, op.res); sameOperand(b.v, w.v, op.res, "after an error the runner works as a new one does"); }
  sx_reach("op");
}
// What the caller takes out is what it says, or an error.
template <typename T> static bool gets(const Operand &v) {
  try { (void)v.GetValue<T>(); return true; } catch (const std::exception &) { return false; }
}
template <typename T> static int optional(const Runner &r) {
  try { return r.GetOptional<T>().has_value() ? 1 : 0; } catch (const std::exception &) { return 2; }
}
template <typename T> static int adapted(const Operand &v) {
  try { std::any a = any_optional_data_adaptor::FromOperand<T>(v); return std::any_cast<std::optional<T>>(a).has_value() ? 1 : 0; } catch (const std::exception &) { return 2; }
}
template <typename T, typename U> static void takeOut(const Operand &v, const Runner &r, bool null, bool is) {
  sx_check(gets<T>(v) == is, "GetValue gives a value of exactly the type that is there");
  sx_check(optional<T>(r) == (null ? 0 : is ? 1 : 2), "GetOptional gives a value of exactly the type that is there");
  sx_check(adapted<U>(v) == (null ? 0 : is ? 1 : 2), "FromOperand gives a value of exactly the type that is there");
}
ENTRY(C36_get) {
  uint32_t k = sx_choice(KINDS, "kind");
  Tuple t{valueOf(k)};
  Code c;
  c << 0x31 << 0;
  Runner r;
  runOn(r, c, &t);
  Operand v = r.Get();
  switch (sx_choice(6, "type")) {
  case 0: takeOut<int32_t, int32_t>(v, r, k == 0, k == I); break;
  case 1: takeOut<int64_t, int64_t>(v, r, k == 0, k == L); break;
  case 2: takeOut<bool, bool>(v, r, k == 0, k == B); break;
  case 3: takeOut<float, float>(v, r, k == 0, k == F); break;
  case 4: takeOut<double, double>(v, r, k == 0, k == D); break;
  case 5: takeOut<String, String::ValueType>(v, r, k == 0, k == S); break;
  }
  sx_observe("kind", k);
  sx_reach("get");
}
// SUM, MIN and MAX of a column of another type: an error for the first such value, in the first row or after others.
ENTRY(C36_agg) {
  AggSpec all[32];
  size_t n = allAggs(all);
  AggSpec a = all[sx_choice((uint32_t)n, "aggregate")];
  uint32_t k = sx_choice(KINDS, "kind"), rows = sx_choice(3, "rows"), form = sx_choice(2, "form");
  sx_assume(a.kind >= SUM && k != 0 && kindOf(k) != a.type);
  a.col = 1;
  Bytes c;
  if (form) c << 0x74 << 1;
  else c << 0x73 << 0x61 << 1 << 0 << 1;
  encode(c, a);
  c << 0;
  RelRunner r;
  decode(r, c);
  uint32_t nulls = sx_choice(2, "nulls");
  for (uint32_t i = 0; i < rows; ++i) r.Put(new Tuple{Operand(7), nulls ? Operand(nullptr) : valueOf(a.type)});
  bool bad = false;
  try { r.Put(new Tuple{Operand(7), valueOf(k)}); } catch (const std::exception &) { bad = true; }
  if (rows == 0 || nulls) {
    // the first value: at the latest the second one is compared with it
    if (!bad) try { r.Put(new Tuple{Operand(7), valueOf(k)}); } catch (const std::exception &) { bad = true; }
  }
  sx_observe("error", bad);
  sx_check(bad, "an aggregate of a value of another type is an error");
  sx_reach("agg");
}
// A filter whose predicate is no BOOL, in front of or behind a projection.
ENTRY(C36_filter) {
  uint32_t k = sx_choice(KINDS, "kind");
  sx_assume(k != 0 && k != B);
  Bytes c;
  bool chain = sx_choice(2, "chain");
  if (chain) c << 0x72 << 0x31 << 1 << 0x31 << 0 << 0;
  c << 0x71 << 0x33 << (chain ? 1 : 0) << 0;
  RelRunner r;
  decode(r, c);
  bool bad = false;
  try { delete r.Put(new Tuple{valueOf(k), Operand(3)}); } catch (const std::exception &) { bad = true; }
  sx_observe("error", bad);
  sx_check(bad, "a predicate that is no BOOL is an error");
  const Tuple *out = r.Put(new Tuple{Operand(true), Operand(3)});
  sx_check(out != nullptr, "the next row passes");
  delete out;
  sx_reach("filter");
}

// C23: equality and hashing of values and rows are consistent.
#include "h.h"
#include <functional>
static bool bothEq(float a, float b) { return a == b; }
static bool bothEq(double a, double b) { return a == b; }
// the specification of equality
static bool specEq(const Operand &a, Byte ta, const Operand &b, Byte tb) {
  bool na = a == nullptr, nb = b == nullptr;
  if (na || nb) return na && nb;
  if (ta != tb) return false;
  switch (ta) {
  case TYPE_INT32: return a.GetValue<int32_t>() == b.GetValue<int32_t>();
  case TYPE_INT64: return a.GetValue<int64_t>() == b.GetValue<int64_t>();
  case TYPE_BOOL: return a.GetValue<bool>() == b.GetValue<bool>();
  case TYPE_FLOAT: return bothEq(a.GetValue<float>(), b.GetValue<float>());
  case TYPE_DOUBLE: return bothEq(a.GetValue<double>(), b.GetValue<double>());
  default: {
    String x = a.GetValue<String>(), y = b.GetValue<String>();
    if (x->size() != y->size()) return false;
    bool eq = true;
    for (size_t i = 0; i < x->size(); ++i) eq &= (*x)[i] == (*y)[i];
    return eq;
  }
  }
}
// Case distinctions that make the question about hashes easy to decide; no effect on the claim.
static void hint(const Operand &a, Byte ta, const Operand &b, Byte tb) {
  if (a == nullptr || b == nullptr || ta != tb) return;
  if (ta == F) { float x = a.GetValue<float>(), y = b.GetValue<float>(); if (!sx_split(bits(x) == bits(y))) (void)(sx_split(x == 0) && sx_split(y == 0)); }
  if (ta == D) { double x = a.GetValue<double>(), y = b.GetValue<double>(); if (!sx_split(bits(x) == bits(y))) (void)(sx_split(x == 0) && sx_split(y == 0)); }
}
static void laws(const Operand &a, Byte ta, const Operand &b, Byte tb) {
  bool want = specEq(a, ta, b, tb), got = a == b;
  sx_observe("eq", got);
  sx_same(got, want, 0, "equal exactly when both are NULL or of the same type and contents");
  sx_same(b == a, got, 0, "equality is symmetric");
  sx_same(a != b, !got, 0, "!= is the negation");
  if (sx_split(got)) {
    hint(a, ta, b, tb);
    sx_check(std::hash<Operand>()(a) == std::hash<Operand>()(b), "equal values have equal hashes");
    sx_reach("equal");
  } else sx_reach("different");
}
// params: type of each, string length
ENTRY(C23_value) {
  Byte ta = TYPES[sx_param(0)], tb = TYPES[sx_param(1)];
  Operand a = symOrNull(ta, sx_param(2), "a"), b = symOrNull(tb, sx_param(2), "b");
  laws(a, ta, b, tb);
}
ENTRY(C23_null) {
  Byte ta = TYPES[sx_choice(6, "type")];
  Operand a = symOrNull(ta, sx_param(0), "a"), n = nullptr, e;
  bool isNull = a == nullptr;
  sx_observe("null", isNull);
  sx_check((a != nullptr) == !isNull, "!= NULL is the negation of == NULL");
  sx_check((a == n) == isNull && (n == a) == isNull && (a == e) == isNull, "NULLs are equal to each other only");
  sx_check((a != n) == !isNull, "!= is the negation");
  sx_check(std::hash<Operand>()(n) == std::hash<Operand>()(e), "NULLs have equal hashes");
  Operand copy = a;
  if (isNull || (ta != F && ta != D)) sx_check(copy == a, "a copy is equal");
  sx_check(std::hash<Operand>()(copy) == std::hash<Operand>()(a), "a copy has the same hash");
  sx_reach("null");
}
// a value's hash depends on its contents only: strings built separately
ENTRY(C23_string) {
  uint32_t n = sx_choice(sx_param(0) + 1, "len");
  std::string s = symString(n, "s");
  std::string t = s + "tail";
  t.resize(n);
  Operand a = String(s), b = String(t), c = String(s.data(), n), d = std::make_shared<std::string>(s);
  sx_check(a == b && a == c && a == d, "equal strings are equal wherever they are");
  size_t h = std::hash<Operand>()(a);
  sx_check(h == std::hash<Operand>()(b) && h == std::hash<Operand>()(c) && h == std::hash<Operand>()(d), "and have equal hashes");
  if (n) {
    std::string u = s;
    size_t k = sx_choice(n, "at");
    u[k] = (char)(u[k] ^ 1);
    sx_check(a != Operand(String(u)), "strings that differ in one bit are different");
  }
  sx_reach("string");
}
// rows. params: longest row, types (0 integers and NULL, 1 strings, 2 doubles and mixed)
static Operand cell(uint32_t kind, Byte &ty) {
  if (kind == 0) { ty = I; return symOrNull(I, 0, "c"); }
  if (kind == 1) { ty = S; return symOrNull(S, 1, "c"); }
  uint32_t k = sx_choice(4, "type");
  ty = k == 0 ? D : k == 1 ? L : k == 2 ? B : F;
  return k == 3 ? Operand(nullptr) : symOperand(ty, 0, "c");
}
ENTRY(C23_row) {
  uint32_t na = sx_choice(sx_param(0) + 1, "a"), nb = sx_choice(sx_param(0) + 1, "b");
  std::unique_ptr<Tuple> pa(new Tuple), pb(new Tuple);
  Tuple &a = *pa, &b = *pb;
  Byte ta[4], tb[4];
  for (uint32_t i = 0; i < na; ++i) a.push_back(cell(sx_param(1), ta[i]));
  for (uint32_t i = 0; i < nb; ++i) b.push_back(cell(sx_param(1), tb[i]));
  bool want = na == nb;
  for (uint32_t i = 0; i < na && na == nb; ++i) want &= specEq(a[i], ta[i], b[i], tb[i]);
  bool got = a == b;
  sx_observe("eq", got);
  sx_same(got, want, 0, "rows are equal exactly when they have the same length and equal values");
  sx_same(b == a, got, 0, "equality of rows is symmetric");
  sx_same(a != b, !got, 0, "!= is the negation");
  if (sx_split(got)) {
    for (uint32_t i = 0; i < na; ++i) hint(a[i], ta[i], b[i], tb[i]);
    sx_check(std::hash<Tuple>()(a) == std::hash<Tuple>()(b), "equal rows have equal hashes");
    sx_reach("equal");
  } else sx_reach("different");
}
// Long strings that agree up to some place, where one of them has another byte or ends.
ENTRY(C23_long) {
  static const uint32_t AT[] = {15, 16, 63, 64, 127, 128, 255, 256, 300, 4096, 32767, 32768, 65535, 65536, 300000};
  uint32_t at = AT[sx_choice(15, "at")];
  std::string a(at, 'm');
  for (uint32_t i = 0; i < at; ++i) a[i] = (char)(i * 11 + 3);
  std::string b = a;
  uint32_t x = sx_choice(4, "first"), y = sx_choice(4, "second");
  unsigned char p = x ? sx_i8("p") : 0, q = y ? sx_i8("q") : 0;
  if (x) a.push_back((char)p);
  if (y) b.push_back((char)q);
  if (x >= 2) a += std::string(x == 2 ? 200 : 200 + at, '\x01');
  if (y >= 2) b += std::string(y == 2 ? 200 : 200 + at, '\x01');
  bool want = x == y && (!x || sx_split(p == q));
  Operand u = String(a), v = String(b);
  sx_check((u == v) == want && (v == u) == want, "equal exactly when both have the same contents");
  sx_check((u != v) == !want, "!= is the negation");
  Tuple s{Operand(1), u}, t{Operand(1), v};
  sx_check((s == t) == want, "rows are equal exactly when they have the same length and equal values");
  if (want) { sx_check(std::hash<Tuple>()(s) == std::hash<Tuple>()(t), "equal rows have equal hashes"); sx_reach("equal"); }
  else sx_reach("different");
}
// Wide rows that agree but for one value, or for the last.
ENTRY(C23_wide) {
  static const uint32_t N[] = {2, 8, 9, 16, 17, 64, 65, 255, 256, 257, 1000, 5000};
  uint32_t n = N[sx_choice(12, "width")], k = sx_choice(4, "at"), at = k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : n;
  std::unique_ptr<Tuple> pa(new Tuple), pb(new Tuple);
  Tuple &a = *pa, &b = *pb;
  for (uint32_t i = 0; i < n; ++i) a.push_back(i % 7 == 3 ? Operand(nullptr) : i % 7 == 5 ? Operand(String(std::string("s"))) : Operand((int32_t)i));
  b = a;
  bool want;
  if (at < n) {
    int32_t p = sym<int32_t>("p"), q = sym<int32_t>("q");
    a[at] = p;
    b[at] = q;
    want = sx_split(p == q);
  } else { b.pop_back(); want = false; }
  sx_check((a == b) == want && (b == a) == want && (a != b) == !want, "rows are equal exactly when they have the same length and equal values");
  if (want) { sx_check(std::hash<Tuple>()(a) == std::hash<Tuple>()(b), "equal rows have equal hashes"); sx_reach("equal"); }
  else sx_reach("different");
}

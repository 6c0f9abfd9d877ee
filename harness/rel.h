// Shared helpers of the harnesses of relational code.
#pragma once
#include "h.h"

typedef std::vector<Byte> Bytes;
inline Bytes &operator<<(Bytes &c, int v) { c.push_back((Byte)v); return c; }
inline Bytes &operator<<(Bytes &c, const Bytes &v) { c.insert(c.end(), v.begin(), v.end()); return c; }

inline void varint(Bytes &c, uint32_t v) {
  for (; v >= 0x80; v >>= 7) c << (int)(0x80 | (v & 0x7f));
  c << (int)v;
}
inline void decode(RelRunner &r, const Bytes &c) {
  Byte *b = new Byte[c.size()];
  if (c.size()) memcpy(b, c.data(), c.size());
  const Byte *e = r.Decode(b, c.size());
  sx_check(e == b + c.size(), "Decode consumes the whole code");
  delete[] b;
}
inline Operand evalOn(const Bytes &c, const Tuple &t) {
  Runner r;
  Byte *b = new Byte[c.size()];
  memcpy(b, c.data(), c.size());
  r.Decode(b, c.size());
  delete[] b;
  r.BindTuple(&t);
  r.Run();
  return r.Get();
}

// --- aggregates ---------------------------------------------------------------------------------
enum { COUNT_ALL, COUNT, SUM, MAX, MIN };
struct AggSpec { int kind; Byte type; int32_t col; };
inline Byte aggCode(const AggSpec &a) { return a.kind == COUNT_ALL ? 0x10 : (a.kind << 4) | a.type; }
inline void encode(Bytes &c, const AggSpec &a) {
  c << aggCode(a);
  if (a.kind != COUNT_ALL) varint(c, a.col);
}
inline Byte aggType(const AggSpec &a) { return a.kind <= COUNT ? L : a.type; }
// All documented aggregates of column `col`, which must have the type of the aggregate.
inline size_t allAggs(AggSpec *a) {
  size_t n = 0;
  a[n++] = {COUNT_ALL, 0, 0};
  for (Byte t : TYPES) a[n++] = {COUNT, t, 0};
  for (Byte t : {I, L, F, D}) a[n++] = {SUM, t, 0};
  for (Byte t : {I, L, F, D, S}) { a[n++] = {MAX, t, 0}; a[n++] = {MIN, t, 0}; }
  return n;
}
inline bool lessOf(int32_t a, int32_t b) { return a < b; }
inline bool lessOf(int64_t a, int64_t b) { return a < b; }
inline bool lessOf(float a, float b) { return a < b; }
inline bool lessOf(double a, double b) { return a < b; }
inline bool lessOf(const String &x, const String &y) {
  const std::string &a = *x, &b = *y;
  bool less = a.size() < b.size();
  size_t m = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = m; i-- > 0;) {
    unsigned char p = a[i], q = b[i];
    less = p < q ? true : p > q ? false : less;
  }
  return less;
}
template <typename T> inline Operand extreme(const Operand &acc, const Operand &v, bool max) {
  T a = acc.GetValue<T>(), b = v.GetValue<T>();
  bool less = lessOf(a, b);
  if constexpr (std::is_same_v<T, String>) return sx_split(less) == max ? v : acc;
  else return less == max ? b : a;
}
// One more value: the specification of an aggregate, as a fold.
inline Operand fold(const AggSpec &a, const Operand &acc, const Tuple &row) {
  if (a.kind == COUNT_ALL) return acc == nullptr ? int64_t(1) : int64_t(acc.GetValue<int64_t>() + 1);
  const Operand &v = row[a.col];
  if (v == nullptr) return acc;
  if (a.kind == COUNT) return acc == nullptr ? int64_t(1) : int64_t(acc.GetValue<int64_t>() + 1);
  if (acc == nullptr) return v;
  switch (a.type) {
  case TYPE_INT32: return a.kind == SUM ? Operand((int32_t)((uint32_t)acc.GetValue<int32_t>() + (uint32_t)v.GetValue<int32_t>())) : extreme<int32_t>(acc, v, a.kind == MAX);
  case TYPE_INT64: return a.kind == SUM ? Operand((int64_t)((uint64_t)acc.GetValue<int64_t>() + (uint64_t)v.GetValue<int64_t>())) : extreme<int64_t>(acc, v, a.kind == MAX);
  case TYPE_FLOAT: return a.kind == SUM ? Operand(acc.GetValue<float>() + v.GetValue<float>()) : extreme<float>(acc, v, a.kind == MAX);
  case TYPE_DOUBLE: return a.kind == SUM ? Operand(acc.GetValue<double>() + v.GetValue<double>()) : extreme<double>(acc, v, a.kind == MAX);
  default: return extreme<String>(acc, v, a.kind == MAX);
  }
}
// Equal as an aggregate's result: NaN payloads and the sign of zero are not specified.
inline void sameAgg(const Operand &got, const Operand &want, Byte type, const char *msg) {
  sx_check((got == nullptr) == (want == nullptr), msg);
  if (want == nullptr) return;
  if (type == F) { float x = got.GetValue<float>(), y = want.GetValue<float>(); sx_check((x == y) | ((x != x) & (y != y)), msg); }
  else if (type == D) { double x = got.GetValue<double>(), y = want.GetValue<double>(); sx_check((x == y) | ((x != x) & (y != y)), msg); }
  else sameOperand(got, want, type, msg);
}
inline void observeAgg(const Operand &v, Byte type) {
  if (type == F && v != nullptr) { float x = v.GetValue<float>(); observe("v", x == 0 ? 0.0f : x); }
  else if (type == D && v != nullptr) { double x = v.GetValue<double>(); observe("v", x == 0 ? 0.0 : x); }
  else observeOperand(v, type);
}
// No NaN among the values of a row: which of several values is the smallest is not specified for them.
inline void noNaN(const Operand &v, Byte type) {
  if (v == nullptr) return;
  if (type == F) { float x = v.GetValue<float>(); sx_assume(x == x); }
  if (type == D) { double x = v.GetValue<double>(); sx_assume(x == x); }
}

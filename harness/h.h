// Shared helpers of the harnesses: programs are built as bytes and run through the public API only.
#pragma once
#include <any>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

#include "expr/exception.h"
#include "expr/runner.h"
#include "expr/utils.h"
#include "rel/rel_runner.h"
#include "sym.h"

using namespace dingodb::expr;
using dingodb::rel::RelRunner;

#define ENTRY(n) extern "C" void h_##n()

struct Code {
  Byte b[160];
  size_t n = 0;
  Code &operator<<(int v) { b[n++] = (Byte)v; return *this; }
};

inline Byte varOp(Byte type) { return 0x30 | type; }

template <typename T> struct TypeId;
template <> struct TypeId<int32_t> { static const Byte v = TYPE_INT32; };
template <> struct TypeId<int64_t> { static const Byte v = TYPE_INT64; };
template <> struct TypeId<bool> { static const Byte v = TYPE_BOOL; };
template <> struct TypeId<float> { static const Byte v = TYPE_FLOAT; };
template <> struct TypeId<double> { static const Byte v = TYPE_DOUBLE; };
template <> struct TypeId<String> { static const Byte v = TYPE_STRING; };

template <typename T> T sym(const char *n);
template <> inline int32_t sym<int32_t>(const char *n) { return (int32_t)sx_i32(n); }
template <> inline int64_t sym<int64_t>(const char *n) { return (int64_t)sx_i64(n); }
template <> inline bool sym<bool>(const char *n) { uint8_t v = sx_i8(n); sx_assume(v < 2); return v != 0; }
template <> inline float sym<float>(const char *n) { return sx_f32(n); }
template <> inline double sym<double>(const char *n) { return sx_f64(n); }

// The result equals its specification: same bits, or both NaN (the payload of a NaN is not specified).
inline void same(int32_t a, int32_t b, const char *m) { sx_same((uint32_t)a, (uint32_t)b, 0, m); }
inline void same(int64_t a, int64_t b, const char *m) { sx_same((uint64_t)a, (uint64_t)b, 0, m); }
inline void same(bool a, bool b, const char *m) { sx_same(a, b, 0, m); }
inline void same(float a, float b, const char *m) { sx_same(bits(a), bits(b), 1, m); }
inline void same(double a, double b, const char *m) { sx_same(bits(a), bits(b), 2, m); }

inline void observe(const char *n, int32_t v) { sx_observe(n, (uint32_t)v); }
inline void observe(const char *n, int64_t v) { sx_observe(n, (uint64_t)v); }
inline void observe(const char *n, bool v) { sx_observe(n, v); }
inline void observe(const char *n, float v) { sx_observe(n, v != v ? 0x7fc00000u : bits(v)); }
inline void observe(const char *n, double v) { sx_observe(n, v != v ? 0x7ff8000000000000ull : bits(v)); }
inline void observe(const char *n, const std::string &v) {
  sx_observe(n, v.size());
  for (size_t i = 0; i < v.size(); ++i) sx_observe(n, (unsigned char)v[i]);
}

// An arbitrary floating point value, one path for each binary exponent from -3 to `top`, one for the smaller and one for
// the larger ones: the solver answers much faster.
template <typename T> inline T symByExponent(int top, const char *name) {
  constexpr bool d = sizeof(T) == 8;
  const int mant = d ? 52 : 23, bias = d ? 1023 : 127;
  const uint64_t mask = d ? 0x7ff : 0xff;
  uint64_t b = d ? sx_i64(name) : sx_i32(name), e = (b >> mant) & mask;
  uint32_t k = sx_choice(top + 6, "exponent");
  if (k == 0) sx_assume(e < (uint64_t)(bias - 3));
  else if (k == (uint32_t)top + 5) sx_assume(e > (uint64_t)(bias + top));
  else {
    sx_assume(e == (uint64_t)(bias - 4 + k));
    b = (b & ~(mask << mant)) | (uint64_t)(bias - 4 + k) << mant;
  }
  if (d) { double v; memcpy(&v, &b, 8); return (T)v; }
  uint32_t w = (uint32_t)b;
  float v;
  memcpy(&v, &w, 4);
  return (T)v;
}

// Decodes `c`, runs it over `t` and leaves the result on the stack of `r`.
inline void decode(Runner &r, const Code &c) {
  Byte *b = new Byte[c.n];  // exactly the program, so that reading past it is seen
  memcpy(b, c.b, c.n);
  const Byte *e = r.Decode(b, c.n);
  sx_check(e == b + c.n, "Decode consumes the whole program");
  delete[] b;
}
inline void runOn(Runner &r, const Code &c, const Tuple *t) {
  decode(r, c);
  r.BindTuple(t);
  r.Run();
}

inline Operand runOn(const Code &c, const Tuple *t) {
  Runner r;
  runOn(r, c, t);
  return r.Get();
}

// Runs `op...` over one, two or three variables of the given types.
inline Operand apply1(Byte t0, const Operand &a, std::initializer_list<int> op) {
  Tuple t;
  t.push_back(a);
  Code c;
  c << varOp(t0) << 0;
  for (int b : op) c << b;
  return runOn(c, &t);
}
inline Operand apply2(Byte t0, const Operand &a, Byte t1, const Operand &b, std::initializer_list<int> op) {
  Tuple t;
  t.push_back(a);
  t.push_back(b);
  Code c;
  c << varOp(t0) << 0 << varOp(t1) << 1;
  for (int o : op) c << o;
  return runOn(c, &t);
}
inline Operand apply3(Byte t0, const Operand &a, Byte t1, const Operand &b, Byte t2, const Operand &d, std::initializer_list<int> op) {
  Tuple t;
  t.push_back(a);
  t.push_back(b);
  t.push_back(d);
  Code c;
  c << varOp(t0) << 0 << varOp(t1) << 1 << varOp(t2) << 2;
  for (int o : op) c << o;
  return runOn(c, &t);
}

template <typename T> inline void expectValue(const Operand &r, T want, const char *msg) {
  sx_check(r != nullptr, msg);
  T got = r.GetValue<T>();
  observe("r", got);
  same(got, want, msg);
}
inline void expectNull(const Operand &r, const char *msg) {
  sx_observe("null", r == nullptr);
  sx_check(r == nullptr, msg);
}

// A string of `n` arbitrary bytes.
inline std::string symString(size_t n, const char *name) {
  std::string s(n, '\0');
  if (n) sx_bytes(&s[0], n, name);
  return s;
}
inline std::string symStringUpTo(uint32_t max, const char *name) { return symString(sx_choice(max + 1, "len"), name); }

// An arbitrary non-NULL operand of a type.
inline Operand symOperand(Byte type, uint32_t maxLen, const char *name) {
  switch (type) {
  case TYPE_INT32: return sym<int32_t>(name);
  case TYPE_INT64: return sym<int64_t>(name);
  case TYPE_BOOL: return sym<bool>(name);
  case TYPE_FLOAT: return sym<float>(name);
  case TYPE_DOUBLE: return sym<double>(name);
  default: return String(symStringUpTo(maxLen, name));
  }
}
inline Operand symOrNull(Byte type, uint32_t maxLen, const char *name) {
  if (sx_choice(2, "isnull")) return nullptr;
  return symOperand(type, maxLen, name);
}

static const Byte TYPES[] = {TYPE_INT32, TYPE_INT64, TYPE_BOOL, TYPE_FLOAT, TYPE_DOUBLE, TYPE_STRING};

// Is `v` a value of exactly `type` (and not NULL)?
inline bool hasType(const Operand &v, Byte type) {
  try {
    switch (type) {
    case TYPE_INT32: (void)v.GetValue<int32_t>(); return true;
    case TYPE_INT64: (void)v.GetValue<int64_t>(); return true;
    case TYPE_BOOL: (void)v.GetValue<bool>(); return true;
    case TYPE_FLOAT: (void)v.GetValue<float>(); return true;
    case TYPE_DOUBLE: (void)v.GetValue<double>(); return true;
    case TYPE_STRING: (void)v.GetValue<String>(); return true;
    }
  } catch (const std::bad_variant_access &) {
  }
  return false;
}

// Same type, same contents bit for bit (strings byte for byte), or both NULL.
inline void sameOperand(const Operand &a, const Operand &b, Byte type, const char *msg) {
  if (b == nullptr) { sx_check(a == nullptr, msg); return; }
  sx_check(a != nullptr, msg);
  switch (type) {
  case TYPE_INT32: same(a.GetValue<int32_t>(), b.GetValue<int32_t>(), msg); break;
  case TYPE_INT64: same(a.GetValue<int64_t>(), b.GetValue<int64_t>(), msg); break;
  case TYPE_BOOL: same(a.GetValue<bool>(), b.GetValue<bool>(), msg); break;
  case TYPE_FLOAT: sx_same(bits(a.GetValue<float>()), bits(b.GetValue<float>()), 0, msg); break;
  case TYPE_DOUBLE: sx_same(bits(a.GetValue<double>()), bits(b.GetValue<double>()), 0, msg); break;
  default: {
    String x = a.GetValue<String>(), y = b.GetValue<String>();
    sx_check(x->size() == y->size(), msg);
    sx_check(memcmp(x->data(), y->data(), x->size()) == 0, msg);
  }
  }
}
inline void observeOperand(const Operand &v, Byte type) {
  sx_observe("isnull", v == nullptr);
  if (v == nullptr) return;
  switch (type) {
  case TYPE_INT32: observe("v", v.GetValue<int32_t>()); break;
  case TYPE_INT64: observe("v", v.GetValue<int64_t>()); break;
  case TYPE_BOOL: observe("v", v.GetValue<bool>()); break;
  case TYPE_FLOAT: observe("v", v.GetValue<float>()); break;
  case TYPE_DOUBLE: observe("v", v.GetValue<double>()); break;
  default: observe("v", *v.GetValue<String>());
  }
}
inline void expectString(const Operand &r, const std::string &want, const char *msg) {
  sx_check(r != nullptr, msg);
  String s = r.GetValue<String>();
  observe("r", *s);
  sx_check(s->size() == want.size(), msg);
  sx_check(memcmp(s->data(), want.data(), want.size()) == 0, msg);
}

// --- the documented operators -----------------------------------------------------------------
struct Op {
  Byte code[2];
  Byte len;       // bytes of code
  Byte arity;
  Byte arg[3];    // operand types
  Byte res;       // result type
  bool strict;    // NULL operand => NULL result
};
inline Op op1(Byte a, Byte b, Byte t, Byte r, bool strict = true) { return Op{{a, b}, 2, 1, {t, 0, 0}, r, strict}; }
inline Op op2(Byte a, Byte b, Byte t0, Byte t1, Byte r) { return Op{{a, b}, 2, 2, {t0, t1, 0}, r, true}; }
inline Op op3(Byte a, Byte b, Byte t0, Byte t1, Byte t2, Byte r) { return Op{{a, b}, 2, 3, {t0, t1, t2}, r, true}; }

static const Byte I = TYPE_INT32, L = TYPE_INT64, B = TYPE_BOOL, F = TYPE_FLOAT, D = TYPE_DOUBLE, S = TYPE_STRING;

// Groups: 0 arithmetic, 1 comparison, 2 predicates, 3 min/max/abs, 4 casts, 5 checked casts, 6 functions, 7 connectives
static const uint32_t OP_GROUPS = 8;
inline size_t opGroup(uint32_t g, Op *o) {
  size_t n = 0;
  const Byte num[] = {I, L, F, D};
  switch (g) {
  case 0:
    for (Byte t : num) { o[n++] = op1(0x81, t, t, t); o[n++] = op1(0x82, t, t, t); }
    for (Byte t : num) for (Byte c = 0x83; c <= 0x86; ++c) o[n++] = op2(c, t, t, t, t);
    o[n++] = op2(0x87, I, I, I, I);
    o[n++] = op2(0x87, L, L, L, L);
    o[n++] = op2(0x83, S, S, S, S);
    break;
  case 1:
    for (Byte t : TYPES) for (Byte c = 0x91; c <= 0x96; ++c) o[n++] = op2(c, t, t, t, B);
    break;
  case 2:
    for (Byte t : TYPES) for (Byte c = 0xA1; c <= 0xA3; ++c) o[n++] = op1(c, t, t, B, false);
    break;
  case 3:
    for (Byte t : TYPES) { o[n++] = op2(0xB1, t, t, t, t); o[n++] = op2(0xB2, t, t, t, t); }
    for (Byte t : num) { o[n++] = op1(0xB3, t, t, t); o[n++] = op1(0xB4, t, t, t); }
    break;
  case 4:
  case 5:
    for (Byte d : TYPES)
      for (Byte s : TYPES)
        if (d != s && !(d == B && s == S)) o[n++] = op1(g == 4 ? 0xF0 : 0xFC, (d << 4) | s, s, d);
    break;
  case 6:
    for (Byte f = 0x01; f <= 0x11; ++f) if (f < 3 || f > 6) o[n++] = op1(0xF1, f, D, D);
    o[n++] = op2(0xF1, 0x21, S, S, S);
    o[n++] = op1(0xF1, 0x22, S, S);
    o[n++] = op1(0xF1, 0x23, S, S);
    o[n++] = op2(0xF1, 0x24, S, I, S);
    o[n++] = op2(0xF1, 0x25, S, I, S);
    o[n++] = op1(0xF1, 0x26, S, S);
    o[n++] = op1(0xF1, 0x28, S, S);
    o[n++] = op1(0xF1, 0x2A, S, S);
    o[n++] = op3(0xF1, 0x2C, S, I, I, S);
    o[n++] = op2(0xF1, 0x2D, S, I, S);
    o[n++] = op3(0xF1, 0x2E, S, I, I, S);
    o[n++] = op2(0xF1, 0x2F, S, I, S);
    break;
  case 7:
    o[n++] = Op{{0x51, 0}, 1, 1, {B, 0, 0}, B, false};
    o[n++] = Op{{0x52, 0}, 1, 2, {B, B, 0}, B, false};
    o[n++] = Op{{0x53, 0}, 1, 2, {B, B, 0}, B, false};
    break;
  }
  return n;
}
static const size_t MAX_OPS = 64;

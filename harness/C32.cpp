// C32: optional-value adaptors are lossless.
#include "h.h"
namespace ad = dingodb::expr::any_optional_data_adaptor;
template <typename T> static void there(const std::optional<T> &v) {
  const Byte ty = TypeId<T>::v;
  Operand o = ad::ToOperand<T>(std::any(v));
  sx_check((o == nullptr) == !v.has_value(), "NULL exactly for an empty optional");
  if (v) {
    sx_check(hasType(o, ty), "the type is kept");
    observe("v", o.GetValue<T>());
    T w = o.GetValue<T>();
    sx_check(memcmp(&w, &*v, sizeof w) == 0, "the value is kept");
  }
  std::any back = ad::FromOperand<T>(o);
  const std::optional<T> *p = std::any_cast<std::optional<T>>(&back);
  sx_check(p != nullptr, "an optional of the same type");
  sx_check(p->has_value() == v.has_value(), "empty stays empty");
  if (v) { T w = **p; sx_check(memcmp(&w, &*v, sizeof w) == 0, "the value comes back unchanged"); sx_reach("value"); }
  else sx_reach("empty");
}
template <typename T> static void scalar() {
  std::optional<T> v;
  if (sx_choice(2, "present")) v = sym<T>("v");
  there(v);
  // and the other way: from an operand
  Operand o = v ? Operand(*v) : Operand(nullptr);
  std::any a = ad::FromOperand<T>(o);
  Operand p = ad::ToOperand<T>(a);
  sameOperand(p, o, TypeId<T>::v, "an operand comes back unchanged");
}
ENTRY(C32_i32) { scalar<int32_t>(); }
ENTRY(C32_i64) { scalar<int64_t>(); }
ENTRY(C32_bool) { scalar<bool>(); }
ENTRY(C32_f32) { scalar<float>(); }
ENTRY(C32_f64) { scalar<double>(); }
// params: string length
ENTRY(C32_str) {
  typedef std::shared_ptr<std::string> P;
  std::optional<P> v;
  std::string s = symStringUpTo(sx_param(0), "s");
  if (sx_choice(2, "present")) v = std::make_shared<std::string>(s);
  Operand o = ad::ToOperand<P>(std::any(v));
  sx_check((o == nullptr) == !v.has_value(), "NULL exactly for an empty optional");
  if (v) {
    sx_check(hasType(o, S), "the type is kept");
    String t = o.GetValue<String>();
    sx_check(t.GetPtr().get() == v->get(), "the string is shared");
    sx_check(t->size() == s.size() && memcmp(t->data(), s.data(), s.size()) == 0, "the contents are kept");
  }
  std::any back = ad::FromOperand<P>(o);
  const std::optional<P> *p = std::any_cast<std::optional<P>>(&back);
  sx_check(p != nullptr, "an optional of the same type");
  sx_check(p->has_value() == v.has_value(), "empty stays empty");
  if (v) {
    sx_check(p->value().get() == v->get(), "the string is shared");
    sx_check((*p)->get()->size() == s.size() && memcmp((*p)->get()->data(), s.data(), s.size()) == 0, "the contents are kept");
    sx_reach("value");
  } else sx_reach("empty");
}
template <typename T> static bool present(const Operand &o, T want) {
  std::any back = ad::FromOperand<T>(o);
  auto *p = std::any_cast<std::optional<T>>(&back);
  return p && p->has_value() && p->value() == want;
}
// Arrays are shared pointers.
template <typename T> static void array() {
  typedef std::shared_ptr<std::vector<T>> P;
  std::optional<P> v;
  if (sx_choice(2, "present")) v = std::make_shared<std::vector<T>>(sx_choice(3, "size"));
  Operand o = ad::ToOperand<P>(std::any(v));
  sx_check((o == nullptr) == !v.has_value(), "NULL exactly for an empty optional");
  std::any back = ad::FromOperand<P>(o);
  auto *p = std::any_cast<std::optional<P>>(&back);
  sx_check(p && p->has_value() == v.has_value(), "empty stays empty");
  if (v) { sx_check(p->value() == *v && present<P>(o, *v), "the array is shared"); sx_reach("value"); }
}
ENTRY(C32_array) {
  switch (sx_choice(6, "type")) {
  case 0: array<int32_t>(); break;
  case 1: array<int64_t>(); break;
  case 2: array<bool>(); break;
  case 3: array<float>(); break;
  case 4: array<double>(); break;
  case 5: array<std::string>(); break;
  }
}
// The result of an expression read as an optional: a variable, and a computed value.
template <typename T> static void result(const Operand &v) {
  const Byte ty = TypeId<T>::v;
  Tuple t{v};
  Runner r;
  Code c;
  c << varOp(ty) << 0;
  runOn(r, c, &t);
  std::optional<T> o = r.GetOptional<T>();
  sx_check(o.has_value() == (v != nullptr), "empty exactly when the result is NULL");
  if (o) { sameOperand(Operand(*o), v, ty, "the value of the result"); sx_reach("value"); }
  else sx_reach("empty");
}
// params: string length
ENTRY(C32_result) {
  switch (sx_choice(6, "type")) {
  case 0: result<int32_t>(symOrNull(I, 0, "v")); break;
  case 1: result<int64_t>(symOrNull(L, 0, "v")); break;
  case 2: result<bool>(symOrNull(B, 0, "v")); break;
  case 3: result<float>(symOrNull(F, 0, "v")); break;
  case 4: result<double>(symOrNull(D, 0, "v")); break;
  case 5: result<String>(symOrNull(S, sx_param(0), "v")); break;
  }
}

From 0eacaf4692301a73fa76f3b0e9f5a72b9829bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 01/13] fix: dividing the smallest integer by -1 no longer
 traps

---
 src/expr/calc/arithmetic.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/expr/calc/arithmetic.h b/src/expr/calc/arithmetic.h
index 5d26385..c843c13 100644
--- a/src/expr/calc/arithmetic.h
+++ b/src/expr/calc/arithmetic.h
@@ -15,6 +15,8 @@
 #ifndef _EXPR_CALC_ARITHMETIC_H_
 #define _EXPR_CALC_ARITHMETIC_H_
 
+#include <type_traits>
+
 #include "../operand.h"
 
 namespace dingodb::expr::calc {
@@ -47,6 +49,11 @@ T Mul(T v0, T v1) {
 template <typename T>
 Operand Div(T v0, T v1) {
   if (v1 != 0) {
+    if constexpr (std::is_integral_v<T>) {
+      if (v1 == -1) {  // the quotient may exceed the limits of T, and the CPU traps
+        return static_cast<T>(0 - static_cast<std::make_unsigned_t<T>>(v0));
+      }
+    }
     return v0 / v1;
   }
   return nullptr;
@@ -55,6 +62,9 @@ Operand Div(T v0, T v1) {
 template <typename T>
 Operand Mod(T v0, T v1) {
   if (v1 != 0) {
+    if (v1 == -1) {  // the quotient may exceed the limits of T, and the CPU traps
+      return static_cast<T>(0);
+    }
     return v0 % v1;
   }
   return nullptr;
-- 
2.43.0


From 822e3bc8e0bdef3750dfb513a3e95a84fe31407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:18 +0000
Subject: [PATCH 02/13] fix: reject type codes the operator tables do not have

The type byte of a two-byte operator, and both type nibbles of a cast,
indexed the operator tables unchecked.
---
 src/expr/operator_vector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index d369f69..15a98db 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -374,6 +374,9 @@ eoe:
 }
 
 bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
+  if (type >= TYPE_NUM) {
+    return false;
+  }
   const auto *op = ops[type];
   if (op != nullptr) {
     Add(op);
@@ -385,6 +388,9 @@ bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
 bool OperatorVector::AddCastOperator(const Operator *const ops[][TYPE_NUM], Byte b) {
   Byte dst = (Byte)(b >> 4);
   Byte src = (Byte)(b & 0x0F);
+  if (dst >= TYPE_NUM || src >= TYPE_NUM) {
+    return false;
+  }
   if (dst == src) {
     return true;
   }
-- 
2.43.0


From b63033122b3cdd0c80b3cd68815c982058f32ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:18 +0000
Subject: [PATCH 03/13] fix: reject DECIMAL constants instead of skipping their
 code

DECIMAL is not supported yet; the code byte was dropped silently and the
bytes of the constant were decoded as operators.
---
 src/expr/operator_vector.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 15a98db..60456f5 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -152,11 +152,10 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
-    case CONST_DECIMAL: {
-      ++p;
+    case CONST_DECIMAL:
       // TODO
+      successful = false;
       break;
-    }
     case CONST_STRING: {
       ++p;
       String v;
-- 
2.43.0


From 797d281545ffe5b5c91ac896673f530b072fc8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:40 +0000
Subject: [PATCH 04/13] fix: decoding no longer reads past the end of the code

A truncated varint, floating-point number, string or two-byte operator
made the decoder read beyond the buffer it was given.
---
 src/expr/codec.cc           | 45 +++++++++++++++++++++---------------
 src/expr/codec.h            | 27 +++++++++++-----------
 src/expr/exception.h        |  9 ++++++++
 src/expr/operator_vector.cc | 33 +++++++++++++++-----------
 src/rel/rel_runner.cc       | 46 ++++++++++++++++++-------------------
 src/rel/rel_runner.h        |  8 +++----
 6 files changed, 96 insertions(+), 72 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 014bb00..96ed70d 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -24,12 +24,18 @@
 
 namespace dingodb::expr {
 
+static void CheckRemaining(const Byte *data, const Byte *end, size_t required) {
+  if (end - data < required) {
+    throw UnexpectedEnd(required, end - data);
+  }
+}
+
 template <typename T>
-static const Byte *DecodeVarint(T &value, const Byte *data) {
+static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
   value = 0;
   const Byte *p;
   int shift = 0;
-  for (p = data; ((*p) & 0x80) != 0; ++p) {
+  for (p = data; CheckRemaining(p, end, 1), ((*p) & 0x80) != 0; ++p) {
     value |= ((T)(*p & 0x7F) << shift);
     shift += 7;
   }
@@ -38,53 +44,56 @@ static const Byte *DecodeVarint(T &value, const Byte *data) {
 }
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data) {
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end) {
+  CheckRemaining(data, end, 4);
   uint32_t l = be32toh(*(uint32_t *)data);
   value = *(float *)&l;
   return data + 4;
 }
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data) {
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end) {
+  CheckRemaining(data, end, 8);
   uint64_t l = be64toh(*(uint64_t *)data);
   value = *(double *)&l;
   return data + 8;
 }
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data) {
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end) {
   uint32_t len;
-  const Byte *p = DecodeValue(len, data);
+  const Byte *p = DecodeValue(len, data, end);
+  CheckRemaining(p, end, len);
   value = String(reinterpret_cast<const char *>(p), len);
   return p + len;
 }
diff --git a/src/expr/codec.h b/src/expr/codec.h
index d33bad7..718778e 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -29,44 +29,45 @@ namespace dingodb::expr {
  * @tparam T type of the value
  * @param value reference to the value
  * @param data code buffer
+ * @param end end of the code buffer
  * @return const Byte* point to the next byte of the bytes used
  */
 template <typename T>
-const Byte *DecodeValue(T &value, const Byte *data);
+const Byte *DecodeValue(T &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data);
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data);
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data);
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
   int i;
   for (i = 0; i < count && p < code + len; ++i) {
-    p = DecodeValue(container[i], p);
+    p = DecodeValue(container[i], p, code + len);
   }
   if (i < count) {
     throw MoreElementsRequired(count, i);
@@ -77,7 +78,7 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
 template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -86,7 +87,7 @@ template <typename T>
 const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
diff --git a/src/expr/exception.h b/src/expr/exception.h
index e66b7d5..d9ec359 100644
--- a/src/expr/exception.h
+++ b/src/expr/exception.h
@@ -55,6 +55,15 @@ class MoreElementsRequired : public ExprError {
   }
 };
 
+class UnexpectedEnd : public ExprError {
+ public:
+  UnexpectedEnd(size_t required, size_t actual)
+      : ExprError(
+            "Decoding requires " + std::to_string(required) + " more bytes, but " + std::to_string(actual) +
+            " provided.") {
+  }
+};
+
 }  // namespace dingodb::expr
 
 #endif /* _EXPR_EXCEPTION_H_ */
diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 60456f5..5b8c17c 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -95,6 +95,11 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
   const Byte *b;
   while (successful && p < code + len) {
     b = p;
+    if (((*p) & 0x80) != 0 && p + 1 == code + len) {
+      // The second byte is missing.
+      successful = false;
+      break;
+    }
     switch (*p) {
     case NULL_INT32:
       ++p;
@@ -123,14 +128,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(v));
       break;
     }
     case CONST_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(v));
       break;
     }
@@ -141,14 +146,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_FLOAT: {
       ++p;
       float v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_FLOAT>(v));
       break;
     }
     case CONST_DOUBLE: {
       ++p;
       double v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
@@ -159,21 +164,21 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_STRING: {
       ++p;
       String v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_STRING>(v));
       break;
     }
     case CONST_N_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(-v));
       break;
     }
     case CONST_N_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(-v));
       break;
     }
@@ -184,49 +189,49 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case VAR_I_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT32>(v));
       break;
     }
     case VAR_I_INT64: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT64>(v));
       break;
     }
     case VAR_I_BOOL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_BOOL>(v));
       break;
     }
     case VAR_I_FLOAT: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_FLOAT>(v));
       break;
     }
     case VAR_I_DOUBLE: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DOUBLE>(v));
       break;
     }
     case VAR_I_DECIMAL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DECIMAL>(v));
       break;
     }
     case VAR_I_STRING: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_STRING>(v));
       break;
     }
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 96bfe85..eef7054 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -120,7 +120,7 @@ void RelRunner::AppendOp(RelOp *op) {
 namespace dingodb::expr {
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, const Byte *end) {
   const expr::Byte *p = data;
   ++p;
   agg = new rel::op::CountAllAgg();
@@ -128,71 +128,71 @@ const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte
 }
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data) {
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end) {
   const Byte *p = data;
   switch (*p) {
   case rel::AGG_COUNT_ALL:
-    p = DecodeAgg<rel::op::CountAllAgg>(value, p);
+    p = DecodeAgg<rel::op::CountAllAgg>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT32:
-    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT64:
-    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_BOOL:
-    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::CountAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<float>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::CountAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<double>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_STRING:
-    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT32:
-    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT64:
-    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::SumAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<float>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::SumAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT32:
-    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT64:
-    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_STRING:
-    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT32:
-    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT64:
-    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MinAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<float>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MinAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<double>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_STRING:
-    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p, end);
     break;
   default:
     throw ExprError("Unknown aggregation type: " + HexOfBytes(data, 1));
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index a505af9..aade21a 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -49,20 +49,20 @@ class RelRunner {
 namespace dingodb::expr {
 
 template <class AGG>
-const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data, const Byte *end) {
   const Byte *p = data;
   ++p;
   int32_t index;
-  p = DecodeValue(index, p);
+  p = DecodeValue(index, p, end);
   agg = new AGG(index);
   return p;
 }
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data);
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data);
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end);
 
 }  // namespace dingodb::expr
 
-- 
2.43.0


From 09eba0d47900e12e5d70d8a900c2eab2c90ad448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:42 +0000
Subject: [PATCH 05/13] fix: bits of a varint beyond the width of its type are
 dropped

A shift by the width of the type or more is undefined; on x86 it wrapped
around, so -1 as protobuf encodes it in an INT32 (ten bytes) decoded to a
different number only by luck of the low bits, and zero-padded varints of
other values could be corrupted.
---
 src/expr/codec.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 96ed70d..6339c81 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -32,14 +32,19 @@ static void CheckRemaining(const Byte *data, const Byte *end, size_t required) {
 
 template <typename T>
 static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
+  const int BITS = sizeof(T) * 8;
   value = 0;
   const Byte *p;
   int shift = 0;
   for (p = data; CheckRemaining(p, end, 1), ((*p) & 0x80) != 0; ++p) {
-    value |= ((T)(*p & 0x7F) << shift);
-    shift += 7;
+    if (shift < BITS) {
+      value |= ((T)(*p & 0x7F) << shift);
+      shift += 7;
+    }
+  }
+  if (shift < BITS) {
+    value |= ((T)(*p) << shift);
   }
-  value |= ((T)(*p) << shift);
   return p + 1;
 }
 
-- 
2.43.0


From d588caf4dccc6046d68bf40a710bf91e8fed926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 06/13] fix: SUBSTR gives an empty string for a range outside
 the string

A begin position behind the end of the string made std::string::substr
throw std::out_of_range, and an end position before the begin position
gave the rest of the string.
---
 src/expr/calc/string_fun.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 9337ee4..038f4dc 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -93,6 +93,9 @@ String Substr(String v0, int32_t v1, int32_t v2) {
   if (v1 < 0) {
     v1 = 0;
   }
+  if (v1 >= len || v1 >= v2) {
+    return String();
+  }
   if (v1 == 0) {
     if (v2 >= len) {
       return v0;
@@ -115,6 +118,8 @@ String Substr(String v0, int32_t v1) {
   }
   if (v1 == 0) {
     return v0;
+  } else if (v1 >= len) {
+    return String();
   } else {
     return v0->substr(v1);
   }
-- 
2.43.0


From 63cb01373e1f96ec10514b4a257b91ecac5fdabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:34 +0000
Subject: [PATCH 07/13] fix: MID no longer overflows on large lengths

start + length overflowed int, so a length near the largest int was an
undefined computation.
---
 src/expr/calc/string_fun.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 038f4dc..12065dd 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -135,7 +135,7 @@ String Mid(String v0, int32_t v1, int32_t v2) {
     } else {
       return String();
     }
-    if (v1 + v2 >= len) {
+    if (v2 >= len - v1) {
       return v0->substr(v1);
     } else {
       return v0->substr(v1, v2);
-- 
2.43.0


From c98ba77d050d06a812939f145ff45eee50e0a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 08/13] fix: an operator that finds too few operands raises an
 error

Taking a value from the empty operand stack was undefined behaviour, so
a malformed expression, or reading the result of an empty one, corrupted
memory.
---
 src/expr/operand_stack.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr/operand_stack.h b/src/expr/operand_stack.h
index 0a80ff1..018205b 100644
--- a/src/expr/operand_stack.h
+++ b/src/expr/operand_stack.h
@@ -30,10 +30,12 @@ class OperandStack {
   virtual ~OperandStack() = default;
 
   void Pop() {
+    CheckNotEmpty();
     m_stack.pop_back();
   }
 
   Operand Get() const {
+    CheckNotEmpty();
     return m_stack.back();
   }
 
@@ -84,6 +86,12 @@ class OperandStack {
  private:
   std::deque<Operand> m_stack;
   const Tuple *m_tuple;
+
+  void CheckNotEmpty() const {
+    if (m_stack.empty()) {
+      throw std::runtime_error("Too few operands.");
+    }
+  }
 };
 
 }  // namespace dingodb::expr
-- 
2.43.0


From ea794e2f911774748f64f11aac469139ceef910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:19 +0000
Subject: [PATCH 09/13] fix: an element count beyond the remaining bytes is an
 error

The count was used to allocate the array first, so a few bytes of code
could ask for any amount of memory; a count above the largest int would
have been compared with a wrapped index.
---
 src/expr/codec.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index 718778e..3ace006 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -62,6 +62,17 @@ const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 template <>
 const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
+/**
+ * @brief Decode the number of elements which follow it, each of which takes at least one byte.
+ */
+inline const Byte *DecodeCount(size_t &count, const Byte *code, size_t len) {
+  const Byte *p = DecodeValue(count, code, code + len);
+  if (count > code + len - p) {
+    throw MoreElementsRequired(count, code + len - p);
+  }
+  return p;
+}
+
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
@@ -78,7 +89,7 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
 template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
-  p = DecodeValue(count, p, code + len);
+  p = DecodeCount(count, p, len);
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -87,7 +98,7 @@ template <typename T>
 const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
-  p = DecodeValue(count, p, code + len);
+  p = DecodeCount(count, p, len);
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
-- 
2.43.0


From 152748b2b0039a082e1eebfcdbb5be49feb5b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:19 +0000
Subject: [PATCH 10/13] fix: check the array code of a grouped aggregation in
 every build

The check was an assertion, which release builds leave out: any byte was
taken for ARRAY<INT32>, and a missing one was read past the end.
---
 src/rel/rel_runner.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index eef7054..7054688 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,8 +14,6 @@
 
 #include "rel_runner.h"
 
-#include <cassert>
-
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -71,7 +69,10 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     }
     case GROUPED_AGGREGATE: {
       ++p;
-      assert(*p == ARRAY_INT32);
+      if (p == code + len || *p != ARRAY_INT32) {
+        successful = false;
+        break;
+      }
       ++p;
       int32_t *groupe_indices;
       size_t count;
-- 
2.43.0


From 12137d421aa91776df7e1a92a9dbe8f682e2f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 11/13] fix: accept the trailing end-of-expression byte of
 aggregations

The encoding documents EOE as the trailing byte of every relational
operator, but after an aggregation it was rejected as an unknown
instruction. Encodings without it are still accepted.
---
 src/rel/rel_runner.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 7054688..d24a2e5 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -32,12 +32,21 @@ static const expr::Byte UNGROUPED_AGGREGATE = 0x74;
 static const expr::Byte ARRAY_PREFIX = 0x60;
 static const expr::Byte ARRAY_INT32 = ARRAY_PREFIX | expr::TYPE_INT32;
 
+static const expr::Byte EOE = 0x00;
+
 static const expr::Byte AGG_COUNT_ALL = 0x10;
 static const expr::Byte AGG_COUNT = 0x10;
 static const expr::Byte AGG_SUM = 0x20;
 static const expr::Byte AGG_MAX = 0x30;
 static const expr::Byte AGG_MIN = 0x40;
 
+/**
+ * @brief Skip the trailing byte of an aggregation, if there is one.
+ */
+static const expr::Byte *SkipEoe(const expr::Byte *p, const expr::Byte *end) {
+  return (p < end && *p == EOE) ? p + 1 : p;
+}
+
 RelRunner::RelRunner() : m_op(nullptr) {
 }
 
@@ -80,6 +89,7 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       std::vector<const op::Agg *> *aggs;
       p = expr::DecodeVector(aggs, p, code + len - p);
       AppendOp(new op::GroupedAggOp(groupe_indices, count, aggs));
+      p = SkipEoe(p, code + len);
       break;
     }
     case UNGROUPED_AGGREGATE: {
@@ -87,6 +97,7 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       std::vector<const op::Agg *> *aggs;
       p = expr::DecodeVector(aggs, p, code + len - p);
       AppendOp(new op::UngroupedAggOp(aggs));
+      p = SkipEoe(p, code + len);
       break;
     }
     default:
-- 
2.43.0


From d5f5e26c89d72f2cc5d20e3c29b32a89f5a984ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:09 +0000
Subject: [PATCH 12/13] fix: release the row put in when its evaluation raises
 an error

A relational operator owns the row put in, but when an expression or an
aggregation threw, nobody released it; in a chain the caller cannot.
---
 src/rel/op/agg_op.cc     | 4 +++-
 src/rel/op/filter_op.cc  | 6 ++++--
 src/rel/op/project_op.cc | 4 +++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rel/op/agg_op.cc b/src/rel/op/agg_op.cc
index 3e827d9..81b3eeb 100644
--- a/src/rel/op/agg_op.cc
+++ b/src/rel/op/agg_op.cc
@@ -12,6 +12,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <memory>
+
 #include "ungrouped_agg_op.h"
 
 namespace dingodb::rel::op {
@@ -27,13 +29,13 @@ AggOp::~AggOp() {
 }
 
 void AggOp::AddToCache(expr::Tuple *&cache, const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> guard(tuple);
   if (cache == nullptr) {
     cache = new expr::Tuple(m_aggs->size());
   }
   for (int i = 0; i < m_aggs->size(); ++i) {
     (*cache)[i] = (*m_aggs)[i]->Add((*cache)[i], tuple);
   }
-  delete tuple;
 }
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/op/filter_op.cc b/src/rel/op/filter_op.cc
index 488a978..a984264 100644
--- a/src/rel/op/filter_op.cc
+++ b/src/rel/op/filter_op.cc
@@ -14,6 +14,8 @@
 
 #include "filter_op.h"
 
+#include <memory>
+
 #include "../../expr/calc/special.h"
 #include "../../expr/runner.h"
 
@@ -27,13 +29,13 @@ FilterOp::~FilterOp() {
 }
 
 const expr::Tuple *FilterOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> guard(tuple);
   m_filter->BindTuple(tuple);
   m_filter->Run();
   auto v = m_filter->Get();
   if (expr::calc::IsTrue<bool>(v)) {
-    return tuple;
+    return guard.release();
   }
-  delete tuple;
   return nullptr;
 }
 
diff --git a/src/rel/op/project_op.cc b/src/rel/op/project_op.cc
index ba9f33e..84fbf6e 100644
--- a/src/rel/op/project_op.cc
+++ b/src/rel/op/project_op.cc
@@ -14,6 +14,8 @@
 
 #include "project_op.h"
 
+#include <memory>
+
 #include "../../expr/runner.h"
 
 namespace dingodb::rel::op {
@@ -26,9 +28,9 @@ ProjectOp::~ProjectOp() {
 }
 
 const expr::Tuple *ProjectOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> guard(tuple);
   m_projects->BindTuple(tuple);
   m_projects->Run();
-  delete tuple;
   return m_projects->GetAll();
 }
 
-- 
2.43.0


From 5ef1f55b42b0c42f07c2879a7a22b2e62b78b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 13/13] fix: decoding relational code that is in error no
 longer leaks

The expressions, group indices and aggregations decoded before the error
were never released.
---
 src/expr/codec.h      |  7 +++++--
 src/rel/rel_runner.cc | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index 3ace006..482086b 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -16,6 +16,7 @@
 #define _EXPR_CODEC_H_
 
 #include <cstddef>
+#include <memory>
 #include <vector>
 
 #include "exception.h"
@@ -90,8 +91,10 @@ template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
   p = DecodeCount(count, p, len);
-  arr = new T[count];
-  return DecodeElements(arr, count, p, code + len - p);
+  std::unique_ptr<T[]> elements(new T[count]);
+  p = DecodeElements(elements, count, p, code + len - p);
+  arr = elements.release();
+  return p;
 }
 
 template <typename T>
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index d24a2e5..31d9f3b 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,6 +14,8 @@
 
 #include "rel_runner.h"
 
+#include <memory>
+
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -47,6 +49,24 @@ static const expr::Byte *SkipEoe(const expr::Byte *p, const expr::Byte *end) {
   return (p < end && *p == EOE) ? p + 1 : p;
 }
 
+/**
+ * @brief Decode an array of aggregations, leaving nothing allocated if there is an error.
+ */
+static const expr::Byte *DecodeAggs(std::vector<const op::Agg *> *&aggs, const expr::Byte *code, size_t len) {
+  aggs = nullptr;
+  try {
+    return expr::DecodeVector(aggs, code, len);
+  } catch (...) {
+    if (aggs != nullptr) {
+      for (const auto *agg : *aggs) {
+        delete agg;
+      }
+      delete aggs;
+    }
+    throw;
+  }
+}
+
 RelRunner::RelRunner() : m_op(nullptr) {
 }
 
@@ -64,16 +84,16 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     switch (*p) {
     case FILTER_OP: {
       ++p;
-      auto *filter = new expr::Runner();
+      auto filter = std::make_unique<expr::Runner>();
       p = filter->Decode(p, code + len - p);
-      AppendOp(new op::FilterOp(filter));
+      AppendOp(new op::FilterOp(filter.release()));
       break;
     }
     case PROJECT_OP: {
       ++p;
-      auto *projects = new expr::Runner();
+      auto projects = std::make_unique<expr::Runner>();
       p = projects->Decode(p, code + len - p);
-      AppendOp(new op::ProjectOp(projects));
+      AppendOp(new op::ProjectOp(projects.release()));
       break;
     }
     case GROUPED_AGGREGATE: {
@@ -86,16 +106,17 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       int32_t *groupe_indices;
       size_t count;
       p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
+      std::unique_ptr<int32_t[]> guard(groupe_indices);
       std::vector<const op::Agg *> *aggs;
-      p = expr::DecodeVector(aggs, p, code + len - p);
-      AppendOp(new op::GroupedAggOp(groupe_indices, count, aggs));
+      p = DecodeAggs(aggs, p, code + len - p);
+      AppendOp(new op::GroupedAggOp(guard.release(), count, aggs));
       p = SkipEoe(p, code + len);
       break;
     }
     case UNGROUPED_AGGREGATE: {
       ++p;
       std::vector<const op::Agg *> *aggs;
-      p = expr::DecodeVector(aggs, p, code + len - p);
+      p = DecodeAggs(aggs, p, code + len - p);
       AppendOp(new op::UngroupedAggOp(aggs));
       p = SkipEoe(p, code + len);
       break;
-- 
2.43.0


From 7883961ae18a77b9ad5c988deb50750a4c0384ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 01/97] fix: accept block comments that end exactly at the end
 of the file

---
 src/bms/tokenization/tokenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 3f5cda4..7652100 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -187,7 +187,7 @@ struct Tokenizer {
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             switch (m_source[pos.begin]) {
             case '\t': pos.column += 4; break;
-- 
2.43.0


From 717a5278b0a0ad0b5ded298b713f51fd6b31daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 02/97] fix: track positions through newlines and tabs in
 string literals

---
 src/bms/tokenization/tokenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 7652100..fc51837 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -226,7 +226,8 @@ Result<void, Tokenize_Error> Tokenizer::tokenize(std::pmr::vector<Token>& out)
         pos.length = result->length;
         out.push_back({ pos, result->type });
 
-        if (result->type != Token_Type::block_comment) {
+        if (result->type != Token_Type::block_comment
+            && result->type != Token_Type::string_literal) {
             // Special case for all tokens that aren't multi-line.
             // We could just advance the position as usual, but it is much cheaper if we know
             // that there are no newline characters anyway.
-- 
2.43.0


From cb36b05ae1f8671844506a4cf3d5b6bdea7d2203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 03/97] fix: reject integer literals that are too large instead
 of wrapping around

---
 src/common/parse.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index c6623f4..84e7660 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -13,9 +13,11 @@ static_assert(are_hex_digits_ascii);
 
 constexpr bool safe_mul(Big_Uint& x, Big_Uint y)
 {
-    auto old = x;
+    if (y != 0 && x > Big_Uint(-1) / y) {
+        return false;
+    }
     x *= y;
-    return x >= old;
+    return true;
 }
 
 constexpr bool safe_add(Big_Uint& x, Big_Uint y)
@@ -206,14 +208,22 @@ std::optional<Big_Int> parse_integer_literal(std::string_view str) noexcept
     if (str.empty()) {
         return std::nullopt;
     }
+    // The greatest positive number representable by Big_Int.
+    constexpr Big_Uint max_magnitude = Big_Uint(-1) >> 1;
     if (str.starts_with("-")) {
         if (auto positive = parse_uinteger_literal(str.substr(1))) {
+            if (*positive > max_magnitude + 1) {
+                return std::nullopt;
+            }
             // Negating as Uint is intentional and prevents overflow.
             return static_cast<Big_Int>(-*positive);
         }
         return std::nullopt;
     }
     if (auto result = parse_uinteger_literal(str)) {
+        if (*result > max_magnitude) {
+            return std::nullopt;
+        }
         return static_cast<Big_Int>(*result);
     }
     return std::nullopt;
-- 
2.43.0


From 318c012afed88272b04a80bd08cc28c13ae71ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 04/97] fix: evaluate upper case digits of hexadecimal literals

---
 src/common/parse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index 84e7660..ea4b863 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -74,6 +74,11 @@ constexpr std::optional<Big_Uint> parse_uinteger_digits(std::string_view str, Bi
                 return {};
             }
         }
+        else if (c >= 'A' && c <= 'F') {
+            if (!safe_add(result, Big_Uint(10 + c - 'A'))) {
+                return {};
+            }
+        }
         else {
             return {};
         }
-- 
2.43.0


From 2df64c0efd867c3a9e8dc2225293e17ed78c44a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 05/97] fix: correct token lengths of && and !

---
 src/bms/util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 187a841..947aa15 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -232,7 +232,8 @@ namespace bit_manipulation::bms {
     case colon:
     case comma:
     case at:
-    case semicolon: return 1;
+    case semicolon:
+    case logical_not: return 1;
 
     case equals:
     case not_equals:
@@ -240,14 +241,13 @@ namespace bit_manipulation::bms {
     case greater_or_equal:
     case shift_left:
     case shift_right:
+    case logical_and:
     case logical_or:
     case right_arrow:
     case double_right_arrow:
     case keyword_as:
     case keyword_if: return 2;
 
-    case logical_and:
-    case logical_not:
     case keyword_let:
     case keyword_int: return 3;
 
-- 
2.43.0


From 638f0af71e7dedf2c1cad9da7f017389403b11fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 06/97] fix: support Uint(1) and Uint(128) values in types and
 evaluation

---
 src/bms/concrete_type.hpp         | 6 +++---
 src/bms/concrete_value.hpp        | 6 +++---
 src/bms/evaluation/operations.cpp | 6 ++++++
 src/bms/value.hpp                 | 4 ++--
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bms/concrete_type.hpp b/src/bms/concrete_type.hpp
index fcbcd48..5fb0129 100644
--- a/src/bms/concrete_type.hpp
+++ b/src/bms/concrete_type.hpp
@@ -45,7 +45,7 @@ struct Concrete_Type {
     [[nodiscard]] static constexpr Concrete_Type Uint(int width)
     {
         BIT_MANIPULATION_ASSERT(width <= uint_max_width);
-        BIT_MANIPULATION_ASSERT(width > 1);
+        BIT_MANIPULATION_ASSERT(width >= 1);
         return Concrete_Type { Type_Type::Uint, width };
     }
 
@@ -59,7 +59,7 @@ public:
         , m_width(width)
     {
         BIT_MANIPULATION_ASSERT(type == Type_Type::Uint || width == 0);
-        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width < uint_max_width));
+        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width <= uint_max_width));
     }
 
     [[nodiscard]] friend constexpr bool operator<=>(Concrete_Type, Concrete_Type) = default;
@@ -97,7 +97,7 @@ public:
         case Type_Type::Int: return Big_Uint(-1);
         case Type_Type::Uint:
             return m_width == std::numeric_limits<Big_Uint>::digits
-                ? 0
+                ? Big_Uint(-1)
                 : Big_Uint(Big_Uint(1) << m_width) - 1;
         }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unknown type.");
diff --git a/src/bms/concrete_value.hpp b/src/bms/concrete_value.hpp
index 9849edd..1f576aa 100644
--- a/src/bms/concrete_value.hpp
+++ b/src/bms/concrete_value.hpp
@@ -50,8 +50,9 @@ public:
         }
         if (other.is_uint()) {
             const auto truncated = Big_Uint(int_value) & other.get_mask();
+            // The comparison alone would not detect negative values for a 128-bit target.
             if (conversion == Conversion_Type::lossless_numeric
-                && truncated != Big_Uint(int_value)) {
+                && (int_value < 0 || truncated != Big_Uint(int_value))) {
                 return Evaluation_Error_Code::int_to_uint_range_error;
             }
             return Concrete_Value { other, Big_Int(truncated) };
@@ -62,8 +63,7 @@ public:
     constexpr Concrete_Value transform_uint(Big_Uint f(Big_Uint)) const
     {
         BIT_MANIPULATION_ASSERT(type.is_uint());
-        const auto mask = Big_Uint(Big_Uint(1) << type.width()) - 1;
-        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & mask) };
+        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & type.get_mask()) };
     }
 };
 
diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 4013e27..4b82522 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -375,6 +375,12 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             if (rhs.int_value == 0) {
                 return Evaluation_Error_Code::division_by_zero;
             }
+            if (lhs.type.is_uint()) {
+                // Values of 128-bit type can exceed the range of signed integers.
+                return op == Expression_Type::division
+                    ? transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x / y; })
+                    : transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x % y; });
+            }
             return op == Expression_Type::division
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
diff --git a/src/bms/value.hpp b/src/bms/value.hpp
index 73d9238..f9e72df 100644
--- a/src/bms/value.hpp
+++ b/src/bms/value.hpp
@@ -103,8 +103,8 @@ public:
     constexpr Value and_then_uint(F f) const
     {
         if (is_known()) {
-            const auto mask = Big_Uint(Big_Uint(1) << m_type.width()) - 1;
-            return Value { m_type, Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & mask) };
+            return Value { m_type,
+                           Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & m_type.get_mask()) };
         }
         return *this;
     }
-- 
2.43.0


From f34423ce5d6c0ef585f4ff7de7833df90266df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 07/97] fix: evaluate equality comparisons of Bool values

---
 src/bms/evaluation/operations.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 4b82522..e5726e8 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -368,6 +368,14 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
         return Concrete_Value { lhs.type, Big_Int(result) };
     };
 
+    // Equality comparisons are possible for any type, including Bool.
+    if (op == Expression_Type::equals) {
+        return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value == rhs.int_value) };
+    }
+    if (op == Expression_Type::not_equals) {
+        return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value != rhs.int_value) };
+    }
+
     if (lhs.type.is_integer()) {
         switch (op) {
         case Expression_Type::division:
@@ -385,12 +393,6 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
         }
-        // Relational comparisons don't simply check for bit-equality, so they cannot be handled
-        // commonly for both.
-        case Expression_Type::equals: //
-            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value == rhs.int_value) };
-        case Expression_Type::not_equals: //
-            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value != rhs.int_value) };
         default: break;
         }
     }
-- 
2.43.0


From 7abba9f9871e95b3053832f1d9f3677c24933c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 08/97] fix: report shifts by the operand size or more, and
 handle known Uint right operands

---
 src/bms/evaluation/operations.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index e5726e8..6e40a59 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -454,9 +454,14 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
         case bitwise_xor: //
             return transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x ^ y; });
         case shift_left:
-            return transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x << y; });
         case shift_right:
-            return transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x >> y; });
+            if (Big_Uint(rhs.int_value) >= Big_Uint(lhs.type.width())) {
+                return Evaluation_Error_Code::shift_too_much;
+            }
+            if (op == shift_right) {
+                return transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x >> y; });
+            }
+            return transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x << y; });
         default:
             BIT_MANIPULATION_ASSERT_UNREACHABLE(
                 "Unsupported Uint operation not caught by type-check.");
@@ -529,11 +534,12 @@ evaluate_binary_operator(Value lhs, Expression_Type op, Value rhs)
     // illegal no matter what the other operand is, such as division by zero.
     if (rhs) {
         using enum Expression_Type;
-        if ((op == division || op == remainder) && rhs.as_int() == 0) {
+        const Big_Int rhs_value = rhs.concrete_value().int_value;
+        if ((op == division || op == remainder) && rhs_value == 0) {
             return Evaluation_Error_Code::division_by_zero;
         }
         if ((op == shift_left || op == shift_right)
-            && (rhs.as_int() < 0 || rhs.as_int() >= lhs.get_type().width())) {
+            && Big_Uint(rhs_value) >= Big_Uint(lhs.get_type().width())) {
             return Evaluation_Error_Code::shift_too_much;
         }
     }
-- 
2.43.0


From 75f576530fe8da1cacddb26677d1249c1974ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 09/97] fix: report overflow in Int arithmetic instead of
 undefined behaviour

---
 src/bms/evaluation/evaluation_error.hpp |  5 +++-
 src/bms/evaluation/operations.cpp       | 32 +++++++++++++++++++------
 src/common/diagnostics.cpp              |  3 +++
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/bms/evaluation/evaluation_error.hpp b/src/bms/evaluation/evaluation_error.hpp
index aaf807f..04c7c1b 100644
--- a/src/bms/evaluation/evaluation_error.hpp
+++ b/src/bms/evaluation/evaluation_error.hpp
@@ -17,7 +17,9 @@ enum struct Evaluation_Error_Code : Default_Underlying {
     /// @brief An assertion failed.
     assertion_fail,
     /// @brief Conversion from Int to Uint would lose information.
-    int_to_uint_range_error
+    int_to_uint_range_error,
+    /// @brief The result of Int arithmetic exceeds the internal integer representation.
+    int_overflow
 };
 
 constexpr std::string_view evaluation_error_code_name(Evaluation_Error_Code code)
@@ -29,6 +31,7 @@ constexpr std::string_view evaluation_error_code_name(Evaluation_Error_Code code
         BIT_MANIPULATION_ENUM_STRING_CASE(shift_too_much);
         BIT_MANIPULATION_ENUM_STRING_CASE(assertion_fail);
         BIT_MANIPULATION_ENUM_STRING_CASE(int_to_uint_range_error);
+        BIT_MANIPULATION_ENUM_STRING_CASE(int_overflow);
     };
     BIT_MANIPULATION_ASSERT_UNREACHABLE();
 }
diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 6e40a59..7727ebc 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -318,7 +318,11 @@ evaluate_unary_operator(Expression_Type op, Concrete_Value value)
             return value;
         }
         if (op == Expression_Type::unary_minus) {
-            return Concrete_Value { Concrete_Type::Int, -value.int_value };
+            Big_Int result;
+            if (__builtin_sub_overflow(Big_Int(0), value.int_value, &result)) {
+                return Evaluation_Error_Code::int_overflow;
+            }
+            return Concrete_Value { Concrete_Type::Int, result };
         }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unsupported Int operation not caught by type-check.");
     }
@@ -389,6 +393,12 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
                     ? transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x / y; })
                     : transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x % y; });
             }
+            if (rhs.int_value == -1) {
+                // The remainder is always zero, but the quotient may not be representable.
+                return op == Expression_Type::division
+                    ? evaluate_unary_operator(Expression_Type::unary_minus, lhs)
+                    : Concrete_Value { lhs.type, 0 };
+            }
             return op == Expression_Type::division
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
@@ -419,12 +429,20 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value <= rhs.int_value) };
         case greater_or_equal: //
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value >= rhs.int_value) };
-        case binary_plus: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value + rhs.int_value) };
-        case binary_minus: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value - rhs.int_value) };
-        case multiplication: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value * rhs.int_value) };
+        case binary_plus:
+        case binary_minus:
+        case multiplication: {
+            Big_Int result;
+            const bool overflow = op == binary_plus
+                ? __builtin_add_overflow(lhs.int_value, rhs.int_value, &result)
+                : op == binary_minus
+                ? __builtin_sub_overflow(lhs.int_value, rhs.int_value, &result)
+                : __builtin_mul_overflow(lhs.int_value, rhs.int_value, &result);
+            if (overflow) {
+                return Evaluation_Error_Code::int_overflow;
+            }
+            return Concrete_Value { Concrete_Type::Int, result };
+        }
         default:
             BIT_MANIPULATION_ASSERT_UNREACHABLE(
                 "Unsupported Int operation not caught by type-check.");
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index d4923f9..8722d2e 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -236,6 +236,9 @@ std::string_view to_prose(bms::Evaluation_Error_Code e)
         return "Assertion failed.";
     case int_to_uint_range_error: //
         return "Conversion from Int to Uint would lose information.";
+    case int_overflow: //
+        return "The result of an Int operation is too large for the compiler's internal integer "
+               "representation.";
     }
     BIT_MANIPULATION_ASSERT_UNREACHABLE("invalid error code");
 }
-- 
2.43.0


From 1d777c66ffba1f3d9726e17247c5a8e444ca820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 10/97] fix: do not read the type of expired temporary values
 in builtin functions

---
 src/bms/evaluation/operations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 7727ebc..8b329ca 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -121,8 +121,9 @@ unsafe_evaluate_builtin_function_impl(Builtin_Function f, Iter begin, Iter end)
     static_assert(std::random_access_iterator<Iter>);
     static_assert(std::same_as<std::iter_value_t<Iter>, Concrete_Value>);
 
-    const auto types
-        = std::ranges::subrange(begin, end) | std::views::transform(&Concrete_Value::type);
+    // The values may be temporary objects, so their types must be copied.
+    const auto types = std::ranges::subrange(begin, end)
+        | std::views::transform([](const Concrete_Value& v) -> Concrete_Type { return v.type; });
 
     Result<Concrete_Type, Analysis_Error_Code> type_result = check_builtin_function_impl(f, types);
     if (!type_result) {
-- 
2.43.0


From 36da1a16b2d5d56033e820c8844bc2771a1392b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 11/97] fix: accept the >= operator in analysis

---
 src/bms/ast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/ast.cpp b/src/bms/ast.cpp
index 35c9fba..27f3c3f 100644
--- a/src/bms/ast.cpp
+++ b/src/bms/ast.cpp
@@ -25,6 +25,7 @@ namespace {
     case less_than: return Expression_Type::less_than;
     case greater_than: return Expression_Type::greater_than;
     case less_or_equal: return Expression_Type::less_or_equal;
+    case greater_or_equal: return Expression_Type::greater_or_equal;
     case plus: return Expression_Type::binary_plus;
     case minus: return Expression_Type::binary_minus;
     case multiplication: return Expression_Type::multiplication;
-- 
2.43.0


From 0d452e4a0d625edf3f636fd8b43956c6b30d2b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 12/97] fix: report failing conversions in constant expressions

---
 src/bms/analyze.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index d969bfc..cbcb7d0 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -605,6 +605,12 @@ private:
 
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_conversion(*expression_value, *type);
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }
+                .fail(handle)
+                .cause(node.get_target_type_node())
+                .build();
+        }
 
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type);
         return {};
@@ -656,9 +662,11 @@ private:
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_if_expression(*left_value, *condition_value, *right_value);
 
-        // Type analysis has already succeeded, and for context expressions, the condition is known.
-        // Therefore, it should be impossible for an evaluation to fail.
-        BIT_MANIPULATION_ASSERT(context != Expression_Context::constant || eval_result.has_value());
+        // Type analysis has already succeeded, and for constant expressions, the condition is known.
+        // However, converting the selected operand to the common type can still fail.
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }.fail(handle).build();
+        }
 
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type_result);
         return {};
-- 
2.43.0


From cc1195919f8814433b589e19af4ac68428d24332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 13/97] fix: short-circuit logical operators with an unknown
 right operand

---
 src/bms/evaluation/operations.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 8b329ca..921fcda 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -549,6 +549,12 @@ evaluate_binary_operator(Value lhs, Expression_Type op, Value rhs)
         return result_from_concrete(
             evaluate_binary_operator(lhs.concrete_value(), op, rhs.concrete_value()));
     }
+    // The right operand of short-circuiting operators may not affect the result at all.
+    if (lhs
+        && ((op == Expression_Type::logical_and && !lhs.as_bool())
+            || (op == Expression_Type::logical_or && lhs.as_bool()))) {
+        return lhs;
+    }
     // Even if we don't know the values of both operands, there are certain operations which are
     // illegal no matter what the other operand is, such as division by zero.
     if (rhs) {
-- 
2.43.0


From 6219a5811134336ee620b23ce0ae64a193a6bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:02 +0000
Subject: [PATCH 14/97] fix: return from the move assignment of Result

---
 src/common/result.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/result.hpp b/src/common/result.hpp
index 582e735..187b8d9 100644
--- a/src/common/result.hpp
+++ b/src/common/result.hpp
@@ -137,7 +137,10 @@ public:
     constexpr Result& operator=(Result&& other) noexcept
         requires(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_assignable_v<Error>)
     {
-        if (m_has_value && other.m_has_value) {
+        if (this == &other) {
+            // do nothing
+        }
+        else if (m_has_value && other.m_has_value) {
             m_value = std::move(other.m_value);
         }
         else if (!m_has_value && !other.m_has_value) {
@@ -153,6 +156,7 @@ public:
             std::construct_at(std::addressof(m_value), std::move(other.m_value));
             m_has_value = true;
         }
+        return *this;
     }
 
     constexpr ~Result() noexcept(std::is_nothrow_destructible_v<T>
-- 
2.43.0


From 356eeecec936211a96fd9cb635e39496040dd621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:08 +0000
Subject: [PATCH 15/97] fix: report errors in annotation arguments instead of
 failing internally

---
 src/bms/parsing/parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 39485bd..e383d02 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -859,6 +859,9 @@ private:
             }
             return r;
         }();
+        if (!arguments) {
+            return arguments.error();
+        }
         return astp::Some_Node { astp::Annotation { at->pos, m_program.extract(id->pos),
                                                     std::move(*arguments) } };
     }
-- 
2.43.0


From 22c4623ae4c8e8b53470bc157f2b3a75fa87d4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:08 +0000
Subject: [PATCH 16/97] fix: require commas between function call arguments

---
 src/bms/parsing/parse.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index e383d02..0c7546c 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1430,16 +1430,19 @@ private:
         }
 
         std::pmr::vector<astp::Handle> arguments(m_program.get_memory());
-        for (bool demand_expression = false; true;) {
-            if (!demand_expression && expect(Token_Type::right_parenthesis)) {
-                break;
-            }
-            auto arg = match_expression();
-            if (!arg) {
-                return arg;
+        if (!expect(Token_Type::right_parenthesis)) {
+            static constexpr Token_Type expected_after_argument[]
+                = { Token_Type::comma, Token_Type::right_parenthesis };
+            do {
+                auto arg = match_expression();
+                if (!arg) {
+                    return arg;
+                }
+                arguments.push_back(m_program.push_node(std::move(*arg)));
+            } while (expect(Token_Type::comma));
+            if (!expect(Token_Type::right_parenthesis)) {
+                return Rule_Error { this_rule, expected_after_argument };
             }
-            arguments.push_back(m_program.push_node(std::move(*arg)));
-            demand_expression = expect(Token_Type::comma);
         }
 
         auto annotations
-- 
2.43.0


From 7b0ec86255e96f6a8142110078b7b49a21a53a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 17/97] fix: parse comparisons without scanning past the end of
 the expression

---
 src/bms/parsing/parse.cpp | 91 ++++++++++-----------------------------
 1 file changed, 22 insertions(+), 69 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 0c7546c..4a061bb 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1234,11 +1234,6 @@ private:
 
     Rule_Result match_binary_expression()
     {
-        // FIXME: use a similar roll_back_after approach to match_conversion_expression
-        if (should_binary_expression_commit_to_comparison_expression()) {
-            return match_comparison_expression();
-        }
-
         auto left = match_prefix_expression();
         if (!left) {
             return left;
@@ -1247,13 +1242,34 @@ private:
         if (!op) {
             return left;
         }
+        if (is_comparison_operator(op->type)) {
+            return match_comparison_right_side(*left, *op);
+        }
         auto right = match_prefix_expression();
         if (!right) {
             return right;
         }
-        return astp::Some_Node { astp::Binary_Expression {
+        auto result = astp::Some_Node { astp::Binary_Expression {
             op->pos, m_program.push_node(std::move(*left)), m_program.push_node(std::move(*right)),
             op->type } };
+        // An arithmetic expression can be the left side of a comparison.
+        if (is_arithmetic_operator(op->type)) {
+            if (const Token* comparison = expect(is_comparison_operator)) {
+                return match_comparison_right_side(result, *comparison);
+            }
+        }
+        return result;
+    }
+
+    Rule_Result match_comparison_right_side(astp::Some_Node& left, const Token& op)
+    {
+        auto right = match_arithmetic_expression();
+        if (!right) {
+            return right;
+        }
+        return astp::Some_Node { astp::Binary_Expression {
+            op.pos, m_program.push_node(std::move(left)), m_program.push_node(std::move(*right)),
+            op.type } };
     }
 
 #if BIT_MANIPULATION_ENABLE_EXPERIMENTAL_PARSING
@@ -1312,69 +1328,6 @@ private:
     }
 #endif
 
-    /// @brief An arbitrary look-ahead member function which tells us whether we should commit
-    /// to matching a comparison expression when matching a binary expression.
-    ///
-    /// Consider for example that if we are parsing `(0) == 3`, we can already tell that this
-    /// needs to be a comparison expression based on the following `==`.
-    /// However, identifying this situation is not as simple as looking at the next token due to
-    /// arbitrary amounts of parentheses.
-    ///
-    /// This approach is a bit unusual, but makes sense for BMS specifically.
-    /// Thanks to this test, our parser is completely deterministic and we can avoid more complex
-    /// expression parsing approach.
-    /// @return `true` if we should commit, `false` otherwise.
-    bool should_binary_expression_commit_to_comparison_expression() const
-    {
-        Size parenthesis_level = 0;
-        for (Size i = m_pos; i < m_tokens.size(); ++i) {
-            switch (m_tokens[i].type) {
-            case Token_Type::left_brace:
-            case Token_Type::right_brace:
-            case Token_Type::semicolon: return false;
-
-            case Token_Type::left_parenthesis: ++parenthesis_level; break;
-            case Token_Type::right_parenthesis: --parenthesis_level; break;
-
-            default:
-                if (parenthesis_level != 0) {
-                    continue;
-                }
-                if (m_tokens[i].type == Token_Type::keyword_if) {
-                    return false;
-                }
-                if (is_comparison_operator(m_tokens[i].type)) {
-                    return true;
-                }
-            }
-        }
-        return false;
-    }
-
-    Rule_Result match_comparison_expression()
-    {
-        constexpr auto this_rule = Grammar_Rule::comparison_expression;
-        static constexpr Token_Type expected[]
-            = { Token_Type::equals,       Token_Type::not_equals,    Token_Type::less_than,
-                Token_Type::greater_than, Token_Type::less_or_equal, Token_Type::greater_or_equal };
-
-        auto left = match_arithmetic_expression();
-        if (!left) {
-            return left;
-        }
-        const Token* op = expect(is_comparison_operator);
-        if (!op) {
-            return Rule_Error { this_rule, expected };
-        }
-        auto right = match_arithmetic_expression();
-        if (!right) {
-            return right;
-        }
-        return astp::Some_Node { astp::Binary_Expression {
-            op->pos, m_program.push_node(std::move(*left)), m_program.push_node(std::move(*right)),
-            op->type } };
-    }
-
     Rule_Result match_arithmetic_expression()
     {
         auto left = match_prefix_expression();
-- 
2.43.0


From f26e354d14d2e4280988955a8638568518a61fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 18/97] fix: parse nested parentheses in linear time

---
 src/bms/parsing/parse.cpp | 59 +++++++++++----------------------------
 1 file changed, 16 insertions(+), 43 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 4a061bb..b0150f1 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -487,32 +487,6 @@ private:
 
     using Rule_Result = Result<astp::Some_Node, Rule_Error>;
 
-    struct Scoped_Attempt {
-        Parser& self;
-        const Size pos;
-        const Size node_count;
-
-        explicit Scoped_Attempt(Parser& self)
-            : self(self)
-            , pos(self.m_pos)
-            , node_count(self.m_program.get_node_count())
-        {
-        }
-
-        ~Scoped_Attempt() noexcept(false)
-        {
-            BIT_MANIPULATION_ASSERT(self.m_pos >= pos);
-            BIT_MANIPULATION_ASSERT(self.m_program.get_node_count() >= node_count);
-            self.m_pos = pos;
-            self.m_program.downsize_nodes(node_count);
-        }
-    };
-
-    Scoped_Attempt start_attempt()
-    {
-        return Scoped_Attempt { *this };
-    }
-
     [[maybe_unused]] Result<std::optional<astp::Some_Node>, Rule_Error>
     optionally_match(Rule_Result (Parser::*match)(), bool condition)
     {
@@ -1181,22 +1155,19 @@ private:
 
     Rule_Result match_expression()
     {
-        bool is_conversion_expression = [&]() {
-            Scoped_Attempt always_roll_back = start_attempt();
-            return match_prefix_expression() && peek(Token_Type::keyword_as);
-        }();
-
-        return is_conversion_expression ? match_conversion_expression() //
-                                        : match_if_expression();
+        // Both alternatives begin with a prefix expression, which must not be matched twice;
+        // otherwise, the time would be exponential in the depth of parentheses.
+        auto first = match_prefix_expression();
+        if (!first) {
+            return first;
+        }
+        return peek(Token_Type::keyword_as) ? match_conversion_expression(*first)
+                                            : match_if_expression(&*first);
     }
 
-    Rule_Result match_conversion_expression()
+    Rule_Result match_conversion_expression(astp::Some_Node& expression)
     {
         constexpr auto this_rule = Grammar_Rule::conversion_expression;
-        auto expression = match_prefix_expression();
-        if (!expression) {
-            return expression;
-        }
         if (!expect(Token_Type::keyword_as)) {
             return Rule_Error { this_rule, const_array_one_v<Token_Type::keyword_as> };
         }
@@ -1205,14 +1176,15 @@ private:
             return type;
         }
         return astp::Some_Node { astp::Conversion_Expression {
-            get_source_position(*expression), m_program.push_node(std::move(*expression)),
+            get_source_position(expression), m_program.push_node(std::move(expression)),
             m_program.push_node(std::move(*type)) } };
     }
 
-    Rule_Result match_if_expression()
+    /// @param first the first prefix expression, if it has already been matched
+    Rule_Result match_if_expression(astp::Some_Node* first = nullptr)
     {
         constexpr auto this_rule = Grammar_Rule::if_expression;
-        auto left = match_binary_expression();
+        auto left = match_binary_expression(first);
         if (!left || !expect(Token_Type::keyword_if)) {
             return left;
         }
@@ -1232,9 +1204,10 @@ private:
             m_program.push_node(std::move(*condition)), m_program.push_node(std::move(*right)) } };
     }
 
-    Rule_Result match_binary_expression()
+    /// @param first the first prefix expression, if it has already been matched
+    Rule_Result match_binary_expression(astp::Some_Node* first = nullptr)
     {
-        auto left = match_prefix_expression();
+        auto left = first ? Rule_Result { std::move(*first) } : match_prefix_expression();
         if (!left) {
             return left;
         }
-- 
2.43.0


From 09a393418b7505121501a238a9888f211cafaf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 19/97] fix: reject string literals in expressions

---
 src/bms/parsing/parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index b0150f1..7027f2c 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1391,7 +1391,8 @@ private:
                 Token_Type::decimal_literal, Token_Type::hexadecimal_literal,
                 Token_Type::identifier,      Token_Type::left_parenthesis };
 
-        if (const Token* t = expect(is_literal)) {
+        if (const Token* t
+            = expect([](Token_Type t) { return is_integer_literal(t) || is_boolean_literal(t); })) {
             return astp::Some_Node { astp::Literal { t->pos, m_program.extract(t->pos), t->type } };
         }
         if (const Token* t = expect(Token_Type::identifier)) {
-- 
2.43.0


From 3d27a86a0fb15b10b19aa8c24d4e10ee49561295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 20/97] fix: accept annotated if statements after else

---
 src/bms/parsing/parse.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 7027f2c..5b16271 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1106,6 +1106,13 @@ private:
         if (!first) {
             return Rule_Error { this_rule, const_array_one_v<Token_Type::keyword_else> };
         }
+        if (peek(Token_Type::at)) {
+            auto annotations = match_annotation_sequence();
+            if (!annotations) {
+                return annotations;
+            }
+            return match_if_statement(&*annotations);
+        }
         return peek(Token_Type::keyword_if) ? match_if_statement() : match_block_statement();
     }
 
-- 
2.43.0


From 7b3e8609640855f42c3732d02463ca6b7cde9388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 21/97] fix: position parameter and annotation lists at their
 first element

---
 src/bms/parsing/parse.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 5b16271..756db3e 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -727,14 +727,14 @@ private:
 
     Rule_Result match_parameter_sequence()
     {
-        Local_Source_Span first_pos;
+        std::optional<Local_Source_Span> first_pos;
         std::pmr::vector<astp::Handle> parameters(m_program.get_memory());
         while (true) {
             auto p = match_parameter();
             if (!p) {
                 return p;
             }
-            first_pos = get<astp::Parameter>(*p).pos;
+            first_pos = first_pos.value_or(get<astp::Parameter>(*p).pos);
             parameters.push_back(m_program.push_node(std::move(*p)));
             if (!expect(Token_Type::comma)) {
                 break;
@@ -742,7 +742,7 @@ private:
         }
         BIT_MANIPULATION_ASSERT(!parameters.empty());
 
-        return astp::Some_Node { astp::Parameter_List { first_pos, std::move(parameters) } };
+        return astp::Some_Node { astp::Parameter_List { *first_pos, std::move(parameters) } };
     }
 
     Rule_Result match_parameter()
@@ -793,14 +793,14 @@ private:
 
     Rule_Result match_annotation_sequence()
     {
-        Local_Source_Span first_pos;
+        std::optional<Local_Source_Span> first_pos;
         std::pmr::vector<astp::Handle> annotations(m_program.get_memory());
         while (true) {
             auto annotation = match_annotation();
             if (!annotation) {
                 return annotation;
             }
-            first_pos = get<astp::Annotation>(*annotation).pos;
+            first_pos = first_pos.value_or(get<astp::Annotation>(*annotation).pos);
             annotations.push_back(m_program.push_node(std::move(*annotation)));
             if (!peek(Token_Type::at)) {
                 break;
@@ -808,7 +808,7 @@ private:
         }
         BIT_MANIPULATION_ASSERT(!annotations.empty());
 
-        return astp::Some_Node { astp::Annotation_List { first_pos, std::move(annotations) } };
+        return astp::Some_Node { astp::Annotation_List { *first_pos, std::move(annotations) } };
     }
 
     Rule_Result match_annotation()
-- 
2.43.0


From 2eb33fc667d806b56ebdfde9c0a6663874bc1967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 22/97] fix: locate syntax errors at the end of the file after
 the last token

---
 src/bms/parsing/parse.cpp  | 16 +++++++++++++++-
 src/common/diagnostics.cpp |  9 +++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 756db3e..0c7a01a 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -399,7 +399,7 @@ public:
             return {};
         }
         else {
-            const auto fail_token = m_pos < m_tokens.size() ? m_tokens[m_pos] : Token {};
+            const auto fail_token = m_pos < m_tokens.size() ? m_tokens[m_pos] : end_of_file_token();
             const auto [fail_rule, expected_tokens] = program.error();
             return Parse_Error { fail_rule, expected_tokens, fail_token };
         }
@@ -414,6 +414,20 @@ private:
         return m_pos == m_tokens.size();
     }
 
+    /// @brief Returns an empty token located at the last token of the program, which stands for the
+    /// end of the file in errors.
+    [[nodiscard]] Token end_of_file_token() const
+    {
+        Token result {};
+        for (const Token& t : m_tokens) {
+            if (!is_comment(t.type)) {
+                result.pos = t.pos;
+            }
+        }
+        result.pos.length = 0;
+        return result;
+    }
+
     void skip_comments() noexcept
     {
         while (m_pos != m_tokens.size() && is_comment(m_tokens[m_pos].type)) {
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 8722d2e..37e3e18 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -691,8 +691,13 @@ std::ostream& print_parse_error(std::ostream& out,
                                 bool colors)
 {
     print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix;
-    out << "unexpected token " << token_type_readable_name(error.fail_token.type)
-        << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
+    if (error.fail_token.pos.length == 0) {
+        out << "unexpected end of file";
+    }
+    else {
+        out << "unexpected token " << token_type_readable_name(error.fail_token.type);
+    }
+    out << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
 
     print_file_position(out, file, error.fail_token.pos, colors)
         << ": " << note_prefix << "expected ";
-- 
2.43.0


From a1a774f4aaa941b807b3776900fb48e5b0bd08f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 23/97] fix: keep names outside of a bit-generic function,
 absent children and recursive calls intact in its instances

---
 src/bms/instantiate.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index e8b3ec4..e8aad40 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -125,8 +125,9 @@ private:
         }
 
         if (const auto* old_function = get_if<ast::Function>(h)) {
+            // The function itself is not added to the remap because recursive calls have to undergo
+            // deduction; they may require a different instance.
             ast::Some_Node* result = m_program.insert(old_function->copy_for_instantiation());
-            m_remap.emplace(h, result);
 
             auto& instance = get<ast::Function>(*result);
             deep_copy_parameters(*old_function, instance, result);
@@ -154,7 +155,9 @@ private:
         m_remap.emplace(h, result);
         for (ast::Some_Node*& child : get_children(*result)) {
             child = deep_copy_for_instantiation(child);
-            set_parent(*child, *result);
+            if (child) {
+                set_parent(*child, *result);
+            }
         }
         return result;
     }
@@ -188,7 +191,11 @@ private:
 
         void operator()(const ast::Some_Node* looked_up_node)
         {
-            target = self.m_remap.at(looked_up_node);
+            // Entities outside of the function aren't copied and keep being referred to.
+            const auto it = self.m_remap.find(looked_up_node);
+            if (it != self.m_remap.end()) {
+                target = it->second;
+            }
         }
 
         void operator()(const Parameter* looked_up_parameter)
-- 
2.43.0


From a7927ba9cc691263de88fa2e78240cd6415ba9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 24/97] fix: analyze the bodies of all instances of bit-generic
 functions

---
 src/bms/analyze.cpp | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index cbcb7d0..8c6942d 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -98,10 +98,44 @@ private:
                 return r;
             }
         }
+        if (auto r = analyze_late_instances(node, level); !r) {
+            return r;
+        }
         node.const_value() = Value::Void;
         return {};
     }
 
+    /// @brief Analyzes instances of bit-generic functions which were implicitly instantiated only
+    /// after the bit-generic function itself has been visited.
+    /// Doing so may result in further instantiations.
+    Result<void, Analysis_Error> analyze_late_instances(ast::Program& program, Analysis_Level level)
+    {
+        const auto instance_count = [&program] {
+            Size result = 0;
+            for (const ast::Some_Node* const h : program.get_children()) {
+                if (const auto* const function = get_if<ast::Function>(h)) {
+                    result += function->instances.size();
+                }
+            }
+            return result;
+        };
+
+        Size analyzed_count = 0;
+        while (analyzed_count != instance_count()) {
+            analyzed_count = instance_count();
+            for (ast::Some_Node* const h : program.get_children()) {
+                auto* const function = get_if<ast::Function>(h);
+                if (function && function->is_generic) {
+                    auto r = analyze_types(h, level, Expression_Context::normal);
+                    if (!r) {
+                        return r;
+                    }
+                }
+            }
+        }
+        return {};
+    }
+
     Result<void, Analysis_Error> analyze_types(ast::Some_Node* handle,
                                                ast::Function& node,
                                                Analysis_Level level,
@@ -117,8 +151,10 @@ private:
         // new implicit instantiations may have been generated in the meantime.
         // For concrete functions, we can memoize the result of type analysis.
         if (node.is_generic) {
-            for (const ast::Function::Instance& instance : node.instances) {
-                auto r = analyze_types(instance.handle, level, Expression_Context::normal);
+            // The analysis of instances may add further instances.
+            for (Size i = 0; i < node.instances.size(); ++i) {
+                ast::Some_Node* const instance = node.instances[i].handle;
+                auto r = analyze_types(instance, level, Expression_Context::normal);
                 if (!r) {
                     return r;
                 }
-- 
2.43.0


From 706215d4b3d2429e7fdd590112fa799d7f959674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 25/97] fix: accept widths of type Uint

---
 src/bms/analyze.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 8c6942d..542c621 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -261,11 +261,13 @@ private:
                 .fail(node.get_width_node())
                 .build();
         }
-        const Big_Int folded_width = width->as_int();
+        const Concrete_Value width_value = width->concrete_value();
+        const Big_Int folded_width = width_value.int_value;
+        // Note that the greatest values of Uint(128) are negative here, and are also invalid.
         if (folded_width <= 0 || folded_width > uint_max_width) {
             return Analysis_Error_Builder { Analysis_Error_Code::width_invalid }
                 .fail(node.get_width_node())
-                .value(Concrete_Value::Int(folded_width))
+                .value(width_value)
                 .build();
         }
         node.concrete_width = static_cast<int>(folded_width);
-- 
2.43.0


From 0e9ee88370361318e5814f2f957e8dd7503e54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 26/97] fix: report calls of parameters instead of
 dereferencing null

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 542c621..b8087f5 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -849,7 +849,7 @@ private:
         if (!function) {
             return Analysis_Error_Builder { Analysis_Error_Code::call_non_function }
                 .fail(handle)
-                .cause(*looked_up_node)
+                .cause(node.lookup_result.value())
                 .build();
         }
 
-- 
2.43.0


From 9c172566970208b3dea3f4337271b54a9f68af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 27/97] fix: report uses of builtin functions as variables

---
 src/bms/analyze.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index b8087f5..57947d1 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -557,6 +557,12 @@ private:
                 .cause(*node.lookup_result)
                 .build();
         }
+        if (holds_alternative<Builtin_Function>(node.lookup_result)) {
+            return Analysis_Error_Builder { Analysis_Error_Code::assigning_function }
+                .fail(handle)
+                .cause(*node.lookup_result)
+                .build();
+        }
         ast::Some_Node* looked_up_node = get<ast::Some_Node*>(node.lookup_result);
         if (holds_alternative<ast::Function>(*looked_up_node)) {
             return Analysis_Error_Builder { Analysis_Error_Code::assigning_function }
@@ -1048,6 +1054,12 @@ private:
             node.const_value() = (*parameter)->get_type().const_value();
             return {};
         }
+        if (holds_alternative<Builtin_Function>(node.lookup_result)) {
+            return Analysis_Error_Builder { Analysis_Error_Code::function_in_expression }
+                .fail(handle)
+                .cause(node.lookup_result.value())
+                .build();
+        }
         auto looked_up_node = get<ast::Some_Node*>(node.lookup_result);
         return analyze_types_for_id_looking_up_node(handle, node, looked_up_node, level, context);
     }
-- 
2.43.0


From bc8751c89ddf9a05a15dcfe42edc0c0de035bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 28/97] fix: report assignments to bit-generic widths

---
 src/bms/analyze.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 57947d1..b7f2507 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -571,7 +571,9 @@ private:
                 .build();
         }
 
-        if (holds_alternative<ast::Const>(*looked_up_node)) {
+        // Bit-generic width parameters are represented by the id-expression that introduces them.
+        if (holds_alternative<ast::Const>(*looked_up_node)
+            || holds_alternative<ast::Id_Expression>(*looked_up_node)) {
             return Analysis_Error_Builder { Analysis_Error_Code::assigning_const }
                 .fail(handle)
                 .cause(looked_up_node)
-- 
2.43.0


From b21dad26bcf8266fd529781baa6580471e85178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 29/97] fix: report calls of undefined functions in parameter
 widths

---
 src/bms/analyze_name_lookup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bms/analyze_name_lookup.cpp b/src/bms/analyze_name_lookup.cpp
index 37ca9ff..a48f058 100644
--- a/src/bms/analyze_name_lookup.cpp
+++ b/src/bms/analyze_name_lookup.cpp
@@ -203,9 +203,9 @@ private:
             return {};
         }
         if (auto r = analyze_symbols_local(g, table); !r) {
-            BIT_MANIPULATION_ASSERT(r.error().code()
-                                    == Analysis_Error_Code::reference_to_undefined_variable);
             if (auto* id = get_if<ast::Id_Expression>(g)) {
+                BIT_MANIPULATION_ASSERT(r.error().code()
+                                        == Analysis_Error_Code::reference_to_undefined_variable);
                 // TODO: now that lookup results can be more than just an AST node,
                 //       we can get rid of this dirty hack and properly emplace a lookup result
                 //       which represents a bit-generic parameter or something
-- 
2.43.0


From 5d8da9fd7c905956ed47405b0db3fa0fd2fbe750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 30/97] fix: report parameter and return types which depend on
 their own function

---
 src/bms/analyze.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index b7f2507..4d05794 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -163,6 +163,8 @@ private:
         }
         BIT_MANIPULATION_ASSERT(node.instances.empty());
 
+        auto scope = push_function(&node);
+
         for (Parameter& parameter : node.get_parameters()) {
             auto r = analyze_types(parameter.get_type_node(), parameter.get_type(), level,
                                    Expression_Context::normal);
@@ -175,7 +177,6 @@ private:
             !r) {
             return r;
         }
-        auto scope = push_function(&node);
 
         if (node.get_requires_clause_node() != nullptr) {
             auto& expr_const_value = get_const_value(*node.get_requires_clause_node());
-- 
2.43.0


From bb2114870575ac0b1426a510d97e683e102787d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 31/97] fix: report reaching the end of a function without
 returning a value

---
 src/bms/analysis_error.hpp     | 2 +-
 src/bms/fwd.hpp                | 1 +
 src/bms/vm/codegen.cpp         | 5 +++++
 src/bms/vm/execution_error.hpp | 2 ++
 src/bms/vm/instructions.cpp    | 5 +++++
 src/bms/vm/instructions.hpp    | 7 +++++++
 src/bms/vm/vm.cpp              | 5 +++++
 src/common/diagnostics.cpp     | 7 ++++++-
 8 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/bms/analysis_error.hpp b/src/bms/analysis_error.hpp
index d532806..88b7c3e 100644
--- a/src/bms/analysis_error.hpp
+++ b/src/bms/analysis_error.hpp
@@ -332,7 +332,7 @@ public:
             m_code.evaluation = error.evaluation_error;
         }
         else {
-            m_code = Analysis_Error_Code::execution_error;
+            m_code = error.code;
         }
         if (error.comparison_failure) {
             m_extras = *error.comparison_failure;
diff --git a/src/bms/fwd.hpp b/src/bms/fwd.hpp
index 02c96c5..b7ffb4f 100644
--- a/src/bms/fwd.hpp
+++ b/src/bms/fwd.hpp
@@ -87,6 +87,7 @@ struct Relative_Jump_If;
 struct Break;
 struct Continue;
 struct Return;
+struct Missing_Return;
 struct Convert;
 struct Unary_Operate;
 struct Binary_Operate;
diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 90a5e43..5d9dad7 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -98,6 +98,11 @@ private:
         }
 
         if (return_type.get_type() != Type_Type::Void) {
+            const bool ends_with_return = !body.is_empty()
+                && holds_alternative<ast::Control_Statement>(*body.get_children().back());
+            if (!ends_with_return) {
+                out.push_back(ins::Missing_Return { { h } });
+            }
             return {};
         }
 
diff --git a/src/bms/vm/execution_error.hpp b/src/bms/vm/execution_error.hpp
index 07e8386..78a603d 100644
--- a/src/bms/vm/execution_error.hpp
+++ b/src/bms/vm/execution_error.hpp
@@ -19,6 +19,7 @@ enum struct Execution_Error_Code : Default_Underlying {
     symbolic_jump,
     call_out_of_program,
     infinite_loop,
+    missing_return,
 };
 
 constexpr std::string_view execution_error_code_name(Execution_Error_Code code)
@@ -34,6 +35,7 @@ constexpr std::string_view execution_error_code_name(Execution_Error_Code code)
         BIT_MANIPULATION_ENUM_STRING_CASE(symbolic_jump);
         BIT_MANIPULATION_ENUM_STRING_CASE(call_out_of_program);
         BIT_MANIPULATION_ENUM_STRING_CASE(infinite_loop);
+        BIT_MANIPULATION_ENUM_STRING_CASE(missing_return);
     };
     BIT_MANIPULATION_ASSERT_UNREACHABLE();
 }
diff --git a/src/bms/vm/instructions.cpp b/src/bms/vm/instructions.cpp
index 284d444..16d2dab 100644
--- a/src/bms/vm/instructions.cpp
+++ b/src/bms/vm/instructions.cpp
@@ -91,6 +91,11 @@ std::ostream& operator<<(std::ostream& out, const Return&)
     return out << "return";
 }
 
+std::ostream& operator<<(std::ostream& out, const Missing_Return&)
+{
+    return out << "missing_return";
+}
+
 std::ostream& operator<<(std::ostream& out, const Convert& i)
 {
     return out << std::left << std::setw(name_column_width) << "convert to " << i.type;
diff --git a/src/bms/vm/instructions.hpp b/src/bms/vm/instructions.hpp
index 56569ad..e0a93b4 100644
--- a/src/bms/vm/instructions.hpp
+++ b/src/bms/vm/instructions.hpp
@@ -80,6 +80,12 @@ struct Return : detail::Base { };
 
 std::ostream& operator<<(std::ostream& out, const Return&);
 
+/// @brief Marks the end of a function which has to return a value.
+/// It is an error to execute this instruction.
+struct Missing_Return : detail::Base { };
+
+std::ostream& operator<<(std::ostream& out, const Missing_Return&);
+
 /// @brief Pops a value off the stack, converts it to the target type, and pushes the result.
 struct Convert : detail::Base {
     Concrete_Type type;
@@ -127,6 +133,7 @@ using Instruction_Variant = Variant<ins::Load,
                                     ins::Break,
                                     ins::Continue,
                                     ins::Return,
+                                    ins::Missing_Return,
                                     ins::Convert,
                                     ins::Unary_Operate,
                                     ins::Binary_Operate,
diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index d8c66c3..17aa59b 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -99,6 +99,11 @@ struct Cycle_Impl {
         return {};
     }
 
+    Result<void, Execution_Error> operator()(const ins::Missing_Return& i)
+    {
+        return Execution_Error { Execution_Error_Code::missing_return, i.debug_info };
+    }
+
     Result<void, Execution_Error> operator()(const ins::Convert& convert)
     {
         if (self.m_stack.empty()) {
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 37e3e18..fd182d3 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -82,7 +82,10 @@ struct Printable_Error {
 // of faulty codegen.
 [[nodiscard]] bool is_internal(const bms::Analysis_Error& error)
 {
-    return error.code() == bms::Analysis_Error_Code::execution_error
+    return (error.code() == bms::Analysis_Error_Code::execution_error
+            && error.execution_error() != bms::Execution_Error_Code::load_uninitialized
+            && error.execution_error() != bms::Execution_Error_Code::missing_return
+            && error.execution_error() != bms::Execution_Error_Code::infinite_loop)
         || (error.code() == bms::Analysis_Error_Code::evaluation_error
             && error.evaluation_error() == bms::Evaluation_Error_Code::type_error);
 }
@@ -265,6 +268,8 @@ std::string_view to_prose(bms::Execution_Error_Code e)
         return "Call of a function address which is outside the program.";
     case infinite_loop: //
         return "Infinite loop in VM execution.";
+    case missing_return: //
+        return "The end of a function was reached without returning a value.";
     }
     BIT_MANIPULATION_ASSERT_UNREACHABLE("invalid error code");
 }
-- 
2.43.0


From 43377d9c2aa7170dfa864c5f2502c93b77481a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:46 +0000
Subject: [PATCH 32/97] fix: convert initializers, assigned values and operands
 of if-expressions in generated VM code

---
 src/bms/vm/codegen.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 5d9dad7..c795194 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -125,6 +125,16 @@ private:
         return {};
     }
 
+    /// @brief Emits a conversion of the value of `expression` to `type` if its type is different.
+    void convert_if_necessary(const ast::Some_Node* h,
+                              const ast::Some_Node* expression,
+                              const Concrete_Type& type)
+    {
+        if (get_const_value(*expression).value().get_type() != type) {
+            out.push_back(ins::Convert { { h }, type });
+        }
+    }
+
     Result<void, Analysis_Error> generate_code(const ast::Some_Node*, const ast::Type&)
     {
         BIT_MANIPULATION_ASSERT_UNREACHABLE(
@@ -149,6 +159,7 @@ private:
         if (!init) {
             return init;
         }
+        convert_if_necessary(h, node.get_initializer_node(), node.const_value()->get_type());
         out.push_back(ins::Store { { h }, h });
         return init;
     }
@@ -293,6 +304,7 @@ private:
         if (!result) {
             return result;
         }
+        convert_if_necessary(h, node.get_expression_node(), node.const_value()->get_type());
         out.push_back(ins::Store { { h }, to_target(node.lookup_result.value()) });
         return {};
     }
@@ -357,6 +369,7 @@ private:
             restore();
             return left;
         }
+        convert_if_necessary(h, node.get_left_node(), node.const_value()->get_type());
         get<ins::Relative_Jump_If>(out[blank_jump_to_right_index]).offset
             = Signed_Size(out.size() - size_before_left + 1);
 
@@ -368,6 +381,7 @@ private:
             restore();
             return right;
         }
+        convert_if_necessary(h, node.get_right_node(), node.const_value()->get_type());
         get<ins::Relative_Jump>(out[blank_jump_past_right_index]).offset
             = Signed_Size(out.size() - size_before_right);
 
-- 
2.43.0


From dc372d7839733b3e2ebf4ef3d838ad065d3f171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:46 +0000
Subject: [PATCH 33/97] fix: forget the operands of an earlier comparison when
 reporting failed assertions

---
 src/bms/vm/vm.cpp | 1 +
 src/bms/vm/vm.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index 17aa59b..461fd0c 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -195,6 +195,7 @@ struct Cycle_Impl {
         }
         self.m_stack.resize(self.m_stack.size() - params);
         self.m_stack.push_back(*result);
+        self.m_comparison_failure_for_assert.reset();
         ++self.m_instruction_counter;
         return {};
     }
diff --git a/src/bms/vm/vm.hpp b/src/bms/vm/vm.hpp
index 9b01e80..2497b6f 100644
--- a/src/bms/vm/vm.hpp
+++ b/src/bms/vm/vm.hpp
@@ -97,6 +97,7 @@ public:
         m_function_frame_stack.clear();
         m_stack.clear();
         m_instruction_counter = 0;
+        m_comparison_failure_for_assert.reset();
     }
 
     void clear()
-- 
2.43.0


From 1a8252131b2e4198b5cf71700490f4072179ecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 34/97] fix: use the declared return type of functions in
 recursive calls

---
 src/bms/analyze.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 4d05794..84b8d27 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -965,7 +965,8 @@ private:
         }
 
         BIT_MANIPULATION_ASSERT(function->analysis_so_far >= inner_level);
-        Concrete_Type return_type = function->const_value()->get_type();
+        // For recursive calls, the function itself has no value yet, but its signature does.
+        const Concrete_Type return_type = function->get_return_type().concrete_type().value();
 
         // 6. Check whether the function can be called with the given arguments and obtain
         //    concrete values for the parameters if need be.
-- 
2.43.0


From 91df056c0d5b00b79ae321ea9418c90956da1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:03 +0000
Subject: [PATCH 35/97] fix: accept parameters without width in bit-generic
 functions

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 84b8d27..7cc95c0 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -888,7 +888,7 @@ private:
                 const ast::Type& type = possibly_generic_params[i].get_type();
                 // If this function is generic, parameter types wouldn't have undergone analysis.
                 BIT_MANIPULATION_ASSERT(!type.const_value());
-                if (type.concrete_width) {
+                if (type.concrete_width || type.get_width_node() == nullptr) {
                     continue;
                 }
                 const auto* gen_expr = get_if<ast::Id_Expression>(type.get_width_node());
-- 
2.43.0


From bd9dda6d3e4271b8fc6967e20f120f444e4a992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 36/97] fix: report parameters used in their own type

---
 src/bms/analyze.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 7cc95c0..565d082 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -1055,6 +1055,13 @@ private:
                     .build();
             }
 
+            // The width of a parameter may refer to the parameter itself.
+            if (!(*parameter)->get_type().const_value()) {
+                return Analysis_Error_Builder { Analysis_Error_Code::use_of_undefined_variable }
+                    .fail(handle)
+                    .cause(node.lookup_result.value())
+                    .build();
+            }
             node.const_value() = (*parameter)->get_type().const_value();
             return {};
         }
-- 
2.43.0


From 77e3fb687999abda144a75ff64fe4ac8ff6c648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:06 +0000
Subject: [PATCH 37/97] fix: do not take returns in tail-recursive functions
 for infinite loops

---
 src/bms/vm/vm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index 461fd0c..ab9b6ff 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -219,7 +219,9 @@ Result<void, Execution_Error> Virtual_Machine::cycle()
     if (!result) {
         return result;
     }
-    if (counter == m_instruction_counter) {
+    // A tail-recursive function returns to its own return instruction, but every such return leaves
+    // a frame, so this is not an infinite loop.
+    if (counter == m_instruction_counter && !holds_alternative<ins::Return>(next)) {
         return Execution_Error { Execution_Error_Code::infinite_loop, get_debug_info(next) };
     }
     return result;
-- 
2.43.0


From 690f4ba568fdce6406e5f2d21f37075d6444839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 38/97] fix: emit requires-clauses in generated BMS code

---
 src/bmd/codegen/codegen_bms.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index f88ce1e..746a8c6 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -174,6 +174,13 @@ struct Bms_Code_Generator::Visitor {
             return r;
         }
 
+        if (const Some_Node* requires_clause = function.get_requires_clause_node()) {
+            self.write_infix_operator(bms::Token_Type::keyword_requires, Code_Span_Type::keyword);
+            if (auto r = self.generate_code(requires_clause); !r) {
+                return r;
+            }
+        }
+
         self.separate_after_function();
         if (auto r = Visitor { self, function.get_body_node() }(function.get_body()); !r) {
             return r;
-- 
2.43.0


From 1ae60fe7a1237e7580149e6a03a769ed2f634326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 39/97] fix: generate else keywords and separate them by brace
 style

---
 src/bmd/codegen/codegen_bms.cpp    |  5 +++--
 src/bmd/codegen/codegen_c_cpp.cpp  |  5 +++--
 src/bmd/codegen/generator_base.hpp | 11 +++++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 746a8c6..64dc63a 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -304,15 +304,16 @@ struct Bms_Code_Generator::Visitor {
         }
 
         if (const Some_Node* else_node = statement.get_else_node()) {
+            self.separate_before_else();
+            self.write_keyword(bms::Token_Type::keyword_else);
             if (const If_Statement* else_if = get_if<If_Statement>(else_node)) {
-                self.write_indent();
-                self.write_keyword(bms::Token_Type::keyword_else);
                 self.m_out.append(' ');
                 if (auto r = Visitor { self, else_node }(*else_if); !r) {
                     return r;
                 }
             }
             else if (const Block_Statement* else_block = get_if<Block_Statement>(else_node)) {
+                self.separate_after_if();
                 if (auto r = Visitor { self, else_node }(*else_block); !r) {
                     return r;
                 }
diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index ba39b75..421b36c 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -443,15 +443,16 @@ struct C_Cpp_Code_Generator::Visitor {
         }
 
         if (const Some_Node* else_node = statement.get_else_node()) {
+            self.separate_before_else();
+            self.m_out.append("else", Code_Span_Type::keyword);
             if (const If_Statement* else_if = get_if<If_Statement>(else_node)) {
-                self.write_indent();
-                self.m_out.append("else", Code_Span_Type::keyword);
                 self.m_out.append(' ');
                 if (auto r = Visitor { self, else_node }(*else_if); !r) {
                     return r;
                 }
             }
             else if (const Block_Statement* else_block = get_if<Block_Statement>(else_node)) {
+                self.separate_after_if();
                 if (auto r = Visitor { self, else_node }(*else_block); !r) {
                     return r;
                 }
diff --git a/src/bmd/codegen/generator_base.hpp b/src/bmd/codegen/generator_base.hpp
index 293b0f0..459157e 100644
--- a/src/bmd/codegen/generator_base.hpp
+++ b/src/bmd/codegen/generator_base.hpp
@@ -154,6 +154,17 @@ protected:
         }
     }
 
+    void separate_before_else()
+    {
+        if (m_options.brace_style == Brace_Style::k_and_r) {
+            m_out.append(' ');
+        }
+        else {
+            end_line();
+            write_indent();
+        }
+    }
+
     void write_line(std::string_view text)
     {
         BIT_MANIPULATION_ASSERT(m_start_of_line);
-- 
2.43.0


From 12301261626460e085798f5950518f4e27d9ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:16 +0000
Subject: [PATCH 40/97] fix: end generated call statements with a semicolon

---
 src/bmd/codegen/codegen_bms.cpp   | 3 +++
 src/bmd/codegen/codegen_c_cpp.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 64dc63a..5f4db10 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -493,6 +493,9 @@ struct Bms_Code_Generator::Visitor {
                 first = false;
             }
         }
+        if (call.is_statement()) {
+            self.write_semicolon();
+        }
 
         attempt.commit();
         return {};
diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 421b36c..8693394 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -650,6 +650,9 @@ struct C_Cpp_Code_Generator::Visitor {
                 first = false;
             }
         }
+        if (call.is_statement()) {
+            self.write_semicolon();
+        }
 
         attempt.commit();
         return {};
-- 
2.43.0


From 1854fcd3ad29ea874ca563c3d629f2428bdcafcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:18 +0000
Subject: [PATCH 41/97] fix: indent opening braces at the start of a line

---
 src/bmd/codegen/codegen_bms.cpp   | 1 +
 src/bmd/codegen/codegen_c_cpp.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 5f4db10..58ad5a9 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -389,6 +389,7 @@ struct Bms_Code_Generator::Visitor {
     {
         Scoped_Attempt attempt = self.start_attempt();
 
+        self.write_indent();
         self.m_out.append("{", Code_Span_Type::bracket);
         self.end_line();
         {
diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 8693394..7c5dcca 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -531,6 +531,7 @@ struct C_Cpp_Code_Generator::Visitor {
     {
         Scoped_Attempt attempt = self.start_attempt();
 
+        self.write_indent();
         self.m_out.append("{", Code_Span_Type::bracket);
         self.end_line();
         {
-- 
2.43.0


From 9927685a605566deee43db13302d927603f7e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 42/97] fix: give boolean literals in generated BMS code their
 own span type

---
 src/bmd/codegen/codegen_bms.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 58ad5a9..eedca64 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -510,7 +510,10 @@ struct Bms_Code_Generator::Visitor {
 
     [[nodiscard]] Result<void, Generator_Error> operator()(const Literal& literal)
     {
-        self.m_out.append(literal.get_literal(), Code_Span_Type::number);
+        const std::string_view text = literal.get_literal();
+        const bool is_boolean = text == "true" || text == "false";
+        self.m_out.append(text,
+                          is_boolean ? Code_Span_Type::boolean_literal : Code_Span_Type::number);
         return {};
     }
 };
-- 
2.43.0


From 7bcc3dd51e2df79df85c4d387a70af66105fa6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:23 +0000
Subject: [PATCH 43/97] fix: parenthesize operands of generated BMS conversions

---
 src/bmd/codegen/codegen_bms.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index eedca64..ad8236b 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -106,6 +106,11 @@ private:
                                          const Some_Node& inner) const final
     {
         const bms::Expression_Type inner_type = bms::ast::get_expression_type(inner);
+        if (outer_type == bms::Expression_Type::conversion) {
+            // The operand of a conversion is a prefix expression.
+            return !bms::is_primary(inner_type) && !bms::is_postfix_unary(inner_type)
+                && !bms::is_prefix_unary(inner_type);
+        }
         return !std::is_lteq(bms::compare_precedence(outer_type, inner_type));
     }
 
-- 
2.43.0


From 4c3219abfcfc1f89fcd37a8f059666f4ee24c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 44/97] fix: declare C and C++ parameters with the type first

---
 src/bmd/codegen/codegen_c_cpp.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 7c5dcca..4e60ccf 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -341,13 +341,12 @@ struct C_Cpp_Code_Generator::Visitor {
                     self.write_separating_comma();
                 }
                 first = false;
-                self.m_out.append(parameter.get_name(), Code_Span_Type::identifier);
-                self.m_out.append(':', Code_Span_Type::punctuation);
-                self.m_out.append(' ');
                 auto v = Visitor { self, parameter.get_type_node() };
                 if (auto r = v(parameter.get_type()); !r) {
                     return r;
                 }
+                self.m_out.append(' ');
+                self.m_out.append(parameter.get_name(), Code_Span_Type::identifier);
             }
             if (first) {
                 self.write_keyword("void");
-- 
2.43.0


From e467d521747ab6204c7ec083620c6e117847a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 45/97] fix: parenthesize conditional expressions by precedence
 in generated C and C++

---
 src/bmd/codegen/codegen_c_cpp.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 4e60ccf..818dac8 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -576,14 +576,10 @@ struct C_Cpp_Code_Generator::Visitor {
         constexpr auto outer_type = bms::Expression_Type::if_expression;
         Scoped_Attempt attempt = self.start_attempt();
 
-        const Some_Node& parent = *expression.get_parent();
-        const bool parenthesize = is_expression(parent);
-
-        if (parenthesize) {
-            self.m_out.append('(', Code_Span_Type::bracket);
-        }
-
-        if (auto r = self.generate_subexpression(outer_type, expression.get_condition_node()); !r) {
+        // The condition binds more tightly than a conditional expression.
+        if (auto r = self.generate_subexpression(bms::Expression_Type::logical_or,
+                                                 expression.get_condition_node());
+            !r) {
             return r;
         }
         self.write_infix_operator("?");
@@ -595,10 +591,6 @@ struct C_Cpp_Code_Generator::Visitor {
             return r;
         }
 
-        if (!parenthesize) {
-            self.m_out.append(')', Code_Span_Type::bracket);
-        }
-
         attempt.commit();
         return {};
     }
-- 
2.43.0


From 372390559a95195c6dc34beea7613cb4e0d16746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:53 +0000
Subject: [PATCH 46/97] fix: refer to constants by name in generated C23

---
 src/bmd/codegen/codegen_c_cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 818dac8..df7ac6d 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -658,8 +658,8 @@ struct C_Cpp_Code_Generator::Visitor {
                 // Therefore, we are forced to inline these whenever used.
                 if (!self.m_options.c_23) {
                     append_value(self.m_out, constant->const_value()->concrete_value());
+                    return {};
                 }
-                return {};
             }
         }
 
-- 
2.43.0


From b9495f0b4b05ca9cff63455c2dacd413a6c1ae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:56 +0000
Subject: [PATCH 47/97] fix: keep the grouping of operands in the same
 precedence group in generated C and C++

---
 src/bmd/codegen/codegen_c_cpp.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index df7ac6d..e8a1fe5 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -288,6 +288,20 @@ private:
         return !std::is_lteq(compare_readably(outer_group, inner_group));
     }
 
+    /// @brief Generates an operand which must not be in the same precedence group as the outer
+    /// expression, such as the right operand of a (left-associative) binary operator.
+    [[nodiscard]] Result<void, Generator_Error>
+    generate_tighter_subexpression(bms::Expression_Type outer_type, const Some_Node* inner)
+    {
+        const bool same_group = precedence_group_of(outer_type)
+            == precedence_group_of(get_expression_type(*inner));
+        if (!same_group || m_options.always_parenthesize_subexpressions) {
+            return generate_subexpression(outer_type, inner);
+        }
+        Scoped_Parenthesization p = parenthesize();
+        return generate_code(inner);
+    }
+
     struct Visitor;
 };
 
@@ -606,7 +620,8 @@ struct C_Cpp_Code_Generator::Visitor {
 
         self.write_infix_operator(token_type_code_name(expression.get_op()));
 
-        if (auto r = self.generate_subexpression(outer_type, expression.get_right_node()); !r) {
+        if (auto r = self.generate_tighter_subexpression(outer_type, expression.get_right_node());
+            !r) {
             return r;
         }
 
@@ -618,7 +633,7 @@ struct C_Cpp_Code_Generator::Visitor {
     {
         const auto outer_type = expression.get_expression_type();
         self.m_out.append(token_type_code_name(expression.get_op()), Code_Span_Type::operation);
-        return self.generate_subexpression(outer_type, expression.get_expression_node());
+        return self.generate_tighter_subexpression(outer_type, expression.get_expression_node());
     }
 
     Result<void, Generator_Error> operator()(const Function_Call_Expression& call)
-- 
2.43.0


From 9cd155d10cb469473efafa68f07a3753ddb45ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 48/97] fix: give _BitInt widths a span

---
 src/bmd/codegen/codegen_c_cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index e8a1fe5..6d62fde 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -210,7 +210,7 @@ void append_type(Code_String& out, C_Cpp_Type type, C_Cpp_Dialect dialect)
         out.append("_BitInt", Code_Span_Type::keyword);
         out.append('(', Code_Span_Type::bracket);
         // TODO: using allocations here is really dirty; better avoid
-        out.append(std::to_string(type.width));
+        out.append(std::to_string(type.width), Code_Span_Type::number);
         out.append(')', Code_Span_Type::bracket);
         return;
     }
-- 
2.43.0


From 663fdef8168a14ead7332bfd4d17ad9cff1c33c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:06 +0000
Subject: [PATCH 49/97] fix: preserve type and sign of inlined constants in
 generated C and C++

---
 src/bmd/codegen/codegen_c_cpp.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 6d62fde..0440a6b 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -155,6 +155,11 @@ void append_value(Code_String& out, const bms::Concrete_Value& v)
         out.append(v.int_value ? "true" : "false", Code_Span_Type::boolean_literal);
         break;
     case bms::Type_Type::Int: //
+        if (v.int_value < 0) {
+            out.append('-', Code_Span_Type::operation);
+            out.append(to_string(Big_Uint(0) - Big_Uint(v.int_value)), Code_Span_Type::number);
+            break;
+        }
         out.append(to_string(v.int_value), Code_Span_Type::number);
         break;
     case bms::Type_Type::Uint: //
@@ -288,6 +293,26 @@ private:
         return !std::is_lteq(compare_readably(outer_group, inner_group));
     }
 
+    /// @brief Generates the value of a constant in an expression, with the type of the constant.
+    [[nodiscard]] Result<void, Generator_Error>
+    generate_inlined_constant(const Some_Node* node, const bms::Concrete_Value& value)
+    {
+        if (value.type.is_uint()) {
+            {
+                Scoped_Parenthesization p = parenthesize();
+                if (auto r = generate_type(node, value.type); !r) {
+                    return r;
+                }
+            }
+            append_value(m_out, value);
+            return {};
+        }
+        const bool is_negative = value.type.type() == bms::Type_Type::Int && value.int_value < 0;
+        Scoped_Parenthesization p = parenthesize_if(is_negative);
+        append_value(m_out, value);
+        return {};
+    }
+
     /// @brief Generates an operand which must not be in the same precedence group as the outer
     /// expression, such as the right operand of a (left-associative) binary operator.
     [[nodiscard]] Result<void, Generator_Error>
@@ -672,8 +697,8 @@ struct C_Cpp_Code_Generator::Visitor {
                 // Only C23 supports constexpr; there are no "true constants" prior to that.
                 // Therefore, we are forced to inline these whenever used.
                 if (!self.m_options.c_23) {
-                    append_value(self.m_out, constant->const_value()->concrete_value());
-                    return {};
+                    return self.generate_inlined_constant(
+                        node, constant->const_value()->concrete_value());
                 }
             }
         }
-- 
2.43.0


From a7f36ae0e4731b66008604b3fa4e296cb4d62134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:09 +0000
Subject: [PATCH 50/97] fix: suffix large integer literals in generated C and
 C++

---
 src/bmd/codegen/codegen_c_cpp.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 0440a6b..eecffa1 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -1,4 +1,7 @@
+#include <cstdint>
+#include <limits>
 #include <optional>
+#include <string>
 
 #include "common/assert.hpp"
 #include "common/result.hpp"
@@ -142,6 +145,19 @@ struct C_Cpp_Type {
     int width = 0;
 };
 
+/// @brief Appends an integer literal, with a suffix if no standard signed type can hold the value.
+void append_integer(Code_String& out, Big_Uint value)
+{
+    std::string text = to_string(value);
+    if (value > std::numeric_limits<std::uint64_t>::max()) {
+        text += "uwb";
+    }
+    else if (value > Big_Uint(std::numeric_limits<std::int64_t>::max())) {
+        text += "u";
+    }
+    out.append(text, Code_Span_Type::number);
+}
+
 void append_value(Code_String& out, const bms::Concrete_Value& v)
 {
     switch (v.type.type()) {
@@ -160,10 +176,10 @@ void append_value(Code_String& out, const bms::Concrete_Value& v)
             out.append(to_string(Big_Uint(0) - Big_Uint(v.int_value)), Code_Span_Type::number);
             break;
         }
-        out.append(to_string(v.int_value), Code_Span_Type::number);
+        append_integer(out, Big_Uint(v.int_value));
         break;
     case bms::Type_Type::Uint: //
-        out.append(to_string(Big_Uint(v.int_value)), Code_Span_Type::number);
+        append_integer(out, Big_Uint(v.int_value));
         break;
     default: BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid type");
     }
-- 
2.43.0


From 4ff7a74fb0d3deefa6107fe289214372837551f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:45 +0000
Subject: [PATCH 51/97] fix: convert Int operands to the unsigned type of their
 expression in generated C and C++

---
 src/bmd/codegen/codegen_c_cpp.cpp | 54 ++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index eecffa1..6b83c99 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -343,6 +343,33 @@ private:
         return generate_code(inner);
     }
 
+    /// @brief Returns `true` if an operand of type `Int` needs to be converted explicitly to the
+    /// type of the `Uint` expression that it is part of.
+    /// Otherwise, the usual arithmetic conversions would yield a signed type.
+    [[nodiscard]] bool needs_conversion(const bms::Concrete_Type& outer, const Some_Node& inner) const
+    {
+        const std::optional<bms::Value>& value = get_const_value(inner);
+        if (!outer.is_uint() || !value || value->get_type() != bms::Concrete_Type::Int) {
+            return false;
+        }
+        const auto c_type = to_c_type(outer, m_options, m_dialect);
+        return (c_type && c_type->type == C_Cpp_Type_Type::bituint)
+            || (value->is_known() && value->as_int() > std::numeric_limits<std::int32_t>::max());
+    }
+
+    /// @brief Generates an operand, converted to the type of its expression.
+    [[nodiscard]] Result<void, Generator_Error>
+    generate_converted(const bms::Concrete_Type& type, const Some_Node* operand)
+    {
+        {
+            Scoped_Parenthesization p = parenthesize();
+            if (auto r = generate_type(operand, type); !r) {
+                return r;
+            }
+        }
+        return generate_subexpression(bms::Expression_Type::conversion, operand);
+    }
+
     struct Visitor;
 };
 
@@ -637,12 +664,19 @@ struct C_Cpp_Code_Generator::Visitor {
             !r) {
             return r;
         }
+        const bms::Concrete_Type type = expression.const_value()->get_type();
+        const auto generate_branch = [&](const Some_Node* branch) {
+            return self.needs_conversion(type, *branch)
+                ? self.generate_converted(type, branch)
+                : self.generate_subexpression(outer_type, branch);
+        };
+
         self.write_infix_operator("?");
-        if (auto r = self.generate_subexpression(outer_type, expression.get_left_node()); !r) {
+        if (auto r = generate_branch(expression.get_left_node()); !r) {
             return r;
         }
         self.write_infix_operator(":");
-        if (auto r = self.generate_subexpression(outer_type, expression.get_right_node()); !r) {
+        if (auto r = generate_branch(expression.get_right_node()); !r) {
             return r;
         }
 
@@ -653,15 +687,27 @@ struct C_Cpp_Code_Generator::Visitor {
     [[nodiscard]] Result<void, Generator_Error> operator()(const Binary_Expression& expression)
     {
         const auto outer_type = expression.get_expression_type();
+        const bms::Concrete_Type type = expression.const_value()->get_type();
+        const bool is_shift = outer_type == bms::Expression_Type::shift_left
+            || outer_type == bms::Expression_Type::shift_right;
         Scoped_Attempt attempt = self.start_attempt();
 
-        if (auto r = self.generate_subexpression(outer_type, expression.get_left_node()); !r) {
+        const Some_Node* left = expression.get_left_node();
+        const bool is_int_shift = is_shift && get_const_value(*left)
+            && get_const_value(*left)->get_type() == bms::Concrete_Type::Int;
+        const bool convert_left = is_int_shift || self.needs_conversion(type, *left);
+        if (auto r = convert_left ? self.generate_converted(type, left)
+                                  : self.generate_subexpression(outer_type, left);
+            !r) {
             return r;
         }
 
         self.write_infix_operator(token_type_code_name(expression.get_op()));
 
-        if (auto r = self.generate_tighter_subexpression(outer_type, expression.get_right_node());
+        const Some_Node* right = expression.get_right_node();
+        const bool convert_right = !is_shift && self.needs_conversion(type, *right);
+        if (auto r = convert_right ? self.generate_converted(type, right)
+                                   : self.generate_tighter_subexpression(outer_type, right);
             !r) {
             return r;
         }
-- 
2.43.0


From ad0838f08a98fdf3557ca1d7bfb87cad10d82667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 52/97] fix: truncate results of promoted arithmetic in
 generated C and C++

---
 src/bmd/codegen/codegen_c_cpp.cpp | 44 +++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 6b83c99..aeed550 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -370,6 +370,28 @@ private:
         return generate_subexpression(bms::Expression_Type::conversion, operand);
     }
 
+    /// @brief Returns `true` if the result of an operation needs to be truncated explicitly because
+    /// C performs it in `int`, which can represent values that the given type cannot.
+    [[nodiscard]] bool needs_truncation(bms::Expression_Type op, const bms::Concrete_Type& type) const
+    {
+        using enum bms::Expression_Type;
+        switch (op) {
+        case binary_plus:
+        case binary_minus:
+        case multiplication:
+        case shift_left:
+        case unary_minus:
+        case bitwise_not: break;
+        default: return false;
+        }
+        if (!type.is_uint()) {
+            return false;
+        }
+        const auto c_type = to_c_type(type, m_options, m_dialect);
+        return c_type
+            && (c_type->type == C_Cpp_Type_Type::uint8 || c_type->type == C_Cpp_Type_Type::uint16);
+    }
+
     struct Visitor;
 };
 
@@ -692,11 +714,26 @@ struct C_Cpp_Code_Generator::Visitor {
             || outer_type == bms::Expression_Type::shift_right;
         Scoped_Attempt attempt = self.start_attempt();
 
+        const bool truncate = self.needs_truncation(outer_type, type);
+        if (truncate) {
+            Scoped_Parenthesization p = self.parenthesize();
+            if (auto r = self.generate_type(node, type); !r) {
+                return r;
+            }
+        }
+        Scoped_Parenthesization p = self.parenthesize_if(truncate);
+        if (truncate && outer_type == bms::Expression_Type::multiplication) {
+            // The product of two promoted operands could overflow int.
+            self.m_out.append("1u", Code_Span_Type::number);
+            self.write_infix_operator("*");
+        }
+
         const Some_Node* left = expression.get_left_node();
         const bool is_int_shift = is_shift && get_const_value(*left)
             && get_const_value(*left)->get_type() == bms::Concrete_Type::Int;
         const bool convert_left = is_int_shift || self.needs_conversion(type, *left);
         if (auto r = convert_left ? self.generate_converted(type, left)
+            : truncate            ? self.generate_tighter_subexpression(outer_type, left)
                                   : self.generate_subexpression(outer_type, left);
             !r) {
             return r;
@@ -719,6 +756,13 @@ struct C_Cpp_Code_Generator::Visitor {
     [[nodiscard]] Result<void, Generator_Error> operator()(const Prefix_Expression& expression)
     {
         const auto outer_type = expression.get_expression_type();
+        const bms::Concrete_Type type = expression.const_value()->get_type();
+        if (self.needs_truncation(outer_type, type)) {
+            Scoped_Parenthesization p = self.parenthesize();
+            if (auto r = self.generate_type(node, type); !r) {
+                return r;
+            }
+        }
         self.m_out.append(token_type_code_name(expression.get_op()), Code_Span_Type::operation);
         return self.generate_tighter_subexpression(outer_type, expression.get_expression_node());
     }
-- 
2.43.0


From 64d7e51a101dbfbbd7d31f402db9ea713947019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:01 +0000
Subject: [PATCH 53/97] fix: keep leading zeros of the lower digits of large
 integers

---
 src/common/diagnostics.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index fd182d3..3cfa39a 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -32,8 +32,12 @@ std::string to_string(Uint128 x)
     /// The greatest power of 10 that fits into a 64-bit integer.
     constexpr Uint128 exp10_19 = 10000000000000000000ull;
 
-    return x <= std::uint64_t(-1) ? std::to_string(Uint64(x))
-                                  : to_string(x / exp10_19) + std::to_string(Uint64(x % exp10_19));
+    if (x <= std::uint64_t(-1)) {
+        return std::to_string(Uint64(x));
+    }
+    // The lower digits may have leading zeros.
+    const std::string lower = std::to_string(Uint64(x % exp10_19));
+    return to_string(x / exp10_19) + std::string(19 - lower.length(), '0') + lower;
 }
 
 std::string to_string(Int128 x)
-- 
2.43.0


From c68c5a290446bf2840358719ebcfbcf9fb53bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:53 +0000
Subject: [PATCH 54/97] fix: name of the inline annotation is inline, not
 inline_

---
 src/bms/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 947aa15..7e28f2f 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -509,7 +509,7 @@ namespace bit_manipulation::bms {
     using enum Annotation_Type;
     switch (type) {
         BIT_MANIPULATION_ENUM_STRING_CASE(immutable);
-        BIT_MANIPULATION_ENUM_STRING_CASE(inline_);
+        case inline_: return "inline";
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_variable);
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_step);
         BIT_MANIPULATION_ENUM_STRING_CASE(unroll);
-- 
2.43.0


From 479900eee68efac2f0bd536173eb8d7bedb6b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 55/97] fix: allow comments and directives that end with the
 document

---
 src/bmd/parsing/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 6bf8184..0d3a1bc 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -132,7 +132,7 @@ private:
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(m_pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(m_pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             advance_position_based_on(m_source[m_pos.begin]);
         }
-- 
2.43.0


From 7efc78a61692dfac19270950c72a33ff03ab99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 56/97] fix: a line comment in a document may end with the file

---
 src/bmd/parsing/parse.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 0d3a1bc..05b083f 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -809,10 +809,7 @@ private:
             // Parse C99-style line comments.
             if (expect("//")) {
                 newline_count = 0;
-                while (true) {
-                    if (eof()) {
-                        return Parse_Error_Code::unterminated_comment;
-                    }
+                while (!eof()) {
                     const char c = pop();
                     if (c == '\n') {
                         newline_count = 1;
-- 
2.43.0


From 19563620e9f707c608fd98228ddccc7d7939e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 57/97] fix: accept empty blocks of directives

---
 src/bmd/parsing/parse.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 05b083f..ac87081 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -60,7 +60,6 @@ Raw::Raw(const Local_Source_Span& pos, std::string_view value)
     : detail::Base { pos }
     , m_value(value)
 {
-    BIT_MANIPULATION_ASSERT(!value.empty());
 }
 
 } // namespace ast
@@ -579,6 +578,9 @@ private:
 
     Result<ast::Some_Node*, Rule_Error> match_empty_block()
     {
+        if (auto r = expect('{'); !r) {
+            return Rule_Error { r.error(), Grammar_Rule::block };
+        }
         if (auto r = match_blank(); !r) {
             return Rule_Error { Parse_Error_Code::unterminated_comment, Grammar_Rule::block };
         }
@@ -699,13 +701,16 @@ private:
 
     /// @brief Matches a "raw block", which is of the form `{`, text, `}`.
     /// Basically, it matches any brace-enclosed content.
-    /// @return `ast::Text` which excludes the enclosing braces.
+    /// @return `ast::Text` which excludes the enclosing braces, or `nullptr` if the block is empty.
     Result<ast::Some_Node*, Rule_Error> match_raw_block()
     {
         Result<ast::Raw, Rule_Error> raw = match_raw_block_impl();
         if (!raw) {
             return raw.error();
         }
+        if (raw->get_value().empty()) {
+            return nullptr;
+        }
         return alloc_node<ast::Text>(raw->get_source_position(), raw->get_value());
     }
 
-- 
2.43.0


From 697fea4abe3c787ebecd8ce4957b4a17068d11c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 58/97] fix: comments within span blocks no longer hang the
 parser or fail

---
 src/bmd/parsing/parse.cpp | 102 ++++++++++++++++++++++++++++++--------
 1 file changed, 82 insertions(+), 20 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index ac87081..5654f12 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <optional>
 
 #include "common/assert.hpp"
@@ -380,21 +381,12 @@ private:
         const auto initial_pos = m_pos;
         std::pmr::vector<ast::Some_Node*> elements(m_memory);
         while (!eof()) {
-            if (peek(is_space)) {
-                Result<Blank, Rule_Error> blank = match_blank(Grammar_Rule::blank);
-                if (!blank) {
-                    return blank.error();
-                }
-                // If there is a leading space but we couldn't match it as a blank, we must have
-                // run into a paragraph break and should break.
-                if (blank->length == 0) {
-                    break;
-                }
+            Result<Word_Break, Rule_Error> word_break = match_word_break();
+            if (!word_break) {
+                return word_break.error();
             }
-            ast::Some_Node* text = match_text();
-            if (text) {
-                elements.push_back(text);
-                continue;
+            if (*word_break == Word_Break::end) {
+                break;
             }
             if (peek_possible_directive()) {
                 auto directive = match_directive(Directive_Content_Type::span);
@@ -402,7 +394,12 @@ private:
                     return directive;
                 }
                 elements.push_back(*directive);
+                continue;
             }
+            ast::Some_Node* const text = match_text();
+            // We are neither at the EOF, nor at a blank, nor at a directive.
+            BIT_MANIPULATION_ASSERT(text != nullptr);
+            elements.push_back(text);
         }
         return alloc_node<ast::List>({ initial_pos, m_pos.begin - initial_pos.begin },
                                      std::move(elements));
@@ -518,6 +515,72 @@ private:
         return alloc_node<ast::Text>({ initial_pos, text.length() }, text);
     }
 
+    /// @brief Matches the content of a block which can only contain text.
+    /// If the text is interrupted by comments, the result is the text around these,
+    /// separated by spaces.
+    /// @return The text, or `nullptr` if there is none.
+    Result<ast::Some_Node*, Rule_Error> match_text_span()
+    {
+        const Local_Source_Position initial_pos = m_pos;
+        std::pmr::vector<std::string_view> pieces(m_memory);
+        Size joined_length = 0;
+        Size end = m_pos.begin;
+
+        while (!eof()) {
+            Result<Word_Break, Rule_Error> word_break = match_word_break();
+            if (!word_break) {
+                return word_break.error();
+            }
+            if (*word_break == Word_Break::end || peek_possible_directive()) {
+                break;
+            }
+            const std::string_view piece = match_text_impl();
+            BIT_MANIPULATION_ASSERT(!piece.empty());
+            pieces.push_back(piece);
+            joined_length += piece.length() + 1;
+            end = m_pos.begin;
+        }
+        if (pieces.empty()) {
+            return nullptr;
+        }
+        std::string_view text = pieces.front();
+        if (pieces.size() != 1) {
+            char* const joined = static_cast<char*>(m_memory->allocate(joined_length, 1));
+            char* out = joined;
+            for (const std::string_view piece : pieces) {
+                if (out != joined) {
+                    *out++ = ' ';
+                }
+                out = std::copy(piece.begin(), piece.end(), out);
+            }
+            text = { joined, joined_length - 1 };
+        }
+        return alloc_node<ast::Text>({ initial_pos, end - initial_pos.begin }, text);
+    }
+
+    enum struct Word_Break : bool {
+        /// There is nothing more in this paragraph.
+        end,
+        /// Text or a directive follows.
+        more
+    };
+
+    /// @brief Skips blanks within a paragraph.
+    /// If there is a paragraph break, the parser stays in front of it.
+    Result<Word_Break, Rule_Error> match_word_break()
+    {
+        const auto rollback_pos = m_pos;
+        Result<Blank, Parse_Error_Code> blank = match_blank();
+        if (!blank) {
+            return Rule_Error { blank.error(), Grammar_Rule::blank };
+        }
+        if (blank->is_paragraph_break) {
+            m_pos = rollback_pos;
+            return Word_Break::end;
+        }
+        return eof() ? Word_Break::end : Word_Break::more;
+    }
+
     std::string_view match_text_impl()
     {
         const auto initial_pos = m_pos;
@@ -601,18 +664,17 @@ private:
         if (leading_blank->is_paragraph_break) {
             return Rule_Error { Parse_Error_Code::paragraph_break_in_span, Grammar_Rule::block };
         }
-        auto result = directives_allowed ? match_paragraph() : match_text();
+        auto result = directives_allowed ? match_paragraph() : match_text_span();
         if (!result) {
             return result;
         }
-        if (peek(is_space)) {
-            // Text already consumes trailing space, so it only would have failed to consume
-            // all if the trailing space is a paragraph break.
-            return Rule_Error { Parse_Error_Code::paragraph_break_in_span, Grammar_Rule::block };
-        }
         if (!directives_allowed && peek_possible_directive()) {
             return Rule_Error { Parse_Error_Code::directive_in_text_span, Grammar_Rule::block };
         }
+        if (!eof()) {
+            // Trailing blanks are consumed, unless they are a paragraph break.
+            return Rule_Error { Parse_Error_Code::paragraph_break_in_span, Grammar_Rule::block };
+        }
         return result;
     }
 
-- 
2.43.0


From 77734faac7adb65e888eaf7f11975c275d3198f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 59/97] fix: argument lists may be empty and commas between or
 after arguments omitted

---
 src/bmd/parsing/parse.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 5654f12..56326fb 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -462,6 +462,9 @@ private:
             if (auto r = match_blank(Grammar_Rule::blank); !r) {
                 return r.error();
             }
+            if (peek(']')) {
+                break;
+            }
             // restoration is solely for diagnostics quality
             auto restore_pos = m_pos;
 
@@ -493,8 +496,9 @@ private:
             if (eof()) {
                 return Rule_Error { Parse_Error_Code::unexpected_eof, Grammar_Rule::argument };
             }
-            if (!expect(',')) {
-                break;
+            // The comma is optional, also after the last argument.
+            if (peek(',')) {
+                pop();
             }
         }
         if (auto r = expect(']'); !r) {
-- 
2.43.0


From b819097024f5b4c473319410511eee5c0e26759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 60/97] fix: reject integer arguments which do not fit the
 number they are stored in

---
 src/bmd/parsing/parse.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 56326fb..8a87608 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <limits>
 #include <optional>
 
 #include "common/assert.hpp"
@@ -961,9 +962,8 @@ private:
         }
 
         std::optional<Big_Int> value = parse_integer_literal(s.substr(0, literal_match.length));
-        if (!value) {
-            return Rule_Error { Parse_Error_Code::invalid_integer_literal,
-                                Grammar_Rule::decimal_literal };
+        if (!value || *value > std::numeric_limits<Int64>::max()) {
+            return Rule_Error { Parse_Error_Code::invalid_integer_literal, rule };
         }
         const auto initial_pos = std::exchange(m_pos, m_pos.to_right(literal_match.length));
         return ast::Number { { initial_pos, literal_match.length },
-- 
2.43.0


From 18e4d4b7ef9a3961331c0ee49b38510f1a6f96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 61/97] fix: positions of paragraphs span exactly their
 contents

---
 src/bmd/parsing/parse.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 8a87608..ec9d99a 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -312,17 +312,17 @@ private:
         /// If `!paragraph_elements.empty()`, creates a new paragraph containing the elements
         /// and appends it to `elements`.
         /// Other state is update to make subsequent calls possible.
-        auto break_paragraph =
-            [this, &elements, &paragraph_elements, pos_before_paragraph = initial_pos]() mutable //
+        auto break_paragraph = [this, &elements, &paragraph_elements]() //
         {
             if (paragraph_elements.empty()) {
                 return;
             }
-            elements.push_back(alloc_node<ast::List>(
-                { pos_before_paragraph, m_pos.begin - pos_before_paragraph.begin },
-                std::vector(paragraph_elements)));
+            const Local_Source_Span first = get_source_span(*paragraph_elements.front());
+            const Local_Source_Span last = get_source_span(*paragraph_elements.back());
+            elements.push_back(alloc_node<ast::List>({ first, last.end() - first.begin },
+                                                     std::pmr::vector<ast::Some_Node*>(
+                                                         paragraph_elements, m_memory)));
             paragraph_elements.clear();
-            pos_before_paragraph = m_pos;
         };
 
         while (!eof()) {
-- 
2.43.0


From b4776362ecf32b84d77d5d2d3c5bdc749657209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:41 +0000
Subject: [PATCH 62/97] fix: escape ampersands in HTML text and quotes in
 attribute values

---
 src/bmd/html/html_writer.cpp | 25 +++++++++++++++++++------
 src/bmd/html/html_writer.hpp | 10 +++++++++-
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 0e01596..601caf8 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -36,18 +36,32 @@ void HTML_Writer::write_escaped_text(std::string_view text)
 {
     BIT_MANIPULATION_ASSERT(m_state == State::new_line || m_state == State::normal);
 
+    write_escaped(text, "&<>", HTML_Token_Type::inner_text);
+    m_state = State::normal;
+}
+
+void HTML_Writer::write_escaped(std::string_view text,
+                                std::string_view special_characters,
+                                HTML_Token_Type type)
+{
     while (!text.empty()) {
-        const Size bracket_pos = text.find_first_of("<>");
+        const Size bracket_pos = text.find_first_of(special_characters);
         const std::string_view snippet = text.substr(0, std::min(text.length(), bracket_pos));
-        m_out.write(snippet, HTML_Token_Type::inner_text);
+        m_out.write(snippet, type);
         if (bracket_pos == std::string_view::npos) {
             break;
         }
         else if (text[bracket_pos] == '<') {
-            m_out.write("&lt;", HTML_Token_Type::inner_text);
+            m_out.write("&lt;", type);
         }
         else if (text[bracket_pos] == '>') {
-            m_out.write("&gt;", HTML_Token_Type::inner_text);
+            m_out.write("&gt;", type);
+        }
+        else if (text[bracket_pos] == '&') {
+            m_out.write("&amp;", type);
+        }
+        else if (text[bracket_pos] == '"') {
+            m_out.write("&quot;", type);
         }
         else {
             BIT_MANIPULATION_ASSERT_UNREACHABLE("Logical mistake.");
@@ -55,7 +69,6 @@ void HTML_Writer::write_escaped_text(std::string_view text)
 
         text = text.substr(bracket_pos + 1);
     }
-    m_state = State::normal;
 }
 
 auto HTML_Writer::write_whitespace(char c, Size length) -> Self&
@@ -209,7 +222,7 @@ auto HTML_Writer::write_attribute(std::string_view key, std::string_view value)
         m_out.write('=', HTML_Token_Type::attribute_equal);
         if (requires_quotes_in_attribute(value)) {
             m_out.write('"', HTML_Token_Type::attribute_quote);
-            m_out.write(value, HTML_Token_Type::attribute_value);
+            write_escaped(value, "&\"", HTML_Token_Type::attribute_value);
             m_out.write('"', HTML_Token_Type::attribute_quote);
         }
         else {
diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 7091eab..e32187b 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -14,7 +14,7 @@ namespace bit_manipulation::bmd {
 /// no wrapping, but `id="<x>"` requires `<x>` to be surrounded by quotes.
 inline bool requires_quotes_in_attribute(std::string_view value)
 {
-    return value.find_first_of("\"/'`=<> ") != std::string_view::npos;
+    return value.find_first_of("\"/'`=<>& \t\n\r\f") != std::string_view::npos;
 }
 
 /// @brief The formatting style of an HTML tag.
@@ -211,6 +211,14 @@ private:
     /// @param text the text to write
     void write_escaped_text(std::string_view text);
 
+    /// @brief Writes text and replaces any of the `special_characters` with HTML entities.
+    /// @param text the text to write
+    /// @param special_characters a subset of `&<>"`
+    /// @param type the type of the written tokens
+    void write_escaped(std::string_view text,
+                       std::string_view special_characters,
+                       HTML_Token_Type type);
+
     void break_line();
     void indent(Formatting_Style style);
 };
-- 
2.43.0


From 6bc873a8e3867a45b95d2107ce0c81f319eb54ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:41 +0000
Subject: [PATCH 63/97] fix: superscripts use the sup element

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 32e8f24..986f9ad 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -216,7 +216,7 @@ std::string_view directive_type_tag(Directive_Type type)
     case quoted: return "q";
     case strikethrough: return "s";
     case subscript: return "sub";
-    case superscript: return "sub";
+    case superscript: return "sup";
     case teletype: return "tt";
     case underlined: return "u";
     case unordered_list: return "ul";
-- 
2.43.0


From 7ca60dcfa75629e31bfd8e64a431b14424665f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:41 +0000
Subject: [PATCH 64/97] fix: unknown directives which sort after all known ones

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 986f9ad..aea90bd 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -190,7 +190,7 @@ std::optional<Directive_Type> directive_type_by_id(std::string_view directive_id
     static_assert(std::ranges::is_sorted(lookup, {}, &Pair::id));
 
     const auto it = std::ranges::lower_bound(lookup, directive_id, {}, &Pair::id);
-    if (it->id != directive_id) {
+    if (it == std::ranges::end(lookup) || it->id != directive_id) {
         return {};
     }
     return it->type;
-- 
2.43.0


From 81c55382e708070dcb1b4b76718a1f930e8a05f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:24 +0000
Subject: [PATCH 65/97] fix: tags of directives without a block are void or
 closed

---
 src/bmd/html/doc_to_html.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 60f43bc..13165bb 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -262,11 +262,16 @@ struct HTML_Converter {
         const Tag_Properties tag { directive_type_tag(directive.get_type()),
                                    directive_type_formatting_style(directive.get_type()) };
 
-        BIT_MANIPULATION_ASSERT(directive.get_block() != nullptr
-                                || !directive_type_must_be_empty(directive.get_type()));
-
-        if (directive.get_block() == nullptr && directive.m_arguments.empty()) {
-            m_writer.write_empty_tag(tag);
+        if (directive_type_must_be_empty(directive.get_type())) {
+            BIT_MANIPULATION_ASSERT(directive.get_block() == nullptr);
+            if (directive.m_arguments.empty()) {
+                m_writer.write_empty_tag(tag);
+            }
+            else {
+                auto attribute_writer = m_writer.begin_tag_with_attributes(tag);
+                pass_through_attributes(directive, attribute_writer);
+                attribute_writer.end_empty();
+            }
         }
         else {
             begin_tag_with_passed_through_attributes(directive, tag);
@@ -290,6 +295,7 @@ struct HTML_Converter {
 
         auto attribute_writer = m_writer.begin_tag_with_attributes(properties);
         pass_through_attributes(directive, attribute_writer);
+        attribute_writer.end();
     }
 
     void pass_through_attributes(const ast::Directive& directive,
@@ -306,12 +312,6 @@ struct HTML_Converter {
             }
             BIT_MANIPULATION_ASSERT_UNREACHABLE("Unknown attribute value type.");
         }
-        if (directive.get_block() == nullptr) {
-            attribute_writer.end_empty();
-        }
-        else {
-            attribute_writer.end();
-        }
     }
 
     [[nodiscard]] Result<void, Document_Error>
-- 
2.43.0


From 06cd9a2b3b0efe006187f848c15d1026a912ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:24 +0000
Subject: [PATCH 66/97] fix: the slash of empty tags is not part of the last
 attribute value

---
 src/bmd/html/html_writer.cpp | 8 +++++++-
 src/bmd/html/html_writer.hpp | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 601caf8..4988168 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -136,9 +136,10 @@ Attribute_Writer HTML_Writer::begin_tag_with_attributes(Tag_Properties propertie
 
     indent(properties.style);
     m_out.write('<', HTML_Token_Type::tag_bracket);
-    m_out.write(properties.id, HTML_Token_Type::tag_bracket);
+    m_out.write(properties.id, HTML_Token_Type::tag_identifier);
 
     m_state = State::attributes;
+    m_unquoted_attribute = false;
 
     return { *this, properties.style };
 }
@@ -217,6 +218,7 @@ auto HTML_Writer::write_attribute(std::string_view key, std::string_view value)
 
     m_out.write(' ', HTML_Token_Type::whitespace);
     m_out.write(key, HTML_Token_Type::attribute_key);
+    m_unquoted_attribute = !value.empty() && !requires_quotes_in_attribute(value);
 
     if (!value.empty()) {
         m_out.write('=', HTML_Token_Type::attribute_equal);
@@ -258,6 +260,10 @@ auto HTML_Writer::end_empty_tag_attributes(Formatting_Style style) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
 
+    if (m_unquoted_attribute) {
+        // Otherwise, the slash would be part of the attribute value.
+        m_out.write(' ', HTML_Token_Type::whitespace);
+    }
     m_out.write("/>", HTML_Token_Type::tag_bracket);
     m_state = State::normal;
 
diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index e32187b..2c0d209 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -124,6 +124,7 @@ private:
     enum struct State { initial, attributes, normal, new_line } m_state = State::initial;
     Size m_depth = 0;
     Size m_indent_depth = 0;
+    bool m_unquoted_attribute = false;
 
 public:
     /// @brief Constructor.
-- 
2.43.0


From 622e603869451760afcf598dab809951658a85b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:24 +0000
Subject: [PATCH 67/97] fix: convert item and note directives instead of
 failing internally

---
 src/bmd/enums.cpp            | 5 +++--
 src/bmd/html/doc_to_html.cpp | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index aea90bd..e240baf 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -227,9 +227,10 @@ std::string_view directive_type_tag(Directive_Type type)
     case meta: return "head";
     case title: return "title";
 
+    case item: return "li";
+
     case bms_function:
-    case c_equivalent:
-    case item: return "";
+    case c_equivalent: return "";
     }
     BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid directive type.");
 }
diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 13165bb..e3b6ddd 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -248,6 +248,9 @@ struct HTML_Converter {
 
         case Directive_Type::instruction: return convert_instruction_directive(directive);
 
+        case Directive_Type::item:
+        case Directive_Type::note: return convert_html_passthrough_directive(directive);
+
         default: BIT_MANIPULATION_ASSERT_UNREACHABLE("Unimplemented directive type.");
         }
     }
@@ -255,7 +258,9 @@ struct HTML_Converter {
     [[nodiscard]] Result<void, Document_Error>
     convert_html_passthrough_directive(const ast::Directive& directive)
     {
-        BIT_MANIPULATION_ASSERT(directive_type_is_html_passthrough(directive.get_type()));
+        BIT_MANIPULATION_ASSERT(directive_type_is_html_passthrough(directive.get_type())
+                                || directive.get_type() == Directive_Type::item
+                                || directive.get_type() == Directive_Type::note);
 
         m_at_start_of_file = false;
 
-- 
2.43.0


From 4ee46330a356623865b1383390f3fc9682826de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:24 +0000
Subject: [PATCH 68/97] fix: instructions without text or with a numeric
 extension no longer crash

---
 src/bmd/html/doc_to_html.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index e3b6ddd..3967a1f 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -446,17 +446,23 @@ struct HTML_Converter {
             return id->get_value();
         }();
 
+        if (!extension) {
+            return extension.error();
+        }
+
         static constexpr Tag_Properties hyperlink { "a", Formatting_Style::in_line };
         static constexpr Tag_Properties code { "code", Formatting_Style::in_line };
 
-        // TODO: deal with potentially empty text (null block)
-        const ast::Text& text = get<ast::Text>(*directive.get_block());
+        std::string_view text;
+        if (const ast::Some_Node* const block = directive.get_block()) {
+            text = get<ast::Text>(*block).get_text();
+        }
 
         std::string_view link_prefix = architecture_link_prefix(*arch);
 
         if (!link_prefix.empty()) {
             std::pmr::string link(link_prefix, m_memory);
-            link += text.get_text();
+            link += text;
 
             m_writer
                 .begin_tag_with_attributes(hyperlink) //
@@ -464,7 +470,7 @@ struct HTML_Converter {
                 .end();
         }
         m_writer.begin_tag(code);
-        m_writer.write_inner_text(text.get_text(), Formatting_Style::in_line);
+        m_writer.write_inner_text(text, Formatting_Style::in_line);
         m_writer.end_tag(code);
 
         if (!link_prefix.empty()) {
-- 
2.43.0


From 96865b746784b00ff22ee348d4102824638a2126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:24 +0000
Subject: [PATCH 69/97] fix: reject every kind of duplicate meta entry

---
 src/bmd/html/doc_to_html.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 3967a1f..2a6e538 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -335,20 +335,23 @@ struct HTML_Converter {
         }
 
         const ast::Directive* title_directive = nullptr;
+        const ast::Directive* bms_function_directive = nullptr;
+        const ast::Directive* c_equivalent_directive = nullptr;
         for (const ast::Some_Node* const p :
              get<ast::List>(*directive.get_block()).get_children()) {
             const auto& child = get<ast::Directive>(*p);
             if (auto r = update_metadata_from_directive(child); !r) {
                 return r;
             }
-            if (child.get_type() == Directive_Type::title) {
-                if (title_directive != nullptr) {
-                    // TODO: check this for other entries as well
-                    return Document_Error { Document_Error_Code::duplicate_meta_entry,
-                                            child.get_source_position() };
-                }
-                title_directive = &child;
+            const ast::Directive*& entry = child.get_type() == Directive_Type::title
+                ? title_directive
+                : child.get_type() == Directive_Type::bms_function ? bms_function_directive
+                                                                   : c_equivalent_directive;
+            if (entry != nullptr) {
+                return Document_Error { Document_Error_Code::duplicate_meta_entry,
+                                        child.get_source_position() };
             }
+            entry = &child;
         }
 
         if (title_directive != nullptr) {
-- 
2.43.0


From b4ae03d160625230118185fff62dabc4d807c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:24 +0000
Subject: [PATCH 70/97] fix: contents of inline code are raw, as its conversion
 expects

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index e240baf..a285bb5 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -77,7 +77,6 @@ Directive_Content_Type directive_type_content_type(Directive_Type type)
     case title: return Directive_Content_Type::text_span;
 
     case bold:
-    case code:
     case deleted:
     case heading1:
     case heading2:
@@ -95,6 +94,7 @@ Directive_Content_Type directive_type_content_type(Directive_Type type)
     case teletype:
     case underlined: return Directive_Content_Type::span;
 
+    case code:
     case code_block: return Directive_Content_Type::raw;
 
     case note: return Directive_Content_Type::block;
-- 
2.43.0


From 5b89b7b34850259ed6951de51c4c2384e148800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:24 +0000
Subject: [PATCH 71/97] fix: show code in languages without highlighting as
 plain text

---
 src/bmd/html/doc_to_html.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 2a6e538..62d221f 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -415,8 +415,9 @@ struct HTML_Converter {
             break;
         }
         default:
-            BIT_MANIPULATION_ASSERT_UNREACHABLE(
-                "Only bms and plaintext highlighting is implemented.");
+            // Only bms highlighting is implemented, but other code is still displayed.
+            m_writer.write_inner_text(code_text->get_text(), Formatting_Style::pre);
+            break;
         }
 
         return {};
-- 
2.43.0


From 54023ce7df05aae4f155ac82b6febe43a79016c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:24 +0000
Subject: [PATCH 72/97] fix: convert texts which are separated by comments

---
 src/bmd/html/doc_to_html.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 62d221f..42c4314 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -191,15 +191,13 @@ struct HTML_Converter {
                 if (i + 1 >= children.size()) {
                     continue;
                 }
-                // get is appropriate here because there cannot be two consecutive Text
-                // elements
-                const auto& d = get<ast::Directive>(*children[i + 1]);
+                // Texts can be consecutive if there is a comment between them.
+                const Local_Source_Span next_pos = get_source_span(*children[i + 1]);
 
-                if (current_pos.end() == d.get_source_position().begin) {
+                if (current_pos.end() == next_pos.begin) {
                     continue;
                 }
-                const bool separate_lines
-                    = d.get_source_position().line + 1 > current_pos.line + *lines_written;
+                const bool separate_lines = next_pos.line + 1 > current_pos.line + *lines_written;
                 m_writer.write_whitespace(separate_lines ? '\n' : ' ', 1);
                 // TODO: this approach isn't perfect because it doesn't handle line breaks
                 // after directives properly. It would be best if directives stored what type
-- 
2.43.0


From 31ddd760166f484395e300416195e3772fb3539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:57 +0000
Subject: [PATCH 73/97] fix: highlighting preserves the space between tokens

---
 src/bmd/html/bms_to_html.cpp |  4 +++-
 src/bmd/html/doc_to_html.cpp |  3 +--
 src/bmd/html/html_writer.cpp | 19 +++----------------
 src/bmd/html/html_writer.hpp |  5 ++---
 4 files changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/bmd/html/bms_to_html.cpp b/src/bmd/html/bms_to_html.cpp
index 3e773a0..e949b82 100644
--- a/src/bmd/html/bms_to_html.cpp
+++ b/src/bmd/html/bms_to_html.cpp
@@ -91,7 +91,9 @@ void tokens_to_html(HTML_Writer& out, std::span<const bms::Token> tokens, std::s
 {
     for (Size i = 0; i < tokens.size(); ++i) {
         if (i != 0) {
-            out.write_source_gap(tokens[i - 1].pos, tokens[i].pos, Formatting_Style::pre);
+            const Size gap_begin = tokens[i - 1].pos.end();
+            const std::string_view gap = code.substr(gap_begin, tokens[i].pos.begin - gap_begin);
+            out.write_inner_text(gap, Formatting_Style::pre);
         }
 
         const Code_Span_Type category = categorize_token_type(tokens[i].type);
diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 42c4314..5d27640 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -178,8 +178,7 @@ struct HTML_Converter {
 
             if (i != 0) {
                 if (const auto* const d = get_if<ast::Directive>(children[i - 1])) {
-                    m_writer.write_source_gap(d->get_source_position(), current_pos,
-                                              Formatting_Style::in_line);
+                    m_writer.write_source_gap(d->get_source_position(), current_pos);
                 }
             }
 
diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 4988168..8272bd5 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -275,25 +275,12 @@ auto HTML_Writer::end_empty_tag_attributes(Formatting_Style style) -> Self&
 }
 
 auto HTML_Writer::write_source_gap(const Local_Source_Span& first,
-                                   const Local_Source_Span& second,
-                                   Formatting_Style style) -> Self&
+                                   const Local_Source_Span& second) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state != State::attributes && m_state != State::initial);
-    BIT_MANIPULATION_ASSERT(first.line < second.line
-                            || (first.line == second.line && first.column <= second.column));
+    BIT_MANIPULATION_ASSERT(first.end() <= second.begin);
 
-    if (style == Formatting_Style::pre) {
-        if (first.line != second.line) {
-            m_out.write('\n', second.line - first.line, HTML_Token_Type::whitespace);
-            if (second.column != 0) {
-                m_out.write(' ', second.column, HTML_Token_Type::whitespace);
-            }
-        }
-        else if (first.column != second.column) {
-            m_out.write(' ', second.column - first.end_column(), HTML_Token_Type::whitespace);
-        }
-    }
-    else if (first.end() != second.begin) {
+    if (first.end() != second.begin) {
         m_out.write(' ', HTML_Token_Type::whitespace);
     }
 
diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 2c0d209..13f299a 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -194,9 +194,8 @@ public:
 
     Self& write_whitespace(char c, Size length);
 
-    Self& write_source_gap(const Local_Source_Span& first,
-                           const Local_Source_Span& second,
-                           Formatting_Style style);
+    /// @brief Writes a space if there is a gap between two parts of a paragraph.
+    Self& write_source_gap(const Local_Source_Span& first, const Local_Source_Span& second);
 
 private:
     friend struct Attribute_Writer;
-- 
2.43.0


From 059a9177d6c41852995fb829c46d898920fc1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:57 +0000
Subject: [PATCH 74/97] fix: replace escape sequences in converted text

---
 src/bmd/html/doc_to_html.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 5d27640..f1a60a4 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -228,7 +228,21 @@ struct HTML_Converter {
                                                             Formatting_Style inherited_style)
     {
         m_at_start_of_file = false;
-        return m_writer.write_inner_text(text.get_text(), inherited_style);
+        return m_writer.write_inner_text(unescape(text.get_text()), inherited_style);
+    }
+
+    /// @brief Replaces escape sequences in text with the characters they stand for.
+    [[nodiscard]] std::pmr::string unescape(std::string_view text) const
+    {
+        std::pmr::string result(m_memory);
+        for (Size i = 0; i < text.length(); ++i) {
+            // Outside of escape sequences, there are no backslashes in text.
+            if (text[i] == '\\' && i + 1 < text.length()) {
+                ++i;
+            }
+            result.push_back(text[i]);
+        }
+        return result;
     }
 
     [[nodiscard]] Result<void, Document_Error> convert_directive(const ast::Directive& directive)
@@ -354,7 +368,7 @@ struct HTML_Converter {
         if (title_directive != nullptr) {
             const Tag_Properties heading { "h1", Formatting_Style::in_line };
             begin_tag_with_passed_through_attributes(*title_directive, heading);
-            m_writer.write_inner_text(m_meta.title, heading.style);
+            m_writer.write_inner_text(unescape(m_meta.title), heading.style);
             m_writer.end_tag(heading);
         }
 
@@ -454,9 +468,9 @@ struct HTML_Converter {
         static constexpr Tag_Properties hyperlink { "a", Formatting_Style::in_line };
         static constexpr Tag_Properties code { "code", Formatting_Style::in_line };
 
-        std::string_view text;
+        std::pmr::string text(m_memory);
         if (const ast::Some_Node* const block = directive.get_block()) {
-            text = get<ast::Text>(*block).get_text();
+            text = unescape(get<ast::Text>(*block).get_text());
         }
 
         std::string_view link_prefix = architecture_link_prefix(*arch);
-- 
2.43.0


From edef4643636fc0dd0723a2ed964eebfc336799d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:30 +0000
Subject: [PATCH 75/97] fix: block elements with attributes no longer fail
 internally

---
 src/bmd/html/html_writer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 8272bd5..8f80562 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -240,6 +240,7 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
 
     m_out.write('>', HTML_Token_Type::tag_bracket);
+    m_state = State::normal;
 
     if (is_block_like(style)) {
         break_line();
@@ -247,9 +248,6 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
             ++m_indent_depth;
         }
     }
-    else {
-        m_state = State::normal;
-    }
 
     ++m_depth;
 
-- 
2.43.0


From 2c8f2be9f0e7cb3cc0e64fe4cdb1382c1041155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:26 +0000
Subject: [PATCH 76/97] fix: bad return values are diagnosed without failing
 internally

---
 src/bms/analyze.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 565d082..95f865c 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -536,6 +536,7 @@ private:
             return Analysis_Error_Builder { Analysis_Error_Code::incompatible_types }
                 .fail(handle)
                 .cause(function->get_return_type_node())
+                .type(return_type)
                 .build();
         }
         const Result<Value, Evaluation_Error_Code> eval_result
-- 
2.43.0


From 3a6863ab484a443d05dddf9b210f17002c802376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:26 +0000
Subject: [PATCH 77/97] fix: diagnose every tokenization error

---
 src/common/diagnostics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 3cfa39a..9aec52c 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -102,10 +102,14 @@ std::string_view to_prose(bms::Tokenize_Error_Code e)
     switch (e) {
     case bms::Tokenize_Error_Code::illegal_character: //
         return "Illegal character encountered.";
+    case bms::Tokenize_Error_Code::no_digits_following_integer_prefix: //
+        return "The prefix of an integer literal must be followed by digits.";
     case bms::Tokenize_Error_Code::integer_suffix: //
         return "Suffix after integer literal is not allowed";
     case bms::Tokenize_Error_Code::unterminated_comment: //
         return "Unterminated block comment found. '/*' must have a matching '*/'";
+    case bms::Tokenize_Error_Code::unterminated_string: //
+        return "Unterminated string literal found. '\"' must have a matching '\"'";
     default: //
         BIT_MANIPULATION_ASSERT_UNREACHABLE("invalid error code");
     }
-- 
2.43.0


From 7e86eae5230f3e71c23ae19b2195da169debf375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:26 +0000
Subject: [PATCH 78/97] fix: quote the affected line for errors at the end of a
 line or file

---
 src/common/diagnostics.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 9aec52c..3222f71 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -634,12 +634,14 @@ std::ostream& print_file_position(std::ostream& out,
 
 std::string_view find_line(std::string_view source, Size index)
 {
-    BIT_MANIPULATION_ASSERT(index < source.size());
+    // Errors at the end of the file are located one past the last character.
+    BIT_MANIPULATION_ASSERT(index <= source.size());
 
-    Size begin = source.rfind('\n', index);
+    // The newline character is considered to be a part of the line which it terminates.
+    Size begin = index == 0 ? std::string_view::npos : source.rfind('\n', index - 1);
     begin = begin != std::string_view::npos ? begin + 1 : 0;
 
-    Size end = std::min(source.find('\n', index + 1), source.size());
+    Size end = std::min(source.find('\n', index), source.size());
 
     return source.substr(begin, end - begin);
 }
@@ -750,10 +752,6 @@ std::ostream& print_parse_error(std::ostream& out,
         out << to_prose(error.code) << '\n';
     }
 
-    if (source.empty()) {
-        return out;
-    }
-
     return print_affected_line(out, source, error.pos, colors);
 }
 
-- 
2.43.0


From f9d6d80917d4f995e6df9ffbbabac75d9773b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 79/97] fix: do not print colors in diagnostics and syntax
 trees when disabled

---
 src/common/diagnostics.cpp | 48 +++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 3222f71..11342bc 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -94,8 +94,28 @@ struct Printable_Error {
             && error.evaluation_error() == bms::Evaluation_Error_Code::type_error);
 }
 
-const std::string error_prefix = std::string(ansi::h_red) + "error: " + std::string(ansi::reset);
-const std::string note_prefix = std::string(ansi::h_white) + "note: " + std::string(ansi::reset);
+std::string colored(std::string_view color, std::string_view text, bool colors)
+{
+    std::string result;
+    if (colors) {
+        result += color;
+    }
+    result += text;
+    if (colors) {
+        result += ansi::reset;
+    }
+    return result;
+}
+
+std::string error_prefix(bool colors)
+{
+    return colored(ansi::h_red, "error: ", colors);
+}
+
+std::string note_prefix(bool colors)
+{
+    return colored(ansi::h_white, "note: ", colors);
+}
 
 std::string_view to_prose(bms::Tokenize_Error_Code e)
 {
@@ -590,8 +610,8 @@ std::ostream& print_printable_error(std::ostream& out, const Printable_Error& er
     for (const Error_Line& line : error.lines) {
         print_source_position(out, line.pos, colors) << ": ";
         switch (line.type) {
-        case Error_Line_Type::error: out << error_prefix; break;
-        case Error_Line_Type::note: out << note_prefix; break;
+        case Error_Line_Type::error: out << error_prefix(colors); break;
+        case Error_Line_Type::note: out << note_prefix(colors); break;
         }
         out << line.message;
 
@@ -694,7 +714,7 @@ std::ostream& print_tokenize_error(std::ostream& out,
                                    bool colors)
 {
     print_file_position(out, file, e.pos, colors);
-    out << ": " << error_prefix << to_prose(e.code) << '\n';
+    out << ": " << error_prefix(colors) << to_prose(e.code) << '\n';
     print_affected_line(out, source, e.pos, colors);
     return out;
 }
@@ -705,7 +725,7 @@ std::ostream& print_parse_error(std::ostream& out,
                                 const bms::Parse_Error& error,
                                 bool colors)
 {
-    print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix;
+    print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix(colors);
     if (error.fail_token.pos.length == 0) {
         out << "unexpected end of file";
     }
@@ -715,7 +735,7 @@ std::ostream& print_parse_error(std::ostream& out,
     out << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
 
     print_file_position(out, file, error.fail_token.pos, colors)
-        << ": " << note_prefix << "expected ";
+        << ": " << note_prefix(colors) << "expected ";
 
     const std::span<const bms::Token_Type> expected = error.expected_tokens;
     if (expected.size() == 0) {
@@ -741,7 +761,7 @@ std::ostream& print_parse_error(std::ostream& out,
                                 const bmd::Parse_Error& error,
                                 bool colors)
 {
-    print_file_position(out, file, error.pos, colors) << ": " << error_prefix;
+    print_file_position(out, file, error.pos, colors) << ": " << error_prefix(colors);
 
     if (error.code == bmd::Parse_Error_Code::unexpected_character) {
         out << "unexpected character '" << source[error.pos.begin] << "' while matching '"
@@ -771,7 +791,7 @@ std::ostream& print_document_error(std::ostream& out,
                                    bool colors)
 {
     print_file_position(out, file, error.pos, colors)
-        << ": " << error_prefix << to_prose(error.code) << '\n';
+        << ": " << error_prefix(colors) << to_prose(error.code) << '\n';
 
     print_affected_line(out, source, error.pos, colors);
     if (error.code == bmd::Document_Error_Code::writer_misuse) {
@@ -928,18 +948,18 @@ struct BMD_AST_Printer {
         const auto* const directive = get_if<bmd::ast::Directive>(node);
 
         if (directive) {
-            out << ansi::h_green << '\\' << directive->get_identifier();
+            out << color(ansi::h_green) << '\\' << directive->get_identifier();
         }
         else {
-            out << ansi::h_magenta << node_name;
+            out << color(ansi::h_magenta) << node_name;
         }
-        out << ansi::h_black << "(" << ansi::reset;
+        out << color(ansi::h_black) << "(" << color(ansi::reset);
         print_cut_off(out, extracted);
-        out << ansi::h_black << ")\n" << ansi::reset;
+        out << color(ansi::h_black) << ")\n" << color(ansi::reset);
 
         if (directive) {
             for (const auto& [key, val] : directive->m_arguments) {
-                out << indent << ansi::h_blue << key << ": " << ansi::reset
+                out << indent << color(ansi::h_blue) << key << ": " << color(ansi::reset)
                     << program.extract(get_source_span(val)) << '\n';
             }
         }
-- 
2.43.0


From 03eea85d1d4ae9d9a1068e3e7974201d11da8b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 80/97] fix: empty nodes at the end of a document can be
 printed

---
 src/bmd/parsing/parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.hpp b/src/bmd/parsing/parse.hpp
index 9768d99..9546909 100644
--- a/src/bmd/parsing/parse.hpp
+++ b/src/bmd/parsing/parse.hpp
@@ -45,7 +45,7 @@ struct Parsed_Document {
 
     [[nodiscard]] std::string_view extract(const Local_Source_Span& span) const
     {
-        BIT_MANIPULATION_ASSERT(span.begin < source.length());
+        BIT_MANIPULATION_ASSERT(span.begin <= source.length());
         BIT_MANIPULATION_ASSERT(span.end() <= source.length());
         return source.substr(span.begin, span.length);
     }
-- 
2.43.0


From 377a62c5e326a7323fb56d0254298c61d99d8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 81/97] fix: report an output file which cannot be opened

---
 src/cli/main.cpp           | 2 +-
 src/common/diagnostics.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 0ee87a0..aa49768 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -91,7 +91,7 @@ int to_html(std::string_view file,
         else {
             std::ofstream out { std::string(*out_file) };
             if (!out) {
-                print_io_error(out, *out_file, IO_Error_Code::cannot_open, colors);
+                print_io_error(std::cout, *out_file, IO_Error_Code::cannot_open, colors);
                 return 1;
             }
 
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 11342bc..f230cea 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -836,7 +836,7 @@ std::ostream& print_assertion_error(std::ostream& out, const Assertion_Error& er
 std::ostream&
 print_io_error(std::ostream& out, std::string_view file, IO_Error_Code error, bool colors)
 {
-    print_location_of_file(std::cout, file, colors) << ": " << to_prose(error) << '\n';
+    print_location_of_file(out, file, colors) << ": " << to_prose(error) << '\n';
     return out;
 }
 
-- 
2.43.0


From da418ba4a732b2229a5306d5df718e30cb56fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 82/97] fix: report languages without a code generator as an
 error

---
 src/bmd/codegen/codegen.cpp         | 29 ++++++++++++++++++-----------
 src/bmd/codegen/generator_error.hpp |  4 +++-
 src/cli/main.cpp                    | 10 ++++++++--
 3 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/bmd/codegen/codegen.cpp b/src/bmd/codegen/codegen.cpp
index c23a1d7..1f42972 100644
--- a/src/bmd/codegen/codegen.cpp
+++ b/src/bmd/codegen/codegen.cpp
@@ -1,36 +1,43 @@
-#include "bmd/codegen/codegen.hpp"
+#include "bms/analyzed_program.hpp"
+
 #include "bmd/codegen/code_language.hpp"
+#include "bmd/codegen/codegen.hpp"
 
 namespace bit_manipulation::bmd {
 
 Result<void, Generator_Error>
-generate_rust_code(Code_String&, const bms::Analyzed_Program&, const Code_Options&)
+generate_rust_code(Code_String&, const bms::Analyzed_Program& program, const Code_Options&)
 {
-    BIT_MANIPULATION_ASSERT_UNREACHABLE("Sorry, Rust codegen not implemented yet");
+    // TODO: implement Rust codegen
+    return Generator_Error { Generator_Error_Code::unsupported_language, program.get_root() };
 }
 
 Result<void, Generator_Error>
-generate_java_code(Code_String&, const bms::Analyzed_Program&, const Code_Options&)
+generate_java_code(Code_String&, const bms::Analyzed_Program& program, const Code_Options&)
 {
-    BIT_MANIPULATION_ASSERT_UNREACHABLE("Sorry, Java codegen not implemented yet");
+    // TODO: implement Java codegen
+    return Generator_Error { Generator_Error_Code::unsupported_language, program.get_root() };
 }
 
 Result<void, Generator_Error>
-generate_kotlin_code(Code_String&, const bms::Analyzed_Program&, const Code_Options&)
+generate_kotlin_code(Code_String&, const bms::Analyzed_Program& program, const Code_Options&)
 {
-    BIT_MANIPULATION_ASSERT_UNREACHABLE("Sorry, Kotlin codegen not implemented yet");
+    // TODO: implement Kotlin codegen
+    return Generator_Error { Generator_Error_Code::unsupported_language, program.get_root() };
 }
 
 Result<void, Generator_Error>
-generate_javascript_code(Code_String&, const bms::Analyzed_Program&, const Code_Options&)
+generate_javascript_code(Code_String&, const bms::Analyzed_Program& program, const Code_Options&)
 {
-    BIT_MANIPULATION_ASSERT_UNREACHABLE("Sorry, JavaScript codegen not implemented yet");
+    // TODO: implement JavaScript codegen
+    return Generator_Error { Generator_Error_Code::unsupported_language, program.get_root() };
 }
 
 Result<void, Generator_Error>
-generate_typescript_code(Code_String&, const bms::Analyzed_Program&, const Code_Options&)
+generate_typescript_code(Code_String&, const bms::Analyzed_Program& program, const Code_Options&)
 {
-    BIT_MANIPULATION_ASSERT_UNREACHABLE("Sorry, TypeScript codegen not implemented yet");
+    // TODO: implement TypeScript codegen
+    return Generator_Error { Generator_Error_Code::unsupported_language, program.get_root() };
 }
 
 Result<void, Generator_Error> generate_code(Code_String& out,
diff --git a/src/bmd/codegen/generator_error.hpp b/src/bmd/codegen/generator_error.hpp
index beecdf4..fec3ada 100644
--- a/src/bmd/codegen/generator_error.hpp
+++ b/src/bmd/codegen/generator_error.hpp
@@ -17,7 +17,9 @@ enum struct Generator_Error_Code : Default_Underlying {
     unsupported_integer_width,
     /// @brief The code construct could not be translated, and this makes the resulting code
     /// nonsensical or ill-formed.
-    error
+    error,
+    /// @brief Generating code in the requested language is not supported (yet).
+    unsupported_language
 };
 
 struct Generator_Error {
diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index aa49768..158dc7e 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -17,6 +17,7 @@
 #include "bms/parsing/parse.hpp"
 #include "bms/tokenization/tokenize.hpp"
 
+#include "bmd/codegen/code_language.hpp"
 #include "bmd/codegen/code_string.hpp"
 #include "bmd/codegen/codegen.hpp"
 #include "bmd/html/doc_to_html.hpp"
@@ -150,8 +151,13 @@ int generate(std::string_view file,
     bms::Analyzed_Program a = analyze_parsed(p, file, &memory_resource);
 
     bmd::Code_String out { &memory_resource };
-    if (!bmd::generate_code(out, a, *language, {})) {
-        std::cout << ansi::red << "Error: failed to generate code.\n";
+    if (const auto result = bmd::generate_code(out, a, *language, {}); !result) {
+        std::cout << ansi::red << "Error: failed to generate code";
+        if (result.error().code == bmd::Generator_Error_Code::unsupported_language) {
+            std::cout << " because " << bmd::code_language_readable_name(*language)
+                      << " is not supported yet";
+        }
+        std::cout << ".\n";
         return 1;
     }
     print_code_string(std::cout, out, colors);
-- 
2.43.0


From 3886dcc400890a6213135fe17fc90994b05f62c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 83/97] fix: report files which cannot be read

---
 src/common/io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/io.cpp b/src/common/io.cpp
index 0b23eb2..2a418c4 100644
--- a/src/common/io.cpp
+++ b/src/common/io.cpp
@@ -9,8 +9,7 @@ Result<std::pmr::string, IO_Error_Code> file_to_string(std::string_view path,
                                                        std::pmr::memory_resource* memory)
 {
     constexpr auto read_size = std::size_t(4096);
-    auto stream = std::ifstream(path.data());
-    stream.exceptions(std::ios_base::badbit);
+    auto stream = std::ifstream(std::string(path));
 
     if (!stream) {
         return IO_Error_Code::cannot_open;
@@ -22,6 +21,9 @@ Result<std::pmr::string, IO_Error_Code> file_to_string(std::string_view path,
     while (stream.read(&buf[0], read_size)) {
         out.append(buf, 0, static_cast<Size>(stream.gcount()));
     }
+    if (stream.bad()) {
+        return IO_Error_Code::read_error;
+    }
     out.append(buf, 0, static_cast<Size>(stream.gcount()));
     return out;
 }
-- 
2.43.0


From 7683b490fb78a3196e0085f17833b82c682b5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 84/97] fix: fail when asked to convert a program to HTML

---
 src/cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 158dc7e..ff5a7da 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -74,7 +74,7 @@ int to_html(std::string_view file,
 
     if (file.ends_with(".bms")) {
         std::cout << "Converting BMS files to HTML is not supported yet\n";
-        return 0;
+        return 1;
     }
     if (file.ends_with(".bmd")) {
         const bmd::Parsed_Document program = parse_bmd_file(source, file, memory);
-- 
2.43.0


From 90196cf0017fdcc480f87e4ce768769901b48335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 85/97] fix: report failures to write the HTML output file

---
 src/cli/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index ff5a7da..8400ddf 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -98,6 +98,10 @@ int to_html(std::string_view file,
 
             Simple_HTML_Consumer consumer { out };
             result = write_html(consumer, program, memory);
+            if (!out.flush()) {
+                print_io_error(std::cout, *out_file, IO_Error_Code::write_error, colors);
+                return 1;
+            }
         }
 
         if (!result) {
-- 
2.43.0


From 38e3114c572ef189ee1cc9a3a94a708c1309caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:40 +0000
Subject: [PATCH 86/97] fix: report failures to write the standard output

---
 src/cli/main.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 8400ddf..6661a2d 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -253,5 +253,12 @@ try {
 
 int main(int argc, const char** argv)
 {
-    return bit_manipulation::main(argc, argv);
+    using namespace bit_manipulation;
+
+    const int result = bit_manipulation::main(argc, argv);
+    if (result == 0 && !std::cout.flush()) {
+        print_io_error(std::cerr, "stdout", IO_Error_Code::write_error, colors);
+        return 1;
+    }
+    return result;
 }
-- 
2.43.0


From 8f1d6054b23cc3a2fd9ffc1ffd80ab8576f8f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:31 +0000
Subject: [PATCH 87/97] fix: print invalid widths of type Uint without failing
 internally

---
 src/common/diagnostics.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index f230cea..1b7b5c8 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -511,9 +511,10 @@ bool is_incompatible_return_type_error(const bms::Analysis_Error& error)
         const std::optional<bms::Value>& width_value = error.value();
         // if width_invalid got raised during analysis, it means we have to know the width
         BIT_MANIPULATION_ASSERT(width_value);
-        const Big_Int width = width_value->as_int();
-        std::string prefix = "The width evaluated to " + to_string(width);
-        if (width < 0) {
+        const Big_Int width = width_value->concrete_value().int_value;
+        std::string prefix
+            = "The width evaluated to " + value_to_string(width_value->concrete_value());
+        if (width < 0 && !width_value->get_type().is_uint()) {
             result.lines.push_back({ Error_Line_Type::error, error.fail_pos(),
                                      std::move(prefix) + ", but widths must be positive." });
         }
@@ -521,7 +522,7 @@ bool is_incompatible_return_type_error(const bms::Analysis_Error& error)
             result.lines.push_back({ Error_Line_Type::error, error.fail_pos(),
                                      std::move(prefix) + ", but widths shall not be zero." });
         }
-        else if (width > uint_max_width) {
+        else if (width < 0 || width > uint_max_width) {
             result.lines.push_back({ Error_Line_Type::error, error.fail_pos(),
                                      std::move(prefix) + ", but the maximum allowed is "
                                          + std::to_string(uint_max_width) + '.' });
-- 
2.43.0


From 497361de10bec16d00d9426487567d6d07718bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:00 +0000
Subject: [PATCH 88/97] fix: print annotations with several arguments without
 reading out of bounds

---
 src/bms/parsing/astp.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bms/parsing/astp.hpp b/src/bms/parsing/astp.hpp
index 22258ab..d0e7ea0 100644
--- a/src/bms/parsing/astp.hpp
+++ b/src/bms/parsing/astp.hpp
@@ -252,7 +252,6 @@ struct Annotation_List final : detail::Node_Base {
 
 struct Annotation final : detail::Node_Base {
     static inline constexpr std::string_view self_name = "Attribute";
-    static inline constexpr std::string_view child_names[] = { "type" };
 
     std::string_view name;
     std::pmr::vector<Handle> arguments;
-- 
2.43.0


From 95f8a460962cd72b714ef21331539dd56f2dcfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:25 +0000
Subject: [PATCH 89/97] fix: report jumps and calls that leave the program in
 every direction

---
 src/bms/vm/vm.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index ab9b6ff..422f51d 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -59,12 +59,11 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Relative_Jump& jump)
     {
-        if (Signed_Size(self.m_instruction_counter) + jump.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        const Signed_Size target = Signed_Size(self.m_instruction_counter) + jump.offset + 1;
+        if (target < 0 || target >= Signed_Size(self.m_instructions.size())) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program, jump.debug_info };
         }
-        self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter) + jump.offset + 1);
+        self.m_instruction_counter = Size(target);
         return {};
     }
 
@@ -78,8 +77,8 @@ struct Cycle_Impl {
         if (actual.type != Concrete_Type::Bool) {
             return Execution_Error { Execution_Error_Code::jump_if_not_bool, jump_if.debug_info };
         }
-        if (Signed_Size(self.m_instruction_counter) + jump_if.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        const Signed_Size target = Signed_Size(self.m_instruction_counter) + jump_if.offset + 1;
+        if (target < 0 || target >= Signed_Size(self.m_instructions.size())) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program,
                                      jump_if.debug_info };
         }
@@ -167,7 +166,7 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Call& call)
     {
-        if (call.address > self.m_instructions.size()) {
+        if (call.address >= self.m_instructions.size()) {
             return Execution_Error { Execution_Error_Code::call_out_of_program, call.debug_info };
         }
         const auto return_address = Concrete_Value::Int(Big_Int(self.m_instruction_counter + 1));
-- 
2.43.0


From 7e101d5b1b4b2f1d3e99846e0919647ee372adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:36 +0000
Subject: [PATCH 90/97] fix: look up symbols in the table itself before its
 parent

---
 src/bms/symbol_table.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bms/symbol_table.hpp b/src/bms/symbol_table.hpp
index d98de45..a2d2f39 100644
--- a/src/bms/symbol_table.hpp
+++ b/src/bms/symbol_table.hpp
@@ -82,14 +82,12 @@ public:
 
     Optional_Lookup_Result find(key_type symbol) const
     {
-        if (m_parent != nullptr) {
-            if (auto parent_result = m_parent->find(symbol)) {
-                return parent_result;
-            }
-        }
         if (auto iter = m_symbols.find(symbol); iter != m_symbols.end()) {
             return iter->second;
         }
+        if (m_parent != nullptr) {
+            return m_parent->find(symbol);
+        }
         return {};
     }
 };
-- 
2.43.0


From 9952bd91855693e90515385cf577b2cd2f60d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:36 +0000
Subject: [PATCH 91/97] fix: do not report HTML as complete before its preamble

---
 src/bmd/html/html_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 13f299a..1cf473c 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -144,7 +144,7 @@ public:
     /// complete, `false` otherwise.
     bool is_done() const
     {
-        return (m_state != State::normal || m_state == State::new_line) && m_depth == 0
+        return (m_state == State::normal || m_state == State::new_line) && m_depth == 0
             && m_indent_depth == 0;
     }
 
-- 
2.43.0


From 0993967a9fb4227a5a5d84bfe5682619ca52f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 92/97] fix: say which values annotation arguments must have

---
 src/bms/analyze_annotations.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze_annotations.cpp b/src/bms/analyze_annotations.cpp
index 03a0cfe..4a99615 100644
--- a/src/bms/analyze_annotations.cpp
+++ b/src/bms/analyze_annotations.cpp
@@ -85,7 +85,10 @@ struct Annotation_Parameter {
     [[nodiscard]] Annotation_Parameter_Wrong_Argument
     get_wrong_argument_info(Annotation_Parameter_Type argument_type) const
     {
-        return { .name = name, .expected = type(), .actual = argument_type };
+        return { .name = name,
+                 .expected = type(),
+                 .actual = argument_type,
+                 .value_constraints = validator.constraints };
     }
 };
 
-- 
2.43.0


From b5d78cf6477ae1f8403e8e349a0def7bbfa6ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:59 +0000
Subject: [PATCH 93/97] fix: let instantiate_all skip functions that are not
 bit-generic

---
 src/bms/instantiate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index e8aad40..87c15ce 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -40,7 +40,7 @@ public:
     Result<void, Analysis_Error> instantiate_all(const Widths& w)
     {
         for (ast::Some_Node* decl : get_children(*m_program.get_root())) {
-            if (auto* f = get_if<ast::Function>(decl)) {
+            if (auto* f = get_if<ast::Function>(decl); f && f->is_generic) {
                 auto r = instantiate_function(decl, *f, w);
                 if (!r) {
                     return r.error();
-- 
2.43.0


From ab03c7e5efef8107a25c6ba870d94e71c0ad451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:24 +0000
Subject: [PATCH 94/97] fix: keep the memory resource of programs that are
 move-assigned

---
 src/bms/ast.cpp           | 1 +
 src/bms/parsing/parse.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bms/ast.cpp b/src/bms/ast.cpp
index 27f3c3f..af08ba8 100644
--- a/src/bms/ast.cpp
+++ b/src/bms/ast.cpp
@@ -540,6 +540,7 @@ Analyzed_Program& Analyzed_Program::operator=(Analyzed_Program&& other) noexcept
     if (old) {
         allocator().delete_object(old);
     }
+    m_memory = other.m_memory;
     return *this;
 }
 
diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 0c7a01a..5a1ffb3 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -46,6 +46,7 @@ Parsed_Program& Parsed_Program::operator=(Parsed_Program&& other) noexcept
     if (old) {
         allocator().delete_object(old);
     }
+    m_memory = other.m_memory;
     return *this;
 }
 
-- 
2.43.0


From 529b3e76e6f6661fc6afe170abff0ff7847b0705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:12 +0000
Subject: [PATCH 95/97] fix: name the evaluation error when it has no cause

---
 src/common/diagnostics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 1b7b5c8..db22bb0 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -541,6 +541,10 @@ bool is_incompatible_return_type_error(const bms::Analysis_Error& error)
         result.lines.push_back({ Error_Line_Type::note, error.fail_pos(),
                                  std::string(to_prose(error.execution_error())) });
     }
+    else if (error.code() == bms::Analysis_Error_Code::evaluation_error && !error.cause()) {
+        result.lines.push_back({ Error_Line_Type::note, error.fail_pos(),
+                                 std::string(to_prose(error.evaluation_error())) });
+    }
 
     if (const auto wrong_argument = error.wrong_argument()) {
         std::string message = "Parameter '";
-- 
2.43.0


From 977c47af293956ec7e70751f0fa651474103a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:02 +0000
Subject: [PATCH 96/97] fix: names reserved in C and C++ made the generated
 code invalid

---
 src/bmd/codegen/codegen_c_cpp.cpp | 50 ++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index aeed550..1a157a5 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -1,7 +1,9 @@
+#include <algorithm>
 #include <cstdint>
 #include <limits>
 #include <optional>
 #include <string>
+#include <string_view>
 
 #include "common/assert.hpp"
 #include "common/result.hpp"
@@ -138,6 +140,31 @@ enum struct C_Cpp_Dialect : Default_Underlying {
     return dialect == C_Cpp_Dialect::cpp20;
 }
 
+/// @brief The keywords of C and C++, and the names of types which the generated code uses.
+constexpr std::string_view reserved_names[] {
+    "alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break",
+    "case", "catch", "char", "char16_t", "char32_t", "char8_t", "class", "co_await", "co_return",
+    "co_yield", "compl", "concept", "const", "const_cast", "consteval", "constexpr", "constinit",
+    "continue", "decltype", "default", "delete", "do", "double", "dynamic_cast", "else", "enum",
+    "explicit", "export", "extern", "false", "float", "for", "friend", "goto", "if", "inline",
+    "int", "long", "mutable", "namespace", "new", "noexcept", "not", "not_eq", "nullptr",
+    "operator", "or", "or_eq", "private", "protected", "public", "register", "reinterpret_cast",
+    "requires", "restrict", "return", "short", "signed", "sizeof", "static", "static_assert",
+    "static_cast", "struct", "switch", "template", "this", "thread_local", "throw", "true", "try",
+    "typedef", "typeid", "typename", "typeof", "typeof_unqual", "uint16_t", "uint32_t", "uint64_t",
+    "uint8_t", "union", "unsigned", "using", "virtual", "void", "volatile", "wchar_t", "while",
+    "xor", "xor_eq",
+};
+static_assert(std::ranges::is_sorted(reserved_names));
+
+/// @brief Returns `true` if `name` is reserved, or is reserved except for trailing underscores.
+/// Such names get one more underscore, so that distinct names remain distinct.
+bool is_name_extended(std::string_view name) noexcept
+{
+    const Size length = name.find_last_not_of('_') + 1;
+    return std::ranges::binary_search(reserved_names, name.substr(0, length));
+}
+
 enum struct C_Cpp_Type_Type { void_, int_, bool_, uint8, uint16, uint32, uint64, bitint, bituint };
 
 struct C_Cpp_Type {
@@ -301,6 +328,15 @@ private:
         return {};
     }
 
+    void write_name(std::string_view name)
+    {
+        if (!is_name_extended(name)) {
+            m_out.append(name, Code_Span_Type::identifier);
+            return;
+        }
+        m_out.append(std::string(name) + '_', Code_Span_Type::identifier);
+    }
+
     [[nodiscard]] bool needs_parentheses(bms::Expression_Type outer_type,
                                          const Some_Node& inner) const final
     {
@@ -434,7 +470,7 @@ struct C_Cpp_Code_Generator::Visitor {
             return r;
         }
         self.m_out.append(' ');
-        self.m_out.append(function.get_name(), Code_Span_Type::identifier);
+        self.write_name(function.get_name());
 
         {
             Scoped_Parenthesization p = self.parenthesize();
@@ -450,7 +486,7 @@ struct C_Cpp_Code_Generator::Visitor {
                     return r;
                 }
                 self.m_out.append(' ');
-                self.m_out.append(parameter.get_name(), Code_Span_Type::identifier);
+                self.write_name(parameter.get_name());
             }
             if (first) {
                 self.write_keyword("void");
@@ -487,7 +523,7 @@ struct C_Cpp_Code_Generator::Visitor {
         }
 
         self.m_out.append(' ');
-        self.m_out.append(constant.get_name(), Code_Span_Type::identifier);
+        self.write_name(constant.get_name());
 
         self.write_infix_operator("=");
         append_value(self.m_out, constant.const_value()->concrete_value());
@@ -507,7 +543,7 @@ struct C_Cpp_Code_Generator::Visitor {
         }
 
         self.m_out.append(' ');
-        self.m_out.append(variable.get_name(), Code_Span_Type::identifier);
+        self.write_name(variable.get_name());
 
         if (const Some_Node* initializer = variable.get_initializer_node()) {
             self.write_infix_operator("=");
@@ -619,7 +655,7 @@ struct C_Cpp_Code_Generator::Visitor {
         Scoped_Attempt attempt = self.start_attempt();
 
         self.write_indent();
-        self.m_out.append(assignment.get_name(), Code_Span_Type::identifier);
+        self.write_name(assignment.get_name());
         self.write_infix_operator("=");
         if (auto r = self.generate_code(assignment.get_expression_node()); !r) {
             return r;
@@ -774,7 +810,7 @@ struct C_Cpp_Code_Generator::Visitor {
             self.write_indent();
         }
 
-        self.m_out.append(call.get_name(), Code_Span_Type::identifier);
+        self.write_name(call.get_name());
         {
             Scoped_Parenthesization p = self.parenthesize();
             bool first = true;
@@ -809,7 +845,7 @@ struct C_Cpp_Code_Generator::Visitor {
             }
         }
 
-        self.m_out.append(id.get_identifier(), Code_Span_Type::identifier);
+        self.write_name(id.get_identifier());
         return {};
     }
 
-- 
2.43.0


From e7b3a17a74e49ab63a3c4007c028d98a0850b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:52 +0000
Subject: [PATCH 97/97] fix: syntax errors inside parentheses suggested the
 wrong tokens

---
 src/bms/parsing/parse.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 5a1ffb3..89d9860 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1420,11 +1420,11 @@ private:
         if (const Token* t = expect(Token_Type::identifier)) {
             return astp::Some_Node { astp::Id_Expression { t->pos, m_program.extract(t->pos) } };
         }
-        if (auto e = match_parenthesized_expression()) {
-            return e;
-        }
-        // Intentionally forget about the e error to not falsely suggest that parentheses are
+        // Only commit to parentheses when there are any, to not falsely suggest that they are
         // required for a primary expression, but give feedback about the whole union.
+        if (peek(Token_Type::left_parenthesis)) {
+            return match_parenthesized_expression();
+        }
         return Rule_Error { this_rule, expected };
     }
 
-- 
2.43.0


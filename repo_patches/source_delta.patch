From e799dc44431fd1b83a6f6e0f17eb22aa99b469a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 01/26] fix: do not panic on a truncated unicode escape

The string literal parser used the streaming variant of one_of, which
answers Incomplete at the end of the input and hit an unreachable!().
---
 serde_json_path/src/parser/primitive/string.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index bf7f61d..4c8d5f1 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -1,6 +1,5 @@
 use nom::bytes::complete::{tag, take_while};
-use nom::character::complete::{anychar, char};
-use nom::character::streaming::one_of;
+use nom::character::complete::{anychar, char, one_of};
 use nom::combinator::{cut, map, recognize, verify};
 use nom::error::context;
 use nom::sequence::{pair, separated_pair, tuple};
-- 
2.43.0


From 2e0fb6adda1e5aad1a39ed5aece2593c1ae88c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 02/26] fix: accept lowercase hex digits in high surrogates

HEXDIG is case insensitive in RFC 9535, and low surrogates and other
escapes already accept both cases.
---
 serde_json_path/src/parser/primitive/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index 4c8d5f1..db11538 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -70,7 +70,11 @@ fn parse_high_surrogate(input: &str) -> PResult<u16> {
     context(
         "high surrogate",
         map_res(
-            recognize(tuple((char('D'), one_of("89AB"), parse_n_hex_digits(2)))),
+            recognize(tuple((
+                one_of("Dd"),
+                one_of("89ABab"),
+                parse_n_hex_digits(2),
+            ))),
             |hex| u16::from_str_radix(hex, 16),
         ),
     )(input)
-- 
2.43.0


From 4086708a6ed7258e8e9fba3b63f4e1f28ad9fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 03/26] fix: allow whitespace before descendant segments

RFC 9535: segments = *(S segment), for descendant segments too.
---
 serde_json_path/src/parser/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/segment.rs b/serde_json_path/src/parser/segment.rs
index 6ff4528..fa42ac2 100644
--- a/serde_json_path/src/parser/segment.rs
+++ b/serde_json_path/src/parser/segment.rs
@@ -112,7 +112,7 @@ fn parse_child_segment(input: &str) -> PResult<Segment> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_descendant_segment(input: &str) -> PResult<Segment> {
     preceded(
-        tag(".."),
+        pair(multispace0, tag("..")),
         alt((
             map(parse_wildcard_selector, |_| Segment::Wildcard),
             parse_child_long_hand,
-- 
2.43.0


From 970353e5378b2e103228f9bbe624ac481989b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 04/26] fix: resolve negative indices in singular queries

A negative index in a comparison or function argument, e.g.,
$[?@[-1] == 1], never selected anything.
---
 serde_json_path_core/src/spec/selector/filter.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index a81b831..0ac4f25 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -561,10 +561,16 @@ impl SingularQuery {
                     }
                 }
                 SingularQuerySegment::Index(index) => {
-                    if let Some(t) = target
-                        .as_array()
-                        .and_then(|l| usize::try_from(index.0).ok().and_then(|i| l.get(i)))
-                    {
+                    if let Some(t) = target.as_array().and_then(|l| {
+                        if index.0 < 0 {
+                            usize::try_from(index.0.abs())
+                                .ok()
+                                .and_then(|i| l.len().checked_sub(i))
+                        } else {
+                            usize::try_from(index.0).ok()
+                        }
+                        .and_then(|i| l.get(i))
+                    }) {
                         target = t;
                     } else {
                         return None;
-- 
2.43.0


From 6599697a6251d5fca0174c8c93ac12455189f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 05/26] fix: compare values that have no ordering as RFC 9535
 requires

`>` and `>=` were evaluated as the negation of `<`, so they held for
any two booleans, arrays, objects or nulls, and `<=`/`>=` did not hold
for two absent values, although `==` does.
---
 .../src/spec/selector/filter.rs               | 34 +++----------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 0ac4f25..c4d62aa 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -292,25 +292,6 @@ fn check_less_than(left: &JsonPathValue, right: &JsonPathValue) -> bool {
     }
 }
 
-fn value_same_type(left: &Value, right: &Value) -> bool {
-    matches!((left, right), (Value::Null, Value::Null))
-        | matches!((left, right), (Value::Bool(_), Value::Bool(_)))
-        | matches!((left, right), (Value::Number(_), Value::Number(_)))
-        | matches!((left, right), (Value::String(_), Value::String(_)))
-        | matches!((left, right), (Value::Array(_), Value::Array(_)))
-        | matches!((left, right), (Value::Object(_), Value::Object(_)))
-}
-
-fn check_same_type(left: &JsonPathValue, right: &JsonPathValue) -> bool {
-    match (left, right) {
-        (JsonPathValue::Node(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Node(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Value(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Value(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
-        _ => false,
-    }
-}
-
 impl std::fmt::Display for ComparisonExpr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(
@@ -331,20 +312,13 @@ impl TestFilter for ComparisonExpr {
         match self.op {
             ComparisonOperator::EqualTo => check_equal_to(&left, &right),
             ComparisonOperator::NotEqualTo => !check_equal_to(&left, &right),
-            ComparisonOperator::LessThan => {
-                check_same_type(&left, &right) && check_less_than(&left, &right)
-            }
-            ComparisonOperator::GreaterThan => {
-                check_same_type(&left, &right)
-                    && !check_less_than(&left, &right)
-                    && !check_equal_to(&left, &right)
-            }
+            ComparisonOperator::LessThan => check_less_than(&left, &right),
+            ComparisonOperator::GreaterThan => check_less_than(&right, &left),
             ComparisonOperator::LessThanEqualTo => {
-                check_same_type(&left, &right)
-                    && (check_less_than(&left, &right) || check_equal_to(&left, &right))
+                check_less_than(&left, &right) || check_equal_to(&left, &right)
             }
             ComparisonOperator::GreaterThanEqualTo => {
-                check_same_type(&left, &right) && !check_less_than(&left, &right)
+                check_less_than(&right, &left) || check_equal_to(&left, &right)
             }
         }
     }
-- 
2.43.0


From 9658b9422e5c7bdc4d3d6574f311d25a5c111d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 06/26] fix: compare numbers nested in arrays and objects by
 value

[1] == [1.0] was false, while 1 == 1.0 is true.
---
 serde_json_path_core/src/spec/selector/filter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index c4d62aa..c268440 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -258,6 +258,14 @@ fn check_equal_to(left: &JsonPathValue, right: &JsonPathValue) -> bool {
 fn value_equal_to(left: &Value, right: &Value) -> bool {
     match (left, right) {
         (Value::Number(l), Value::Number(r)) => number_equal_to(l, r),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_equal_to(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| value_equal_to(l, r)))
+        }
         _ => left == right,
     }
 }
-- 
2.43.0


From 0f47766d3fc9dbd80ea036cff3fff696abc85329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 07/26] fix: allow single letter function names

function-name = function-name-first *function-name-char
---
 serde_json_path/src/parser/selector/function/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index d4aadfe..c8d046c 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -6,7 +6,7 @@ use nom::{
     branch::alt,
     character::complete::{multispace0, satisfy},
     combinator::map,
-    multi::fold_many1,
+    multi::fold_many0,
     sequence::{delimited, pair},
 };
 use serde_json_path_core::spec::functions::{
@@ -40,7 +40,7 @@ fn parse_function_name(input: &str) -> PResult<String> {
     map(
         pair(
             parse_function_name_first,
-            fold_many1(
+            fold_many0(
                 parse_function_name_char,
                 String::new,
                 |mut string, fragment| {
-- 
2.43.0


From 4ffc2b6f2d8d5929122036b4f6b56292bcf41ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 08/26] fix: do not take the start of a function name for a
 keyword

A function whose name starts with true, false or null could not be
compared or passed as an argument, e.g., $[?nullable(@) == 1].
---
 serde_json_path/src/parser/selector/filter.rs    | 16 +++++++++++-----
 .../src/parser/selector/function/mod.rs          |  2 +-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/serde_json_path/src/parser/selector/filter.rs b/serde_json_path/src/parser/selector/filter.rs
index 40c332c..ecdcad6 100644
--- a/serde_json_path/src/parser/selector/filter.rs
+++ b/serde_json_path/src/parser/selector/filter.rs
@@ -1,7 +1,7 @@
 use nom::character::complete::{char, multispace0};
-use nom::combinator::{cut, map, map_res};
+use nom::combinator::{cut, map, map_res, not};
 use nom::multi::separated_list1;
-use nom::sequence::{delimited, pair, preceded, separated_pair, tuple};
+use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::{branch::alt, bytes::complete::tag, combinator::value};
 use serde_json_path_core::spec::functions::{
     FunctionArgType, FunctionExpr, FunctionValidationError, Validated,
@@ -11,7 +11,7 @@ use serde_json_path_core::spec::selector::filter::{
     LogicalAndExpr, LogicalOrExpr, SingularQuery,
 };
 
-use super::function::parse_function_expr;
+use super::function::{parse_function_expr, parse_function_name_char};
 use crate::parser::primitive::number::parse_number;
 use crate::parser::primitive::string::parse_string_literal;
 use crate::parser::primitive::{parse_bool, parse_null};
@@ -151,8 +151,14 @@ pub(crate) fn parse_literal(input: &str) -> PResult<Literal> {
     alt((
         map(parse_string_literal, Literal::String),
         map(parse_number, Literal::Number),
-        map(parse_bool, Literal::Bool),
-        value(Literal::Null, parse_null),
+        terminated(
+            alt((
+                map(parse_bool, Literal::Bool),
+                value(Literal::Null, parse_null),
+            )),
+            // the name of a function can start with, or be the same as, a keyword
+            not(alt((parse_function_name_char, char('(')))),
+        ),
     ))(input)
 }
 
diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index c8d046c..a9c705f 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -27,7 +27,7 @@ fn parse_function_name_first(input: &str) -> PResult<char> {
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_function_name_char(input: &str) -> PResult<char> {
+pub(crate) fn parse_function_name_char(input: &str) -> PResult<char> {
     alt((
         parse_function_name_first,
         char('_'),
-- 
2.43.0


From 493360e430917fbb11e63e42ac8eb6b4c79863ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 09/26] fix: accept calls of functions that take no arguments

The argument parser fails hard on the closing parenthesis, so that
$[?f() == 1] was always rejected.
---
 .../src/parser/selector/function/mod.rs           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index a9c705f..a0c6dbb 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,6 +1,6 @@
 use nom::character::complete::char;
-use nom::combinator::{cut, map_res};
-use nom::multi::separated_list0;
+use nom::combinator::{cut, map_res, peek, value};
+use nom::multi::separated_list1;
 use nom::sequence::{preceded, terminated};
 use nom::{
     branch::alt,
@@ -71,10 +71,13 @@ pub(crate) fn parse_function_expr(input: &str) -> PResult<FunctionExpr<Validated
             parse_function_name,
             delimited(
                 terminated(char('('), multispace0),
-                separated_list0(
-                    delimited(multispace0, char(','), multispace0),
-                    parse_function_argument,
-                ),
+                alt((
+                    value(vec![], peek(char(')'))),
+                    separated_list1(
+                        delimited(multispace0, char(','), multispace0),
+                        parse_function_argument,
+                    ),
+                )),
                 preceded(multispace0, char(')')),
             ),
         ),
-- 
2.43.0


From 03ed871bfc083df21add210ea1eee0b9e72fd43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 10/26] fix: parse the operands of a filter only once

Deciding between a comparison, a test, and a function argument parsed a
query or function expression again for every alternative, so that the
effort was exponential in the depth of nested filters, and a logical
expression in a function argument, e.g., f(@.a == 1) or f(!@.a), was
always rejected since the first alternative to match was kept.
---
 serde_json_path/src/parser/selector/filter.rs | 117 +++++++++++++++---
 .../src/parser/selector/function/mod.rs       |  67 ++++++++--
 2 files changed, 160 insertions(+), 24 deletions(-)

diff --git a/serde_json_path/src/parser/selector/filter.rs b/serde_json_path/src/parser/selector/filter.rs
index ecdcad6..f58091b 100644
--- a/serde_json_path/src/parser/selector/filter.rs
+++ b/serde_json_path/src/parser/selector/filter.rs
@@ -1,11 +1,12 @@
 use nom::character::complete::{char, multispace0};
-use nom::combinator::{cut, map, map_res, not};
-use nom::multi::separated_list1;
+use nom::combinator::{cut, map, map_res, not, opt, peek};
+use nom::multi::{many0, separated_list1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::{branch::alt, bytes::complete::tag, combinator::value};
 use serde_json_path_core::spec::functions::{
     FunctionArgType, FunctionExpr, FunctionValidationError, Validated,
 };
+use serde_json_path_core::spec::query::Query;
 use serde_json_path_core::spec::selector::filter::{
     BasicExpr, Comparable, ComparisonExpr, ComparisonOperator, ExistExpr, Filter, Literal,
     LogicalAndExpr, LogicalOrExpr, SingularQuery,
@@ -16,7 +17,7 @@ use crate::parser::primitive::number::parse_number;
 use crate::parser::primitive::string::parse_string_literal;
 use crate::parser::primitive::{parse_bool, parse_null};
 use crate::parser::utils::uncut;
-use crate::parser::{parse_query, PResult};
+use crate::parser::{parse_query, Error, FromInternalError, PResult};
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_filter(input: &str) -> PResult<Filter> {
@@ -48,14 +49,29 @@ pub(crate) fn parse_logical_or_expr(input: &str) -> PResult<LogicalOrExpr> {
     )(input)
 }
 
-#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_exist_expr_inner(input: &str) -> PResult<ExistExpr> {
-    map(parse_query, ExistExpr)(input)
+/// Parse the rest of a logical expression, given its `first` basic expression
+pub(crate) fn parse_logical_or_expr_after(
+    first: BasicExpr,
+    input: &str,
+) -> PResult<'_, LogicalOrExpr> {
+    let (input, rest) = many0(preceded(
+        tuple((multispace0, tag("&&"), multispace0)),
+        parse_basic_expr,
+    ))(input)?;
+    let mut and_exprs = vec![first];
+    and_exprs.extend(rest);
+    let (input, rest) = many0(preceded(
+        tuple((multispace0, tag("||"), multispace0)),
+        parse_logical_and,
+    ))(input)?;
+    let mut or_exprs = vec![LogicalAndExpr(and_exprs)];
+    or_exprs.extend(rest);
+    Ok((input, LogicalOrExpr(or_exprs)))
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_exist_expr(input: &str) -> PResult<BasicExpr> {
-    map(parse_exist_expr_inner, BasicExpr::Exist)(input)
+fn parse_exist_expr_inner(input: &str) -> PResult<ExistExpr> {
+    map(parse_query, ExistExpr)(input)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
@@ -74,11 +90,6 @@ fn parse_func_expr_inner(input: &str) -> PResult<FunctionExpr<Validated>> {
     }))(input)
 }
 
-#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_func_expr(input: &str) -> PResult<BasicExpr> {
-    map(parse_func_expr_inner, BasicExpr::FuncExpr)(input)
-}
-
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_not_func_expr(input: &str) -> PResult<BasicExpr> {
     map(
@@ -109,15 +120,91 @@ fn parse_not_parent_expr(input: &str) -> PResult<BasicExpr> {
     )(input)
 }
 
+/// Parse a comparison that begins with a literal
+///
+/// Nothing but a comparison can begin with a literal.
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_literal_expr(input: &str) -> PResult<BasicExpr> {
+    map(
+        preceded(peek(parse_literal), parse_comp_expr),
+        BasicExpr::Relation,
+    )(input)
+}
+
+/// Parse the operator and right-hand side of a comparison, if there are any
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_comparison_rest(input: &str) -> PResult<Option<(ComparisonOperator, Comparable)>> {
+    opt(preceded(
+        multispace0,
+        separated_pair(parse_comparison_operator, multispace0, parse_comparable),
+    ))(input)
+}
+
+/// Parse what follows a query in a filter, making it a comparison or an existence test
+///
+/// The query itself is not parsed again, as it may contain nested filters.
+pub(crate) fn parse_expr_after_query(query: Query, input: &str) -> PResult<'_, BasicExpr> {
+    match parse_comparison_rest(input)? {
+        (rest, None) => Ok((rest, BasicExpr::Exist(ExistExpr(query)))),
+        (rest, Some((op, right))) => match SingularQuery::try_from(query) {
+            Ok(sq) => {
+                let left = Comparable::SingularQuery(sq);
+                Ok((
+                    rest,
+                    BasicExpr::Relation(ComparisonExpr { left, op, right }),
+                ))
+            }
+            Err(e) => Err(nom::Err::Failure(Error::from_internal_error(input, e))),
+        },
+    }
+}
+
+/// Parse what follows a function expression in a filter, making it a comparison or a test
+///
+/// The function expression itself is not parsed again, as it may contain nested filters.
+pub(crate) fn parse_expr_after_function(
+    fe: FunctionExpr<Validated>,
+    input: &str,
+) -> PResult<'_, BasicExpr> {
+    match (fe.return_type, parse_comparison_rest(input)?) {
+        (FunctionArgType::Value, (rest, Some((op, right)))) => {
+            let left = Comparable::FunctionExpr(fe);
+            Ok((
+                rest,
+                BasicExpr::Relation(ComparisonExpr { left, op, right }),
+            ))
+        }
+        (FunctionArgType::Logical | FunctionArgType::Nodelist, (rest, None)) => {
+            Ok((rest, BasicExpr::FuncExpr(fe)))
+        }
+        _ => Err(nom::Err::Failure(Error::from_internal_error(
+            input,
+            FunctionValidationError::IncorrectFunctionReturnType,
+        ))),
+    }
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_query_expr(input: &str) -> PResult<BasicExpr> {
+    let (rest, query) = parse_query(input)?;
+    parse_expr_after_query(query, rest)
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_func_expr(input: &str) -> PResult<BasicExpr> {
+    let (rest, fe) = parse_function_expr(input)?;
+    parse_expr_after_function(fe, rest)
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_basic_expr(input: &str) -> PResult<BasicExpr> {
     alt((
         parse_not_parent_expr,
         parse_paren_expr,
-        map(parse_comp_expr, BasicExpr::Relation),
         parse_not_exist_expr,
-        parse_exist_expr,
         parse_not_func_expr,
+        parse_literal_expr,
+        parse_query_expr,
         parse_func_expr,
     ))(input)
 }
diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index a0c6dbb..a1b77ee 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,5 +1,5 @@
-use nom::character::complete::char;
-use nom::combinator::{cut, map_res, peek, value};
+use nom::character::complete::{char, one_of};
+use nom::combinator::{cut, map_res, peek, recognize, value};
 use nom::multi::separated_list1;
 use nom::sequence::{preceded, terminated};
 use nom::{
@@ -12,14 +12,18 @@ use nom::{
 use serde_json_path_core::spec::functions::{
     Function, FunctionExpr, FunctionExprArg, FunctionValidationError, Validated,
 };
+use serde_json_path_core::spec::selector::filter::SingularQuery;
 
 pub(crate) mod registry;
 
-use crate::parser::{parse_query, PResult};
+use crate::parser::{parse_query, Error, FromInternalError, PResult};
 
 use self::registry::REGISTRY;
 
-use super::filter::{parse_literal, parse_logical_or_expr, parse_singular_path};
+use super::filter::{
+    parse_expr_after_function, parse_expr_after_query, parse_literal, parse_logical_or_expr,
+    parse_logical_or_expr_after,
+};
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_name_first(input: &str) -> PResult<char> {
@@ -53,14 +57,59 @@ fn parse_function_name(input: &str) -> PResult<String> {
     )(input)
 }
 
+/// Check for the end of a function argument, without consuming it
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_argument_end(input: &str) -> PResult<char> {
+    peek(preceded(multispace0, alt((char(','), char(')')))))(input)
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_query_argument(input: &str) -> PResult<FunctionExprArg> {
+    let (rest, query) = parse_query(input)?;
+    if parse_argument_end(rest).is_err() {
+        let (rest, first) = parse_expr_after_query(query, rest)?;
+        let (rest, expr) = parse_logical_or_expr_after(first, rest)?;
+        return Ok((rest, FunctionExprArg::LogicalExpr(expr)));
+    }
+    let is_singular = query
+        .segments
+        .iter()
+        .all(|s| s.is_child() && s.segment.is_singular());
+    let arg = if is_singular {
+        SingularQuery::try_from(query)
+            .map(FunctionExprArg::SingularQuery)
+            .map_err(|e| nom::Err::Failure(Error::from_internal_error(input, e)))?
+    } else {
+        FunctionExprArg::FilterQuery(query)
+    };
+    Ok((rest, arg))
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_nested_function_argument(input: &str) -> PResult<FunctionExprArg> {
+    let (rest, fe) = parse_function_expr(input)?;
+    if parse_argument_end(rest).is_err() {
+        let (rest, first) = parse_expr_after_function(fe, rest)?;
+        let (rest, expr) = parse_logical_or_expr_after(first, rest)?;
+        return Ok((rest, FunctionExprArg::LogicalExpr(expr)));
+    }
+    Ok((rest, FunctionExprArg::FunctionExpr(fe)))
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
     alt((
-        map(parse_literal, FunctionExprArg::Literal),
-        map(parse_singular_path, FunctionExprArg::SingularQuery),
-        map(parse_query, FunctionExprArg::FilterQuery),
-        map(parse_function_expr, FunctionExprArg::FunctionExpr),
-        map(parse_logical_or_expr, FunctionExprArg::LogicalExpr),
+        map(
+            terminated(parse_literal, parse_argument_end),
+            FunctionExprArg::Literal,
+        ),
+        parse_query_argument,
+        // any other argument that begins with a literal, a `!`, or a parenthesis:
+        preceded(
+            peek(alt((recognize(parse_literal), recognize(one_of("!("))))),
+            map(parse_logical_or_expr, FunctionExprArg::LogicalExpr),
+        ),
+        parse_nested_function_argument,
     ))(input)
 }
 
-- 
2.43.0


From 2f4f866888d9dac4be58c38fbb6314228e481804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 11/26] fix: escape names in normalized paths

Names with quotes, backslashes, or control characters were written as
they are, so that a normalized path was not valid JSONPath, or selected
another node.
---
 serde_json_path_core/src/path.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index d2c3d19..ca40204 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -192,7 +192,11 @@ impl Display for NormalizedPath<'_> {
         write!(f, "$")?;
         for elem in &self.0 {
             match elem {
-                PathElement::Name(name) => write!(f, "['{name}']")?,
+                PathElement::Name(name) => {
+                    write!(f, "[")?;
+                    write_quoted(f, name)?;
+                    write!(f, "]")?;
+                }
                 PathElement::Index(index) => write!(f, "[{index}]")?,
             }
         }
@@ -200,6 +204,28 @@ impl Display for NormalizedPath<'_> {
     }
 }
 
+/// Write a `name` as a single-quoted string, escaped according to the rules for
+/// [Normalized Paths][norm-paths]
+///
+/// [norm-paths]: https://www.rfc-editor.org/rfc/rfc9535.html#name-normalized-paths
+pub(crate) fn write_quoted(f: &mut std::fmt::Formatter<'_>, name: &str) -> std::fmt::Result {
+    write!(f, "'")?;
+    for c in name.chars() {
+        match c {
+            '\u{0008}' => write!(f, r"\b")?,
+            '\u{0009}' => write!(f, r"\t")?,
+            '\u{000A}' => write!(f, r"\n")?,
+            '\u{000C}' => write!(f, r"\f")?,
+            '\u{000D}' => write!(f, r"\r")?,
+            '\u{0027}' => write!(f, r"\'")?,
+            '\u{005C}' => write!(f, r"\\")?,
+            '\u{0000}'..='\u{001F}' => write!(f, r"\u{:04x}", u32::from(c))?,
+            _ => write!(f, "{c}")?,
+        }
+    }
+    write!(f, "'")
+}
+
 impl Serialize for NormalizedPath<'_> {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
-- 
2.43.0


From c5b5f2f4035e91c5316180d727e5740421b2c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 12/26] fix: escape string literals and names when displaying a
 query

A displayed or serialized query that contains quotes, backslashes, or
control characters could not be parsed again.
---
 serde_json_path_core/src/spec/selector/filter.rs | 4 ++--
 serde_json_path_core/src/spec/selector/name.rs   | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index c268440..97d68c0 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -3,7 +3,7 @@ use serde_json::{Number, Value};
 
 use crate::{
     node::LocatedNode,
-    path::NormalizedPath,
+    path::{write_quoted, NormalizedPath},
     spec::{
         functions::{FunctionExpr, JsonPathValue, Validated},
         query::{Query, QueryKind, Queryable},
@@ -454,7 +454,7 @@ impl std::fmt::Display for Literal {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Literal::Number(n) => write!(f, "{n}"),
-            Literal::String(s) => write!(f, "'{s}'"),
+            Literal::String(s) => write_quoted(f, s),
             Literal::Bool(b) => write!(f, "{b}"),
             Literal::Null => write!(f, "null"),
         }
diff --git a/serde_json_path_core/src/spec/selector/name.rs b/serde_json_path_core/src/spec/selector/name.rs
index 758ef66..54b179b 100644
--- a/serde_json_path_core/src/spec/selector/name.rs
+++ b/serde_json_path_core/src/spec/selector/name.rs
@@ -1,7 +1,11 @@
 //! Name selector for selecting object keys in JSONPath
 use serde_json::Value;
 
-use crate::{node::LocatedNode, path::NormalizedPath, spec::query::Queryable};
+use crate::{
+    node::LocatedNode,
+    path::{write_quoted, NormalizedPath},
+    spec::query::Queryable,
+};
 
 /// Select a single JSON object key
 #[derive(Debug, PartialEq, Eq, Clone)]
@@ -16,7 +20,7 @@ impl Name {
 
 impl std::fmt::Display for Name {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{name}'", name = self.0)
+        write_quoted(f, &self.0)
     }
 }
 
-- 
2.43.0


From b5776d48e791d7e1599fcd2847cce9831d22d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 13/26] fix: keep the negation of a function when displaying a
 query

---
 serde_json_path_core/src/spec/selector/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 97d68c0..617e95d 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -182,7 +182,7 @@ impl std::fmt::Display for BasicExpr {
             BasicExpr::Exist(exist) => write!(f, "{exist}"),
             BasicExpr::NotExist(exist) => write!(f, "!{exist}"),
             BasicExpr::FuncExpr(expr) => write!(f, "{expr}"),
-            BasicExpr::NotFuncExpr(expr) => write!(f, "{expr}"),
+            BasicExpr::NotFuncExpr(expr) => write!(f, "!{expr}"),
         }
     }
 }
-- 
2.43.0


From 0f93e3708891847db388f4e93595195e1d272eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 14/26] fix: do not display a third dot for descendant segments

$..a and $..* were displayed, and serialized, as $...a and $...*,
which can not be parsed.
---
 serde_json_path_core/src/spec/segment.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/serde_json_path_core/src/spec/segment.rs b/serde_json_path_core/src/spec/segment.rs
index 20e036e..d999304 100644
--- a/serde_json_path_core/src/spec/segment.rs
+++ b/serde_json_path_core/src/spec/segment.rs
@@ -30,6 +30,12 @@ impl std::fmt::Display for QuerySegment {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if matches!(self.kind, QuerySegmentKind::Descendant) {
             write!(f, "..")?;
+            // the shorthands for child segments begin with a dot
+            match &self.segment {
+                Segment::DotName(name) => return write!(f, "{name}"),
+                Segment::Wildcard => return write!(f, "*"),
+                Segment::LongHand(_) => (),
+            }
         }
         write!(f, "{segment}", segment = self.segment)
     }
-- 
2.43.0


From 9a4b681fe2ab39e472eeeb27a755cd3e71cece31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 15/26] fix: do not match with an invalid regular expression

An invalid expression like 'a)|(b' became valid, and lost its anchors,
through the group that match and search put around it.
---
 serde_json_path/src/parser/selector/function/registry.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/registry.rs b/serde_json_path/src/parser/selector/function/registry.rs
index 8174ca3..4d07f45 100644
--- a/serde_json_path/src/parser/selector/function/registry.rs
+++ b/serde_json_path/src/parser/selector/function/registry.rs
@@ -57,7 +57,9 @@ fn count(nodes: NodesType) -> ValueType {
 fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)^({r})$").as_str())
+            // the expression must be valid without the parentheses that are put around it
+            regex::Regex::new(r)
+                .and_then(|_| regex::Regex::new(format!("(?R)^({r})$").as_str()))
                 .map(|r| r.is_match(s))
                 .map(Into::into)
                 .unwrap_or_default()
@@ -71,7 +73,9 @@ fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
 fn search(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)({r})").as_str())
+            // the expression must be valid without the parentheses that are put around it
+            regex::Regex::new(r)
+                .and_then(|_| regex::Regex::new(format!("(?R)({r})").as_str()))
                 .map(|r| r.is_match(s))
                 .map(Into::into)
                 .unwrap_or_default()
-- 
2.43.0


From dd0bbe71fa129f689a9f8c11b58a0152dfd6910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 16/26] fix: report the exact size of the Locations and Nodes
 iterators

ExactSizeIterator requires an exact size_hint; adapters that rely on it
panicked, e.g., nodes.locations().take(1).len().
---
 serde_json_path_core/src/node.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/node.rs b/serde_json_path_core/src/node.rs
index 3b9577e..a1f1f0f 100644
--- a/serde_json_path_core/src/node.rs
+++ b/serde_json_path_core/src/node.rs
@@ -550,6 +550,10 @@ impl<'a> Iterator for Locations<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.location())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Locations<'_> {
@@ -580,6 +584,10 @@ impl<'a> Iterator for Nodes<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.node())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Nodes<'_> {
-- 
2.43.0


From 688b377b93facb08a123b4e3e984eb4469369fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 17/26] fix: do not let the names in a function clash with
 generated code

#[function] did not compile for a function that has an argument named v
before others, or an argument with the function's own name.
---
 .../src/internal/common/define.rs             | 22 +++++++++----------
 .../src/internal/common/extract.rs            |  7 ++----
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 9902b8b..f9f0a22 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 use syn::{ItemFn, LitStr};
 
@@ -55,7 +55,7 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
     };
     // Generate code for checking each individual argument in a query at parse time:
     let arg_checks = args.iter().enumerate().map(|(idx, arg)| {
-        let FnArgument { ident: _, ty } = arg;
+        let FnArgument { ty } = arg;
         quote! {
             match a[#idx].as_type_kind() {
                 #res::Ok(tk) => {
@@ -87,24 +87,24 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             })
         });
     };
+    // Names that can not clash with those of the function and its arguments:
+    let values = Ident::new("v", Span::mixed_site());
+    let arg_names: Vec<Ident> = (0..args_len)
+        .map(|idx| Ident::new(&format!("arg_{idx}"), Span::mixed_site()))
+        .collect();
     // Generate the code to declare each individual argument for evaluation, at query time:
-    let arg_declarations = args.iter().map(|arg| {
-        let FnArgument { ident, ty } = arg;
+    let arg_declarations = args.iter().zip(&arg_names).map(|(arg, ident)| {
+        let FnArgument { ty } = arg;
         // validation should ensure unwrap is okay here:
         quote! {
-            let #ident = #ty::try_from(v.pop_front().unwrap()).unwrap();
+            let #ident = #ty::try_from(#values.pop_front().unwrap()).unwrap();
         }
     });
-    // Produce the argument name identifiers:
-    let arg_names = args.iter().map(|arg| {
-        let FnArgument { ident, ty: _ } = arg;
-        ident
-    });
     // Generate the evaluator function used to evaluate a function at query time:
     let evaluator = quote! {
         fn #name #generics (#inputs) #ret #block
         static #evaluator_name: #core::Evaluator = #lazy::new(|| {
-            std::boxed::Box::new(|mut v: std::collections::VecDeque<#core::JsonPathValue>| {
+            std::boxed::Box::new(|mut #values: std::collections::VecDeque<#core::JsonPathValue>| {
                 #(#arg_declarations)*
                 return #name(#(#arg_names,)*).into()
             })
diff --git a/serde_json_path_macros/src/internal/common/extract.rs b/serde_json_path_macros/src/internal/common/extract.rs
index 1e6344f..cfd881b 100644
--- a/serde_json_path_macros/src/internal/common/extract.rs
+++ b/serde_json_path_macros/src/internal/common/extract.rs
@@ -19,7 +19,6 @@ pub struct Components {
 }
 
 pub struct FnArgument {
-    pub ident: Ident,
     pub ty: TokenStream,
 }
 
@@ -109,9 +108,7 @@ pub fn extract_components(input: Signature) -> Result<Components> {
                 colon_token: _,
                 ty,
             }) => {
-                let ident = if let Some(id) = extract_pat_ident(pat) {
-                    id
-                } else {
+                if extract_pat_ident(pat).is_none() {
                     return Err(Error::new(
                         pat.span(),
                         "expected identifier in function argument",
@@ -126,7 +123,7 @@ pub fn extract_components(input: Signature) -> Result<Components> {
                                 ValueType, or LogicalType",
                     ));
                 };
-                Ok(FnArgument { ident, ty })
+                Ok(FnArgument { ty })
             }
         })
         .collect();
-- 
2.43.0


From adea0bee532b803c1de2d01d8244f60bfd192b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 18/26] Revert "fix: do not display a third dot for descendant
 segments"

This reverts commit 0f93e3708891847db388f4e93595195e1d272eb7.
---
 serde_json_path_core/src/spec/segment.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/serde_json_path_core/src/spec/segment.rs b/serde_json_path_core/src/spec/segment.rs
index d999304..20e036e 100644
--- a/serde_json_path_core/src/spec/segment.rs
+++ b/serde_json_path_core/src/spec/segment.rs
@@ -30,12 +30,6 @@ impl std::fmt::Display for QuerySegment {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if matches!(self.kind, QuerySegmentKind::Descendant) {
             write!(f, "..")?;
-            // the shorthands for child segments begin with a dot
-            match &self.segment {
-                Segment::DotName(name) => return write!(f, "{name}"),
-                Segment::Wildcard => return write!(f, "*"),
-                Segment::LongHand(_) => (),
-            }
         }
         write!(f, "{segment}", segment = self.segment)
     }
-- 
2.43.0


From bceca4330a962619fb31aeda5dfe46dc474f1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 19/26] Revert "fix: keep the negation of a function when
 displaying a query"

This reverts commit b5776d48e791d7e1599fcd2847cce9831d22d7f7.
---
 serde_json_path_core/src/spec/selector/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 617e95d..97d68c0 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -182,7 +182,7 @@ impl std::fmt::Display for BasicExpr {
             BasicExpr::Exist(exist) => write!(f, "{exist}"),
             BasicExpr::NotExist(exist) => write!(f, "!{exist}"),
             BasicExpr::FuncExpr(expr) => write!(f, "{expr}"),
-            BasicExpr::NotFuncExpr(expr) => write!(f, "!{expr}"),
+            BasicExpr::NotFuncExpr(expr) => write!(f, "{expr}"),
         }
     }
 }
-- 
2.43.0


From 9b1c63d784a5d4d35e6777f897584c2c3e26a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 20/26] Revert "fix: escape string literals and names when
 displaying a query"

This reverts commit c5b5f2f4035e91c5316180d727e5740421b2c5c6.
---
 serde_json_path_core/src/spec/selector/filter.rs | 4 ++--
 serde_json_path_core/src/spec/selector/name.rs   | 8 ++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 97d68c0..c268440 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -3,7 +3,7 @@ use serde_json::{Number, Value};
 
 use crate::{
     node::LocatedNode,
-    path::{write_quoted, NormalizedPath},
+    path::NormalizedPath,
     spec::{
         functions::{FunctionExpr, JsonPathValue, Validated},
         query::{Query, QueryKind, Queryable},
@@ -454,7 +454,7 @@ impl std::fmt::Display for Literal {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Literal::Number(n) => write!(f, "{n}"),
-            Literal::String(s) => write_quoted(f, s),
+            Literal::String(s) => write!(f, "'{s}'"),
             Literal::Bool(b) => write!(f, "{b}"),
             Literal::Null => write!(f, "null"),
         }
diff --git a/serde_json_path_core/src/spec/selector/name.rs b/serde_json_path_core/src/spec/selector/name.rs
index 54b179b..758ef66 100644
--- a/serde_json_path_core/src/spec/selector/name.rs
+++ b/serde_json_path_core/src/spec/selector/name.rs
@@ -1,11 +1,7 @@
 //! Name selector for selecting object keys in JSONPath
 use serde_json::Value;
 
-use crate::{
-    node::LocatedNode,
-    path::{write_quoted, NormalizedPath},
-    spec::query::Queryable,
-};
+use crate::{node::LocatedNode, path::NormalizedPath, spec::query::Queryable};
 
 /// Select a single JSON object key
 #[derive(Debug, PartialEq, Eq, Clone)]
@@ -20,7 +16,7 @@ impl Name {
 
 impl std::fmt::Display for Name {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write_quoted(f, &self.0)
+        write!(f, "'{name}'", name = self.0)
     }
 }
 
-- 
2.43.0


From 18c98307264ba99dbc93eb8b9dd28b400f848a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 21/26] Revert "fix: compare numbers nested in arrays and
 objects by value"

This reverts commit 9658b9422e5c7bdc4d3d6574f311d25a5c111d73.
---
 serde_json_path_core/src/spec/selector/filter.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index c268440..c4d62aa 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -258,14 +258,6 @@ fn check_equal_to(left: &JsonPathValue, right: &JsonPathValue) -> bool {
 fn value_equal_to(left: &Value, right: &Value) -> bool {
     match (left, right) {
         (Value::Number(l), Value::Number(r)) => number_equal_to(l, r),
-        (Value::Array(l), Value::Array(r)) => {
-            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_equal_to(l, r))
-        }
-        (Value::Object(l), Value::Object(r)) => {
-            l.len() == r.len()
-                && l.iter()
-                    .all(|(k, l)| r.get(k).is_some_and(|r| value_equal_to(l, r)))
-        }
         _ => left == right,
     }
 }
-- 
2.43.0


From 9d4af25067ab8860f57fd387e990c3f8f635d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 22/26] Revert "fix: compare values that have no ordering as
 RFC 9535 requires"

This reverts commit 6599697a6251d5fca0174c8c93ac12455189f07d.
---
 .../src/spec/selector/filter.rs               | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index c4d62aa..0ac4f25 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -292,6 +292,25 @@ fn check_less_than(left: &JsonPathValue, right: &JsonPathValue) -> bool {
     }
 }
 
+fn value_same_type(left: &Value, right: &Value) -> bool {
+    matches!((left, right), (Value::Null, Value::Null))
+        | matches!((left, right), (Value::Bool(_), Value::Bool(_)))
+        | matches!((left, right), (Value::Number(_), Value::Number(_)))
+        | matches!((left, right), (Value::String(_), Value::String(_)))
+        | matches!((left, right), (Value::Array(_), Value::Array(_)))
+        | matches!((left, right), (Value::Object(_), Value::Object(_)))
+}
+
+fn check_same_type(left: &JsonPathValue, right: &JsonPathValue) -> bool {
+    match (left, right) {
+        (JsonPathValue::Node(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Node(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Value(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Value(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
+        _ => false,
+    }
+}
+
 impl std::fmt::Display for ComparisonExpr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(
@@ -312,13 +331,20 @@ impl TestFilter for ComparisonExpr {
         match self.op {
             ComparisonOperator::EqualTo => check_equal_to(&left, &right),
             ComparisonOperator::NotEqualTo => !check_equal_to(&left, &right),
-            ComparisonOperator::LessThan => check_less_than(&left, &right),
-            ComparisonOperator::GreaterThan => check_less_than(&right, &left),
+            ComparisonOperator::LessThan => {
+                check_same_type(&left, &right) && check_less_than(&left, &right)
+            }
+            ComparisonOperator::GreaterThan => {
+                check_same_type(&left, &right)
+                    && !check_less_than(&left, &right)
+                    && !check_equal_to(&left, &right)
+            }
             ComparisonOperator::LessThanEqualTo => {
-                check_less_than(&left, &right) || check_equal_to(&left, &right)
+                check_same_type(&left, &right)
+                    && (check_less_than(&left, &right) || check_equal_to(&left, &right))
             }
             ComparisonOperator::GreaterThanEqualTo => {
-                check_less_than(&right, &left) || check_equal_to(&left, &right)
+                check_same_type(&left, &right) && !check_less_than(&left, &right)
             }
         }
     }
-- 
2.43.0


From 9ed3c313914cd117345ab27b7195dc09ec037d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 23/26] Revert "fix: resolve negative indices in singular
 queries"

This reverts commit 970353e5378b2e103228f9bbe624ac481989b9f6.
---
 serde_json_path_core/src/spec/selector/filter.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 0ac4f25..a81b831 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -561,16 +561,10 @@ impl SingularQuery {
                     }
                 }
                 SingularQuerySegment::Index(index) => {
-                    if let Some(t) = target.as_array().and_then(|l| {
-                        if index.0 < 0 {
-                            usize::try_from(index.0.abs())
-                                .ok()
-                                .and_then(|i| l.len().checked_sub(i))
-                        } else {
-                            usize::try_from(index.0).ok()
-                        }
-                        .and_then(|i| l.get(i))
-                    }) {
+                    if let Some(t) = target
+                        .as_array()
+                        .and_then(|l| usize::try_from(index.0).ok().and_then(|i| l.get(i)))
+                    {
                         target = t;
                     } else {
                         return None;
-- 
2.43.0


From 1931789adcd431d1ec11e2fd85757c9b60412a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 24/26] fix: accept raw identifiers as names of custom
 functions

---
 serde_json_path_macros/src/internal/common/define.rs |  5 +++--
 .../src/internal/common/extract.rs                   | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index f9f0a22..cf84c3e 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
-use syn::{ItemFn, LitStr};
+use syn::{ext::IdentExt, ItemFn, LitStr};
 
 use crate::common::extract::FnArgument;
 
@@ -40,7 +40,8 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
         Err(e) => return Err(e.into_compile_error()),
     };
     // Stringified name of the function:
-    let name_str = name_str.unwrap_or_else(|| LitStr::new(name.to_string().as_str(), name.span()));
+    let name_str =
+        name_str.unwrap_or_else(|| LitStr::new(name.unraw().to_string().as_str(), name.span()));
     // The number of arguments the function accepts:
     let args_len = args.len();
     // Generate token streams for some needed types:
diff --git a/serde_json_path_macros/src/internal/common/extract.rs b/serde_json_path_macros/src/internal/common/extract.rs
index cfd881b..b100740 100644
--- a/serde_json_path_macros/src/internal/common/extract.rs
+++ b/serde_json_path_macros/src/internal/common/extract.rs
@@ -3,8 +3,8 @@ use std::collections::VecDeque;
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 use syn::{
-    punctuated::Punctuated, spanned::Spanned, token::Comma, Error, FnArg, Generics, Pat, PatType,
-    Path, Result, ReturnType, Signature, Type,
+    ext::IdentExt, punctuated::Punctuated, spanned::Spanned, token::Comma, Error, FnArg, Generics,
+    Pat, PatType, Path, Result, ReturnType, Signature, Type,
 };
 
 pub struct Components {
@@ -130,11 +130,15 @@ pub fn extract_components(input: Signature) -> Result<Components> {
 
     let args = args?;
     let validator_name = Ident::new(
-        format!("{name}_validator").to_uppercase().as_str(),
+        format!("{name}_validator", name = name.unraw())
+            .to_uppercase()
+            .as_str(),
         name.span(),
     );
     let evaluator_name = Ident::new(
-        format!("{name}_evaluator").to_uppercase().as_str(),
+        format!("{name}_evaluator", name = name.unraw())
+            .to_uppercase()
+            .as_str(),
         name.span(),
     );
 
-- 
2.43.0


From c5caa9a26bf9b713d96cd1826b752f7e0b399e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 25/26] fix: report the expected and received numbers of
 function arguments the right way round

---
 serde_json_path_macros/src/internal/common/define.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index cf84c3e..ecb1999 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -79,8 +79,8 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             std::boxed::Box::new(|a: &[#core::FunctionExprArg]| {
                 if a.len() != #args_len {
                     return #res::Err(#core::FunctionValidationError::NumberOfArgsMismatch {
-                        expected: a.len(),
-                        received: #args_len,
+                        expected: #args_len,
+                        received: a.len(),
                     });
                 }
                 #(#arg_checks)*
-- 
2.43.0


From e7588a8de048f87bf828a42eb8c392c0d290802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 26/26] fix: count error positions from 1, as documented

---
 serde_json_path/src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serde_json_path/src/error.rs b/serde_json_path/src/error.rs
index 2369c61..a1a1b7f 100644
--- a/serde_json_path/src/error.rs
+++ b/serde_json_path/src/error.rs
@@ -35,7 +35,8 @@ where
     fn from((input, pe): (I, Error<I>)) -> Self {
         #[cfg(feature = "trace")]
         tracing::trace!(input = %input.to_string(), parser_error = ?pe);
-        let position = pe.calculate_position(input);
+        // the offset is counted from 0, the position from 1
+        let position = pe.calculate_position(input) + 1;
         let message = pe.to_string().into();
         Self {
             err: Box::new(ErrorImpl { position, message }),
-- 
2.43.0


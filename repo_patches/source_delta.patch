From ec38e5026eb5d660a5b2232041bc087fba90567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:07 +0000
Subject: [PATCH 01/38] fix: flush output before reporting success

Standard output is line buffered, so the tail of the output could still be in
the buffer when the run was reported as successful; an error while writing it
out at exit was dropped silently.
---
 src/cli.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index c825700..f79792e 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -443,12 +443,14 @@ fn read_binary_input<R: Read>(mut reader: R) -> Result<Vec<u8>> {
 /// Write text output to writer
 fn write_text_output<W: Write>(mut writer: W, content: &str) -> Result<()> {
     writer.write_all(content.as_bytes())?;
+    writer.flush()?;
     Ok(())
 }
 
 /// Write binary output to writer
 fn write_binary_output<W: Write>(mut writer: W, content: &[u8]) -> Result<()> {
     writer.write_all(content)?;
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 8e5664800e38180c607e8372efe6e2bfa18aa68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:02 +0000
Subject: [PATCH 02/38] fix: do not panic when a parse error leaves tokens
 unread

RuleIter's destructor asserted that every token was consumed, so returning a
parse error early (for instance for a bad type inside a list) aborted the whole
parse with a panic instead of reporting the error.
---
 src/parser/common.rs      | 26 +++-----------------------
 src/parser/expressions.rs |  4 +---
 src/parser/relations.rs   |  5 ++---
 3 files changed, 6 insertions(+), 29 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index c79c939..a322a46 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::{fmt, thread};
+use std::fmt;
 
 use pest::error::{Error as PestError, ErrorVariant};
 use pest::iterators::{Pair, Pairs};
@@ -198,21 +198,16 @@ pub(crate) trait ScopedParsePair: Sized {
 }
 
 pub(crate) fn iter_pairs(pair: Pairs<'_, Rule>) -> RuleIter<'_> {
-    RuleIter {
-        iter: pair,
-        done: false,
-    }
+    RuleIter { iter: pair }
 }
 
 pub(crate) struct RuleIter<'a> {
     iter: Pairs<'a, Rule>,
-    // Set to true when done is called, so destructor doesn't panic
-    done: bool,
 }
 
 impl<'a> From<Pairs<'a, Rule>> for RuleIter<'a> {
     fn from(iter: Pairs<'a, Rule>) -> Self {
-        RuleIter { iter, done: false }
+        RuleIter { iter }
     }
 }
 
@@ -286,7 +281,6 @@ impl<'a> RuleIter<'a> {
     }
 
     pub(crate) fn done(mut self) {
-        self.done = true;
         // A rule may end with the `EOI` marker to force full input consumption
         // (e.g. `virtual_read_relation`). That marker carries no data, so it is
         // not leftover content — skip it before asserting the iterator is empty.
@@ -298,20 +292,6 @@ impl<'a> RuleIter<'a> {
     }
 }
 
-/// Make sure that the iterator was completely consumed when the iterator is
-/// dropped - that we didn't leave any partially-parsed tokens.
-///
-/// This is not strictly necessary, but it's a good way to catch bugs.
-impl Drop for RuleIter<'_> {
-    fn drop(&mut self) {
-        if self.done || thread::panicking() {
-            return;
-        }
-        // If the iterator is not done, something probably went wrong.
-        assert_eq!(self.iter.next(), None);
-    }
-}
-
 /// A collection of named arguments (`name=value` pairs) extracted from a
 /// named-argument-list rule, keyed by name with duplicate-name rejection.
 pub(crate) struct ParsedNamedArgs<'a> {
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f116c0a..48dd18b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -832,9 +832,7 @@ impl ScopedParsePair for ScalarFunction {
         let span = pair.as_span();
         let mut iter = RuleIter::from(pair.into_inner());
 
-        // Drain the iterator into raw pairs before any fallible parsing, so an
-        // early return doesn't trip the RuleIter drop guard with pairs still
-        // pending.
+        // Drain the iterator into raw pairs before any fallible parsing.
         let reference_pair = iter.pop(Rule::function_reference);
         let args_pair = iter.pop(Rule::argument_list);
         let type_pair = iter.pop(Rule::r#type);
diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 38d9c1c..3ecc0b2 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -1087,9 +1087,8 @@ impl RelationParsePair for FetchRel {
         let input = expect_one_child(Self::message(), &pair, input_children)?;
         let mut iter = RuleIter::from(pair.into_inner());
 
-        // Extract all pairs before any validation: RuleIter's Drop panics on
-        // incomplete consumption, so we must exhaust the iterator before any
-        // early return. Validation runs after iter.done() below.
+        // Extract all pairs before any validation, which runs after iter.done()
+        // below.
         let (limit_pair, offset_pair) = match iter.try_pop(Rule::fetch_named_arg_list) {
             None => {
                 iter.pop(Rule::empty);
-- 
2.43.0


From e6fd5ee2720f32f39dcb5416198414107671bf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:28 +0000
Subject: [PATCH 03/38] fix: report out-of-range integers in text plans as
 parse errors

Field indices, anchors and integer literals that match the grammar but do not
fit their integer type panicked in the parser.
---
 src/parser/common.rs      | 21 +++++++++++++++++-
 src/parser/expressions.rs | 45 +++++++++++++++++++++++++--------------
 src/parser/extensions.rs  | 32 +++++++++++++---------------
 src/parser/mod.rs         |  2 +-
 src/parser/relations.rs   | 42 +++++++++++++++++++++---------------
 src/parser/types.rs       |  8 ++++---
 6 files changed, 95 insertions(+), 55 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index a322a46..561d94f 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,5 +1,7 @@
 use std::collections::HashMap;
 use std::fmt;
+use std::num::ParseIntError;
+use std::str::FromStr;
 
 use pest::error::{Error as PestError, ErrorVariant};
 use pest::iterators::{Pair, Pairs};
@@ -87,6 +89,17 @@ pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
     pair
 }
 
+/// Parse the text of an integer pair, reporting a value that does not fit the
+/// requested type as an error.
+pub(crate) fn parse_integer<T: FromStr<Err = ParseIntError>>(
+    message: &'static str,
+    pair: &Pair<Rule>,
+) -> Result<T, MessageParseError> {
+    pair.as_str()
+        .parse::<T>()
+        .map_err(|e| MessageParseError::invalid(message, pair.as_span(), e))
+}
+
 /// Unescapes a quoted string literal, handling escape sequences.
 ///
 /// # Arguments
@@ -167,13 +180,19 @@ pub(crate) trait ParsePair: Sized {
     // expected.
     fn parse_pair(pair: Pair<Rule>) -> Self;
 
+    // As `parse_pair`, for types whose text can match the rule and still hold a
+    // value that is out of range (e.g. an integer that does not fit).
+    fn try_parse_pair(pair: Pair<Rule>) -> Result<Self, MessageParseError> {
+        Ok(Self::parse_pair(pair))
+    }
+
     fn parse_str(s: &str) -> Result<Self, MessageParseError> {
         let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(Self::rule(), s)
             .map_err(|e| MessageParseError::new(Self::message(), ErrorKind::Syntax, Box::new(e)))?;
         assert_eq!(pairs.as_str(), s);
         let pair = pairs.next().unwrap();
         assert_eq!(pairs.next(), None);
-        Ok(Self::parse_pair(pair))
+        Self::try_parse_pair(pair)
     }
 }
 
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 48dd18b..0dcba76 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -23,7 +23,7 @@ use substrait::proto::{AggregateFunction, Expression, FunctionArgument, Type};
 
 use super::types::get_and_validate_anchor;
 use super::{
-    ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
+    ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair, parse_integer,
     unescape_string, unwrap_single_pair,
 };
 use crate::extensions::SimpleExtensions;
@@ -63,10 +63,13 @@ impl ParsePair for FieldIndex {
     }
 
     fn parse_pair(pair: Pair<Rule>) -> Self {
+        Self::try_parse_pair(pair).expect("field index in range")
+    }
+
+    fn try_parse_pair(pair: Pair<Rule>) -> Result<Self, MessageParseError> {
         assert_eq!(pair.as_rule(), Self::rule());
         let inner = unwrap_single_pair(pair);
-        let index: i32 = inner.as_str().parse().unwrap();
-        FieldIndex(index)
+        Ok(FieldIndex(parse_integer(Self::message(), &inner)?))
     }
 }
 
@@ -80,10 +83,14 @@ impl ParsePair for FieldReference {
     }
 
     fn parse_pair(pair: Pair<Rule>) -> Self {
+        Self::try_parse_pair(pair).expect("field index in range")
+    }
+
+    fn try_parse_pair(pair: Pair<Rule>) -> Result<Self, MessageParseError> {
         assert_eq!(pair.as_rule(), Self::rule());
 
         // TODO: Other types of references.
-        FieldIndex::parse_pair(pair).to_field_reference()
+        Ok(FieldIndex::try_parse_pair(pair)?.to_field_reference())
     }
 }
 
@@ -94,7 +101,7 @@ const UNSIGNED_INT_KIND: Kind = Kind::I64(I64 {
 
 fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::integer);
-    let parsed_value: i64 = value.as_str().parse().unwrap();
+    let parsed_value: i64 = parse_integer("int_literal", &value)?;
 
     // If no type is provided, we assume i64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_INT_KIND);
@@ -748,6 +755,10 @@ impl ParsePair for FunctionReference {
     }
 
     fn parse_pair(pair: Pair<Rule>) -> Self {
+        Self::try_parse_pair(pair).expect("anchors in range")
+    }
+
+    fn try_parse_pair(pair: Pair<Rule>) -> Result<Self, MessageParseError> {
         assert_eq!(pair.as_rule(), Self::rule());
         let mut iter = RuleIter::from(pair.into_inner());
 
@@ -755,17 +766,19 @@ impl ParsePair for FunctionReference {
         let name = iter.parse_next::<CompoundName>();
 
         // Optional anchor (e.g., #1)
-        let anchor = iter
-            .try_pop(Rule::anchor)
-            .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+        let anchor = iter.try_pop(Rule::anchor).map(unwrap_single_pair);
 
         // Optional URN anchor (e.g., @1); currently unused.
-        let _urn_anchor = iter
-            .try_pop(Rule::urn_anchor)
-            .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+        let urn_anchor = iter.try_pop(Rule::urn_anchor).map(unwrap_single_pair);
 
         iter.done();
-        FunctionReference { name, anchor }
+        let anchor = anchor
+            .map(|n| parse_integer(Self::message(), &n))
+            .transpose()?;
+        urn_anchor
+            .map(|n| parse_integer::<u32>(Self::message(), &n))
+            .transpose()?;
+        Ok(FunctionReference { name, anchor })
     }
 }
 
@@ -838,7 +851,7 @@ impl ScopedParsePair for ScalarFunction {
         let type_pair = iter.pop(Rule::r#type);
         iter.done();
 
-        let reference = FunctionReference::parse_pair(reference_pair);
+        let reference = FunctionReference::try_parse_pair(reference_pair)?;
         let FunctionArguments(arguments) = FunctionArguments::parse_pair(extensions, args_pair)?;
         // Required output type (e.g., :i64); the grammar guarantees its presence.
         let output_type = Type::parse_pair(extensions, type_pair)?;
@@ -926,9 +939,9 @@ impl ScopedParsePair for Expression {
                 )?)),
             }),
             Rule::reference => Ok(Expression {
-                rex_type: Some(RexType::Selection(Box::new(FieldReference::parse_pair(
-                    inner,
-                )))),
+                rex_type: Some(RexType::Selection(Box::new(
+                    FieldReference::try_parse_pair(inner)?,
+                ))),
             }),
             Rule::if_then => Ok(Expression {
                 rex_type: Some(RexType::IfThen(Box::new(IfThen::parse_pair(
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index ec2fb5e..cbce49a 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use super::{
     ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    unescape_string, unwrap_single_pair,
+    parse_integer, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -191,18 +191,19 @@ impl ParsePair for URNExtensionDeclaration {
     }
 
     fn parse_pair(pair: Pair<Rule>) -> Self {
+        Self::try_parse_pair(pair).expect("anchor in range")
+    }
+
+    fn try_parse_pair(pair: Pair<Rule>) -> Result<Self, MessageParseError> {
         assert_eq!(pair.as_rule(), Self::rule());
 
         let mut iter = RuleIter::from(pair.into_inner());
         let anchor_pair = iter.pop(Rule::urn_anchor);
-        let anchor = unwrap_single_pair(anchor_pair)
-            .as_str()
-            .parse::<u32>()
-            .unwrap();
+        let anchor = parse_integer(Self::message(), &unwrap_single_pair(anchor_pair))?;
         let urn = iter.pop(Rule::urn).as_str().to_string();
         iter.done();
 
-        URNExtensionDeclaration { anchor, urn }
+        Ok(URNExtensionDeclaration { anchor, urn })
     }
 }
 
@@ -224,14 +225,11 @@ impl SimpleExtensionDeclaration {
         let pair = pairs.next().unwrap();
         let mut iter = RuleIter::from(pair.into_inner());
 
-        let anchor = unwrap_single_pair(iter.pop(Rule::anchor))
-            .as_str()
-            .parse::<u32>()
-            .unwrap();
-        let urn_anchor = unwrap_single_pair(iter.pop(Rule::urn_anchor))
-            .as_str()
-            .parse::<u32>()
-            .unwrap();
+        let anchor = parse_integer("anchor", &unwrap_single_pair(iter.pop(Rule::anchor)))?;
+        let urn_anchor = parse_integer(
+            "urn_anchor",
+            &unwrap_single_pair(iter.pop(Rule::urn_anchor)),
+        )?;
         let name_pair = iter.pop(Rule::simple_extension_name);
         let name_span = name_pair.as_span();
         let name = name_pair.as_str();
@@ -291,7 +289,7 @@ impl ScopedParsePair for ExtensionValue {
             }
             Rule::reference => {
                 // Reuse the existing FieldIndex parser, then extract the i32
-                let field_index = FieldIndex::parse_pair(inner);
+                let field_index = FieldIndex::try_parse_pair(inner)?;
                 ExtensionValue::from(Reference(field_index.0))
             }
             Rule::parameter_literal => {
@@ -300,7 +298,7 @@ impl ScopedParsePair for ExtensionValue {
                 match value_pair.as_rule() {
                     Rule::string_literal => ExtensionValue::String(unescape_string(value_pair)),
                     Rule::integer => {
-                        ExtensionValue::Integer(value_pair.as_str().parse::<i64>().unwrap())
+                        ExtensionValue::Integer(parse_integer(Self::message(), &value_pair)?)
                     }
                     Rule::float => {
                         ExtensionValue::Float(value_pair.as_str().parse::<f64>().unwrap())
@@ -359,7 +357,7 @@ impl ScopedParsePair for ExtensionColumn {
             }
             Rule::reference => {
                 // Reuse the existing FieldIndex parser, then extract the i32
-                let field_index = FieldIndex::parse_pair(inner);
+                let field_index = FieldIndex::try_parse_pair(inner)?;
                 ExtensionColumn::Expr(Reference(field_index.0).into())
             }
             Rule::expression => {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 72d62a6..a6cd171 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,7 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    iter_pairs, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    iter_pairs, parse_integer, sort_direction_from_str, unescape_string, unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 3ecc0b2..a40ed43 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -207,10 +207,10 @@ pub(crate) fn expect_one_child(
 
 /// Parse a reference list Pair and return an EmitKind::Emit.
 /// Parse a reference list into field indices for emit mapping.
-fn parse_output_mapping(pair: Pair<Rule>) -> Vec<i32> {
+fn parse_output_mapping(pair: Pair<Rule>) -> Result<Vec<i32>, MessageParseError> {
     assert_eq!(pair.as_rule(), Rule::reference_list);
     pair.into_inner()
-        .map(|p| FieldIndex::parse_pair(p).0)
+        .map(|p| Ok(FieldIndex::try_parse_pair(p)?.0))
         .collect()
 }
 
@@ -238,11 +238,14 @@ pub(crate) fn direct_common() -> RelCommon {
 }
 
 /// Parse a reference list into an emit and output field count.
-fn parse_emit(reference_list: Pair<Rule>, direct_output_count: usize) -> (EmitKind, usize) {
-    let output_mapping = parse_output_mapping(reference_list);
+fn parse_emit(
+    reference_list: Pair<Rule>,
+    direct_output_count: usize,
+) -> Result<(EmitKind, usize), MessageParseError> {
+    let output_mapping = parse_output_mapping(reference_list)?;
     let output_count = output_mapping.len();
     let emit = make_emit(output_mapping, direct_output_count);
-    (emit, output_count)
+    Ok((emit, output_count))
 }
 
 fn parse_output(
@@ -266,7 +269,7 @@ fn parse_output(
             iter.done();
 
             let direct_output_count = columns.len();
-            let (emit, output_count) = parse_emit_suffix(emit_suffix)
+            let (emit, output_count) = parse_emit_suffix(emit_suffix)?
                 .unwrap_or((EmitKind::Direct(Direct {}), direct_output_count));
             let common = Some(RelCommon {
                 emit_kind: Some(emit),
@@ -278,13 +281,18 @@ fn parse_output(
     }
 }
 
-fn parse_emit_suffix(suffix: Pair<Rule>) -> Option<(EmitKind, usize)> {
+fn parse_emit_suffix(suffix: Pair<Rule>) -> Result<Option<(EmitKind, usize)>, MessageParseError> {
     assert_eq!(suffix.as_rule(), Rule::emit_suffix);
-    let reference_list = suffix.into_inner().next()?;
+    let Some(reference_list) = suffix.into_inner().next() else {
+        return Ok(None);
+    };
     assert_eq!(reference_list.as_rule(), Rule::reference_list);
-    let output_mapping = parse_output_mapping(reference_list);
+    let output_mapping = parse_output_mapping(reference_list)?;
     let output_count = output_mapping.len();
-    Some((EmitKind::Emit(Emit { output_mapping }), output_count))
+    Ok(Some((
+        EmitKind::Emit(Emit { output_mapping }),
+        output_count,
+    )))
 }
 
 impl RelationParsePair for ReadRel {
@@ -557,7 +565,7 @@ impl RelationParsePair for FilterRel {
         let references_pair = iter.pop(Rule::reference_list);
         iter.done();
 
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -609,7 +617,7 @@ impl RelationParsePair for ProjectRel {
             let inner_arg = unwrap_single_pair(arg);
             match inner_arg.as_rule() {
                 Rule::reference => {
-                    let field_index = FieldIndex::parse_pair(inner_arg);
+                    let field_index = FieldIndex::try_parse_pair(inner_arg)?;
                     output_mapping.push(field_index.0);
                 }
                 Rule::expression => {
@@ -935,7 +943,7 @@ impl RelationParsePair for SortRel {
             let sort_field = SortField::parse_pair(extensions, sort_field_pair)?;
             sorts.push(sort_field);
         }
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1105,7 +1113,7 @@ impl RelationParsePair for FetchRel {
         };
 
         let references_pair = iter.pop(Rule::reference_list);
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1216,7 +1224,7 @@ impl RelationParsePair for JoinRel {
         // TODO: For semi/anti joins, the direct output width differs from
         // left+right — `input_field_count` would misclassify the emit as Direct.
         // Revisit when those join types are supported.
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1280,7 +1288,7 @@ impl RelationParsePair for CrossRel {
         let reference_list_pair = iter.pop(Rule::reference_list);
         iter.done();
 
-        let (emit, output_count) = parse_emit(reference_list_pair, input_field_count);
+        let (emit, output_count) = parse_emit(reference_list_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1363,7 +1371,7 @@ pub(crate) fn parse_set_relation_pair(
     let reference_list_pair = iter.pop(Rule::reference_list);
     iter.done();
 
-    let (emit, output_count) = parse_emit(reference_list_pair, child_width);
+    let (emit, output_count) = parse_emit(reference_list_pair, child_width)?;
     let common = RelCommon {
         emit_kind: Some(emit),
         ..Default::default()
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 42efae6..e43215c 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -2,7 +2,7 @@ use pest::iterators::Pair;
 use substrait::proto::r#type::{Kind, Nullability, Parameter};
 use substrait::proto::{self, Type};
 
-use super::{ParsePair, Rule, ScopedParsePair, iter_pairs, unwrap_single_pair};
+use super::{ParsePair, Rule, ScopedParsePair, iter_pairs, parse_integer, unwrap_single_pair};
 use crate::extensions::SimpleExtensions;
 use crate::extensions::simple::{ExtensionKind, MissingReference};
 use crate::parser::MessageParseError;
@@ -312,12 +312,14 @@ fn parse_user_defined_type(
     let name = iter.pop(Rule::identifier).as_str().to_string();
     let anchor = iter
         .try_pop(Rule::anchor)
-        .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+        .map(|n| parse_integer("anchor", &unwrap_single_pair(n)))
+        .transpose()?;
 
     // TODO: Handle urn_anchor; validate that it matches the anchor
     let _urn_anchor = iter
         .try_pop(Rule::urn_anchor)
-        .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+        .map(|n| parse_integer::<u32>("urn_anchor", &unwrap_single_pair(n)))
+        .transpose()?;
 
     let nullability = iter.parse_next::<Nullability>();
     let parameters = match iter.try_pop(Rule::parameters) {
-- 
2.43.0


From 5fd2d60181e27b36d732facf3e213dd8985b2263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:25 +0000
Subject: [PATCH 04/38] fix: report unsupported types in text plans as parse
 errors

map, struct, non-type parameters and the unsigned integer names are accepted by
the grammar but have no implementation; the parser panicked on them. Substrait
has no unsigned integer types, so those names leave the grammar.
---
 src/parser/expression_grammar.pest |  4 ----
 src/parser/types.rs                | 13 +++++++++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 3518570..0d5ecbf 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -84,10 +84,6 @@ simple_type_name = {
   | "i16"
   | "i32"
   | "i64"
-  | "u8"
-  | "u16"
-  | "u32"
-  | "u64"
   | "fp32"
   | "fp64"
   | "string"
diff --git a/src/parser/types.rs b/src/parser/types.rs
index e43215c..387ae67 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -98,11 +98,20 @@ impl ScopedParsePair for Parameter {
                     Type::parse_pair(extensions, inner)?,
                 )),
             }),
-            _ => unimplemented!("{:?}", inner.as_rule()),
+            _ => Err(unsupported(Self::message(), &inner)),
         }
     }
 }
 
+/// Error for text that the grammar accepts but that has no implementation yet.
+fn unsupported(message: &'static str, pair: &Pair<Rule>) -> MessageParseError {
+    MessageParseError::invalid(
+        message,
+        pair.as_span(),
+        format!("'{}' is not supported yet", pair.as_str()),
+    )
+}
+
 fn parse_simple_type(pair: Pair<Rule>) -> Type {
     assert_eq!(pair.as_rule(), Rule::simple_type);
     let mut iter = iter_pairs(pair.into_inner());
@@ -193,7 +202,7 @@ fn parse_compound_type(
         | Rule::precision_timestamp_type
         | Rule::precision_time_type => parse_precision_type(inner),
         Rule::interval_day_type => parse_interval_day_type(inner),
-        _ => unimplemented!("{:?}", inner.as_rule()),
+        _ => Err(unsupported("Type", &inner)),
     }
 }
 
-- 
2.43.0


From 329778107304ca5006cc266c582f1848f0583e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:53 +0000
Subject: [PATCH 05/38] fix: report trailing text in extension declarations as
 a parse error

Text after a URN or extension declaration tripped an assertion and panicked.
---
 src/parser/common.rs     | 18 +++++++++++++++++-
 src/parser/extensions.rs |  4 ++--
 src/parser/mod.rs        |  3 ++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 561d94f..3dd35f2 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -89,6 +89,22 @@ pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
     pair
 }
 
+/// Check that a rule matched the whole of `input`, not just the start of it.
+pub(crate) fn expect_all_consumed(
+    message: &'static str,
+    pairs: &Pairs<Rule>,
+    input: &str,
+) -> Result<(), MessageParseError> {
+    match Span::new(input, pairs.as_str().len(), input.len()) {
+        Some(rest) if !rest.as_str().is_empty() => Err(MessageParseError::invalid(
+            message,
+            rest,
+            "Unexpected text at the end of the line",
+        )),
+        _ => Ok(()),
+    }
+}
+
 /// Parse the text of an integer pair, reporting a value that does not fit the
 /// requested type as an error.
 pub(crate) fn parse_integer<T: FromStr<Err = ParseIntError>>(
@@ -189,7 +205,7 @@ pub(crate) trait ParsePair: Sized {
     fn parse_str(s: &str) -> Result<Self, MessageParseError> {
         let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(Self::rule(), s)
             .map_err(|e| MessageParseError::new(Self::message(), ErrorKind::Syntax, Box::new(e)))?;
-        assert_eq!(pairs.as_str(), s);
+        expect_all_consumed(Self::message(), &pairs, s)?;
         let pair = pairs.next().unwrap();
         assert_eq!(pairs.next(), None);
         Self::try_parse_pair(pair)
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index cbce49a..441eff0 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use super::{
     ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    parse_integer, unescape_string, unwrap_single_pair,
+    expect_all_consumed, parse_integer, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -221,7 +221,7 @@ impl SimpleExtensionDeclaration {
             .map_err(|e| {
                 MessageParseError::new("SimpleExtensionDeclaration", ErrorKind::Syntax, Box::new(e))
             })?;
-        assert_eq!(pairs.as_str(), s);
+        expect_all_consumed("SimpleExtensionDeclaration", &pairs, s)?;
         let pair = pairs.next().unwrap();
         let mut iter = RuleIter::from(pair.into_inner());
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a6cd171..3119a2b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,8 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    iter_pairs, parse_integer, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    expect_all_consumed, iter_pairs, parse_integer, sort_direction_from_str, unescape_string,
+    unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
-- 
2.43.0


From 0e46627b6ef2c1475c19692ecac413856b4fd082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:37 +0000
Subject: [PATCH 06/38] fix: keep nullability of string literals when parsing

A nullable string literal is written as 'abc':string? but was read back as not
nullable.
---
 src/parser/expressions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 0dcba76..f1ab1a4 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -340,6 +340,11 @@ fn to_string_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Me
                 type_variation_reference: pt.type_variation_reference,
             })
         }
+        Kind::String(s) => Ok(Literal {
+            literal_type: Some(LiteralType::String(string_value)),
+            nullable: s.nullability != Nullability::Required as i32,
+            type_variation_reference: s.type_variation_reference,
+        }),
         _ => {
             // For other types, treat as string
             Ok(Literal {
-- 
2.43.0


From cef9ebf292a28ca3e7123eac396ccc1923cf4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:51 +0000
Subject: [PATCH 07/38] fix: write floats so that they read back as floats

A float without a fractional part (1.0, 1e20) was written as an integer: it read
back as an i64 literal, failed to parse with a type suffix, or overflowed. NaN
and infinities, which have no syntax, were written as unreadable text without
reporting a problem.
---
 src/textify/expressions.rs | 26 ++++++++++++++++++++++++--
 src/textify/extensions.rs  |  3 ++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index ffca46e..39c5a1f 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -109,6 +109,28 @@ fn write_precision_literal<S: Scope, W: fmt::Write>(
     }
 }
 
+/// Write a float, given as its shortest decimal representation. A fractional
+/// part is always written, as it is what tells a float from an integer; there is
+/// no syntax for values that are not finite.
+pub(crate) fn textify_float<S: Scope, W: fmt::Write>(
+    digits: String,
+    ctx: &S,
+    w: &mut W,
+) -> fmt::Result {
+    if digits.contains('.') {
+        write!(w, "{digits}")
+    } else if digits.ends_with(|c: char| c.is_ascii_digit()) {
+        write!(w, "{digits}.0")
+    } else {
+        let error = PlanError::invalid(
+            "LiteralType",
+            Some("float"),
+            format!("{digits} has no text representation"),
+        );
+        write!(w, "{}", ctx.failure(error))
+    }
+}
+
 /// Write an enum value. Enums are written as `&<identifier>`, if the string is
 /// a valid identifier; otherwise, they are written as `&'<escaped_string>'`.
 pub fn textify_enum<S: Scope, W: fmt::Write>(s: &str, _ctx: &S, w: &mut W) -> fmt::Result {
@@ -314,8 +336,8 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Boolean(b) => write!(w, "{b}"),
         LiteralType::I8(i) | LiteralType::I16(i) | LiteralType::I32(i) => write!(w, "{i}"),
         LiteralType::I64(i) => write!(w, "{i}"),
-        LiteralType::Fp32(f) => write!(w, "{f}"),
-        LiteralType::Fp64(f) => write!(w, "{f}"),
+        LiteralType::Fp32(f) => textify_float(f.to_string(), ctx, w),
+        LiteralType::Fp64(f) => textify_float(f.to_string(), ctx, w),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
         LiteralType::Date(days) => {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 8e731ca..af0bda9 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -9,6 +9,7 @@ use std::fmt;
 
 use crate::FormatError;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
+use crate::textify::expressions::textify_float;
 use crate::textify::foundation::{Scope, Textify};
 use crate::textify::types::{Name, escaped};
 
@@ -38,7 +39,7 @@ impl Textify for ExtensionValue {
         match self {
             ExtensionValue::String(s) => write!(w, "'{}'", escaped(s)),
             ExtensionValue::Integer(i) => write!(w, "{i}"),
-            ExtensionValue::Float(f) => write!(w, "{f}"),
+            ExtensionValue::Float(f) => textify_float(f.to_string(), ctx, w),
             ExtensionValue::Boolean(b) => write!(w, "{b}"),
             ExtensionValue::Null => write!(w, "null"),
             ExtensionValue::Error(error) => {
-- 
2.43.0


From edf83488160b76169473eb4322a48933b57b035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:58 +0000
Subject: [PATCH 08/38] fix: report out-of-range date literals instead of
 panicking

Formatting a plan with a date literal beyond chrono's date range panicked.
---
 src/textify/expressions.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 39c5a1f..853c55b 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -138,10 +138,12 @@ pub fn textify_enum<S: Scope, W: fmt::Write>(s: &str, _ctx: &S, w: &mut W) -> fm
 }
 
 /// Convert days since Unix epoch to date string
-fn days_to_date_string(days: i32) -> String {
+///
+/// Returns `None` if the date is outside of chrono's representable date range.
+fn days_to_date_string(days: i32) -> Option<String> {
     let epoch = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Duration::days(days as i64);
-    date.format("%Y-%m-%d").to_string()
+    let date = epoch.checked_add_signed(chrono::Duration::days(days as i64))?;
+    Some(date.format("%Y-%m-%d").to_string())
 }
 
 /// Convert a value in `precision` units, to a `chrono::Duration`.
@@ -340,9 +342,18 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Fp64(f) => textify_float(f.to_string(), ctx, w),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
-        LiteralType::Date(days) => {
-            write!(w, "'{}'", escaped(&days_to_date_string(*days)))
-        }
+        LiteralType::Date(days) => match days_to_date_string(*days) {
+            Some(date) => write!(w, "'{}'", escaped(&date)),
+            None => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::invalid(
+                    "LiteralType",
+                    Some("Date"),
+                    format!("{days} days since the epoch is out of range for Date"),
+                ))
+            ),
+        },
         #[allow(deprecated)]
         LiteralType::Time(microseconds) => write_precision_literal(
             "Time",
-- 
2.43.0


From e493392850d81efcaf9f273c6032308ed1a8840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:26 +0000
Subject: [PATCH 09/38] fix: read back the escapes written for non-printable
 characters

Strings are written with escape_debug, which uses \0 and \u{...}; the parser read
them as plain text, so such strings changed when read back.
---
 src/parser/common.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 3dd35f2..d5fb5f0 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -170,6 +170,15 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
                     'n' => result.push('\n'),
                     't' => result.push('\t'),
                     'r' => result.push('\r'),
+                    '0' => result.push('\0'),
+                    // `\u{1b}`, as written for characters that are not printable.
+                    'u' => match unescape_unicode(chars.as_str()) {
+                        Some((c, rest)) => {
+                            result.push(c);
+                            chars = rest.chars();
+                        }
+                        None => result.push('u'),
+                    },
                     // For all other characters (especially `"`, `'`, and `\`), we just
                     // push the character.
                     _ => result.push(next),
@@ -181,6 +190,14 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
     result
 }
 
+/// Read the `{1b}` that follows `\u`, returning the character and the text after
+/// it.
+fn unescape_unicode(s: &str) -> Option<(char, &str)> {
+    let (digits, rest) = s.strip_prefix('{')?.split_once('}')?;
+    let c = char::from_u32(u32::from_str_radix(digits, 16).ok()?)?;
+    Some((c, rest))
+}
+
 // A trait for converting a pest::iterators::Pair<Rule> into a Rust type. This
 // is used to convert from the uniformly structured nesting
 // pest::iterators::Pair<Rule> into more structured types.
-- 
2.43.0


From 121b3a23d742c6eccfabffc4939f08e136026d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:52 +0000
Subject: [PATCH 10/38] fix: open the output only when there is something to
 write

The output file was created (and truncated) before the input was read and before
the formats were resolved, so a failed conversion destroyed an existing output,
and converting a file in place always lost it.
---
 src/cli.rs | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index f79792e..332025a 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -82,8 +82,7 @@ impl Cli {
             } => {
                 let reader = get_reader(input)
                     .with_context(|| format!("Failed to open input file: {input}"))?;
-                let writer = get_writer(output)
-                    .with_context(|| format!("Failed to create output file: {output}"))?;
+                let writer = LazyWriter::new(output);
                 let options = self.create_output_options(*show_literal_types);
                 let from_format = self.resolve_input_format(from, input)?;
                 let to_format = self.resolve_output_format(to, output)?;
@@ -105,8 +104,7 @@ impl Cli {
             } => {
                 let reader = get_reader(input)
                     .with_context(|| format!("Failed to open input file: {input}"))?;
-                let writer = get_writer(output)
-                    .with_context(|| format!("Failed to create output file: {output}"))?;
+                let writer = LazyWriter::new(output);
                 self.run_validate_with_io(reader, writer, *verbose, registry)
             }
         }
@@ -463,8 +461,43 @@ fn get_reader(path: &str) -> Result<Box<dyn Read>> {
     }
 }
 
+/// An output that is opened when the first byte is written to it or when it is
+/// flushed, so that a run that fails before it has anything to write does not
+/// truncate an existing file, and a file can be converted in place.
+struct LazyWriter<'a> {
+    path: &'a str,
+    writer: Option<Box<dyn Write>>,
+}
+
+impl<'a> LazyWriter<'a> {
+    fn new(path: &'a str) -> Self {
+        Self { path, writer: None }
+    }
+
+    fn open(&mut self) -> io::Result<&mut dyn Write> {
+        let writer = match self.writer.take() {
+            Some(writer) => writer,
+            None => get_writer(self.path).map_err(|e| {
+                let message = format!("Failed to create output file: {}: {e}", self.path);
+                io::Error::new(e.kind(), message)
+            })?,
+        };
+        Ok(self.writer.insert(writer))
+    }
+}
+
+impl Write for LazyWriter<'_> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.open()?.write(buf)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.open()?.flush()
+    }
+}
+
 /// Helper function to get writer from file path (or stdout if "-")
-fn get_writer(path: &str) -> Result<Box<dyn Write>> {
+fn get_writer(path: &str) -> io::Result<Box<dyn Write>> {
     if path == "-" {
         Ok(Box::new(io::stdout()))
     } else {
-- 
2.43.0


From 590c2feea5768677c4725462b05578b2fa406ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:31 +0000
Subject: [PATCH 11/38] fix: parse nested tuple arguments in linear time

The one-element and the many-element alternative of the tuple rule both start
with the same argument, so the time to parse nested tuples doubled with every
level: a plan with 30 levels did not finish.
---
 src/parser/expression_grammar.pest | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 0d5ecbf..968e345 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -387,12 +387,13 @@ parameter_literal = { (float | integer | boolean | string_literal | null) ~ !(":
 tuple = {
         // empty tuple (0-tuple)
         "(" ~ sp ~ ")"
-        // Single element (1-tuple) - uses trailing comma to distinguish from expression
-        | "(" ~ sp ~ extension_argument ~ sp ~ "," ~ sp ~ ")"
-        // Multi-element tuple. Trailing comma optional.
-        | "(" ~ sp ~ extension_argument
-              ~ (sp ~ "," ~ sp ~ extension_argument)+
-              ~ (sp ~ ",")? ~ sp ~ ")"
+        // A single element (1-tuple) uses the trailing comma to distinguish it from an
+        // expression; with more elements the trailing comma is optional. Both are one
+        // alternative: trying the first element again for each of them would take time
+        // exponential in the nesting depth.
+        | "(" ~ sp ~ extension_argument ~ sp ~ "," ~ sp
+              ~ (extension_argument ~ (sp ~ "," ~ sp ~ extension_argument)* ~ (sp ~ ",")? ~ sp)?
+              ~ ")"
         }
 extension_argument  = { enum_value | parameter_literal | reference | expression | tuple }
 
-- 
2.43.0


From 192867f8c850d367a980b59c34d2ee19bb2f60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:51 +0000
Subject: [PATCH 12/38] fix: accept user-defined types whose name starts with a
 built-in type name

The grammar took the 'time' of 'timezone' for the type and failed on the rest.
---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 968e345..785e15f 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -97,8 +97,9 @@ simple_type_name = {
 }
 
 // A simple native type expression, composed of a name and optional nullability.
+// The name must end there: `timezone` is a user-defined type, not `time` and a rest.
 // Examples: i64, bool?, string
-simple_type = { simple_type_name ~ nullability }
+simple_type = { simple_type_name ~ !(ASCII_ALPHANUMERIC | "_") ~ nullability }
 
 // -- Compound Types --
 // 
-- 
2.43.0


From cf821f48a61ddc2b90577b4c999feb1fd6f82ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:42 +0000
Subject: [PATCH 13/38] fix: read back fetch limits and offsets written with a
 type

With literal types shown, Fetch[limit=5:i64] was written but could not be parsed.
---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 785e15f..0caf512 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -338,7 +338,8 @@ sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&D
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-fetch_value          =  { integer | expression }
+// A literal with a type, e.g. 5:i32, is an expression.
+fetch_value          =  { integer ~ !("." | ":") | expression }
 fetch_named_arg      =  { fetch_arg_name ~ sp ~ "=" ~ sp ~ fetch_value }
 fetch_named_arg_list =  { fetch_named_arg ~ (sp ~ "," ~ sp ~ fetch_named_arg)* }
 fetch_args           = _{ fetch_named_arg_list | empty }
-- 
2.43.0


From 7ae000ef02d5da74a29c5d7a97a0748cd366f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:42 +0000
Subject: [PATCH 14/38] fix: accept extension arguments whose name starts with
 a keyword

The grammar took the 'null' of 'nullable=true' for a positional argument and
failed on the rest.
---
 src/parser/expression_grammar.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 0caf512..fe76ff1 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -8,8 +8,9 @@ sp = _{ whitespace* }
 identifier = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 integer    = @{ "-"? ~ ASCII_DIGIT+ }
 float      = @{ "-"? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
-boolean    = @{ "true" | "false" }
-null       = @{ "null" }
+// A keyword ends where an identifier would: `nullable` is not `null` and a rest.
+boolean    = @{ ("true" | "false") ~ !(ASCII_ALPHANUMERIC | "_") }
+null       = @{ "null" ~ !(ASCII_ALPHANUMERIC | "_") }
 
 // Basic string literals, does not handle escape sequences for simplicity here.
 // String literals are for literal values
-- 
2.43.0


From fb680ad26da7ea17ee518e982ea3058c28d23c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:01 +0000
Subject: [PATCH 15/38] fix: accept a cast as the first grouping expression of
 an aggregate

Aggregate[($0)::i64 => ...] was taken for a grouping set and failed to parse.
---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index fe76ff1..225f117 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -322,7 +322,8 @@ aggregate_relation = { "Aggregate" ~ "[" ~ aggregate_group_by ~ sp ~ "=>" ~ sp ~
 
 aggregate_group_by = { grouping_set_list | expression_list }
 grouping_set_list  = { grouping_set ~ sp ~ ("," ~ sp ~ grouping_set)* }
-grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")") | empty }
+// The lookahead leaves casts, e.g. ($0)::i64, to expression_list.
+grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")" ~ !(sp ~ "::")) | empty }
 expression_list    = { expression ~ sp ~ ("," ~ sp ~ expression)* }
 
 // TODO: Add support for filter invocation, etc.
-- 
2.43.0


From 3ff6bed96a9bcf2db4b5bc4179d421ac34f7b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:58 +0000
Subject: [PATCH 16/38] fix: accept function calls with a signature as
 extension output columns

The start of add:i64_i64($0, $1):i64 was taken for a column named add.
---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 225f117..23ff876 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -407,7 +407,8 @@ extension_named_argument  = { name ~ sp ~ "=" ~ sp ~ extension_argument }
 
 // Output columns - can mix named columns, references, and expressions
 extension_columns = { (extension_column ~ (sp ~ "," ~ sp ~ extension_column)*)? }
-extension_column  = { named_column | reference | expression }
+// The lookahead leaves calls with a signature, e.g. add:i64_i64($0, $1):i64, to expression.
+extension_column  = { named_column ~ !(sp ~ "(") | reference | expression }
 
 // Relation addenda: metadata/detail lines attached to a relation.
 // Format: + Enh:Name[args], + Opt:Name[args], or + Ext:Name[args]
-- 
2.43.0


From ae2980660d539c0c1b417692a542e1b768351055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:20 +0000
Subject: [PATCH 17/38] fix: quote extension and argument names that are not
 identifiers

The grammar lets extension names and argument names be quoted, but the
formatter wrote them bare, and the parser kept the quotes in the names of
extension relations, so such extensions could not be used in both directions.
---
 src/parser/extensions.rs  | 16 ++++++----------
 src/textify/addenda.rs    |  8 +++++++-
 src/textify/extensions.rs |  2 +-
 src/textify/rels.rs       |  2 +-
 src/textify/values.rs     |  2 +-
 5 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 441eff0..3539fbc 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -472,18 +472,14 @@ impl ScopedParsePair for ExtensionInvocation {
 
         // Parse extension name to determine relation type and custom name
         let extension_name_pair = iter.next().unwrap(); // Grammar guarantees extension_name exists
-        let full_extension_name = extension_name_pair.as_str();
 
         // Extract the relation type and custom name from the extension name
-        // (e.g., "ExtensionLeaf:ParquetScan" -> "ExtensionLeaf" and "ParquetScan")
-        let (relation_type_str, custom_name) = if full_extension_name.contains(':') {
-            let parts: Vec<&str> = full_extension_name.splitn(2, ':').collect();
-            (parts[0], parts[1].to_string())
-        } else {
-            (full_extension_name, "UnknownExtension".to_string())
-        };
-
-        let relation_kind = ExtensionRelationKind::from_str(relation_type_str).unwrap();
+        // (e.g., "ExtensionLeaf:ParquetScan" -> "ExtensionLeaf" and "ParquetScan").
+        // Grammar guarantees both exist.
+        let mut name_iter = extension_name_pair.into_inner();
+        let relation_kind =
+            ExtensionRelationKind::from_str(name_iter.next().unwrap().as_str()).unwrap();
+        let custom_name = Name::parse_pair(name_iter.next().unwrap()).0;
         let mut args = ExtensionArgs::default();
 
         // Parse optional arguments
diff --git a/src/textify/addenda.rs b/src/textify/addenda.rs
index 83b0dfe..be5ab07 100644
--- a/src/textify/addenda.rs
+++ b/src/textify/addenda.rs
@@ -13,6 +13,7 @@ use crate::extensions::any::AnyRef;
 use crate::extensions::registry::ExtensionError;
 use crate::extensions::{AddendumKind, ExtensionArgs};
 use crate::textify::foundation::{PlanError, Scope, Textify};
+use crate::textify::types::Name;
 
 /// All addenda associated with a relation, in canonical text-format order.
 #[derive(Default)]
@@ -160,7 +161,12 @@ impl Textify for AddendumLine {
                         )))
                     )
                 } else {
-                    write!(w, "{indent}+ {prefix}:{name}[{}]", ctx.display(args))
+                    write!(
+                        w,
+                        "{indent}+ {prefix}:{}[{}]",
+                        Name(name),
+                        ctx.display(args)
+                    )
                 }
             }
             AddendumLine::DecodeError { kind, error } => {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index af0bda9..27ed330 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -99,7 +99,7 @@ impl Textify for ExtensionArgs {
             if has_args {
                 write!(w, ", ")?;
             }
-            write!(w, "{name}=")?;
+            write!(w, "{}=", Name(name))?;
             value.textify(ctx, w)?;
             has_args = true;
         }
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 4020575..374cb50 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -682,7 +682,7 @@ impl<'a> Relation<'a> {
                     .map(Value::ExtColumn)
                     .collect();
                 Relation {
-                    name: Cow::Owned(format!("{}:{}", ext_type, name)),
+                    name: Cow::Owned(format!("{}:{}", ext_type, Name(&name))),
                     arguments: Some(RelationArgs::inline(positional, named)),
                     columns,
                     emit: None,
diff --git a/src/textify/values.rs b/src/textify/values.rs
index 72bc239..1d9820d 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -306,7 +306,7 @@ impl<'a> Textify for NamedArg<'a> {
         "NamedArg"
     }
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
-        write!(w, "{}=", self.name)?;
+        write!(w, "{}=", Name(&self.name))?;
         self.value.textify(ctx, w)
     }
 }
-- 
2.43.0


From f968034c0324f2ef750dcc441d8d0d0b1b07189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:26 +0000
Subject: [PATCH 18/38] fix: reject duplicate named arguments of extensions

The later value silently replaced the earlier one.
---
 src/parser/extensions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 3539fbc..fd998d3 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -587,7 +587,15 @@ fn extension_args_rule_parsing(
                     let mut arg_iter = arg_pair.into_inner();
                     let name_p = arg_iter.next().unwrap();
                     let value_p = arg_iter.next().unwrap();
+                    let name_span = name_p.as_span();
                     let key = Name::parse_pair(name_p).0.to_string();
+                    if args.named.contains_key(&key) {
+                        return Err(MessageParseError::invalid(
+                            "NamedArg",
+                            name_span,
+                            format!("Duplicate argument: {key}"),
+                        ));
+                    }
                     let val = ExtensionValue::parse_pair(extensions, value_p)?;
                     args.insert(key, val);
                 }
-- 
2.43.0


From 4c797246b676c584b5f72a23ce97613712fcf871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:11 +0000
Subject: [PATCH 19/38] fix: report text after a relation as a parse error

---
 src/parser/structural.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 1fc989a..8beac7d 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -17,7 +17,7 @@ use substrait::proto::{
 use crate::extensions::any::Any;
 use crate::extensions::{AddendumKind, ExtensionRegistry, SimpleExtensions, simple};
 use crate::parser::chunks::ChunkCursor;
-use crate::parser::common::{MessageParseError, ParsePair, ScopedParsePair};
+use crate::parser::common::{MessageParseError, ParsePair, ScopedParsePair, expect_all_consumed};
 use crate::parser::errors::{ParseContext, ParseError, ParseResult};
 use crate::parser::expressions::Name;
 use crate::parser::extensions::{
@@ -93,6 +93,20 @@ pub enum LineNode<'a> {
     Addendum(Addendum<'a>),
 }
 
+/// Check that nothing but a `// comment` follows the relation on its line.
+fn expect_relation_end(
+    message: &'static str,
+    pairs: &Pairs<Rule>,
+    line: &str,
+    line_no: i64,
+) -> Result<(), ParseError> {
+    if line[pairs.as_str().len()..].trim_start().starts_with("//") {
+        return Ok(());
+    }
+    expect_all_consumed(message, pairs, line)
+        .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))
+}
+
 impl<'a> LineNode<'a> {
     pub fn parse(line: &'a str, line_no: i64) -> Result<Self, ParseError> {
         let mut pairs: Pairs<'a, Rule> =
@@ -105,6 +119,7 @@ impl<'a> LineNode<'a> {
                     MessageParseError::new("planNode", ErrorKind::InvalidValue, Box::new(e)),
                 )
             })?;
+        expect_relation_end("planNode", &pairs, line, line_no)?;
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none()); // Should be exactly one pair
@@ -136,6 +151,7 @@ impl<'a> LineNode<'a> {
                 MessageParseError::new("top_level_relation", ErrorKind::Syntax, Box::new(e)),
             )
         })?;
+        expect_relation_end("top_level_relation", &pairs, line, line_no)?;
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none());
-- 
2.43.0


From 2d2e94cb3f6953c9638193f2cc3d2ff27e020173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:31 +0000
Subject: [PATCH 20/38] fix: report integer literals that do not fit their type

---
 src/parser/expressions.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f1ab1a4..6696b6d 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -101,30 +101,28 @@ const UNSIGNED_INT_KIND: Kind = Kind::I64(I64 {
 
 fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::integer);
-    let parsed_value: i64 = parse_integer("int_literal", &value)?;
-
     // If no type is provided, we assume i64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_INT_KIND);
 
     let (lit, nullability, tvar) = match &kind {
         // If no type is provided, we assume i64, Nullability::Required.
         Kind::I8(i) => (
-            LiteralType::I8(parsed_value as i32),
+            LiteralType::I8(parse_integer("int_literal", &value)?),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I16(i) => (
-            LiteralType::I16(parsed_value as i32),
+            LiteralType::I16(parse_integer("int_literal", &value)?),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I32(i) => (
-            LiteralType::I32(parsed_value as i32),
+            LiteralType::I32(parse_integer("int_literal", &value)?),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I64(i) => (
-            LiteralType::I64(parsed_value),
+            LiteralType::I64(parse_integer("int_literal", &value)?),
             i.nullability,
             i.type_variation_reference,
         ),
-- 
2.43.0


From 02141833bfbc3b87a93c0686c562afb416d026dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:10 +0000
Subject: [PATCH 21/38] fix: report float literals that do not fit their type

---
 src/parser/expressions.rs | 12 ++++++++++++
 src/parser/extensions.rs  | 10 +++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 6696b6d..e92802d 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -174,6 +174,18 @@ fn to_float_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Mes
         }
     };
 
+    let finite = match &lit {
+        LiteralType::Fp32(v) => v.is_finite(),
+        _ => parsed_value.is_finite(),
+    };
+    if !finite {
+        return Err(MessageParseError::invalid(
+            "float_literal",
+            value.as_span(),
+            "number too large to fit in target type",
+        ));
+    }
+
     Ok(Literal {
         literal_type: Some(lit),
         nullable: nullability != Nullability::Required as i32,
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index fd998d3..02884f8 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -301,7 +301,15 @@ impl ScopedParsePair for ExtensionValue {
                         ExtensionValue::Integer(parse_integer(Self::message(), &value_pair)?)
                     }
                     Rule::float => {
-                        ExtensionValue::Float(value_pair.as_str().parse::<f64>().unwrap())
+                        let value = value_pair.as_str().parse::<f64>().unwrap();
+                        if !value.is_finite() {
+                            return Err(MessageParseError::invalid(
+                                Self::message(),
+                                value_pair.as_span(),
+                                "number too large to fit in target type",
+                            ));
+                        }
+                        ExtensionValue::Float(value)
                     }
                     Rule::boolean => ExtensionValue::Boolean(value_pair.as_str() == "true"),
                     Rule::null => ExtensionValue::Null,
-- 
2.43.0


From ca68b6eef1d13e414a9382009ea903794d04b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:19 +0000
Subject: [PATCH 22/38] fix: report text after a JSON plan

---
 src/json.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/json.rs b/src/json.rs
index f32c8d9..645bbb4 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -89,9 +89,12 @@ pub fn parse_json(json: &str, pool: &DescriptorPool) -> anyhow::Result<Plan> {
         .get_message_by_name("substrait.Plan")
         .context("substrait.Plan not found in descriptor pool")?;
 
-    let dyn_msg =
-        DynamicMessage::deserialize(plan_desc, &mut serde_json::Deserializer::from_str(json))
-            .context("failed to parse JSON as substrait.Plan")?;
+    let mut deserializer = serde_json::Deserializer::from_str(json);
+    let dyn_msg = DynamicMessage::deserialize(plan_desc, &mut deserializer)
+        .context("failed to parse JSON as substrait.Plan")?;
+    deserializer
+        .end()
+        .context("failed to parse JSON as substrait.Plan")?;
 
     Plan::decode(dyn_msg.encode_to_vec().as_slice())
         .context("failed to decode Plan from dynamic message bytes")
-- 
2.43.0


From 09bf0f49230d6e82132a4e5cb727fe05de58632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:55 +0000
Subject: [PATCH 23/38] fix: report version fields that are given twice

---
 src/parser/structural.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 8beac7d..e4b44cb 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1204,16 +1204,23 @@ impl<'a> Parser<'a> {
             .version
             .as_mut()
             .expect("version is set on entry to the version section");
-        match key.trim() {
-            "producer" => version.producer = value,
-            "git_hash" => version.git_hash = value,
+        let field = match key.trim() {
+            "producer" => &mut version.producer,
+            "git_hash" => &mut version.git_hash,
             other => {
                 return Err(ParseError::ValidationError(
                     ctx(),
                     format!("unknown version field {other:?}, expected 'producer' or 'git_hash'"),
                 ));
             }
+        };
+        if !field.is_empty() {
+            return Err(ParseError::ValidationError(
+                ctx(),
+                format!("version field {:?} is given twice", key.trim()),
+            ));
         }
+        *field = value;
         Ok(())
     }
 
-- 
2.43.0


From fd6c8b513a2f5ea69f74f4a6b7628b15ac62695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:04 +0000
Subject: [PATCH 24/38] fix: report time literals finer than nanoseconds

---
 src/parser/expressions.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index e92802d..50173fb 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -485,6 +485,26 @@ fn duration_to_precision_units(
     }
 }
 
+/// chrono drops fractional digits beyond the ninth; report them instead.
+fn check_no_sub_nanoseconds(
+    text: &str,
+    literal_kind: &'static str,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    match text.rsplit_once('.') {
+        Some((_, fraction)) if fraction.bytes().skip(9).any(|digit| digit != b'0') => {
+            Err(MessageParseError::invalid(
+                "precision_literal_fractional_truncated",
+                span,
+                format!(
+                    "value has a fractional component finer than nanoseconds for a {literal_kind} literal"
+                ),
+            ))
+        }
+        _ => Ok(()),
+    }
+}
+
 fn check_supported_precision(
     precision: i32,
     literal_kind: &'static str,
@@ -534,6 +554,7 @@ fn parse_timestamp_to_precision_units(
 
     for format in &formats {
         if let Ok(datetime) = NaiveDateTime::parse_from_str(timestamp_str, format) {
+            check_no_sub_nanoseconds(timestamp_str, literal_kind, span)?;
             let epoch = DateTime::from_timestamp(0, 0).unwrap().naive_utc();
             let duration = datetime.signed_duration_since(epoch);
             return duration_to_precision_units(duration, precision, literal_kind, span);
@@ -563,6 +584,7 @@ fn parse_time_to_precision_units(
 
     for format in &formats {
         if let Ok(time) = NaiveTime::parse_from_str(time_str, format) {
+            check_no_sub_nanoseconds(time_str, literal_kind, span)?;
             let midnight = NaiveTime::from_hms_opt(0, 0, 0).unwrap();
             let duration = time.signed_duration_since(midnight);
             return duration_to_precision_units(duration, precision, literal_kind, span);
-- 
2.43.0


From 806c7a862fc7697eb9c07c5ebd5e6590c8a4c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 25/38] fix: parse malformed if_then expressions in linear time

---
 src/parser/expression_grammar.pest | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 23ff876..b15afa8 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -160,16 +160,25 @@ function_reference = { function_signature ~ sp ~ anchor? ~ sp ~ urn_anchor? }
 // - Required output type annotation after closing paren, e.g. :i64
 //   (unambiguous because function_signature is atomic and ends before the opening paren)
 function_call = {
-    function_reference ~ sp ~ argument_list ~ ":" ~ sp ~ type
+    !if_then_start ~ function_reference ~ sp ~ argument_list ~ ":" ~ sp ~ type
 }
 
 if_clause = {
     expression ~ sp ~ "->" ~ sp ~ expression
 }
 
+// Tells an if_then from a call of a function of that name by the arrow between its arguments.
+// Without it, a malformed if_then would be parsed again as a function call, which takes time
+// exponential in the nesting depth.
+if_then_start = _{ "if_then(" ~ until_arrow ~ "->" }
+until_arrow = _{ (bracketed | !("->" | "(" | ")") ~ ANY)* }
+bracketed = _{
+    string_literal | quoted_name | "(" ~ (bracketed | !("(" | ")") ~ ANY)* ~ ")"
+}
+
 // For the form: if_then(true || false -> true, _ -> false)
 if_then = {
-    "if_then(" ~ sp ~ (if_clause ~ sp ~ "," ~ sp)+ ~ sp ~ "_" ~ sp ~ "->" ~ sp ~ expression ~ ")"
+    &if_then_start ~ "if_then(" ~ sp ~ (if_clause ~ sp ~ "," ~ sp)+ ~ sp ~ "_" ~ sp ~ "->" ~ sp ~ expression ~ ")"
 }
 
 // Enum value, e.g. &Inner, &CORE, &AscNullsFirst
-- 
2.43.0


From 5eeb0b594e6b0dcd2969bda297f0d77688cfae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:00 +0000
Subject: [PATCH 26/38] fix: accept calls of functions named like keywords as
 extension arguments

---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index b15afa8..c7c7892 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -393,7 +393,8 @@ extension_arguments = { extension_argument ~ (sp ~ "," ~ sp ~ extension_argument
 // Ascribed literals (for example, 2:i16 or '2024-01-01':date) fall through to
 // expression parsing so their Substrait type information is preserved. Bare
 // null is a parameter value; ascribed null falls through to expression parsing.
-parameter_literal = { (float | integer | boolean | string_literal | null) ~ !(":") }
+// A function may be called like a keyword, e.g. null($0):i64.
+parameter_literal = { (float | integer | boolean | string_literal | null) ~ !(":" | sp ~ ("(" | "#" | "@")) }
 
 // Tuples follow the Python/Rust trailing-comma convention to disambiguate from parenthesised
 // expressions.
-- 
2.43.0


From 133cf9097f913ceae7d9fc975a85030007471b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:54 +0000
Subject: [PATCH 27/38] fix: report missing input relations when formatting

---
 src/textify/rels.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 374cb50..cef8522 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -69,6 +69,12 @@ impl Textify for Rel {
     }
 }
 
+/// Write a marker in place of a required input relation that the plan lacks.
+fn write_missing_input<S: Scope, W: fmt::Write>(ctx: &S, w: &mut W) -> fmt::Result {
+    let err = PlanError::invalid("Rel", Some("input"), "Required input relation is missing");
+    write!(w, "{}{}", ctx.indent(), ctx.failure(err))
+}
+
 fn schema_to_values<'a>(schema: &'a NamedStruct) -> Vec<Value<'a>> {
     let mut fields = schema
         .r#struct
@@ -352,9 +358,12 @@ impl Relation<'_> {
     /// Each child is preceded by a newline.
     pub fn write_children<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         let child_scope = ctx.push_indent();
-        for child in self.children.iter().flatten() {
+        for child in &self.children {
             writeln!(w)?;
-            child.textify(&child_scope, w)?;
+            match child {
+                Some(child) => child.textify(&child_scope, w)?,
+                None => write_missing_input(&child_scope, w)?,
+            }
         }
         Ok(())
     }
@@ -844,12 +853,11 @@ impl Textify for RelRoot {
             ctx.separated(names.iter(), ", ")
         )?;
         let child_scope = ctx.push_indent();
-        for child in self.input.iter() {
-            writeln!(w)?;
-            child.textify(&child_scope, w)?;
+        writeln!(w)?;
+        match &self.input {
+            Some(child) => child.textify(&child_scope, w),
+            None => write_missing_input(&child_scope, w),
         }
-
-        Ok(())
     }
 }
 
-- 
2.43.0


From 40a9ac28ac3622f3d27e7fbb0afa4f7e5714ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:03 +0000
Subject: [PATCH 28/38] fix: report aggregate measures without a function when
 formatting

---
 src/textify/rels.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index cef8522..f74c1a0 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -793,9 +793,14 @@ impl<'a> Relation<'a> {
         // Then, add all measures (aggregate functions)
         // These are indexed after the group-by fields
         for m in &rel.measures {
-            if let Some(agg_fn) = m.measure.as_ref() {
-                all_outputs.push(Value::AggregateFunction(agg_fn));
-            }
+            all_outputs.push(match m.measure.as_ref() {
+                Some(agg_fn) => Value::AggregateFunction(agg_fn),
+                None => Value::Missing(PlanError::invalid(
+                    "AggregateRel",
+                    Some("measures"),
+                    "Measure has no aggregate function",
+                )),
+            });
         }
         let emit = get_emit(rel.common.as_ref());
         let (children, _) = Relation::convert_children(vec![rel.input.as_deref()], ctx);
-- 
2.43.0


From 0e71dd06d9062003ef6fa6421282530ccb04eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:56 +0000
Subject: [PATCH 29/38] fix: report read filters and projections that the text
 does not show

---
 src/textify/rels.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index f74c1a0..73b91f5 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -399,7 +399,10 @@ impl<'a> Relation<'a> {
                 };
                 Relation {
                     name: Cow::Borrowed("Read"),
-                    arguments: Some(RelationArgs::inline(vec![table_name], vec![])),
+                    arguments: Some(RelationArgs::inline(
+                        vec![table_name],
+                        unsupported_read_args(rel, false),
+                    )),
                     columns,
                     emit,
                     output_syntax,
@@ -424,6 +427,7 @@ impl<'a> Relation<'a> {
                         value: Value::Expression(filter.as_ref()),
                     });
                 }
+                named.extend(unsupported_read_args(rel, true));
                 if positional.is_empty() && !named.is_empty() {
                     positional.push(Value::EmptyGroup);
                 }
@@ -459,9 +463,11 @@ impl<'a> Relation<'a> {
                     None => Err(ExtensionError::MissingDetail),
                 };
 
+                let unsupported = unsupported_read_args(rel, false);
                 Relation {
                     name: Cow::Borrowed("Read:Extension"),
-                    arguments: None,
+                    arguments: (!unsupported.is_empty())
+                        .then(|| RelationArgs::inline(vec![], unsupported)),
                     columns,
                     emit,
                     output_syntax: OutputSyntax::Implicit,
@@ -496,6 +502,25 @@ impl<'a> Relation<'a> {
     }
 }
 
+/// Parts of a `ReadRel` the text format has no syntax for, as failed arguments.
+fn unsupported_read_args<'a>(rel: &ReadRel, filter_supported: bool) -> Vec<NamedArg<'a>> {
+    [
+        ("filter", rel.filter.is_some() && !filter_supported),
+        ("projection", rel.projection.is_some()),
+    ]
+    .into_iter()
+    .filter(|(_, unsupported)| *unsupported)
+    .map(|(name, _)| NamedArg {
+        name: Cow::Borrowed(name),
+        value: Value::Missing(PlanError::unimplemented(
+            "ReadRel",
+            Some(name),
+            format!("{name} is not yet supported for this read type"),
+        )),
+    })
+    .collect()
+}
+
 fn read_columns<'a>(rel: &'a ReadRel) -> Vec<Value<'a>> {
     match rel.base_schema {
         Some(ref schema) => schema_to_values(schema),
-- 
2.43.0


From c2cf077b759311512c653c4788532e9737ebca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:21 +0000
Subject: [PATCH 30/38] fix: refuse to write plans with non-finite floats as
 JSON

---
 src/cli.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index 332025a..3f24163 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -395,6 +395,11 @@ impl Format {
                 #[cfg(feature = "serde")]
                 {
                     let json = serde_json::to_string_pretty(plan)?;
+                    // serde_json writes a float that is not finite as null, which does not
+                    // read back.
+                    if contains_null(&serde_json::to_value(plan)?) {
+                        anyhow::bail!("JSON cannot represent a NaN or infinite value of the plan");
+                    }
                     write_text_output(writer, &json)?;
                     Ok(Outcome::Success)
                 }
@@ -438,6 +443,16 @@ fn read_binary_input<R: Read>(mut reader: R) -> Result<Vec<u8>> {
     Ok(buffer)
 }
 
+#[cfg(feature = "serde")]
+fn contains_null(value: &serde_json::Value) -> bool {
+    match value {
+        serde_json::Value::Null => true,
+        serde_json::Value::Array(values) => values.iter().any(contains_null),
+        serde_json::Value::Object(fields) => fields.values().any(contains_null),
+        _ => false,
+    }
+}
+
 /// Write text output to writer
 fn write_text_output<W: Write>(mut writer: W, content: &str) -> Result<()> {
     writer.write_all(content.as_bytes())?;
-- 
2.43.0


From bb1246cf8ded38303c2e67d7e9489330177203ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:22 +0000
Subject: [PATCH 31/38] fix: report references to nested fields, which text
 cannot express

---
 src/textify/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 853c55b..675eec1 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -639,7 +639,7 @@ impl Textify for FieldReference {
         };
 
         match &ref_type.reference_type {
-            Some(reference_segment::ReferenceType::StructField(s)) => {
+            Some(reference_segment::ReferenceType::StructField(s)) if s.child.is_none() => {
                 write!(w, "{}", Reference(s.field))
             }
             None => write!(
@@ -657,7 +657,7 @@ impl Textify for FieldReference {
                 ctx.failure(PlanError::unimplemented(
                     "ReferenceSegment",
                     Some("reference_type"),
-                    "ReferenceSegment textification implemented only for StructField",
+                    "ReferenceSegment textification implemented only for StructField without a child",
                 ))
             ),
         }
-- 
2.43.0


From ee3d62d7208ebfd398468f30aead985699a54235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 32/38] fix: reject string literals with a type they cannot
 have, instead of dropping the type

---
 src/parser/expressions.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 50173fb..a96a554 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -355,14 +355,11 @@ fn to_string_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Me
             nullable: s.nullability != Nullability::Required as i32,
             type_variation_reference: s.type_variation_reference,
         }),
-        _ => {
-            // For other types, treat as string
-            Ok(Literal {
-                literal_type: Some(LiteralType::String(string_value)),
-                nullable: false,
-                type_variation_reference: 0,
-            })
-        }
+        k => Err(MessageParseError::invalid(
+            "string_literal_type",
+            value.as_span(),
+            format!("Invalid type for string literal: {k:?}"),
+        )),
     }
 }
 
-- 
2.43.0


From 63fa69fa4cba5a72076aca0545bcf523e93b89d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:48 +0000
Subject: [PATCH 33/38] fix: name the line of an unexpected line before the
 first section

---
 src/parser/structural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index e4b44cb..883bc53 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1071,8 +1071,8 @@ impl<'a> Parser<'a> {
         match self.state {
             State::Initial => match indented_line {
                 IndentedLine(0, l) if l.trim().is_empty() => Ok(()),
-                IndentedLine(n, l) => Err(ParseError::Initial(
-                    ParseContext::new(n as i64, l.to_string()),
+                IndentedLine(_, l) => Err(ParseError::Initial(
+                    ParseContext::new(line_no, l.to_string()),
                     MessageParseError::invalid(
                         "initial",
                         pest::Span::new(l, 0, l.len()).expect("Invalid span?!"),
-- 
2.43.0


From 566e0dda36fdf60742dbc9e1a9d2c7fafcf9ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 34/38] fix: refuse a leap second at the end of the day as a
 time literal

---
 src/parser/expressions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a96a554..767318d 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -584,6 +584,14 @@ fn parse_time_to_precision_units(
             check_no_sub_nanoseconds(time_str, literal_kind, span)?;
             let midnight = NaiveTime::from_hms_opt(0, 0, 0).unwrap();
             let duration = time.signed_duration_since(midnight);
+            // chrono reads 23:59:60 as a leap second, which is past the end of the day.
+            if duration >= chrono::Duration::days(1) {
+                return Err(MessageParseError::invalid(
+                    "precision_literal_out_of_range",
+                    span,
+                    format!("value is out of range for a {literal_kind} literal: '{time_str}'"),
+                ));
+            }
             return duration_to_precision_units(duration, precision, literal_kind, span);
         }
     }
-- 
2.43.0


From e8f41a8377e7360f6db2eb3086fdb029140b829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 35/38] fix: report literal rows of virtual tables, which were
 left out

---
 src/textify/rels.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 73b91f5..4fcb6fd 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -428,6 +428,17 @@ impl<'a> Relation<'a> {
                     });
                 }
                 named.extend(unsupported_read_args(rel, true));
+                #[allow(deprecated)]
+                if !vt.values.is_empty() {
+                    named.push(NamedArg {
+                        name: Cow::Borrowed("values"),
+                        value: Value::Missing(PlanError::unimplemented(
+                            "VirtualTable",
+                            Some("values"),
+                            "Deprecated literal rows are not yet supported; use expressions",
+                        )),
+                    });
+                }
                 if positional.is_empty() && !named.is_empty() {
                     positional.push(Value::EmptyGroup);
                 }
-- 
2.43.0


From f2a44cf4ca8e558f69050815c94290ae8d8ec5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 36/38] fix: report output mappings of extension relations,
 which were left out

---
 src/textify/rels.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 4fcb6fd..8395d03 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -657,6 +657,7 @@ impl<'a> Relation<'a> {
     fn from_extension_leaf<S: Scope>(rel: &'a ExtensionLeafRel, ctx: &S) -> Self {
         Relation::from_extension(
             "ExtensionLeaf",
+            rel.common.as_ref(),
             rel.detail.as_ref().map(AnyRef::from),
             vec![],
             ctx,
@@ -666,6 +667,7 @@ impl<'a> Relation<'a> {
     fn from_extension_single<S: Scope>(rel: &'a ExtensionSingleRel, ctx: &S) -> Self {
         Relation::from_extension(
             "ExtensionSingle",
+            rel.common.as_ref(),
             rel.detail.as_ref().map(AnyRef::from),
             vec![rel.input.as_deref()],
             ctx,
@@ -679,6 +681,7 @@ impl<'a> Relation<'a> {
         }
         Relation::from_extension(
             "ExtensionMulti",
+            rel.common.as_ref(),
             rel.detail.as_ref().map(AnyRef::from),
             child_refs,
             ctx,
@@ -687,6 +690,7 @@ impl<'a> Relation<'a> {
 
     fn from_extension<S: Scope>(
         ext_type: &'static str,
+        common: Option<&RelCommon>,
         detail: Option<AnyRef<'a>>,
         child_refs: Vec<Option<&'a Rel>>,
         ctx: &S,
@@ -708,6 +712,19 @@ impl<'a> Relation<'a> {
             None => Err(ExtensionError::MissingDetail),
         };
 
+        // The output columns are the extension's own, with no syntax to remap them.
+        let remap = match get_emit(common) {
+            Some(EmitKind::Emit(_)) => Some(NamedArg {
+                name: Cow::Borrowed("emit"),
+                value: Value::Missing(PlanError::unimplemented(
+                    ext_type,
+                    Some("common.emit"),
+                    "Output remapping is not yet supported for extension relations",
+                )),
+            }),
+            _ => None,
+        };
+
         match decoded {
             Ok((name, args)) => {
                 let mut positional = vec![];
@@ -721,6 +738,7 @@ impl<'a> Relation<'a> {
                         value: Value::ExtensionArgument(value),
                     });
                 }
+                named.extend(remap);
                 let columns = args
                     .output_columns
                     .into_iter()
@@ -741,7 +759,7 @@ impl<'a> Relation<'a> {
             }
             Err(error) => Relation {
                 name: Cow::Borrowed(ext_type),
-                arguments: None,
+                arguments: remap.map(|remap| RelationArgs::inline(vec![], vec![remap])),
                 columns: vec![Value::Missing(PlanError::invalid(
                     "extension",
                     None::<&str>,
-- 
2.43.0


From e332bf4530797da6ab110cba7eb6a57922db1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 37/38] fix: report enhancements that the text has no line for

---
 src/textify/addenda.rs | 28 ++++++++++++++++++++++++++++
 src/textify/plan.rs    | 13 ++++++++++++-
 src/textify/rels.rs    | 36 ++++++++++++++++++++++++++++++++----
 3 files changed, 72 insertions(+), 5 deletions(-)

diff --git a/src/textify/addenda.rs b/src/textify/addenda.rs
index be5ab07..7bdf5ac 100644
--- a/src/textify/addenda.rs
+++ b/src/textify/addenda.rs
@@ -53,6 +53,25 @@ impl AddendumLines {
         Self::default()
     }
 
+    /// Report an enhancement at a place the text format has no line for.
+    /// Optimizations may be ignored, enhancements may not.
+    pub(super) fn report_unsupported(
+        &mut self,
+        message: &'static str,
+        advanced_extension: Option<&AdvancedExtension>,
+    ) {
+        if advanced_extension.is_some_and(|advanced| advanced.enhancement.is_some()) {
+            self.lines.push(AddendumLine::Unsupported {
+                kind: AddendumKind::Enhancement,
+                error: PlanError::unimplemented(
+                    message,
+                    Some("advanced_extension.enhancement"),
+                    "Enhancements are not yet supported here",
+                ),
+            });
+        }
+    }
+
     /// Add [`AddendumLine`]s to this `AddendumLines` instance for each
     /// enhancement and optimization present in the [`AdvancedExtension`].
     fn extend_from_advanced_extension<S: Scope>(
@@ -97,6 +116,10 @@ enum AddendumLine {
         kind: AddendumKind,
         error: ExtensionError,
     },
+    Unsupported {
+        kind: AddendumKind,
+        error: PlanError,
+    },
 }
 
 impl AddendumLine {
@@ -174,6 +197,11 @@ impl Textify for AddendumLine {
                 let prefix = kind.prefix();
                 write!(w, "{indent}+ {prefix}[{}]", ctx.failure(error.clone()))
             }
+            AddendumLine::Unsupported { kind, error } => {
+                let indent = ctx.indent();
+                let prefix = kind.prefix();
+                write!(w, "{indent}+ {prefix}[{}]", ctx.failure(error.clone()))
+            }
         }
     }
 }
diff --git a/src/textify/plan.rs b/src/textify/plan.rs
index 36d66f0..c63d23a 100644
--- a/src/textify/plan.rs
+++ b/src/textify/plan.rs
@@ -5,7 +5,7 @@ use substrait::proto;
 use super::Textify;
 use crate::extensions::{ExtensionRegistry, SimpleExtensions};
 use crate::parser::{PLAN_HEADER, VERSION_HEADER};
-use crate::textify::foundation::ErrorAccumulator;
+use crate::textify::foundation::{ErrorAccumulator, PlanError};
 use crate::textify::{OutputOptions, ScopedContext};
 
 #[derive(Debug, Clone)]
@@ -31,6 +31,17 @@ impl<'a, E: ErrorAccumulator + Default + Clone> PlanWriter<'a, E> {
         for err in errs {
             errors.push(err.into());
         }
+        // Optimizations may be ignored, enhancements may not.
+        if let Some(advanced) = &plan.advanced_extensions
+            && advanced.enhancement.is_some()
+        {
+            let error = PlanError::unimplemented(
+                "Plan",
+                Some("advanced_extensions.enhancement"),
+                "Enhancements of a whole plan are not yet supported",
+            );
+            errors.push(error.into());
+        }
 
         let relations = plan.relations.as_slice();
 
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 8395d03..18fc4fe 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -397,6 +397,9 @@ impl<'a> Relation<'a> {
                     Some(EmitKind::Emit(_)) => OutputSyntax::Explicit,
                     Some(EmitKind::Direct(_)) | None => OutputSyntax::Implicit,
                 };
+                let mut addenda =
+                    AddendumLines::from_advanced_extension(ctx, rel.advanced_extension.as_ref());
+                addenda.report_unsupported("NamedTable", table.advanced_extension.as_ref());
                 Relation {
                     name: Cow::Borrowed("Read"),
                     arguments: Some(RelationArgs::inline(
@@ -406,10 +409,7 @@ impl<'a> Relation<'a> {
                     columns,
                     emit,
                     output_syntax,
-                    addenda: AddendumLines::from_advanced_extension(
-                        ctx,
-                        rel.advanced_extension.as_ref(),
-                    ),
+                    addenda,
                     children: vec![],
                 }
             }
@@ -547,6 +547,24 @@ pub fn get_emit(rel: Option<&RelCommon>) -> Option<&EmitKind> {
     rel.as_ref().and_then(|c| c.emit_kind.as_ref())
 }
 
+fn rel_common(rel: &Rel) -> Option<&RelCommon> {
+    match rel.rel_type.as_ref()? {
+        RelType::Read(r) => r.common.as_ref(),
+        RelType::Filter(r) => r.common.as_ref(),
+        RelType::Project(r) => r.common.as_ref(),
+        RelType::Aggregate(r) => r.common.as_ref(),
+        RelType::Sort(r) => r.common.as_ref(),
+        RelType::Fetch(r) => r.common.as_ref(),
+        RelType::Join(r) => r.common.as_ref(),
+        RelType::Set(r) => r.common.as_ref(),
+        RelType::Cross(r) => r.common.as_ref(),
+        RelType::ExtensionLeaf(r) => r.common.as_ref(),
+        RelType::ExtensionSingle(r) => r.common.as_ref(),
+        RelType::ExtensionMulti(r) => r.common.as_ref(),
+        _ => None,
+    }
+}
+
 impl<'a> Relation<'a> {
     /// Convert a vector of relation references into their structured form.
     ///
@@ -621,6 +639,16 @@ impl<'a> Relation<'a> {
     }
 
     pub fn from_rel<S: Scope>(rel: &'a Rel, ctx: &S) -> Self {
+        let mut relation = Relation::from_rel_type(rel, ctx);
+        let common = rel_common(rel);
+        relation.addenda.report_unsupported(
+            "RelCommon",
+            common.and_then(|common| common.advanced_extension.as_ref()),
+        );
+        relation
+    }
+
+    fn from_rel_type<S: Scope>(rel: &'a Rel, ctx: &S) -> Self {
         match rel.rel_type.as_ref() {
             Some(RelType::Read(r)) => Relation::from_read(r, ctx),
             Some(RelType::Filter(r)) => Relation::from_filter(r, ctx),
-- 
2.43.0


From 5287efcd244ec2e9569607ebe2631745b7bd73bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 38/38] fix: report function arguments in the deprecated form,
 which were left out

---
 src/textify/expressions.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 675eec1..0674394 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -720,6 +720,24 @@ impl Textify for FunctionInvocation<'_> {
     }
 }
 
+/// Arguments in the deprecated form are not shown, so report them.
+fn write_unsupported_args<S: Scope, W: fmt::Write>(
+    message: &'static str,
+    args: &[Expression],
+    ctx: &S,
+    w: &mut W,
+) -> fmt::Result {
+    if args.is_empty() {
+        return Ok(());
+    }
+    let error = PlanError::unimplemented(
+        message,
+        Some("args"),
+        "Deprecated arguments are not yet supported; use arguments",
+    );
+    write!(w, "{}", ctx.failure(error))
+}
+
 impl Textify for ScalarFunction {
     fn name() -> &'static str {
         "ScalarFunction"
@@ -732,7 +750,9 @@ impl Textify for ScalarFunction {
         let invocation = ctx.display(&invocation);
         let output_type = ctx.display(&output_type);
 
-        write!(w, "{invocation}{output_type}")
+        write!(w, "{invocation}{output_type}")?;
+        #[allow(deprecated)]
+        write_unsupported_args("ScalarFunction", &self.args, ctx, w)
     }
 }
 
@@ -956,7 +976,9 @@ impl Textify for AggregateFunction {
         let invocation = ctx.display(&invocation);
         let output_type = ctx.display(&output_type);
 
-        write!(w, "{invocation}{output_type}")
+        write!(w, "{invocation}{output_type}")?;
+        #[allow(deprecated)]
+        write_unsupported_args("AggregateFunction", &self.args, ctx, w)
     }
 }
 
-- 
2.43.0


From d59df25753cde810530e8eff3a642043022673ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 01/19] fix: refuse numeric literals outside the finite range
 instead of panicking

---
 src/parsers/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/number.rs b/src/parsers/number.rs
index 46699a5..243bc33 100644
--- a/src/parsers/number.rs
+++ b/src/parsers/number.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for numbers, decimals and digits.
 
 use nom::character::complete::{char, digit1};
-use nom::combinator::{map, recognize};
+use nom::combinator::{map_opt, recognize};
 use nom::multi::many_m_n;
 use nom::number::complete::float;
 use nom::sequence::tuple;
@@ -27,7 +27,7 @@ use crate::types::Number;
 pub fn parse_number<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Number> {
     let pattern = recognize(tuple((digit1, many_m_n(0, 1, parse_decimal))));
     let float = pattern.and_then(float);
-    map(float, Number::new)(input.into())
+    map_opt(float, |value| Number::try_new(value).ok())(input.into())
 }
 
 /// Parses a decimal, i.e. `.<digit>⁺`.
-- 
2.43.0


From 84bcb3f08fb4a8854b69459716d9c16d0cb2533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 02/19] fix: return NotFinite from Number::from_str for
 non-finite text instead of panicking

---
 src/types/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/number.rs b/src/types/number.rs
index 2741ed3..9fc1941 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -70,7 +70,7 @@ impl FromStr for Number {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match UnderlyingType::from_str(s) {
-            Ok(x) => Ok(Number::new(x)),
+            Ok(x) => Number::try_new(x),
             Err(e) => Err(NumberError::InvalidFormat(e)),
         }
     }
-- 
2.43.0


From 46415e6ff0c1d99f30c221af06ad187677a9a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 03/19] fix: compare Numbers consistently with Ord and Hash so
 that 0 equals -0

---
 src/types/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/number.rs b/src/types/number.rs
index 9fc1941..d48c436 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -98,7 +98,7 @@ impl Eq for Number {}
 impl<I: Into<Number> + Copy> PartialEq<I> for Number {
     fn eq(&self, other: &I) -> bool {
         let value: Number = (*other).into();
-        self.total_cmp(&value) == Ordering::Equal
+        self.cmp(&value) == Ordering::Equal
     }
 }
 
@@ -132,7 +132,7 @@ impl Ord for Number {
 
 impl PartialOrd for Number {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.total_cmp(other))
+        Some(self.cmp(other))
     }
 }
 
-- 
2.43.0


From 01bfe6cf338921646306cb9f13761c59e9434d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 04/19] fix: compare and hash names by their text so that
 static and stored names are equal

---
 src/types/name.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index f933e84..22323a5 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -2,6 +2,7 @@
 
 use crate::types::{PrimitiveType, ToTyped, Type, Typed};
 use std::fmt::{Debug, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
 #[cfg(feature = "interning")]
@@ -25,7 +26,7 @@ lazy_static::lazy_static! {
 #[derive(Debug, Clone, Eq, PartialEq, Hash, Default)]
 pub struct Name(NameVariant);
 
-#[derive(Clone, PartialEq, Eq, Hash)]
+#[derive(Clone)]
 enum NameVariant {
     String(InternedString),
     Static(&'static str),
@@ -203,6 +204,11 @@ impl NameVariant {
             NameVariant::Static(s) => s.chars().count(),
         }
     }
+
+    /// Gets the text of the name, regardless of how it is stored.
+    fn as_str(&self) -> &str {
+        self
+    }
 }
 
 impl Default for NameVariant {
@@ -222,6 +228,20 @@ impl Deref for NameVariant {
     }
 }
 
+impl PartialEq for NameVariant {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_str().eq(other.as_str())
+    }
+}
+
+impl Eq for NameVariant {}
+
+impl Hash for NameVariant {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.as_str().hash(state)
+    }
+}
+
 impl PartialEq<str> for NameVariant {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From 2fca830aab9d4f6451e0a00e46331a30350da60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 05/19] fix: let :adl contain all of its documented
 requirements

---
 src/types/requirement.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 16c430f..3f62c77 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -147,6 +147,9 @@ impl Requirement {
                     || other == Self::DisjunctivePreconditions
                     || other == Self::Equality
                     || other == Self::QuantifiedPreconditions
+                    || other == Self::ExistentialPreconditions
+                    || other == Self::UniversalPreconditions
+                    || other == Self::ConditionalEffects
                     || other == Self::ContinuousEffects
             }
 
-- 
2.43.0


From e100baac1d31b7fa2704256cb6766928606ff8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 06/19] fix: let :timed-initial-literals imply
 :durative-actions as documented

---
 src/types/requirement.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 3f62c77..657d8d1 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -159,6 +159,10 @@ impl Requirement {
                     || other == Self::NumericFluents
                     || other == Self::ObjectFluents
             }
+            Self::TimedInitialLiterals => {
+                // Check for self to ensure every options is captured.
+                other == Self::TimedInitialLiterals || other == Self::DurativeActions
+            }
             x => other.eq(x),
         }
     }
@@ -209,6 +213,10 @@ impl Requirement {
                 Requirement::UniversalPreconditions, // added via Requirement::QuantifiedPreconditions,
                 Requirement::ConditionalEffects,
             ],
+            Requirement::TimedInitialLiterals => vec![
+                Requirement::TimedInitialLiterals,
+                Requirement::DurativeActions,
+            ],
             r => vec![*r],
         }
     }
-- 
2.43.0


From 5068008746c4f856ee2acb7fa6f25c9554b7b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 07/19] fix: accept empty comments and skip runs of comments
 without recursion

---
 src/parsers/comments.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parsers/comments.rs b/src/parsers/comments.rs
index ad4a2a6..36212e3 100644
--- a/src/parsers/comments.rs
+++ b/src/parsers/comments.rs
@@ -1,7 +1,8 @@
 use crate::parsers::{ParseResult, Span};
 use nom::character::complete::{char, multispace0};
 use nom::combinator::opt;
-use nom::sequence::{terminated, tuple};
+use nom::multi::many0_count;
+use nom::sequence::terminated;
 use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
 
 /// Parses a comment and swallows trailing whitespace / newline.
@@ -34,9 +35,9 @@ use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
 pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()> {
     value(
         (), // Output is thrown away.
-        opt(terminated(
-            pair(char(';'), is_not("\r\n")),
-            tuple((multispace0, opt(ignore_eol_comment))),
+        many0_count(terminated(
+            pair(char(';'), opt(is_not("\r\n"))),
+            multispace0,
         )),
     )(input.into())
 }
-- 
2.43.0


From 1bd360d6d9f3b53cf29adc964109a39bd8667b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 08/19] fix: allow white space and comments before every
 closing parenthesis

---
 src/parsers/function_term.rs | 4 ++--
 src/parsers/utilities.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/function_term.rs b/src/parsers/function_term.rs
index 26b508d..d5c4bd6 100644
--- a/src/parsers/function_term.rs
+++ b/src/parsers/function_term.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for function terms.
 
 use crate::parsers::{parse_function_symbol, parse_term};
-use crate::parsers::{space_separated_list0, ParseResult, Span};
+use crate::parsers::{space_separated_list0, ws, ParseResult, Span};
 use crate::types::FunctionTerm;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
@@ -33,7 +33,7 @@ pub fn parse_function_term<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, F
         delimited(
             tag("("),
             tuple((parse_function_symbol, space_separated_list0(parse_term))),
-            tag(")"),
+            ws(tag(")")),
         ),
         |(symbol, terms)| FunctionTerm::new(symbol, terms),
     )(input.into())
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index e1cbf64..cc1ccaf 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -75,7 +75,7 @@ where
 {
     preceded(
         ignore_eol_comment,
-        delimited(char('('), ws(inner), char(')')),
+        delimited(char('('), ws(inner), ws(char(')'))),
     )
 }
 
-- 
2.43.0


From 4c6ac50cfceacdba550c2cccdc8c082d3402cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 09/19] fix: allow white space and comments inside the empty
 list ()

---
 src/parsers/duration_constraint.rs |  7 +++----
 src/parsers/empty_or.rs            | 12 +++++++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/parsers/duration_constraint.rs b/src/parsers/duration_constraint.rs
index 826075b..4f7141b 100644
--- a/src/parsers/duration_constraint.rs
+++ b/src/parsers/duration_constraint.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for duration constraints.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
-use nom::combinator::map;
+use nom::combinator::{map, success};
 
+use crate::parsers::{parens, prefix_expr, space_separated_list1};
 use crate::parsers::{parse_simple_duration_constraint, ParseResult, Span};
-use crate::parsers::{prefix_expr, space_separated_list1};
 use crate::types::DurationConstraint;
 
 /// Parses a duration constraint.
@@ -60,7 +59,7 @@ use crate::types::DurationConstraint;
 pub fn parse_duration_constraint<'a, T: Into<Span<'a>>>(
     input: T,
 ) -> ParseResult<'a, Option<DurationConstraint>> {
-    let none = map(tag("()"), |_| None);
+    let none = parens(success(None));
     let simple = map(parse_simple_duration_constraint, |c| {
         Some(DurationConstraint::from(c))
     });
diff --git a/src/parsers/empty_or.rs b/src/parsers/empty_or.rs
index 4a62a80..142af28 100644
--- a/src/parsers/empty_or.rs
+++ b/src/parsers/empty_or.rs
@@ -1,11 +1,10 @@
 //! Provides the [`empty_or`] parser combinator.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
-use nom::combinator::map;
-use nom::error::ParseError;
+use nom::combinator::{map, success};
+use nom::error::{ErrorKind, ParseError};
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{parens, ParseResult, Span};
 
 /// Parser combinator that takes a parser `inner` and produces a parser that
 /// consumes `()` and returns [`None`] or the result of `inner` and produces [`Some(O)`](Some).
@@ -26,7 +25,10 @@ pub fn empty_or<'a, F, O, E: ParseError<Span<'a>>>(
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O, E>,
 {
-    let empty_parser = map(tag("()"), |_: Span| None);
+    let empty_parser = |input: Span<'a>| match parens(success(()))(input) {
+        Ok((remaining, _)) => Ok((remaining, None)),
+        Err(_) => Err(nom::Err::Error(E::from_error_kind(input, ErrorKind::Tag))),
+    };
     let inner_parser = map(inner, |o: O| Some(o));
 
     alt((empty_parser, inner_parser))
-- 
2.43.0


From 4c497643359f005f50d2d21b63b48beaeb7b3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 10/19] fix: let comments and opening parentheses separate
 tokens like white space does

---
 src/parsers/action_def.rs                 |  2 +-
 src/parsers/c_effect.rs                   |  2 +-
 src/parsers/con_gd.rs                     |  2 +-
 src/parsers/da_def.rs                     |  2 +-
 src/parsers/da_effect.rs                  |  2 +-
 src/parsers/da_gd.rs                      |  2 +-
 src/parsers/derived_predicate.rs          |  2 +-
 src/parsers/domain.rs                     |  2 +-
 src/parsers/f_assign_da.rs                |  2 +-
 src/parsers/f_comp.rs                     |  2 +-
 src/parsers/f_exp.rs                      |  3 +-
 src/parsers/f_exp_da.rs                   |  3 +-
 src/parsers/f_exp_t.rs                    |  2 +-
 src/parsers/f_head.rs                     |  2 +-
 src/parsers/gd.rs                         |  2 +-
 src/parsers/init_el.rs                    |  2 +-
 src/parsers/metric_f_exp.rs               |  3 +-
 src/parsers/mod.rs                        |  2 +-
 src/parsers/p_effect.rs                   |  2 +-
 src/parsers/pre_gd.rs                     |  2 +-
 src/parsers/pref_con_gd.rs                |  2 +-
 src/parsers/pref_gd.rs                    |  2 +-
 src/parsers/pref_timed_gd.rs              |  2 +-
 src/parsers/problem.rs                    |  2 +-
 src/parsers/simple_duration_constraint.rs |  2 +-
 src/parsers/timed_effect.rs               |  2 +-
 src/parsers/timed_gd.rs                   |  2 +-
 src/parsers/utilities.rs                  | 40 +++++++++++++++++------
 28 files changed, 60 insertions(+), 37 deletions(-)

diff --git a/src/parsers/action_def.rs b/src/parsers/action_def.rs
index 218663f..2a67dab 100644
--- a/src/parsers/action_def.rs
+++ b/src/parsers/action_def.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for action definitions.
 
+use crate::parsers::multispace1;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/c_effect.rs b/src/parsers/c_effect.rs
index 141961f..7c6fb9d 100644
--- a/src/parsers/c_effect.rs
+++ b/src/parsers/c_effect.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for c-effects.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index d1cb350..49a473e 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for conditional goal definitions.
 
+use crate::parsers::multispace1;
 use crate::parsers::{
     parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0, typed_list,
     ParseResult, Span,
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/da_def.rs b/src/parsers/da_def.rs
index 65bb629..860e76a 100644
--- a/src/parsers/da_def.rs
+++ b/src/parsers/da_def.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for durative action definitions.
 
+use crate::parsers::multispace1;
 use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ParseResult, Span};
 use crate::parsers::{
     parse_da_effect, parse_da_gd, parse_da_symbol, parse_duration_constraint, parse_variable,
 };
 use crate::types::DurativeActionDefinition;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/da_effect.rs b/src/parsers/da_effect.rs
index da7b899..22630c1 100644
--- a/src/parsers/da_effect.rs
+++ b/src/parsers/da_effect.rs
@@ -1,10 +1,10 @@
 //! Provides parsers for durative action effects.
 
+use crate::parsers::multispace1;
 use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
 use crate::parsers::{parse_da_gd, parse_timed_effect, parse_variable};
 use crate::types::DurativeActionEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/da_gd.rs b/src/parsers/da_gd.rs
index c5798b3..5ab306a 100644
--- a/src/parsers/da_gd.rs
+++ b/src/parsers/da_gd.rs
@@ -1,10 +1,10 @@
 //! Provides parsers for durative action goal definitions.
 
+use crate::parsers::multispace1;
 use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
 use crate::parsers::{parse_pref_timed_gd, parse_variable};
 use crate::types::DurativeActionGoalDefinition;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/derived_predicate.rs b/src/parsers/derived_predicate.rs
index 3756829..42962fd 100644
--- a/src/parsers/derived_predicate.rs
+++ b/src/parsers/derived_predicate.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for derived predicates.
 
-use nom::character::complete::multispace1;
+use crate::parsers::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/domain.rs b/src/parsers/domain.rs
index 96f1cb9..e4bc0c5 100644
--- a/src/parsers/domain.rs
+++ b/src/parsers/domain.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for domain definitions.
 
-use nom::character::complete::multispace1;
+use crate::parsers::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/f_assign_da.rs b/src/parsers/f_assign_da.rs
index 4dd31f7..02ce795 100644
--- a/src/parsers/f_assign_da.rs
+++ b/src/parsers/f_assign_da.rs
@@ -1,9 +1,9 @@
 //! Provides parsers for f-assign-das.
 
+use crate::parsers::multispace1;
 use crate::parsers::{parens, ParseResult, Span};
 use crate::parsers::{parse_assign_op, parse_f_exp_da, parse_f_head};
 use crate::types::FAssignDa;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/f_comp.rs b/src/parsers/f_comp.rs
index 73857e2..06157ff 100644
--- a/src/parsers/f_comp.rs
+++ b/src/parsers/f_comp.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for f-comps.
 
-use nom::character::complete::multispace1;
+use crate::parsers::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index dc9affe..5f6ef68 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,7 +1,8 @@
 //! Provides parsers for f-exps.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index e038eb4..1339872 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -1,8 +1,9 @@
 //! Provides parsers for f-exp-da values..
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/f_exp_t.rs b/src/parsers/f_exp_t.rs
index 73cb078..b0314bb 100644
--- a/src/parsers/f_exp_t.rs
+++ b/src/parsers/f_exp_t.rs
@@ -1,8 +1,8 @@
 //! Provides parsers for f-exps.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
diff --git a/src/parsers/f_head.rs b/src/parsers/f_head.rs
index 4dde6c4..5c00c4d 100644
--- a/src/parsers/f_head.rs
+++ b/src/parsers/f_head.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for f-heads.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/gd.rs b/src/parsers/gd.rs
index 4e6470a..8c9f29d 100644
--- a/src/parsers/gd.rs
+++ b/src/parsers/gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for goal definitions.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/init_el.rs b/src/parsers/init_el.rs
index c5f46fd..7b8ae7e 100644
--- a/src/parsers/init_el.rs
+++ b/src/parsers/init_el.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for initial state list elements.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 3f83178..019fc5a 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,5 +1,6 @@
 //! Provides parsers for metric f-exps.
 
+use crate::parsers::multispace1;
 use crate::parsers::{
     parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
     space_separated_list0, space_separated_list1, ws, ParseResult, Span,
@@ -8,7 +9,7 @@ use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 4a7248e..23e2f02 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
+    multispace1, parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/p_effect.rs b/src/parsers/p_effect.rs
index 29162f6..dcd3e36 100644
--- a/src/parsers/p_effect.rs
+++ b/src/parsers/p_effect.rs
@@ -1,5 +1,6 @@
 //! Provides parsers for p-effects.
 
+use crate::parsers::multispace1;
 use crate::parsers::{
     atomic_formula, parse_assign_op, parse_f_exp, parse_f_head, parse_function_term, parse_term,
     ParseResult, Span,
@@ -8,7 +9,6 @@ use crate::parsers::{parens, prefix_expr};
 use crate::types::PEffect;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
diff --git a/src/parsers/pre_gd.rs b/src/parsers/pre_gd.rs
index e8e640e..1dec725 100644
--- a/src/parsers/pre_gd.rs
+++ b/src/parsers/pre_gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for goal definitions.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/pref_con_gd.rs b/src/parsers/pref_con_gd.rs
index 2bae25a..710f8fb 100644
--- a/src/parsers/pref_con_gd.rs
+++ b/src/parsers/pref_con_gd.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for preferred goal definitions.
 
+use crate::parsers::multispace1;
 use crate::parsers::{
     parens, parse_con_gd, parse_pref_name, parse_variable, prefix_expr, space_separated_list0,
     typed_list, ParseResult, Span,
 };
 use crate::PrefConGDs;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/pref_gd.rs b/src/parsers/pref_gd.rs
index 5ef679f..36b4fb2 100644
--- a/src/parsers/pref_gd.rs
+++ b/src/parsers/pref_gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for preference goal definitions.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/pref_timed_gd.rs b/src/parsers/pref_timed_gd.rs
index 96f3471..46db779 100644
--- a/src/parsers/pref_timed_gd.rs
+++ b/src/parsers/pref_timed_gd.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for (preferred) timed goal definitions.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{terminated, tuple};
 
diff --git a/src/parsers/problem.rs b/src/parsers/problem.rs
index f5937f9..04976f3 100644
--- a/src/parsers/problem.rs
+++ b/src/parsers/problem.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for problem definitions.
 
-use nom::character::complete::multispace1;
+use crate::parsers::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/simple_duration_constraint.rs b/src/parsers/simple_duration_constraint.rs
index 7e89a13..f2e52e8 100644
--- a/src/parsers/simple_duration_constraint.rs
+++ b/src/parsers/simple_duration_constraint.rs
@@ -1,8 +1,8 @@
 //! Provides parsers for simple duration constraints.
 
+use crate::parsers::multispace1;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/timed_effect.rs b/src/parsers/timed_effect.rs
index 733cfaa..d16c21c 100644
--- a/src/parsers/timed_effect.rs
+++ b/src/parsers/timed_effect.rs
@@ -1,5 +1,6 @@
 //! Provides parsers for timed effects.
 
+use crate::parsers::multispace1;
 use crate::parsers::{parens, prefix_expr, ParseResult, Span};
 use crate::parsers::{
     parse_assign_op_t, parse_cond_effect, parse_f_assign_da, parse_f_exp_t, parse_f_head,
@@ -7,7 +8,6 @@ use crate::parsers::{
 };
 use crate::types::TimedEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/timed_gd.rs b/src/parsers/timed_gd.rs
index 8ed9f8f..2a4f241 100644
--- a/src/parsers/timed_gd.rs
+++ b/src/parsers/timed_gd.rs
@@ -1,10 +1,10 @@
 //! Provides parsers for timed goal definitions.
 
+use crate::parsers::multispace1;
 use crate::parsers::{parse_gd, parse_interval, parse_time_specifier};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::TimedGD;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index cc1ccaf..864f38f 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -2,8 +2,11 @@
 
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
-use nom::multi::{separated_list0, separated_list1};
+use nom::character::complete::{char, multispace0};
+use nom::combinator::{map, opt, success};
+use nom::error::ErrorKind;
+use nom::error_position;
+use nom::multi::many0;
 use nom::sequence::{delimited, preceded};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
@@ -42,6 +45,19 @@ where
     )
 }
 
+/// Parses the separation of two tokens: whitespace and line comments in any mixture. Only before an
+/// opening parenthesis, which is a separator of its own, may there be none at all.
+pub fn multispace1(input: Span) -> ParseResult<()> {
+    let (remaining, _) = ws(success(()))(input)?;
+    if remaining.location_offset() == input.location_offset() && !remaining.starts_with('(') {
+        return Err(nom::Err::Error(error_position!(
+            input,
+            ErrorKind::MultiSpace
+        )));
+    }
+    Ok((remaining, ()))
+}
+
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a whitespace separated list, returning the outputs of `inner`.
 #[allow(dead_code)]
@@ -49,22 +65,26 @@ pub fn space_separated_list0<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> Pars
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    ws(separated_list0(
-        multispace1,
-        preceded(ignore_eol_comment, inner),
+    ws(map(
+        opt(space_separated_list1(inner)),
+        Option::unwrap_or_default,
     ))
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a whitespace separated list, returning the outputs of `inner`.
-pub fn space_separated_list1<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> ParseResult<'a, Vec<O>>
+pub fn space_separated_list1<'a, F, O>(
+    mut inner: F,
+) -> impl FnMut(Span<'a>) -> ParseResult<'a, Vec<O>>
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    ws(separated_list1(
-        multispace1,
-        preceded(ignore_eol_comment, inner),
-    ))
+    ws(move |input| {
+        let (input, first) = inner(input)?;
+        let (input, mut rest) = many0(preceded(multispace1, &mut inner))(input)?;
+        rest.insert(0, first);
+        Ok((input, rest))
+    })
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that consumes
-- 
2.43.0


From 2b32d5c9049dacc9f39b420ca7564f698c704eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:23 +0000
Subject: [PATCH 11/19] fix: allow white space and comments after every opening
 parenthesis

---
 src/parsers/atomic_formula.rs | 5 ++---
 src/parsers/utilities.rs      | 6 +++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parsers/atomic_formula.rs b/src/parsers/atomic_formula.rs
index d708203..21e388c 100644
--- a/src/parsers/atomic_formula.rs
+++ b/src/parsers/atomic_formula.rs
@@ -4,10 +4,9 @@ use crate::parsers::{parens, space_separated_list0, ws};
 use crate::parsers::{parse_predicate, ParseResult, Span};
 use crate::types::AtomicFormula;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::{delimited, tuple};
+use nom::sequence::{delimited, preceded, tuple};
 
 /// Parses an atomic formula, i.e. `(<predicate> t*) | (= t t)`.
 ///
@@ -31,7 +30,7 @@ where
 {
     let equality = map(
         delimited(
-            ws(tag("(=")),
+            preceded(ws(char('(')), ws(char('='))),
             tuple((ws(inner.clone()), ws(inner.clone()))),
             ws(char(')')),
         ),
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index 864f38f..39b4f4a 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -16,7 +16,11 @@ pub fn prefix_expr<'a, F, O>(name: &'a str, inner: F) -> impl FnMut(Span<'a>) ->
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    delimited(preceded(ws(tag("(")), tag(name)), ws(inner), ws(tag(")")))
+    delimited(
+        preceded(ws(tag("(")), ws(tag(name))),
+        ws(inner),
+        ws(tag(")")),
+    )
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading whitespace,
-- 
2.43.0


From 36ec82ae19f40482f41a0d3930424a26f3977653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 12/19] fix: read type names starting with 'object' as a whole

---
 src/parsers/primitive_type.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/parsers/primitive_type.rs b/src/parsers/primitive_type.rs
index eec324b..bb107ac 100644
--- a/src/parsers/primitive_type.rs
+++ b/src/parsers/primitive_type.rs
@@ -1,11 +1,9 @@
 //! Provides parsers for primitive types.
 
-use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
 use crate::parsers::{parse_name, ParseResult, Span};
-use crate::types::{Name, PrimitiveType};
+use crate::types::PrimitiveType;
 
 /// Parses a primitive type, i.e. `object | <name>`.
 ///
@@ -18,11 +16,7 @@ use crate::types::{Name, PrimitiveType};
 /// assert!(parse_primitive_type(Span::new("obj!ect")).is_value("obj".into()));
 ///```
 pub fn parse_primitive_type<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PrimitiveType> {
-    map(alt((parse_object, parse_name)), PrimitiveType::from)(input.into())
-}
-
-fn parse_object(input: Span) -> ParseResult<Name> {
-    map(tag("object"), |x: Span| Name::from(*x.fragment()))(input)
+    map(parse_name, PrimitiveType::from)(input.into())
 }
 
 impl crate::parsers::Parser for PrimitiveType {
-- 
2.43.0


From 18ebac33a7a55658732cbfd16044a77035becce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 13/19] fix: recognise keywords only as whole words

---
 src/parsers/assign_op.rs      |  6 +++---
 src/parsers/assign_op_t.rs    |  4 ++--
 src/parsers/f_exp_da.rs       |  4 ++--
 src/parsers/f_exp_t.rs        |  6 +++---
 src/parsers/interval.rs       |  4 ++--
 src/parsers/metric_f_exp.rs   |  4 ++--
 src/parsers/mod.rs            |  2 +-
 src/parsers/optimization.rs   |  4 ++--
 src/parsers/requirements.rs   |  6 +++---
 src/parsers/time_specifier.rs |  9 +++++----
 src/parsers/utilities.rs      | 22 +++++++++++++++-------
 11 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/parsers/assign_op.rs b/src/parsers/assign_op.rs
index 91aa330..156a897 100644
--- a/src/parsers/assign_op.rs
+++ b/src/parsers/assign_op.rs
@@ -4,7 +4,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{word, ParseResult, Span};
 use crate::types::assign_op::names;
 use crate::types::AssignOp;
 
@@ -19,14 +19,14 @@ use crate::types::AssignOp;
 ///```
 pub fn parse_assign_op<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, AssignOp> {
     map(
-        alt((
+        word(alt((
             tag(names::CHANGE), // deprecated
             tag(names::ASSIGN),
             tag(names::SCALE_UP),
             tag(names::SCALE_DOWN),
             tag(names::INCREASE),
             tag(names::DECREASE),
-        )),
+        ))),
         |x: Span| AssignOp::try_from(*x.fragment()).expect("unhandled variant"),
     )(input.into())
 }
diff --git a/src/parsers/assign_op_t.rs b/src/parsers/assign_op_t.rs
index 84e4a7a..fc82a29 100644
--- a/src/parsers/assign_op_t.rs
+++ b/src/parsers/assign_op_t.rs
@@ -4,7 +4,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{word, ParseResult, Span};
 use crate::types::assign_op_t::names;
 use crate::types::AssignOpT;
 
@@ -19,7 +19,7 @@ use crate::types::AssignOpT;
 ///```
 pub fn parse_assign_op_t<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, AssignOpT> {
     map(
-        alt((tag(names::INCREASE), tag(names::DECREASE))),
+        word(alt((tag(names::INCREASE), tag(names::DECREASE)))),
         |x: Span| AssignOpT::try_from(*x.fragment()).expect("unhandled variant"),
     )(input.into())
 }
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index 1339872..4acd695 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -7,7 +7,7 @@ use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, space_separated_list1, ParseResult, Span};
+use crate::parsers::{parens, space_separated_list1, word, ParseResult, Span};
 use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
 use crate::types::FExpDa;
 
@@ -39,7 +39,7 @@ use crate::types::FExpDa;
 ///```
 pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa> {
     // :duration-inequalities
-    let duration = map(tag("?duration"), |_| FExpDa::new_duration());
+    let duration = map(word(tag("?duration")), |_| FExpDa::new_duration());
 
     let binary_op = map(
         parens(tuple((
diff --git a/src/parsers/f_exp_t.rs b/src/parsers/f_exp_t.rs
index b0314bb..5cae36e 100644
--- a/src/parsers/f_exp_t.rs
+++ b/src/parsers/f_exp_t.rs
@@ -6,8 +6,8 @@ use nom::bytes::complete::tag;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
-use crate::parsers::prefix_expr;
 use crate::parsers::{parse_f_exp, ParseResult, Span};
+use crate::parsers::{prefix_expr, word};
 use crate::types::FExpT;
 
 /// Parses an f-exp-t.
@@ -41,13 +41,13 @@ use crate::types::FExpT;
 /// ));
 ///```
 pub fn parse_f_exp_t<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpT> {
-    let now = map(tag("#t"), |_| FExpT::new());
+    let now = map(word(tag("#t")), |_| FExpT::new());
     let scaled = map(
         prefix_expr(
             "*",
             alt((
                 preceded(tuple((tag("#t"), multispace1)), parse_f_exp),
-                terminated(parse_f_exp, tuple((multispace1, tag("#t")))),
+                terminated(parse_f_exp, tuple((multispace1, word(tag("#t"))))),
             )),
         ),
         FExpT::new_scaled,
diff --git a/src/parsers/interval.rs b/src/parsers/interval.rs
index f92a9ab..ec49696 100644
--- a/src/parsers/interval.rs
+++ b/src/parsers/interval.rs
@@ -3,7 +3,7 @@
 use nom::bytes::complete::tag;
 use nom::combinator::map;
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{word, ParseResult, Span};
 use crate::types::interval::names;
 use crate::types::Interval;
 
@@ -16,7 +16,7 @@ use crate::types::Interval;
 /// assert!(parse_interval("all").is_value(Interval::All));
 ///```
 pub fn parse_interval<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Interval> {
-    map(tag(names::ALL), |x: Span| {
+    map(word(tag(names::ALL)), |x: Span| {
         Interval::try_from(*x.fragment()).expect("unhandled variant")
     })(input.into())
 }
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 019fc5a..89cd7a4 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -3,7 +3,7 @@
 use crate::parsers::multispace1;
 use crate::parsers::{
     parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
-    space_separated_list0, space_separated_list1, ws, ParseResult, Span,
+    space_separated_list0, space_separated_list1, word, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
@@ -116,7 +116,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         |(sym, names)| MetricFExp::new_function(sym, names),
     );
 
-    let total_time = map(tag("total-time"), |_| MetricFExp::new_total_time());
+    let total_time = map(word(tag("total-time")), |_| MetricFExp::new_total_time());
 
     // :preferences
     let is_violated = map(
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 23e2f02..9e56191 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    multispace1, parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
+    multispace1, parens, prefix_expr, space_separated_list0, space_separated_list1, word, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/optimization.rs b/src/parsers/optimization.rs
index 13d63d8..7d58bc9 100644
--- a/src/parsers/optimization.rs
+++ b/src/parsers/optimization.rs
@@ -1,6 +1,6 @@
 //! Provides parsers for optimization.
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{word, ParseResult, Span};
 use crate::types::{optimization::names, Optimization};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
@@ -17,7 +17,7 @@ use nom::combinator::map;
 ///```
 pub fn parse_optimization<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Optimization> {
     map(
-        alt((tag(names::MINIMIZE), tag(names::MAXIMIZE))),
+        word(alt((tag(names::MINIMIZE), tag(names::MAXIMIZE)))),
         |x: Span| Optimization::try_from(*x.fragment()).expect("unhandled variant"),
     )(input.into())
 }
diff --git a/src/parsers/requirements.rs b/src/parsers/requirements.rs
index 9bc54f6..ab377a0 100644
--- a/src/parsers/requirements.rs
+++ b/src/parsers/requirements.rs
@@ -4,7 +4,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
 
-use crate::parsers::{prefix_expr, space_separated_list1, ParseResult, Span};
+use crate::parsers::{prefix_expr, space_separated_list1, word, ParseResult, Span};
 use crate::types::requirement::{names, Requirement};
 use crate::types::Requirements;
 
@@ -57,7 +57,7 @@ pub fn parse_require_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Req
 ///```
 pub fn parse_require_key<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Requirement> {
     map(
-        alt((
+        word(alt((
             tag(names::STRIPS),
             tag(names::TYPING),
             tag(names::NEGATIVE_PRECONDITIONS),
@@ -79,7 +79,7 @@ pub fn parse_require_key<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Req
             tag(names::PREFERENCES),
             tag(names::CONSTRAINTS),
             tag(names::ACTION_COSTS),
-        )),
+        ))),
         |x: Span| Requirement::try_from(*x.fragment()).expect("unhandled variant"),
     )(input.into())
 }
diff --git a/src/parsers/time_specifier.rs b/src/parsers/time_specifier.rs
index 15b9768..e06b476 100644
--- a/src/parsers/time_specifier.rs
+++ b/src/parsers/time_specifier.rs
@@ -4,7 +4,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{word, ParseResult, Span};
 use crate::types::time_specifier::names;
 use crate::types::TimeSpecifier;
 
@@ -18,9 +18,10 @@ use crate::types::TimeSpecifier;
 /// assert!(parse_time_specifier("end").is_value(TimeSpecifier::End));
 ///```
 pub fn parse_time_specifier<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, TimeSpecifier> {
-    map(alt((tag(names::START), tag(names::END))), |x: Span| {
-        TimeSpecifier::try_from(*x.fragment()).expect("unhandled variant")
-    })(input.into())
+    map(
+        word(alt((tag(names::START), tag(names::END)))),
+        |x: Span| TimeSpecifier::try_from(*x.fragment()).expect("unhandled variant"),
+    )(input.into())
 }
 
 impl crate::parsers::Parser for TimeSpecifier {
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index 39b4f4a..40c8404 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -1,13 +1,14 @@
 //! Utility parsers.
 
+use crate::parsers::name::parse_any_char;
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0};
-use nom::combinator::{map, opt, success};
+use nom::combinator::{cond, map, not, opt, success};
 use nom::error::ErrorKind;
 use nom::error_position;
 use nom::multi::many0;
-use nom::sequence::{delimited, preceded};
+use nom::sequence::{delimited, preceded, terminated};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a leading `(name` and trailing `)`, returning the output of `inner`.
@@ -16,11 +17,18 @@ pub fn prefix_expr<'a, F, O>(name: &'a str, inner: F) -> impl FnMut(Span<'a>) ->
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    delimited(
-        preceded(ws(tag("(")), ws(tag(name))),
-        ws(inner),
-        ws(tag(")")),
-    )
+    let is_word = name.ends_with(|c: char| c.is_ascii_alphanumeric());
+    let name = terminated(tag(name), cond(is_word, not(parse_any_char)));
+    delimited(preceded(ws(tag("(")), ws(name)), ws(inner), ws(tag(")")))
+}
+
+/// A combinator that takes a parser `inner` for a keyword and produces a parser that only succeeds
+/// if the keyword is a whole word, i.e. not continued by another name character.
+pub fn word<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> ParseResult<'a, O>
+where
+    F: FnMut(Span<'a>) -> ParseResult<'a, O>,
+{
+    terminated(inner, not(parse_any_char))
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading whitespace,
-- 
2.43.0


From 908db1b5d232c8cefce6d569533ed15c3f8c04f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 14/19] fix: allow any white space and comments between 'at'
 and 'end'

---
 src/parsers/con_gd.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index 49a473e..a1ddc98 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -3,10 +3,11 @@
 use crate::parsers::multispace1;
 use crate::parsers::{
     parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0, typed_list,
-    ParseResult, Span,
+    word, ParseResult, Span,
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
+use nom::bytes::complete::tag;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -174,7 +175,13 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
         |(vars, gd)| ConGD::new_forall(vars, gd),
     );
 
-    let at_end = map(prefix_expr("at end", parse_gd), ConGD::new_at_end);
+    let at_end = map(
+        prefix_expr(
+            "at",
+            preceded(tuple((word(tag("end")), multispace1)), parse_gd),
+        ),
+        ConGD::new_at_end,
+    );
 
     let always = map(prefix_expr("always", parse_con2_gd), ConGD::new_always);
 
-- 
2.43.0


From 89a2d21c80c1586b067729f04ff280e2b6dde72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 15/19] fix: represent nested trajectory constraints as
 constraints, not as goals

---
 src/parsers/con_gd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index a1ddc98..c94efdf 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -269,7 +269,7 @@ fn parse_con2_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Con2GD> {
 
     // TODO: Add crate feature to allow this to be forbidden if unsupported by the application.
     let con_gd = map(parse_con_gd, Con2GD::new_nested);
-    alt((gd, con_gd))(input.into())
+    alt((con_gd, gd))(input.into())
 }
 
 impl crate::parsers::Parser for ConGD {
-- 
2.43.0


From ed93a8e7665a10cfc0ec3bc71c3d83cf55e1ccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 16/19] fix: do not read operator keywords as predicate names

---
 src/parsers/atomic_formula.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/parsers/atomic_formula.rs b/src/parsers/atomic_formula.rs
index 21e388c..f91a275 100644
--- a/src/parsers/atomic_formula.rs
+++ b/src/parsers/atomic_formula.rs
@@ -2,10 +2,10 @@
 
 use crate::parsers::{parens, space_separated_list0, ws};
 use crate::parsers::{parse_predicate, ParseResult, Span};
-use crate::types::AtomicFormula;
+use crate::types::{AtomicFormula, Predicate};
 use nom::branch::alt;
 use nom::character::complete::char;
-use nom::combinator::map;
+use nom::combinator::{map, verify};
 use nom::sequence::{delimited, preceded, tuple};
 
 /// Parses an atomic formula, i.e. `(<predicate> t*) | (= t t)`.
@@ -38,13 +38,25 @@ where
     );
 
     let predicate = map(
-        parens(tuple((parse_predicate, ws(space_separated_list0(inner))))),
+        parens(tuple((
+            verify(parse_predicate, |name| !is_reserved(name)),
+            ws(space_separated_list0(inner)),
+        ))),
         |tuple| AtomicFormula::Predicate(tuple.into()),
     );
 
     alt((equality, predicate))
 }
 
+/// Determines whether a name is one of the operators that share the position of a predicate name,
+/// so that a malformed operator expression is not mistaken for an atomic formula.
+fn is_reserved(name: &Predicate) -> bool {
+    matches!(
+        name.as_ref(),
+        "and" | "or" | "not" | "imply" | "exists" | "forall" | "when"
+    )
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 45d3539683281e983c3518ce8bc58120cc67fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:33 +0000
Subject: [PATCH 17/19] fix: parse the operands of arithmetic expressions only
 once

---
 src/parsers/f_exp.rs        | 38 +++++++--------------------------
 src/parsers/f_exp_da.rs     | 36 +++++++------------------------
 src/parsers/metric_f_exp.rs | 42 ++++++++-----------------------------
 src/parsers/mod.rs          |  1 +
 src/parsers/op_exp.rs       | 41 ++++++++++++++++++++++++++++++++++++
 5 files changed, 67 insertions(+), 91 deletions(-)
 create mode 100644 src/parsers/op_exp.rs

diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index 5f6ef68..7e3ae99 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,13 +1,10 @@
 //! Provides parsers for f-exps.
 
-use crate::parsers::multispace1;
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, parse_number, space_separated_list1, ParseResult, Span};
-use crate::parsers::{parse_binary_op, parse_f_head, parse_multi_op};
+use crate::parsers::op_exp::{op_exp, OpExp};
+use crate::parsers::{parse_f_head, parse_number, ParseResult, Span};
 use crate::types::FExp;
 
 /// Parses an f-exp.
@@ -51,35 +48,16 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let number = map(parse_number, FExp::new_number);
 
     // :numeric-fluents
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, parse_f_exp),
-        ))),
-        |(op, lhs, rhs)| FExp::new_binary_op(op, lhs, rhs),
-    );
-
-    // :numeric-fluents
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, space_separated_list1(parse_f_exp)),
-        ))),
-        |(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs),
-    );
-
-    // :numeric-fluents
-    let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp)),
-        FExp::new_negative,
-    );
+    let op_exp = map(op_exp(parse_f_exp), |exp| match exp {
+        OpExp::Negative(value) => FExp::new_negative(value),
+        OpExp::Binary(op, lhs, rhs) => FExp::new_binary_op(op, lhs, rhs),
+        OpExp::Multi(op, lhs, rhs) => FExp::new_multi_op(op, lhs, rhs),
+    });
 
     // :numeric-fluents
     let f_head = map(parse_f_head, FExp::new_function);
 
-    alt((number, binary_op, multi_op, negated, f_head))(input.into())
+    alt((number, op_exp, f_head))(input.into())
 }
 
 impl crate::parsers::Parser for FExp {
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index 4acd695..25bec97 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -1,14 +1,11 @@
 //! Provides parsers for f-exp-da values..
 
-use crate::parsers::multispace1;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, space_separated_list1, word, ParseResult, Span};
-use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
+use crate::parsers::op_exp::{op_exp, OpExp};
+use crate::parsers::{parse_f_exp, word, ParseResult, Span};
 use crate::types::FExpDa;
 
 /// Parses an f-exp-da.
@@ -41,32 +38,15 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     // :duration-inequalities
     let duration = map(word(tag("?duration")), |_| FExpDa::new_duration());
 
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, parse_f_exp_da),
-        ))),
-        |(op, lhs, rhs)| FExpDa::new_binary_op(op, lhs, rhs),
-    );
-
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, space_separated_list1(parse_f_exp_da)),
-        ))),
-        |(op, lhs, rhs)| FExpDa::new_multi_op(op, lhs, rhs),
-    );
-
-    let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp_da)),
-        FExpDa::new_negative,
-    );
+    let op_exp = map(op_exp(parse_f_exp_da), |exp| match exp {
+        OpExp::Negative(value) => FExpDa::new_negative(value),
+        OpExp::Binary(op, lhs, rhs) => FExpDa::new_binary_op(op, lhs, rhs),
+        OpExp::Multi(op, lhs, rhs) => FExpDa::new_multi_op(op, lhs, rhs),
+    });
 
     let f_exp = map(parse_f_exp, FExpDa::new_f_exp);
 
-    alt((duration, binary_op, multi_op, negated, f_exp))(input.into())
+    alt((duration, op_exp, f_exp))(input.into())
 }
 
 impl crate::parsers::Parser for FExpDa {
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 89cd7a4..191cfc1 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,17 +1,15 @@
 //! Provides parsers for metric f-exps.
 
-use crate::parsers::multispace1;
+use crate::parsers::op_exp::{op_exp, OpExp};
 use crate::parsers::{
     parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
-    space_separated_list0, space_separated_list1, word, ws, ParseResult, Span,
+    space_separated_list0, word, ws, ParseResult, Span,
 };
-use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0};
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
+use nom::sequence::tuple;
 
 /// Parses a metric f-exp.
 ///
@@ -77,31 +75,11 @@ use nom::sequence::{preceded, tuple};
 /// ));
 ///```
 pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, MetricFExp> {
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, parse_metric_f_exp),
-        ))),
-        |(op, lhs, rhs)| MetricFExp::new_binary_op(op, lhs, rhs),
-    );
-
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, space_separated_list1(parse_metric_f_exp)),
-        ))),
-        |(op, lhs, rhs)| MetricFExp::new_multi_op(op, lhs, rhs),
-    );
-
-    let negated = map(
-        parens(preceded(
-            tuple((char('-'), multispace0)),
-            parse_metric_f_exp,
-        )),
-        MetricFExp::new_negative,
-    );
+    let op_exp = map(op_exp(parse_metric_f_exp), |exp| match exp {
+        OpExp::Negative(value) => MetricFExp::new_negative(value),
+        OpExp::Binary(op, lhs, rhs) => MetricFExp::new_binary_op(op, lhs, rhs),
+        OpExp::Multi(op, lhs, rhs) => MetricFExp::new_multi_op(op, lhs, rhs),
+    });
 
     let number = map(parse_number, MetricFExp::new_number);
 
@@ -126,9 +104,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
 
     alt((
         number,
-        binary_op,
-        multi_op,
-        negated,
+        op_exp,
         total_time,
         is_violated,
         complex_function,
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 9e56191..fa27c6e 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -51,6 +51,7 @@ mod multi_op;
 mod name;
 pub(crate) mod number;
 mod objects_def;
+mod op_exp;
 mod optimization;
 mod p_effect;
 mod pre_gd;
diff --git a/src/parsers/op_exp.rs b/src/parsers/op_exp.rs
new file mode 100644
index 0000000..e632ba2
--- /dev/null
+++ b/src/parsers/op_exp.rs
@@ -0,0 +1,41 @@
+//! Provides the parser for the operator expressions shared by all kinds of f-exps.
+
+use nom::branch::alt;
+use nom::combinator::{map_opt, success, value};
+use nom::multi::many0;
+use nom::sequence::{preceded, tuple};
+
+use crate::parsers::{multispace1, parens, parse_binary_op, ws, ParseResult, Span};
+use crate::types::{BinaryOp, MultiOp};
+
+/// An operator applied to its operands.
+pub enum OpExp<O> {
+    Negative(O),
+    Binary(BinaryOp, O, O),
+    Multi(MultiOp, O, Vec<O>),
+}
+
+/// Parses an operator expression, i.e. `(- x)`, `(<binary-op> x x)` or `(<multi-op> x x+)`.
+///
+/// The number of operands decides about the kind of expression only after all of them were parsed;
+/// trying one kind after the other would parse every operand repeatedly, on each level of nesting.
+pub fn op_exp<'a, F, O>(operand: F) -> impl FnMut(Span<'a>) -> ParseResult<'a, OpExp<O>>
+where
+    F: Copy + FnMut(Span<'a>) -> ParseResult<'a, O>,
+{
+    let separated = alt((value(true, multispace1), value(false, success(()))));
+    let operands = tuple((operand, many0(preceded(multispace1, operand))));
+
+    map_opt(
+        parens(tuple((parse_binary_op, separated, ws(operands)))),
+        |(op, separated, (first, mut rest))| match (op, rest.len()) {
+            (BinaryOp::Subtraction, 0) => Some(OpExp::Negative(first)),
+            (op, 1) if separated => Some(OpExp::Binary(op, first, rest.remove(0))),
+            (op, 2..) if separated => {
+                let op = MultiOp::try_from(op).ok()?;
+                Some(OpExp::Multi(op, first, rest))
+            }
+            _ => None,
+        },
+    )
+}
-- 
2.43.0


From 611971adc806bbf444f79a8d3ca68d7eb107d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:53 +0000
Subject: [PATCH 18/19] fix: build the types without the parser feature

---
 src/types/assign_op.rs      |  5 +++--
 src/types/assign_op_t.rs    |  5 +++--
 src/types/binary_comp.rs    |  5 +++--
 src/types/binary_op.rs      | 10 ++++++----
 src/types/d_op.rs           |  5 +++--
 src/types/interval.rs       |  5 +++--
 src/types/multi_op.rs       |  5 +++--
 src/types/optimization.rs   |  5 +++--
 src/types/requirement.rs    |  5 +++--
 src/types/time_specifier.rs |  5 +++--
 10 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/types/assign_op.rs b/src/types/assign_op.rs
index 77ba8bf..831aaeb 100644
--- a/src/types/assign_op.rs
+++ b/src/types/assign_op.rs
@@ -108,9 +108,10 @@ impl TryFrom<&str> for AssignOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
+#[cfg_attr(feature = "parser", derive(thiserror::Error))]
 pub enum ParseError {
-    #[error("Invalid operation")]
+    #[cfg_attr(feature = "parser", error("Invalid operation"))]
     InvalidOperation,
 }
 
diff --git a/src/types/assign_op_t.rs b/src/types/assign_op_t.rs
index 47b4335..e2ae9fb 100644
--- a/src/types/assign_op_t.rs
+++ b/src/types/assign_op_t.rs
@@ -38,8 +38,9 @@ impl TryFrom<&str> for AssignOpT {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
+#[cfg_attr(feature = "parser", derive(thiserror::Error))]
 pub enum ParseError {
-    #[error("Invalid operation")]
+    #[cfg_attr(feature = "parser", error("Invalid operation"))]
     InvalidOperation,
 }
diff --git a/src/types/binary_comp.rs b/src/types/binary_comp.rs
index cec53c4..1ec7c74 100644
--- a/src/types/binary_comp.rs
+++ b/src/types/binary_comp.rs
@@ -50,8 +50,9 @@ impl TryFrom<&str> for BinaryComp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
+#[cfg_attr(feature = "parser", derive(thiserror::Error))]
 pub enum ParseError {
-    #[error("Invalid operation")]
+    #[cfg_attr(feature = "parser", error("Invalid operation"))]
     InvalidOperation,
 }
diff --git a/src/types/binary_op.rs b/src/types/binary_op.rs
index aef42b7..14fdb26 100644
--- a/src/types/binary_op.rs
+++ b/src/types/binary_op.rs
@@ -68,14 +68,16 @@ impl TryFrom<BinaryOp> for MultiOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
+#[cfg_attr(feature = "parser", derive(thiserror::Error))]
 pub enum ParseError {
-    #[error("Invalid operation")]
+    #[cfg_attr(feature = "parser", error("Invalid operation"))]
     InvalidOperation,
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
+#[cfg_attr(feature = "parser", derive(thiserror::Error))]
 pub enum TryFromError {
-    #[error("Operation is not a MultiOp")]
+    #[cfg_attr(feature = "parser", error("Operation is not a MultiOp"))]
     NotAMultiOp,
 }
diff --git a/src/types/d_op.rs b/src/types/d_op.rs
index c768b84..26a674c 100644
--- a/src/types/d_op.rs
+++ b/src/types/d_op.rs
@@ -44,8 +44,9 @@ impl TryFrom<&str> for DOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
+#[cfg_attr(feature = "parser", derive(thiserror::Error))]
 pub enum ParseError {
-    #[error("Invalid operation")]
+    #[cfg_attr(feature = "parser", error("Invalid operation"))]
     InvalidOperation,
 }
diff --git a/src/types/interval.rs b/src/types/interval.rs
index 65fd2e7..dd1b075 100644
--- a/src/types/interval.rs
+++ b/src/types/interval.rs
@@ -35,8 +35,9 @@ impl TryFrom<&str> for Interval {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
+#[cfg_attr(feature = "parser", derive(thiserror::Error))]
 pub enum ParseError {
-    #[error("Invalid interval")]
+    #[cfg_attr(feature = "parser", error("Invalid interval"))]
     InvalidInterval,
 }
diff --git a/src/types/multi_op.rs b/src/types/multi_op.rs
index 1256948..3c69702 100644
--- a/src/types/multi_op.rs
+++ b/src/types/multi_op.rs
@@ -39,8 +39,9 @@ impl TryFrom<&str> for MultiOp {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
+#[cfg_attr(feature = "parser", derive(thiserror::Error))]
 pub enum ParseError {
-    #[error("Invalid operation")]
+    #[cfg_attr(feature = "parser", error("Invalid operation"))]
     InvalidOperation,
 }
diff --git a/src/types/optimization.rs b/src/types/optimization.rs
index d053aac..fa467e6 100644
--- a/src/types/optimization.rs
+++ b/src/types/optimization.rs
@@ -43,8 +43,9 @@ impl TryFrom<&str> for Optimization {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
+#[cfg_attr(feature = "parser", derive(thiserror::Error))]
 pub enum ParseError {
-    #[error("Invalid goal")]
+    #[cfg_attr(feature = "parser", error("Invalid goal"))]
     InvalidGoal,
 }
diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 657d8d1..f88ed4c 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -253,9 +253,10 @@ impl TryFrom<&str> for Requirement {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
+#[cfg_attr(feature = "parser", derive(thiserror::Error))]
 pub enum ParseError {
-    #[error("Invalid requirement")]
+    #[cfg_attr(feature = "parser", error("Invalid requirement"))]
     InvalidRequirement,
 }
 
diff --git a/src/types/time_specifier.rs b/src/types/time_specifier.rs
index 4ee9026..14245a7 100644
--- a/src/types/time_specifier.rs
+++ b/src/types/time_specifier.rs
@@ -40,8 +40,9 @@ impl TryFrom<&str> for TimeSpecifier {
     }
 }
 
-#[derive(Debug, Clone, thiserror::Error)]
+#[derive(Debug, Clone)]
+#[cfg_attr(feature = "parser", derive(thiserror::Error))]
 pub enum ParseError {
-    #[error("Invalid specifier")]
+    #[cfg_attr(feature = "parser", error("Invalid specifier"))]
     InvalidSpecifier,
 }
-- 
2.43.0


From 53270242a9ec9e2cdada259178a8aaac4ab804c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:48 +0000
Subject: [PATCH 19/19] fix: allow comments before the expression of a metric

---
 src/parsers/metric_f_exp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 191cfc1..6ffc961 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -102,14 +102,14 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         MetricFExp::new_is_violated,
     );
 
-    alt((
+    ws(alt((
         number,
         op_exp,
         total_time,
         is_violated,
         complex_function,
         simple_function,
-    ))(input.into())
+    )))(input.into())
 }
 
 impl crate::parsers::Parser for MetricFExp {
-- 
2.43.0


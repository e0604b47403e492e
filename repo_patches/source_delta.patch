From cd0de546284da547c6bacbfaf9a51999d93a9adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:50 +0000
Subject: [PATCH 01/15] fix: trim trailing whitespace after a multi-byte
 character on its boundary

The trimmed end was one byte after the start of the last character, so for
a multi-byte one it fell inside it: error_source_text panicked, and
resolve_span gave empty content.
---
 src/trim.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/trim.rs b/src/trim.rs
index 5922e1a..b472530 100644
--- a/src/trim.rs
+++ b/src/trim.rs
@@ -3,8 +3,12 @@ use test_case::test_case;
 
 // adjust the span to exclude trailing whitespace
 pub fn trim_trailing_whitespace(content: &str, start: usize, end: usize) -> usize {
-    match &content[start..end].rfind(|c: char| !c.is_whitespace()) {
-        Some(i) => start + *i + 1,
+    match content[start..end]
+        .char_indices()
+        .rfind(|(_, c)| !c.is_whitespace())
+    {
+        // end after the whole of the last character, which may be multi-byte
+        Some((i, c)) => start + i + c.len_utf8(),
         None => end,
     }
 }
-- 
2.43.0


From 28d32713422d0092a3210b90af476fbae7fac06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:50 +0000
Subject: [PATCH 02/15] fix: char indices of fragments appended to a synthetic
 source

They are byte offsets, so a fragment's must be based on the length in bytes
of the content so far, not on its number of chars.
---
 src/sources.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 589d251..7081d2a 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -486,12 +486,7 @@ impl<'a> SyntheticSources<'a> {
                 end,
             };
 
-            let original_len = char_indices.len();
-            char_indices.extend(
-                content_fragment
-                    .char_indices()
-                    .map(|(i, _)| i + original_len),
-            );
+            char_indices.extend(content_fragment.char_indices().map(|(i, _)| i + start));
             content.push_str(content_fragment);
 
             span
-- 
2.43.0


From 1bde6f2c96cd5333b0590f144ca350df364bd92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:50 +0000
Subject: [PATCH 03/15] fix: only ASCII digits in dates, times and numbers

\d matches any Unicode decimal digit, e.g. full-width ones, which then
panicked when parsed as an integer.
---
 src/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 99fae24..89f0b00 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -22,12 +22,12 @@ use unescaper::unescape;
 #[logos(subpattern ignored_whole_line= r"([*!&#?%:].*\r?\n)")] // rolled into end-of-line handling below
 #[logos(subpattern comment_to_eol= r"(;.*)")] // rolled into end-of-line handling below
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
-#[logos(subpattern time = r"\d{1,2}:\d{2}(:\d{2})?")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
+#[logos(subpattern time = r"[0-9]{1,2}:[0-9]{2}(:[0-9]{2})?")]
 #[logos(subpattern account_type = r"[\p{Lu}\p{Lo}][\p{L}\p{N}\-]*")]
 #[logos(subpattern account_name = r"[\p{Lu}\p{Lo}\p{N}][\p{L}\p{N}\-]*")]
 #[logos(subpattern string_literal = r#""([^\\"]|\\.)*""#)]
-#[logos(subpattern number = r"\d+(,\d{3})*(\.\d+)?")]
+#[logos(subpattern number = r"[0-9]+(,[0-9]{3})*(\.[0-9]+)?")]
 #[logos(subpattern tag_or_link_identifier = r"[A-Za-z0-9\-_/.]+")]
 #[logos(subpattern key = r"[a-z][a-zA-Z0-9\-_]+")]
 pub enum Token<'a> {
@@ -266,8 +266,8 @@ type SpannedToken<'a> = (Token<'a>, Span_);
 #[derive(Logos, Clone, Debug, PartialEq, Eq)]
 #[logos(error = LexerError)]
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
-#[logos(subpattern number = r"\d+(,\d{3})*(\.\d+)?")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
+#[logos(subpattern number = r"[0-9]+(,[0-9]{3})*(\.[0-9]+)?")]
 enum RecoveryToken {
     #[token("-")]
     Minus,
-- 
2.43.0


From 168170166b8a59179e9cd3b130c785e930882f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:16 +0000
Subject: [PATCH 04/15] fix: report division by zero or overflow in an
 expression as a parse error

Evaluation panicked.
---
 src/parsers.rs | 10 ++++++++-
 src/types.rs   | 55 ++++++++++++++++++++++++++++++++++----------------
 2 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index dc2b7ec..d0cc9a4 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -1082,7 +1082,15 @@ pub(crate) fn expr_value<'s, I>() -> impl Parser<'s, I, ExprValue, Extra<'s>>
 where
     I: BorrowInput<'s, Token = Token<'s>, Span = Span_>,
 {
-    expr().map(ExprValue::from)
+    expr().validate(|expr, e, emitter| {
+        ExprValue::checked_from(expr).unwrap_or_else(|expr| {
+            emitter.emit(Rich::custom(
+                e.span(),
+                "division by zero or overflow in expression",
+            ));
+            ExprValue::unevaluated(expr)
+        })
+    })
 }
 
 /// Match an expression
diff --git a/src/types.rs b/src/types.rs
index 59919e0..e19207f 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2225,12 +2225,32 @@ impl PartialEq<Decimal> for ExprValue {
     }
 }
 
+impl ExprValue {
+    /// Evaluate the `Expr` rounding to the max scale it contains,
+    /// returning the unevaluated `Expr` in case of division by zero or overflow.
+    pub(crate) fn checked_from(expr: Expr) -> Result<Self, Expr> {
+        match expr.evaluate() {
+            Some((mut value, scale)) => {
+                value.rescale(scale);
+                Ok(Self { value, expr })
+            }
+            None => Err(expr),
+        }
+    }
+
+    /// A stand-in for an `Expr` which can't be evaluated.
+    pub(crate) fn unevaluated(expr: Expr) -> Self {
+        let value = Decimal::ZERO;
+        Self { value, expr }
+    }
+}
+
 impl From<Expr> for ExprValue {
     /// Evaluate the `Expr` rounding to the max scale it contains.
+    ///
+    /// Panics in case of division by zero or overflow.
     fn from(expr: Expr) -> Self {
-        let (mut value, scale) = expr.evaluate();
-        value.rescale(scale);
-        Self { value, expr }
+        Self::checked_from(expr).expect("division by zero or overflow in expression")
     }
 }
 
@@ -2260,31 +2280,32 @@ pub enum Expr {
 }
 
 impl Expr {
-    fn evaluate(&self) -> (Decimal, u32) {
-        fn evaluate_unary<F>(op: F, e1: &Expr) -> (Decimal, u32)
+    // None for division by zero or overflow
+    fn evaluate(&self) -> Option<(Decimal, u32)> {
+        fn evaluate_unary<F>(op: F, e1: &Expr) -> Option<(Decimal, u32)>
         where
             F: Fn(Decimal) -> Decimal,
         {
-            let (d1, s1) = e1.evaluate();
-            (op(d1), s1)
+            let (d1, s1) = e1.evaluate()?;
+            Some((op(d1), s1))
         }
 
-        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> (Decimal, u32)
+        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> Option<(Decimal, u32)>
         where
-            F: Fn(Decimal, Decimal) -> Decimal,
+            F: Fn(Decimal, Decimal) -> Option<Decimal>,
         {
-            let (d1, s1) = e1.evaluate();
-            let (d2, s2) = e2.evaluate();
-            (op(d1, d2), max(s1, s2))
+            let (d1, s1) = e1.evaluate()?;
+            let (d2, s2) = e2.evaluate()?;
+            Some((op(d1, d2)?, max(s1, s2)))
         }
 
         use Expr::*;
         match self {
-            Value(d) => (*d, d.scale()),
-            Add(e1, e2) => evaluate_binary(std::ops::Add::add, e1, e2),
-            Sub(e1, e2) => evaluate_binary(std::ops::Sub::sub, e1, e2),
-            Mul(e1, e2) => evaluate_binary(std::ops::Mul::mul, e1, e2),
-            Div(e1, e2) => evaluate_binary(std::ops::Div::div, e1, e2),
+            Value(d) => Some((*d, d.scale())),
+            Add(e1, e2) => evaluate_binary(Decimal::checked_add, e1, e2),
+            Sub(e1, e2) => evaluate_binary(Decimal::checked_sub, e1, e2),
+            Mul(e1, e2) => evaluate_binary(Decimal::checked_mul, e1, e2),
+            Div(e1, e2) => evaluate_binary(Decimal::checked_div, e1, e2),
             Neg(e1) => evaluate_unary(std::ops::Neg::neg, e1),
             Paren(e) => e.evaluate(),
         }
-- 
2.43.0


From f5ed50b2030bd011342136e144c9844af3a552dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:16 +0000
Subject: [PATCH 05/15] fix: validate a currency by chars rather than bytes

A multi-byte character in e.g. option "operating_currency" panicked.
---
 src/types.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index e19207f..e9aba03 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1691,12 +1691,13 @@ impl<'a> TryFrom<&'a str> for Currency<'a> {
         } else {
             let mut chars = s.chars();
             let first = chars.next().unwrap();
-            let intermediate: Vec<char> = if s.len() > 2 {
-                chars.by_ref().take(s.len() - 2).collect()
+            let n_chars = s.chars().count();
+            let intermediate: Vec<char> = if n_chars > 2 {
+                chars.by_ref().take(n_chars - 2).collect()
             } else {
                 empty::<char>().collect()
             };
-            let last = if s.len() > 1 {
+            let last = if n_chars > 1 {
                 chars.next().unwrap()
             } else {
                 first
-- 
2.43.0


From 3cc6c9d2e6f15b23e9d74a4cbc0c15d43ff02d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:16 +0000
Subject: [PATCH 06/15] fix: don't recurse over pragmas

A few thousand successive pragmas, or includes of files without directives,
overflowed the stack.
---
 src/lib.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46715c4..b0aeacd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -432,6 +432,18 @@ impl<'s> Iterator for PragmaProcessor<'s> {
     type Item = Spanned<Directive<'s>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // loop rather than recurse, as there may be very many pragmas before the next directive
+        loop {
+            if let Some(directive) = self.step()? {
+                return Some(directive);
+            }
+        }
+    }
+}
+
+impl<'s> PragmaProcessor<'s> {
+    // process the next declaration, if any, returning the directive if that's what it was
+    fn step(&mut self) -> Option<Option<Spanned<Directive<'s>>>> {
         match self.current_declarations.pop_front() {
             Some(declaration) => {
                 match declaration.item {
@@ -439,7 +451,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         directive.metadata.augment_tags(&self.tags);
                         directive.metadata.augment_key_values(&self.meta_key_values);
 
-                        Some(spanned(directive, declaration.span))
+                        Some(Some(spanned(directive, declaration.span)))
                     }
 
                     Declaration::Pragma(pragma) => {
@@ -651,7 +663,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         }
 
                         // having silently consumed a pragma, go on to the next declaration
-                        self.next()
+                        Some(None)
                     }
                 }
             }
@@ -659,7 +671,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                 Some((path, declarations)) => {
                     self.current_path = path;
                     self.current_declarations = declarations;
-                    self.next()
+                    Some(None)
                 }
                 None => None,
             },
-- 
2.43.0


From 85e9256eb59b935872c7154e04e9816358962be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:25 +0000
Subject: [PATCH 07/15] fix: parse files in the order they were found, not in
 hash order

Options which affect parsing carry over from one file to the next, so
whether an account was accepted in an included file, or whether a string was
too long, and the order of errors and warnings, varied from run to run.
---
 src/lib.rs     |  4 ++--
 src/sources.rs | 28 +++++++++++++++++-----------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b0aeacd..ca79619 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -206,8 +206,8 @@ type ParseDeclarationsResult<'t> = (
 impl<'s> BeancountParser<'s> {
     /// Create a `BeancountParser` from `BeancountSources` read from all input files.
     pub fn new(sources: &'s BeancountSources) -> Self {
-        // `content_iter()` walks a `HashMap`, so iteration order is not guaranteed.
-        // We must index by `SourceId` rather than relying on iteration order.
+        // There are gaps in the source ids of `content_iter()` for any which could not be read,
+        // so we must index by `SourceId` rather than relying on iteration order.
         let mut tokenized_sources = vec![Vec::new(); sources.num_sources()];
 
         for (source_id, _path, content) in sources.content_iter() {
diff --git a/src/sources.rs b/src/sources.rs
index 7081d2a..8118e17 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -349,23 +349,29 @@ impl BeancountSources {
         .collect()
     }
 
+    /// All the content in order of `SourceId`, so root first.
     pub(crate) fn content_iter(&self) -> impl Iterator<Item = (SourceId, Option<&Path>, &str)> {
+        // the order must not depend on the HashMap, because parsing a file may depend on
+        // options in the files before it
+        let mut included_content = self
+            .included_content
+            .iter()
+            .filter_map(|(pathbuf, included_source)| {
+                if let IncludedSource::Content(source_id, content, _) = included_source {
+                    Some((*source_id, Some(pathbuf.as_path()), content.as_str()))
+                } else {
+                    None
+                }
+            })
+            .collect::<Vec<_>>();
+        included_content.sort_by_key(|(source_id, _, _)| usize::from(*source_id));
+
         once((
             self.root_source_id,
             self.root_path.as_deref(),
             self.root_content.as_str(),
         ))
-        .chain(
-            self.included_content
-                .iter()
-                .filter_map(|(pathbuf, included_source)| {
-                    if let IncludedSource::Content(source_id, content, _) = included_source {
-                        Some((*source_id, Some(pathbuf.as_path()), content.as_str()))
-                    } else {
-                        None
-                    }
-                }),
-        )
+        .chain(included_content)
     }
 
     /// Number of real sources, excluding synthetic ones
-- 
2.43.0


From 8d3b4db7cd2f2a804b74711832a3a26bc8629c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 08/15] fix: order of errors no longer depends on hash order

Errors for leftover pushtag and pushmeta, for duplicate tags and links, and
the contexts shown for a duplicate include came in arbitrary order.
---
 src/lib.rs     | 21 +++++++++++++++++----
 src/parsers.rs |  7 +++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ca79619..71b5b86 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,6 +83,7 @@
 //!```
 
 use chumsky::prelude::{Input, Parser};
+use itertools::Itertools;
 use lexer::{lex, Token};
 use parsers::{file, ParserState};
 use sort::SortIteratorAdaptor;
@@ -335,13 +336,14 @@ fn fmt_include_context<'s>(
     tags: &HashMap<Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>>,
     meta_key_values: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
 ) -> String {
+    // sorted, so as not to depend on the order of the HashMap
     let tags_s = itertools::intersperse(
-        tags.keys().map(|tag| tag.item().to_string()),
+        tags.keys().map(|tag| tag.item().to_string()).sorted(),
         " ".to_string(),
     )
     .collect::<String>();
     let meta_s = itertools::intersperse(
-        meta_key_values.iter().map(|(k, v)| {
+        meta_key_values.iter().sorted_by_key(|(k, _)| *k.item()).map(|(k, v)| {
             format!(
                 "{}: [{}]",
                 k.item(),
@@ -402,7 +404,14 @@ impl<'s> PragmaProcessor<'s> {
         let mut errors = self.errors;
         let warnings = self.warnings;
 
-        for (key, _value) in self.meta_key_values {
+        // sorted, so as not to depend on the order of the HashMap
+        let by_span = |span: &Span| (span.source, span.start, span.end);
+
+        for (key, _value) in self
+            .meta_key_values
+            .into_iter()
+            .sorted_by_key(|(key, _)| by_span(&key.span))
+        {
             let e = Error::new(
                 "invalid pushmeta",
                 "missing corresponding popmeta",
@@ -411,7 +420,11 @@ impl<'s> PragmaProcessor<'s> {
             errors.push(e);
         }
 
-        for (tag, others) in self.tags {
+        for (tag, others) in self
+            .tags
+            .into_iter()
+            .sorted_by_key(|(tag, _)| by_span(&tag.span))
+        {
             let e = Error::new("invalid pushtag", "missing corresponding poptag", tag.span);
             errors.push(e);
             for other in others {
diff --git a/src/parsers.rs b/src/parsers.rs
index d0cc9a4..daf3b87 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -11,6 +11,7 @@ use chumsky::{
     },
 };
 use either::Either;
+use itertools::Itertools;
 use rust_decimal::Decimal;
 use std::{
     collections::{HashMap, HashSet, hash_map},
@@ -1244,7 +1245,8 @@ impl<'a> Metadata<'a> {
     where
         E: Emit<ParserError<'a>>,
     {
-        for tag in tags {
+        // sorted, so that the order of errors doesn't depend on the order of the HashSet
+        for tag in tags.iter().sorted_by_key(|tag| tag.span.start) {
             match self.tags.get(tag) {
                 None => {
                     self.tags.insert(*tag);
@@ -1281,7 +1283,8 @@ impl<'a> Metadata<'a> {
     where
         E: Emit<ParserError<'a>>,
     {
-        for link in links {
+        // sorted, so that the order of errors doesn't depend on the order of the HashSet
+        for link in links.iter().sorted_by_key(|link| link.span.start) {
             match self.links.get(link) {
                 None => {
                     self.links.insert(*link);
-- 
2.43.0


From bd752d234a753e3abb3a64e5ca3a2c8a8c0893a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:07 +0000
Subject: [PATCH 09/15] fix: resolve other paths for the same file on loading
 only

Parsing looked at the file system again, so it depended on what had happened
to the files since they were loaded. And as loading is breadth-first but
parsing depth-first, parsing may meet another path of a file before the one
it was loaded by; the file was then wrongly reported as a duplicate include.

An included file whose path can't be canonicalized is now reported with the
reason, rather than as a duplicate include.
---
 src/lib.rs     | 36 +++++++++++++++++----------------
 src/sources.rs | 55 +++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 60 insertions(+), 31 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 71b5b86..b13d109 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -230,6 +230,7 @@ impl<'s> BeancountParser<'s> {
             parsed_sources,
             self.sources.included_globs(),
             self.sources.error_paths(),
+            self.sources.duplicate_paths(),
             options,
         );
 
@@ -314,7 +315,8 @@ struct PragmaProcessor<'s> {
     remaining: HashMap<Option<PathBuf>, VecDeque<Spanned<Declaration<'s>>>>,
     included_globs: &'s HashMap<PathBuf, IncludedGlob>,
     error_paths: HashMap<Option<PathBuf>, String>,
-    include_by_canonical_path: HashMap<PathBuf, IncludeContext<'s>>,
+    duplicate_paths: HashMap<&'s Path, &'s Path>,
+    include_by_path: HashMap<PathBuf, IncludeContext<'s>>,
     // tags and meta key/values for pragma push/pop
     tags: HashMap<Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>>,
     meta_key_values: HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
@@ -366,6 +368,7 @@ impl<'s> PragmaProcessor<'s> {
         parsed_sources: HashMap<Option<&Path>, Vec<Spanned<Declaration<'s>>>>,
         included_globs: &'s HashMap<PathBuf, IncludedGlob>,
         error_paths: HashMap<Option<&Path>, String>,
+        duplicate_paths: HashMap<&'s Path, &'s Path>,
         options: Options<'s>,
     ) -> Self {
         let mut remaining = parsed_sources
@@ -389,7 +392,8 @@ impl<'s> PragmaProcessor<'s> {
             remaining,
             included_globs,
             error_paths,
-            include_by_canonical_path: HashMap::default(),
+            duplicate_paths,
+            include_by_path: HashMap::default(),
             tags: HashMap::new(),
             meta_key_values: HashMap::new(),
             options,
@@ -560,7 +564,13 @@ impl<'s> PragmaProcessor<'s> {
                                         }
 
                                         for included in paths {
-                                            let included = Some(included.clone());
+                                            // other paths for the same file were resolved on loading
+                                            let included = Some(
+                                                self.duplicate_paths
+                                                    .get(included.as_path())
+                                                    .map(|first_path| first_path.to_path_buf())
+                                                    .unwrap_or(included.clone()),
+                                            );
 
                                             match self.remaining.remove_entry(&included) {
                                                 Some((included_path, included_declarations)) => {
@@ -578,14 +588,9 @@ impl<'s> PragmaProcessor<'s> {
                                                     ));
 
                                                     // record the span in case of a duplicate include error later
-                                                    if let Ok(canonical_path) = self
-                                                        .current_path
-                                                        .as_ref()
-                                                        .unwrap()
-                                                        .canonicalize()
-                                                    {
-                                                        self.include_by_canonical_path.insert(
-                                                            canonical_path,
+                                                    if let Some(included) = included {
+                                                        self.include_by_path.insert(
+                                                            included,
                                                             IncludeContext {
                                                                 tags: self.tags.clone(),
                                                                 meta_key_values: self
@@ -622,13 +627,10 @@ impl<'s> PragmaProcessor<'s> {
                                                         );
 
                                                         // relate the error to the first include if we can
-                                                        let e = if let Some(canonical_path) =
-                                                            included.and_then(|included| {
-                                                                included.canonicalize().ok()
-                                                            }) {
+                                                        let e = if let Some(included) = included {
                                                             if let Some(include_context) = self
-                                                                .include_by_canonical_path
-                                                                .get(&canonical_path)
+                                                                .include_by_path
+                                                                .get(&included)
                                                             {
                                                                 if include_context.tags == self.tags
                                                                     && include_context
diff --git a/src/sources.rs b/src/sources.rs
index 8118e17..972363f 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -2,7 +2,7 @@ use ariadne::{Color, Label};
 use glob::{self, glob_with};
 use lazy_format::lazy_format;
 use std::{
-    collections::{HashMap, HashSet, VecDeque},
+    collections::{HashMap, VecDeque},
     ffi::OsStr,
     fmt::{self, Formatter},
     fs::File,
@@ -45,7 +45,7 @@ pub struct BeancountSources {
 enum IncludedSource {
     Content(SourceId, String, Vec<usize>), // the content and its char indices
     Error(String),
-    Duplicate,
+    Duplicate(PathBuf), // the path by which it was found first
 }
 
 impl BeancountSources {
@@ -70,13 +70,13 @@ impl BeancountSources {
         let mut included_globs = HashMap::new();
         let mut included_content: HashMap<PathBuf, IncludedSource> = HashMap::new();
 
-        // for duplicate detection
-        let mut canonical_paths =
-            if let Some(canonical_root) = root_path.as_ref().and_then(|p| p.canonicalize().ok()) {
-                HashSet::from([canonical_root])
-            } else {
-                HashSet::default()
-            };
+        // for duplicate detection, the path by which each was found first
+        let mut canonical_paths = HashMap::new();
+        if let Some(root_path) = root_path.as_ref() {
+            if let Ok(canonical_root) = root_path.canonicalize() {
+                canonical_paths.insert(canonical_root, root_path.clone());
+            }
+        }
 
         while !pending_includes.is_empty() {
             let included = pending_includes.pop_front().unwrap();
@@ -107,14 +107,27 @@ impl BeancountSources {
                             Ok(globbed_include) => {
                                 glob_expansions.push(globbed_include.clone());
 
-                                if let Ok(canonical_path) = globbed_include.canonicalize() {
-                                    if canonical_paths.contains(&canonical_path) {
+                                let canonical_path = globbed_include.canonicalize();
+                                if let Err(e) = &canonical_path {
+                                    included_content.entry(globbed_include.clone()).or_insert(
+                                        IncludedSource::Error(format!(
+                                            "{}: {}",
+                                            globbed_include.to_string_lossy(),
+                                            e
+                                        )),
+                                    );
+                                }
+                                if let Ok(canonical_path) = canonical_path {
+                                    if let Some(first_path) = canonical_paths.get(&canonical_path) {
                                         // don't overwrite existing content
                                         included_content
                                             .entry(globbed_include)
-                                            .or_insert(IncludedSource::Duplicate);
+                                            .or_insert(IncludedSource::Duplicate(
+                                                first_path.clone(),
+                                            ));
                                     } else {
-                                        canonical_paths.insert(canonical_path);
+                                        canonical_paths
+                                            .insert(canonical_path, globbed_include.clone());
 
                                         let source_id = SourceId::from(source_id_strings.len());
                                         source_id_strings
@@ -387,6 +400,20 @@ impl BeancountSources {
         &self.included_globs
     }
 
+    /// Other paths for the same file, with the path by which it was found first
+    pub(crate) fn duplicate_paths(&self) -> HashMap<&Path, &Path> {
+        self.included_content
+            .iter()
+            .filter_map(|(pathbuf, included_source)| {
+                if let IncludedSource::Duplicate(first_path) = included_source {
+                    Some((pathbuf.as_path(), first_path.as_path()))
+                } else {
+                    None
+                }
+            })
+            .collect::<HashMap<_, _>>()
+    }
+
     pub(crate) fn error_paths(&self) -> HashMap<Option<&Path>, String> {
         self.included_content
             .iter()
@@ -442,7 +469,7 @@ impl std::fmt::Debug for BeancountSources {
                     content.len()
                 )?,
                 IncludedSource::Error(e) => writeln!(f, "    {:?} err {},", path, e)?,
-                IncludedSource::Duplicate => writeln!(f, "    {:?} duplicate include", path)?,
+                IncludedSource::Duplicate(_) => writeln!(f, "    {:?} duplicate include", path)?,
             }
         }
 
-- 
2.43.0


From 49f2bfc7259113224bce8cd2339125703d97fdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:07 +0000
Subject: [PATCH 10/15] fix: includes relative to a directory with glob
 characters in its name

The directory was taken as part of the glob, so includes of files in e.g.
/ledger/[old] matched nothing, or files in a different directory.
---
 src/sources.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 972363f..414152a 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -619,13 +619,14 @@ impl<'a> SyntheticSources<'a> {
     }
 }
 
-// get included path relative to including path
+// get included path as a glob, relative to including path
 pub(crate) fn resolve_included_path(
     including_path: Option<&PathBuf>,
     included_path: &Path,
 ) -> PathBuf {
     match including_path.and_then(|p| path_dir(p.as_ref())) {
-        Some(p) => p.join(included_path),
+        // only the included path is a glob, not the directory of the including file
+        Some(p) => PathBuf::from(glob::Pattern::escape(&p.to_string_lossy())).join(included_path),
         None => included_path.to_path_buf(),
     }
 }
-- 
2.43.0


From 55b59ad4c22f118f98dbf08a5653fc17bb7e61c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:24 +0000
Subject: [PATCH 11/15] fix: show the right source in reports where two have
 the same name

A synthetic source may have the name of a file, and an included file may be
called inline, as is an inline root; reports then showed text from the wrong
one, or no text at all.
---
 src/sources.rs | 54 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 414152a..90791e1 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -340,9 +340,12 @@ impl BeancountSources {
         self.source_id_strings[Into::<usize>::into(source_id)].as_str()
     }
 
-    fn sources(&self) -> Vec<(String, &str)> {
+    fn sources(&self) -> Vec<(ReportSource, &str)> {
         once((
-            self.source_id_string(self.root_source_id).to_string(),
+            ReportSource::new(
+                self.root_source_id,
+                self.source_id_string(self.root_source_id),
+            ),
             self.root_content.as_str(),
         ))
         .chain(
@@ -351,7 +354,7 @@ impl BeancountSources {
                 .filter_map(|(_, included_source)| {
                     if let IncludedSource::Content(source_id, content, _) = included_source {
                         Some((
-                            self.source_id_string(*source_id).to_string(),
+                            ReportSource::new(*source_id, self.source_id_string(*source_id)),
                             content.as_str(),
                         ))
                     } else {
@@ -497,12 +500,17 @@ impl<'a> SyntheticSources<'a> {
 }
 
 impl<'a> SyntheticSources<'a> {
-    fn sources(&self) -> Vec<(String, &str)> {
+    fn sources(&self) -> Vec<(ReportSource, &str)> {
         let mut sources = self.sources.sources();
         sources.extend(
-            self.content.iter().map(|(source_id_str, (_, content, _))| {
-                (source_id_str.to_string(), content.as_str())
-            }),
+            self.content
+                .iter()
+                .map(|(source_id_str, (source_id, content, _))| {
+                    (
+                        ReportSource::new(*source_id, source_id_str),
+                        content.as_str(),
+                    )
+                }),
         );
         sources
     }
@@ -654,11 +662,34 @@ where
     Ok(file_content)
 }
 
+/// Identifies a source in a report, where different sources may have the same name,
+/// e.g. a synthetic source and a file.
+#[derive(PartialEq, Eq, Hash, Clone, Debug)]
+struct ReportSource {
+    id: usize,
+    name: String,
+}
+
+impl ReportSource {
+    fn new(source_id: SourceId, name: &str) -> Self {
+        Self {
+            id: source_id.into(),
+            name: name.to_string(),
+        }
+    }
+}
+
+impl fmt::Display for ReportSource {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.write_str(&self.name)
+    }
+}
+
 fn write_report<'a, W, K, R, F>(
     w: &mut W,
     report: &R,
     get_adjusted_source: &F,
-    sources: Vec<(String, &str)>,
+    sources: Vec<(ReportSource, &str)>,
 ) -> io::Result<()>
 where
     W: Write,
@@ -733,12 +764,15 @@ where
 fn source_id_string_and_adjusted_rune_span<'a, F>(
     span: Span,
     get_adjusted_source: &F,
-) -> (String, Span)
+) -> (ReportSource, Span)
 where
     F: Fn(Span) -> (&'a str, &'a str, Span, Span),
 {
     let (_, source_id, _byte_span, rune_span) = get_adjusted_source(span);
-    (source_id.to_string(), rune_span)
+    (
+        ReportSource::new(rune_span.source.into(), source_id),
+        rune_span,
+    )
 }
 
 fn trimmed_span(source: &str, span: Span) -> Span {
-- 
2.43.0


From db483d5ca4e1be963c31c53aff3d632a4551973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:56 +0000
Subject: [PATCH 12/15] fix: no file name for spans of an inline root via
 SyntheticSources

As documented, and as for BeancountSources.
---
 src/sources.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 90791e1..ce97d07 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -597,7 +597,11 @@ impl<'a> SyntheticSources<'a> {
     /// Resolve the span into filename, line number range, and spanned content.
     /// Filename will be present unless the sources were created from an inline string.
     pub fn resolve_span<'s>(&'s self, span: &Span) -> SpannedSource<'s> {
-        resolve_span(*span, &|span| self.get_adjusted_source(span), true)
+        if self.is_synthetic(span) {
+            resolve_span(*span, &|span| self.get_adjusted_source(span), true)
+        } else {
+            self.sources.resolve_span(span)
+        }
     }
 
     pub fn error_source_text<'s, K>(&'s self, error_or_warning: &ErrorOrWarning<K>) -> &'s str
@@ -609,9 +613,12 @@ impl<'a> SyntheticSources<'a> {
         &source_content[byte_span.start..byte_span.end]
     }
 
+    fn is_synthetic(&self, span: &Span) -> bool {
+        span.source >= self.base_id && span.source < self.base_id + self.source_id_strings.len()
+    }
+
     fn get_adjusted_source(&self, span: Span) -> (&str, &str, Span, Span) {
-        if span.source >= self.base_id && span.source < self.base_id + self.source_id_strings.len()
-        {
+        if self.is_synthetic(&span) {
             let source_id_str = self.source_id_strings[span.source - self.base_id].as_str();
 
             let (_, content, content_char_indices) = self.content.get(source_id_str).unwrap();
-- 
2.43.0


From e7363c0618dc68bcd13fe2fcdeb9fe829a349873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:13 +0000
Subject: [PATCH 13/15] fix: keep the declarations before a syntax error at the
 end of a file

When error recovery reached the end of the file without finding another
declaration, all the declarations of that file were discarded, so that an
unreadable file which it includes was not reported.
---
 src/parsers.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index daf3b87..687324b 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -7,7 +7,7 @@ use chumsky::{
     input::BorrowInput,
     prelude::{
         IterParser, Parser, Rich, any_ref, choice, end, extra, group, just, recursive, select_ref,
-        skip_then_retry_until,
+        skip_then_retry_until, via_parser,
     },
 };
 use either::Either;
@@ -45,7 +45,11 @@ pub(crate) fn file<'s, I>(
 where
     I: BorrowInput<'s, Token = Token<'s>, Span = Span_>,
 {
-    declaration(source_path).repeated().collect::<Vec<_>>()
+    declaration(source_path)
+        .repeated()
+        .collect::<Vec<_>>()
+        // if no further declaration can be found, keep those which were
+        .then_ignore(end().recover_with(via_parser(any_ref().repeated())))
 }
 
 /// Matches a [Declaration], and returns with Span.
-- 
2.43.0


From 4528694ee8aa3ed2590225694c102b3be5ea6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:11 +0000
Subject: [PATCH 14/15] fix: list and print tags, links, metadata, currencies
 and option values in source order, not in hash order

---
 src/options.rs |  7 +++----
 src/types.rs   | 37 +++++++++++++++++++++++++------------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/options.rs b/src/options.rs
index e3f1288..f8e2498 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -625,8 +625,7 @@ impl<'a> Options<'a> {
     pub fn inferred_tolerance_defaults<'s>(
         &'s self,
     ) -> impl Iterator<Item = (Option<Currency<'a>>, Decimal)> + 's {
-        self.inferred_tolerance_default
-            .iter()
+        in_source_order(&self.inferred_tolerance_default, |(_, d)| d.1.value)
             .map(|(c, d)| match c {
                 CurrencyOrAny::Currency(c) => (Some(*c), d.0),
                 CurrencyOrAny::Any => (None, d.0),
@@ -644,11 +643,11 @@ impl<'a> Options<'a> {
     }
 
     pub fn documents(&self) -> impl Iterator<Item = &PathBuf> {
-        self.documents.iter().map(|document| document.0)
+        in_source_order(&self.documents, |document| document.1.value).map(|document| document.0)
     }
 
     pub fn operating_currency(&self) -> impl Iterator<Item = &Currency<'a>> {
-        self.operating_currency.iter().map(|cur| cur.0)
+        in_source_order(&self.operating_currency, |cur| cur.1.value).map(|cur| cur.0)
     }
 
     pub fn render_commas(&self) -> Option<&Spanned<bool>> {
diff --git a/src/types.rs b/src/types.rs
index e9aba03..6a2a525 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -3,6 +3,7 @@ use chumsky::{
     extra::ParserExtra,
     input::{Input, MapExtra},
 };
+use itertools::Itertools;
 use rust_decimal::Decimal;
 use std::{
     cmp::max,
@@ -496,6 +497,18 @@ pub struct Span {
     pub end: usize,
 }
 
+/// Iterate in the order of the spans, so as not to depend on the order of a `HashMap` or `HashSet`.
+pub(crate) fn in_source_order<C, F>(items: C, span: F) -> std::vec::IntoIter<C::Item>
+where
+    C: IntoIterator,
+    F: Fn(&C::Item) -> Span,
+{
+    items.into_iter().sorted_by_key(|item| {
+        let Span { source, start, end } = span(item);
+        (source, start, end)
+    })
+}
+
 impl From<&Span_> for Span {
     fn from(value: &Span_) -> Self {
         Span {
@@ -952,7 +965,7 @@ pub struct Open<'a> {
 impl<'a> Open<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
         write!(f, "{} open {}", date, self.account)?;
-        format(f, &self.currencies, plain, ",", Some(" "))?;
+        format(f, self.currencies(), plain, ",", Some(" "))?;
         format(f, &self.booking, double_quoted, " ", Some(" "))?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
@@ -966,7 +979,7 @@ impl<'a> Open<'a> {
 
     /// Field accessor.
     pub fn currencies(&self) -> impl ExactSizeIterator<Item = &Spanned<Currency<'a>>> {
-        self.currencies.iter()
+        in_source_order(&self.currencies, |currency| currency.span)
     }
 
     /// Field accessor.
@@ -1821,7 +1834,7 @@ impl<'a> Metadata<'a> {
     pub fn key_values(
         &self,
     ) -> impl ExactSizeIterator<Item = (&Spanned<Key<'a>>, &Spanned<MetaValue<'a>>)> {
-        self.key_values.iter()
+        in_source_order(&self.key_values, |(key, _)| key.span)
     }
 
     /// Field accessor.
@@ -1842,28 +1855,28 @@ impl<'a> Metadata<'a> {
 
     /// Field accessor.
     pub fn tags(&self) -> impl ExactSizeIterator<Item = &Spanned<Tag<'a>>> {
-        self.tags.iter()
+        in_source_order(&self.tags, |tag| tag.span)
     }
 
     /// Field accessor.
     pub fn links(&self) -> impl ExactSizeIterator<Item = &Spanned<Link<'a>>> {
-        self.links.iter()
+        in_source_order(&self.links, |link| link.span)
     }
 
     pub(crate) fn fmt_tags_links_inline(&self, f: &mut Formatter<'_>) -> fmt::Result {
-        format(f, &self.tags, plain, SPACE, Some(SPACE))?;
-        format(f, &self.links, plain, SPACE, Some(SPACE))
+        format(f, self.tags(), plain, SPACE, Some(SPACE))?;
+        format(f, self.links(), plain, SPACE, Some(SPACE))
     }
 
     pub(crate) fn fmt_tags_links_on_separate_lines(&self, f: &mut Formatter<'_>) -> fmt::Result {
-        format(f, &self.tags, plain, NEWLINE_INDENT, Some(NEWLINE_INDENT))?;
-        format(f, &self.links, plain, NEWLINE_INDENT, Some(NEWLINE_INDENT))
+        format(f, self.tags(), plain, NEWLINE_INDENT, Some(NEWLINE_INDENT))?;
+        format(f, self.links(), plain, NEWLINE_INDENT, Some(NEWLINE_INDENT))
     }
 
     pub(crate) fn fmt_keys_values(&self, f: &mut Formatter<'_>) -> fmt::Result {
         format(
             f,
-            &self.key_values,
+            self.key_values(),
             key_value,
             NEWLINE_INDENT,
             Some(NEWLINE_INDENT),
@@ -1873,8 +1886,8 @@ impl<'a> Metadata<'a> {
 
 impl Display for Metadata<'_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
-        format(f, &self.tags, plain, NEWLINE_INDENT, Some(NEWLINE_INDENT))?;
-        format(f, &self.links, plain, NEWLINE_INDENT, Some(NEWLINE_INDENT))?;
+        format(f, self.tags(), plain, NEWLINE_INDENT, Some(NEWLINE_INDENT))?;
+        format(f, self.links(), plain, NEWLINE_INDENT, Some(NEWLINE_INDENT))?;
         self.fmt_keys_values(f)
     }
 }
-- 
2.43.0


From 64b9f9d723f96fd1ec1de4a208d2894428a0c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 15/15] fix: a repeated include where equal metadata was pushed
 elsewhere is in the same context, as with tags

---
 src/lib.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b13d109..1e07cef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -362,6 +362,22 @@ fn fmt_include_context<'s>(
     format!("{} {}", tags_s, meta_s)
 }
 
+// whether the values are the same, regardless of where they were pushed, as for tags
+fn same_meta_values<'s>(
+    a: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
+    b: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
+) -> bool {
+    a.len() == b.len()
+        && a.iter().all(|(key, values)| {
+            b.get(key).is_some_and(|other_values| {
+                values
+                    .iter()
+                    .map(|(_, value)| value)
+                    .eq(other_values.iter().map(|(_, value)| value))
+            })
+        })
+}
+
 impl<'s> PragmaProcessor<'s> {
     fn new(
         root_path: Option<&Path>,
@@ -633,9 +649,11 @@ impl<'s> PragmaProcessor<'s> {
                                                                 .get(&included)
                                                             {
                                                                 if include_context.tags == self.tags
-                                                                    && include_context
-                                                                        .meta_key_values
-                                                                        == self.meta_key_values
+                                                                    && same_meta_values(
+                                                                        &include_context
+                                                                            .meta_key_values,
+                                                                        &self.meta_key_values,
+                                                                    )
                                                                 {
                                                                     // include context is identical, so the include is harmless
                                                                     // and we ignore it
-- 
2.43.0


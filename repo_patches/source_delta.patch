From 41e34cecbc01cecf135edd4684566cf5d3764a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 01/11] fix: quote the matched prefix of a non-ASCII literal
 without panicking

---
 chewed/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index cd98d64..54d797c 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -30,7 +30,7 @@ pub trait Parser {
             if let Some(got) = self.peek() {
                 if got == exp {
                     self.next();
-                    count += 1
+                    count += exp.len_utf8()
                 } else {
                     let mut out = String::from(&s[..count]);
                     out.push(got);
-- 
2.43.0


From 42a617b179108224670039d416a8ce6d3802ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 02/11] fix: do not move the position when reading at the end
 of input

---
 chewed/src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 54d797c..05d2a14 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -159,6 +159,7 @@ impl<I: ?Sized + Iterator<Item = char>> Parser for IterWrapper<I> {
                 }
                 Some('\x0D')
             }
+            None => None,
             x => {
                 self.pos.col += 1;
                 x
-- 
2.43.0


From 59371fb78079803bc0fb0a12e53c9e7ca17c9fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 03/11] fix: report a disallowed character at its own position

---
 chewed/src/parse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 05d2a14..858624d 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -53,9 +53,12 @@ pub trait Parser {
 
     fn take_chars_from(&mut self, set: &'static [char], buffer: &mut [char]) -> Result<(), TakeError> {
         for pos in buffer {
-            match self.next() {
+            match self.peek() {
                 None => return Err(TakeError::EndOfStream(self.pos())),
-                Some(c) if set.contains(&c) => *pos = c,
+                Some(c) if set.contains(&c) => {
+                    self.next();
+                    *pos = c
+                }
                 Some(c) => return Err(TakeError::BadBranch(self.pos(), c, set))
             }
         }
-- 
2.43.0


From f60988c7377020ff9af9c8b4dc100ce17982c105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 04/11] fix: report a list item's own error instead of looking
 for a separator

---
 chewed/src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 858624d..54c75c2 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -104,7 +104,10 @@ impl<P: Parser + ?Sized, F: FnMut(&mut P) -> Result<R, TakeError>, R> Iterator f
         if c == self.stop {
             None
         } else {
-            let res = (self.parse)(self.iter).map(Some).transpose()?;
+            let res = match (self.parse)(self.iter) {
+                Ok(item) => Ok(item),
+                Err(e) => return Some(Err(e)),
+            };
 
             match self.iter.peek() {
                 None => Some(Err(TakeError::EndOfStream(self.iter.pos()))),
-- 
2.43.0


From 5ed72e9e37c4d13f4cee7ecae1486e64d4cf9650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 05/11] fix: ignore raw prefixes when comparing two
 identifiers, as hashing does

---
 src/chomp/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index 450b6e9..c225e9f 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -61,7 +61,7 @@ impl SnakeCase for Content {
 impl PartialEq for Content {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
-            (Self::Spanned(me), Self::Spanned(them)) => me == them,
+            (Self::Spanned(me), Self::Spanned(them)) => me.unraw() == them.unraw(),
             (Self::Spanned(me), Self::Spanless(them)) => me.unraw() == them,
             (Self::Spanless(me), Self::Spanned(them)) => them.unraw() == me,
             (Self::Spanless(me), Self::Spanless(them)) => me == them,
-- 
2.43.0


From 443639c73633700f5f03f8a3792dfbc6161a3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 06/11] fix: reject fixed points of functions that do not take
 exactly one argument

---
 src/chomp/typed/infer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/chomp/typed/infer.rs b/src/chomp/typed/infer.rs
index bc2baea..baf8816 100644
--- a/src/chomp/typed/infer.rs
+++ b/src/chomp/typed/infer.rs
@@ -119,12 +119,13 @@ impl Folder for TypeInfer<'_> {
 
     fn fold_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Out {
         let mut ty = Type::default();
-        let body = if let Expression::Lambda(l) = fix.inner.expr {
-            let mut body = *l.inner;
-            body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
-            body
-        } else {
-            return Err(TypeError::ExpectedLambda { span, fix });
+        let body = match fix.inner.expr {
+            Expression::Lambda(l) if l.args.len() == 1 => {
+                let mut body = *l.inner;
+                body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
+                body
+            }
+            _ => return Err(TypeError::ExpectedLambda { span, fix }),
         };
 
         loop {
-- 
2.43.0


From a91d0bd6ea17dbb3eb2a6f782d53a19f3947f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 07/11] fix: accumulate the digits of a JSON unicode escape

---
 chomp-bench/src/json/mod.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2279010..b5fafe3 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -119,22 +119,22 @@ impl Parse for Value {
             let mut out = 0;
             for c in &chars {
                 match c {
-                    '0' => out *= 16,
-                    '1' => out *= 16 + 1,
-                    '2' => out *= 16 + 2,
-                    '3' => out *= 16 + 3,
-                    '4' => out *= 16 + 4,
-                    '5' => out *= 16 + 5,
-                    '6' => out *= 16 + 6,
-                    '7' => out *= 16 + 7,
-                    '8' => out *= 16 + 8,
-                    '9' => out *= 16 + 9,
-                    'a' | 'A' => out *= 16 + 10,
-                    'b' | 'B' => out *= 16 + 11,
-                    'c' | 'C' => out *= 16 + 12,
-                    'd' | 'D' => out *= 16 + 13,
-                    'e' | 'E' => out *= 16 + 14,
-                    'f' | 'F' => out *= 16 + 15,
+                    '0' => out = out * 16,
+                    '1' => out = out * 16 + 1,
+                    '2' => out = out * 16 + 2,
+                    '3' => out = out * 16 + 3,
+                    '4' => out = out * 16 + 4,
+                    '5' => out = out * 16 + 5,
+                    '6' => out = out * 16 + 6,
+                    '7' => out = out * 16 + 7,
+                    '8' => out = out * 16 + 8,
+                    '9' => out = out * 16 + 9,
+                    'a' | 'A' => out = out * 16 + 10,
+                    'b' | 'B' => out = out * 16 + 11,
+                    'c' | 'C' => out = out * 16 + 12,
+                    'd' | 'D' => out = out * 16 + 13,
+                    'e' | 'E' => out = out * 16 + 14,
+                    'f' | 'F' => out = out * 16 + 15,
                     _ => unreachable!(),
                 };
             }
-- 
2.43.0


From 9abfcfc001f396ab94ec253362e062c3dc02980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 08/11] fix: share a fix point only under the same outer fix
 points

---
 src/chomp/typed/mod.rs | 33 ++++++++++++++++++++++++++++++++-
 src/lower/mod.rs       | 15 ++++++++++++---
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/chomp/typed/mod.rs b/src/chomp/typed/mod.rs
index f1f6967..f570514 100644
--- a/src/chomp/typed/mod.rs
+++ b/src/chomp/typed/mod.rs
@@ -1,4 +1,4 @@
-use std::hash;
+use std::{collections::BTreeSet, hash};
 
 use proc_macro2::Span;
 
@@ -220,6 +220,37 @@ pub struct TypedExpression {
     pub span: Span,
 }
 
+impl TypedExpression {
+    /// The De Bruijn indices of the variables that are free in `self`.
+    pub fn free_variables(&self) -> BTreeSet<usize> {
+        let mut free = BTreeSet::new();
+        self.add_free_variables(0, &mut free);
+        free
+    }
+
+    fn add_free_variables(&self, depth: usize, free: &mut BTreeSet<usize>) {
+        match &self.inner {
+            RawTypedExpression::Epsilon(_) | RawTypedExpression::Literal(_) => {}
+            RawTypedExpression::Cat(c) => {
+                for term in &c.terms {
+                    term.add_free_variables(depth, free);
+                }
+            }
+            RawTypedExpression::Alt(a) => {
+                for term in &a.terms {
+                    term.add_free_variables(depth, free);
+                }
+            }
+            RawTypedExpression::Fix(f) => f.inner.add_free_variables(depth + 1, free),
+            RawTypedExpression::Variable(v) => {
+                if v.index() >= depth {
+                    free.insert(v.index() - depth);
+                }
+            }
+        }
+    }
+}
+
 impl PartialEq for TypedExpression {
     fn eq(&self, other: &Self) -> bool {
         self.inner == other.inner && self.name == other.name
diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index e74f86a..fd07e66 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -33,7 +33,7 @@ pub struct RustBackend {
     lit_map: HashMap<String, usize>,
     cat_map: HashMap<Vec<usize>, usize>,
     alt_map: HashMap<Vec<usize>, usize>,
-    fix_map: HashMap<TypedExpression, usize>,
+    fix_map: HashMap<(TypedExpression, Vec<usize>), usize>, // Key includes IDs of free fix points
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
     can_char: BTreeSet<usize>,
@@ -380,12 +380,21 @@ impl Backend for RustBackend {
     fn gen_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Id {
         let inner = fix.unwrap();
 
-        if let Some(&id) = self.fix_map.get(&inner) {
+        // Variable 0 is bound by this fix point. The others are bound by the context.
+        let mut scope = Vec::new();
+        for index in inner.free_variables() {
+            if index > 0 {
+                scope.push(self.context[self.context.len() - index]);
+            }
+        }
+
+        let key = (inner.clone(), scope);
+        if let Some(&id) = self.fix_map.get(&key) {
             return id;
         }
 
         let (id, name) = self.new_type_name("Fix", name, span);
-        self.fix_map.insert(inner.clone(), id);
+        self.fix_map.insert(key, id);
 
         self.data.push(Ty {
             name: TokenTree::from(name.clone()).into(),
-- 
2.43.0


From e68fe4b85d19b0aeedb1e3a95c51b0811fbd0514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 09/11] fix: never give two generated types, fields or variants
 the same name

---
 src/lower/mod.rs | 61 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index fd07e66..4c93f8a 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -1,12 +1,12 @@
 use std::{
-    collections::{BTreeSet, HashMap},
+    collections::{BTreeSet, HashMap, HashSet},
     convert::TryInto,
 };
 
 use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned};
-use syn::{Index, LitStr};
+use syn::{ext::IdentExt, Index, LitStr};
 
 use crate::chomp::{
     ast,
@@ -36,6 +36,7 @@ pub struct RustBackend {
     fix_map: HashMap<(TypedExpression, Vec<usize>), usize>, // Key includes IDs of free fix points
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
+    used_names: HashSet<Ident>,
     can_char: BTreeSet<usize>,
     context: Vec<usize>,
 }
@@ -43,16 +44,38 @@ pub struct RustBackend {
 type NamedSpan = (Option<Name>, Span);
 
 impl RustBackend {
+    /// Numbers `base`, starting with `count`, to get a name not yet in `used`.
+    fn unused_name(
+        used: &mut HashSet<Ident>,
+        base: &str,
+        mut count: usize,
+        span: Span,
+    ) -> (Ident, usize) {
+        loop {
+            let name = format_ident!("{}{}", base, count, span = span);
+            if used.insert(name.clone()) {
+                return (name, count);
+            }
+            count += 1;
+        }
+    }
+
     fn new_type_name(&mut self, prefix: &str, name: Option<Name>, span: Span) -> (usize, Ident) {
         let id = self.data.len();
 
         match name {
-            None => (id, format_ident!("{}{}", prefix, id + 1, span = span)),
+            None => {
+                let (name, _) = Self::unused_name(&mut self.used_names, prefix, id + 1, span);
+                (id, name)
+            }
             Some(name) => {
                 let name: Ident = name.to_camel_case().into();
                 let count = self.name_map.entry(name.clone()).or_insert(0);
-                *count += 1;
-                (id, format_ident!("{}{}", name, count))
+                let base = name.to_string();
+                let (name, used) =
+                    Self::unused_name(&mut self.used_names, &base, *count + 1, name.span());
+                *count = used;
+                (id, name)
             }
         }
     }
@@ -101,15 +124,19 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used_names = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => Self::unused_name(&mut used_names, default, index + 1, span).0,
                 Some(name) => {
                     let name: Ident = name.to_snake_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
-                    *count += 1;
-                    format_ident!("{}{}", name, count)
+                    let base = name.to_string();
+                    let (name, used) =
+                        Self::unused_name(&mut used_names, &base, *count + 1, name.span());
+                    *count = used;
+                    name
                 }
             })
     }
@@ -119,15 +146,19 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used_names = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => Self::unused_name(&mut used_names, default, index + 1, span).0,
                 Some(name) => {
                     let name: Ident = name.to_camel_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
-                    *count += 1;
-                    format_ident!("{}{}", name, count)
+                    let base = name.to_string();
+                    let (name, used) =
+                        Self::unused_name(&mut used_names, &base, *count + 1, name.span());
+                    *count = used;
+                    name
                 }
             })
     }
@@ -144,6 +175,7 @@ impl Default for RustBackend {
             fix_map: HashMap::new(),
             var_map: HashMap::new(),
             name_map: HashMap::new(),
+            used_names: HashSet::new(),
             can_char: BTreeSet::new(),
             context: Vec::new(),
         }
@@ -433,7 +465,7 @@ impl Backend for RustBackend {
         id
     }
 
-    fn emit_code(self, name: Option<Name>, span: Span, id: Self::Id) -> Self::Code {
+    fn emit_code(mut self, name: Option<Name>, span: Span, id: Self::Id) -> Self::Code {
         let mut tokens = quote_spanned! {span=>
             use ::chewed::*;
         };
@@ -455,9 +487,10 @@ impl Backend for RustBackend {
         let root_name = self.data[id].name.clone();
 
         tokens.extend(if let Some(name) = name {
-            let name = name.into();
+            let name: Ident = name.into();
             let count = self.name_map.get(&name).copied().unwrap_or_default() + 1;
-            let name = format_ident!("{}{}", name, count);
+            let base = name.unraw().to_string();
+            let (name, _) = Self::unused_name(&mut self.used_names, &base, count, name.span());
             quote_spanned! {span=>
                 pub type #name = #root_name;
             }
-- 
2.43.0


From a60f060bb61aa1218331c2dc7dabfdedda3d4856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 10/11] fix: keep case-converted names valid identifiers

---
 src/chomp/name.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index c225e9f..b9a503d 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -32,15 +32,24 @@ impl From<Content> for Ident {
     }
 }
 
+/// Changing case can strip leading underscores, so the result may not start an identifier.
+fn make_ident(name: String) -> String {
+    if name.starts_with(|c: char| c == '_' || c.is_alphabetic()) {
+        name
+    } else {
+        format!("_{}", name)
+    }
+}
+
 impl CamelCase for Content {
     fn to_camel_case(&self) -> Self::Owned {
         match self {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_camel_case(), span).into()
+                Ident::new(&make_ident(name.to_camel_case()), span).into()
             }
-            Self::Spanless(name) => name.to_camel_case().into(),
+            Self::Spanless(name) => make_ident(name.to_camel_case()).into(),
         }
     }
 }
@@ -51,9 +60,9 @@ impl SnakeCase for Content {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_snake_case(), span).into()
+                Ident::new(&make_ident(name.to_snake_case()), span).into()
             }
-            Self::Spanless(name) => name.to_snake_case().into(),
+            Self::Spanless(name) => make_ident(name.to_snake_case()).into(),
         }
     }
 }
-- 
2.43.0


From 5d6a7cec467198beb0e809f05cb58fe348ce356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 11/11] fix: report an error inside parentheses where it is

---
 chomp-bench/src/arith/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chomp-bench/src/arith/mod.rs b/chomp-bench/src/arith/mod.rs
index 38556fe..f3e9221 100644
--- a/chomp-bench/src/arith/mod.rs
+++ b/chomp-bench/src/arith/mod.rs
@@ -73,9 +73,9 @@ pub fn take_term<P: chewed::Parser + ?Sized>(input: &mut P) -> Result<i64, TakeE
         Some('(') => {
             input.consume_str("(")?;
             input.skip_while(|c| c == ' ');
-            let o = take_expr(input);
+            let o = take_expr(input)?;
             input.consume_str(")")?;
-            o
+            Ok(o)
         }
         Some(c) => Err(TakeError::BadBranch(
             input.pos(),
-- 
2.43.0


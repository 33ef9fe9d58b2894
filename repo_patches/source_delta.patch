From 1e43836a3581f3cb0a2988d6efd634ce5dd99cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 01/21] fix: report an undefined tag handle instead of
 panicking

---
 src/parser/base/grammar.rs | 5 ++++-
 src/parser/mod.rs          | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index e056d6b..efc4ad0 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -295,7 +295,10 @@ impl Parser<'_> {
             let prefix = if !tag.is_empty() {
                 if p.sym(b'!').is_ok() {
                     // Tag prefix variable
-                    p.tag[&tag].clone()
+                    match p.tag.get(&tag) {
+                        Some(prefix) => prefix.clone(),
+                        None => return p.err("tag handle"),
+                    }
                 } else {
                     String::new()
                 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index de580ea..4018a9b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -17,6 +17,7 @@
 //! + document splitter: Error about the document splitter `---` / `...`.
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
+//! + tag handle: Tag handle `!h!` is used without a `%TAG` directive.
 //!
 //! ## Structure
 //!
@@ -234,7 +235,7 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let tag = self.tag().unwrap_or_default();
+        let tag = self.tag().or_else(|e| e.or(|| Ok(String::new())))?;
         if !tag.is_empty() {
             self.bound()?;
         }
-- 
2.43.0


From cc94899d30b03e2c4401088f490034d0891c8106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 02/21] fix: report an unclosed quoted string instead of
 looping forever

---
 src/parser/base/grammar.rs |  2 ++
 src/parser/mod.rs          | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index efc4ad0..04d07b2 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -118,6 +118,8 @@ impl Parser<'_> {
                     v.push('\\');
                 } else if p.sym(sym).is_ok() {
                     break;
+                } else {
+                    return p.err("quoted string");
                 }
             }
             Ok(v)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4018a9b..eb63e13 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -21,6 +21,8 @@
 //!
 //! ## Structure
 //!
+//! + quoted string: Quoted string is not closed.
+//!
 //! ### Flow Array
 //!
 //! + flow sequence item: Item in `[]` bracket is invalid.
@@ -281,9 +283,9 @@ impl<R: Repr> Loader<'_, R> {
             } else {
                 return self.err("anchor referenced before definition");
             }
-        } else if let Ok(s) = self.string_quoted(b'\'', b"''") {
+        } else if let Some(s) = optional(self.string_quoted(b'\'', b"''"))? {
             R::new_rc(Yaml::Str(s))
-        } else if let Ok(s) = self.string_quoted(b'"', b"\\\"") {
+        } else if let Some(s) = optional(self.string_quoted(b'"', b"\\\""))? {
             R::new_rc(Yaml::Str(Parser::escape(&s)))
         } else if let Ok(s) = self.string_plain(level, flow) {
             R::new_rc(match s.as_str() {
@@ -495,6 +497,11 @@ impl<R: Repr> DerefMut for Loader<'_, R> {
     }
 }
 
+/// Turn a mismatch into [`None`], the other errors are kept.
+fn optional<T>(ret: PResult<T>) -> PResult<Option<T>> {
+    ret.map(Some).or_else(|e| e.or(|| Ok(None)))
+}
+
 /// Parse non-cyclic YAML document into [`alloc::rc::Rc`] or
 /// [`alloc::sync::Arc`] data holder. Return an sequence of nodes and insert the
 /// anchors automatically.
-- 
2.43.0


From b1781e5f5baacc0571e60cc5e2823928c3d887e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 03/21] fix: an escaped backslash does not escape the closing
 quote

---
 src/parser/base/grammar.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 04d07b2..9b9ea38 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -114,6 +114,9 @@ impl Parser<'_> {
                     }
                     // Remove leading space
                     p.ws(TakeOpt::More(0))?;
+                } else if sym == b'"' && p.sym_seq(b"\\\\").is_ok() {
+                    // Escaped backslash, never escapes the next character
+                    v.push_str("\\\\");
                 } else if p.sym(b'\\').is_ok() {
                     v.push('\\');
                 } else if p.sym(sym).is_ok() {
-- 
2.43.0


From c037a9e39a09de6065af3f988f0e24ee96836bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 04/21] fix: plain scalar loops forever when the indentation is
 empty

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 9b9ea38..cc6a005 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -161,7 +161,7 @@ impl Parser<'_> {
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
                     is_leading = false;
-                } else if p.ind(level).is_err() {
+                } else if !matches!(p.count(|p| p.ind(level)), Ok(1..)) {
                     if let Ok(t) = p.gap(true) {
                         if t == 1 {
                             v.push(' ');
-- 
2.43.0


From 9ea7eda425cf88af26b7985aa45d687fa3f82197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 05/21] fix: node comparison panics on wide integers, and equal
 numbers hash apart

---
 src/yaml.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/yaml.rs b/src/yaml.rs
index 9faffee..1919736 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -53,6 +53,21 @@ pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
     s.parse()
 }
 
+/// The value of the integer, or its text if it is out of range.
+fn int_key(s: &str) -> Result<i64, &str> {
+    to_i64(s).map_err(|_| s)
+}
+
+/// The value of the float (NaN is equal to itself), or its text if invalid.
+fn float_key(s: &str) -> Result<u64, &str> {
+    match to_f64(s) {
+        Ok(n) if n.is_nan() => Ok(f64::NAN.to_bits()),
+        // Positive and negative zero are the same
+        Ok(n) => Ok((n + 0.).to_bits()),
+        Err(_) => Err(s),
+    }
+}
+
 /// YAML data types, but it is recommended to use [`Node`] for shorten code.
 ///
 /// This type can convert from primitive types by `From` and `Into` traits.
@@ -139,11 +154,11 @@ impl<R: Repr> Hash for Yaml<R> {
             }
             Self::Int(s) => {
                 state.write_u8(3);
-                s.hash(state)
+                int_key(s).hash(state)
             }
             Self::Float(s) => {
                 state.write_u8(4);
-                s.hash(state)
+                float_key(s).hash(state)
             }
             Self::Str(s) => {
                 state.write_u8(5);
@@ -170,16 +185,8 @@ impl<R: Repr> PartialEq for Yaml<R> {
         match (self, other) {
             (Self::Null, Self::Null) => true,
             (Self::Bool(b1), Self::Bool(b2)) => b1 == b2,
-            (Self::Int(s1), Self::Int(s2)) => to_i64(s1).unwrap() == to_i64(s2).unwrap(),
-            (Self::Float(s1), Self::Float(s2)) => {
-                let f1 = to_f64(s1).unwrap();
-                let f2 = to_f64(s2).unwrap();
-                if f1.is_nan() && f2.is_nan() {
-                    true
-                } else {
-                    f1 == f2
-                }
-            }
+            (Self::Int(s1), Self::Int(s2)) => int_key(s1) == int_key(s2),
+            (Self::Float(s1), Self::Float(s2)) => float_key(s1) == float_key(s2),
             (Self::Str(s1), Self::Str(s2)) => s1 == s2,
             (Self::Seq(s1), Self::Seq(s2)) => s1 == s2,
             (Self::Map(m1), Self::Map(m2)) => m1 == m2,
-- 
2.43.0


From 6f8dc3c5740b541333f7e14e926ad78941a50030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 06/21] fix: octal and hexadecimal integers accept exactly the
 digits of their radix

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index cc6a005..bb0ef8a 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -48,7 +48,7 @@ impl Parser<'_> {
     }
 
     fn ascii_digit(i: u8) -> impl Fn(&u8) -> bool + 'static {
-        move |c| c.is_ascii_digit() || (*c > b'a' && *c < b'a' + i) || (*c > b'A' && *c < b'A' + i)
+        move |c| char::from(*c).is_digit(i.into())
     }
 
     /// Match float.
-- 
2.43.0


From 428872ee3bf81b5556c20f3f09dc558fbe66677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 07/21] fix: deserialize a character outside of ASCII

---
 src/serde/de.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb20941..e349d64 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -365,18 +365,11 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Str(s) => {
-                if s.len() == 1 {
-                    visitor.visit_char(s.chars().next().unwrap())
-                } else {
-                    Err(unexpected(&self, visitor))
-                }
-            }
-            Yaml::Int(n) => {
-                if n.len() == 1 {
-                    visitor.visit_char(n.chars().next().unwrap())
-                } else {
-                    Err(unexpected(&self, visitor))
+            Yaml::Str(s) | Yaml::Int(s) => {
+                let mut chars = s.chars();
+                match (chars.next(), chars.next()) {
+                    (Some(c), None) => visitor.visit_char(c),
+                    _ => Err(unexpected(&self, visitor)),
                 }
             }
             _ => Err(unexpected(&self, visitor)),
-- 
2.43.0


From 7d14304d25fae9be23ae900c25c34968ec06dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 08/21] fix: serde integers are range checked instead of
 truncated or panicking

---
 src/serde/de.rs       | 95 ++++++++++++++++++++++++++++++++++---------
 src/serde/ser_node.rs | 21 ++++++++--
 src/yaml.rs           | 13 ++++++
 3 files changed, 106 insertions(+), 23 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index e349d64..0cabc62 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -2,7 +2,7 @@ use super::SerdeError;
 use crate::{
     parse,
     repr::{RcRepr, Repr},
-    to_f64, to_i64, Map, Node, Seq, Yaml,
+    to_f64, to_int, Map, Node, Seq, Yaml,
 };
 use alloc::{format, string::ToString, vec::Vec};
 use core::marker::PhantomData;
@@ -27,6 +27,23 @@ macro_rules! impl_visitor {
     };
 }
 
+macro_rules! impl_int_deserializer {
+    ($(fn $method:ident => $visit:ident)+) => {
+        $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+        where
+            V: Visitor<'a>,
+        {
+            match self.yaml() {
+                Yaml::Int(n) => match to_int(n) {
+                    Some(n) => visitor.$visit(n),
+                    None => Err(unexpected(&self, visitor)),
+                },
+                _ => Err(unexpected(&self, visitor)),
+            }
+        })+
+    };
+}
+
 macro_rules! impl_deserializer {
     ($(fn $method:ident($ty:ident) => $visit:ident($n:ident => $value:expr))+) => {
         $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -90,6 +107,8 @@ impl<'a, R: Repr> Visitor<'a> for NodeVisitor<R> {
         fn visit_bool(bool)
         fn visit_i64(i64)
         fn visit_u64(u64)
+        fn visit_i128(i128)
+        fn visit_u128(u128)
         fn visit_f64(f64)
         fn visit_str(&str)
         fn visit_none
@@ -279,8 +298,23 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         match self.yaml() {
             Yaml::Null => visitor.visit_unit(),
             Yaml::Bool(b) => visitor.visit_bool(*b),
-            Yaml::Int(n) => visitor.visit_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => {
+                if let Some(n) = to_int(n) {
+                    visitor.visit_i64(n)
+                } else if let Some(n) = to_int(n) {
+                    visitor.visit_u64(n)
+                } else if let Some(n) = to_int(n) {
+                    visitor.visit_i128(n)
+                } else if let Some(n) = to_int(n) {
+                    visitor.visit_u128(n)
+                } else {
+                    Err(unexpected(&self, visitor))
+                }
+            }
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => visitor.visit_f64(n),
+                Err(_) => Err(unexpected(&self, visitor)),
+            },
             Yaml::Str(s) => visitor.visit_str(s),
             Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
@@ -290,23 +324,26 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
 
     impl_deserializer! {
         fn deserialize_bool(Bool) => visit_bool(v => *v)
-        fn deserialize_i8(Int) => visit_i8(n => to_i64(n).unwrap() as i8)
-        fn deserialize_i16(Int) => visit_i16(n => to_i64(n).unwrap() as i16)
-        fn deserialize_i32(Int) => visit_i32(n => to_i64(n).unwrap() as i32)
-        fn deserialize_i64(Int) => visit_i64(n => to_i64(n).unwrap())
-        fn deserialize_u8(Int) => visit_u8(n => to_i64(n).unwrap() as u8)
-        fn deserialize_u16(Int) => visit_u16(n => to_i64(n).unwrap() as u16)
-        fn deserialize_u32(Int) => visit_u32(n => to_i64(n).unwrap() as u32)
-        fn deserialize_u64(Int) => visit_u64(n => to_i64(n).unwrap() as u64)
         fn deserialize_seq(Seq) => visit_seq(a => SeqVisitor::from(a.clone()))
         fn deserialize_map(Map) => visit_map(m => MapVisitor::from(m.clone()))
         fn deserialize_identifier(Str) => visit_str(s => s)
     }
 
+    impl_int_deserializer! {
+        fn deserialize_i8 => visit_i8
+        fn deserialize_i16 => visit_i16
+        fn deserialize_i32 => visit_i32
+        fn deserialize_i64 => visit_i64
+        fn deserialize_u8 => visit_u8
+        fn deserialize_u16 => visit_u16
+        fn deserialize_u32 => visit_u32
+        fn deserialize_u64 => visit_u64
+    }
+
     serde_if_integer128! {
-        impl_deserializer! {
-            fn deserialize_i128(Int) => visit_i128(n => to_i64(n).unwrap() as i128)
-            fn deserialize_u128(Int) => visit_u128(n => to_i64(n).unwrap() as u128)
+        impl_int_deserializer! {
+            fn deserialize_i128 => visit_i128
+            fn deserialize_u128 => visit_u128
         }
     }
 
@@ -343,8 +380,14 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f32(to_f64(n).unwrap() as f32),
-            Yaml::Int(n) => visitor.visit_f32(to_i64(n).unwrap() as f32),
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => visitor.visit_f32(n as f32),
+                Err(_) => Err(unexpected(&self, visitor)),
+            },
+            Yaml::Int(n) => match to_int::<i128>(n) {
+                Some(n) => visitor.visit_f32(n as f32),
+                None => Err(unexpected(&self, visitor)),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -354,8 +397,14 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
-            Yaml::Int(n) => visitor.visit_f64(to_i64(n).unwrap() as f64),
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => visitor.visit_f64(n),
+                Err(_) => Err(unexpected(&self, visitor)),
+            },
+            Yaml::Int(n) => match to_int::<i128>(n) {
+                Some(n) => visitor.visit_f64(n as f64),
+                None => Err(unexpected(&self, visitor)),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -511,8 +560,14 @@ fn unexpected<R: Repr>(node: &Node<R>, exp: impl Expected) -> SerdeError {
     let ty = match node.yaml() {
         Yaml::Null => Unexpected::Unit,
         Yaml::Bool(b) => Unexpected::Bool(*b),
-        Yaml::Int(n) => Unexpected::Signed(to_i64(n).unwrap()),
-        Yaml::Float(n) => Unexpected::Float(to_f64(n).unwrap()),
+        Yaml::Int(n) => match to_int(n) {
+            Some(n) => Unexpected::Signed(n),
+            None => Unexpected::Other(n),
+        },
+        Yaml::Float(n) => match to_f64(n) {
+            Ok(n) => Unexpected::Float(n),
+            Err(_) => Unexpected::Other(n),
+        },
         Yaml::Str(s) => Unexpected::Str(s),
         Yaml::Seq(_) => Unexpected::Seq,
         Yaml::Map(_) => Unexpected::Map,
diff --git a/src/serde/ser_node.rs b/src/serde/ser_node.rs
index af2255f..0e96fce 100644
--- a/src/serde/ser_node.rs
+++ b/src/serde/ser_node.rs
@@ -1,4 +1,4 @@
-use crate::{repr::Repr, to_f64, to_i64, Node, Yaml};
+use crate::{repr::Repr, to_f64, to_int, Node, Yaml};
 use alloc::format;
 use serde::{
     ser::{Error as _, SerializeMap as _},
@@ -13,8 +13,23 @@ impl<R: Repr> Serialize for Node<R> {
         match self.yaml() {
             Yaml::Null => serializer.serialize_unit(),
             Yaml::Bool(b) => serializer.serialize_bool(*b),
-            Yaml::Int(n) => serializer.serialize_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => serializer.serialize_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => {
+                if let Some(n) = to_int(n) {
+                    serializer.serialize_i64(n)
+                } else if let Some(n) = to_int(n) {
+                    serializer.serialize_u64(n)
+                } else if let Some(n) = to_int(n) {
+                    serializer.serialize_i128(n)
+                } else if let Some(n) = to_int(n) {
+                    serializer.serialize_u128(n)
+                } else {
+                    Err(S::Error::custom(format!("integer {n}")))
+                }
+            }
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => serializer.serialize_f64(n),
+                Err(_) => Err(S::Error::custom(format!("float {n}"))),
+            },
             Yaml::Str(s) => serializer.serialize_str(s),
             Yaml::Seq(v) => v.serialize(serializer),
             Yaml::Map(m) => {
diff --git a/src/yaml.rs b/src/yaml.rs
index 1919736..28b3f34 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -49,6 +49,19 @@ pub(crate) fn to_i64(s: &str) -> Result<i64, core::num::ParseIntError> {
     }
 }
 
+/// Same as [`to_i64`], for any integer type.
+#[cfg(feature = "serde")]
+pub(crate) fn to_int<T: TryFrom<i128> + core::str::FromStr>(s: &str) -> Option<T> {
+    let n = if s.contains("0x") {
+        i128::from_str_radix(&s.replace("0x", ""), 16)
+    } else if s.contains("0o") {
+        i128::from_str_radix(&s.replace("0o", ""), 8)
+    } else {
+        return s.parse().ok();
+    };
+    n.ok().and_then(|n| n.try_into().ok())
+}
+
 pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
     s.parse()
 }
-- 
2.43.0


From d76e4e1fb542204aa61f86099bcc7ca8c5ebbc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 09/21] fix: dump empty sequence and map, instead of panicking
 or turning into null

---
 src/dumper.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e007647..493dac6 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -91,6 +91,8 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     doc += s;
                 }
             }
+            Yaml::Seq(v) if v.is_empty() => doc += "[]",
+            Yaml::Map(m) if m.is_empty() => doc += "{}",
             Yaml::Seq(v) => {
                 let mut buf = NL.to_string();
                 for (i, node) in v.iter().enumerate() {
@@ -113,7 +115,7 @@ impl<'a, R: Repr> Dumper<'a, R> {
                         buf += &ind;
                     }
                     let s = self.part(k, Root::Map, self.level + 1);
-                    if matches!(k.yaml(), Yaml::Map(_) | Yaml::Seq(_)) {
+                    if is_block(k) {
                         let pre_ind = "  ".repeat(self.level + 1);
                         write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
                     } else {
@@ -121,12 +123,13 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     };
                     buf += ":";
                     buf += &match v.yaml() {
-                        Yaml::Map(_) => self.part(v, Root::Map, self.level + 1),
+                        _ if !is_block(v) => {
+                            format!(" {}", self.part(v, Root::Map, self.level + 1))
+                        }
                         Yaml::Seq(_) if self.root == Root::Array && i == 0 => {
                             self.part(v, Root::Map, self.level)
                         }
-                        Yaml::Seq(_) => self.part(v, Root::Map, self.level + 1),
-                        _ => format!(" {}", self.part(v, Root::Map, self.level + 1)),
+                        _ => self.part(v, Root::Map, self.level + 1),
                     };
                     buf += NL;
                 }
@@ -139,6 +142,15 @@ impl<'a, R: Repr> Dumper<'a, R> {
     }
 }
 
+/// Check the node is dumped as a block collection.
+fn is_block<R: Repr>(node: &Node<R>) -> bool {
+    match node.yaml() {
+        Yaml::Seq(v) => !v.is_empty(),
+        Yaml::Map(m) => !m.is_empty(),
+        _ => false,
+    }
+}
+
 /// Dump the YAML data in to block format.
 ///
 /// Dumper will use plain string when the string is none-wrapped,
-- 
2.43.0


From e1fbf650256956ad83fa91740e1c21ecb5c0dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 10/21] fix: dump strings in a form which is read back as the
 same string

---
 src/dumper.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 493dac6..665ef4f 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -80,12 +80,9 @@ impl<'a, R: Repr> Dumper<'a, R> {
                         .collect::<Vec<_>>()
                         .join(NL);
                     write!(doc, "|{NL}{ind}{}", s.trim()).unwrap();
-                } else if parser::Parser::new(s.as_bytes())
-                    .string_plain(0, false)
-                    .is_err()
-                {
+                } else if !is_plain::<R>(s) {
                     // Literal string, not plain string
-                    write!(doc, "{s:?}").unwrap();
+                    doc += &quote(s);
                 } else {
                     // Single line string
                     doc += s;
@@ -142,6 +139,35 @@ impl<'a, R: Repr> Dumper<'a, R> {
     }
 }
 
+/// Check the plain string is read back as the same string, at the document root
+/// and in the collections.
+fn is_plain<R: Repr>(s: &str) -> bool {
+    let reads = |doc: String, node: Node<R>| match parse(&doc) {
+        Ok(root) => root == [node],
+        Err(_) => false,
+    };
+    reads(format!("{s}\n"), s.into()) && reads(format!("- {s}\n"), node!(@[s]))
+}
+
+/// Quote the string with the escapes of [`parser::Parser::escape`].
+fn quote(s: &str) -> String {
+    let mut doc = String::from('"');
+    for c in s.chars() {
+        match c {
+            '\\' => doc += "\\\\",
+            '"' => doc += "\\\"",
+            '\n' => doc += "\\n",
+            '\r' => doc += "\\r",
+            '\t' => doc += "\\t",
+            '\x08' => doc += "\\b",
+            '\x0C' => doc += "\\f",
+            c => doc.push(c),
+        }
+    }
+    doc.push('"');
+    doc
+}
+
 /// Check the node is dumped as a block collection.
 fn is_block<R: Repr>(node: &Node<R>) -> bool {
     match node.yaml() {
-- 
2.43.0


From 8d3a326a8555e084e80277c98f7849c5530740ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 11/21] fix: dump floats in a form which is read back as the
 same float

---
 src/dumper.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dumper.rs b/src/dumper.rs
index 665ef4f..af43097 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -64,6 +64,13 @@ impl<'a, R: Repr> Dumper<'a, R> {
         match &self.node.yaml() {
             Yaml::Null => doc += "null",
             Yaml::Bool(b) => write!(doc, "{b}").unwrap(),
+            Yaml::Float(n) if n == "NaN" => doc += ".nan",
+            Yaml::Float(n) if n == "inf" => doc += ".inf",
+            Yaml::Float(n) if n == "-inf" => doc += "-.inf",
+            // Keep the type if there is no fraction
+            Yaml::Float(n) if n.bytes().all(|c| c == b'-' || c.is_ascii_digit()) => {
+                write!(doc, "{n}.0").unwrap()
+            }
             Yaml::Int(n) | Yaml::Float(n) => doc += n,
             Yaml::Str(s) => {
                 if s.lines().nth(1).is_some() {
-- 
2.43.0


From 5818f7151943fb7f201adb8e550625e5671b920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 12/21] fix: reject deeply nested documents instead of
 overflowing the stack

---
 src/parser/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index eb63e13..3e234ff 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -21,6 +21,7 @@
 //!
 //! ## Structure
 //!
+//! + nested depth: The nodes are nested more than [`MAX_DEPTH`].
 //! + quoted string: Quoted string is not closed.
 //!
 //! ### Flow Array
@@ -72,6 +73,8 @@ pub(crate) use tag_prefix;
 
 /// The type of anchor recorder in the [`Loader`].
 pub type Anchors<R> = BTreeMap<String, Node<R>>;
+/// The limit of the nested nodes, the deeper documents are rejected.
+pub const MAX_DEPTH: usize = 256;
 /// The default prefix of the YAML sub tag.
 pub const DEFAULT_PREFIX: &str = tag_prefix!();
 
@@ -108,6 +111,7 @@ pub struct Loader<'a, R: Repr> {
     cyclic_mode: bool,
     anchors: Vec<Anchors<R>>,
     doc_ind: usize,
+    depth: usize,
 }
 
 impl<'a, R: Repr> Loader<'a, R> {
@@ -118,6 +122,7 @@ impl<'a, R: Repr> Loader<'a, R> {
             cyclic_mode: false,
             anchors: Vec::new(),
             doc_ind: 0,
+            depth: 0,
         }
     }
 }
@@ -253,7 +258,13 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.forward();
         let pos = self.indicator();
-        let yaml = f(self)?;
+        if self.depth == MAX_DEPTH {
+            return self.err("nested depth");
+        }
+        self.depth += 1;
+        let yaml = f(self);
+        self.depth -= 1;
+        let yaml = yaml?;
         self.forward();
         let node = Node::new_repr(yaml, pos, &tag);
         if !anchor.is_empty()
-- 
2.43.0


From 500b3d422193f03bdc456d5051ca09c7b5d8fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 13/21] fix: an unterminated flow collection is an error
 instead of null

---
 src/parser/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3e234ff..29f2b78 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -27,12 +27,14 @@
 //! ### Flow Array
 //!
 //! + flow sequence item: Item in `[]` bracket is invalid.
+//! + flow sequence terminator: The end `]` of sequence is missing.
 //!
 //! ### Flow Map
 //!
 //! + flow map key: Key of map item in `{}` bracket is invalid.
 //! + flow map value: Value of map item in `{}` bracket is invalid.
 //! + flow map splitter: Splitter `:` of map item in `{}` bracket is invalid.
+//! + flow map terminator: The end `}` of map is missing.
 //!
 //! ### Array
 //!
@@ -334,7 +336,9 @@ impl<R: Repr> Loader<'_, R> {
             self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b']')?;
+                if self.sym(b']').is_err() {
+                    return self.err("flow sequence terminator");
+                }
                 break;
             }
         }
@@ -358,8 +362,8 @@ impl<R: Repr> Loader<'_, R> {
                 let k = self
                     .scalar(level + 1, false, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?;
-                if self.gap(true).is_ok() {
-                    self.ind(level)?;
+                if self.gap(true).is_ok() && self.ind(level).is_err() {
+                    return self.err("flow map key");
                 }
                 k
             } else {
@@ -377,7 +381,9 @@ impl<R: Repr> Loader<'_, R> {
             m.push((k, v));
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b'}')?;
+                if self.sym(b'}').is_err() {
+                    return self.err("flow map terminator");
+                }
                 break;
             }
         }
-- 
2.43.0


From b01863ccd215be98996a519828e3c84030e2ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 14/21] fix: a failed tag, anchor or alias no longer drops its
 indicator

---
 src/parser/base/grammar.rs | 24 ++++++++++++++++++------
 src/parser/mod.rs          |  2 +-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index bb0ef8a..c3be0a8 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -294,7 +294,7 @@ impl Parser<'_> {
     /// Match tags.
     pub fn tag(&mut self) -> PResult<String> {
         self.sym(b'!')?;
-        self.context(|p| {
+        let ret = self.context(|p| {
             p.identifier().unwrap_or_default();
             let tag = p.text();
             let prefix = if !tag.is_empty() {
@@ -328,25 +328,37 @@ impl Parser<'_> {
                 }
             });
             Ok(format!("{prefix}{doc}"))
-        })
+        });
+        if ret.is_err() {
+            self.backward();
+        }
+        ret
     }
 
     /// Match anchor definition.
     pub fn anchor(&mut self) -> PResult<String> {
         self.sym(b'&')?;
-        self.context(|p| {
+        let ret = self.context(|p| {
             p.identifier()?;
             Ok(p.text())
-        })
+        });
+        if ret.is_err() {
+            self.backward();
+        }
+        ret
     }
 
     /// Match anchor used.
     pub fn anchor_use(&mut self) -> PResult<String> {
         self.sym(b'*')?;
-        self.context(|p| {
+        let ret = self.context(|p| {
             p.identifier()?;
             Ok(p.text())
-        })
+        });
+        if ret.is_err() {
+            self.backward();
+        }
+        ret
     }
 
     /// Match any invisible characters except newline.
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 29f2b78..23c7a03 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -245,7 +245,7 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.forward();
         let tag = self.tag().or_else(|e| e.or(|| Ok(String::new())))?;
-        if !tag.is_empty() {
+        if self.eaten < self.pos {
             self.bound()?;
         }
         self.forward();
-- 
2.43.0


From 7bfbe5d131341474f066b08e82fb25410a934c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 15/21] fix: a position out of the document is no longer a
 panic

The error of a chunked parser pointed at the global position in the local chunk.
---
 src/indicator.rs       | 3 ++-
 src/parser/base/mod.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/indicator.rs b/src/indicator.rs
index b67a128..dbbf323 100644
--- a/src/indicator.rs
+++ b/src/indicator.rs
@@ -36,7 +36,8 @@ pub fn indicated_msg(doc: &[u8], mut pos: u64) -> String {
             pos -= full_line;
         }
     }
-    unreachable!()
+    // Not in the document
+    String::from("out of document")
 }
 
 /// Same as [`indicated_msg`], but join the path before message.
diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index ba4a63d..680a112 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -99,7 +99,7 @@ impl Parser<'_> {
     pub fn err<R>(&self, name: &'static str) -> PResult<R> {
         Err(PError::Terminate {
             name,
-            msg: indicated_msg(self.doc, self.indicator()),
+            msg: indicated_msg(self.doc, self.pos as u64),
         })
     }
 
-- 
2.43.0


From 91667b578b9e099962fcc0fe884b5603de53a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 16/21] fix: the error of a missing variant content provides
 the node position

---
 src/serde/de.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 0cabc62..1210991 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -212,12 +212,13 @@ impl<'a, R: Repr> EnumAccess<'a> for EnumVisitor<R> {
     where
         V: DeserializeSeed<'a>,
     {
-        let visitor = VariantVisitor(self.1);
+        let visitor = VariantVisitor(self.1, self.0.pos());
         seed.deserialize(self.0).map(|v| (v, visitor))
     }
 }
 
-struct VariantVisitor<R: Repr>(Option<Node<R>>);
+/// The content of the variant, and the position of its name.
+struct VariantVisitor<R: Repr>(Option<Node<R>>, u64);
 
 impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     type Error = SerdeError;
@@ -235,10 +236,11 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     {
         match self.0 {
             Some(v) => seed.deserialize(v),
-            None => Err(Error::invalid_type(
+            None => Err(SerdeError::invalid_type(
                 Unexpected::UnitVariant,
                 &"new type variant",
-            )),
+            )
+            .pos(self.1)),
         }
     }
 
@@ -251,10 +253,11 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
                 Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
                 _ => Err(unexpected(&node, "tuple variant")),
             },
-            None => Err(Error::invalid_type(
+            None => Err(SerdeError::invalid_type(
                 Unexpected::TupleVariant,
                 &"tuple variant",
-            )),
+            )
+            .pos(self.1)),
         }
     }
 
@@ -271,10 +274,11 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
                 Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
                 _ => Err(unexpected(&node, "struct variant")),
             },
-            None => Err(Error::invalid_type(
+            None => Err(SerdeError::invalid_type(
                 Unexpected::UnitVariant,
                 &"struct variant",
-            )),
+            )
+            .pos(self.1)),
         }
     }
 }
-- 
2.43.0


From 44b0e0a45705aa4586687a6647f4b0d887a50226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 17/21] fix: %TAG of the primary handle applies to the local
 tags

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index c3be0a8..6c33950 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -305,7 +305,7 @@ impl Parser<'_> {
                         None => return p.err("tag handle"),
                     }
                 } else {
-                    String::new()
+                    p.tag["!"].clone()
                 }
             } else if p.sym(b'<').is_ok() {
                 // Full tag
-- 
2.43.0


From febc8d7b5c45ee2fc528c2c68523d31e91ba8a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 18/21] fix: a version which only starts like a supported one
 is not supported

---
 src/parser/base/directive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 54d10c1..b42c74c 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -22,7 +22,9 @@ impl Parser<'_> {
         self.ws(TakeOpt::More(1))?;
         if self.version_checked {
             self.err("checked version")
-        } else if !self.context(|p| p.sym_seq(b"1.1").is_ok() || p.sym_seq(b"1.2").is_ok()) {
+        } else if !self.context(|p| p.sym_seq(b"1.1").is_ok() || p.sym_seq(b"1.2").is_ok())
+            || self.food().first().is_some_and(u8::is_ascii_digit)
+        {
             self.err("invalid version")
         } else {
             self.version_checked = true;
-- 
2.43.0


From 92b6dd1bec380a0929a6aa8625fec948e5e50616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:23 +0000
Subject: [PATCH 19/21] fix: the end of the text is a boundary

---
 src/parser/base/grammar.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 6c33950..152a31f 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -8,7 +8,12 @@ use core::cmp::Ordering;
 /// [`Parser::backward`] if mismatched.
 impl Parser<'_> {
     /// Match invisible boundaries and keep the gaps. (must matched once)
+    ///
+    /// The end of the document is a boundary.
     pub fn bound(&mut self) -> PResult<()> {
+        if self.food().is_empty() {
+            return Ok(());
+        }
         self.sym_set(b":{}[] ,\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
@@ -145,7 +150,7 @@ impl Parser<'_> {
                 p.forward();
                 if p.food().is_empty()
                     || p.sym_seq(b": ").is_ok()
-                    || (p.sym(b':').is_ok() && p.nl().is_ok())
+                    || (p.sym(b':').is_ok() && (p.food().is_empty() || p.nl().is_ok()))
                     || p.sym_seq(b" #").is_ok()
                 {
                     p.backward();
-- 
2.43.0


From 1f350081e832273741b357258f3f23fe3e192c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:26 +0000
Subject: [PATCH 20/21] fix: a comment or words behind a number

---
 src/parser/base/grammar.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 152a31f..6519b77 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -37,11 +37,21 @@ impl Parser<'_> {
         if s.as_bytes() == b"0" && self.context(|p| p.octal().is_ok() || p.hexadecimal().is_ok()) {
             s = self.text();
         }
-        self.ws(TakeOpt::More(0))?;
-        self.bound()?;
+        self.num_end()?;
         Ok(s)
     }
 
+    /// Match the gap behind a number, which is followed by a boundary or a
+    /// comment.
+    fn num_end(&mut self) -> PResult<()> {
+        let gap = self.count(|p| p.ws(TakeOpt::More(0)))?;
+        if gap > 0 && self.food().starts_with(b"#") {
+            Ok(())
+        } else {
+            self.bound()
+        }
+    }
+
     fn octal(&mut self) -> PResult<()> {
         self.sym(b'o')?;
         self.take_while(Self::ascii_digit(8), TakeOpt::More(1))
@@ -62,10 +72,7 @@ impl Parser<'_> {
         self.sym(b'.')?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(0))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
-        }
-        self.bound()?;
+        self.num_end()?;
         Ok(s.trim_end_matches(".0").to_string())
     }
 
@@ -76,10 +83,7 @@ impl Parser<'_> {
         self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
-        }
-        self.bound()?;
+        self.num_end()?;
         Ok(s)
     }
 
-- 
2.43.0


From 12f1d25cffd1fb757d441a86fe15f003c040d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:40 +0000
Subject: [PATCH 21/21] fix: a flow map may have its comma on the next line

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 23c7a03..d004aae 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -379,6 +379,7 @@ impl<R: Repr> Loader<'_, R> {
                 .scalar(level + 1, false, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
+            self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
                 if self.sym(b'}').is_err() {
-- 
2.43.0


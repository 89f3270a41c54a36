From 9bb62fa88bdd483adf9f38b945b3a88c2178816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 01/15] fix: discard varint bits exceeding the integer width
 instead of overflowing the shift

---
 steit/src/impls/varint.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index 4a880fe..828d929 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -50,14 +50,17 @@ macro_rules! impl_unsigned_varint {
 
                     loop {
                         reader.read_exact(&mut buf)?;
-                        value |= (buf[0] & 0x7f) as $type << offset;
+
+                        // Bits which don't fit in the type are discarded.
+                        if offset < <$type>::BITS {
+                            value |= (buf[0] & 0x7f) as $type << offset;
+                            offset += 7;
+                        }
 
                         if buf[0] & 0x80 == 0 {
                             *self = value;
                             return Ok(());
                         }
-
-                        offset += 7;
                     }
                 }
             }
-- 
2.43.0


From c7d3006c4f2128d4765cf9e295ebeede4d54eadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 02/15] fix: do not allocate the announced size of a skipped
 field upfront

---
 steit/src/de/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 3aaba8a..09f617e 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -48,7 +48,7 @@ impl<R: io::Read> Reader<R> {
 
             WireType::Sized => {
                 let size = u64::deserialize(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
+                let mut buf = Vec::new();
                 self.by_ref().take(size).read_to_end(&mut buf)?;
             }
         }
-- 
2.43.0


From 8dd05b9c4e5ccb514ea95a07bf72af2d13a5014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 03/15] fix: keep the byte held by `eof` when borrowing a
 reader

---
 steit/src/de/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 09f617e..422e225 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -19,7 +19,7 @@ impl<R: io::Read> Reader<R> {
 
     pub fn as_mut_read(&mut self) -> Reader<&mut dyn io::Read> {
         Reader {
-            inner: Eof::new(self.inner.get_mut()),
+            inner: Eof::new(self),
         }
     }
 
-- 
2.43.0


From 3cac75ac8aba562c140b5edb2274931220af420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 04/15] fix: skip map entries whose wire type is not that of
 the map values

---
 steit/src/types/map/map.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 96350fc..f609d15 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -184,10 +184,15 @@ impl<K: MapKey, V: State> Deserialize for Map<K, V> {
     fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
         while !reader.eof()? {
             let field_number = u32::deserialize(reader)?;
-            let (field_number, _) = wire_fmt::parse_tag(field_number)?;
+            let (field_number, wire_type) = wire_fmt::parse_tag(field_number)?;
             wire_fmt::validate_field_number(field_number)?;
             K::try_from_field_number(field_number)?;
 
+            if wire_type != V::WIRE_TYPE {
+                reader.skip_field(wire_type)?;
+                continue;
+            }
+
             if let Some(value) = self.entries.get_mut(&field_number) {
                 value.merge_nested(V::WIRE_TYPE, reader)?;
             } else {
-- 
2.43.0


From 85f4ea8ff778f5a513799084bc69474521f03dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 05/15] fix: set the runtime of values inserted into a map

---
 steit/src/types/map/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index f609d15..c406980 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -58,8 +58,9 @@ impl<K: MapKey, V: State> Map<K, V> {
         self.entries.get_mut(&key.as_field_number())
     }
 
-    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+    pub fn insert(&mut self, key: K, mut value: V) -> Option<V> {
         let field_number = key.as_field_number();
+        value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
         self.entries.insert(field_number, value)
     }
-- 
2.43.0


From 60012b44647c2151ffa2b827fa1fa55e66d22cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 06/15] fix: do not log the removal of a key which a map does
 not have

---
 steit/src/types/map/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index c406980..0a0de60 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -75,6 +75,11 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn remove(&mut self, key: &K) -> Option<V> {
         let field_number = key.as_field_number();
+
+        if !self.entries.contains_key(&field_number) {
+            return None;
+        }
+
         self.runtime.log_map_remove(field_number).unwrap();
         self.entries.remove(&field_number)
     }
-- 
2.43.0


From 395e48c1e40de73066d8fa68aae557d9672882a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 07/15] fix: reject replayed map entries whose key is not one
 of the key type

---
 steit/src/types/map/map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 0a0de60..6b0a1ae 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -240,6 +240,9 @@ impl<K: MapKey, V: State> State for Map<K, V> {
             if let Some(value) = self.entries.get_mut(&field_number) {
                 value.handle(path, kind, key, reader)
             } else if kind == LogEntryKind::Update && path.next().is_none() {
+                wire_fmt::validate_field_number(field_number)?;
+                K::try_from_field_number(field_number)?;
+
                 let mut value = V::with_runtime(self.runtime.nested(field_number));
                 value.merge(reader)?;
 
-- 
2.43.0


From bfb4bdd766c34aa389667f301baaabc9a88cb117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 08/15] fix: give the item moved by `swap_remove` its path in
 the list

---
 steit/src/types/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index e07e9b1..e668a9b 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -103,7 +103,7 @@ impl<T: State> List<T> {
         let swapped = &mut self.items[index];
 
         if swapped.wire_type() == WireType::Sized {
-            let runtime = removed.runtime().sibling(index as u32);
+            let runtime = self.runtime.nested(index as u32);
             swapped.set_runtime(runtime);
         }
 
-- 
2.43.0


From 277d7d56169746fb0d19a96b5176b6fbded77c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 09/15] fix: forward `is_root` and `handle_update` of boxed
 states

---
 steit/src/impls/box.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 7802a7c..177a7d4 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -47,6 +47,14 @@ impl<T: State> State for Box<T> {
         self.as_mut().set_runtime(runtime)
     }
 
+    fn is_root(&self) -> bool {
+        self.as_ref().is_root()
+    }
+
+    fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
+        self.as_mut().handle_update(reader)
+    }
+
     fn handle(
         &mut self,
         path: impl Iterator<Item = u32>,
-- 
2.43.0


From 398de7fbcee21072fb8cc6edfac21c6520f843be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 10/15] fix: put `Maybe` variants and values at their own paths

---
 steit/src/types/maybe.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/steit/src/types/maybe.rs b/steit/src/types/maybe.rs
index cce3f68..4659bc0 100644
--- a/steit/src/types/maybe.rs
+++ b/steit/src/types/maybe.rs
@@ -20,7 +20,10 @@ pub enum Maybe<T: State> {
 }
 
 impl<T: State> Maybe<T> {
-    pub fn some(runtime: Runtime, value: T) -> Self {
+    pub fn some(runtime: Runtime, mut value: T) -> Self {
+        let runtime = runtime.nested(1);
+        value.set_runtime(runtime.nested(0));
+
         Maybe::Some {
             value,
             size_cache: SizeCache::new(),
@@ -29,7 +32,9 @@ impl<T: State> Maybe<T> {
     }
 
     pub fn none(runtime: Runtime) -> Self {
-        Maybe::None { runtime }
+        Maybe::None {
+            runtime: runtime.nested(0),
+        }
     }
 
     pub fn from_option(runtime: Runtime, option: Option<T>) -> Self {
-- 
2.43.0


From 9b6233aaaa086d4a81d2c182d184e2173616bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 11/15] fix: shift zigzag-encoded integers logically when
 decoding them

---
 steit/src/impls/varint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index 828d929..dfeca38 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -91,7 +91,7 @@ macro_rules! impl_signed_varint {
             }
 
             fn decode(value: $type) -> $type {
-                (value >> 1) ^ -(value & 1)
+                ((value as $unsigned_type >> 1) as $type) ^ -(value & 1)
             }
 
             fn compute_size(value: &$type) -> u32 {
-- 
2.43.0


From 9bbfd404289f4917cd03aacc3b93c9d1b7a8b05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 12/15] fix: collect the messages that are referred to from
 inside a Box

---
 steit/src/impls/box.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 177a7d4..91129c6 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -74,11 +74,8 @@ impl<T: HasMeta> HasMeta for Box<T> {
 
     const TYPE: &'static TypeMeta = T::TYPE;
 
-    const LINK: &'static MetaLink = &MetaLink {
-        r#type: Self::TYPE,
-        msg: None,
-        links: || &[T::LINK],
-    };
+    // `Box` shares the type of its content, a link of its own would hide what the content refers to.
+    const LINK: &'static MetaLink = T::LINK;
 }
 
 #[cfg(test)]
-- 
2.43.0


From fb15f4884958f2e1fc1e5978dc1a692d795a5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 13/15] fix: boxed primitives and type parameters keep their
 type in C#

---
 steit/src/gen/generators/csharp.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 214652d..1c4a0e6 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -139,7 +139,7 @@ impl Generator for CSharpGenerator {
 
         // Initiate nested states
         for field in &fields {
-            let init = match field.meta.ty {
+            let init = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => Some(format!(
                     "new {}(this.Path.GetNested({}))",
@@ -244,7 +244,7 @@ impl Generator for CSharpGenerator {
             .indent();
 
         // Return wire types
-        for field in r#struct.fields {
+        for field in &fields {
             let wire_type = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, wire_type)) => match wire_type {
                     WireType::Varint => "WireType.Varint".to_string(),
@@ -259,7 +259,7 @@ impl Generator for CSharpGenerator {
                 ),
             };
 
-            writer.writeln(format!("case {}: return {};", field.tag, wire_type));
+            writer.writeln(format!("case {}: return {};", field.meta.tag, wire_type));
         }
 
         writer
@@ -274,7 +274,7 @@ impl Generator for CSharpGenerator {
 
         // Return nested states
         for field in &fields {
-            let nested = match field.meta.ty {
+            let nested = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => {
                     Some(format!("this.{}", field.upper_camel_case_name))
@@ -300,7 +300,7 @@ impl Generator for CSharpGenerator {
 
         // Replace fields and notify event handlers
         for field in &fields {
-            match field.meta.ty {
+            match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => {
                     writer.writeln(format!(
                         "case {0}: this.{1} = this.MaybeNotify({0}, reader.Read{2}(), this.{1}, On{1}Update, shouldNotify); break;",
@@ -578,6 +578,8 @@ impl Generator for CSharpGenerator {
 
 struct CSharpField {
     meta: &'static FieldMeta,
+    // Not a `Box`
+    ty: &'static FieldTypeMeta,
     // UpperCamelCase
     upper_camel_case_name: String,
     type_name: String,
@@ -587,6 +589,7 @@ impl CSharpField {
     pub fn from_meta(field: &'static FieldMeta) -> Self {
         Self {
             meta: field,
+            ty: unbox(field.ty),
             upper_camel_case_name: field
                 .name
                 .csharp(|name| str_util::to_camel_case(name, true)),
@@ -621,6 +624,18 @@ fn type_params(type_params: &'static [&'static str]) -> String {
     format!("<{}>", type_params.join(", "))
 }
 
+fn unbox(ty: &'static FieldTypeMeta) -> &'static FieldTypeMeta {
+    match *ty {
+        FieldTypeMeta::Type(TypeMeta::Ref(name, type_args))
+            if !type_args.is_empty() && name.csharp(String::from) == "Box" =>
+        {
+            unbox(&type_args[0])
+        }
+
+        _ => ty,
+    }
+}
+
 fn field_type(ty: &'static FieldTypeMeta) -> String {
     match *ty {
         FieldTypeMeta::Type(ty) => match ty {
-- 
2.43.0


From b7e8b9fa20dc464b4320ec6964729b6fae84f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 14/15] fix: keep the value type of a map declared through a
 type alias in C#

---
 steit/src/gen/generators/csharp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 1c4a0e6..c6afc9a 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -658,8 +658,9 @@ fn field_type(ty: &'static FieldTypeMeta) -> String {
                     return type_args[0].clone();
                 }
 
-                // A hack to shadow the first type argument of `Map`
-                if &type_name == "StateMap" {
+                // A hack to shadow the first type argument of `Map`,
+                // which is already left out when the field is declared through a type alias.
+                if &type_name == "StateMap" && type_args.len() > 1 {
                     type_args.remove(0);
                 }
 
-- 
2.43.0


From 22cea201089a4ef084bb24fd40a97caac40c2be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 15/15] fix: report a generated source that could not be
 written

---
 steit/src/gen/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steit/src/gen/generator.rs b/steit/src/gen/generator.rs
index 13072d0..1e2bcda 100644
--- a/steit/src/gen/generator.rs
+++ b/steit/src/gen/generator.rs
@@ -54,6 +54,7 @@ pub trait Generator {
             let mut writer = io::BufWriter::new(file);
 
             writer.write_all(source.as_bytes())?;
+            writer.flush()?;
             generated_names.push(name);
         }
 
-- 
2.43.0


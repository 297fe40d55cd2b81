From f2dfd93c88f8776cb44e5f5c84b00a4c00e358c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 01/23] fix: read enum variant names as strings in internally
 tagged objects

In formats that are not self-describing the variant name is written as a
map key string, but was read through deserialize_identifier.
---
 src/internally.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internally.rs b/src/internally.rs
index 84f865b..d92848f 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -510,7 +510,7 @@ where
     where
         V: DeserializeSeed<'de>,
     {
-        match self.map.next_key_seed(seed)? {
+        match self.map.next_key_seed(StringKeySeed { seed })? {
             Some(variant) => Ok((variant, self)),
             None => Err(de::Error::custom(format_args!(
                 "expected enum {}",
-- 
2.43.0


From 5e4d8ff915d94191893a68c437cdfc0698d138fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 02/23] fix: hand the format's own deserializer to internally
 tagged Some values

The intermediate deserializer always reported a human readable format,
unlike the serializer that wrote the value.
---
 src/internally.rs | 302 ++--------------------------------------------
 1 file changed, 9 insertions(+), 293 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index d92848f..8d62b8f 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -356,7 +356,7 @@ where
     {
         match self.map.next_key_seed(DefaultKey)? {
             None => visitor.visit_none(),
-            Some(()) => visitor.visit_some(MapValueAsDeserializer { map: self.map }),
+            Some(()) => self.map.next_value_seed(VisitSome { visitor }),
         }
     }
 
@@ -675,304 +675,20 @@ impl<'de> DeserializeSeed<'de> for DefaultKey {
     }
 }
 
-struct MapValueAsDeserializer<A> {
-    map: A,
-}
-
-macro_rules! deserialize_map_value {
-    ($self:ident, $method:ident, $visitor:ident $(, $k:ident : $ty:ty)*) => {{
-        struct Wrap<V> {
-            $(
-                $k : $ty,
-            )*
-            visitor: V,
-        }
-
-        impl<'de, V> DeserializeSeed<'de> for Wrap<V>
-        where
-            V: Visitor<'de>,
-        {
-            type Value = V::Value;
-
-            fn deserialize<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
-            where
-                D: Deserializer<'de>,
-            {
-                deserializer.$method($(self.$k,)* self.visitor)
-            }
-        }
-
-        let mut this = $self;
-        this.map.next_value_seed(Wrap { $($k,)* $visitor })
-    }};
+struct VisitSome<V> {
+    visitor: V,
 }
 
-impl<'de, A> Deserializer<'de> for MapValueAsDeserializer<A>
+impl<'de, V> DeserializeSeed<'de> for VisitSome<V>
 where
-    A: MapAccess<'de>,
+    V: Visitor<'de>,
 {
-    type Error = A::Error;
-
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_any, visitor)
-    }
-
-    fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_bool, visitor)
-    }
-
-    fn deserialize_i8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_i8, visitor)
-    }
-
-    fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_i16, visitor)
-    }
-
-    fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_i32, visitor)
-    }
-
-    fn deserialize_i64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_i64, visitor)
-    }
-
-    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_i128, visitor)
-    }
-
-    fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_u8, visitor)
-    }
-
-    fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_u16, visitor)
-    }
-
-    fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_u32, visitor)
-    }
-
-    fn deserialize_u64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_u64, visitor)
-    }
-
-    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_u128, visitor)
-    }
-
-    fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_f32, visitor)
-    }
-
-    fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_f64, visitor)
-    }
-
-    fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_char, visitor)
-    }
-
-    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_str, visitor)
-    }
+    type Value = V::Value;
 
-    fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_string, visitor)
-    }
-
-    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_bytes, visitor)
-    }
-
-    fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_byte_buf, visitor)
-    }
-
-    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_option, visitor)
-    }
-
-    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_unit, visitor)
-    }
-
-    fn deserialize_unit_struct<V>(
-        self,
-        name: &'static str,
-        visitor: V,
-    ) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_unit_struct, visitor, name: &'static str)
-    }
-
-    fn deserialize_newtype_struct<V>(
-        self,
-        name: &'static str,
-        visitor: V,
-    ) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(
-            self,
-            deserialize_newtype_struct,
-            visitor,
-            name: &'static str
-        )
-    }
-
-    fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_seq, visitor)
-    }
-
-    fn deserialize_tuple<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_tuple, visitor, len: usize)
-    }
-
-    fn deserialize_tuple_struct<V>(
-        self,
-        name: &'static str,
-        len: usize,
-        visitor: V,
-    ) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(
-            self,
-            deserialize_tuple_struct,
-            visitor,
-            name: &'static str,
-            len: usize
-        )
-    }
-
-    fn deserialize_map<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_map, visitor)
-    }
-
-    fn deserialize_struct<V>(
-        self,
-        name: &'static str,
-        fields: &'static [&'static str],
-        visitor: V,
-    ) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(
-            self,
-            deserialize_struct,
-            visitor,
-            name: &'static str,
-            fields: &'static [&'static str]
-        )
-    }
-
-    fn deserialize_enum<V>(
-        self,
-        name: &'static str,
-        variants: &'static [&'static str],
-        visitor: V,
-    ) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(
-            self,
-            deserialize_enum,
-            visitor,
-            name: &'static str,
-            variants: &'static [&'static str]
-        )
-    }
-
-    fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        deserialize_map_value!(self, deserialize_identifier, visitor)
-    }
-
-    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    fn deserialize<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
     where
-        V: Visitor<'de>,
+        D: Deserializer<'de>,
     {
-        deserialize_map_value!(self, deserialize_ignored_any, visitor)
+        self.visitor.visit_some(deserializer)
     }
 }
-- 
2.43.0


From 2f0f7ec1f82d8f81cafc5033c5a30be7185d54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 03/23] fix: treat buffered entries like streamed ones in
 internally tagged objects

Primitives, sequences, tuples, options and units whose tag was not the
first key (or was left to default_variant) were deserialized from the
map itself rather than from its "value" entry.
---
 src/internally.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index 8d62b8f..e3bd3eb 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -8,8 +8,8 @@ use alloc::string::String;
 use alloc::vec::Vec;
 use core::fmt;
 use serde::de::{
-    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, IntoDeserializer, MapAccess,
-    VariantAccess, Visitor,
+    self, value, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, VariantAccess,
+    Visitor,
 };
 use serde::forward_to_deserialize_any;
 use serde::ser::{Serialize, Serializer};
@@ -121,8 +121,10 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
         };
 
         let fn_apply = FnApply { deserialize_fn };
-        let content = Content::Map(entries).into_deserializer();
-        fn_apply.deserialize(content)
+        let mut map = value::MapDeserializer::new(entries.into_iter());
+        let ret = fn_apply.deserialize(MapWithStringKeys { map: &mut map })?;
+        map.end()?;
+        Ok(ret)
     }
 }
 
-- 
2.43.0


From 15cc96410dba2db8e2aaae9db277cbcceab72c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 04/23] fix: read internally tagged units, enums and plain
 values through the end of the map

Formats such as CBOR leave it to the visitor to reach the end of a map:
extra entries were accepted, and the end of an indefinite-length map was
left in the input to be misread as what follows.
---
 src/internally.rs | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index e3bd3eb..5cfa39d 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -184,6 +184,17 @@ where
     }
 }
 
+// Some formats leave it to the visitor to read a map through to its end.
+fn expect_end<'de, A>(map: &mut A) -> Result<(), A::Error>
+where
+    A: MapAccess<'de>,
+{
+    match map.next_key::<IgnoredAny>()? {
+        None => Ok(()),
+        Some(IgnoredAny) => Err(de::Error::custom("unexpected entry after end of value")),
+    }
+}
+
 macro_rules! deserialize_default_key {
     ($self:ident, $method:ident, $visitor:ident $(, $k:ident : $ty:ty)*) => {{
         struct Wrap<V> {
@@ -209,7 +220,9 @@ macro_rules! deserialize_default_key {
 
         let mut this = $self;
         this.try_default_key()?;
-        this.map.next_value_seed(Wrap { $($k,)* $visitor })
+        let value = this.map.next_value_seed(Wrap { $($k,)* $visitor })?;
+        expect_end(&mut this.map)?;
+        Ok(value)
     }};
 }
 
@@ -358,25 +371,31 @@ where
     {
         match self.map.next_key_seed(DefaultKey)? {
             None => visitor.visit_none(),
-            Some(()) => self.map.next_value_seed(VisitSome { visitor }),
+            Some(()) => {
+                let value = self.map.next_value_seed(VisitSome { visitor })?;
+                expect_end(&mut self.map)?;
+                Ok(value)
+            }
         }
     }
 
-    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    fn deserialize_unit<V>(mut self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
+        expect_end(&mut self.map)?;
         visitor.visit_unit()
     }
 
     fn deserialize_unit_struct<V>(
-        self,
+        mut self,
         _name: &'static str,
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
+        expect_end(&mut self.map)?;
         visitor.visit_unit()
     }
 
@@ -470,6 +489,7 @@ where
     {
         if self.map.next_key_seed(DefaultKey)?.is_some() {
             self.map.next_value::<IgnoredAny>()?;
+            expect_end(&mut self.map)?;
         }
         visitor.visit_unit()
     }
@@ -529,14 +549,17 @@ where
     type Error = A::Error;
 
     fn unit_variant(mut self) -> Result<(), Self::Error> {
-        self.map.next_value()
+        self.map.next_value::<()>()?;
+        expect_end(&mut self.map)
     }
 
     fn newtype_variant_seed<T>(mut self, seed: T) -> Result<T::Value, Self::Error>
     where
         T: DeserializeSeed<'de>,
     {
-        self.map.next_value_seed(seed)
+        let value = self.map.next_value_seed(seed)?;
+        expect_end(&mut self.map)?;
+        Ok(value)
     }
 
     fn tuple_variant<V>(mut self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
@@ -562,7 +585,9 @@ where
             }
         }
 
-        self.map.next_value_seed(Wrap { len, visitor })
+        let value = self.map.next_value_seed(Wrap { len, visitor })?;
+        expect_end(&mut self.map)?;
+        Ok(value)
     }
 
     fn struct_variant<V>(
@@ -593,11 +618,13 @@ where
             }
         }
 
-        self.map.next_value_seed(Wrap {
+        let value = self.map.next_value_seed(Wrap {
             name: self.name,
             fields,
             visitor,
-        })
+        })?;
+        expect_end(&mut self.map)?;
+        Ok(value)
     }
 }
 
-- 
2.43.0


From 6d92cededbf058e39db0f0032772b357367d2c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 05/23] fix: read externally tagged objects through the end of
 the map

Formats such as CBOR leave it to the visitor to reach the end of a map:
a second entry was accepted, and the end of an indefinite-length map was
left in the input to be misread as what follows.
---
 src/externally.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/externally.rs b/src/externally.rs
index 4369b34..cf8a22e 100644
--- a/src/externally.rs
+++ b/src/externally.rs
@@ -3,7 +3,7 @@ use crate::private::Registry;
 use crate::ser::Wrap;
 use alloc::boxed::Box;
 use core::fmt;
-use serde::de::{self, Deserializer, MapAccess, Visitor};
+use serde::de::{self, Deserializer, IgnoredAny, MapAccess, Visitor};
 use serde::ser::{SerializeMap, Serializer};
 
 pub fn serialize<S, T>(
@@ -62,6 +62,13 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                 self.trait_object
             )));
         };
-        map.next_value_seed(FnApply { deserialize_fn })
+        let ret = map.next_value_seed(FnApply { deserialize_fn })?;
+        match map.next_key::<IgnoredAny>()? {
+            None => Ok(ret),
+            Some(IgnoredAny) => Err(de::Error::custom(format_args!(
+                "expected externally tagged dyn {} with a single entry",
+                self.trait_object
+            ))),
+        }
     }
 }
-- 
2.43.0


From ba29b3a32125d9d274931f6773ef60fc866d841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 06/23] fix: read adjacently tagged objects through the end of
 the sequence

Formats such as CBOR leave it to the visitor to reach the end of a
sequence: extra elements were accepted, and the end of an
indefinite-length array was left in the input to be misread.
---
 src/adjacently.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/adjacently.rs b/src/adjacently.rs
index a8b317a..5368ffb 100644
--- a/src/adjacently.rs
+++ b/src/adjacently.rs
@@ -185,9 +185,13 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
 
         // Visit the second element - the content.
         let fn_apply = FnApply { deserialize_fn };
-        match seq.next_element_seed(fn_apply)? {
-            Some(ret) => Ok(ret),
-            None => Err(de::Error::invalid_length(1, &self)),
+        let Some(ret) = seq.next_element_seed(fn_apply)? else {
+            return Err(de::Error::invalid_length(1, &self));
+        };
+
+        match seq.next_element::<IgnoredAny>()? {
+            None => Ok(ret),
+            Some(IgnoredAny) => Err(de::Error::invalid_length(3, &self)),
         }
     }
 }
-- 
2.43.0


From 2f005e56f5eb5b998ff72cc90bdd37e5e478670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 07/23] fix: deserialize empty tuple variants from buffered
 content

---
 src/content.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index d128bc5..f9d07b9 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -883,16 +883,12 @@ where
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(de::Error::invalid_length(len, &"fewer elements in array"))
-            }
+            Err(de::Error::invalid_length(len, &"fewer elements in array"))
         }
     }
 
-- 
2.43.0


From fb1557413877c84dff493faef81451bc92497f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 08/23] fix: deserialize floats from any width of buffered
 number

---
 src/content.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index f9d07b9..687bb73 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -332,6 +332,17 @@ where
             _ => Err(self.invalid_type(&visitor)),
         }
     }
+
+    fn deserialize_float<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.content {
+            Content::F32(v) => visitor.visit_f32(v),
+            Content::F64(v) => visitor.visit_f64(v),
+            _ => self.deserialize_integer(visitor),
+        }
+    }
 }
 
 fn visit_content_seq<'de, V, E>(content: Vec<Content<'de>>, visitor: V) -> Result<V::Value, E>
@@ -469,25 +480,14 @@ where
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F32(v) => visitor.visit_f32(v),
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From a99e1ac738eb06aa4f62cf5b55286114921bede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 09/23] fix: deserialize non-string map keys of internally
 tagged objects

Keys are written the way the key type serializes itself, but all were
read as strings: a map with integer, enum or newtype keys could not be
read back.
---
 src/internally.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index 5cfa39d..4deea21 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -652,6 +652,19 @@ struct StringKeyDeserializer<D> {
     delegate: D,
 }
 
+macro_rules! forward_key {
+    ($($method:ident($($k:ident : $ty:ty),*))*) => {
+        $(
+            fn $method<V>(self, $($k: $ty,)* visitor: V) -> Result<V::Value, Self::Error>
+            where
+                V: Visitor<'de>,
+            {
+                self.delegate.$method($($k,)* visitor)
+            }
+        )*
+    };
+}
+
 impl<'de, D> Deserializer<'de> for StringKeyDeserializer<D>
 where
     D: Deserializer<'de>,
@@ -665,10 +678,42 @@ where
         self.delegate.deserialize_str(visitor)
     }
 
+    // Map keys that are not strings were written as what they are.
+    forward_key! {
+        deserialize_bool()
+        deserialize_i8()
+        deserialize_i16()
+        deserialize_i32()
+        deserialize_i64()
+        deserialize_i128()
+        deserialize_u8()
+        deserialize_u16()
+        deserialize_u32()
+        deserialize_u64()
+        deserialize_u128()
+        deserialize_f32()
+        deserialize_f64()
+        deserialize_char()
+        deserialize_bytes()
+        deserialize_byte_buf()
+        deserialize_option()
+        deserialize_unit()
+        deserialize_unit_struct(name: &'static str)
+        deserialize_newtype_struct(name: &'static str)
+        deserialize_seq()
+        deserialize_tuple(len: usize)
+        deserialize_tuple_struct(name: &'static str, len: usize)
+        deserialize_map()
+        deserialize_struct(name: &'static str, fields: &'static [&'static str])
+        deserialize_enum(name: &'static str, variants: &'static [&'static str])
+    }
+
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
-        tuple_struct map struct enum identifier ignored_any
+        str string identifier ignored_any
+    }
+
+    fn is_human_readable(&self) -> bool {
+        self.delegate.is_human_readable()
     }
 }
 
-- 
2.43.0


From aa3a0624939f24de522f69f49fe8d0366b0f8124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 10/23] fix: serialize internally tagged bytes as bytes

They were handed to the format as a sequence of u8.
---
 src/ser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 9adfbcc..dcdf420 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -25,6 +25,17 @@ where
     }
 }
 
+struct Bytes<'a>(&'a [u8]);
+
+impl<'a> Serialize for Bytes<'a> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        serializer.serialize_bytes(self.0)
+    }
+}
+
 pub struct InternallyTaggedSerializer<S> {
     pub tag: &'static str,
     pub variant: &'static str,
@@ -122,7 +133,7 @@ where
     }
 
     fn serialize_bytes(self, value: &[u8]) -> Result<Self::Ok, Self::Error> {
-        self.serialize_default(value)
+        self.serialize_default(&Bytes(value))
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From 7ccf8192d28bd46a03500945770394f4999b5137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 11/23] fix: tell elements of internally tagged sequences
 whether the format is human readable

Elements of sequences and tuples, and the payload of tuple and struct
variants, are buffered by a serializer that always claimed to be human
readable, so types such as IpAddr were written in a form that cannot be
read back from binary formats.
---
 src/ser.rs | 102 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 26 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index dcdf420..806c08e 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -197,17 +197,19 @@ where
     }
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeSeqAsMapValue::new(map, len))
+        Ok(SerializeSeqAsMapValue::new(map, len, human_readable))
     }
 
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeTupleAsMapValue::new(map, len))
+        Ok(SerializeTupleAsMapValue::new(map, len, human_readable))
     }
 
     fn serialize_tuple_struct(
@@ -215,10 +217,16 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleStruct, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeTupleStructAsMapValue::new(map, name, len))
+        Ok(SerializeTupleStructAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 
     fn serialize_tuple_variant(
@@ -228,10 +236,16 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(name)?;
-        Ok(SerializeTupleStructAsMapValue::new(map, name, len))
+        Ok(SerializeTupleStructAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
@@ -257,23 +271,31 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(name)?;
-        Ok(SerializeStructVariantAsMapValue::new(map, name, len))
+        Ok(SerializeStructVariantAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 }
 
 pub struct SerializeSeqAsMapValue<M> {
     map: M,
     fields: Vec<Content>,
+    human_readable: bool,
 }
 
 impl<M> SerializeSeqAsMapValue<M> {
-    pub fn new(map: M, len: Option<usize>) -> Self {
+    pub fn new(map: M, len: Option<usize>, human_readable: bool) -> Self {
         SerializeSeqAsMapValue {
             map,
             fields: Vec::with_capacity(len.unwrap_or(0)),
+            human_readable,
         }
     }
 }
@@ -289,7 +311,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -303,13 +325,15 @@ where
 pub struct SerializeTupleAsMapValue<M> {
     map: M,
     fields: Vec<Content>,
+    human_readable: bool,
 }
 
 impl<M> SerializeTupleAsMapValue<M> {
-    pub fn new(map: M, len: usize) -> Self {
+    pub fn new(map: M, len: usize, human_readable: bool) -> Self {
         SerializeTupleAsMapValue {
             map,
             fields: Vec::with_capacity(len),
+            human_readable,
         }
     }
 }
@@ -325,7 +349,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -340,14 +364,16 @@ pub struct SerializeTupleStructAsMapValue<M> {
     map: M,
     name: &'static str,
     fields: Vec<Content>,
+    human_readable: bool,
 }
 
 impl<M> SerializeTupleStructAsMapValue<M> {
-    pub fn new(map: M, name: &'static str, len: usize) -> Self {
+    pub fn new(map: M, name: &'static str, len: usize, human_readable: bool) -> Self {
         SerializeTupleStructAsMapValue {
             map,
             name,
             fields: Vec::with_capacity(len),
+            human_readable,
         }
     }
 }
@@ -363,7 +389,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -386,7 +412,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -443,14 +469,16 @@ pub struct SerializeStructVariantAsMapValue<M> {
     map: M,
     name: &'static str,
     fields: Vec<(&'static str, Content)>,
+    human_readable: bool,
 }
 
 impl<M> SerializeStructVariantAsMapValue<M> {
-    pub fn new(map: M, name: &'static str, len: usize) -> Self {
+    pub fn new(map: M, name: &'static str, len: usize, human_readable: bool) -> Self {
         SerializeStructVariantAsMapValue {
             map,
             name,
             fields: Vec::with_capacity(len),
+            human_readable,
         }
     }
 }
@@ -466,7 +494,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
@@ -603,12 +631,16 @@ impl Serialize for Content {
 }
 
 pub struct ContentSerializer<E> {
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
 impl<E> ContentSerializer<E> {
-    pub fn new() -> Self {
-        ContentSerializer { error: PhantomData }
+    pub fn new(human_readable: bool) -> Self {
+        ContentSerializer {
+            human_readable,
+            error: PhantomData,
+        }
     }
 }
 
@@ -750,6 +782,7 @@ where
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, E> {
         Ok(ContentSerializeSeq {
             elements: Vec::with_capacity(len.unwrap_or(0)),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -757,6 +790,7 @@ where
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, E> {
         Ok(ContentSerializeTuple {
             elements: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -769,6 +803,7 @@ where
         Ok(ContentSerializeTupleStruct {
             name,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -785,6 +820,7 @@ where
             variant_index,
             variant,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -793,6 +829,7 @@ where
         Ok(ContentSerializeMap {
             entries: Vec::with_capacity(len.unwrap_or(0)),
             key: None,
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -801,6 +838,7 @@ where
         Ok(ContentSerializeStruct {
             name,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -817,13 +855,19 @@ where
             variant_index,
             variant,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
 }
 
 pub struct ContentSerializeSeq<E> {
     elements: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -838,7 +882,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.elements.push(value);
         Ok(())
     }
@@ -850,6 +894,7 @@ where
 
 pub struct ContentSerializeTuple<E> {
     elements: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -864,7 +909,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.elements.push(value);
         Ok(())
     }
@@ -877,6 +922,7 @@ where
 pub struct ContentSerializeTupleStruct<E> {
     name: &'static str,
     fields: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -891,7 +937,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -906,6 +952,7 @@ pub struct ContentSerializeTupleVariant<E> {
     variant_index: u32,
     variant: &'static str,
     fields: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -920,7 +967,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -938,6 +985,7 @@ where
 pub struct ContentSerializeMap<E> {
     entries: Vec<(Content, Content)>,
     key: Option<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -952,7 +1000,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let key = key.serialize(ContentSerializer::<E>::new())?;
+        let key = key.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.key = Some(key);
         Ok(())
     }
@@ -965,7 +1013,7 @@ where
             .key
             .take()
             .expect("serialize_value called before serialize_key");
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.entries.push((key, value));
         Ok(())
     }
@@ -979,8 +1027,8 @@ where
         K: ?Sized + Serialize,
         V: ?Sized + Serialize,
     {
-        let key = key.serialize(ContentSerializer::<E>::new())?;
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let key = key.serialize(ContentSerializer::<E>::new(self.human_readable))?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.entries.push((key, value));
         Ok(())
     }
@@ -989,6 +1037,7 @@ where
 pub struct ContentSerializeStruct<E> {
     name: &'static str,
     fields: Vec<(&'static str, Content)>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -1003,7 +1052,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
@@ -1018,6 +1067,7 @@ pub struct ContentSerializeStructVariant<E> {
     variant_index: u32,
     variant: &'static str,
     fields: Vec<(&'static str, Content)>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -1032,7 +1082,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
-- 
2.43.0


From 436b5faf695a6d4c47c3d95717593b628e19c272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 12/23] fix: announce the right map length for a struct whose
 first field is the tag

The tag field of a struct such as #[serde(tag = "type")] is not written a
second time, but was still counted, which corrupts the output of formats
that write the length in advance.
---
 src/ser.rs | 74 ++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 806c08e..e8d1a93 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -6,6 +6,7 @@ use alloc::format;
 use alloc::string::String;
 use alloc::vec::Vec;
 use core::marker::PhantomData;
+use core::mem;
 use serde::ser::{
     self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant,
     SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer,
@@ -69,7 +70,7 @@ where
     type SerializeTupleStruct = SerializeTupleStructAsMapValue<S::SerializeMap>;
     type SerializeTupleVariant = SerializeTupleStructAsMapValue<S::SerializeMap>;
     type SerializeMap = S::SerializeMap;
-    type SerializeStruct = SerializeStructAsMap<S::SerializeMap>;
+    type SerializeStruct = SerializeStructAsMap<S>;
     type SerializeStructVariant = SerializeStructVariantAsMapValue<S::SerializeMap>;
 
     fn serialize_bool(self, value: bool) -> Result<Self::Ok, Self::Error> {
@@ -259,9 +260,7 @@ where
         _: &'static str,
         len: usize,
     ) -> Result<Self::SerializeStruct, Self::Error> {
-        let mut state = self.delegate.serialize_map(Some(len + 1))?;
-        state.serialize_entry(self.tag, self.variant)?;
-        Ok(SerializeStructAsMap::new(state, self.tag, self.variant))
+        Ok(SerializeStructAsMap::new(self, len))
     }
 
     fn serialize_struct_variant(
@@ -424,29 +423,65 @@ where
     }
 }
 
-pub struct SerializeStructAsMap<M> {
-    map: M,
+// The map is begun on the first field: if that is the one holding the tag, then
+// it is not written again and does not count towards the length of the map.
+pub struct SerializeStructAsMap<S>
+where
+    S: Serializer,
+{
+    state: StructState<S>,
     tag: &'static str,
     variant: &'static str,
 }
 
-impl<M> SerializeStructAsMap<M> {
-    fn new(map: M, tag: &'static str, variant: &'static str) -> Self {
-        SerializeStructAsMap { map, tag, variant }
+enum StructState<S>
+where
+    S: Serializer,
+{
+    Start(InternallyTaggedSerializer<S>, usize),
+    Map(S::SerializeMap),
+    Failed,
+}
+
+impl<S> SerializeStructAsMap<S>
+where
+    S: Serializer,
+{
+    fn new(serializer: InternallyTaggedSerializer<S>, len: usize) -> Self {
+        let InternallyTaggedSerializer { tag, variant, .. } = serializer;
+        SerializeStructAsMap {
+            state: StructState::Start(serializer, len),
+            tag,
+            variant,
+        }
+    }
+
+    fn begin(&mut self, first_key: Option<&'static str>) -> Result<(), S::Error> {
+        match mem::replace(&mut self.state, StructState::Failed) {
+            StructState::Start(serializer, mut len) => {
+                if first_key == Some(self.tag) {
+                    len = len.saturating_sub(1);
+                }
+                self.state = StructState::Map(serializer.serialize_map(Some(len))?);
+            }
+            state => self.state = state,
+        }
+        Ok(())
     }
 }
 
-impl<M> SerializeStruct for SerializeStructAsMap<M>
+impl<S> SerializeStruct for SerializeStructAsMap<S>
 where
-    M: SerializeMap,
+    S: Serializer,
 {
-    type Ok = M::Ok;
-    type Error = M::Error;
+    type Ok = S::Ok;
+    type Error = S::Error;
 
     fn serialize_field<T>(&mut self, key: &'static str, value: &T) -> Result<(), Self::Error>
     where
         T: ?Sized + Serialize,
     {
+        self.begin(Some(key))?;
         if key == self.tag {
             match expect_str(value, self.variant) {
                 Ok(()) => Ok(()),
@@ -455,13 +490,20 @@ where
                     self.tag, self.variant, unexpected,
                 ))),
             }
+        } else if let StructState::Map(map) = &mut self.state {
+            map.serialize_entry(key, value)
         } else {
-            self.map.serialize_entry(key, value)
+            Err(ser::Error::custom("failed to begin serializing struct"))
         }
     }
 
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        self.map.end()
+    fn end(mut self) -> Result<Self::Ok, Self::Error> {
+        self.begin(None)?;
+        if let StructState::Map(map) = self.state {
+            map.end()
+        } else {
+            Err(ser::Error::custom("failed to begin serializing struct"))
+        }
     }
 }
 
-- 
2.43.0


From 78ecee5ce1d485b4923b9172fec830f191518ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 13/23] fix: read long map keys of internally tagged objects as
 owned strings

---
 src/internally.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index 4deea21..f1c28d7 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -165,7 +165,7 @@ impl<'de> DeserializeSeed<'de> for KeyVisitor {
     where
         D: Deserializer<'de>,
     {
-        deserializer.deserialize_str(self)
+        deserializer.deserialize_string(self)
     }
 }
 
@@ -678,7 +678,8 @@ where
         self.delegate.deserialize_str(visitor)
     }
 
-    // Map keys that are not strings were written as what they are.
+    // Map keys that are not strings were written as what they are. A format may
+    // be unable to lend out a long string that it can hand over.
     forward_key! {
         deserialize_bool()
         deserialize_i8()
@@ -694,6 +695,7 @@ where
         deserialize_f32()
         deserialize_f64()
         deserialize_char()
+        deserialize_string()
         deserialize_bytes()
         deserialize_byte_buf()
         deserialize_option()
@@ -709,7 +711,7 @@ where
     }
 
     forward_to_deserialize_any! {
-        str string identifier ignored_any
+        str identifier ignored_any
     }
 
     fn is_human_readable(&self) -> bool {
-- 
2.43.0


From abf867da2fd7a688a5e43285c123c29af5a8bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 14/23] fix: deserialize units from null entries before the tag

---
 src/content.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/content.rs b/src/content.rs
index 687bb73..c7cac84 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -560,7 +560,8 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Unit => visitor.visit_unit(),
+            // Some formats write unit as null and report every null as None.
+            Content::Unit | Content::None => visitor.visit_unit(),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -589,6 +590,7 @@ where
             // We want {"topic":"Info"} to deserialize even though
             // ordinarily unit structs do not deserialize from empty map.
             Content::Map(ref v) if v.is_empty() => visitor.visit_unit(),
+            Content::None => visitor.visit_unit(),
             _ => self.deserialize_any(visitor),
         }
     }
-- 
2.43.0


From 16143e5e3e6b4451b6d0d03f28d873eb3b230607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 15/23] fix: treat absent content of adjacently tagged newtypes
 as null

---
 src/adjacently.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adjacently.rs b/src/adjacently.rs
index 5368ffb..162e525 100644
--- a/src/adjacently.rs
+++ b/src/adjacently.rs
@@ -114,7 +114,7 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                     // There is no second key; might be okay if the we have a unit variant.
                     None => {
                         let fn_apply = FnApply { deserialize_fn };
-                        let unit = ().into_deserializer();
+                        let unit = Content::Unit.into_deserializer();
                         return fn_apply.deserialize(unit);
                     }
                 }
-- 
2.43.0


From 602a33ffc8fc2be238af8b1e34129313b2d3fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 16/23] fix: keep macro type parameters from capturing the
 user's names

A trait named S or D, or a generic trait with a parameter S, did not compile
because the generated functions have type parameters of these names.
---
 impl/src/tagged_trait.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index a3162e2..d599e3c 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -39,9 +39,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
         expanded.extend(quote! {
             impl #impl_generics typetag::#private::serde::Serialize
             for dyn #object #ty_generics + 'typetag #where_clause {
-                fn serialize<S>(&self, serializer: S) -> typetag::#private::Result<S::Ok, S::Error>
+                fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                 where
-                    S: typetag::#private::serde::Serializer,
+                    __S: typetag::#private::serde::Serializer,
                 {
                     #serialize_impl
                 }
@@ -52,9 +52,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 impl #impl_generics typetag::#private::serde::Serialize
                 for dyn #object #ty_generics + #marker_traits + 'typetag #where_clause {
-                    fn serialize<S>(&self, serializer: S) -> typetag::#private::Result<S::Ok, S::Error>
+                    fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                     where
-                        S: typetag::#private::serde::Serializer,
+                        __S: typetag::#private::serde::Serializer,
                     {
                         typetag::#private::serde::Serialize::serialize(self as &dyn #object #ty_generics, serializer)
                     }
@@ -87,9 +87,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
 
             #[allow(unknown_lints, non_local_definitions)] // false positive: https://github.com/rust-lang/rust/issues/121621
             impl<'de> typetag::#private::serde::Deserialize<'de> for typetag::#private::Box<dyn #object + #strictest> {
-                fn deserialize<D>(deserializer: D) -> typetag::#private::Result<Self, D::Error>
+                fn deserialize<__D>(deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
                 where
-                    D: typetag::#private::serde::Deserializer<'de>,
+                    __D: typetag::#private::serde::Deserializer<'de>,
                 {
                     #deserialize_impl
                 }
@@ -100,9 +100,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 #[allow(unknown_lints, non_local_definitions)] // false positive: https://github.com/rust-lang/rust/issues/121621
                 impl<'de> typetag::#private::serde::Deserialize<'de> for typetag::#private::Box<dyn #object + #marker_traits> {
-                    fn deserialize<D>(deserializer: D) -> typetag::#private::Result<Self, D::Error>
+                    fn deserialize<__D>(deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
                     where
-                        D: typetag::#private::serde::Deserializer<'de>,
+                        __D: typetag::#private::serde::Deserializer<'de>,
                     {
                         typetag::#private::Result::Ok(
                             <typetag::#private::Box<dyn #object + #strictest>
-- 
2.43.0


From c5821c90b866ca3ba9b172802c7d5af42a377fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 17/23] fix: let internally tagged content be ignored whatever
 its entries

---
 src/internally.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index f1c28d7..a1ff030 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -487,10 +487,7 @@ where
     where
         V: Visitor<'de>,
     {
-        if self.map.next_key_seed(DefaultKey)?.is_some() {
-            self.map.next_value::<IgnoredAny>()?;
-            expect_end(&mut self.map)?;
-        }
+        while let Some((IgnoredAny, IgnoredAny)) = self.map.next_entry()? {}
         visitor.visit_unit()
     }
 }
-- 
2.43.0


From 0892e31fabb95eea7a0ce3d06df4575da0689294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 18/23] fix: name Send, Sync and str by path in generated code

---
 impl/src/tagged_impl.rs  |  2 +-
 impl/src/tagged_trait.rs | 24 ++++++++++++++++--------
 src/private.rs           |  4 ++++
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/impl/src/tagged_impl.rs b/impl/src/tagged_impl.rs
index e07ffec..09e8c5e 100644
--- a/impl/src/tagged_impl.rs
+++ b/impl/src/tagged_impl.rs
@@ -52,7 +52,7 @@ fn augment_impl(input: &mut ItemImpl, name: &TokenStream, mode: Mode) {
     if mode.ser {
         input.items.push(parse_quote! {
             #[doc(hidden)]
-            fn typetag_name(&self) -> &'static str {
+            fn typetag_name(&self) -> &'static typetag::#private::str {
                 #name
             }
         });
diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index d599e3c..cf49917 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -48,7 +48,11 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             }
         });
 
-        for marker_traits in &[quote!(Send), quote!(Sync), quote!(Send + Sync)] {
+        for marker_traits in &[
+            quote!(typetag::#private::Send),
+            quote!(typetag::#private::Sync),
+            quote!(typetag::#private::Send + typetag::#private::Sync),
+        ] {
             expanded.extend(quote! {
                 impl #impl_generics typetag::#private::serde::Serialize
                 for dyn #object #ty_generics + #marker_traits + 'typetag #where_clause {
@@ -70,11 +74,15 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
         let is_sync = has_supertrait(&input, "Sync");
         let (strictest, others) = match (is_send, is_sync) {
             (false, false) => (quote!(), vec![]),
-            (true, false) => (quote!(Send), vec![quote!()]),
-            (false, true) => (quote!(Sync), vec![quote!()]),
+            (true, false) => (quote!(typetag::#private::Send), vec![quote!()]),
+            (false, true) => (quote!(typetag::#private::Sync), vec![quote!()]),
             (true, true) => (
-                quote!(Send + Sync),
-                vec![quote!(), quote!(Send), quote!(Sync)],
+                quote!(typetag::#private::Send + typetag::#private::Sync),
+                vec![
+                    quote!(),
+                    quote!(typetag::#private::Send),
+                    quote!(typetag::#private::Sync),
+                ],
             ),
         };
 
@@ -130,7 +138,7 @@ fn augment_trait(input: &mut ItemTrait, mode: Mode) {
 
         input.items.push(parse_quote! {
             #[doc(hidden)]
-            fn typetag_name(&self) -> &'static str;
+            fn typetag_name(&self) -> &'static typetag::#private::str;
         });
     }
 
@@ -154,7 +162,7 @@ fn build_registry(input: &ItemTrait) -> TokenStream {
         type TypetagFn = typetag::#private::DeserializeFn<TypetagStrictest>;
 
         #vis struct TypetagRegistration<T> {
-            name: &'static str,
+            name: &'static typetag::#private::str,
             deserializer: T,
         }
 
@@ -162,7 +170,7 @@ fn build_registry(input: &ItemTrait) -> TokenStream {
 
         impl dyn #object {
             #[doc(hidden)]
-            #vis const fn typetag_register<T>(name: &'static str, deserializer: T) -> TypetagRegistration<T> {
+            #vis const fn typetag_register<T>(name: &'static typetag::#private::str, deserializer: T) -> TypetagRegistration<T> {
                 TypetagRegistration { name, deserializer }
             }
         }
diff --git a/src/private.rs b/src/private.rs
index 911ecf6..4a58846 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -28,8 +28,12 @@ pub mod adjacently {
 #[doc(hidden)]
 pub use alloc::collections::btree_map;
 #[doc(hidden)]
+pub use core::marker::{Send, Sync};
+#[doc(hidden)]
 pub use core::option::Option;
 #[doc(hidden)]
+pub use core::primitive::str;
+#[doc(hidden)]
 pub use core::result::Result;
 
 #[doc(hidden)]
-- 
2.43.0


From 5fe6dbca3026fb9ac5016ce1a9bd9f784e2f89a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 19/23] fix: reject a content key equal to the tag

---
 impl/src/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/impl/src/parse.rs b/impl/src/parse.rs
index bbc729d..23e40d4 100644
--- a/impl/src/parse.rs
+++ b/impl/src/parse.rs
@@ -123,6 +123,10 @@ impl Parse for TraitArgs {
             input.parse::<kw::content>()?;
             input.parse::<Token![=]>()?;
             let content: LitStr = input.parse()?;
+            if content.value() == tag.value() {
+                let msg = "tag and content must be different keys";
+                return Err(Error::new_spanned(content, msg));
+            }
             if !input.is_empty() {
                 input.parse::<Token![,]>()?;
             }
-- 
2.43.0


From 2d66bc2851d57b1c393db05972df211a14ded32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 20/23] fix: accept buffered fields and variants denoted by u64
 numbers

---
 src/content.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/content.rs b/src/content.rs
index c7cac84..4552d8c 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -709,6 +709,7 @@ where
             Content::ByteBuf(v) => visitor.visit_byte_buf(v),
             Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
             Content::U8(v) => visitor.visit_u8(v),
+            Content::U64(v) => visitor.visit_u64(v),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
-- 
2.43.0


From 1ac1f4fc97d2048bcf68f58e238f9d2371121e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 21/23] fix: reject entries a buffered struct variant leaves
 unread

---
 src/content.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 4552d8c..829621c 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -978,11 +978,18 @@ where
     type Error = E;
 
     #[inline]
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_map(self)
+        let len = self.iter.len();
+        let ret = visitor.visit_map(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
+        } else {
+            Err(de::Error::invalid_length(len, &"fewer elements in map"))
+        }
     }
 
     forward_to_deserialize_any! {
-- 
2.43.0


From 77e23e4c5100010695bce468d72460dc08faea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 22/23] fix: keep names of generated variables from meeting the
 user's constants

A const, static or unit struct called name, registry, map, serializer etc.
in scope of an attributed trait or impl made the expansion fail to compile,
because patterns cannot shadow them. Use names with two underscores, as
serde_derive does.
---
 impl/src/tagged_impl.rs  |  4 +--
 impl/src/tagged_trait.rs | 60 ++++++++++++++++++++--------------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/impl/src/tagged_impl.rs b/impl/src/tagged_impl.rs
index 09e8c5e..bc73864 100644
--- a/impl/src/tagged_impl.rs
+++ b/impl/src/tagged_impl.rs
@@ -35,9 +35,9 @@ pub(crate) fn expand(args: ImplArgs, mut input: ItemImpl, mode: Mode) -> TokenSt
             typetag::#private::inventory::submit! {
                 <dyn #object>::typetag_register(
                     #name,
-                    (|deserializer| typetag::#private::Result::Ok(
+                    (|__deserializer| typetag::#private::Result::Ok(
                         typetag::#private::Box::new(
-                            typetag::#private::erased_serde::deserialize::<#this>(deserializer)?
+                            typetag::#private::erased_serde::deserialize::<#this>(__deserializer)?
                         ),
                     )) as typetag::#private::DeserializeFn<<dyn #object as typetag::#private::Strictest>::Object>,
                 )
diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index cf49917..b27e720 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -39,7 +39,7 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
         expanded.extend(quote! {
             impl #impl_generics typetag::#private::serde::Serialize
             for dyn #object #ty_generics + 'typetag #where_clause {
-                fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
+                fn serialize<__S>(&self, __serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                 where
                     __S: typetag::#private::serde::Serializer,
                 {
@@ -56,11 +56,11 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 impl #impl_generics typetag::#private::serde::Serialize
                 for dyn #object #ty_generics + #marker_traits + 'typetag #where_clause {
-                    fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
+                    fn serialize<__S>(&self, __serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                     where
                         __S: typetag::#private::serde::Serializer,
                     {
-                        typetag::#private::serde::Serialize::serialize(self as &dyn #object #ty_generics, serializer)
+                        typetag::#private::serde::Serialize::serialize(self as &dyn #object #ty_generics, __serializer)
                     }
                 }
             });
@@ -95,7 +95,7 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
 
             #[allow(unknown_lints, non_local_definitions)] // false positive: https://github.com/rust-lang/rust/issues/121621
             impl<'de> typetag::#private::serde::Deserialize<'de> for typetag::#private::Box<dyn #object + #strictest> {
-                fn deserialize<__D>(deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
+                fn deserialize<__D>(__deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
                 where
                     __D: typetag::#private::serde::Deserializer<'de>,
                 {
@@ -108,13 +108,13 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 #[allow(unknown_lints, non_local_definitions)] // false positive: https://github.com/rust-lang/rust/issues/121621
                 impl<'de> typetag::#private::serde::Deserialize<'de> for typetag::#private::Box<dyn #object + #marker_traits> {
-                    fn deserialize<__D>(deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
+                    fn deserialize<__D>(__deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
                     where
                         __D: typetag::#private::serde::Deserializer<'de>,
                     {
                         typetag::#private::Result::Ok(
                             <typetag::#private::Box<dyn #object + #strictest>
-                                as typetag::#private::serde::Deserialize<'de>>::deserialize(deserializer)?
+                                as typetag::#private::serde::Deserialize<'de>>::deserialize(__deserializer)?
                         )
                     }
                 }
@@ -170,8 +170,8 @@ fn build_registry(input: &ItemTrait) -> TokenStream {
 
         impl dyn #object {
             #[doc(hidden)]
-            #vis const fn typetag_register<T>(name: &'static typetag::#private::str, deserializer: T) -> TypetagRegistration<T> {
-                TypetagRegistration { name, deserializer }
+            #vis const fn typetag_register<T>(__name: &'static typetag::#private::str, __deserializer: T) -> TypetagRegistration<T> {
+                TypetagRegistration { name: __name, deserializer: __deserializer }
             }
         }
     }
@@ -180,22 +180,22 @@ fn build_registry(input: &ItemTrait) -> TokenStream {
 fn static_registry() -> TokenStream {
     quote! {
         static TYPETAG: typetag::#private::once_cell::race::OnceBox<typetag::#private::Registry<TypetagStrictest>> = typetag::#private::once_cell::race::OnceBox::new();
-        let registry = TYPETAG.get_or_init(|| {
-            let mut map = typetag::#private::BTreeMap::new();
-            let mut names = typetag::#private::Vec::new();
-            for registered in typetag::#private::inventory::iter::<TypetagRegistration<TypetagFn>> {
-                match map.entry(registered.name) {
-                    typetag::#private::btree_map::Entry::Vacant(entry) => {
-                        entry.insert(typetag::#private::Option::Some(registered.deserializer));
+        let __registry = TYPETAG.get_or_init(|| {
+            let mut __map = typetag::#private::BTreeMap::new();
+            let mut __names = typetag::#private::Vec::new();
+            for __registered in typetag::#private::inventory::iter::<TypetagRegistration<TypetagFn>> {
+                match __map.entry(__registered.name) {
+                    typetag::#private::btree_map::Entry::Vacant(__entry) => {
+                        __entry.insert(typetag::#private::Option::Some(__registered.deserializer));
                     }
-                    typetag::#private::btree_map::Entry::Occupied(mut entry) => {
-                        entry.insert(typetag::#private::Option::None);
+                    typetag::#private::btree_map::Entry::Occupied(mut __entry) => {
+                        __entry.insert(typetag::#private::Option::None);
                     }
                 }
-                names.push(registered.name);
+                __names.push(__registered.name);
             }
-            names.sort_unstable();
-            typetag::#private::Box::new(typetag::#private::Registry { map, names })
+            __names.sort_unstable();
+            typetag::#private::Box::new(typetag::#private::Registry { map: __map, names: __names })
         });
     }
 }
@@ -207,13 +207,13 @@ fn externally_tagged(input: &ItemTrait) -> (TokenStream, TokenStream) {
     let static_registry = static_registry();
 
     let serialize_impl = quote! {
-        let name = <Self as #object #ty_generics>::typetag_name(self);
-        typetag::#private::externally::serialize(serializer, name, self)
+        let __name = <Self as #object #ty_generics>::typetag_name(self);
+        typetag::#private::externally::serialize(__serializer, __name, self)
     };
 
     let deserialize_impl = quote! {
         #static_registry
-        typetag::#private::externally::deserialize(deserializer, #object_name, registry)
+        typetag::#private::externally::deserialize(__deserializer, #object_name, __registry)
     };
 
     (serialize_impl, deserialize_impl)
@@ -234,13 +234,13 @@ fn internally_tagged(
     };
 
     let serialize_impl = quote! {
-        let name = <Self as #object #ty_generics>::typetag_name(self);
-        typetag::#private::internally::serialize(serializer, #tag, name, self)
+        let __name = <Self as #object #ty_generics>::typetag_name(self);
+        typetag::#private::internally::serialize(__serializer, #tag, __name, self)
     };
 
     let deserialize_impl = quote! {
         #static_registry
-        typetag::#private::internally::deserialize(deserializer, #object_name, #tag, #default_variant_literal, registry)
+        typetag::#private::internally::deserialize(__deserializer, #object_name, #tag, #default_variant_literal, __registry)
     };
 
     (serialize_impl, deserialize_impl)
@@ -263,18 +263,18 @@ fn adjacently_tagged(
     };
 
     let serialize_impl = quote! {
-        let name = <Self as #object #ty_generics>::typetag_name(self);
-        typetag::#private::adjacently::serialize(serializer, #object_name, #tag, name, #content, self)
+        let __name = <Self as #object #ty_generics>::typetag_name(self);
+        typetag::#private::adjacently::serialize(__serializer, #object_name, #tag, __name, #content, self)
     };
 
     let deserialize_impl = quote! {
         #static_registry
         typetag::#private::adjacently::deserialize(
-            deserializer,
+            __deserializer,
             #object_name,
             &[#tag, #content],
             #default_variant_literal,
-            registry,
+            __registry,
             #deny_unknown_fields,
         )
     };
-- 
2.43.0


From dca3dd4f81de0fcc66b109142a573686b5e05a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:40 +0000
Subject: [PATCH 23/23] fix: lend buffered keys of internally tagged maps as
 the format does

Keys read before the tag was found were copied, so a type whose keys have to
be borrowed decoded only when the tag came first. Values were kept as lent.
---
 src/internally.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index a1ff030..26e2ae6 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -4,7 +4,6 @@ use crate::private::Registry;
 use crate::ser::{InternallyTaggedSerializer, Wrap};
 use alloc::borrow::ToOwned;
 use alloc::boxed::Box;
-use alloc::string::String;
 use alloc::vec::Vec;
 use core::fmt;
 use serde::de::{
@@ -97,15 +96,17 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                         return fn_apply.deserialize(rest);
                     }
                     deserialize_fn = Some(value);
-                    while let Some(key) = map.next_key::<String>()? {
-                        let key = Content::String(key);
+                    while let Some(key) = map.next_key_seed(key_visitor)? {
+                        let key = match key {
+                            Key::Tag => Content::Str(self.tag),
+                            Key::Other(key) => key,
+                        };
                         let value = map.next_value::<Content>()?;
                         entries.push((key, value));
                     }
                     break;
                 }
                 Key::Other(key) => {
-                    let key = Content::String(key);
                     let value = map.next_value::<Content>()?;
                     entries.push((key, value));
                 }
@@ -128,9 +129,9 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
     }
 }
 
-enum Key {
+enum Key<'de> {
     Tag,
-    Other(String),
+    Other(Content<'de>),
 }
 
 #[derive(Copy, Clone)]
@@ -140,7 +141,7 @@ struct KeyVisitor {
 }
 
 impl<'de> Visitor<'de> for KeyVisitor {
-    type Value = Key;
+    type Value = Key<'de>;
 
     fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
         write!(formatter, "a key in dyn {}", self.trait_object)
@@ -153,13 +154,24 @@ impl<'de> Visitor<'de> for KeyVisitor {
         if value == self.tag {
             Ok(Key::Tag)
         } else {
-            Ok(Key::Other(value.to_owned()))
+            Ok(Key::Other(Content::String(value.to_owned())))
+        }
+    }
+
+    fn visit_borrowed_str<E>(self, value: &'de str) -> Result<Self::Value, E>
+    where
+        E: de::Error,
+    {
+        if value == self.tag {
+            Ok(Key::Tag)
+        } else {
+            Ok(Key::Other(Content::Str(value)))
         }
     }
 }
 
 impl<'de> DeserializeSeed<'de> for KeyVisitor {
-    type Value = Key;
+    type Value = Key<'de>;
 
     fn deserialize<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
     where
-- 
2.43.0


From d409e94532969c9bccd1ac06e95a629a56a20ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:02 +0000
Subject: [PATCH 01/40] fix: read and write scalars without assuming the buffer
 is aligned

emplace_scalar and read_scalar dereferenced a *T cast from a byte slice.
The builder's write position is aligned only relative to the end of the
buffer, so with e.g. new_with_capacity(3), or when reading a buffer that
starts at an odd address, the access was misaligned: undefined behaviour,
and an abort in builds with debug assertions.
---
 butte/src/endian_scalar.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 1264591..21cbff2 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -156,8 +156,9 @@ pub fn emplace_scalar<T: EndianScalar>(s: &mut [u8], x: T) {
     let sz = size_of::<T>();
     let mut_ptr = (&mut s[..sz]).as_mut_ptr() as *mut T;
     let val = x.to_little_endian();
+    // The slice carries no alignment guarantee.
     unsafe {
-        *mut_ptr = val;
+        mut_ptr.write_unaligned(val);
     }
 }
 
@@ -176,7 +177,8 @@ pub fn read_scalar<T: EndianScalar>(s: &[u8]) -> Result<T, Error> {
     let sz = size_of::<T>();
 
     let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr() as *const T;
-    let x = unsafe { *p };
+    // The slice carries no alignment guarantee.
+    let x = unsafe { p.read_unaligned() };
 
     Ok(x.from_little_endian())
 }
-- 
2.43.0


From 384d941f4b2f16c388e15ff67d279e55a5424974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:02 +0000
Subject: [PATCH 02/40] fix: do not overflow on hostile vtable offsets

A table whose vtable offset leads before the start of the buffer (or
overflows i32) made the subtraction, or the bounds computation on the
resulting huge location, overflow and panic. Report OutOfBounds instead.
---
 butte/src/endian_scalar.rs | 3 +--
 butte/src/primitives.rs    | 6 +++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 21cbff2..ee6e9b9 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -166,8 +166,7 @@ pub fn emplace_scalar<T: EndianScalar>(s: &mut [u8], x: T) {
 /// Performs endian conversion, if necessary.
 #[inline]
 pub fn read_scalar_at<T: EndianScalar>(s: &[u8], loc: usize) -> Result<T, Error> {
-    let buf = &s.get(loc..loc + size_of::<T>()).ok_or(Error::OutOfBounds)?;
-    read_scalar(buf)
+    read_scalar(s.get(loc..).ok_or(Error::OutOfBounds)?)
 }
 
 /// Read an EndianScalar from the provided byte slice. Performs endian
diff --git a/butte/src/primitives.rs b/butte/src/primitives.rs
index 6bfe7fc..0ac11b7 100644
--- a/butte/src/primitives.rs
+++ b/butte/src/primitives.rs
@@ -258,7 +258,11 @@ impl<'a, T: Follow<'a>> Follow<'a> for BackwardsSOffset<T> {
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
         let slice = buf.get(loc..loc + SIZE_SOFFSET).ok_or(Error::OutOfBounds)?;
         let off = read_scalar::<SOffsetT>(slice)?;
-        T::follow(buf, (loc as SOffsetT - off) as usize)
+        let target = loc as i64 - i64::from(off);
+        if target < 0 {
+            return Err(Error::OutOfBounds);
+        }
+        T::follow(buf, target as usize)
     }
 }
 
-- 
2.43.0


From b1fd08eec39fe9fdcc21029846ea1506a1a5d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:02 +0000
Subject: [PATCH 03/40] fix: vtable field count and indexed lookup on short
 vtables

num_fields underflowed for a stored vtable length below 4, and get_field
read one entry past the end of the vtable for idx == num_fields.
---
 butte/src/vtable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte/src/vtable.rs b/butte/src/vtable.rs
index cc7df14..493c32f 100644
--- a/butte/src/vtable.rs
+++ b/butte/src/vtable.rs
@@ -36,7 +36,7 @@ impl<'a> VTable<'a> {
         VTable { buf, loc }
     }
     pub fn num_fields(&self) -> Result<usize, Error> {
-        Ok((self.num_bytes()? / SIZE_VOFFSET) - 2)
+        Ok((self.num_bytes()? / SIZE_VOFFSET).saturating_sub(2))
     }
     pub fn num_bytes(&self) -> Result<usize, Error> {
         Ok(read_scalar_at::<VOffsetT>(self.buf, self.loc)? as usize)
@@ -46,7 +46,7 @@ impl<'a> VTable<'a> {
         Ok(n as usize)
     }
     pub fn get_field(&self, idx: usize) -> Result<Option<VOffsetT>, Error> {
-        if idx > self.num_fields()? {
+        if idx >= self.num_fields()? {
             return Ok(None);
         }
         read_scalar_at::<VOffsetT>(
-- 
2.43.0


From 0f0f2f9b71b95ff779b845ef5ef1ba4561bc0518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:02 +0000
Subject: [PATCH 04/40] fix: Vector::get reports an out-of-range index as an
 error

The index was only checked by a debug assertion: a panic in debug builds,
and in release builds the bytes after the vector were returned as an
element.
---
 butte/src/vector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index dfd2c46..2f016d6 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -66,7 +66,9 @@ impl<'a, T: 'a> Vector<'a, T> {
 impl<'a, T: Follow<'a> + 'a> Vector<'a, T> {
     #[inline(always)]
     pub fn get(&self, idx: usize) -> Result<T::Inner, Error> {
-        debug_assert!(idx < read_scalar_at::<u32>(self.0, self.1)? as usize);
+        if idx >= self.len()? {
+            return Err(Error::OutOfBounds);
+        }
         let sz = size_of::<T>();
         debug_assert!(sz > 0);
         T::follow(self.0, self.1 as usize + SIZE_UOFFSET + sz * idx)
-- 
2.43.0


From 4faf0ff881a7b50ccc02daae66f51bad1e0a3448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:02 +0000
Subject: [PATCH 05/40] fix: VectorIter::nth overflow for huge skip counts

sz * n panicked in builds with overflow checks although the comment above
intends the overflow to be harmless.
---
 butte/src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 2f016d6..3023913 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -254,7 +254,7 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
 
         // Note that this might overflow, but that is okay because
         // in that case self.remaining will have been set to zero.
-        self.loc = self.loc.wrapping_add(sz * n);
+        self.loc = self.loc.wrapping_add(sz.wrapping_mul(n));
 
         self.next()
     }
-- 
2.43.0


From 400b50585258e8319bdc9c9388532642f0f05c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:02 +0000
Subject: [PATCH 06/40] fix: reset discards the fields of an abandoned table

reset() left field_locs behind when called with a table under
construction, so the next table got vtable entries for fields that were
never written to it.
---
 butte/src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index bcf4418..30ced3d 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -110,6 +110,7 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
         }
 
         self.head = self.owned_buf.len();
+        self.field_locs.clear();
         self.written_vtable_revpos.clear();
 
         self.nested = false;
-- 
2.43.0


From 82669d9b0c37df55495124e01e06c085c1869ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 07/40] fix: refuse slices that are not aligned for their
 element type

---
 butte/src/error.rs  | 3 +++
 butte/src/vector.rs | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/butte/src/error.rs b/butte/src/error.rs
index c7a622d..a81124d 100644
--- a/butte/src/error.rs
+++ b/butte/src/error.rs
@@ -15,6 +15,8 @@ pub enum Error {
     UnknownEnumVariant,
     /// Returned if a buffer refers to an unknown union variant
     UnknownUnionVariant,
+    /// Returned if a slice of the flatbuffer is not aligned for its element type
+    Unaligned,
     /// Returned if a type doesn't have a default value
     NoTypeDefaultValue,
 }
@@ -28,6 +30,7 @@ impl fmt::Display for Error {
             Error::NonNullTerminatedString => write!(f, "string is not terminated with null"),
             Error::UnknownEnumVariant => write!(f, "unknown enum variant"),
             Error::UnknownUnionVariant => write!(f, "unknown union variant"),
+            Error::Unaligned => write!(f, "slice is not aligned for its element type"),
             Error::NoTypeDefaultValue => write!(f, "type does not have a default value"),
         }
     }
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 3023913..c2b459f 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -18,7 +18,7 @@
 use std::{
     iter::{DoubleEndedIterator, ExactSizeIterator, FusedIterator},
     marker::PhantomData,
-    mem::size_of,
+    mem::{align_of, size_of},
     slice::from_raw_parts,
     str::from_utf8,
 };
@@ -95,6 +95,9 @@ impl<'a, T: SafeSliceAccess + 'a> Vector<'a, T> {
             .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
             .ok_or(Error::OutOfBounds)?;
         let ptr = data_buf.as_ptr() as *const T;
+        if ptr as usize % align_of::<T>() != 0 {
+            return Err(Error::Unaligned);
+        }
         let s: &'a [T] = unsafe { from_raw_parts(ptr, len) };
         Ok(s)
     }
@@ -171,6 +174,9 @@ fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
         .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
         .ok_or(Error::OutOfBounds)?;
     let ptr = data_buf.as_ptr() as *const T;
+    if ptr as usize % align_of::<T>() != 0 {
+        return Err(Error::Unaligned);
+    }
     let s: &[T] = unsafe { from_raw_parts(ptr, len) };
     Ok(s)
 }
-- 
2.43.0


From da6fc78991e185266726a85feb97a60697a1ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 08/40] fix: enforce the 2 GiB limit on the whole buffer

---
 butte/src/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 30ced3d..5a4a6e8 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -634,13 +634,13 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
     #[inline]
     fn ensure_capacity(&mut self, want: usize) -> usize {
-        if self.unused_ready_space() >= want {
-            return want;
-        }
         assert!(
-            want <= FLATBUFFERS_MAX_BUFFER_SIZE,
+            want <= FLATBUFFERS_MAX_BUFFER_SIZE - self.used_space(),
             "cannot grow buffer beyond 2 gigabytes"
         );
+        if self.unused_ready_space() >= want {
+            return want;
+        }
 
         while self.unused_ready_space() < want {
             self.grow_owned_buf();
-- 
2.43.0


From d286773ba945a1789d175f0b18b946866fd30b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:05 +0000
Subject: [PATCH 09/40] fix: do not materialise bools from bytes other than 0
 and 1

---
 butte/src/endian_scalar.rs | 28 ++++++++++++++++++++++++++--
 butte/src/error.rs         |  3 +++
 butte/src/vector.rs        |  5 ++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index ee6e9b9..5f029ec 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -32,6 +32,12 @@ pub trait EndianScalar: Sized + PartialEq + Copy + Clone {
     fn to_little_endian(self) -> Self;
     #[allow(clippy::wrong_self_convention)]
     fn from_little_endian(self) -> Self;
+    /// Whether the bytes are a sequence of valid values of this type. Types
+    /// for which some bit patterns are not values must override this.
+    #[inline]
+    fn valid_bytes(_bytes: &[u8]) -> bool {
+        true
+    }
 }
 
 /// Macro for implementing a no-op endian conversion. This is used for types
@@ -70,7 +76,21 @@ macro_rules! impl_endian_scalar_stdlib_le_conversion {
     };
 }
 
-impl_endian_scalar_noop!(bool);
+impl EndianScalar for bool {
+    #[inline]
+    fn to_little_endian(self) -> Self {
+        self
+    }
+    #[inline]
+    fn from_little_endian(self) -> Self {
+        self
+    }
+    #[inline]
+    fn valid_bytes(bytes: &[u8]) -> bool {
+        bytes.iter().all(|b| *b <= 1)
+    }
+}
+
 impl_endian_scalar_noop!(u8);
 impl_endian_scalar_noop!(i8);
 
@@ -175,7 +195,11 @@ pub fn read_scalar_at<T: EndianScalar>(s: &[u8], loc: usize) -> Result<T, Error>
 pub fn read_scalar<T: EndianScalar>(s: &[u8]) -> Result<T, Error> {
     let sz = size_of::<T>();
 
-    let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr() as *const T;
+    let s = s.get(..sz).ok_or(Error::OutOfBounds)?;
+    if !T::valid_bytes(s) {
+        return Err(Error::InvalidScalar);
+    }
+    let p = s.as_ptr() as *const T;
     // The slice carries no alignment guarantee.
     let x = unsafe { p.read_unaligned() };
 
diff --git a/butte/src/error.rs b/butte/src/error.rs
index a81124d..bc37e83 100644
--- a/butte/src/error.rs
+++ b/butte/src/error.rs
@@ -17,6 +17,8 @@ pub enum Error {
     UnknownUnionVariant,
     /// Returned if a slice of the flatbuffer is not aligned for its element type
     Unaligned,
+    /// Returned if the bytes of a scalar are not a value of its type
+    InvalidScalar,
     /// Returned if a type doesn't have a default value
     NoTypeDefaultValue,
 }
@@ -31,6 +33,7 @@ impl fmt::Display for Error {
             Error::UnknownEnumVariant => write!(f, "unknown enum variant"),
             Error::UnknownUnionVariant => write!(f, "unknown union variant"),
             Error::Unaligned => write!(f, "slice is not aligned for its element type"),
+            Error::InvalidScalar => write!(f, "bytes are not a value of the scalar type"),
             Error::NoTypeDefaultValue => write!(f, "type does not have a default value"),
         }
     }
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index c2b459f..3b628ab 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -166,13 +166,16 @@ impl<'a> Follow<'a> for &'a str {
 }
 
 #[cfg(target_endian = "little")]
-fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
+fn follow_slice_helper<T: EndianScalar>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
     let sz = size_of::<T>();
     debug_assert!(sz > 0);
     let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
     let data_buf = buf
         .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
         .ok_or(Error::OutOfBounds)?;
+    if !T::valid_bytes(data_buf) {
+        return Err(Error::InvalidScalar);
+    }
     let ptr = data_buf.as_ptr() as *const T;
     if ptr as usize % align_of::<T>() != 0 {
         return Err(Error::Unaligned);
-- 
2.43.0


From b21c2ccac8695f3f49cdcb94da3972233567ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:48 +0000
Subject: [PATCH 10/40] fix: report unparsed input without slicing past its end

---
 butte-build/src/compile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 1f22894..f664e1a 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -28,7 +28,7 @@ pub fn compile_fbs_generic(
     if !rest.is_empty() {
         return Err(anyhow!(
             "Parse was incomplete: not parsed: {}...",
-            &rest[..30]
+            rest.chars().take(30).collect::<String>()
         ));
     }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
-- 
2.43.0


From 1d00313af39b694be3199612bea664403439d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:49 +0000
Subject: [PATCH 11/40] fix: report unsupported schema elements as errors

---
 butte-build/src/ir/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index cfbd41e..0e855e7 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -74,10 +74,10 @@ impl<'a> Builder<'a> {
             ast::Element::Union(u) => self.new_union(u, pos),
             ast::Element::Rpc(r) => self.new_rpc(r, pos),
             ast::Element::Root(r) => self.new_root(r, pos),
-            ast::Element::FileExtension(..) => unimplemented!(),
-            ast::Element::FileIdentifier(..) => unimplemented!(),
-            ast::Element::Attribute(..) => unimplemented!(),
-            ast::Element::Object(..) => unimplemented!(),
+            ast::Element::FileExtension(..) => Err(anyhow!("file_extension is not supported")),
+            ast::Element::FileIdentifier(..) => Err(anyhow!("file_identifier is not supported")),
+            ast::Element::Attribute(..) => Err(anyhow!("attribute is not supported")),
+            ast::Element::Object(..) => Err(anyhow!("object literals are not supported")),
         }
     }
 
-- 
2.43.0


From 7571e36b487331de3ea56cc98c9577f9b2356aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:51 +0000
Subject: [PATCH 12/40] fix: match constant keywords only where they start and
 consume only them

---
 butte-build/src/ast/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index b8241fb..78ebf67 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -1965,14 +1965,14 @@ mod hex_integer_constant_tests {
 
 pub fn true_(input: &str) -> IResult<&str, BooleanConstant> {
     value(true, |input: &str| {
-        nom::re_match!(input, r"\btrue\b")?;
+        nom::re_match!(input, r"^true\b")?;
         tag("true")(input)
     })(input)
 }
 
 pub fn false_(input: &str) -> IResult<&str, BooleanConstant> {
     value(false, |input: &str| {
-        nom::re_match!(input, r"\bfalse\b")?;
+        nom::re_match!(input, r"^false\b")?;
         tag("false")(input)
     })(input)
 }
@@ -2180,7 +2180,8 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
 pub fn nan(input: &str) -> IResult<&str, FloatingConstant> {
     map(
         terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\bnan\b")
+            nom::re_match!(input, r"^nan\b")?;
+            tag("nan")(input)
         }),
         |sign| {
             if let Some('-') = sign {
@@ -2228,7 +2229,8 @@ mod nan_tests {
 pub fn inf_or_infinity(input: &str) -> IResult<&str, FloatingConstant> {
     map(
         terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\binf(inity)?\b")
+            nom::re_match!(input, r"^inf(inity)?\b")?;
+            alt((tag("infinity"), tag("inf")))(input)
         }),
         |sign| {
             if let Some('-') = sign {
-- 
2.43.0


From 94370add399b2e18e90f2096afd88a552359f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:53 +0000
Subject: [PATCH 13/40] fix: scalar type names match whole words, spaces
 allowed inside brackets

---
 butte-build/src/ast/parser.rs | 60 +++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 78ebf67..00fd286 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -1272,34 +1272,48 @@ SayHello // foo
     }
 }
 
+/// Parse a whole word: `word` not followed by another identifier character.
+fn keyword<'a>(word: &'static str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    terminated(
+        tag(word),
+        not(take_while_m_n(1, 1, |c: char| {
+            c.is_alphanumeric() || c == '_'
+        })),
+    )
+}
+
 pub fn type_(input: &str) -> IResult<&str, Type<'_>> {
     alt((
         alt((
-            value(Type::Bool, tag("bool")),
-            value(Type::Byte, tag("byte")),
-            value(Type::UByte, tag("ubyte")),
-            value(Type::Short, tag("short")),
-            value(Type::UShort, tag("ushort")),
-            value(Type::Long, tag("long")),
-            value(Type::ULong, tag("ulong")),
-            value(Type::Double, tag("double")),
-            value(Type::Int8, tag("int8")),
-            value(Type::UInt8, tag("uint8")),
-            value(Type::Int16, tag("int16")),
-            value(Type::UInt16, tag("uint16")),
-            value(Type::Int32, tag("int32")),
-            value(Type::UInt32, tag("uint32")),
-            value(Type::Int64, tag("int64")),
-            value(Type::UInt64, tag("uint64")),
-            value(Type::Float32, tag("float32")),
-            value(Type::Float64, tag("float64")),
-            value(Type::Int, tag("int")),
-            value(Type::UInt, tag("uint")),
-            value(Type::Float, tag("float")),
+            value(Type::Bool, keyword("bool")),
+            value(Type::Byte, keyword("byte")),
+            value(Type::UByte, keyword("ubyte")),
+            value(Type::Short, keyword("short")),
+            value(Type::UShort, keyword("ushort")),
+            value(Type::Long, keyword("long")),
+            value(Type::ULong, keyword("ulong")),
+            value(Type::Double, keyword("double")),
+            value(Type::Int8, keyword("int8")),
+            value(Type::UInt8, keyword("uint8")),
+            value(Type::Int16, keyword("int16")),
+            value(Type::UInt16, keyword("uint16")),
+            value(Type::Int32, keyword("int32")),
+            value(Type::UInt32, keyword("uint32")),
+            value(Type::Int64, keyword("int64")),
+            value(Type::UInt64, keyword("uint64")),
+            value(Type::Float32, keyword("float32")),
+            value(Type::Float64, keyword("float64")),
+            value(Type::Int, keyword("int")),
+            value(Type::UInt, keyword("uint")),
+            value(Type::Float, keyword("float")),
         )),
-        value(Type::String, tag("string")),
+        value(Type::String, keyword("string")),
         map(
-            delimited(left_square_bracket, type_, right_square_bracket),
+            delimited(
+                terminated(left_square_bracket, comment_or_space0),
+                type_,
+                preceded(comment_or_space0, right_square_bracket),
+            ),
             |t| Type::from([t]),
         ),
         map(qualified_ident, Type::Ident),
-- 
2.43.0


From f7d144f500406757abed31b6297f2ef40132f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:54 +0000
Subject: [PATCH 14/40] fix: accept whitespace and comments before enum
 metadata and in an empty schema

---
 butte-build/src/ast/parser.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 00fd286..cdb15bf 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -258,14 +258,17 @@ pub fn comment_or_space1(input: &str) -> IResult<&str, ()> {
 /// Parse a flatbuffer schema.
 pub fn schema_decl(input: &str) -> IResult<&str, Schema<'_>> {
     map(
-        tuple((
-            many0(delimited(
-                comment_or_space0,
-                include_decl,
-                comment_or_space0,
+        terminated(
+            tuple((
+                many0(delimited(
+                    comment_or_space0,
+                    include_decl,
+                    comment_or_space0,
+                )),
+                many0(delimited(comment_or_space0, element, comment_or_space0)),
             )),
-            many0(delimited(comment_or_space0, element, comment_or_space0)),
-        )),
+            comment_or_space0,
+        ),
         Schema::from,
     )(input)
 }
@@ -700,7 +703,7 @@ pub fn enum_decl(input: &str) -> IResult<&str, Enum<'_>> {
             delimited(comment_or_space1, ident, comment_or_space0),
         ),
         preceded(colon, preceded(comment_or_space0, type_)),
-        metadata,
+        preceded(comment_or_space0, metadata),
         enum_body,
     ));
     map(parser, |(comment, name, base_type, metadata, variants)| {
-- 
2.43.0


From dc21f8d34466ceb2f93b091cd401ff0559aeba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:35 +0000
Subject: [PATCH 15/40] fix: reject identifiers that cannot be Rust identifiers

---
 butte-build/src/ast/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index cdb15bf..45cb647 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -115,10 +115,14 @@ pub fn right_square_bracket(input: &str) -> IResult<&str, char> {
 
 pub fn ident(input: &str) -> IResult<&str, Ident<'_>> {
     map(
-        recognize(preceded(
-            take_while_m_n(1, 1, |c: char| c.is_alphabetic() || c == '_'),
-            take_while(|c: char| c.is_alphanumeric() || c == '_'),
-        )),
+        verify(
+            recognize(preceded(
+                take_while_m_n(1, 1, |c: char| c.is_alphabetic() || c == '_'),
+                take_while(|c: char| c.is_alphanumeric() || c == '_'),
+            )),
+            // Not every alphanumeric character can be part of a Rust identifier
+            |s: &str| s.is_ascii() || syn::parse_str::<syn::Ident>(&format!("{}_", s)).is_ok(),
+        ),
         Ident::from,
     )(input)
 }
-- 
2.43.0


From 60a9eb18339bc82ef72c4013903bb826654d4e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:37 +0000
Subject: [PATCH 16/40] fix: report a failing rustfmt instead of writing what
 it left

---
 butte-build/src/compile.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index f664e1a..23cd13e 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -50,7 +50,11 @@ pub fn compile_fbs_generic(
             .as_mut()
             .ok_or_else(|| anyhow!("cannot access stdin"))?
             .write_all(code.as_bytes())?;
-        cmd.wait_with_output()?.stdout
+        let formatted = cmd.wait_with_output()?;
+        if !formatted.status.success() {
+            return Err(anyhow!("rustfmt failed: {}", formatted.status));
+        }
+        formatted.stdout
     } else {
         Vec::from(code)
     };
-- 
2.43.0


From cbaf49ccffc49fb5eaac7270c383eb1878b9c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:38 +0000
Subject: [PATCH 17/40] fix: flush the output so that late write errors are
 reported

---
 butte-build/src/compile.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 23cd13e..0e29f5f 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -59,6 +59,7 @@ pub fn compile_fbs_generic(
         Vec::from(code)
     };
     output.write_all(&text_output[..])?;
+    output.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From e7616a3d48e4b932b4cce536733c01f10649df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:39 +0000
Subject: [PATCH 18/40] fix: resolve deferred declarations in the namespace
 they were written in

---
 butte-build/src/ir/transform.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 0e855e7..9db476a 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -16,7 +16,7 @@ pub struct Builder<'a> {
 }
 
 #[derive(Clone, Debug)]
-struct IndexedElement<'a>(usize, ast::Element<'a>);
+struct IndexedElement<'a>(usize, Option<ast::Namespace<'a>>, ast::Element<'a>);
 
 #[derive(Clone, Debug, PartialEq)]
 enum CustomTypeStatus<'a> {
@@ -64,8 +64,11 @@ impl<'a> NamespaceBuf<'a> {
 impl<'a> Builder<'a> {
     fn new_element(
         &mut self,
-        &IndexedElement(pos, ref element): &IndexedElement<'a>,
+        &IndexedElement(pos, ref namespace, ref element): &IndexedElement<'a>,
     ) -> Result<bool> {
+        // An element may be retried after later namespace declarations were
+        // seen, so restore the namespace it was declared in.
+        self.current_namespace = namespace.clone();
         match element {
             ast::Element::Namespace(n) => self.new_namespace(n),
             ast::Element::Table(t) => self.new_table(t, pos),
@@ -535,11 +538,17 @@ impl<'a> Builder<'a> {
 
         // Keep track of the definition order,
         // mostly to build IR deterministically
+        let mut namespace = None;
         let mut input: VecDeque<_> = schema
             .elements
             .into_iter()
             .enumerate()
-            .map(|(i, el)| IndexedElement(i, el))
+            .map(|(i, el)| {
+                if let ast::Element::Namespace(ref ns) = el {
+                    namespace = Some(ns.clone());
+                }
+                IndexedElement(i, namespace.clone(), el)
+            })
             .collect();
 
         // Loop until all types can be defined
@@ -559,7 +568,7 @@ impl<'a> Builder<'a> {
                 if context.nodes.len() == nodes_len {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
-                        .map(|IndexedElement(_, element)| element)
+                        .map(|IndexedElement(_, _, element)| element)
                         .collect::<Vec<_>>();
                     return Err(anyhow!("Unable to type schema: the following definitions referenced items not found: {:?}", unsatisfied_elements));
                     // TODO proper reporting
-- 
2.43.0


From 5f9a2c245b72be860564ffb8e703c97cc524f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 19/40] fix: keep resolving while new tables are declared

---
 butte-build/src/ir/transform.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 9db476a..a0a0f4f 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -555,7 +555,9 @@ impl<'a> Builder<'a> {
         // or stop if we make no progress
         loop {
             let mut unsatisfied = VecDeque::new();
-            let nodes_len = context.nodes.len();
+            // Declared but still unresolved tables count as progress too: other
+            // definitions may have been waiting for their declaration.
+            let known = context.nodes.len() + context.types.len();
             while let Some(element) = input.pop_front() {
                 if !context.new_element(&element)? {
                     unsatisfied.push_back(element);
@@ -565,7 +567,7 @@ impl<'a> Builder<'a> {
                 break; // everything is satisfied
             } else {
                 // Didn't we progress?
-                if context.nodes.len() == nodes_len {
+                if context.nodes.len() + context.types.len() == known {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
                         .map(|IndexedElement(_, _, element)| element)
-- 
2.43.0


From 25830acf426d477c4dd49ecaba493f085ff52469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 20/40] fix: implicit enum values follow the previous variant's
 value

---
 butte-build/src/codegen.rs  | 19 +++++--------------
 butte-build/src/ir/types.rs | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 2a1b532..88b5702 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -5,7 +5,7 @@ use heck::{ShoutySnakeCase, SnakeCase};
 use itertools::Itertools;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use std::{convert::TryInto, fmt};
+use std::fmt;
 use syn::spanned::Spanned;
 
 #[cfg(test)]
@@ -910,24 +910,15 @@ impl ToTokens for ir::Enum<'_> {
             .next();
 
         // assign a value to the key if one was given, otherwise give it the
-        // enumerated index's value
-        let variants_and_scalars = variants.iter().enumerate().map(
+        // value following the previous one
+        let variants_and_scalars = variants.iter().zip(ir::variant_values(variants)).map(
             |(
-                index,
                 ir::EnumVariant {
-                    ident: key,
-                    value,
-                    doc,
+                    ident: key, doc, ..
                 },
+                scalar_value,
             )| {
                 // format the value with the correct type, i.e., base_type
-                let scalar_value = if let Some(constant) = *value {
-                    constant
-                } else {
-                    index
-                        .try_into()
-                        .expect("invalid conversion to enum base type")
-                };
                 let formatted_value = scalar_value.fmt_lit(base_type.to_token_stream());
                 (quote!(#key), quote!(#formatted_value), doc)
             },
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 0deb591..ee79582 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -419,6 +419,20 @@ pub struct EnumVariant<'a> {
     pub doc: ast::Comment<'a>,
 }
 
+/// The value of each variant: the one given, or else one more than the
+/// previous variant's, starting at zero.
+pub fn variant_values(variants: &[EnumVariant<'_>]) -> Vec<ast::IntegerConstant> {
+    let mut next: ast::IntegerConstant = 0;
+    variants
+        .iter()
+        .map(|variant| {
+            let value = variant.value.unwrap_or(next);
+            next = value.saturating_add(1);
+            value
+        })
+        .collect()
+}
+
 /// Type for `Union` variants.
 #[derive(Debug, Clone, PartialEq, From, TypedBuilder)]
 pub struct UnionVariant<'a> {
-- 
2.43.0


From 90bc8fd315d3a75bb61970d46dea2d4435d84ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 21/40] fix: honour explicit union variant values

---
 butte-build/src/ir/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index a0a0f4f..c97957b 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -347,7 +347,7 @@ impl<'a> Builder<'a> {
         })
         .chain(u.variants.iter().map(|v| ir::EnumVariant {
             ident: v.id.into(),
-            value: None,
+            value: v.value,
             doc: v.doc.clone(),
         }))
         .collect();
-- 
2.43.0


From bdcdfb18d37e0a333aa68de22ab6ca3f3c24787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:47 +0000
Subject: [PATCH 22/40] fix: reject enum and union values that are duplicated
 or out of range

---
 butte-build/src/ir/transform.rs | 33 +++++++++++++++++++++++++++++++++
 butte-build/src/ir/types.rs     | 27 +++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index c97957b..0ec9ebd 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -61,6 +61,35 @@ impl<'a> NamespaceBuf<'a> {
     }
 }
 
+// Variants must have distinct values which fit the base type
+fn check_variant_values(
+    ident: &ir::QualifiedIdent<'_>,
+    variants: &[ir::EnumVariant<'_>],
+    base_type: ir::EnumBaseType,
+) -> Result<()> {
+    let (min, max) = base_type.range();
+    let mut seen = HashSet::new();
+    for (variant, value) in variants.iter().zip(ir::variant_values(variants)) {
+        if value < min || value > max {
+            return Err(anyhow!(
+                "value of {}.{} is out of range: {}",
+                ident,
+                variant.ident,
+                value
+            ));
+        }
+        if !seen.insert(value) {
+            return Err(anyhow!(
+                "value of {}.{} is already used: {}",
+                ident,
+                variant.ident,
+                value
+            ));
+        }
+    }
+    Ok(())
+}
+
 impl<'a> Builder<'a> {
     fn new_element(
         &mut self,
@@ -253,6 +282,8 @@ impl<'a> Builder<'a> {
             })
             .collect();
 
+        check_variant_values(ident, &variants, base_type)?;
+
         let doc = e.doc.clone();
 
         self.types.insert(
@@ -352,6 +383,8 @@ impl<'a> Builder<'a> {
         }))
         .collect();
 
+        check_variant_values(ident, &variants, base_type)?;
+
         let doc = u.doc.clone();
 
         self.types.insert(
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index ee79582..c37507a 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -312,6 +312,33 @@ pub enum EnumBaseType {
     UInt64,
 }
 
+impl EnumBaseType {
+    /// The smallest and largest value of the type
+    pub fn range(self) -> (ast::IntegerConstant, ast::IntegerConstant) {
+        let bits = match self {
+            EnumBaseType::Byte | EnumBaseType::UByte => 8,
+            EnumBaseType::Int8 | EnumBaseType::UInt8 => 8,
+            EnumBaseType::Short | EnumBaseType::UShort => 16,
+            EnumBaseType::Int16 | EnumBaseType::UInt16 => 16,
+            EnumBaseType::Int | EnumBaseType::UInt => 32,
+            EnumBaseType::Int32 | EnumBaseType::UInt32 => 32,
+            EnumBaseType::Long | EnumBaseType::ULong => 64,
+            EnumBaseType::Int64 | EnumBaseType::UInt64 => 64,
+        };
+        match self {
+            EnumBaseType::Byte
+            | EnumBaseType::Short
+            | EnumBaseType::Int
+            | EnumBaseType::Long
+            | EnumBaseType::Int8
+            | EnumBaseType::Int16
+            | EnumBaseType::Int32
+            | EnumBaseType::Int64 => (-(1 << (bits - 1)), (1 << (bits - 1)) - 1),
+            _ => (0, (1 << bits) - 1),
+        }
+    }
+}
+
 impl<'a> std::convert::TryFrom<&ast::Type<'a>> for EnumBaseType {
     type Error = ();
     fn try_from(ty: &ast::Type<'a>) -> Result<Self, Self::Error> {
-- 
2.43.0


From 80750175311613abb7a5f671de2bd630d18a8c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:26 +0000
Subject: [PATCH 23/40] fix: report structs as unsupported instead of panicking

---
 butte-build/src/compile.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 0e29f5f..0f56b2c 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -1,6 +1,6 @@
 use crate::{
     codegen::{CodeGenerator, RpcGenerator},
-    ir::Builder,
+    ir::{types::Node, Builder},
 };
 /// Compile flatbuffers files
 use std::io::{self, Write};
@@ -33,6 +33,8 @@ pub fn compile_fbs_generic(
     }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
 
+    check_supported(&root.nodes)?;
+
     let mut generator = CodeGenerator { root, rpc_gen };
 
     let code = format!("{}", generator.build_token_stream());
@@ -63,6 +65,18 @@ pub fn compile_fbs_generic(
     Ok(())
 }
 
+/// Reject constructs for which no code can be generated.
+fn check_supported(nodes: &[Node<'_>]) -> Result<()> {
+    for node in nodes {
+        match node {
+            Node::Struct(s) => return Err(anyhow!("structs are not supported: {}", s.ident)),
+            Node::Namespace(ns) => check_supported(&ns.nodes)?,
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 /// Generate Rust code for a single flatbuffer schema file.
 pub fn compile_fbs(path: impl AsRef<Path>) -> Result<()> {
     let out_dir = PathBuf::from(std::env::var("OUT_DIR")?);
-- 
2.43.0


From 5e26eea929b447d0fa6cfbded05262b6e84d9026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:27 +0000
Subject: [PATCH 24/40] fix: reject unions of anything but tables

---
 butte-build/src/ir/transform.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 0ec9ebd..316c40c 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -320,6 +320,19 @@ impl<'a> Builder<'a> {
             let ty = self.try_type(&ast::Type::Ident(ast::QualifiedIdent::from(vec![f.id])));
             if let Some(ty) = ty {
                 let id = &f.id;
+                if !matches!(
+                    ty,
+                    ir::Type::Custom(ir::CustomTypeRef {
+                        ty: ir::CustomType::Table,
+                        ..
+                    })
+                ) {
+                    return Err(anyhow!(
+                        "only tables can be union variants: {} in {}",
+                        id.raw,
+                        ident
+                    ));
+                }
                 variants.push(ir::UnionVariant {
                     ty,
                     ident: ir::Ident::from(id),
-- 
2.43.0


From 4b8bfdfc756312cbc3f744aab74a0465c8539c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:29 +0000
Subject: [PATCH 25/40] fix: report arrays of unions as unsupported

---
 butte-build/src/ir/transform.rs | 7 +++++++
 butte-build/src/ir/types.rs     | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 316c40c..7c72a88 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -138,6 +138,13 @@ impl<'a> Builder<'a> {
         for f in &t.fields {
             let ty = self.try_type(&f.ty);
             if let Some(ty) = ty {
+                if ty.contains_union_array() {
+                    return Err(anyhow!(
+                        "arrays of unions are not supported: {}.{}",
+                        ident,
+                        f.id.raw
+                    ));
+                }
                 let required = match &f.metadata {
                     Some(m) => matches!(m.values.get(&ast::Ident::from("required")), Some(None)),
                     None => false,
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index c37507a..770b21d 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -203,6 +203,14 @@ impl<'a> Type<'a> {
         matches!(self, Type::Array(..))
     }
 
+    // Is it an array whose innermost elements are unions?
+    pub fn contains_union_array(&self) -> bool {
+        match self {
+            Type::Array(component) => component.is_union() || component.contains_union_array(),
+            _ => false,
+        }
+    }
+
     // Is it a complex type that will trigger Clippy warnings
     pub fn is_complex(&self) -> bool {
         self.is_array()
-- 
2.43.0


From fd17d737d553d1bcebfb922d89874560bc0efbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:31 +0000
Subject: [PATCH 26/40] fix: reject default values that are not values of the
 field's type

---
 butte-build/src/ir/transform.rs | 10 +++++++
 butte-build/src/ir/types.rs     | 46 +++++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 7c72a88..0130a03 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -167,6 +167,16 @@ impl<'a> Builder<'a> {
                         doc,
                     });
                 }
+                if let Some(default_value) = &f.default_value {
+                    if !ty.accepts_default(default_value) {
+                        return Err(anyhow!(
+                            "invalid default value for {}.{}: {:?}",
+                            ident,
+                            f.id.raw,
+                            default_value
+                        ));
+                    }
+                }
                 let ident = ir::Ident::from(&f.id);
                 // Use `Some` explicit or implicit default value or `None`
                 let default_value = f.default_value.clone().or_else(|| (&f.ty).try_into().ok());
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 770b21d..3a7cd70 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -216,6 +216,52 @@ impl<'a> Type<'a> {
         self.is_array()
     }
 
+    // Is this default value a value of this type?
+    pub fn accepts_default(&self, default_value: &ast::DefaultValue<'_>) -> bool {
+        use ast::{DefaultValue, Scalar};
+        let integer_type = match self {
+            Type::Bool => {
+                return matches!(default_value, DefaultValue::Scalar(Scalar::Boolean(_)))
+            }
+            Type::Float | Type::Float32 | Type::Double | Type::Float64 => {
+                let single = matches!(self, Type::Float | Type::Float32);
+                return match default_value {
+                    DefaultValue::Scalar(Scalar::Integer(_)) => true,
+                    DefaultValue::Scalar(Scalar::Float(f)) => {
+                        !single || f.is_finite() == (*f as f32).is_finite()
+                    }
+                    _ => false,
+                };
+            }
+            Type::Custom(CustomTypeRef {
+                ty: CustomType::Enum { variants, .. },
+                ..
+            }) => {
+                return match default_value {
+                    DefaultValue::Ident(id) => {
+                        let id = Ident::from(id);
+                        variants.iter().any(|v| v.ident == id)
+                    }
+                    _ => false,
+                }
+            }
+            Type::String | Type::Array(..) | Type::Custom(..) => return false,
+            Type::Byte | Type::Int8 => EnumBaseType::Byte,
+            Type::UByte | Type::UInt8 => EnumBaseType::UByte,
+            Type::Short | Type::Int16 => EnumBaseType::Short,
+            Type::UShort | Type::UInt16 => EnumBaseType::UShort,
+            Type::Int | Type::Int32 => EnumBaseType::Int,
+            Type::UInt | Type::UInt32 => EnumBaseType::UInt,
+            Type::Long | Type::Int64 => EnumBaseType::Long,
+            Type::ULong | Type::UInt64 => EnumBaseType::ULong,
+        };
+        let (min, max) = integer_type.range();
+        match default_value {
+            DefaultValue::Scalar(Scalar::Integer(i)) => min <= *i && *i <= max,
+            _ => false,
+        }
+    }
+
     // For unions, we generate an enum type "companion" that's just a simple
     // ubyte based enum with all the union variants, + None (default 0)
     //
-- 
2.43.0


From 45d5b0d16ea19973ee7f1284fb38a3e3032027d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:32 +0000
Subject: [PATCH 27/40] fix: enum defaults name the generated variant when it
 is a keyword

---
 butte-build/src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 88b5702..6f07bd0 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -215,7 +215,7 @@ fn to_default_value(
         },
         // Enum field default variant
         ast::DefaultValue::Ident(i) => {
-            let variant = format_ident!("{}", i.raw);
+            let variant = ir::Ident::from(i);
             quote!(<#arg_ty>::#variant).to_token_stream()
         }
     }
@@ -469,7 +469,7 @@ impl ToTokens for ir::Table<'_> {
                         // Handle customized default values
                         if ty.is_enum() {
                             let default_name = if let ast::DefaultValue::Ident(i) = default_value {
-                                format_ident!("{}", i.raw)
+                                ir::Ident::from(i)
                             } else {
                                 panic!("expecting default ident for enum")
                             };
-- 
2.43.0


From 9cb25431d19031984f01050e5ddfcaae9e747fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:34 +0000
Subject: [PATCH 28/40] fix: generate code for infinite and nan float defaults

---
 butte-build/src/codegen.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 6f07bd0..abcabe2 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -188,16 +188,31 @@ impl PrimitiveLiteralToken for ast::IntegerConstant {
 }
 
 impl PrimitiveLiteralToken for ast::FloatingConstant {
-    type TokenType = syn::LitFloat;
+    type TokenType = TokenStream;
 
     fn fmt_lit(&self, ty: impl Spanned + fmt::Display) -> Self::TokenType {
-        Self::TokenType::new(
+        if !self.is_finite() {
+            // There are no literals for these
+            let ty = format_ident!("{}", ty.to_string());
+            let value = if self.is_nan() {
+                quote!(std::#ty::NAN)
+            } else {
+                quote!(std::#ty::INFINITY)
+            };
+            return if self.is_sign_negative() {
+                quote!(-#value)
+            } else {
+                value
+            };
+        }
+        syn::LitFloat::new(
             &match ty.to_string().as_str() {
                 float_ty @ "f32" => format!("{}{}", *self as f32, float_ty),
                 float_ty => format!("{}{}", self, float_ty),
             },
             ty.span(),
         )
+        .to_token_stream()
     }
 }
 
-- 
2.43.0


From 76a42aea68b8869272e7c5fa9486ba8efa325d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:35 +0000
Subject: [PATCH 29/40] fix: store required scalars even when equal to their
 default

---
 butte-build/src/codegen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index abcabe2..9f5277b 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -529,6 +529,7 @@ impl ToTokens for ir::Table<'_> {
                 ident: field_id,
                 ty,
                 default_value,
+                metadata,
                 ..
             } = field;
             let add_method_name = format_ident!("add_{}", field_id.raw.as_ref());
@@ -554,7 +555,8 @@ impl ToTokens for ir::Table<'_> {
                 quote!(#arg_ty)
             };
 
-            let body = if ty.is_scalar() {
+            // Required fields are stored even if they equal their default
+            let body = if ty.is_scalar() && !metadata.required {
                 if let Some(default_value) = default_value {
                     let default_value = to_default_value(&arg_ty, default_value);
                     quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #field_id, #default_value))
-- 
2.43.0


From ea6b97672267a7e8fe0492c850504e19f04e8e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:06 +0000
Subject: [PATCH 30/40] fix: substitute the names try and _

---
 butte-build/src/ir/keywords.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/butte-build/src/ir/keywords.rs b/butte-build/src/ir/keywords.rs
index 7fa914c..b66caa2 100644
--- a/butte-build/src/ir/keywords.rs
+++ b/butte-build/src/ir/keywords.rs
@@ -49,10 +49,14 @@ pub fn substitute_keyword(input: &str) -> Option<&'static str> {
         "macro" => "macro_",
         "override" => "override_",
         "priv" => "priv_",
+        "try" => "try_",
         "typeof" => "typeof_",
         "unsized" => "unsized_",
         "virtual" => "virtual_",
         "yield" => "yield_",
+
+        // Not an identifier in Rust
+        "_" => "__",
         _ => return None,
     })
 }
-- 
2.43.0


From 094d9521414360ced188b50af3f556045285fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:07 +0000
Subject: [PATCH 31/40] fix: snake case names that are keywords or not
 identifiers

---
 butte-build/src/codegen.rs      |  9 ++++-----
 butte-build/src/ir/transform.rs |  5 ++---
 butte-build/src/ir/types.rs     | 23 +++++++++++++++++++++++
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 9f5277b..b1525ce 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -594,7 +594,7 @@ impl ToTokens for ir::Table<'_> {
                 ..
             } = field;
             let offset_name = offset_id(field);
-            let snake_name = format_ident!("{}", ident.as_ref().to_snake_case());
+            let snake_name = ident.to_snake_ident();
             let snake_name_str = snake_name.to_string();
             let ty_ret = to_type_token(
                 table_ns_ref,
@@ -637,8 +637,7 @@ impl ToTokens for ir::Table<'_> {
                 let union_ident = union_ident.relative(table_ns_ref);
                 let enum_ident = enum_ident.relative(table_ns_ref);
 
-                let type_snake_name =
-                    format_ident!("{}_type", field.ident.as_ref().to_snake_case());
+                let type_snake_name = ident.union_type_ident().to_snake_ident();
 
                 if field.metadata.required {
                     let names_to_enum_variant = variants.iter().map(
@@ -728,7 +727,7 @@ impl ToTokens for ir::Table<'_> {
             .iter()
             .filter(|field| field.metadata.required)
             .map(|field| {
-                let snake_name = field.ident.as_ref().to_snake_case();
+                let snake_name = field.ident.to_snake_ident().to_string();
                 let offset_name = offset_id(field);
                 quote! {
                     self.fbb.required(o, #struct_id::#offset_name, #snake_name);
@@ -1139,7 +1138,7 @@ impl<'a> CodeGenerator<'a> {
             ir::Node::Enum(e) => e.to_tokens(tokens),
             ir::Node::Union(u) => u.to_tokens(tokens),
             ir::Node::Namespace(n) => {
-                let ident = format_ident!("{}", n.ident.simple().as_ref().to_snake_case());
+                let ident = n.ident.simple().to_snake_ident();
                 let mut nodes_ts = TokenStream::default();
                 for node in &n.nodes {
                     self.node_to_tokens(node, rpc_gen, &mut nodes_ts);
diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 0130a03..d63c42d 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -1,6 +1,5 @@
 use crate::{ast::types as ast, ir::types as ir};
 use anyhow::{anyhow, Result};
-use heck::SnakeCase;
 use itertools::Itertools;
 use std::{
     collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque},
@@ -155,7 +154,7 @@ impl<'a> Builder<'a> {
                     let ty = self
                         .find_custom_type(enum_ty_ident.clone())
                         .expect("Union enum type companion should be defined now");
-                    let ident = ir::Ident::from(format!("{}_type", &f.id.raw.to_snake_case()));
+                    let ident = ir::Ident::from(&f.id).union_type_ident();
                     let default_value = None;
                     let metadata = ir::FieldMetadata::builder().required(required).build();
                     let doc = f.doc.clone();
@@ -459,7 +458,7 @@ impl<'a> Builder<'a> {
 
         for m in &rpc.methods {
             let ident = ir::Ident::from(&m.id);
-            let snake_ident = ir::Ident::from(m.id.as_ref().to_snake_case());
+            let snake_ident = ident.to_snake_ident();
 
             let request_type = self.make_fully_qualified_from_ast_qualified_ident(&m.request_type);
             let response_type =
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 3a7cd70..1b48608 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -8,6 +8,7 @@
 
 use crate::ast::types as ast;
 use derive_more::{AsRef, From};
+use heck::SnakeCase;
 use std::{borrow::Cow, fmt::Display};
 use typed_builder::TypedBuilder;
 
@@ -546,6 +547,28 @@ impl<'a> Ident<'a> {
         }
     }
 
+    // The snake case form of the identifier, or the identifier itself
+    // if that form wouldn't be one, e.g because it starts with a digit.
+    // The result may be a keyword.
+    pub fn snake_name(&self) -> String {
+        let snake_name = self.raw.to_snake_case();
+        if snake_name.starts_with(|c: char| c.is_alphabetic()) {
+            snake_name
+        } else {
+            self.raw.to_string()
+        }
+    }
+
+    // The snake case form of the identifier as a valid identifier
+    pub fn to_snake_ident(&self) -> Ident<'a> {
+        Ident::from(self.snake_name())
+    }
+
+    // The identifier of the type field that goes with a union field
+    pub fn union_type_ident(&self) -> Ident<'a> {
+        Ident::from(format!("{}_type", self.snake_name()))
+    }
+
     // Purposefully create an ident named after a keyword
     // e.g to use `crate` or `super` for a type path
     fn keyword(keyword: &str) -> Ident<'_> {
-- 
2.43.0


From 20ffea03faa2fc71f382657173592a7f42fa7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:09 +0000
Subject: [PATCH 32/40] fix: refer to modules by their snake case names

---
 butte-build/src/codegen.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index b1525ce..3336128 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -889,7 +889,16 @@ impl ToTokens for ir::QualifiedIdent<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let parts = &self.parts;
         debug_assert!(!self.parts.is_empty());
-        let code = parts.iter().map(|e| e.raw.as_ref()).join("::");
+        // All but the last part are modules, which have snake case names
+        let (ident, modules) = parts.split_last().expect("Empty path");
+        let code = modules
+            .iter()
+            .map(|e| match e.raw.as_ref() {
+                "super" => e.clone(),
+                _ => e.to_snake_ident(),
+            })
+            .chain(std::iter::once(ident.clone()))
+            .join("::");
         syn::parse_str::<syn::Path>(&code)
             .expect("Cannot parse path")
             .to_tokens(tokens)
-- 
2.43.0


From 55ec3957f41d3a17966341865909e5aa39286175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:10 +0000
Subject: [PATCH 33/40] fix: generate enums whose variants are named Error or
 Inner

---
 butte-build/src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 3336128..22ef703 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -998,7 +998,7 @@ impl ToTokens for ir::Enum<'_> {
             impl<'a> butte::Follow<'a> for #enum_id {
                 type Inner = Self;
 
-                fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, butte::Error> {
+                fn follow(buf: &'a [u8], loc: usize) -> Result<Self, butte::Error> {
                     let scalar = butte::read_scalar_at::<#base_type>(buf, loc)?;
                     <Self as std::convert::TryFrom<#base_type>>::try_from(scalar)
                 }
@@ -1006,7 +1006,7 @@ impl ToTokens for ir::Enum<'_> {
 
             impl std::convert::TryFrom<#base_type> for #enum_id {
                 type Error = butte::Error;
-                fn try_from(value: #base_type) -> Result<Self, Self::Error> {
+                fn try_from(value: #base_type) -> Result<Self, butte::Error> {
                     match value {
                         #(#from_base_to_enum_variants,)*
                         _ => Err(butte::Error::UnknownEnumVariant)
-- 
2.43.0


From 603d16219d7e04f6a50380c5784308447874074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:12 +0000
Subject: [PATCH 34/40] fix: generate tables named B

---
 butte-build/src/codegen.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 22ef703..19ae1f4 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -737,18 +737,18 @@ impl ToTokens for ir::Table<'_> {
         (quote! {
             #[derive(Copy, Clone, Debug, PartialEq)]
             #doc
-            pub struct #struct_id<B> {
-                table: butte::Table<B>,
+            pub struct #struct_id<ButteBuf> {
+                table: butte::Table<ButteBuf>,
             }
 
-            impl<B> From<butte::Table<B>> for #struct_id<B> {
-                fn from(table: butte::Table<B>) -> Self {
+            impl<ButteBuf> From<butte::Table<ButteBuf>> for #struct_id<ButteBuf> {
+                fn from(table: butte::Table<ButteBuf>) -> Self {
                     Self { table }
                 }
             }
 
-            impl<B> From<#struct_id<B>> for butte::Table<B> {
-                fn from(s: #struct_id<B>) -> Self {
+            impl<ButteBuf> From<#struct_id<ButteBuf>> for butte::Table<ButteBuf> {
+                fn from(s: #struct_id<ButteBuf>) -> Self {
                     s.table
                 }
             }
@@ -768,14 +768,14 @@ impl ToTokens for ir::Table<'_> {
             }
 
 
-            impl<B> #struct_id<B>
+            impl<ButteBuf> #struct_id<ButteBuf>
             where
-                B: std::convert::AsRef<[u8]>
+                ButteBuf: std::convert::AsRef<[u8]>
             {
                 // fields access
                 #(#field_accessors)*
 
-                pub fn get_root(buf: B) -> Result<Self, butte::Error> {
+                pub fn get_root(buf: ButteBuf) -> Result<Self, butte::Error> {
                     let table = butte::Table::get_root(buf)?;
                     Ok(Self { table })
                 }
@@ -791,11 +791,11 @@ impl ToTokens for ir::Table<'_> {
                 }
             }
 
-            impl<B> butte::FollowBuf for #struct_id<B>
+            impl<ButteBuf> butte::FollowBuf for #struct_id<ButteBuf>
             where
-                B: std::convert::AsRef<[u8]>
+                ButteBuf: std::convert::AsRef<[u8]>
             {
-                type Buf = B;
+                type Buf = ButteBuf;
                 type Inner = Self;
 
                 #[inline]
-- 
2.43.0


From 745744ec60edf25a6f2e18f15b5b55018a3264a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:38 +0000
Subject: [PATCH 35/40] fix: generate tables named like the prelude types the
 code uses

---
 butte-build/src/codegen.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 19ae1f4..2697560 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -430,7 +430,7 @@ impl ToTokens for ir::Table<'_> {
                 let arg_ty = if metadata.required || ty.is_scalar() {
                     arg_ty
                 } else {
-                    quote!(Option<#arg_ty>)
+                    quote!(std::option::Option<#arg_ty>)
                 };
 
                 let allow_type_complexity = if ty.is_complex() {
@@ -505,12 +505,12 @@ impl ToTokens for ir::Table<'_> {
                         }
                     } else {
                         // no custom default value, default to the scalar type's default
-                        quote!(#field_id: <#arg_ty>::default())
+                        quote!(#field_id: <#arg_ty as std::default::Default>::default())
                     }
                 },
             );
             quote! {
-                impl#args_lifetime_a Default for #args#args_lifetime_a {
+                impl#args_lifetime_a std::default::Default for #args#args_lifetime_a {
                     fn default() -> Self {
                         Self {
                             #(#args_fields_defaults),*
@@ -661,7 +661,7 @@ impl ToTokens for ir::Table<'_> {
                     );
                     quote! {
                         #[inline]
-                        pub fn #snake_name(&self) -> Result<#ty_ret, butte::Error> {
+                        pub fn #snake_name(&self) -> std::result::Result<#ty_ret, butte::Error> {
                             Ok(match self.#type_snake_name()? {
                               #(#names_to_enum_variant,)*
                               #enum_ident::None => return Err(butte::Error::RequiredFieldMissing(#snake_name_str))
@@ -691,7 +691,7 @@ impl ToTokens for ir::Table<'_> {
 
                     quote! {
                         #[inline]
-                        pub fn #snake_name(&self) -> Result<Option<#ty_ret>, butte::Error> {
+                        pub fn #snake_name(&self) -> std::result::Result<std::option::Option<#ty_ret>, butte::Error> {
                             Ok(match self.#type_snake_name()? {
                               #(#names_to_enum_variant,)*
                               None | Some(#enum_ident::None) => None
@@ -704,7 +704,7 @@ impl ToTokens for ir::Table<'_> {
                     #doc
                     #[inline]
                     #allow_type_complexity
-                    pub fn #snake_name(&self) -> Result<#ty_ret, butte::Error> {
+                    pub fn #snake_name(&self) -> std::result::Result<#ty_ret, butte::Error> {
                         self.table
                             .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)?
                             .ok_or(butte::Error::RequiredFieldMissing(#snake_name_str))
@@ -715,7 +715,7 @@ impl ToTokens for ir::Table<'_> {
                     #doc
                     #[inline]
                     #allow_type_complexity
-                    pub fn #snake_name(&self) -> Result<Option<#ty_ret>, butte::Error> {
+                    pub fn #snake_name(&self) -> std::result::Result<std::option::Option<#ty_ret>, butte::Error> {
                         self.table
                             .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)
                     }
@@ -741,13 +741,13 @@ impl ToTokens for ir::Table<'_> {
                 table: butte::Table<ButteBuf>,
             }
 
-            impl<ButteBuf> From<butte::Table<ButteBuf>> for #struct_id<ButteBuf> {
+            impl<ButteBuf> std::convert::From<butte::Table<ButteBuf>> for #struct_id<ButteBuf> {
                 fn from(table: butte::Table<ButteBuf>) -> Self {
                     Self { table }
                 }
             }
 
-            impl<ButteBuf> From<#struct_id<ButteBuf>> for butte::Table<ButteBuf> {
+            impl<ButteBuf> std::convert::From<#struct_id<ButteBuf>> for butte::Table<ButteBuf> {
                 fn from(s: #struct_id<ButteBuf>) -> Self {
                     s.table
                 }
@@ -775,7 +775,7 @@ impl ToTokens for ir::Table<'_> {
                 // fields access
                 #(#field_accessors)*
 
-                pub fn get_root(buf: ButteBuf) -> Result<Self, butte::Error> {
+                pub fn get_root(buf: ButteBuf) -> std::result::Result<Self, butte::Error> {
                     let table = butte::Table::get_root(buf)?;
                     Ok(Self { table })
                 }
@@ -785,7 +785,7 @@ impl ToTokens for ir::Table<'_> {
                 type Inner = Self;
 
                 #[inline]
-                fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, butte::Error> {
+                fn follow(buf: &'a [u8], loc: usize) -> std::result::Result<Self::Inner, butte::Error> {
                     let table = butte::Table::new(buf, loc);
                     Ok(Self { table })
                 }
@@ -799,7 +799,7 @@ impl ToTokens for ir::Table<'_> {
                 type Inner = Self;
 
                 #[inline]
-                fn follow_buf(buf: Self::Buf, loc: usize) -> Result<Self::Inner, butte::Error> {
+                fn follow_buf(buf: Self::Buf, loc: usize) -> std::result::Result<Self::Inner, butte::Error> {
                     let table = butte::Table::new(buf, loc);
                     Ok(Self { table })
                 }
@@ -989,7 +989,7 @@ impl ToTokens for ir::Enum<'_> {
                 #(#fields),*
             }
 
-            impl Default for #enum_id {
+            impl std::default::Default for #enum_id {
                 fn default() -> Self {
                     #default_value
                 }
@@ -998,7 +998,7 @@ impl ToTokens for ir::Enum<'_> {
             impl<'a> butte::Follow<'a> for #enum_id {
                 type Inner = Self;
 
-                fn follow(buf: &'a [u8], loc: usize) -> Result<Self, butte::Error> {
+                fn follow(buf: &'a [u8], loc: usize) -> std::result::Result<Self, butte::Error> {
                     let scalar = butte::read_scalar_at::<#base_type>(buf, loc)?;
                     <Self as std::convert::TryFrom<#base_type>>::try_from(scalar)
                 }
@@ -1006,7 +1006,7 @@ impl ToTokens for ir::Enum<'_> {
 
             impl std::convert::TryFrom<#base_type> for #enum_id {
                 type Error = butte::Error;
-                fn try_from(value: #base_type) -> Result<Self, butte::Error> {
+                fn try_from(value: #base_type) -> std::result::Result<Self, butte::Error> {
                     match value {
                         #(#from_base_to_enum_variants,)*
                         _ => Err(butte::Error::UnknownEnumVariant)
@@ -1014,7 +1014,7 @@ impl ToTokens for ir::Enum<'_> {
                 }
             }
 
-            impl From<#enum_id> for #base_type {
+            impl std::convert::From<#enum_id> for #base_type {
                 fn from(value: #enum_id) -> #base_type {
                     match value {
                         #(#from_enum_variant_to_base),*
-- 
2.43.0


From d88698c5f55a4b8b263459df028d8fb648492764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:26 +0000
Subject: [PATCH 36/40] fix: parse hexadecimal float constants

---
 butte-build/src/ast/parser.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 45cb647..b5a09d0 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -2166,6 +2166,30 @@ pub fn hex_float_exponent(input: &str) -> IResult<&str, &str> {
     ))(input)
 }
 
+/// The value of the digits and exponent of a hexadecimal float constant. The
+/// result is an error if it cannot be represented exactly.
+fn hex_float_value(value: &str) -> Result<FloatingConstant> {
+    let value = value.to_ascii_lowercase();
+    let mut parts = value.splitn(2, 'p');
+    let mut digits = parts.next().unwrap_or("").splitn(2, '.');
+    let exponent: i64 = parts.next().unwrap_or("0").parse()?;
+    let integer = digits.next().unwrap_or("");
+    let fraction = digits.next().unwrap_or("").trim_end_matches('0');
+    // Move the point behind the last digit
+    let exponent = exponent
+        .checked_sub(4 * fraction.len() as i64)
+        .ok_or_else(|| anyhow!("exponent out of range: {}", value))?;
+    let mantissa = format!("{}{}", integer, fraction);
+    let mantissa = match mantissa.trim_start_matches('0') {
+        "" => "0",
+        mantissa => mantissa,
+    };
+    Ok(parse_hexf64(
+        &format!("0x{}.p{}", mantissa, exponent),
+        false,
+    )?)
+}
+
 pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
     let parser = tuple((
         terminated(opt(plus_or_minus), terminated(zero, one_of("xX"))),
@@ -2182,7 +2206,7 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
                 ),
                 terminated(hex_digit1, hex_float_exponent),
             ))),
-            |value| parse_hexf64(value, false),
+            hex_float_value,
         ),
     ));
     map(
-- 
2.43.0


From 92c954544c9f4f94556ef47ed8eb1868db2370dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:59 +0000
Subject: [PATCH 37/40] fix: locations that do not fit in usize are out of
 bounds

On 32-bit hosts the offsets and lengths in a hostile buffer overflowed the
location arithmetic: a panic in debug builds, and in release builds slices
reaching past the end of the buffer.
---
 butte/src/primitives.rs | 30 ++++++++++++++++++------------
 butte/src/table.rs      |  2 +-
 butte/src/vector.rs     | 27 ++++++++++++++++-----------
 butte/src/vtable.rs     |  9 +++++----
 4 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/butte/src/primitives.rs b/butte/src/primitives.rs
index 0ac11b7..05b914b 100644
--- a/butte/src/primitives.rs
+++ b/butte/src/primitives.rs
@@ -174,10 +174,12 @@ where
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
         let off = {
-            let slice = buf.get(loc..loc + SIZE_UOFFSET).ok_or(Error::OutOfBounds)?;
+            let slice = buf
+                .get(loc..loc.saturating_add(SIZE_UOFFSET))
+                .ok_or(Error::OutOfBounds)?;
             read_scalar::<u32>(slice)? as usize
         };
-        T::follow(buf, loc + off)
+        T::follow(buf, loc.saturating_add(off))
     }
 }
 
@@ -194,11 +196,11 @@ where
         let off = {
             let slice = buf
                 .as_ref()
-                .get(loc..loc + SIZE_UOFFSET)
+                .get(loc..loc.saturating_add(SIZE_UOFFSET))
                 .ok_or(Error::OutOfBounds)?;
             read_scalar::<u32>(slice)? as usize
         };
-        T::follow_buf(buf, loc + off)
+        T::follow_buf(buf, loc.saturating_add(off))
     }
 }
 
@@ -226,9 +228,11 @@ impl<'a, T: Follow<'a>> Follow<'a> for ForwardsVOffset<T> {
     type Inner = T::Inner;
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
-        let slice = buf.get(loc..loc + SIZE_VOFFSET).ok_or(Error::OutOfBounds)?;
+        let slice = buf
+            .get(loc..loc.saturating_add(SIZE_VOFFSET))
+            .ok_or(Error::OutOfBounds)?;
         let off = read_scalar::<VOffsetT>(slice)? as usize;
-        T::follow(buf, loc + off)
+        T::follow(buf, loc.saturating_add(off))
     }
 }
 
@@ -256,7 +260,9 @@ impl<'a, T: Follow<'a>> Follow<'a> for BackwardsSOffset<T> {
     type Inner = T::Inner;
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
-        let slice = buf.get(loc..loc + SIZE_SOFFSET).ok_or(Error::OutOfBounds)?;
+        let slice = buf
+            .get(loc..loc.saturating_add(SIZE_SOFFSET))
+            .ok_or(Error::OutOfBounds)?;
         let off = read_scalar::<SOffsetT>(slice)?;
         let target = loc as i64 - i64::from(off);
         if target < 0 {
@@ -282,7 +288,7 @@ impl<'a, T: Follow<'a> + 'a> Follow<'a> for SkipSizePrefix<T> {
     type Inner = T::Inner;
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
-        T::follow(buf, loc + SIZE_SIZEPREFIX)
+        T::follow(buf, loc.saturating_add(SIZE_SIZEPREFIX))
     }
 }
 
@@ -296,7 +302,7 @@ where
 
     #[inline(always)]
     fn follow_buf(buf: Self::Buf, loc: usize) -> Result<Self::Inner, Error> {
-        T::follow_buf(buf, loc + SIZE_SIZEPREFIX)
+        T::follow_buf(buf, loc.saturating_add(SIZE_SIZEPREFIX))
     }
 }
 
@@ -307,7 +313,7 @@ impl<'a, T: Follow<'a> + 'a> Follow<'a> for SkipRootOffset<T> {
     type Inner = T::Inner;
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
-        T::follow(buf, loc + SIZE_UOFFSET)
+        T::follow(buf, loc.saturating_add(SIZE_UOFFSET))
     }
 }
 
@@ -318,7 +324,7 @@ impl<'a> Follow<'a> for FileIdentifier {
     type Inner = &'a [u8];
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
-        buf.get(loc..loc + FILE_IDENTIFIER_LENGTH)
+        buf.get(loc..loc.saturating_add(FILE_IDENTIFIER_LENGTH))
             .ok_or(Error::OutOfBounds)
     }
 }
@@ -331,7 +337,7 @@ impl<'a, T: Follow<'a> + 'a> Follow<'a> for SkipFileIdentifier<T> {
     type Inner = T::Inner;
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
-        T::follow(buf, loc + FILE_IDENTIFIER_LENGTH)
+        T::follow(buf, loc.saturating_add(FILE_IDENTIFIER_LENGTH))
     }
 }
 
diff --git a/butte/src/table.rs b/butte/src/table.rs
index 600c581..a992680 100644
--- a/butte/src/table.rs
+++ b/butte/src/table.rs
@@ -63,7 +63,7 @@ where
             if offset == 0 {
                 return Ok(default);
             }
-            <T>::follow(self.buf.as_ref(), self.loc + offset).map(Some)
+            <T>::follow(self.buf.as_ref(), self.loc.saturating_add(offset)).map(Some)
         } else {
             Ok(default)
         }
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 3b628ab..4cd1319 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -71,7 +71,8 @@ impl<'a, T: Follow<'a> + 'a> Vector<'a, T> {
         }
         let sz = size_of::<T>();
         debug_assert!(sz > 0);
-        T::follow(self.0, self.1 as usize + SIZE_UOFFSET + sz * idx)
+        let start = self.1.saturating_add(SIZE_UOFFSET);
+        T::follow(self.0, start.saturating_add(sz.saturating_mul(idx)))
     }
 
     #[inline(always)]
@@ -91,8 +92,9 @@ impl<'a, T: SafeSliceAccess + 'a> Vector<'a, T> {
         let sz = size_of::<T>();
         debug_assert!(sz > 0);
         let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
+        let start = loc.saturating_add(SIZE_UOFFSET);
         let data_buf = buf
-            .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
+            .get(start..start.saturating_add(len.saturating_mul(sz)))
             .ok_or(Error::OutOfBounds)?;
         let ptr = data_buf.as_ptr() as *const T;
         if ptr as usize % align_of::<T>() != 0 {
@@ -134,7 +136,9 @@ pub unsafe fn follow_cast_ref<'a, T: Sized + 'a>(
     loc: usize,
 ) -> Result<&'a T, Error> {
     let sz = size_of::<T>();
-    let buf = buf.get(loc..loc + sz).ok_or(Error::OutOfBounds)?;
+    let buf = buf
+        .get(loc..loc.saturating_add(sz))
+        .ok_or(Error::OutOfBounds)?;
     let ptr = buf.as_ptr() as *const T;
     Ok(&*ptr)
 }
@@ -145,7 +149,7 @@ impl<'a> Follow<'a> for &'a str {
         // Len of the String/Vector
         let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
 
-        let end_loc = loc + SIZE_UOFFSET + len;
+        let end_loc = loc.saturating_add(SIZE_UOFFSET).saturating_add(len);
 
         // We check bounds early, because we need to make sure strings are null-terminated
         // The null byte not included in the string `len`
@@ -170,8 +174,9 @@ fn follow_slice_helper<T: EndianScalar>(buf: &[u8], loc: usize) -> Result<&[T],
     let sz = size_of::<T>();
     debug_assert!(sz > 0);
     let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
+    let start = loc.saturating_add(SIZE_UOFFSET);
     let data_buf = buf
-        .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
+        .get(start..start.saturating_add(len.saturating_mul(sz)))
         .ok_or(Error::OutOfBounds)?;
     if !T::valid_bytes(data_buf) {
         return Err(Error::InvalidScalar);
@@ -217,7 +222,7 @@ impl<'a, T: 'a> VectorIter<'a, T> {
             // inner.1 is the location of the data for the vector.
             // The first SIZE_UOFFSET bytes is the length. We skip
             // that to get to the actual vector content.
-            loc: inner.1 + SIZE_UOFFSET,
+            loc: inner.1.saturating_add(SIZE_UOFFSET),
             remaining: len,
             phantom: PhantomData,
         }
@@ -248,7 +253,7 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
             None
         } else {
             let result = T::follow(self.buf, self.loc);
-            self.loc += sz;
+            self.loc = self.loc.saturating_add(sz);
             self.remaining -= 1;
             Some(result)
         }
@@ -261,9 +266,8 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
 
         self.remaining = self.remaining.saturating_sub(n);
 
-        // Note that this might overflow, but that is okay because
-        // in that case self.remaining will have been set to zero.
-        self.loc = self.loc.wrapping_add(sz.wrapping_mul(n));
+        // A location that does not fit saturates, which is out of bounds.
+        self.loc = self.loc.saturating_add(sz.saturating_mul(n));
 
         self.next()
     }
@@ -284,7 +288,8 @@ impl<'a, T: Follow<'a> + 'a> DoubleEndedIterator for VectorIter<'a, T> {
             None
         } else {
             self.remaining -= 1;
-            Some(T::follow(self.buf, self.loc + sz * self.remaining))
+            let offset = sz.saturating_mul(self.remaining);
+            Some(T::follow(self.buf, self.loc.saturating_add(offset)))
         }
     }
 
diff --git a/butte/src/vtable.rs b/butte/src/vtable.rs
index 493c32f..5cf8d40 100644
--- a/butte/src/vtable.rs
+++ b/butte/src/vtable.rs
@@ -42,7 +42,7 @@ impl<'a> VTable<'a> {
         Ok(read_scalar_at::<VOffsetT>(self.buf, self.loc)? as usize)
     }
     pub fn object_inline_num_bytes(&self) -> Result<usize, Error> {
-        let n = read_scalar_at::<VOffsetT>(self.buf, self.loc + SIZE_VOFFSET)?;
+        let n = read_scalar_at::<VOffsetT>(self.buf, self.loc.saturating_add(SIZE_VOFFSET))?;
         Ok(n as usize)
     }
     pub fn get_field(&self, idx: usize) -> Result<Option<VOffsetT>, Error> {
@@ -51,7 +51,8 @@ impl<'a> VTable<'a> {
         }
         read_scalar_at::<VOffsetT>(
             self.buf,
-            self.loc + SIZE_VOFFSET + SIZE_VOFFSET + SIZE_VOFFSET * idx,
+            self.loc
+                .saturating_add(SIZE_VOFFSET + SIZE_VOFFSET + SIZE_VOFFSET * idx),
         )
         .map(Some)
     }
@@ -59,12 +60,12 @@ impl<'a> VTable<'a> {
         if byte_loc as usize >= self.num_bytes()? {
             return Ok(None);
         }
-        read_scalar_at::<VOffsetT>(self.buf, self.loc + byte_loc as usize).map(Some)
+        read_scalar_at::<VOffsetT>(self.buf, self.loc.saturating_add(byte_loc as usize)).map(Some)
     }
     pub fn as_bytes(&self) -> Result<&[u8], Error> {
         let len = self.num_bytes()?;
         self.buf
-            .get(self.loc..self.loc + len)
+            .get(self.loc..self.loc.saturating_add(len))
             .ok_or(Error::OutOfBounds)
     }
 }
-- 
2.43.0


From ef125a3e83067b20bb1e2728dbcd6109d2291f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:59 +0000
Subject: [PATCH 38/40] fix: align scalars to their size on every host

64-bit scalars have alignment 4 on i686, so buffers written there were not
aligned as the format requires.
---
 butte/src/push.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/butte/src/push.rs b/butte/src/push.rs
index bc907fa..d102157 100644
--- a/butte/src/push.rs
+++ b/butte/src/push.rs
@@ -65,6 +65,13 @@ macro_rules! impl_push_for_endian_scalar {
             fn push(&self, dst: &mut [u8], _rest: &[u8]) {
                 emplace_scalar::<$ty>(dst, *self);
             }
+
+            // The format aligns scalars to their size on every host, whatever
+            // the host's own alignment of the type is.
+            #[inline]
+            fn alignment() -> PushAlignment {
+                PushAlignment::new(size_of::<$ty>())
+            }
         }
     };
 }
-- 
2.43.0


From d04bcd88b62d363ef0936098c2bcf77f19471af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:29 +0000
Subject: [PATCH 39/40] fix: generate enums whose variants are named like the
 generated parameters

---
 butte-build/src/codegen.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 2697560..7b09af7 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -559,18 +559,18 @@ impl ToTokens for ir::Table<'_> {
             let body = if ty.is_scalar() && !metadata.required {
                 if let Some(default_value) = default_value {
                     let default_value = to_default_value(&arg_ty, default_value);
-                    quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #field_id, #default_value))
+                    quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, butte_value, #default_value))
                 } else {
-                    quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #field_id))
+                    quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, butte_value))
                 }
             } else {
-                quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #field_id))
+                quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, butte_value))
             };
 
             quote! {
                 #[inline]
                 #allow_type_complexity
-                fn #add_method_name(&mut self, #field_id: #arg_ty) {
+                fn #add_method_name(&mut self, butte_value: #arg_ty) {
                     #body;
                 }
             }
@@ -1015,8 +1015,8 @@ impl ToTokens for ir::Enum<'_> {
             }
 
             impl std::convert::From<#enum_id> for #base_type {
-                fn from(value: #enum_id) -> #base_type {
-                    match value {
+                fn from(butte_value: #enum_id) -> #base_type {
+                    match butte_value {
                         #(#from_enum_variant_to_base),*
                     }
                 }
@@ -1032,8 +1032,8 @@ impl ToTokens for ir::Enum<'_> {
                 }
             }
 
-            pub fn #enum_id_fn_name(e: #enum_id) -> &'static str {
-                match e {
+            pub fn #enum_id_fn_name(butte_value: #enum_id) -> &'static str {
+                match butte_value {
                     #(#names_to_strings),*
                 }
             }
-- 
2.43.0


From 2fceb96927d9a32420c02e2713019ff19d09db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:34 +0000
Subject: [PATCH 40/40] fix: refuse create_vector while a table or vector is
 under construction

Its elements became part of the open table or vector. All the other ways
to create a vector or string already refuse this.
---
 butte/src/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 5a4a6e8..8a6db3d 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -318,6 +318,9 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
         &'a mut self,
         items: &'b [T],
     ) -> WIPOffset<Vector<'fbb, T::Output>> {
+        self.assert_not_nested(
+            "create_vector can not be called when a table or vector is under construction",
+        );
         let elem_size = T::size();
         self.align(items.len() * elem_size, T::alignment().max_of(SIZE_UOFFSET));
         for i in (0..items.len()).rev() {
-- 
2.43.0


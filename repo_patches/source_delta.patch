From b9db5f76376b9144101b97de1844b6f6d64eb872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:57 +0000
Subject: [PATCH 01/43] fix: read and write scalars at unaligned addresses
 without UB

---
 butte/src/endian_scalar.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 1264591..1c435f8 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -156,8 +156,9 @@ pub fn emplace_scalar<T: EndianScalar>(s: &mut [u8], x: T) {
     let sz = size_of::<T>();
     let mut_ptr = (&mut s[..sz]).as_mut_ptr() as *mut T;
     let val = x.to_little_endian();
+    // the byte slice has no alignment guarantee:
     unsafe {
-        *mut_ptr = val;
+        mut_ptr.write_unaligned(val);
     }
 }
 
@@ -176,7 +177,8 @@ pub fn read_scalar<T: EndianScalar>(s: &[u8]) -> Result<T, Error> {
     let sz = size_of::<T>();
 
     let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr() as *const T;
-    let x = unsafe { *p };
+    // the byte slice has no alignment guarantee:
+    let x = unsafe { p.read_unaligned() };
 
     Ok(x.from_little_endian())
 }
-- 
2.43.0


From 33241f73708d3b73c8fcdec62a7db94cac7d728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:57 +0000
Subject: [PATCH 02/43] fix: read_scalar_at does not overflow on locations near
 usize::MAX

---
 butte/src/endian_scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 1c435f8..ca6e5a1 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -166,7 +166,7 @@ pub fn emplace_scalar<T: EndianScalar>(s: &mut [u8], x: T) {
 /// Performs endian conversion, if necessary.
 #[inline]
 pub fn read_scalar_at<T: EndianScalar>(s: &[u8], loc: usize) -> Result<T, Error> {
-    let buf = &s.get(loc..loc + size_of::<T>()).ok_or(Error::OutOfBounds)?;
+    let buf = s.get(loc..).ok_or(Error::OutOfBounds)?;
     read_scalar(buf)
 }
 
-- 
2.43.0


From 4e073af2a14c056756dbb9d67479573fc37e040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:57 +0000
Subject: [PATCH 03/43] fix: a vtable offset pointing before the buffer is out
 of bounds, not a panic

---
 butte/src/primitives.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butte/src/primitives.rs b/butte/src/primitives.rs
index 6bfe7fc..5298216 100644
--- a/butte/src/primitives.rs
+++ b/butte/src/primitives.rs
@@ -258,7 +258,12 @@ impl<'a, T: Follow<'a>> Follow<'a> for BackwardsSOffset<T> {
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
         let slice = buf.get(loc..loc + SIZE_SOFFSET).ok_or(Error::OutOfBounds)?;
         let off = read_scalar::<SOffsetT>(slice)?;
-        T::follow(buf, (loc as SOffsetT - off) as usize)
+        // a location outside of the buffer can't be followed
+        let target = loc as i64 - i64::from(off);
+        if target < 0 {
+            return Err(Error::OutOfBounds);
+        }
+        T::follow(buf, target as usize)
     }
 }
 
-- 
2.43.0


From 36e87918d7ba6f700c709cb6cb1b5343e620209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:57 +0000
Subject: [PATCH 04/43] fix: VTable::num_fields underflow and VTable::get_field
 off by one

---
 butte/src/vtable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte/src/vtable.rs b/butte/src/vtable.rs
index cc7df14..493c32f 100644
--- a/butte/src/vtable.rs
+++ b/butte/src/vtable.rs
@@ -36,7 +36,7 @@ impl<'a> VTable<'a> {
         VTable { buf, loc }
     }
     pub fn num_fields(&self) -> Result<usize, Error> {
-        Ok((self.num_bytes()? / SIZE_VOFFSET) - 2)
+        Ok((self.num_bytes()? / SIZE_VOFFSET).saturating_sub(2))
     }
     pub fn num_bytes(&self) -> Result<usize, Error> {
         Ok(read_scalar_at::<VOffsetT>(self.buf, self.loc)? as usize)
@@ -46,7 +46,7 @@ impl<'a> VTable<'a> {
         Ok(n as usize)
     }
     pub fn get_field(&self, idx: usize) -> Result<Option<VOffsetT>, Error> {
-        if idx > self.num_fields()? {
+        if idx >= self.num_fields()? {
             return Ok(None);
         }
         read_scalar_at::<VOffsetT>(
-- 
2.43.0


From 35108d750c848ab89405fb0e832988b27341016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:57 +0000
Subject: [PATCH 05/43] fix: report a misaligned slice instead of creating an
 invalid reference

---
 butte/src/error.rs  | 3 +++
 butte/src/vector.rs | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/butte/src/error.rs b/butte/src/error.rs
index c7a622d..3c4d8b3 100644
--- a/butte/src/error.rs
+++ b/butte/src/error.rs
@@ -17,6 +17,8 @@ pub enum Error {
     UnknownUnionVariant,
     /// Returned if a type doesn't have a default value
     NoTypeDefaultValue,
+    /// Returned if a slice is not aligned in memory for the type of its elements
+    Unaligned,
 }
 
 impl fmt::Display for Error {
@@ -29,6 +31,7 @@ impl fmt::Display for Error {
             Error::UnknownEnumVariant => write!(f, "unknown enum variant"),
             Error::UnknownUnionVariant => write!(f, "unknown union variant"),
             Error::NoTypeDefaultValue => write!(f, "type does not have a default value"),
+            Error::Unaligned => write!(f, "slice is not aligned for its element type"),
         }
     }
 }
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index dfd2c46..4526f5d 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -18,7 +18,7 @@
 use std::{
     iter::{DoubleEndedIterator, ExactSizeIterator, FusedIterator},
     marker::PhantomData,
-    mem::size_of,
+    mem::{align_of, size_of},
     slice::from_raw_parts,
     str::from_utf8,
 };
@@ -93,6 +93,9 @@ impl<'a, T: SafeSliceAccess + 'a> Vector<'a, T> {
             .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
             .ok_or(Error::OutOfBounds)?;
         let ptr = data_buf.as_ptr() as *const T;
+        if ptr as usize % align_of::<T>() != 0 {
+            return Err(Error::Unaligned);
+        }
         let s: &'a [T] = unsafe { from_raw_parts(ptr, len) };
         Ok(s)
     }
@@ -169,6 +172,9 @@ fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
         .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
         .ok_or(Error::OutOfBounds)?;
     let ptr = data_buf.as_ptr() as *const T;
+    if ptr as usize % align_of::<T>() != 0 {
+        return Err(Error::Unaligned);
+    }
     let s: &[T] = unsafe { from_raw_parts(ptr, len) };
     Ok(s)
 }
-- 
2.43.0


From 644b1d81cfa8daf342b0d14d6d00924203e08244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:57 +0000
Subject: [PATCH 06/43] fix: VectorIter::nth does not panic on a huge n

---
 butte/src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 4526f5d..b276956 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -258,7 +258,7 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
 
         // Note that this might overflow, but that is okay because
         // in that case self.remaining will have been set to zero.
-        self.loc = self.loc.wrapping_add(sz * n);
+        self.loc = self.loc.wrapping_add(sz.wrapping_mul(n));
 
         self.next()
     }
-- 
2.43.0


From 63a033c2696c61c3788a112d671919fb1178cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:57 +0000
Subject: [PATCH 07/43] fix: reset forgets the fields of an unfinished table

---
 butte/src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index bcf4418..30ced3d 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -110,6 +110,7 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
         }
 
         self.head = self.owned_buf.len();
+        self.field_locs.clear();
         self.written_vtable_revpos.clear();
 
         self.nested = false;
-- 
2.43.0


From 9d3c2bfe4a2499a3f32d6bcd94b8edbbe1409472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:57 +0000
Subject: [PATCH 08/43] fix: create_vector asserts that it is not nested

---
 butte/src/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 30ced3d..baa9363 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -318,6 +318,9 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
         &'a mut self,
         items: &'b [T],
     ) -> WIPOffset<Vector<'fbb, T::Output>> {
+        self.assert_not_nested(
+            "create_vector can not be called when a table or vector is under construction",
+        );
         let elem_size = T::size();
         self.align(items.len() * elem_size, T::alignment().max_of(SIZE_UOFFSET));
         for i in (0..items.len()).rev() {
-- 
2.43.0


From 68b4d02b95dd88596c5e0d6d2d3938e8b657086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:55 +0000
Subject: [PATCH 09/43] fix: an incomplete parse with a short remainder is an
 error, not a panic

---
 butte-build/src/compile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 1f22894..f664e1a 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -28,7 +28,7 @@ pub fn compile_fbs_generic(
     if !rest.is_empty() {
         return Err(anyhow!(
             "Parse was incomplete: not parsed: {}...",
-            &rest[..30]
+            rest.chars().take(30).collect::<String>()
         ));
     }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
-- 
2.43.0


From 9ec53978931afd47584a0c1fa85a283678cc9e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:55 +0000
Subject: [PATCH 10/43] fix: report a rustfmt failure instead of writing its
 partial output

---
 butte-build/src/compile.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index f664e1a..23cd13e 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -50,7 +50,11 @@ pub fn compile_fbs_generic(
             .as_mut()
             .ok_or_else(|| anyhow!("cannot access stdin"))?
             .write_all(code.as_bytes())?;
-        cmd.wait_with_output()?.stdout
+        let formatted = cmd.wait_with_output()?;
+        if !formatted.status.success() {
+            return Err(anyhow!("rustfmt failed: {}", formatted.status));
+        }
+        formatted.stdout
     } else {
         Vec::from(code)
     };
-- 
2.43.0


From 7b20176dde411f55e847d2e735f032b8ecd7aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:55 +0000
Subject: [PATCH 11/43] fix: accept schemas made of comments and whitespace
 only

---
 butte-build/src/ast/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index b8241fb..8a751bc 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -264,7 +264,10 @@ pub fn schema_decl(input: &str) -> IResult<&str, Schema<'_>> {
                 include_decl,
                 comment_or_space0,
             )),
-            many0(delimited(comment_or_space0, element, comment_or_space0)),
+            terminated(
+                many0(delimited(comment_or_space0, element, comment_or_space0)),
+                comment_or_space0,
+            ),
         )),
         Schema::from,
     )(input)
-- 
2.43.0


From 7048282d425e510b57b80d87a4a22999ad33bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:55 +0000
Subject: [PATCH 12/43] fix: accept whitespace before the metadata of an enum

---
 butte-build/src/ast/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 8a751bc..704b508 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -703,7 +703,7 @@ pub fn enum_decl(input: &str) -> IResult<&str, Enum<'_>> {
             delimited(comment_or_space1, ident, comment_or_space0),
         ),
         preceded(colon, preceded(comment_or_space0, type_)),
-        metadata,
+        preceded(comment_or_space0, metadata),
         enum_body,
     ));
     map(parser, |(comment, name, base_type, metadata, variants)| {
-- 
2.43.0


From d09c0100bdf3dab1b03be29340afc93235725bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:37 +0000
Subject: [PATCH 13/43] fix: match true, false, nan and inf at the current
 position only

---
 butte-build/src/ast/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 704b508..32b5e52 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -1968,14 +1968,14 @@ mod hex_integer_constant_tests {
 
 pub fn true_(input: &str) -> IResult<&str, BooleanConstant> {
     value(true, |input: &str| {
-        nom::re_match!(input, r"\btrue\b")?;
+        nom::re_match!(input, r"^true\b")?;
         tag("true")(input)
     })(input)
 }
 
 pub fn false_(input: &str) -> IResult<&str, BooleanConstant> {
     value(false, |input: &str| {
-        nom::re_match!(input, r"\bfalse\b")?;
+        nom::re_match!(input, r"^false\b")?;
         tag("false")(input)
     })(input)
 }
@@ -2182,8 +2182,9 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
 /// Parse `nan`
 pub fn nan(input: &str) -> IResult<&str, FloatingConstant> {
     map(
-        terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\bnan\b")
+        terminated(opt(plus_or_minus), |input: &'_ str| {
+            nom::re_match!(input, r"^nan\b")?;
+            tag("nan")(input)
         }),
         |sign| {
             if let Some('-') = sign {
@@ -2230,8 +2231,9 @@ mod nan_tests {
 /// Parse `inf` or `infinity`
 pub fn inf_or_infinity(input: &str) -> IResult<&str, FloatingConstant> {
     map(
-        terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\binf(inity)?\b")
+        terminated(opt(plus_or_minus), |input: &'_ str| {
+            nom::re_match!(input, r"^inf(inity)?\b")?;
+            alt((tag("infinity"), tag("inf")))(input)
         }),
         |sign| {
             if let Some('-') = sign {
-- 
2.43.0


From ee0c778f1d6b3296a8cb1e1136fe628fe86b9b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:37 +0000
Subject: [PATCH 14/43] fix: hand hex float constants with their 0x prefix to
 the hexf parser

---
 butte-build/src/ast/parser.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 32b5e52..8786b7a 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -2150,20 +2150,23 @@ pub fn hex_float_exponent(input: &str) -> IResult<&str, &str> {
 
 pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
     let parser = tuple((
-        terminated(opt(plus_or_minus), terminated(zero, one_of("xX"))),
+        opt(plus_or_minus),
         // parse the number without the sign to avoid having to spell out the
         // return type of a closure to map_res
         map_res(
-            recognize(alt((
-                terminated(
-                    alt((
-                        terminated(terminated(hex_digit1, period), hex_digit0),
-                        preceded(period, hex_digit1),
-                    )),
-                    opt(hex_float_exponent),
-                ),
-                terminated(hex_digit1, hex_float_exponent),
-            ))),
+            recognize(preceded(
+                terminated(zero, one_of("xX")),
+                alt((
+                    terminated(
+                        alt((
+                            terminated(terminated(hex_digit1, period), hex_digit0),
+                            preceded(period, hex_digit1),
+                        )),
+                        opt(hex_float_exponent),
+                    ),
+                    terminated(hex_digit1, hex_float_exponent),
+                )),
+            )),
             |value| parse_hexf64(value, false),
         ),
     ));
-- 
2.43.0


From 6fb9b9daf3d5efcb4ecf818b23681668e061967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 15/43] fix: type names may start with a builtin type's name,
 vector types may contain spaces

---
 butte-build/src/ast/parser.rs | 60 +++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 8786b7a..f61b4fa 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -1275,34 +1275,48 @@ SayHello // foo
     }
 }
 
+/// Parse a word, unless it is only the prefix of a longer identifier.
+fn keyword<'a>(word: &'static str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    terminated(
+        tag(word),
+        not(take_while_m_n(1, 1, |c: char| {
+            c.is_alphanumeric() || c == '_'
+        })),
+    )
+}
+
 pub fn type_(input: &str) -> IResult<&str, Type<'_>> {
     alt((
         alt((
-            value(Type::Bool, tag("bool")),
-            value(Type::Byte, tag("byte")),
-            value(Type::UByte, tag("ubyte")),
-            value(Type::Short, tag("short")),
-            value(Type::UShort, tag("ushort")),
-            value(Type::Long, tag("long")),
-            value(Type::ULong, tag("ulong")),
-            value(Type::Double, tag("double")),
-            value(Type::Int8, tag("int8")),
-            value(Type::UInt8, tag("uint8")),
-            value(Type::Int16, tag("int16")),
-            value(Type::UInt16, tag("uint16")),
-            value(Type::Int32, tag("int32")),
-            value(Type::UInt32, tag("uint32")),
-            value(Type::Int64, tag("int64")),
-            value(Type::UInt64, tag("uint64")),
-            value(Type::Float32, tag("float32")),
-            value(Type::Float64, tag("float64")),
-            value(Type::Int, tag("int")),
-            value(Type::UInt, tag("uint")),
-            value(Type::Float, tag("float")),
+            value(Type::Bool, keyword("bool")),
+            value(Type::Byte, keyword("byte")),
+            value(Type::UByte, keyword("ubyte")),
+            value(Type::Short, keyword("short")),
+            value(Type::UShort, keyword("ushort")),
+            value(Type::Long, keyword("long")),
+            value(Type::ULong, keyword("ulong")),
+            value(Type::Double, keyword("double")),
+            value(Type::Int8, keyword("int8")),
+            value(Type::UInt8, keyword("uint8")),
+            value(Type::Int16, keyword("int16")),
+            value(Type::UInt16, keyword("uint16")),
+            value(Type::Int32, keyword("int32")),
+            value(Type::UInt32, keyword("uint32")),
+            value(Type::Int64, keyword("int64")),
+            value(Type::UInt64, keyword("uint64")),
+            value(Type::Float32, keyword("float32")),
+            value(Type::Float64, keyword("float64")),
+            value(Type::Int, keyword("int")),
+            value(Type::UInt, keyword("uint")),
+            value(Type::Float, keyword("float")),
         )),
-        value(Type::String, tag("string")),
+        value(Type::String, keyword("string")),
         map(
-            delimited(left_square_bracket, type_, right_square_bracket),
+            delimited(
+                terminated(left_square_bracket, comment_or_space0),
+                type_,
+                preceded(comment_or_space0, right_square_bracket),
+            ),
             |t| Type::from([t]),
         ),
         map(qualified_ident, Type::Ident),
-- 
2.43.0


From 5d62d10f48fc6da27368459838ea6957c419518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 16/43] fix: resolve a deferred definition in the namespace it
 was declared in

---
 butte-build/src/ir/transform.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index cfbd41e..68ed1db 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -16,7 +16,7 @@ pub struct Builder<'a> {
 }
 
 #[derive(Clone, Debug)]
-struct IndexedElement<'a>(usize, ast::Element<'a>);
+struct IndexedElement<'a>(usize, Option<ast::Namespace<'a>>, ast::Element<'a>);
 
 #[derive(Clone, Debug, PartialEq)]
 enum CustomTypeStatus<'a> {
@@ -64,8 +64,12 @@ impl<'a> NamespaceBuf<'a> {
 impl<'a> Builder<'a> {
     fn new_element(
         &mut self,
-        &IndexedElement(pos, ref element): &IndexedElement<'a>,
+        &IndexedElement(pos, ref namespace, ref element): &IndexedElement<'a>,
     ) -> Result<bool> {
+        // An element may be visited several times, but always belongs to the
+        // namespace it was found in
+        self.current_namespace = namespace.clone();
+
         match element {
             ast::Element::Namespace(n) => self.new_namespace(n),
             ast::Element::Table(t) => self.new_table(t, pos),
@@ -535,11 +539,17 @@ impl<'a> Builder<'a> {
 
         // Keep track of the definition order,
         // mostly to build IR deterministically
+        let mut namespace = None;
         let mut input: VecDeque<_> = schema
             .elements
             .into_iter()
             .enumerate()
-            .map(|(i, el)| IndexedElement(i, el))
+            .map(|(i, el)| {
+                if let ast::Element::Namespace(ns) = &el {
+                    namespace = Some(ns.clone());
+                }
+                IndexedElement(i, namespace.clone(), el)
+            })
             .collect();
 
         // Loop until all types can be defined
@@ -559,7 +569,7 @@ impl<'a> Builder<'a> {
                 if context.nodes.len() == nodes_len {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
-                        .map(|IndexedElement(_, element)| element)
+                        .map(|IndexedElement(_, _, element)| element)
                         .collect::<Vec<_>>();
                     return Err(anyhow!("Unable to type schema: the following definitions referenced items not found: {:?}", unsatisfied_elements));
                     // TODO proper reporting
-- 
2.43.0


From 06c95d73adfafd10bbc271ab9de7a03e8cc31b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 17/43] fix: a newly declared table counts as progress when
 resolving types

---
 butte-build/src/ir/transform.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 68ed1db..5ac7504 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -557,6 +557,7 @@ impl<'a> Builder<'a> {
         loop {
             let mut unsatisfied = VecDeque::new();
             let nodes_len = context.nodes.len();
+            let types_len = context.types.len();
             while let Some(element) = input.pop_front() {
                 if !context.new_element(&element)? {
                     unsatisfied.push_back(element);
@@ -566,7 +567,8 @@ impl<'a> Builder<'a> {
                 break; // everything is satisfied
             } else {
                 // Didn't we progress?
-                if context.nodes.len() == nodes_len {
+                // A table that is only declared is progress as well: others may refer to it.
+                if context.nodes.len() == nodes_len && context.types.len() == types_len {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
                         .map(|IndexedElement(_, _, element)| element)
-- 
2.43.0


From c13dddcf4c18c8ad2ef50332eadfe4290c8beb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 18/43] fix: unsupported schema elements are an error, not a
 panic

---
 butte-build/src/ir/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 5ac7504..83c4033 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -78,10 +78,10 @@ impl<'a> Builder<'a> {
             ast::Element::Union(u) => self.new_union(u, pos),
             ast::Element::Rpc(r) => self.new_rpc(r, pos),
             ast::Element::Root(r) => self.new_root(r, pos),
-            ast::Element::FileExtension(..) => unimplemented!(),
-            ast::Element::FileIdentifier(..) => unimplemented!(),
-            ast::Element::Attribute(..) => unimplemented!(),
-            ast::Element::Object(..) => unimplemented!(),
+            ast::Element::FileExtension(..) => Err(anyhow!("file_extension is not supported")),
+            ast::Element::FileIdentifier(..) => Err(anyhow!("file_identifier is not supported")),
+            ast::Element::Attribute(..) => Err(anyhow!("attribute is not supported")),
+            ast::Element::Object(..) => Err(anyhow!("JSON objects are not supported")),
         }
     }
 
-- 
2.43.0


From 05dbd954e57281fc74a9004c68e3db238c0b738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 19/43] fix: an enum value without a constant follows the
 previous one, union constants are kept

---
 butte-build/src/codegen.rs      | 29 +++++++++++------------------
 butte-build/src/ir/transform.rs |  2 +-
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 2a1b532..81cedd7 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -5,7 +5,7 @@ use heck::{ShoutySnakeCase, SnakeCase};
 use itertools::Itertools;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use std::{convert::TryInto, fmt};
+use std::fmt;
 use syn::spanned::Spanned;
 
 #[cfg(test)]
@@ -910,24 +910,17 @@ impl ToTokens for ir::Enum<'_> {
             .next();
 
         // assign a value to the key if one was given, otherwise give it the
-        // enumerated index's value
-        let variants_and_scalars = variants.iter().enumerate().map(
-            |(
-                index,
-                ir::EnumVariant {
-                    ident: key,
-                    value,
-                    doc,
-                },
-            )| {
+        // value that follows the previous key's
+        let mut next_value: ast::IntegerConstant = 0;
+        let variants_and_scalars = variants.iter().map(
+            move |ir::EnumVariant {
+                      ident: key,
+                      value,
+                      doc,
+                  }| {
                 // format the value with the correct type, i.e., base_type
-                let scalar_value = if let Some(constant) = *value {
-                    constant
-                } else {
-                    index
-                        .try_into()
-                        .expect("invalid conversion to enum base type")
-                };
+                let scalar_value = value.unwrap_or(next_value);
+                next_value = scalar_value.wrapping_add(1);
                 let formatted_value = scalar_value.fmt_lit(base_type.to_token_stream());
                 (quote!(#key), quote!(#formatted_value), doc)
             },
diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 83c4033..5954fe1 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -348,7 +348,7 @@ impl<'a> Builder<'a> {
         })
         .chain(u.variants.iter().map(|v| ir::EnumVariant {
             ident: v.id.into(),
-            value: None,
+            value: v.value,
             doc: v.doc.clone(),
         }))
         .collect();
-- 
2.43.0


From 8e331c2f77cee9e3bf5263e2d78e7b690c8886e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 20/43] fix: a required scalar field is written even if it has
 the default value

---
 butte-build/src/codegen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 81cedd7..270a174 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -514,6 +514,7 @@ impl ToTokens for ir::Table<'_> {
                 ident: field_id,
                 ty,
                 default_value,
+                metadata,
                 ..
             } = field;
             let add_method_name = format_ident!("add_{}", field_id.raw.as_ref());
@@ -539,7 +540,8 @@ impl ToTokens for ir::Table<'_> {
                 quote!(#arg_ty)
             };
 
-            let body = if ty.is_scalar() {
+            // Required fields are written even if they have the default value
+            let body = if ty.is_scalar() && !metadata.required {
                 if let Some(default_value) = default_value {
                     let default_value = to_default_value(&arg_ty, default_value);
                     quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #field_id, #default_value))
-- 
2.43.0


From 997a2fb30fd4e95c88878012f65d6a86c2f914d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:49 +0000
Subject: [PATCH 21/43] fix: generate constants for float defaults that have no
 literal

---
 butte-build/src/codegen.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 270a174..4b3fcf8 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -188,16 +188,35 @@ impl PrimitiveLiteralToken for ast::IntegerConstant {
 }
 
 impl PrimitiveLiteralToken for ast::FloatingConstant {
-    type TokenType = syn::LitFloat;
+    type TokenType = TokenStream;
 
     fn fmt_lit(&self, ty: impl Spanned + fmt::Display) -> Self::TokenType {
-        Self::TokenType::new(
-            &match ty.to_string().as_str() {
-                float_ty @ "f32" => format!("{}{}", *self as f32, float_ty),
-                float_ty => format!("{}{}", self, float_ty),
-            },
-            ty.span(),
-        )
+        let float_ty = ty.to_string();
+        let is_f32 = float_ty == "f32";
+        let float_mod = format_ident!("{}", float_ty);
+        let value = if is_f32 {
+            f64::from(*self as f32)
+        } else {
+            *self
+        };
+        // there are no literals for these
+        if value.is_nan() {
+            quote!(std::#float_mod::NAN)
+        } else if value.is_infinite() && value > 0.0 {
+            quote!(std::#float_mod::INFINITY)
+        } else if value.is_infinite() {
+            quote!(std::#float_mod::NEG_INFINITY)
+        } else {
+            syn::LitFloat::new(
+                &if is_f32 {
+                    format!("{}{}", value as f32, float_ty)
+                } else {
+                    format!("{}{}", value, float_ty)
+                },
+                ty.span(),
+            )
+            .to_token_stream()
+        }
     }
 }
 
-- 
2.43.0


From e36430339556bd7336d9c8d08418a83d7535207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:49 +0000
Subject: [PATCH 22/43] fix: a type sharing its name with a namespace keeps its
 name in relative paths

---
 butte-build/src/ir/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 0deb591..6ac56b8 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -522,8 +522,8 @@ impl<'a> QualifiedIdent<'a> {
 
     pub fn relative(&self, namespace: Option<&QualifiedIdent<'a>>) -> QualifiedIdent<'a> {
         if let Some(ns) = namespace {
-            let common_prefix_len = self
-                .parts
+            // The last part is the item's name, it's never a namespace
+            let common_prefix_len = self.parts[..self.parts.len() - 1]
                 .iter()
                 .zip(ns.parts.iter())
                 .take_while(|(a, b)| a == b)
-- 
2.43.0


From 68a7506f4c6a806336999dbd314b252e03a58123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:32 +0000
Subject: [PATCH 23/43] fix: generated modules, accessors and paths agree on
 their names and avoid keywords

---
 butte-build/src/codegen.rs      | 24 +++++++++++++++++-------
 butte-build/src/ir/transform.rs |  3 ++-
 butte-build/src/ir/types.rs     | 11 +++++++++++
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 4b3fcf8..df125b9 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -234,7 +234,7 @@ fn to_default_value(
         },
         // Enum field default variant
         ast::DefaultValue::Ident(i) => {
-            let variant = format_ident!("{}", i.raw);
+            let variant = ir::Ident::from(*i);
             quote!(<#arg_ty>::#variant).to_token_stream()
         }
     }
@@ -488,7 +488,7 @@ impl ToTokens for ir::Table<'_> {
                         // Handle customized default values
                         if ty.is_enum() {
                             let default_name = if let ast::DefaultValue::Ident(i) = default_value {
-                                format_ident!("{}", i.raw)
+                                ir::Ident::from(*i)
                             } else {
                                 panic!("expecting default ident for enum")
                             };
@@ -598,7 +598,7 @@ impl ToTokens for ir::Table<'_> {
                 ..
             } = field;
             let offset_name = offset_id(field);
-            let snake_name = format_ident!("{}", ident.as_ref().to_snake_case());
+            let snake_name = format_ident!("{}", ident.to_snake_case());
             let snake_name_str = snake_name.to_string();
             let ty_ret = to_type_token(
                 table_ns_ref,
@@ -641,8 +641,8 @@ impl ToTokens for ir::Table<'_> {
                 let union_ident = union_ident.relative(table_ns_ref);
                 let enum_ident = enum_ident.relative(table_ns_ref);
 
-                let type_snake_name =
-                    format_ident!("{}_type", field.ident.as_ref().to_snake_case());
+                let type_ident = ir::Ident::from(format!("{}_type", field.ident.to_snake_case()));
+                let type_snake_name = format_ident!("{}", type_ident.to_snake_case());
 
                 if field.metadata.required {
                     let names_to_enum_variant = variants.iter().map(
@@ -894,7 +894,17 @@ impl ToTokens for ir::QualifiedIdent<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let parts = &self.parts;
         debug_assert!(!self.parts.is_empty());
-        let code = parts.iter().map(|e| e.raw.as_ref()).join("::");
+        let (name, namespace) = parts.split_last().expect("ident must not be empty");
+        let code = namespace
+            .iter()
+            .map(|e| match e.raw.as_ref() {
+                // relative path
+                "super" => e.raw.to_string(),
+                // see the generated module names
+                _ => e.to_snake_case(),
+            })
+            .chain(std::iter::once(name.raw.to_string()))
+            .join("::");
         syn::parse_str::<syn::Path>(&code)
             .expect("Cannot parse path")
             .to_tokens(tokens)
@@ -1145,7 +1155,7 @@ impl<'a> CodeGenerator<'a> {
             ir::Node::Enum(e) => e.to_tokens(tokens),
             ir::Node::Union(u) => u.to_tokens(tokens),
             ir::Node::Namespace(n) => {
-                let ident = format_ident!("{}", n.ident.simple().as_ref().to_snake_case());
+                let ident = format_ident!("{}", n.ident.simple().to_snake_case());
                 let mut nodes_ts = TokenStream::default();
                 for node in &n.nodes {
                     self.node_to_tokens(node, rpc_gen, &mut nodes_ts);
diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 5954fe1..83cd195 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -120,7 +120,8 @@ impl<'a> Builder<'a> {
                     let ty = self
                         .find_custom_type(enum_ty_ident.clone())
                         .expect("Union enum type companion should be defined now");
-                    let ident = ir::Ident::from(format!("{}_type", &f.id.raw.to_snake_case()));
+                    let ident =
+                        ir::Ident::from(format!("{}_type", ir::Ident::from(&f.id).to_snake_case()));
                     let default_value = None;
                     let metadata = ir::FieldMetadata::builder().required(required).build();
                     let doc = f.doc.clone();
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 6ac56b8..0e0f8b0 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -451,6 +451,17 @@ impl<'a> Ident<'a> {
         }
     }
 
+    // The name of the generated item for this ident, in snake case
+    pub fn to_snake_case(&self) -> String {
+        let snake_case = heck::SnakeCase::to_snake_case(self.raw.as_ref());
+        // changing the case may have produced a keyword or removed a leading underscore
+        if snake_case.starts_with(|c: char| c.is_ascii_digit()) {
+            format!("_{}", snake_case)
+        } else {
+            Ident::fix_identifier(Cow::Owned(snake_case)).into_owned()
+        }
+    }
+
     // Purposefully create an ident named after a keyword
     // e.g to use `crate` or `super` for a type path
     fn keyword(keyword: &str) -> Ident<'_> {
-- 
2.43.0


From bcb07564b732737129cd990c48663808cc10e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:01 +0000
Subject: [PATCH 24/43] fix: reject default values that don't fit the type of
 their field

---
 butte-build/src/ir/transform.rs | 56 +++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 83cd195..7d6aed5 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -61,6 +61,58 @@ impl<'a> NamespaceBuf<'a> {
     }
 }
 
+// The range of an integer type, `None` for any other type
+fn integer_range(ty: &ir::Type<'_>) -> Option<(ast::IntegerConstant, ast::IntegerConstant)> {
+    Some(match ty {
+        ir::Type::Byte | ir::Type::Int8 => (i8::min_value().into(), i8::max_value().into()),
+        ir::Type::UByte | ir::Type::UInt8 => (u8::min_value().into(), u8::max_value().into()),
+        ir::Type::Short | ir::Type::Int16 => (i16::min_value().into(), i16::max_value().into()),
+        ir::Type::UShort | ir::Type::UInt16 => (u16::min_value().into(), u16::max_value().into()),
+        ir::Type::Int | ir::Type::Int32 => (i32::min_value().into(), i32::max_value().into()),
+        ir::Type::UInt | ir::Type::UInt32 => (u32::min_value().into(), u32::max_value().into()),
+        ir::Type::Long | ir::Type::Int64 => (i64::min_value().into(), i64::max_value().into()),
+        ir::Type::ULong | ir::Type::UInt64 => (u64::min_value().into(), u64::max_value().into()),
+        _ => return None,
+    })
+}
+
+// Is this an acceptable default value for a field of this type?
+fn check_default_value(ty: &ir::Type<'_>, default_value: &ast::DefaultValue<'_>) -> Result<()> {
+    use ast::{DefaultValue, Scalar};
+
+    let acceptable = match (ty, default_value) {
+        (ir::Type::Bool, DefaultValue::Scalar(Scalar::Boolean(..))) => true,
+        (ir::Type::Float, DefaultValue::Scalar(Scalar::Float(..)))
+        | (ir::Type::Float, DefaultValue::Scalar(Scalar::Integer(..)))
+        | (ir::Type::Float32, DefaultValue::Scalar(Scalar::Float(..)))
+        | (ir::Type::Float32, DefaultValue::Scalar(Scalar::Integer(..)))
+        | (ir::Type::Double, DefaultValue::Scalar(Scalar::Float(..)))
+        | (ir::Type::Double, DefaultValue::Scalar(Scalar::Integer(..)))
+        | (ir::Type::Float64, DefaultValue::Scalar(Scalar::Float(..)))
+        | (ir::Type::Float64, DefaultValue::Scalar(Scalar::Integer(..))) => true,
+        (
+            ir::Type::Custom(ir::CustomTypeRef {
+                ty: ir::CustomType::Enum { variants, .. },
+                ..
+            }),
+            DefaultValue::Ident(i),
+        ) => variants.iter().any(|v| v.ident == ir::Ident::from(i)),
+        (ty, DefaultValue::Scalar(Scalar::Integer(i))) => {
+            integer_range(ty).map_or(false, |(min, max)| min <= *i && *i <= max)
+        }
+        _ => false,
+    };
+    if acceptable {
+        Ok(())
+    } else {
+        Err(anyhow!(
+            "{:?} is not a valid default value for type {}",
+            default_value,
+            ty
+        ))
+    }
+}
+
 impl<'a> Builder<'a> {
     fn new_element(
         &mut self,
@@ -133,6 +185,10 @@ impl<'a> Builder<'a> {
                         doc,
                     });
                 }
+                if let Some(default_value) = &f.default_value {
+                    check_default_value(&ty, default_value)
+                        .map_err(|e| anyhow!("{}.{}: {}", ident, f.id.raw, e))?;
+                }
                 let ident = ir::Ident::from(&f.id);
                 // Use `Some` explicit or implicit default value or `None`
                 let default_value = f.default_value.clone().or_else(|| (&f.ty).try_into().ok());
-- 
2.43.0


From 24c014b47c0f18f3c1426fd87c083a9c00f2e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:01 +0000
Subject: [PATCH 25/43] fix: reject enums and unions with duplicate or out of
 range values

---
 butte-build/src/ir/transform.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 7d6aed5..dc46c58 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -113,6 +113,28 @@ fn check_default_value(ty: &ir::Type<'_>, default_value: &ast::DefaultValue<'_>)
     }
 }
 
+// Are the names and values of these variants distinct, and do the values fit the base type?
+fn check_variants(
+    ident: &ir::QualifiedIdent<'_>,
+    range: (ast::IntegerConstant, ast::IntegerConstant),
+    variants: &[ir::EnumVariant<'_>],
+) -> Result<()> {
+    let mut idents = HashSet::new();
+    let mut values = HashSet::new();
+    let mut next_value: ast::IntegerConstant = 0;
+    for v in variants {
+        let value = v.value.unwrap_or(next_value);
+        if value < range.0 || value > range.1 {
+            return Err(anyhow!("value out of range: {}.{}", ident, v.ident));
+        }
+        if !idents.insert(&v.ident) || !values.insert(value) {
+            return Err(anyhow!("variant already defined: {}.{}", ident, v.ident));
+        }
+        next_value = value + 1;
+    }
+    Ok(())
+}
+
 impl<'a> Builder<'a> {
     fn new_element(
         &mut self,
@@ -311,6 +333,10 @@ impl<'a> Builder<'a> {
             })
             .collect();
 
+        let range = self.try_type(&e.base_type).and_then(|ty| integer_range(&ty));
+        let range = range.ok_or_else(|| anyhow!("enum has bad base type: {}", ident))?;
+        check_variants(ident, range, &variants)?;
+
         let doc = e.doc.clone();
 
         self.types.insert(
@@ -409,6 +435,7 @@ impl<'a> Builder<'a> {
             doc: v.doc.clone(),
         }))
         .collect();
+        check_variants(ident, (0, 255), &variants)?;
 
         let doc = u.doc.clone();
 
-- 
2.43.0


From 769b3a3b5a2ac6bd233534faed426f8f8924cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:01 +0000
Subject: [PATCH 26/43] fix: reject unions of anything but tables

---
 butte-build/src/ir/transform.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index dc46c58..b5a1b37 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -333,7 +333,9 @@ impl<'a> Builder<'a> {
             })
             .collect();
 
-        let range = self.try_type(&e.base_type).and_then(|ty| integer_range(&ty));
+        let range = self
+            .try_type(&e.base_type)
+            .and_then(|ty| integer_range(&ty));
         let range = range.ok_or_else(|| anyhow!("enum has bad base type: {}", ident))?;
         check_variants(ident, range, &variants)?;
 
@@ -372,6 +374,19 @@ impl<'a> Builder<'a> {
         for f in &u.variants {
             let ty = self.try_type(&ast::Type::Ident(ast::QualifiedIdent::from(vec![f.id])));
             if let Some(ty) = ty {
+                match &ty {
+                    ir::Type::Custom(ir::CustomTypeRef {
+                        ty: ir::CustomType::Table,
+                        ..
+                    }) => (),
+                    _ => {
+                        return Err(anyhow!(
+                            "Only tables can be union variants: {}.{}",
+                            ident,
+                            f.id.raw
+                        ))
+                    }
+                }
                 let id = &f.id;
                 variants.push(ir::UnionVariant {
                     ty,
-- 
2.43.0


From 5b88e65b62d19ddf8e500f5ed63a79d2793af831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:24 +0000
Subject: [PATCH 27/43] fix: reject tables with duplicate or unusable field
 names

---
 butte-build/src/ir/transform.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index b5a1b37..860fa7f 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -231,6 +231,15 @@ impl<'a> Builder<'a> {
             }
         }
 
+        // Field names must differ once they are turned into the generated names
+        let mut names = HashSet::new();
+        for f in &fields {
+            let name = f.ident.as_ref().to_snake_case();
+            if name.is_empty() || !names.insert(name) {
+                return Err(anyhow!("invalid or duplicate field: {}.{}", ident, f.ident));
+            }
+        }
+
         let ident = ident.clone();
         let root_type = false; // Set as non-root by default
         let doc = t.doc.clone();
-- 
2.43.0


From 64953d1b791d3b061e40500e3514d202cd779059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:24 +0000
Subject: [PATCH 28/43] fix: reject vectors of unions, which can't be generated

---
 butte-build/src/ir/transform.rs | 7 +++++++
 butte-build/src/ir/types.rs     | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 860fa7f..f328d19 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -184,6 +184,13 @@ impl<'a> Builder<'a> {
         for f in &t.fields {
             let ty = self.try_type(&f.ty);
             if let Some(ty) = ty {
+                if ty.is_array_of_union() {
+                    return Err(anyhow!(
+                        "vectors of unions are not supported: {}.{}",
+                        ident,
+                        f.id.raw
+                    ));
+                }
                 let required = match &f.metadata {
                     Some(m) => matches!(m.values.get(&ast::Ident::from("required")), Some(None)),
                     None => false,
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 0e0f8b0..a5a9d5f 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -203,6 +203,13 @@ impl<'a> Type<'a> {
         matches!(self, Type::Array(..))
     }
 
+    pub fn is_array_of_union(&self) -> bool {
+        match self {
+            Type::Array(ty) => ty.is_union() || ty.is_array_of_union(),
+            _ => false,
+        }
+    }
+
     // Is it a complex type that will trigger Clippy warnings
     pub fn is_complex(&self) -> bool {
         self.is_array()
-- 
2.43.0


From 01d9a30a9ee805b97b2967ea1738e8ff09da9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:24 +0000
Subject: [PATCH 29/43] fix: a struct is a compile error, not a panic of the
 code generator

---
 butte-build/src/compile.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 23cd13e..fa0fe90 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -1,4 +1,5 @@
 use crate::{
+    ast::types::Element,
     codegen::{CodeGenerator, RpcGenerator},
     ir::Builder,
 };
@@ -31,6 +32,12 @@ pub fn compile_fbs_generic(
             rest.chars().take(30).collect::<String>()
         ));
     }
+    if let Some(s) = schema.elements.iter().find_map(|e| match e {
+        Element::Struct(s) => Some(s),
+        _ => None,
+    }) {
+        return Err(anyhow!("structs are not supported: {}", s.id.raw));
+    }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
 
     let mut generator = CodeGenerator { root, rpc_gen };
-- 
2.43.0


From 829aae7ec43ea6c0dfa63dbdac5ce564d8c8df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:45 +0000
Subject: [PATCH 30/43] fix: reject namespaces that have no module name

---
 butte-build/src/ir/transform.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index f328d19..c41e8e5 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -160,6 +160,15 @@ impl<'a> Builder<'a> {
     }
 
     fn new_namespace(&mut self, ns: &ast::Namespace<'a>) -> Result<bool> {
+        // There must be something left of the name in the generated module's
+        if ns
+            .ident
+            .parts
+            .iter()
+            .any(|p| p.raw.to_snake_case().is_empty())
+        {
+            return Err(anyhow!("invalid namespace: {:?}", ns.ident));
+        }
         self.current_namespace = Some(ns.clone());
         Ok(true)
     }
-- 
2.43.0


From 43c88b15c56a640448d76485e01b9319b2437300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:37 +0000
Subject: [PATCH 31/43] fix: refuse an RPC service or method that is declared
 twice

---
 butte-build/src/ir/transform.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index c41e8e5..0f50d13 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -517,10 +517,22 @@ impl<'a> Builder<'a> {
     fn new_rpc(&mut self, rpc: &ast::Rpc<'a>, pos: usize) -> Result<bool> {
         let ident = &self.make_fully_qualified_ident(ir::Ident::from(&rpc.id));
 
-        let mut methods = Vec::new();
+        let already_defined = self.nodes.values().flatten().any(|n| match n {
+            ir::Node::Rpc(r) => r.ident == *ident,
+            _ => false,
+        });
+        if already_defined {
+            return Err(anyhow!("rpc service already defined: {}", ident));
+        }
+
+        let mut methods: Vec<ir::RpcMethod<'a>> = Vec::new();
 
         for m in &rpc.methods {
-            let ident = ir::Ident::from(&m.id);
+            let method_ident = ir::Ident::from(&m.id);
+            if methods.iter().any(|m| m.ident == method_ident) {
+                return Err(anyhow!("method already defined: {}.{}", ident, method_ident));
+            }
+            let ident = method_ident;
             let snake_ident = ir::Ident::from(m.id.as_ref().to_snake_case());
 
             let request_type = self.make_fully_qualified_from_ast_qualified_ident(&m.request_type);
-- 
2.43.0


From d682c389d571e4c29a34e5fb9e09b4c7bada2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:02 +0000
Subject: [PATCH 32/43] fix: avoid the reserved keyword try in generated names

---
 butte-build/src/ir/keywords.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte-build/src/ir/keywords.rs b/butte-build/src/ir/keywords.rs
index 7fa914c..fa3b34e 100644
--- a/butte-build/src/ir/keywords.rs
+++ b/butte-build/src/ir/keywords.rs
@@ -49,6 +49,7 @@ pub fn substitute_keyword(input: &str) -> Option<&'static str> {
         "macro" => "macro_",
         "override" => "override_",
         "priv" => "priv_",
+        "try" => "try_",
         "typeof" => "typeof_",
         "unsized" => "unsized_",
         "virtual" => "virtual_",
-- 
2.43.0


From 8cbe357f6fdf1a2270c31fa5d79e185e7d801da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:40 +0000
Subject: [PATCH 33/43] fix: generated enums may have values named like what
 their impls refer to

---
 butte-build/src/codegen.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index df125b9..32a70c2 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -1006,7 +1006,7 @@ impl ToTokens for ir::Enum<'_> {
             impl<'a> butte::Follow<'a> for #enum_id {
                 type Inner = Self;
 
-                fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, butte::Error> {
+                fn follow(buf: &'a [u8], loc: usize) -> Result<Self, butte::Error> {
                     let scalar = butte::read_scalar_at::<#base_type>(buf, loc)?;
                     <Self as std::convert::TryFrom<#base_type>>::try_from(scalar)
                 }
@@ -1014,7 +1014,7 @@ impl ToTokens for ir::Enum<'_> {
 
             impl std::convert::TryFrom<#base_type> for #enum_id {
                 type Error = butte::Error;
-                fn try_from(value: #base_type) -> Result<Self, Self::Error> {
+                fn try_from(value: #base_type) -> Result<Self, butte::Error> {
                     match value {
                         #(#from_base_to_enum_variants,)*
                         _ => Err(butte::Error::UnknownEnumVariant)
@@ -1023,6 +1023,8 @@ impl ToTokens for ir::Enum<'_> {
             }
 
             impl From<#enum_id> for #base_type {
+                // there may be a variant of that name
+                #[allow(bindings_with_variant_name)]
                 fn from(value: #enum_id) -> #base_type {
                     match value {
                         #(#from_enum_variant_to_base),*
@@ -1040,6 +1042,7 @@ impl ToTokens for ir::Enum<'_> {
                 }
             }
 
+            #[allow(bindings_with_variant_name)]
             pub fn #enum_id_fn_name(e: #enum_id) -> &'static str {
                 match e {
                     #(#names_to_strings),*
-- 
2.43.0


From 9c9345d29b66c1a9a4a2914885827a97ae1620ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:35 +0000
Subject: [PATCH 34/43] fix: a type or enum value named _ is not an identifier
 in Rust

---
 butte-build/src/ir/keywords.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/butte-build/src/ir/keywords.rs b/butte-build/src/ir/keywords.rs
index fa3b34e..66e48b7 100644
--- a/butte-build/src/ir/keywords.rs
+++ b/butte-build/src/ir/keywords.rs
@@ -54,6 +54,9 @@ pub fn substitute_keyword(input: &str) -> Option<&'static str> {
         "unsized" => "unsized_",
         "virtual" => "virtual_",
         "yield" => "yield_",
+
+        // Not a keyword, but not an identifier either
+        "_" => "__",
         _ => return None,
     })
 }
-- 
2.43.0


From 1fdd7cb7bec1ef1d5c35c432bc5d1faa28c9865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:03 +0000
Subject: [PATCH 35/43] fix: generated enums may have a value named default

---
 butte-build/src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 32a70c2..52d69e6 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -509,7 +509,7 @@ impl ToTokens for ir::Table<'_> {
                         }
                     } else {
                         // no custom default value, default to the scalar type's default
-                        quote!(#field_id: <#arg_ty>::default())
+                        quote!(#field_id: <#arg_ty as Default>::default())
                     }
                 },
             );
-- 
2.43.0


From 9db16acb9fa64a75519d9b54a5dfa044f5043f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:13 +0000
Subject: [PATCH 36/43] fix: a field may be named like a value of its enum

---
 butte-build/src/codegen.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 52d69e6..a9f31de 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -573,6 +573,8 @@ impl ToTokens for ir::Table<'_> {
 
             quote! {
                 #[inline]
+                // an enum may have a variant of that name
+                #[allow(bindings_with_variant_name)]
                 #allow_type_complexity
                 fn #add_method_name(&mut self, #field_id: #arg_ty) {
                     #body;
-- 
2.43.0


From ad7523e755894a7894ee45a493341eaeff60a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:27 +0000
Subject: [PATCH 37/43] fix: report output that a buffering writer could not
 write

compile_fbs_generic dropped the writer it was given without flushing it, so
a buffering writer lost what it held, and the error, when its sink failed.
---
 butte-build/src/compile.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index fa0fe90..f89b07b 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -66,6 +66,8 @@ pub fn compile_fbs_generic(
         Vec::from(code)
     };
     output.write_all(&text_output[..])?;
+    // a buffering writer must not lose what it could not write when it is dropped
+    output.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From d30727937addbc48b3532daad8acf82da041acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:28 +0000
Subject: [PATCH 38/43] fix: keep the documentation of union fields

The accessors of union fields were generated without the documentation
comment of the field, unlike those of all other fields.
---
 butte-build/src/codegen.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index a9f31de..dc3ee0b 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -667,6 +667,7 @@ impl ToTokens for ir::Table<'_> {
                         },
                     );
                     quote! {
+                        #doc
                         #[inline]
                         pub fn #snake_name(&self) -> Result<#ty_ret, butte::Error> {
                             Ok(match self.#type_snake_name()? {
@@ -697,6 +698,7 @@ impl ToTokens for ir::Table<'_> {
                     );
 
                     quote! {
+                        #doc
                         #[inline]
                         pub fn #snake_name(&self) -> Result<Option<#ty_ret>, butte::Error> {
                             Ok(match self.#type_snake_name()? {
-- 
2.43.0


From a6605131ccfc162e111c297cbbb6e4e83f689f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:08 +0000
Subject: [PATCH 39/43] fix: accept hexadecimal floats without a point or
 without an exponent

The grammar allows 0x1p3 and 0x1.8, and so does the parser, but
parse_hexf64 wants both a point and an exponent and refused them.
---
 butte-build/src/ast/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index f61b4fa..9db892f 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -2181,7 +2181,15 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
                     terminated(hex_digit1, hex_float_exponent),
                 )),
             )),
-            |value| parse_hexf64(value, false),
+            |value: &str| {
+                // `parse_hexf64` insists on both a point and an exponent
+                let (digits, exponent) = match value.find(|c| c == 'p' || c == 'P') {
+                    Some(i) => value.split_at(i),
+                    None => (value, "p0"),
+                };
+                let point = if digits.contains('.') { "" } else { "." };
+                parse_hexf64(&format!("{}{}{}", digits, point, exponent), false)
+            },
         ),
     ));
     map(
-- 
2.43.0


From c5b6eb4908a072f98d1613b9532956853af39abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:08 +0000
Subject: [PATCH 40/43] fix: refuse to grow a buffer beyond two gigabytes in
 several steps

Only the single request was compared with the limit, so a buffer could grow
past it bit by bit, and past four gigabytes its offsets wrapped around.
---
 butte/src/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index baa9363..8a6db3d 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -637,13 +637,13 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
     #[inline]
     fn ensure_capacity(&mut self, want: usize) -> usize {
-        if self.unused_ready_space() >= want {
-            return want;
-        }
         assert!(
-            want <= FLATBUFFERS_MAX_BUFFER_SIZE,
+            want <= FLATBUFFERS_MAX_BUFFER_SIZE - self.used_space(),
             "cannot grow buffer beyond 2 gigabytes"
         );
+        if self.unused_ready_space() >= want {
+            return want;
+        }
 
         while self.unused_ready_space() < want {
             self.grow_owned_buf();
-- 
2.43.0


From c4f47668fe2473a9b0731d9987cd94f3d3364291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:32 +0000
Subject: [PATCH 41/43] fix: refuse vectors and values that nest too deep
 instead of overflowing the stack

Parsing a type or a value of some thousands of levels overflowed the stack, and the
code generated for vectors of more than about 60 levels is over rustc's recursion
limit.
---
 butte-build/src/ast/parser.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 9db892f..1eb741d 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -11,7 +11,32 @@ use nom::{
     sequence::*, IResult,
 };
 
-use std::{iter::FromIterator, path::Path, str::FromStr};
+use std::{cell::Cell, iter::FromIterator, path::Path, str::FromStr};
+
+/// How deep types and values may nest. Each level takes a part of the stack here, and
+/// of the recursion limit of rustc when the generated code is compiled.
+const MAX_DEPTH: usize = 32;
+
+thread_local!(static DEPTH: Cell<usize> = Cell::new(0));
+
+/// A parser that calls itself, up to a depth.
+fn nested<'a, O>(
+    parser: impl Fn(&'a str) -> IResult<&'a str, O>,
+) -> impl Fn(&'a str) -> IResult<&'a str, O> {
+    move |input| {
+        let depth = DEPTH.with(Cell::get);
+        if depth == MAX_DEPTH {
+            return Err(nom::Err::Failure((
+                input,
+                nom::error::ErrorKind::TooLarge,
+            )));
+        }
+        DEPTH.with(|d| d.set(depth + 1));
+        let result = parser(input);
+        DEPTH.with(|d| d.set(depth));
+        result
+    }
+}
 
 #[cfg(test)]
 macro_rules! assert_failed_parse {
@@ -1314,7 +1339,7 @@ pub fn type_(input: &str) -> IResult<&str, Type<'_>> {
         map(
             delimited(
                 terminated(left_square_bracket, comment_or_space0),
-                type_,
+                nested(type_),
                 preceded(comment_or_space0, right_square_bracket),
             ),
             |t| Type::from([t]),
@@ -1462,7 +1487,7 @@ pub fn object(input: &str) -> IResult<&str, Object<'_>> {
                     separated_pair(
                         ident,
                         delimited(comment_or_space0, colon, comment_or_space0),
-                        value_,
+                        nested(value_),
                     ),
                 ),
                 preceded(comment_or_space0, right_brace),
@@ -1552,7 +1577,7 @@ pub fn value_list(input: &str) -> IResult<&str, Vec<Value<'_>>> {
         terminated(left_square_bracket, comment_or_space0),
         separated_list(
             delimited(comment_or_space0, comma, comment_or_space0),
-            value_,
+            nested(value_),
         ),
         preceded(comment_or_space0, right_square_bracket),
     )(input)
-- 
2.43.0


From 9a6c3353c6a7568520f7dc80cdefd3a8ac3e911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:34 +0000
Subject: [PATCH 42/43] fix: refuse namespaces that nest too deep instead of
 overflowing the stack

---
 butte-build/src/ir/transform.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 0f50d13..ef7324c 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -7,6 +7,9 @@ use std::{
     convert::{TryFrom, TryInto},
 };
 
+/// How many parts a namespace may have
+const MAX_NAMESPACE_DEPTH: usize = 256;
+
 #[derive(Default, Clone, Debug)]
 pub struct Builder<'a> {
     current_namespace: Option<ast::Namespace<'a>>,
@@ -169,6 +172,10 @@ impl<'a> Builder<'a> {
         {
             return Err(anyhow!("invalid namespace: {:?}", ns.ident));
         }
+        // Each part is a module in the one before, and takes a part of the stack
+        if ns.ident.parts.len() > MAX_NAMESPACE_DEPTH {
+            return Err(anyhow!("namespace nests too deep"));
+        }
         self.current_namespace = Some(ns.clone());
         Ok(true)
     }
-- 
2.43.0


From dc397cd89a344ce95ddd05da958c98bf4461bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:10 +0000
Subject: [PATCH 43/43] fix: refuse tables with more fields than a vtable has
 slots for

The offsets of the fields wrapped around, or the compiler panicked in debug builds.
---
 butte-build/src/ir/transform.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index ef7324c..016f5db 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -1,5 +1,6 @@
 use crate::{ast::types as ast, ir::types as ir};
 use anyhow::{anyhow, Result};
+use butte::{VOffsetT, SIZE_VOFFSET};
 use heck::SnakeCase;
 use itertools::Itertools;
 use std::{
@@ -7,6 +8,10 @@ use std::{
     convert::{TryFrom, TryInto},
 };
 
+/// How many fields a table may have: their slots follow the two entries that give
+/// the size of the vtable and of the table
+const MAX_FIELDS: usize = VOffsetT::max_value() as usize / SIZE_VOFFSET - 2;
+
 /// How many parts a namespace may have
 const MAX_NAMESPACE_DEPTH: usize = 256;
 
@@ -254,6 +259,11 @@ impl<'a> Builder<'a> {
             }
         }
 
+        // The slots of all fields must fit in a vtable, whose size has 16 bits
+        if fields.len() > MAX_FIELDS {
+            return Err(anyhow!("too many fields: {}", ident));
+        }
+
         // Field names must differ once they are turned into the generated names
         let mut names = HashSet::new();
         for f in &fields {
-- 
2.43.0


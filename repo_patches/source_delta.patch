From 0f619eba72e772674e6902e2e28407581912a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 01/37] fix: read and write scalars without assuming their
 address is aligned

A flatbuffer may start at any address (a sub-slice of a larger message, a
builder created with an odd capacity), and an untrusted buffer may point
anywhere. Dereferencing a misaligned pointer is undefined behaviour, and it
aborts the process in debug builds.
---
 butte/src/endian_scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 1264591..5f5f25b 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -157,7 +157,7 @@ pub fn emplace_scalar<T: EndianScalar>(s: &mut [u8], x: T) {
     let mut_ptr = (&mut s[..sz]).as_mut_ptr() as *mut T;
     let val = x.to_little_endian();
     unsafe {
-        *mut_ptr = val;
+        mut_ptr.write_unaligned(val);
     }
 }
 
@@ -176,7 +176,7 @@ pub fn read_scalar<T: EndianScalar>(s: &[u8]) -> Result<T, Error> {
     let sz = size_of::<T>();
 
     let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr() as *const T;
-    let x = unsafe { *p };
+    let x = unsafe { p.read_unaligned() };
 
     Ok(x.from_little_endian())
 }
-- 
2.43.0


From 4018f40d3f8d905a4b09771a7d6a04ecb27be8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 02/37] fix: report a vtable offset that leaves the buffer as
 an error

The subtraction overflowed i32 for extreme offsets, and a negative result
was cast to a huge location whose later use overflowed usize; both panic in
builds with overflow checks.
---
 butte/src/primitives.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butte/src/primitives.rs b/butte/src/primitives.rs
index 6bfe7fc..afd8ece 100644
--- a/butte/src/primitives.rs
+++ b/butte/src/primitives.rs
@@ -258,7 +258,12 @@ impl<'a, T: Follow<'a>> Follow<'a> for BackwardsSOffset<T> {
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
         let slice = buf.get(loc..loc + SIZE_SOFFSET).ok_or(Error::OutOfBounds)?;
         let off = read_scalar::<SOffsetT>(slice)?;
-        T::follow(buf, (loc as SOffsetT - off) as usize)
+        // The offset is untrusted: it may point before the start of the buffer.
+        let target = loc as i64 - i64::from(off);
+        if target < 0 {
+            return Err(Error::OutOfBounds);
+        }
+        T::follow(buf, target as usize)
     }
 }
 
-- 
2.43.0


From f001ec61a7ff5fa2d1674dd9b17bb07c948bea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 03/37] fix: VTable::get_field no longer reads one slot past
 the vtable

Also do not underflow when a vtable claims to be shorter than its header.
---
 butte/src/vtable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte/src/vtable.rs b/butte/src/vtable.rs
index cc7df14..a63e29f 100644
--- a/butte/src/vtable.rs
+++ b/butte/src/vtable.rs
@@ -36,7 +36,7 @@ impl<'a> VTable<'a> {
         VTable { buf, loc }
     }
     pub fn num_fields(&self) -> Result<usize, Error> {
-        Ok((self.num_bytes()? / SIZE_VOFFSET) - 2)
+        Ok((self.num_bytes()? / SIZE_VOFFSET).saturating_sub(VTABLE_METADATA_FIELDS))
     }
     pub fn num_bytes(&self) -> Result<usize, Error> {
         Ok(read_scalar_at::<VOffsetT>(self.buf, self.loc)? as usize)
@@ -46,7 +46,7 @@ impl<'a> VTable<'a> {
         Ok(n as usize)
     }
     pub fn get_field(&self, idx: usize) -> Result<Option<VOffsetT>, Error> {
-        if idx > self.num_fields()? {
+        if idx >= self.num_fields()? {
             return Ok(None);
         }
         read_scalar_at::<VOffsetT>(
-- 
2.43.0


From 8b27f8a1d242885234312ea2128628292bbc545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 04/37] fix: VectorIter::nth with a huge index returns None
 instead of overflowing

---
 butte/src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index dfd2c46..0a5ff0c 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -252,7 +252,7 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
 
         // Note that this might overflow, but that is okay because
         // in that case self.remaining will have been set to zero.
-        self.loc = self.loc.wrapping_add(sz * n);
+        self.loc = self.loc.wrapping_add(sz.wrapping_mul(n));
 
         self.next()
     }
-- 
2.43.0


From d762093c2f1974ed8fd5bd1e673f8fc5df913450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 05/37] fix: reset forgets the fields of a table that was under
 construction

They leaked into the first table built afterwards.
---
 butte/src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index bcf4418..30ced3d 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -110,6 +110,7 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
         }
 
         self.head = self.owned_buf.len();
+        self.field_locs.clear();
         self.written_vtable_revpos.clear();
 
         self.nested = false;
-- 
2.43.0


From ed67ba663b492d29bbbb60d57fa06b41d4f6eb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:49 +0000
Subject: [PATCH 06/37] fix: refuse to view misaligned vector data as a slice

A slice of multi-byte scalars at a misaligned address is undefined
behaviour (and an abort in debug builds); report it as an error.
---
 butte/src/error.rs  | 4 ++++
 butte/src/vector.rs | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/butte/src/error.rs b/butte/src/error.rs
index c7a622d..65a320e 100644
--- a/butte/src/error.rs
+++ b/butte/src/error.rs
@@ -17,6 +17,9 @@ pub enum Error {
     UnknownUnionVariant,
     /// Returned if a type doesn't have a default value
     NoTypeDefaultValue,
+    /// Returned if a vector cannot be viewed as a slice because its elements
+    /// are not aligned in memory
+    MisalignedSlice,
 }
 
 impl fmt::Display for Error {
@@ -29,6 +32,7 @@ impl fmt::Display for Error {
             Error::UnknownEnumVariant => write!(f, "unknown enum variant"),
             Error::UnknownUnionVariant => write!(f, "unknown union variant"),
             Error::NoTypeDefaultValue => write!(f, "type does not have a default value"),
+            Error::MisalignedSlice => write!(f, "vector elements are not aligned in memory"),
         }
     }
 }
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 0a5ff0c..e951807 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -18,7 +18,7 @@
 use std::{
     iter::{DoubleEndedIterator, ExactSizeIterator, FusedIterator},
     marker::PhantomData,
-    mem::size_of,
+    mem::{align_of, size_of},
     slice::from_raw_parts,
     str::from_utf8,
 };
@@ -93,6 +93,9 @@ impl<'a, T: SafeSliceAccess + 'a> Vector<'a, T> {
             .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
             .ok_or(Error::OutOfBounds)?;
         let ptr = data_buf.as_ptr() as *const T;
+        if ptr as usize % align_of::<T>() != 0 {
+            return Err(Error::MisalignedSlice);
+        }
         let s: &'a [T] = unsafe { from_raw_parts(ptr, len) };
         Ok(s)
     }
@@ -169,6 +172,9 @@ fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
         .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
         .ok_or(Error::OutOfBounds)?;
     let ptr = data_buf.as_ptr() as *const T;
+    if ptr as usize % align_of::<T>() != 0 {
+        return Err(Error::MisalignedSlice);
+    }
     let s: &[T] = unsafe { from_raw_parts(ptr, len) };
     Ok(s)
 }
-- 
2.43.0


From f071c4ac175ae22b19e5143162e9e9e6b7f3871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:12 +0000
Subject: [PATCH 07/37] fix: only recognise nan, inf, true and false at the
 start of the input

The regular expressions were not anchored, so one of these words anywhere
later in the schema, even in a comment, changed how an earlier default value
was parsed, and nan and inf consumed the rest of the schema.
---
 butte-build/src/ast/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index b8241fb..a417c11 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -1965,14 +1965,14 @@ mod hex_integer_constant_tests {
 
 pub fn true_(input: &str) -> IResult<&str, BooleanConstant> {
     value(true, |input: &str| {
-        nom::re_match!(input, r"\btrue\b")?;
+        nom::re_match!(input, r"^true\b")?;
         tag("true")(input)
     })(input)
 }
 
 pub fn false_(input: &str) -> IResult<&str, BooleanConstant> {
     value(false, |input: &str| {
-        nom::re_match!(input, r"\bfalse\b")?;
+        nom::re_match!(input, r"^false\b")?;
         tag("false")(input)
     })(input)
 }
@@ -2179,8 +2179,9 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
 /// Parse `nan`
 pub fn nan(input: &str) -> IResult<&str, FloatingConstant> {
     map(
-        terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\bnan\b")
+        terminated(opt(plus_or_minus), |input: &str| {
+            nom::re_match!(input, r"^nan\b")?;
+            tag("nan")(input)
         }),
         |sign| {
             if let Some('-') = sign {
@@ -2227,8 +2228,9 @@ mod nan_tests {
 /// Parse `inf` or `infinity`
 pub fn inf_or_infinity(input: &str) -> IResult<&str, FloatingConstant> {
     map(
-        terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\binf(inity)?\b")
+        terminated(opt(plus_or_minus), |input: &str| {
+            nom::re_match!(input, r"^inf(inity)?\b")?;
+            alt((tag("infinity"), tag("inf")))(input)
         }),
         |sign| {
             if let Some('-') = sign {
-- 
2.43.0


From 02cfffa8214513b595deacba0cc1793cf028a078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:14 +0000
Subject: [PATCH 08/37] fix: user types whose name starts with a built-in type
 name

Types and namespaces such as `interval` or `shorts.T` were parsed as the
built-in type followed by garbage, and the schema was rejected.
---
 butte-build/src/ast/parser.rs | 54 +++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index a417c11..a579673 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -1272,32 +1272,42 @@ SayHello // foo
     }
 }
 
+/// Parse the name of a built-in type. It has to be a whole word: `interval` is not `int`.
+fn type_name<'a>(name: &'static str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    terminated(
+        tag(name),
+        not(take_while_m_n(1, 1, |c: char| {
+            c.is_alphanumeric() || c == '_'
+        })),
+    )
+}
+
 pub fn type_(input: &str) -> IResult<&str, Type<'_>> {
     alt((
         alt((
-            value(Type::Bool, tag("bool")),
-            value(Type::Byte, tag("byte")),
-            value(Type::UByte, tag("ubyte")),
-            value(Type::Short, tag("short")),
-            value(Type::UShort, tag("ushort")),
-            value(Type::Long, tag("long")),
-            value(Type::ULong, tag("ulong")),
-            value(Type::Double, tag("double")),
-            value(Type::Int8, tag("int8")),
-            value(Type::UInt8, tag("uint8")),
-            value(Type::Int16, tag("int16")),
-            value(Type::UInt16, tag("uint16")),
-            value(Type::Int32, tag("int32")),
-            value(Type::UInt32, tag("uint32")),
-            value(Type::Int64, tag("int64")),
-            value(Type::UInt64, tag("uint64")),
-            value(Type::Float32, tag("float32")),
-            value(Type::Float64, tag("float64")),
-            value(Type::Int, tag("int")),
-            value(Type::UInt, tag("uint")),
-            value(Type::Float, tag("float")),
+            value(Type::Bool, type_name("bool")),
+            value(Type::Byte, type_name("byte")),
+            value(Type::UByte, type_name("ubyte")),
+            value(Type::Short, type_name("short")),
+            value(Type::UShort, type_name("ushort")),
+            value(Type::Long, type_name("long")),
+            value(Type::ULong, type_name("ulong")),
+            value(Type::Double, type_name("double")),
+            value(Type::Int8, type_name("int8")),
+            value(Type::UInt8, type_name("uint8")),
+            value(Type::Int16, type_name("int16")),
+            value(Type::UInt16, type_name("uint16")),
+            value(Type::Int32, type_name("int32")),
+            value(Type::UInt32, type_name("uint32")),
+            value(Type::Int64, type_name("int64")),
+            value(Type::UInt64, type_name("uint64")),
+            value(Type::Float32, type_name("float32")),
+            value(Type::Float64, type_name("float64")),
+            value(Type::Int, type_name("int")),
+            value(Type::UInt, type_name("uint")),
+            value(Type::Float, type_name("float")),
         )),
-        value(Type::String, tag("string")),
+        value(Type::String, type_name("string")),
         map(
             delimited(left_square_bracket, type_, right_square_bracket),
             |t| Type::from([t]),
-- 
2.43.0


From 13bbdb0f3421b72c204c7106bd6637ebac614411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:16 +0000
Subject: [PATCH 09/37] fix: accept white space and comments between any two
 schema tokens

Inside the brackets of a vector type, before the metadata of an enum, and
in a schema that has nothing else, they made parsing fail.
---
 butte-build/src/ast/parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index a579673..ef28cff 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -264,7 +264,10 @@ pub fn schema_decl(input: &str) -> IResult<&str, Schema<'_>> {
                 include_decl,
                 comment_or_space0,
             )),
-            many0(delimited(comment_or_space0, element, comment_or_space0)),
+            terminated(
+                many0(delimited(comment_or_space0, element, comment_or_space0)),
+                comment_or_space0,
+            ),
         )),
         Schema::from,
     )(input)
@@ -700,7 +703,7 @@ pub fn enum_decl(input: &str) -> IResult<&str, Enum<'_>> {
             delimited(comment_or_space1, ident, comment_or_space0),
         ),
         preceded(colon, preceded(comment_or_space0, type_)),
-        metadata,
+        preceded(comment_or_space0, metadata),
         enum_body,
     ));
     map(parser, |(comment, name, base_type, metadata, variants)| {
@@ -1309,7 +1312,11 @@ pub fn type_(input: &str) -> IResult<&str, Type<'_>> {
         )),
         value(Type::String, type_name("string")),
         map(
-            delimited(left_square_bracket, type_, right_square_bracket),
+            delimited(
+                terminated(left_square_bracket, comment_or_space0),
+                type_,
+                preceded(comment_or_space0, right_square_bracket),
+            ),
             |t| Type::from([t]),
         ),
         map(qualified_ident, Type::Ident),
-- 
2.43.0


From 62ed5113b589401bb79042f1233ac8f63354435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:40 +0000
Subject: [PATCH 10/37] fix: reporting an incomplete parse no longer panics

The unparsed rest may be shorter than 30 bytes, or have a multi-byte
character across that boundary.
---
 butte-build/src/compile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 1f22894..f664e1a 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -28,7 +28,7 @@ pub fn compile_fbs_generic(
     if !rest.is_empty() {
         return Err(anyhow!(
             "Parse was incomplete: not parsed: {}...",
-            &rest[..30]
+            rest.chars().take(30).collect::<String>()
         ));
     }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
-- 
2.43.0


From c67b5bec687965e9122a917ac7906aeb45977c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:41 +0000
Subject: [PATCH 11/37] fix: report a failure of rustfmt instead of writing an
 empty file

---
 butte-build/src/compile.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index f664e1a..23cd13e 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -50,7 +50,11 @@ pub fn compile_fbs_generic(
             .as_mut()
             .ok_or_else(|| anyhow!("cannot access stdin"))?
             .write_all(code.as_bytes())?;
-        cmd.wait_with_output()?.stdout
+        let formatted = cmd.wait_with_output()?;
+        if !formatted.status.success() {
+            return Err(anyhow!("rustfmt failed: {}", formatted.status));
+        }
+        formatted.stdout
     } else {
         Vec::from(code)
     };
-- 
2.43.0


From c15c66217b41c0a9d73ab21d1688dfac892c7a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:43 +0000
Subject: [PATCH 12/37] fix: resolve a deferred definition in the namespace it
 was declared in

A definition that refers to a later one is looked at again after the rest
of the schema; by then the current namespace was the last one declared.
---
 butte-build/src/ir/transform.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index cfbd41e..ee788c7 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -16,7 +16,12 @@ pub struct Builder<'a> {
 }
 
 #[derive(Clone, Debug)]
-struct IndexedElement<'a>(usize, ast::Element<'a>);
+struct IndexedElement<'a> {
+    pos: usize,
+    // The namespace the element is declared in
+    namespace: Option<ast::Namespace<'a>>,
+    element: ast::Element<'a>,
+}
 
 #[derive(Clone, Debug, PartialEq)]
 enum CustomTypeStatus<'a> {
@@ -64,8 +69,13 @@ impl<'a> NamespaceBuf<'a> {
 impl<'a> Builder<'a> {
     fn new_element(
         &mut self,
-        &IndexedElement(pos, ref element): &IndexedElement<'a>,
+        &IndexedElement {
+            pos,
+            ref namespace,
+            ref element,
+        }: &IndexedElement<'a>,
     ) -> Result<bool> {
+        self.current_namespace = namespace.clone();
         match element {
             ast::Element::Namespace(n) => self.new_namespace(n),
             ast::Element::Table(t) => self.new_table(t, pos),
@@ -535,11 +545,23 @@ impl<'a> Builder<'a> {
 
         // Keep track of the definition order,
         // mostly to build IR deterministically
+        // An element may be looked at more than once, so remember
+        // which namespace it belongs to.
+        let mut namespace = None;
         let mut input: VecDeque<_> = schema
             .elements
             .into_iter()
             .enumerate()
-            .map(|(i, el)| IndexedElement(i, el))
+            .map(|(pos, element)| {
+                if let ast::Element::Namespace(ns) = &element {
+                    namespace = Some(ns.clone());
+                }
+                IndexedElement {
+                    pos,
+                    namespace: namespace.clone(),
+                    element,
+                }
+            })
             .collect();
 
         // Loop until all types can be defined
@@ -559,7 +581,7 @@ impl<'a> Builder<'a> {
                 if context.nodes.len() == nodes_len {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
-                        .map(|IndexedElement(_, element)| element)
+                        .map(|IndexedElement { element, .. }| element)
                         .collect::<Vec<_>>();
                     return Err(anyhow!("Unable to type schema: the following definitions referenced items not found: {:?}", unsatisfied_elements));
                     // TODO proper reporting
-- 
2.43.0


From 69f20c99f9c968622e31639826314961722cd455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:45 +0000
Subject: [PATCH 13/37] fix: relative path to a type from a namespace with the
 same name

A type `a.B` used from the namespace `a.B` gave an empty path.
---
 butte-build/src/ir/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 0deb591..d58c1c0 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -522,8 +522,8 @@ impl<'a> QualifiedIdent<'a> {
 
     pub fn relative(&self, namespace: Option<&QualifiedIdent<'a>>) -> QualifiedIdent<'a> {
         if let Some(ns) = namespace {
-            let common_prefix_len = self
-                .parts
+            // Only namespaces can be shared, the last part names the item itself
+            let common_prefix_len = self.parts[..self.parts.len() - 1]
                 .iter()
                 .zip(ns.parts.iter())
                 .take_while(|(a, b)| a == b)
-- 
2.43.0


From d2a11b52087537112f899bfd8ed0b4b022126538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:02 +0000
Subject: [PATCH 14/37] fix: fields and namespaces named after a Rust keyword

Converting the substituted name to snake case removed its trailing
underscore again, and `try` was missing from the keywords.
---
 butte-build/src/codegen.rs     | 11 +++++++++--
 butte-build/src/ir/keywords.rs |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 2a1b532..ccd7943 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -352,6 +352,13 @@ mod to_default_value_tests {
     }
 }
 
+/// Convert an identifier to snake case.
+///
+/// This drops the underscore that makes a keyword a valid identifier, so it has to be fixed again.
+fn snake_case_ident<'a>(ident: &ir::Ident<'_>) -> ir::Ident<'a> {
+    ir::Ident::from(ident.as_ref().to_snake_case())
+}
+
 fn offset_id(field: &ir::Field<'_>) -> impl ToTokens {
     format_ident!("VT_{}", field.ident.as_ref().to_shouty_snake_case())
 }
@@ -577,7 +584,7 @@ impl ToTokens for ir::Table<'_> {
                 ..
             } = field;
             let offset_name = offset_id(field);
-            let snake_name = format_ident!("{}", ident.as_ref().to_snake_case());
+            let snake_name = snake_case_ident(ident);
             let snake_name_str = snake_name.to_string();
             let ty_ret = to_type_token(
                 table_ns_ref,
@@ -1131,7 +1138,7 @@ impl<'a> CodeGenerator<'a> {
             ir::Node::Enum(e) => e.to_tokens(tokens),
             ir::Node::Union(u) => u.to_tokens(tokens),
             ir::Node::Namespace(n) => {
-                let ident = format_ident!("{}", n.ident.simple().as_ref().to_snake_case());
+                let ident = snake_case_ident(n.ident.simple());
                 let mut nodes_ts = TokenStream::default();
                 for node in &n.nodes {
                     self.node_to_tokens(node, rpc_gen, &mut nodes_ts);
diff --git a/butte-build/src/ir/keywords.rs b/butte-build/src/ir/keywords.rs
index 7fa914c..fa3b34e 100644
--- a/butte-build/src/ir/keywords.rs
+++ b/butte-build/src/ir/keywords.rs
@@ -49,6 +49,7 @@ pub fn substitute_keyword(input: &str) -> Option<&'static str> {
         "macro" => "macro_",
         "override" => "override_",
         "priv" => "priv_",
+        "try" => "try_",
         "typeof" => "typeof_",
         "unsized" => "unsized_",
         "virtual" => "virtual_",
-- 
2.43.0


From 8a99863be660f0d032bb41cd1b6d2f68bbec7933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:05 +0000
Subject: [PATCH 15/37] fix: paths to types in namespaces that are not snake
 case

Namespaces become snake case modules, but references to types in another
namespace kept the schema's spelling and did not compile.
---
 butte-build/src/codegen.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index ccd7943..08570c5 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -880,7 +880,16 @@ impl ToTokens for ir::QualifiedIdent<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let parts = &self.parts;
         debug_assert!(!self.parts.is_empty());
-        let code = parts.iter().map(|e| e.raw.as_ref()).join("::");
+        // Everything before the item itself is a module: `super`, or a namespace
+        let (item, namespace) = parts.split_last().expect("empty path");
+        let code = namespace
+            .iter()
+            .map(|e| match e.raw.as_ref() {
+                "super" => e.clone(),
+                _ => snake_case_ident(e),
+            })
+            .chain(std::iter::once(item.clone()))
+            .join("::");
         syn::parse_str::<syn::Path>(&code)
             .expect("Cannot parse path")
             .to_tokens(tokens)
-- 
2.43.0


From edb49f5e42a12ced26dc077ecb4696a5f785a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:27 +0000
Subject: [PATCH 16/37] fix: an enum value without a number follows the
 previous one

FlatBuffers numbers it one more than the previous value; it was given its
position, which differs after the first explicit number and may even
collide with it.
---
 butte-build/src/codegen.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 08570c5..e3814b7 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -5,7 +5,7 @@ use heck::{ShoutySnakeCase, SnakeCase};
 use itertools::Itertools;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use std::{convert::TryInto, fmt};
+use std::fmt;
 use syn::spanned::Spanned;
 
 #[cfg(test)]
@@ -926,24 +926,17 @@ impl ToTokens for ir::Enum<'_> {
             .next();
 
         // assign a value to the key if one was given, otherwise give it the
-        // enumerated index's value
-        let variants_and_scalars = variants.iter().enumerate().map(
-            |(
-                index,
-                ir::EnumVariant {
-                    ident: key,
-                    value,
-                    doc,
-                },
-            )| {
+        // previous key's value plus one, starting at zero
+        let mut next_value: ast::IntegerConstant = 0;
+        let variants_and_scalars = variants.iter().map(
+            move |ir::EnumVariant {
+                 ident: key,
+                 value,
+                 doc,
+             }| {
                 // format the value with the correct type, i.e., base_type
-                let scalar_value = if let Some(constant) = *value {
-                    constant
-                } else {
-                    index
-                        .try_into()
-                        .expect("invalid conversion to enum base type")
-                };
+                let scalar_value = value.unwrap_or(next_value);
+                next_value = scalar_value.wrapping_add(1);
                 let formatted_value = scalar_value.fmt_lit(base_type.to_token_stream());
                 (quote!(#key), quote!(#formatted_value), doc)
             },
-- 
2.43.0


From 2f2006aaac733af282da4e2a44ba9d63dd3aeec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:30 +0000
Subject: [PATCH 17/37] fix: keep the explicit type numbers of a union's
 variants

---
 butte-build/src/ir/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index ee788c7..dadbe5f 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -354,7 +354,7 @@ impl<'a> Builder<'a> {
         })
         .chain(u.variants.iter().map(|v| ir::EnumVariant {
             ident: v.id.into(),
-            value: None,
+            value: v.value,
             doc: v.doc.clone(),
         }))
         .collect();
-- 
2.43.0


From a6bd25084ba59266d77dac41e263b373868097fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:32 +0000
Subject: [PATCH 18/37] fix: default value naming an enum variant that is a
 Rust keyword

---
 butte-build/src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index e3814b7..c392f64 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -215,7 +215,7 @@ fn to_default_value(
         },
         // Enum field default variant
         ast::DefaultValue::Ident(i) => {
-            let variant = format_ident!("{}", i.raw);
+            let variant = ir::Ident::from(i);
             quote!(<#arg_ty>::#variant).to_token_stream()
         }
     }
@@ -476,7 +476,7 @@ impl ToTokens for ir::Table<'_> {
                         // Handle customized default values
                         if ty.is_enum() {
                             let default_name = if let ast::DefaultValue::Ident(i) = default_value {
-                                format_ident!("{}", i.raw)
+                                ir::Ident::from(i)
                             } else {
                                 panic!("expecting default ident for enum")
                             };
-- 
2.43.0


From 2eadcc2a6edd74063e7e76313773893461c1172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 19/37] fix: creating a table whose required scalar has its
 default value

The value was not written because it is the default, and then reported as
missing by a panic.
---
 butte-build/src/codegen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index c392f64..72ccb10 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -521,6 +521,7 @@ impl ToTokens for ir::Table<'_> {
                 ident: field_id,
                 ty,
                 default_value,
+                metadata,
                 ..
             } = field;
             let add_method_name = format_ident!("add_{}", field_id.raw.as_ref());
@@ -546,7 +547,8 @@ impl ToTokens for ir::Table<'_> {
                 quote!(#arg_ty)
             };
 
-            let body = if ty.is_scalar() {
+            // A required field is always written, even if it has its default value
+            let body = if ty.is_scalar() && !metadata.required {
                 if let Some(default_value) = default_value {
                     let default_value = to_default_value(&arg_ty, default_value);
                     quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #field_id, #default_value))
-- 
2.43.0


From a37b3a3f5b8e5e9901ccc06356b7574e1739ef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:09 +0000
Subject: [PATCH 20/37] fix: generate code for infinite and nan default values

The parser accepts them, but there is no Rust literal for them and
generating the code panicked.
---
 butte-build/src/codegen.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 72ccb10..d496bbe 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -188,16 +188,33 @@ impl PrimitiveLiteralToken for ast::IntegerConstant {
 }
 
 impl PrimitiveLiteralToken for ast::FloatingConstant {
-    type TokenType = syn::LitFloat;
+    type TokenType = TokenStream;
 
     fn fmt_lit(&self, ty: impl Spanned + fmt::Display) -> Self::TokenType {
-        Self::TokenType::new(
-            &match ty.to_string().as_str() {
-                float_ty @ "f32" => format!("{}{}", *self as f32, float_ty),
-                float_ty => format!("{}{}", self, float_ty),
+        let float_ty = ty.to_string();
+        let value = match float_ty.as_str() {
+            "f32" => f64::from(*self as f32),
+            _ => *self,
+        };
+        if !value.is_finite() {
+            // There are no literals for these
+            let module = format_ident!("{}", float_ty);
+            return if value.is_nan() {
+                quote!(std::#module::NAN)
+            } else if value > 0.0 {
+                quote!(std::#module::INFINITY)
+            } else {
+                quote!(std::#module::NEG_INFINITY)
+            };
+        }
+        syn::LitFloat::new(
+            &match float_ty.as_str() {
+                "f32" => format!("{}{}", *self as f32, float_ty),
+                _ => format!("{}{}", self, float_ty),
             },
             ty.span(),
         )
+        .to_token_stream()
     }
 }
 
@@ -210,7 +227,7 @@ fn to_default_value(
         // Scalar field
         ast::DefaultValue::Scalar(s) => match s {
             ast::Scalar::Integer(i) => i.fmt_lit(arg_ty.to_token_stream()).to_token_stream(),
-            ast::Scalar::Float(f) => f.fmt_lit(arg_ty.to_token_stream()).to_token_stream(),
+            ast::Scalar::Float(f) => f.fmt_lit(arg_ty.to_token_stream()),
             ast::Scalar::Boolean(b) => b.to_token_stream(),
         },
         // Enum field default variant
@@ -488,7 +505,7 @@ impl ToTokens for ir::Table<'_> {
                             let default_val = match default_value {
                                 ast::DefaultValue::Scalar(s) => match s {
                                     ast::Scalar::Integer(i) => i.fmt_lit(arg_ty).to_token_stream(),
-                                    ast::Scalar::Float(f) => f.fmt_lit(arg_ty).to_token_stream(),
+                                    ast::Scalar::Float(f) => f.fmt_lit(arg_ty),
                                     ast::Scalar::Boolean(b) => quote!(#b),
                                 },
                                 _ => panic!("expecting numeric default"),
-- 
2.43.0


From 1d6fb5eea745ad4bab4341bdd042dd99b978bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 21/37] fix: resolve mutually recursive unions and tables in
 any order

---
 butte-build/src/ir/transform.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index dadbe5f..01d9bf5 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -568,7 +568,8 @@ impl<'a> Builder<'a> {
         // or stop if we make no progress
         loop {
             let mut unsatisfied = VecDeque::new();
-            let nodes_len = context.nodes.len();
+            // Declaring a table is progress too: others may refer to it from now on
+            let progress = (context.nodes.len(), context.types.len());
             while let Some(element) = input.pop_front() {
                 if !context.new_element(&element)? {
                     unsatisfied.push_back(element);
@@ -578,7 +579,7 @@ impl<'a> Builder<'a> {
                 break; // everything is satisfied
             } else {
                 // Didn't we progress?
-                if context.nodes.len() == nodes_len {
+                if (context.nodes.len(), context.types.len()) == progress {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
                         .map(|IndexedElement { element, .. }| element)
-- 
2.43.0


From 3abd170f6a64284e46d7f08b9fc4b5969f572745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 22/37] fix: report unsupported declarations instead of
 panicking

---
 butte-build/src/codegen.rs      | 20 +++++++++++---------
 butte-build/src/compile.rs      |  2 +-
 butte-build/src/ir/transform.rs |  8 ++++----
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index d496bbe..9bf1986 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -1,5 +1,6 @@
 use crate::{ast::types as ast, ir::types as ir};
 
+use anyhow::{anyhow, Result};
 use butte::VOffsetT;
 use heck::{ShoutySnakeCase, SnakeCase};
 use itertools::Itertools;
@@ -1125,18 +1126,19 @@ pub struct CodeGenerator<'a> {
 }
 
 impl<'a> CodeGenerator<'a> {
-    pub fn build_token_stream(&mut self) -> TokenStream {
+    pub fn build_token_stream(&mut self) -> Result<TokenStream> {
         let mut token_stream = TokenStream::default();
-        self.build_tokens(&mut token_stream);
-        token_stream
+        self.build_tokens(&mut token_stream)?;
+        Ok(token_stream)
     }
 
-    pub fn build_tokens(&mut self, tokens: &mut TokenStream) {
+    pub fn build_tokens(&mut self, tokens: &mut TokenStream) -> Result<()> {
         let mut rpc_gen = self.rpc_gen.take();
 
         for node in &self.root.nodes {
-            self.node_to_tokens(node, &mut rpc_gen, tokens);
+            self.node_to_tokens(node, &mut rpc_gen, tokens)?;
         }
+        Ok(())
     }
 
     fn node_to_tokens(
@@ -1144,7 +1146,7 @@ impl<'a> CodeGenerator<'a> {
         node: &ir::Node<'a>,
         rpc_gen: &mut Option<Box<dyn RpcGenerator>>,
         tokens: &mut TokenStream,
-    ) {
+    ) -> Result<()> {
         // The following constructs are (or should be) handled at the file level:
         // * Namespaces
         // * Root types
@@ -1155,14 +1157,14 @@ impl<'a> CodeGenerator<'a> {
         // used to *affect* codegen of other items.
         match node {
             ir::Node::Table(t) => t.to_tokens(tokens),
-            // ir::Node::Struct(_) => unimplemented!(),
+            ir::Node::Struct(s) => return Err(anyhow!("structs are not supported: {}", s.ident)),
             ir::Node::Enum(e) => e.to_tokens(tokens),
             ir::Node::Union(u) => u.to_tokens(tokens),
             ir::Node::Namespace(n) => {
                 let ident = snake_case_ident(n.ident.simple());
                 let mut nodes_ts = TokenStream::default();
                 for node in &n.nodes {
-                    self.node_to_tokens(node, rpc_gen, &mut nodes_ts);
+                    self.node_to_tokens(node, rpc_gen, &mut nodes_ts)?;
                 }
                 (quote! {
                     pub mod #ident {
@@ -1176,8 +1178,8 @@ impl<'a> CodeGenerator<'a> {
                     gen.generate(rpc, tokens)
                 }
             }
-            element => panic!("{:?}", element),
         }
+        Ok(())
     }
 }
 
diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 23cd13e..afa446f 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -35,7 +35,7 @@ pub fn compile_fbs_generic(
 
     let mut generator = CodeGenerator { root, rpc_gen };
 
-    let code = format!("{}", generator.build_token_stream());
+    let code = format!("{}", generator.build_token_stream()?);
 
     let text_output = if !ugly {
         let mut cmd = Command::new("rustfmt")
diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 01d9bf5..66772be 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -84,10 +84,10 @@ impl<'a> Builder<'a> {
             ast::Element::Union(u) => self.new_union(u, pos),
             ast::Element::Rpc(r) => self.new_rpc(r, pos),
             ast::Element::Root(r) => self.new_root(r, pos),
-            ast::Element::FileExtension(..) => unimplemented!(),
-            ast::Element::FileIdentifier(..) => unimplemented!(),
-            ast::Element::Attribute(..) => unimplemented!(),
-            ast::Element::Object(..) => unimplemented!(),
+            ast::Element::FileExtension(..) => Err(anyhow!("file_extension is not supported")),
+            ast::Element::FileIdentifier(..) => Err(anyhow!("file_identifier is not supported")),
+            ast::Element::Attribute(..) => Err(anyhow!("attribute is not supported")),
+            ast::Element::Object(..) => Err(anyhow!("objects are not supported")),
         }
     }
 
-- 
2.43.0


From 78c07a6ea98c56489ebd27dd0c7267617e1813cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:14 +0000
Subject: [PATCH 23/37] fix: report a default value that its field cannot hold

---
 butte-build/src/ir/transform.rs | 46 +++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 66772be..3fb41c2 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -139,6 +139,16 @@ impl<'a> Builder<'a> {
                     });
                 }
                 let ident = ir::Ident::from(&f.id);
+                if let Some(default_value) = &f.default_value {
+                    if !is_valid_default(&ty, default_value) {
+                        return Err(anyhow!(
+                            "bad default value for field {} of type {}: {:?}",
+                            f.id.raw,
+                            ty,
+                            default_value
+                        ));
+                    }
+                }
                 // Use `Some` explicit or implicit default value or `None`
                 let default_value = f.default_value.clone().or_else(|| (&f.ty).try_into().ok());
                 let metadata = ir::FieldMetadata::builder().required(required).build();
@@ -664,6 +674,42 @@ impl<'a> Builder<'a> {
     }
 }
 
+/// Is this explicit default value one that a field of this type can hold?
+fn is_valid_default(ty: &ir::Type<'_>, default_value: &ast::DefaultValue<'_>) -> bool {
+    let integer = match default_value {
+        ast::DefaultValue::Scalar(ast::Scalar::Integer(i)) => *i,
+        ast::DefaultValue::Scalar(ast::Scalar::Float(f)) => {
+            return match ty {
+                ir::Type::Float | ir::Type::Float32 => (*f as f32).is_finite() || !f.is_finite(),
+                ir::Type::Double | ir::Type::Float64 => true,
+                _ => false,
+            }
+        }
+        ast::DefaultValue::Scalar(ast::Scalar::Boolean(_)) => return matches!(ty, ir::Type::Bool),
+        ast::DefaultValue::Ident(i) => {
+            return match ty {
+                ir::Type::Custom(ir::CustomTypeRef {
+                    ty: ir::CustomType::Enum { variants, .. },
+                    ..
+                }) => variants.iter().any(|v| v.ident.raw == i.raw),
+                _ => false,
+            }
+        }
+    };
+    match ty {
+        ir::Type::Byte | ir::Type::Int8 => i8::try_from(integer).is_ok(),
+        ir::Type::UByte | ir::Type::UInt8 => u8::try_from(integer).is_ok(),
+        ir::Type::Short | ir::Type::Int16 => i16::try_from(integer).is_ok(),
+        ir::Type::UShort | ir::Type::UInt16 => u16::try_from(integer).is_ok(),
+        ir::Type::Int | ir::Type::Int32 => i32::try_from(integer).is_ok(),
+        ir::Type::UInt | ir::Type::UInt32 => u32::try_from(integer).is_ok(),
+        ir::Type::Long | ir::Type::Int64 => i64::try_from(integer).is_ok(),
+        ir::Type::ULong | ir::Type::UInt64 => u64::try_from(integer).is_ok(),
+        ir::Type::Float | ir::Type::Float32 | ir::Type::Double | ir::Type::Float64 => true,
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 748a907a85437e3d8cfa2d5d27cd44cb9e412f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:44 +0000
Subject: [PATCH 24/37] fix: read hexadecimal floating point constants

---
 butte-build/src/ast/parser.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index ef28cff..9b284a8 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -2178,7 +2178,26 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
                 ),
                 terminated(hex_digit1, hex_float_exponent),
             ))),
-            |value| parse_hexf64(value, false),
+            |value: &str| -> Result<FloatingConstant> {
+                // `parse_hexf64` wants a prefix, a point and an exponent, and no more digits than
+                // it takes to write down the number
+                let mut halves = value.splitn(2, |c| c == 'p' || c == 'P');
+                let mantissa = halves.next().unwrap_or_default();
+                let exponent = halves.next().map_or(Ok(0), i64::from_str)?;
+                let fraction_digits = mantissa.split('.').nth(1).map_or(0, str::len);
+                let digits = mantissa.replace('.', "");
+                let significant = digits.trim_end_matches('0');
+                let shift = 4 * (digits.len() - significant.len()) as i64
+                    - 4 * fraction_digits as i64;
+                Ok(parse_hexf64(
+                    &format!(
+                        "0x0{}.p{}",
+                        significant.trim_start_matches('0'),
+                        exponent.saturating_add(shift)
+                    ),
+                    false,
+                )?)
+            },
         ),
     ));
     map(
-- 
2.43.0


From 69d69872c7d288dfd602ac854ab078c7689c62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:30 +0000
Subject: [PATCH 25/37] fix: accept default values naming an enum variant that
 is a Rust keyword

---
 butte-build/src/ir/transform.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 3fb41c2..2a62c0b 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -691,7 +691,10 @@ fn is_valid_default(ty: &ir::Type<'_>, default_value: &ast::DefaultValue<'_>) ->
                 ir::Type::Custom(ir::CustomTypeRef {
                     ty: ir::CustomType::Enum { variants, .. },
                     ..
-                }) => variants.iter().any(|v| v.ident.raw == i.raw),
+                }) => {
+                    let ident = ir::Ident::from(i);
+                    variants.iter().any(|v| v.ident == ident)
+                }
                 _ => false,
             }
         }
-- 
2.43.0


From 577b1db193828acf8dc7dfd18929fd0b5e149948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:31 +0000
Subject: [PATCH 26/37] fix: name the type of a union field after its accessor

---
 butte-build/src/ir/transform.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 2a62c0b..25f9d9f 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -126,7 +126,9 @@ impl<'a> Builder<'a> {
                     let ty = self
                         .find_custom_type(enum_ty_ident.clone())
                         .expect("Union enum type companion should be defined now");
-                    let ident = ir::Ident::from(format!("{}_type", &f.id.raw.to_snake_case()));
+                    let ident = ir::Ident::from(&f.id);
+                    let ident =
+                        ir::Ident::from(format!("{}_type", ident.as_ref().to_snake_case()));
                     let default_value = None;
                     let metadata = ir::FieldMetadata::builder().required(required).build();
                     let doc = f.doc.clone();
-- 
2.43.0


From 3cb43d2c415f521d1524461fc941cb1bd6d35084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 27/37] fix: generate code for names of underscores and digits

---
 butte-build/src/codegen.rs  | 3 ++-
 butte-build/src/ir/types.rs | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 9bf1986..1110c50 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -648,7 +648,8 @@ impl ToTokens for ir::Table<'_> {
                 let enum_ident = enum_ident.relative(table_ns_ref);
 
                 let type_snake_name =
-                    format_ident!("{}_type", field.ident.as_ref().to_snake_case());
+                    ir::Ident::from(format!("{}_type", field.ident.as_ref().to_snake_case()));
+                let type_snake_name = snake_case_ident(&type_snake_name);
 
                 if field.metadata.required {
                     let names_to_enum_variant = variants.iter().map(
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index d58c1c0..bf39c39 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -446,6 +446,12 @@ impl<'a> Ident<'a> {
     pub fn fix_identifier(ident: Cow<'_, str>) -> Cow<'_, str> {
         if let Some(substitute) = super::keywords::substitute_keyword(ident.as_ref()) {
             Cow::Borrowed(substitute)
+        } else if ident.is_empty() || ident == "_" {
+            // Only underscores, which a change of case removes
+            Cow::Borrowed("__")
+        } else if ident.starts_with(char::is_numeric) {
+            // Same, in front of a digit
+            Cow::Owned(format!("_{}", ident))
         } else {
             ident
         }
-- 
2.43.0


From 8d538c4fd3178527ffc87eec602e0e1b29d7f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:55 +0000
Subject: [PATCH 28/37] fix: document the accessors of union fields

---
 butte-build/src/codegen.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 1110c50..c578e6a 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -672,6 +672,7 @@ impl ToTokens for ir::Table<'_> {
                         },
                     );
                     quote! {
+                        #doc
                         #[inline]
                         pub fn #snake_name(&self) -> Result<#ty_ret, butte::Error> {
                             Ok(match self.#type_snake_name()? {
@@ -702,6 +703,7 @@ impl ToTokens for ir::Table<'_> {
                     );
 
                     quote! {
+                        #doc
                         #[inline]
                         pub fn #snake_name(&self) -> Result<Option<#ty_ret>, butte::Error> {
                             Ok(match self.#type_snake_name()? {
-- 
2.43.0


From 3129c86794bdd32ca4e2b85efdbadf4b49ff89d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:09 +0000
Subject: [PATCH 29/37] fix: do not name a builder parameter after its field

---
 butte-build/src/codegen.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index c578e6a..c492859 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -569,18 +569,18 @@ impl ToTokens for ir::Table<'_> {
             let body = if ty.is_scalar() && !metadata.required {
                 if let Some(default_value) = default_value {
                     let default_value = to_default_value(&arg_ty, default_value);
-                    quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #field_id, #default_value))
+                    quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, value, #default_value))
                 } else {
-                    quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #field_id))
+                    quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, value))
                 }
             } else {
-                quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #field_id))
+                quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, value))
             };
 
             quote! {
                 #[inline]
                 #allow_type_complexity
-                fn #add_method_name(&mut self, #field_id: #arg_ty) {
+                fn #add_method_name(&mut self, value: #arg_ty) {
                     #body;
                 }
             }
-- 
2.43.0


From b04ebc21332243498295c021c42c1ae9131a714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:15 +0000
Subject: [PATCH 30/37] fix: generate code for enum variants named default,
 Error or Inner

---
 butte-build/src/codegen.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index c492859..d0661fb 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -515,7 +515,7 @@ impl ToTokens for ir::Table<'_> {
                         }
                     } else {
                         // no custom default value, default to the scalar type's default
-                        quote!(#field_id: <#arg_ty>::default())
+                        quote!(#field_id: <#arg_ty as Default>::default())
                     }
                 },
             );
@@ -1014,7 +1014,7 @@ impl ToTokens for ir::Enum<'_> {
             impl<'a> butte::Follow<'a> for #enum_id {
                 type Inner = Self;
 
-                fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, butte::Error> {
+                fn follow(buf: &'a [u8], loc: usize) -> Result<Self, butte::Error> {
                     let scalar = butte::read_scalar_at::<#base_type>(buf, loc)?;
                     <Self as std::convert::TryFrom<#base_type>>::try_from(scalar)
                 }
@@ -1022,7 +1022,7 @@ impl ToTokens for ir::Enum<'_> {
 
             impl std::convert::TryFrom<#base_type> for #enum_id {
                 type Error = butte::Error;
-                fn try_from(value: #base_type) -> Result<Self, Self::Error> {
+                fn try_from(value: #base_type) -> Result<Self, butte::Error> {
                     match value {
                         #(#from_base_to_enum_variants,)*
                         _ => Err(butte::Error::UnknownEnumVariant)
-- 
2.43.0


From 43b89c277debd462918f04aaea31d44ed82144b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:55 +0000
Subject: [PATCH 31/37] fix: generate code for enum variants named like a
 binding in it

---
 butte-build/src/codegen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index d0661fb..5f0b24d 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -832,6 +832,7 @@ impl ToTokens for ir::Table<'_> {
                 start: butte::WIPOffset<butte::TableUnfinishedWIPOffset>,
             }
 
+            #[allow(bindings_with_variant_name)]
             impl<'a: 'b, 'b> #builder_type<'a, 'b> {
                 #(#builder_field_methods)*
 
@@ -1030,6 +1031,7 @@ impl ToTokens for ir::Enum<'_> {
                 }
             }
 
+            #[allow(bindings_with_variant_name)]
             impl From<#enum_id> for #base_type {
                 fn from(value: #enum_id) -> #base_type {
                     match value {
@@ -1048,6 +1050,7 @@ impl ToTokens for ir::Enum<'_> {
                 }
             }
 
+            #[allow(bindings_with_variant_name)]
             pub fn #enum_id_fn_name(e: #enum_id) -> &'static str {
                 match e {
                     #(#names_to_strings),*
-- 
2.43.0


From d0ec213560564641a55d7ff752fbd1feaff00f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:24 +0000
Subject: [PATCH 32/37] fix: report a failure to flush the generated code

---
 butte-build/src/compile.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index afa446f..f85ff5d 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -59,6 +59,7 @@ pub fn compile_fbs_generic(
         Vec::from(code)
     };
     output.write_all(&text_output[..])?;
+    output.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 5d1b220d197a910d45668dfeb0407cdee0199ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:56 +0000
Subject: [PATCH 33/37] fix: refuse create_vector inside an unfinished table or
 vector

---
 butte/src/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 30ced3d..baa9363 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -318,6 +318,9 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
         &'a mut self,
         items: &'b [T],
     ) -> WIPOffset<Vector<'fbb, T::Output>> {
+        self.assert_not_nested(
+            "create_vector can not be called when a table or vector is under construction",
+        );
         let elem_size = T::size();
         self.align(items.len() * elem_size, T::alignment().max_of(SIZE_UOFFSET));
         for i in (0..items.len()).rev() {
-- 
2.43.0


From bb3541dbca14074e8880222517858a68ce732421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:17 +0000
Subject: [PATCH 34/37] fix: refuse to let a buffer grow beyond 2 gigabytes

---
 butte/src/builder.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index baa9363..e7978f9 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -637,11 +637,8 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
     #[inline]
     fn ensure_capacity(&mut self, want: usize) -> usize {
-        if self.unused_ready_space() >= want {
-            return want;
-        }
         assert!(
-            want <= FLATBUFFERS_MAX_BUFFER_SIZE,
+            want <= FLATBUFFERS_MAX_BUFFER_SIZE - self.used_space(),
             "cannot grow buffer beyond 2 gigabytes"
         );
 
-- 
2.43.0


From 700b718da5ad5f0d4c31ccd755dda996a7ba21e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:04 +0000
Subject: [PATCH 35/37] fix: refuse to view bytes other than zero and one as
 bool

---
 butte/src/endian_scalar.rs | 27 +++++++++++++++++++++++++--
 butte/src/error.rs         |  3 +++
 butte/src/vector.rs        |  5 ++++-
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 5f5f25b..d1a7746 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -32,6 +32,11 @@ pub trait EndianScalar: Sized + PartialEq + Copy + Clone {
     fn to_little_endian(self) -> Self;
     #[allow(clippy::wrong_self_convention)]
     fn from_little_endian(self) -> Self;
+    /// Whether all of these bytes can be viewed as values of this type.
+    #[inline]
+    fn are_valid_bytes(_bytes: &[u8]) -> bool {
+        true
+    }
 }
 
 /// Macro for implementing a no-op endian conversion. This is used for types
@@ -70,7 +75,6 @@ macro_rules! impl_endian_scalar_stdlib_le_conversion {
     };
 }
 
-impl_endian_scalar_noop!(bool);
 impl_endian_scalar_noop!(u8);
 impl_endian_scalar_noop!(i8);
 
@@ -81,6 +85,21 @@ impl_endian_scalar_stdlib_le_conversion!(i16);
 impl_endian_scalar_stdlib_le_conversion!(i32);
 impl_endian_scalar_stdlib_le_conversion!(i64);
 
+impl EndianScalar for bool {
+    #[inline]
+    fn to_little_endian(self) -> Self {
+        self
+    }
+    #[inline]
+    fn from_little_endian(self) -> Self {
+        self
+    }
+    #[inline]
+    fn are_valid_bytes(bytes: &[u8]) -> bool {
+        bytes.iter().all(|b| *b <= 1)
+    }
+}
+
 impl EndianScalar for f32 {
     /// Convert f32 from host endian-ness to little-endian.
     #[inline]
@@ -175,7 +194,11 @@ pub fn read_scalar_at<T: EndianScalar>(s: &[u8], loc: usize) -> Result<T, Error>
 pub fn read_scalar<T: EndianScalar>(s: &[u8]) -> Result<T, Error> {
     let sz = size_of::<T>();
 
-    let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr() as *const T;
+    let bytes = s.get(..sz).ok_or(Error::OutOfBounds)?;
+    if !T::are_valid_bytes(bytes) {
+        return Err(Error::InvalidBool);
+    }
+    let p = bytes.as_ptr() as *const T;
     let x = unsafe { p.read_unaligned() };
 
     Ok(x.from_little_endian())
diff --git a/butte/src/error.rs b/butte/src/error.rs
index 65a320e..3985ec0 100644
--- a/butte/src/error.rs
+++ b/butte/src/error.rs
@@ -20,6 +20,8 @@ pub enum Error {
     /// Returned if a vector cannot be viewed as a slice because its elements
     /// are not aligned in memory
     MisalignedSlice,
+    /// Returned if a byte to be viewed as a `bool` is neither zero nor one
+    InvalidBool,
 }
 
 impl fmt::Display for Error {
@@ -33,6 +35,7 @@ impl fmt::Display for Error {
             Error::UnknownUnionVariant => write!(f, "unknown union variant"),
             Error::NoTypeDefaultValue => write!(f, "type does not have a default value"),
             Error::MisalignedSlice => write!(f, "vector elements are not aligned in memory"),
+            Error::InvalidBool => write!(f, "boolean is neither zero nor one"),
         }
     }
 }
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index e951807..7dbd5a2 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -164,7 +164,7 @@ impl<'a> Follow<'a> for &'a str {
 }
 
 #[cfg(target_endian = "little")]
-fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
+fn follow_slice_helper<T: EndianScalar>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
     let sz = size_of::<T>();
     debug_assert!(sz > 0);
     let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
@@ -175,6 +175,9 @@ fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
     if ptr as usize % align_of::<T>() != 0 {
         return Err(Error::MisalignedSlice);
     }
+    if !T::are_valid_bytes(data_buf) {
+        return Err(Error::InvalidBool);
+    }
     let s: &[T] = unsafe { from_raw_parts(ptr, len) };
     Ok(s)
 }
-- 
2.43.0


From 0d5b5ff9c034ec9f2d2f2b26c694a9e0c8bf1e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:29 +0000
Subject: [PATCH 36/37] fix: refuse names that Rust cannot express instead of
 panicking

---
 butte-build/src/ast/parser.rs | 16 ++++++++++++----
 butte-build/src/ir/types.rs   |  6 +++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 9b284a8..add990c 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -113,12 +113,20 @@ pub fn right_square_bracket(input: &str) -> IResult<&str, char> {
     char(']')(input)
 }
 
+/// Can this name stand in Rust code? Not every letter or digit of Unicode may.
+pub(crate) fn is_rust_ident(name: &str) -> bool {
+    name.is_ascii() || syn::parse_str::<syn::Ident>(name).is_ok()
+}
+
 pub fn ident(input: &str) -> IResult<&str, Ident<'_>> {
     map(
-        recognize(preceded(
-            take_while_m_n(1, 1, |c: char| c.is_alphabetic() || c == '_'),
-            take_while(|c: char| c.is_alphanumeric() || c == '_'),
-        )),
+        verify(
+            recognize(preceded(
+                take_while_m_n(1, 1, |c: char| c.is_alphabetic() || c == '_'),
+                take_while(|c: char| c.is_alphanumeric() || c == '_'),
+            )),
+            |name: &str| is_rust_ident(name),
+        ),
         Ident::from,
     )(input)
 }
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index bf39c39..7e665ee 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -6,7 +6,7 @@
 //! IR types can also implement `ToTokens` because they contain all the required information to be
 //! transformed into code.
 
-use crate::ast::types as ast;
+use crate::ast::{parser::is_rust_ident, types as ast};
 use derive_more::{AsRef, From};
 use std::{borrow::Cow, fmt::Display};
 use typed_builder::TypedBuilder;
@@ -449,8 +449,8 @@ impl<'a> Ident<'a> {
         } else if ident.is_empty() || ident == "_" {
             // Only underscores, which a change of case removes
             Cow::Borrowed("__")
-        } else if ident.starts_with(char::is_numeric) {
-            // Same, in front of a digit
+        } else if ident.starts_with(char::is_numeric) || !is_rust_ident(&ident) {
+            // Same, in front of a digit or a mark
             Cow::Owned(format!("_{}", ident))
         } else {
             ident
-- 
2.43.0


From bbd8d0a7076a9cde65fd21f973de4ba9c3b3d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:28 +0000
Subject: [PATCH 37/37] fix: refuse union variants that are no tables

---
 butte-build/src/ir/transform.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 25f9d9f..71de7d3 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -307,6 +307,9 @@ impl<'a> Builder<'a> {
         for f in &u.variants {
             let ty = self.try_type(&ast::Type::Ident(ast::QualifiedIdent::from(vec![f.id])));
             if let Some(ty) = ty {
+                if ty.is_union() || ty.is_enum() {
+                    return Err(anyhow!("Only tables can be union variants: {}", f.id.raw));
+                }
                 let id = &f.id;
                 variants.push(ir::UnionVariant {
                     ty,
-- 
2.43.0


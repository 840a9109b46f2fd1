From 98841da375310a684abd402cdec145660585b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 01/11] fix: push_empty of values not a multiple of
 VALUE_ALIGNMENT in size

push_empty_slice called set_pos with an unaligned position, violating
set_pos's contract (and panicking when debug assertions are on).
---
 ser_raw/src/storage/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 07e9383..939ac0d 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -356,9 +356,12 @@ pub trait Storage: Sized {
 		let size = mem::size_of::<T>() * len;
 		self.reserve(size);
 		let pos = self.pos();
-		unsafe { self.set_pos(self.pos() + size) };
 
-		self.align_after::<T>();
+		// `set_pos` requires a multiple of `VALUE_ALIGNMENT`, so include padding after
+		// the slice here. Rounding up cannot exceed capacity because `capacity` is a
+		// multiple of `MAX_VALUE_ALIGNMENT`, and so of `VALUE_ALIGNMENT`.
+		unsafe { self.set_pos(align_up_to(pos + size, Self::VALUE_ALIGNMENT)) };
+
 		pos
 	}
 
-- 
2.43.0


From 3f314fa9a1ab243e7db93133cb215765521500cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 02/11] fix: push_empty_slice panics if size of slice overflows

Without overflow checks, the size wrapped, and less space than requested
was silently reserved.
---
 ser_raw/src/storage/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 939ac0d..d1cfd6f 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -353,7 +353,10 @@ pub trait Storage: Sized {
 	fn push_empty_slice<T>(&mut self, len: usize) -> usize {
 		self.align_for::<T>();
 
-		let size = mem::size_of::<T>() * len;
+		// Unlike in `push_slice`, there's no actual slice, so `size` could overflow
+		let size = mem::size_of::<T>()
+			.checked_mul(len)
+			.expect("Slice too large for storage");
 		self.reserve(size);
 		let pos = self.pos();
 
-- 
2.43.0


From a99b6b0a7c5bd2691794a537c358c800b5165972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 03/11] fix: align AlignedVec's dangling pointer to
 STORAGE_ALIGNMENT

Pushing an empty slice to, or reading a zero-sized value from, a storage
which has not allocated used a pointer which was not aligned for the type.
---
 ser_raw/src/storage/aligned_vec.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ser_raw/src/storage/aligned_vec.rs b/ser_raw/src/storage/aligned_vec.rs
index b670ed2..bfece11 100644
--- a/ser_raw/src/storage/aligned_vec.rs
+++ b/ser_raw/src/storage/aligned_vec.rs
@@ -104,7 +104,7 @@ impl<
 		let _ = Self::ASSERT_ALIGNMENTS_VALID;
 
 		Self {
-			ptr: NonNull::dangling(),
+			ptr: Self::DANGLING,
 			capacity: 0,
 			pos: 0,
 		}
@@ -243,7 +243,7 @@ impl<
 			self.ptr = unsafe {
 				if new_cap == 0 {
 					self.dealloc();
-					NonNull::dangling()
+					Self::DANGLING
 				} else {
 					self.realloc(new_cap)
 				}
@@ -260,6 +260,11 @@ impl<
 		const MAX_CAPACITY: usize,
 	> AlignedVec<STORAGE_ALIGNMENT, MAX_VALUE_ALIGNMENT, VALUE_ALIGNMENT, MAX_CAPACITY>
 {
+	/// Pointer used when no memory is allocated.
+	/// Aligned to `STORAGE_ALIGNMENT`, so it's valid for zero-sized reads and
+	/// writes of any type which can be stored.
+	const DANGLING: NonNull<u8> = unsafe { NonNull::new_unchecked(STORAGE_ALIGNMENT as *mut u8) };
+
 	/// Extend capacity after `reserve` has found it's necessary.
 	///
 	/// Actually performing the extension is in this separate function marked
-- 
2.43.0


From c64f405d86d23c2db0bb569293cd1c860b243c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 04/11] fix: derive Serialize on enums with raw identifier
 field names

`val_r#type` is not a valid identifier, so the macro panicked.
`format_ident!` strips `r#`.
---
 ser_raw_derive/src/enums.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ser_raw_derive/src/enums.rs b/ser_raw_derive/src/enums.rs
index b0b6930..76e981d 100644
--- a/ser_raw_derive/src/enums.rs
+++ b/ser_raw_derive/src/enums.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use quote::{quote, quote_spanned};
+use quote::{format_ident, quote, quote_spanned};
 use syn::{DataEnum, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
 
 // TODO: Handle `ser_with` attribute
@@ -87,7 +87,7 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	// `Self::Foo {x: val_x} =>` instead of just `Self::Foo {x} =>`.
 	let field_aliases = field_idents
 		.iter()
-		.map(|ident| Ident::new(&("val_".to_string() + &ident.to_string()), ident.span()))
+		.map(|ident| format_ident!("val_{}", ident))
 		.collect::<Vec<_>>();
 
 	let var_mappings = std::iter::zip(&field_idents, &field_aliases)
-- 
2.43.0


From 1c1f5b54ed104752f970a0ff1c2f2a3bf6921406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 05/11] fix: honour #[ser_with] on enum variant fields

---
 ser_raw_derive/src/enums.rs   | 35 +++++++++++++++++++++++------------
 ser_raw_derive/src/structs.rs |  2 +-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/ser_raw_derive/src/enums.rs b/ser_raw_derive/src/enums.rs
index 76e981d..5d46a45 100644
--- a/ser_raw_derive/src/enums.rs
+++ b/ser_raw_derive/src/enums.rs
@@ -1,8 +1,8 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned};
-use syn::{DataEnum, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
+use syn::{DataEnum, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
 
-// TODO: Handle `ser_with` attribute
+use crate::structs::get_with;
 
 pub fn derive_enum(
 	data: DataEnum,
@@ -63,7 +63,7 @@ fn get_match_for_unnamed_fields(ident: Ident, fields: FieldsUnnamed) -> Option<T
 		.into_iter()
 		.map(|index| Ident::new(&("val_".to_string() + &index.to_string()), ident.span()))
 		.collect::<Vec<_>>();
-	let stmts = get_field_stmts(&field_idents);
+	let stmts = get_field_stmts(&field_idents, fields.iter());
 
 	Some(quote_spanned! {ident.span()=>
 		Self::#ident(#(#field_idents),*) => {
@@ -79,8 +79,8 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	}
 
 	let field_idents = fields
-		.into_iter()
-		.map(|field| field.ident.unwrap())
+		.iter()
+		.map(|field| field.ident.as_ref().unwrap())
 		.collect::<Vec<_>>();
 
 	// Aliases are required in case of a field called `serializer`.
@@ -94,7 +94,7 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 		.map(|(ident, alias)| quote! { #ident: #alias })
 		.collect::<Vec<_>>();
 
-	let stmts = get_field_stmts(&field_aliases);
+	let stmts = get_field_stmts(&field_aliases, fields.iter());
 
 	Some(quote_spanned! {ident.span()=>
 		Self::#ident{#(#var_mappings),*} => {
@@ -103,12 +103,23 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	})
 }
 
-fn get_field_stmts(idents: &Vec<Ident>) -> Vec<TokenStream> {
-	idents
-		.iter()
-		.map(|ident| {
-			quote! {
-				::ser_raw::Serialize::<__S>::serialize_data(#ident, serializer);
+fn get_field_stmts<'f>(
+	idents: &Vec<Ident>,
+	fields: impl Iterator<Item = &'f Field>,
+) -> Vec<TokenStream> {
+	std::iter::zip(idents, fields)
+		.map(|(ident, field)| {
+			match get_with(field) {
+				Some(with) => {
+					quote! {
+						<#with as ::ser_raw::SerializeWith::<_, __S>>::serialize_data_with(#ident, serializer);
+					}
+				}
+				None => {
+					quote! {
+						::ser_raw::Serialize::<__S>::serialize_data(#ident, serializer);
+					}
+				}
 			}
 		})
 		.collect::<Vec<_>>()
diff --git a/ser_raw_derive/src/structs.rs b/ser_raw_derive/src/structs.rs
index b13b276..f4882ea 100644
--- a/ser_raw_derive/src/structs.rs
+++ b/ser_raw_derive/src/structs.rs
@@ -72,7 +72,7 @@ fn get_field_stmt(field_name: TokenStream, field: &Field) -> TokenStream {
 	}
 }
 
-fn get_with(field: &Field) -> Option<Path> {
+pub fn get_with(field: &Field) -> Option<Path> {
 	let attrs = field
 		.attrs
 		.iter()
-- 
2.43.0


From 19d510d8681317896d58feeb6671a40d6a3df83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 06/11] fix: write pointers with provenance, so complete output
 can be dereferenced

---
 ser_raw/src/pos.rs                        | 6 +++++-
 ser_raw/src/serializer_traits/complete.rs | 7 ++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ser_raw/src/pos.rs b/ser_raw/src/pos.rs
index dd87f1c..4a06026 100644
--- a/ser_raw/src/pos.rs
+++ b/ser_raw/src/pos.rs
@@ -232,7 +232,11 @@ impl PtrGroup {
 		for ptr_pos in &self.ptr_positions {
 			// TODO: Use `storage.read_mut()` instead of this
 			let ptr = storage_ptr.add(*ptr_pos) as *mut usize;
-			*ptr = (*ptr).wrapping_add(shift_by);
+			let target_addr = (*ptr).wrapping_add(shift_by);
+			// Derive corrected pointer from `storage_ptr` (rather than writing the address
+			// as a `usize`) so it's valid to dereference
+			let target_pos = target_addr.wrapping_sub(storage_ptr as usize);
+			*(ptr as *mut *mut u8) = storage_ptr.wrapping_add(target_pos);
 		}
 	}
 }
diff --git a/ser_raw/src/serializer_traits/complete.rs b/ser_raw/src/serializer_traits/complete.rs
index 80ba65b..a0b98d6 100644
--- a/ser_raw/src/serializer_traits/complete.rs
+++ b/ser_raw/src/serializer_traits/complete.rs
@@ -48,9 +48,10 @@ where
 		debug_assert!(target_pos <= self.capacity());
 
 		// Write pointer to storage (pointing to real address of target)
-		let storage_addr = self.storage().as_ptr() as usize;
-		let target_addr = storage_addr + target_pos;
-		self.storage_mut().write(ptr_pos, &target_addr);
+		// Write it as a pointer (not a `usize`) so it's valid to dereference
+		let storage_ptr = self.storage_mut().as_mut_ptr();
+		let storage_addr = storage_ptr as usize;
+		self.storage_mut().write(ptr_pos, &storage_ptr.add(target_pos));
 
 		// Record position of this pointer in storage so can be adjusted later if
 		// storage grows and so moves
-- 
2.43.0


From 98f0f77d121238a4eaac51b4cb2e20d7808590f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 07/11] fix: reject over-aligned zero-sized types at compile
 time

---
 ser_raw/src/storage/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index d1cfd6f..8b75a08 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -259,6 +259,10 @@ pub trait Storage: Sized {
 	/// `push_slice<T>`, as the former is slightly more efficient.
 	#[inline]
 	fn push_slice<T>(&mut self, slice: &[T]) -> usize {
+		// Ensure (at compile time) that `T`'s alignment does not exceed
+		// `MAX_VALUE_ALIGNMENT`, even if `T` is a ZST
+		let _ = AlignmentCheck::<T, Self>::ASSERT_ALIGNMENT_DOES_NOT_EXCEED;
+
 		// Do nothing if ZST. This function will be compiled down to a no-op for ZSTs.
 		if mem::size_of::<T>() == 0 {
 			return 0; // TODO: Is this correct?
-- 
2.43.0


From f9b059d894e4e80c34072251d2c74fe47358af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 08/11] fix: #[ser_with] silently ignored if proxy path
 includes generic params

---
 ser_raw_derive/src/structs.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/ser_raw_derive/src/structs.rs b/ser_raw_derive/src/structs.rs
index f4882ea..efcbe87 100644
--- a/ser_raw_derive/src/structs.rs
+++ b/ser_raw_derive/src/structs.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use syn::{
 	spanned::Spanned, DataStruct, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident, Index,
-	Meta, MetaList, NestedMeta, Path,
+	Path,
 };
 
 pub fn derive_struct(
@@ -76,9 +76,7 @@ pub fn get_with(field: &Field) -> Option<Path> {
 	let attrs = field
 		.attrs
 		.iter()
-		.map(|attr| attr.parse_meta())
-		.filter_map(Result::ok)
-		.filter(|attr| attr.path().is_ident("ser_with"))
+		.filter(|attr| attr.path.is_ident("ser_with"))
 		.collect::<Vec<_>>();
 
 	if attrs.len() == 0 {
@@ -89,15 +87,9 @@ pub fn get_with(field: &Field) -> Option<Path> {
 		panic!("Cannot have more than 1 `#[ser_with]` attribute on a field");
 	}
 
-	let attr = attrs.into_iter().nth(0).unwrap();
-	if let Meta::List(MetaList { nested, .. }) = attr {
-		let parts: Vec<NestedMeta> = nested.into_iter().collect();
-		if parts.len() == 1 {
-			let first = parts.into_iter().nth(0).unwrap();
-			if let NestedMeta::Meta(Meta::Path(with)) = first {
-				return Some(with);
-			}
-		}
-	}
-	panic!("`#[ser_with]` needs a path e.g. `#[ser_with(ForeignTypeProxy)]`");
+	// `parse_args` rather than `parse_meta`, as path may include generic params
+	let with = attrs[0]
+		.parse_args::<Path>()
+		.expect("`#[ser_with]` needs a path e.g. `#[ser_with(ForeignTypeProxy)]`");
+	Some(with)
 }
-- 
2.43.0


From 13cc740c569354810709a3023f943ef557764e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 09/11] fix: derive Serialize on structs whose fields come from
 a macro

---
 ser_raw_derive/src/structs.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ser_raw_derive/src/structs.rs b/ser_raw_derive/src/structs.rs
index efcbe87..ca3fdf6 100644
--- a/ser_raw_derive/src/structs.rs
+++ b/ser_raw_derive/src/structs.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned};
 use syn::{
 	spanned::Spanned, DataStruct, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident, Index,
@@ -54,16 +54,19 @@ fn get_unnamed_field_stmts(fields: FieldsUnnamed) -> Vec<TokenStream> {
 }
 
 fn get_field_stmt(field_name: TokenStream, field: &Field) -> TokenStream {
+	// `resolved_at` so `self` and `serializer` resolve to the method's params, even if the field was
+	// defined in a macro
+	let span = field.span().resolved_at(Span::call_site());
 	match get_with(field) {
 		Some(with) => {
-			quote_spanned! {field.span()=>
+			quote_spanned! {span=>
 				<#with as ::ser_raw::SerializeWith::<_, __S>>::serialize_data_with(
 					&self.#field_name, serializer
 				);
 			}
 		}
 		None => {
-			quote_spanned! {field.span()=>
+			quote_spanned! {span=>
 				::ser_raw::Serialize::<__S>::serialize_data(
 					&self.#field_name, serializer
 				);
-- 
2.43.0


From d7dd1a97c80bcb59bdff24975d83ed0e742f05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 10/11] fix: derive Serializer on structs with type parameters
 named T, P or W

Methods which the macro generates had type parameters of these names, so
compilation failed if the serializer had a parameter of the same name.
---
 .../src/ser_types/complete.rs                      | 14 +++++++-------
 .../src/ser_types/pos_tracking.rs                  | 10 +++++-----
 .../src/ser_types/ptr_offset.rs                    | 10 +++++-----
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/ser_raw_derive_serializer/src/ser_types/complete.rs b/ser_raw_derive_serializer/src/ser_types/complete.rs
index 7c930b5..357a280 100644
--- a/ser_raw_derive_serializer/src/ser_types/complete.rs
+++ b/ser_raw_derive_serializer/src/ser_types/complete.rs
@@ -17,36 +17,36 @@ fn get_methods() -> TokenStream {
 		// Pointer-writing serializers need a functional `Addr`
 		type Addr = _ser_raw::pos::TrackingAddr;
 
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
 			// Delegate to `PosTracking` trait's implementation
 			ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
 		}
 
 		#[inline]
-		unsafe fn overwrite<T>(&mut self, addr: Self::Addr, value: &T) {
+		unsafe fn overwrite<__T>(&mut self, addr: Self::Addr, value: &__T) {
 			// Delegate to `Writable` trait's implementation
 			ser_traits::Writable::do_overwrite(self, addr, value);
 		}
 
 		#[inline]
-		fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
+		fn overwrite_with<__W: FnOnce(&mut Self)>(&mut self, write: __W) {
 			// Delegate to `Complete` trait's implementation
 			ser_traits::Complete::do_overwrite_with(self, write);
 		}
diff --git a/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs b/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
index 920e39d..82393bc 100644
--- a/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
+++ b/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
@@ -19,21 +19,21 @@ fn get_methods() -> TokenStream {
 		// Delegate all methods to `PosTracking` trait's implementation
 
 		#[inline]
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
 			ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
 			ser_traits::PosTracking::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
 			ser_traits::PosTracking::do_push_and_process_slice(self, slice, ptr_addr, process)
 		}
diff --git a/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs b/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
index 9847dca..55cc0ed 100644
--- a/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
+++ b/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
@@ -16,23 +16,23 @@ fn get_methods() -> TokenStream {
 		// Pointer-writing serializers need a functional `Addr`
 		type Addr = _ser_raw::pos::TrackingAddr;
 
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
 			// Delegate to `PosTracking` trait's implementation
 			ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
-- 
2.43.0


From ab2d3d8d480fb6a036fef4b3c50851319fbb030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:26 +0000
Subject: [PATCH 11/11] fix: compile on 32-bit systems

---
 ser_raw/src/util.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ser_raw/src/util.rs b/ser_raw/src/util.rs
index 3664218..0c6d9f4 100644
--- a/ser_raw/src/util.rs
+++ b/ser_raw/src/util.rs
@@ -92,10 +92,9 @@ pub const fn aligned_max_u32_capacity(alignment: usize) -> usize {
 	);
 
 	if mem::size_of::<usize>() >= 8 {
-		// This would overflow on a 32-bit system, but check above avoids this path
-		// TODO: This may still fail to compile on 32-bit systems if compiler doesn't
-		// understand this branch cannot be taken. Check this.
-		u32::MAX as usize + 1
+		// This wraps around to 0 on a 32-bit system, but check above avoids this path.
+		// NB `u32::MAX as usize + 1` would fail to compile on 32-bit systems.
+		(u32::MAX as u64 + 1) as usize
 	} else {
 		isize::MAX as usize - (alignment - 1)
 	}
-- 
2.43.0


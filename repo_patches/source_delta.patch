From c1e4260606457c78dd3a37c5b8b3937ea5ce3089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 01/52] fix: read and write values in byte buffers at any
 address

---
 src/core/util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index ed0737b..7478af0 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -159,7 +159,8 @@ pub fn set_value<T: Copy>(buffer: &mut [u8], offset: usize, value: T) {
     unsafe {
         let pointer: *mut T =
             mem::transmute(buffer[offset..].as_ptr());
-        *pointer = value
+        // the buffer may start at any address
+        pointer.write_unaligned(value)
     }
 }
 
@@ -169,6 +170,6 @@ pub fn get_value<T: Copy>(buffer: &[u8], offset: usize) -> T {
     unsafe {
         let pointer: *const T =
             mem::transmute(buffer[offset..].as_ptr());
-        *pointer
+        pointer.read_unaligned()
     }
 }
\ No newline at end of file
-- 
2.43.0


From 3de90a7bc4c2fb22fd4ed747ea059cfaa685dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:49 +0000
Subject: [PATCH 02/52] fix: refuse an empty row when a page has no room for
 its offset entry

---
 src/core/nsm.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/nsm.rs b/src/core/nsm.rs
index 880fa3c..eee8393 100644
--- a/src/core/nsm.rs
+++ b/src/core/nsm.rs
@@ -74,6 +74,7 @@ impl PageFormat {
 
     pub fn append_row(&self, page: &mut [u8], row: &[u8]) {
         assert!(row.len() <= self.max_insert_row_size(page));
+        assert!(self.has_free_row_offset(page));
         let num_rows = self.num_rows(page);
         let aligned_len = util::align(row.len(), self.row_alignment);
         let upper_bound = if num_rows > 0 {
@@ -97,6 +98,7 @@ impl PageFormat {
 
     pub fn insert_row(&self, page: &mut [u8], index: usize, row: &[u8]) {
         assert!(row.len() <= self.max_insert_row_size(page));
+        assert!(self.has_free_row_offset(page));
         let num_rows = self.num_rows(page);
 
         if index == num_rows {
@@ -186,6 +188,18 @@ impl PageFormat {
         }
     }
 
+    // even an empty row requires a row offset entry, which must not run into the row data
+    fn has_free_row_offset(&self, page: &[u8]) -> bool {
+        let num_rows = self.num_rows(page);
+        let upper_bound = if num_rows > 0 {
+            self.aligned_row_offset(page, num_rows - 1)
+        } else {
+            page.len()
+        };
+
+        mem::size_of::<Offset>() * (num_rows + 2) <= upper_bound
+    }
+
     fn aligned_row_offset(&self, page: &[u8], index: usize) -> usize {
         assert!(index < self.num_rows(page));
         let offset_value = self.get_row_offset(page, index);
-- 
2.43.0


From 30ca306d64ed290da4315e70f19ead56fc77897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:37 +0000
Subject: [PATCH 03/52] fix: encode and decode binary records at any address,
 within the buffer

---
 src/core/marshaller.rs | 283 ++++++++++++++++++-----------------------
 1 file changed, 123 insertions(+), 160 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 50675d4..36cdbad 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -416,11 +416,7 @@ impl Layout {
             match var_size_field.kind {
                 VariableSizeFieldKind::String => {
                     // extract the length
-                    let length = unsafe {
-                        let pointer: *const LengthEncodingType =
-                            mem::transmute(data[tag_field.offset..].as_ptr());
-                        *pointer
-                    };
+                    let length = util::get_value::<LengthEncodingType>(data, tag_field.offset);
 
                     // add to the offset
                     offset = offset + length as usize as usize;
@@ -435,31 +431,21 @@ impl Layout {
                                 num_bits,
                             } => {
                                 let case_value = match primitive {
-                                    types::Primitive::U128 => unsafe {
-                                        let pointer: *const u128 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U64 => unsafe {
-                                        let pointer: *const u64 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U32 => unsafe {
-                                        let pointer: *const u32 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U16 => unsafe {
-                                        let pointer: *const u16 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U8 => unsafe {
-                                        let pointer: *const u8 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
+                                    types::Primitive::U128 => {
+                                        util::get_value::<u128>(data, tag_field.offset) as usize
+                                    }
+                                    types::Primitive::U64 => {
+                                        util::get_value::<u64>(data, tag_field.offset) as usize
+                                    }
+                                    types::Primitive::U32 => {
+                                        util::get_value::<u32>(data, tag_field.offset) as usize
+                                    }
+                                    types::Primitive::U16 => {
+                                        util::get_value::<u16>(data, tag_field.offset) as usize
+                                    }
+                                    types::Primitive::U8 => {
+                                        util::get_value::<u8>(data, tag_field.offset) as usize
+                                    }
                                     _ => panic!("Unexpected primitive for storing bitfields"),
                                 };
 
@@ -531,11 +517,7 @@ impl Layout {
                     assert!(mem::size_of::<u32>() == mem::size_of::<LengthEncodingType>());
                     assert!(length <= u32::MAX as usize);
 
-                    unsafe {
-                        let pointer: *mut LengthEncodingType =
-                            mem::transmute(buffer[field.offset..].as_ptr());
-                        *pointer = length as LengthEncodingType;
-                    }
+                    util::set_value(buffer, field.offset, length as LengthEncodingType);
                 }
                 FixedSizeFieldKind::Bitfield {
                     primitive,
@@ -545,101 +527,97 @@ impl Layout {
                     let case_tag = source.get_case_tag(&field.path);
 
                     match primitive {
-                        types::Primitive::U8 => unsafe {
+                        types::Primitive::U8 => {
                             let mask = ((1u8 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u8 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u8) << bit_offset) & mask);
-                        },
-                        types::Primitive::U16 => unsafe {
+                            let previous: u8 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (previous & !mask) | (((case_tag as u8) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U16 => {
                             let mask = ((1u16 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u16 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u16) << bit_offset) & mask);
-                        },
-                        types::Primitive::U32 => unsafe {
+                            let previous: u16 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (previous & !mask) | (((case_tag as u16) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U32 => {
                             let mask = ((1u32 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u32 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u32) << bit_offset) & mask);
-                        },
-                        types::Primitive::U64 => unsafe {
+                            let previous: u32 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (previous & !mask) | (((case_tag as u32) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U64 => {
                             let mask = ((1u64 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u64 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u64) << bit_offset) & mask);
-                        },
-                        types::Primitive::U128 => unsafe {
+                            let previous: u64 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (previous & !mask) | (((case_tag as u64) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U128 => {
                             let mask = ((1u128 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u128 =
-                                mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u128) << bit_offset) & mask);
-                        },
+                            let previous: u128 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (previous & !mask) | (((case_tag as u128) << bit_offset) & mask),
+                            );
+                        }
                         _ => panic!("Invalid bitfield primitive type"),
                     }
                 }
                 FixedSizeFieldKind::Primitve(primitive) => match primitive {
-                    types::Primitive::Bool => unsafe {
-                        *mem::transmute::<*mut u8, *mut bool>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_bool(&field.path);
-                    },
-                    types::Primitive::Char => unsafe {
-                        *mem::transmute::<*mut u8, *mut char>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_char(&field.path);
-                    },
-                    types::Primitive::F32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut f32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_f32(&field.path);
-                    },
-                    types::Primitive::F64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut f64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_f64(&field.path);
-                    },
-                    types::Primitive::U8 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u8>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u8(&field.path);
-                    },
-                    types::Primitive::U16 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u16>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u16(&field.path);
-                    },
-                    types::Primitive::U32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u32(&field.path);
-                    },
-                    types::Primitive::U64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u64(&field.path);
-                    },
-                    types::Primitive::U128 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u128>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_u128(&field.path);
-                    },
-                    types::Primitive::I8 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i8>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i8(&field.path);
-                    },
-                    types::Primitive::I16 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i16>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i16(&field.path);
-                    },
-                    types::Primitive::I32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i32(&field.path);
-                    },
-                    types::Primitive::I64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i64(&field.path);
-                    },
-                    types::Primitive::I128 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i128>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_i128(&field.path);
-                    },
+                    types::Primitive::Bool => {
+                        util::set_value(buffer, field.offset, source.get_bool(&field.path))
+                    }
+                    types::Primitive::Char => {
+                        util::set_value(buffer, field.offset, source.get_char(&field.path))
+                    }
+                    types::Primitive::F32 => {
+                        util::set_value(buffer, field.offset, source.get_f32(&field.path))
+                    }
+                    types::Primitive::F64 => {
+                        util::set_value(buffer, field.offset, source.get_f64(&field.path))
+                    }
+                    types::Primitive::U8 => {
+                        util::set_value(buffer, field.offset, source.get_u8(&field.path))
+                    }
+                    types::Primitive::U16 => {
+                        util::set_value(buffer, field.offset, source.get_u16(&field.path))
+                    }
+                    types::Primitive::U32 => {
+                        util::set_value(buffer, field.offset, source.get_u32(&field.path))
+                    }
+                    types::Primitive::U64 => {
+                        util::set_value(buffer, field.offset, source.get_u64(&field.path))
+                    }
+                    types::Primitive::U128 => {
+                        util::set_value(buffer, field.offset, source.get_u128(&field.path))
+                    }
+                    types::Primitive::I8 => {
+                        util::set_value(buffer, field.offset, source.get_i8(&field.path))
+                    }
+                    types::Primitive::I16 => {
+                        util::set_value(buffer, field.offset, source.get_i16(&field.path))
+                    }
+                    types::Primitive::I32 => {
+                        util::set_value(buffer, field.offset, source.get_i32(&field.path))
+                    }
+                    types::Primitive::I64 => {
+                        util::set_value(buffer, field.offset, source.get_i64(&field.path))
+                    }
+                    types::Primitive::I128 => {
+                        util::set_value(buffer, field.offset, source.get_i128(&field.path))
+                    }
                 },
                 _ => panic!("Invalid field type"),
             }
@@ -719,10 +697,9 @@ impl Marshaller {
                     let field =
                         &layout.fixed_size_fields[layout.field_indices[idx].fixed_size_field_index];
                     match field.kind {
-                        FixedSizeFieldKind::Primitve(prim) if prim == primitive => unsafe {
-                            let pointer: *const T = mem::transmute(data[field.offset..].as_ptr());
-                            return *pointer;
-                        },
+                        FixedSizeFieldKind::Primitve(prim) if prim == primitive => {
+                            return util::get_value(data, field.offset);
+                        }
                         _ => panic!("Incorrect field type"),
                     }
                 }
@@ -763,11 +740,9 @@ impl Marshaller {
                     let offset = layout.variable_field_offset(var_size_field_index, data);
 
                     let length = match field.kind {
-                        FixedSizeFieldKind::Length => unsafe {
-                            let pointer: *const LengthEncodingType =
-                                mem::transmute(data[field.offset..].as_ptr());
-                            *pointer as usize
-                        },
+                        FixedSizeFieldKind::Length => {
+                            util::get_value::<LengthEncodingType>(data, field.offset) as usize
+                        }
                         _ => panic!("Incorrect field type"),
                     };
 
@@ -823,31 +798,21 @@ impl Marshaller {
                             num_bits,
                         } => {
                             let case_value = match primitive {
-                                types::Primitive::U128 => unsafe {
-                                    let pointer: *const u128 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U64 => unsafe {
-                                    let pointer: *const u64 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U32 => unsafe {
-                                    let pointer: *const u32 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U16 => unsafe {
-                                    let pointer: *const u16 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U8 => unsafe {
-                                    let pointer: *const u8 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
+                                types::Primitive::U128 => {
+                                        util::get_value::<u128>(data, tag_field.offset) as usize
+                                    }
+                                types::Primitive::U64 => {
+                                        util::get_value::<u64>(data, tag_field.offset) as usize
+                                    }
+                                types::Primitive::U32 => {
+                                        util::get_value::<u32>(data, tag_field.offset) as usize
+                                    }
+                                types::Primitive::U16 => {
+                                        util::get_value::<u16>(data, tag_field.offset) as usize
+                                    }
+                                types::Primitive::U8 => {
+                                        util::get_value::<u8>(data, tag_field.offset) as usize
+                                    }
                                 _ => panic!("Unexpected primitive for storing bitfields"),
                             };
 
@@ -892,11 +857,9 @@ impl Marshaller {
                     let field =
                         &layout.fixed_size_fields[layout.field_indices[idx].fixed_size_field_index];
                     match field.kind {
-                        FixedSizeFieldKind::Length => unsafe {
-                            let pointer: *const LengthEncodingType =
-                                mem::transmute(data[field.offset..].as_ptr());
-                            return *pointer as usize;
-                        },
+                        FixedSizeFieldKind::Length => {
+                            return util::get_value::<LengthEncodingType>(data, field.offset) as usize;
+                        }
                         _ => panic!("Incorrect field type"),
                     }
                 }
-- 
2.43.0


From 388552e9e950533412a90a1180f3ec156cc95993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:01 +0000
Subject: [PATCH 04/52] fix: encode enums whose tag fills its bit field
 container

---
 src/core/marshaller.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 36cdbad..b2f8f7b 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -528,7 +528,7 @@ impl Layout {
 
                     match primitive {
                         types::Primitive::U8 => {
-                            let mask = ((1u8 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) as u8) << bit_offset;
                             let previous: u8 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
@@ -537,7 +537,7 @@ impl Layout {
                             );
                         }
                         types::Primitive::U16 => {
-                            let mask = ((1u16 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) as u16) << bit_offset;
                             let previous: u16 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
@@ -546,7 +546,7 @@ impl Layout {
                             );
                         }
                         types::Primitive::U32 => {
-                            let mask = ((1u32 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) as u32) << bit_offset;
                             let previous: u32 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
@@ -555,7 +555,7 @@ impl Layout {
                             );
                         }
                         types::Primitive::U64 => {
-                            let mask = ((1u64 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) as u64) << bit_offset;
                             let previous: u64 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
-- 
2.43.0


From 52ff5c7a006f76264e75d72bef88c328766d2519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 05/52] fix: refuse too small buffers when encoding or decoding
 binary records

---
 src/core/marshaller.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index b2f8f7b..c55ed95 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -23,7 +23,6 @@
 use std::cmp;
 use std::collections;
 use std::mem;
-use std::slice;
 use std::sync;
 use std::u32;
 
@@ -502,7 +501,7 @@ impl Layout {
         D: data_source::DataSource,
     {
         let mut offset = self.var_field_offset;
-        assert!(buffer.len() >= offset);
+        assert!(buffer.len() >= self.encoding_size_with_source(source));
 
         for field in &self.fixed_size_fields {
             match &field.kind {
@@ -648,13 +647,9 @@ fn copy_bytes<D>(buffer: &mut [u8], path: &Path, length: usize, source: &D)
 where
     D: data_source::DataSource,
 {
-    unsafe {
-        let data: &[u8] = source.get_bytes(path);
-        assert!(length == data.len());
-        let base: *mut u8 = mem::transmute(buffer.as_mut_ptr());
-        let target = slice::from_raw_parts_mut(base, length);
-        target.copy_from_slice(data);
-    }
+    let data: &[u8] = source.get_bytes(path);
+    assert!(length == data.len());
+    buffer[..length].copy_from_slice(data);
 }
 
 pub struct Marshaller {
@@ -749,10 +744,9 @@ impl Marshaller {
                     // need to create a slice of the appropriate type with the appropriat enumber
                     // of elements
                     match &layout.var_size_fields[var_size_field_index].kind {
-                        VariableSizeFieldKind::String => unsafe {
-                            let base = data[offset..].as_ptr();
-                            return slice::from_raw_parts(mem::transmute(base), length);
-                        },
+                        VariableSizeFieldKind::String => {
+                            return &data[offset..offset + length];
+                        }
                         _ => panic!("Incorrect field type"),
                     }
                 }
-- 
2.43.0


From 2f64996645d26360ef93c27a3661aef78eaceff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:57 +0000
Subject: [PATCH 06/52] fix: encode a single-case enum next to a full bit field

---
 src/core/marshaller.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index c55ed95..5945409 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -527,39 +527,39 @@ impl Layout {
 
                     match primitive {
                         types::Primitive::U8 => {
-                            let mask = (((1u128 << num_bits) - 1) as u8) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u8;
                             let previous: u8 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
                                 field.offset,
-                                (previous & !mask) | (((case_tag as u8) << bit_offset) & mask),
+                                (previous & !mask) | (((case_tag as u128) << bit_offset) as u8 & mask),
                             );
                         }
                         types::Primitive::U16 => {
-                            let mask = (((1u128 << num_bits) - 1) as u16) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u16;
                             let previous: u16 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
                                 field.offset,
-                                (previous & !mask) | (((case_tag as u16) << bit_offset) & mask),
+                                (previous & !mask) | (((case_tag as u128) << bit_offset) as u16 & mask),
                             );
                         }
                         types::Primitive::U32 => {
-                            let mask = (((1u128 << num_bits) - 1) as u32) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u32;
                             let previous: u32 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
                                 field.offset,
-                                (previous & !mask) | (((case_tag as u32) << bit_offset) & mask),
+                                (previous & !mask) | (((case_tag as u128) << bit_offset) as u32 & mask),
                             );
                         }
                         types::Primitive::U64 => {
-                            let mask = (((1u128 << num_bits) - 1) as u64) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u64;
                             let previous: u64 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
                                 field.offset,
-                                (previous & !mask) | (((case_tag as u64) << bit_offset) & mask),
+                                (previous & !mask) | (((case_tag as u128) << bit_offset) as u64 & mask),
                             );
                         }
                         types::Primitive::U128 => {
-- 
2.43.0


From dbc5be17b0b721625ae9faebc683be7fe964ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 07/52] fix: escape control characters as valid JSON

---
 src/core/json/encoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 2529cf4..d59ecee 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -30,13 +30,14 @@ use super::super::types::Path;
 
 // JSON Encoder and Decoder
 
+const HEX_DIGITS: &[u8; 16] = b"0123456789abcdef";
+
 fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     let mut buffer: [u8; 6] = [0; 6];
 
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\0' => writer.write("\\0".as_bytes())?,
         '\\' => writer.write("\\\\".as_bytes())?,
         '/' => writer.write("\\/".as_bytes())?,
         '\"' => writer.write("\\\"".as_bytes())?,
@@ -50,8 +51,8 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[1] = 'u' as u8;
             buffer[2] = '0' as u8;
             buffer[3] = '0' as u8;
-            buffer[4] = ('0' as u8) + (b0 as u8 >> 4);
-            buffer[5] = ('0' as u8) + (b0 as u8 & 0xfu8);
+            buffer[4] = HEX_DIGITS[(b0 as u8 >> 4) as usize];
+            buffer[5] = HEX_DIGITS[(b0 as u8 & 0xfu8) as usize];
             writer.write(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
-- 
2.43.0


From 8b5e319eccbc6916df75a3cbabf8fc3345a1dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 08/52] fix: encode U+8000 to U+FFFF as three bytes in JSON

---
 src/core/json/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index d59ecee..7aeb407 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -64,7 +64,7 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
             writer.write(&buffer[..2])?
         }
-        b3 if value as u32 >= 0x800 && value as u32 <= 0x7fff => {
+        b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-- 
2.43.0


From b82999ab9caf8fa80f75446562ebdec26fc77688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 09/52] fix: write JSON characters completely

---
 src/core/json/encoder.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 7aeb407..fb1b57b 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -38,14 +38,14 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\\' => writer.write("\\\\".as_bytes())?,
-        '/' => writer.write("\\/".as_bytes())?,
-        '\"' => writer.write("\\\"".as_bytes())?,
-        '\u{8}' => writer.write("\\b".as_bytes())?,
-        '\u{c}' => writer.write("\\f".as_bytes())?,
-        '\n' => writer.write("\\n".as_bytes())?,
-        '\r' => writer.write("\\r".as_bytes())?,
-        '\t' => writer.write("\\t".as_bytes())?,
+        '\\' => writer.write_all("\\\\".as_bytes())?,
+        '/' => writer.write_all("\\/".as_bytes())?,
+        '\"' => writer.write_all("\\\"".as_bytes())?,
+        '\u{8}' => writer.write_all("\\b".as_bytes())?,
+        '\u{c}' => writer.write_all("\\f".as_bytes())?,
+        '\n' => writer.write_all("\\n".as_bytes())?,
+        '\r' => writer.write_all("\\r".as_bytes())?,
+        '\t' => writer.write_all("\\t".as_bytes())?,
         b0 if 0x1f >= value as u32 => {
             buffer[0] = '\\' as u8;
             buffer[1] = 'u' as u8;
@@ -53,29 +53,29 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[3] = '0' as u8;
             buffer[4] = HEX_DIGITS[(b0 as u8 >> 4) as usize];
             buffer[5] = HEX_DIGITS[(b0 as u8 & 0xfu8) as usize];
-            writer.write(&buffer[..6])?
+            writer.write_all(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
             buffer[0] = b1 as u8;
-            writer.write(&buffer[..1])?
+            writer.write_all(&buffer[..1])?
         }
         b2 if value as u32 >= 0x80 && value as u32 <= 0x7ff => {
             buffer[1] = (b2 as u8) & 0x3fu8 | 0x80u8;
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
-            writer.write(&buffer[..2])?
+            writer.write_all(&buffer[..2])?
         }
         b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-            writer.write(&buffer[..3])?
+            writer.write_all(&buffer[..3])?
         }
         b4 => {
             buffer[3] = (b4 as u8) & 0x3fu8 | 0x80u8;
             buffer[2] = (b4 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[1] = (b4 as u32 >> 12) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b4 as u32 >> 18) as u8 & 0x07u8 | 0xf0u8;
-            writer.write(&buffer[..4])?
+            writer.write_all(&buffer[..4])?
         }
     };
     Ok(())
-- 
2.43.0


From 22049b756ae420dee4150086811543ec70c189dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 10/52] fix: encode infinities and NaN as valid JSON

---
 src/core/json/encoder.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index fb1b57b..69e1164 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -234,10 +234,29 @@ macro_rules! encoder_emit_primitive {
     };
 }
 
+macro_rules! encoder_emit_float {
+    ($get_primitive:ident, $typ:ident) => {
+        impl JsonEmitter for EmitNumber<$typ> {
+            fn emit(&self, writer: &mut dyn io::Write, source: &dyn DataSource) -> io::Result<()> {
+                let value = source.$get_primitive(&self.path);
+
+                // JSON has no numbers for these; the decoder accepts them as strings
+                if value.is_finite() {
+                    write!(writer, "{}", value)?;
+                } else {
+                    write!(writer, "\"{}\"", value)?;
+                }
+
+                Ok(())
+            }
+        }
+    };
+}
+
 encoder_emit_primitive!(get_bool, bool);
 encoder_emit_primitive!(get_char, char);
-encoder_emit_primitive!(get_f32, f32);
-encoder_emit_primitive!(get_f64, f64);
+encoder_emit_float!(get_f32, f32);
+encoder_emit_float!(get_f64, f64);
 encoder_emit_primitive!(get_u8, u8);
 encoder_emit_primitive!(get_u16, u16);
 encoder_emit_primitive!(get_u32, u32);
-- 
2.43.0


From 4d9e6690472c76039ef3af24a608f4e3d43d086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 11/52] fix: reject malformed Unicode escapes and accept
 surrogate pairs in JSON strings

---
 src/core/json/tokenizer.rs | 60 +++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 42bbf1f..1d406f6 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -223,6 +223,27 @@ impl<'a> Tokenizer<'a> {
         self.advance();
     }
 
+    fn code_unit(&mut self) -> Result<u32, TokenizerError> {
+        let mut char_code = 0u32;
+
+        // need four hexadecimal digits
+        for _ in 0..4 {
+            match self.look_ahead {
+                Some((_, ch)) if ch.is_digit(16) => {
+                    char_code = char_code * 16 + ch.to_digit(16).unwrap();
+                    self.advance();
+                }
+                _ => {
+                    return Err(String::from(
+                        "Invalid Unicode escape sequence in string value",
+                    ))
+                }
+            }
+        }
+
+        Ok(char_code)
+    }
+
     fn string_control_char(&mut self) -> Result<(), TokenizerError> {
         // eat '\\'
         self.advance();
@@ -239,28 +260,33 @@ impl<'a> Tokenizer<'a> {
             Some((_, 'u')) => {
                 self.advance();
 
-                let mut char_code = 0u32;
+                let mut char_code = self.code_unit()?;
 
-                // need for hexadecimal digits
-                for _ in 0..4 {
-                    match self.look_ahead {
-                        Some((_, ch)) => {
-                            if let Some(digit) = ch.to_digit(16) {
-                                char_code = char_code * 16 + digit;
-                                self.advance();
-                            }
-                        }
-                        _ => {
-                            return Err(String::from(
-                                "Invalid Unicode escape sequence in string value",
-                            ))
+                // a character beyond 16 bit is written as a pair of escape sequences
+                if char_code >= 0xd800 && char_code <= 0xdbff {
+                    for expected in "\\u".chars() {
+                        match self.look_ahead {
+                            Some((_, ch)) if ch == expected => self.advance(),
+                            _ => return Err(String::from("Unpaired surrogate in string value")),
                         }
                     }
+
+                    let low = self.code_unit()?;
+
+                    if low < 0xdc00 || low > 0xdfff {
+                        return Err(String::from("Unpaired surrogate in string value"));
+                    }
+
+                    char_code = 0x10000 + ((char_code - 0xd800) << 10) + (low - 0xdc00);
                 }
 
-                // 16 bit should be the safe range for Unicode characters
-                self.string_buffer.push(char::from_u32(char_code).unwrap());
-                Ok(())
+                match char::from_u32(char_code) {
+                    Some(ch) => {
+                        self.string_buffer.push(ch);
+                        Ok(())
+                    }
+                    None => Err(String::from("Unpaired surrogate in string value")),
+                }
             }
             _ => Err(String::from("Invalid escape sequence in string value")),
         }
-- 
2.43.0


From 48fb129557c4fcb344ce23bc0c7e37e71ad135d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 12/52] fix: reject JSON numbers without fraction digits

---
 src/core/json/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 1d406f6..0525108 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -353,7 +353,11 @@ impl<'a> Tokenizer<'a> {
         // check for fractional part
         if let Some((_, '.')) = self.look_ahead {
             self.advance();
-            self.digits();
+
+            match self.look_ahead {
+                Some((_, ch)) if ch.is_digit(10) => self.digits(),
+                _ => return Err(String::from("Invalid fraction format for number")),
+            }
         }
 
         // check for exponent part
-- 
2.43.0


From 1fe74e0516c2c9e92cca28b97216c85d7c6636ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 13/52] fix: accept only JSON whitespace between JSON tokens

---
 src/core/json/tokenizer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 0525108..5faf73a 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -176,8 +176,9 @@ impl<'a> Tokenizer<'a> {
 
     fn skip_whitespace(&mut self) {
         while let Some((_, ch)) = self.look_ahead {
-            if !ch.is_whitespace() {
-                break;
+            match ch {
+                ' ' | '\t' | '\n' | '\r' => (),
+                _ => break,
             }
 
             self.advance()
-- 
2.43.0


From 2fc1e1096a2edc22af4d0e182e71d121e529c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 14/52] fix: reject input after the JSON document

---
 src/core/json/decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 2fb4f76..38941de 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -533,7 +533,12 @@ impl JsonDecoder {
     ) -> Result<(), String> {
         let mut tokenizer = tokenizer::Tokenizer::new(input)?;
         result.clear();
-        self.parser.parse(&mut tokenizer, result)
+        self.parser.parse(&mut tokenizer, result)?;
+        must_be(
+            &mut tokenizer,
+            tokenizer::Token::Eof,
+            "Unexpected input after the JSON value",
+        )
     }
 }
 
-- 
2.43.0


From d88bb15ac29bf5543389b662987e98d7eba1c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 15/52] fix: decode JSON objects with 64 and more fields

---
 src/core/json/decoder.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 38941de..9cc3463 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -64,7 +64,7 @@ trait BitSet {
 impl BitSet for u64 {
     fn new_with_elements(n: usize) -> Self {
         assert!(n <= 64);
-        (1u64 << n) - 1
+        1u64.checked_shl(n as u32).unwrap_or(0).wrapping_sub(1)
     }
 
     fn clear_element(&mut self, index: usize) {
@@ -80,6 +80,24 @@ impl BitSet for u64 {
     }
 }
 
+impl BitSet for collections::BTreeSet<usize> {
+    fn new_with_elements(n: usize) -> Self {
+        (0..n).collect()
+    }
+
+    fn clear_element(&mut self, index: usize) {
+        self.remove(&index);
+    }
+
+    fn has_element(&self, index: usize) -> bool {
+        self.contains(&index)
+    }
+
+    fn is_empty(&self) -> bool {
+        self.is_empty()
+    }
+}
+
 struct StructParser<T: BitSet> {
     indices: collections::BTreeMap<String, usize>,
     fields: Vec<Box<dyn JsonParser>>,
@@ -479,7 +497,7 @@ fn parser_for_type(prefix: Path, typ: &types::Type) -> Box<dyn JsonParser> {
                 .enumerate()
                 .map(|(index, field)| (field.label.clone(), index))
                 .collect();
-            let fields = fields
+            let fields: Vec<_> = fields
                 .iter()
                 .enumerate()
                 .map(|(index, field)| {
@@ -487,6 +505,16 @@ fn parser_for_type(prefix: Path, typ: &types::Type) -> Box<dyn JsonParser> {
                     parser_for_type(component_path, &field.typ)
                 })
                 .collect();
+
+            if fields.len() > 64 {
+                let struct_parser: StructParser<collections::BTreeSet<usize>> = StructParser {
+                    indices,
+                    fields,
+                    _marker: marker::PhantomData,
+                };
+                return Box::new(struct_parser);
+            }
+
             let struct_parser: StructParser<u64> = StructParser {
                 indices,
                 fields,
-- 
2.43.0


From 820fcd54588436dad4f361f71f875dbef1bb6d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 16/52] fix: align and count blocks up to the integer limit

---
 src/core/util.rs     |  2 +-
 src/storage/utils.rs | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index 7478af0..2add539 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -81,7 +81,7 @@ pub type Result<T> = result::Result<T, Error>;
 /// Helper function to calculate alignments
 pub fn align(value: usize, alignment: usize) -> usize {
     assert!(alignment.is_power_of_two());
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 #[test]
diff --git a/src/storage/utils.rs b/src/storage/utils.rs
index 4911859..f0fb215 100644
--- a/src/storage/utils.rs
+++ b/src/storage/utils.rs
@@ -21,29 +21,29 @@
 // SOFTWARE.
 
 pub (crate) fn calc_file_blocks(file_size: u64, block_size: u64) -> u64 {
-    (file_size + block_size - 1) / block_size
+    file_size / block_size + (file_size % block_size != 0) as u64
 }
 
 pub (crate) fn align_usize(value: usize, alignment: usize) -> usize {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u8(value: u8, alignment: u8) -> u8 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u16(value: u16, alignment: u16) -> u16 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u32(value: u32, alignment: u32) -> u32 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u64(value: u64, alignment: u64) -> u64 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u128(value: u128, alignment: u128) -> u128 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
\ No newline at end of file
-- 
2.43.0


From 16ba77388d8861b227f10085cebbaaa5db6b4a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 17/52] fix: compare a path with the other one to decide
 whether it is a proper prefix

---
 src/core/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/types/mod.rs b/src/core/types/mod.rs
index e872c1a..b430081 100644
--- a/src/core/types/mod.rs
+++ b/src/core/types/mod.rs
@@ -189,7 +189,7 @@ impl Path {
     }
 
     pub fn is_proper_prefix_of(&self, other: &Path) -> bool {
-        if self.0.len() == self.0.len() {
+        if self.0.len() == other.0.len() {
             return false;
         } else {
             self.is_prefix_of(other)
-- 
2.43.0


From 108f3d82cb2f6a893dbbbdfd3b0e5aa981f588e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:21 +0000
Subject: [PATCH 18/52] hook: access to the storage layer's private parts,
 simulated medium and scheduling points

---
 src/storage/mod.rs   |  16 ++++
 src/storage/verif.rs | 217 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 233 insertions(+)
 create mode 100644 src/storage/verif.rs

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index cd8ef59..56ce8ba 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -27,6 +27,9 @@ use super::errors;
 
 mod utils;
 
+#[cfg(cathlamet_verif)]
+pub mod verif;
+
 // Magic number used to identify a valid volume header block
 const VOLUME_HEADER_FORMAT_MAGIC: u32 = 0xCA78;
 
@@ -634,6 +637,9 @@ impl VolumeManager {
 
     // Write buffer contents to external storage
     async fn fetch(&self, location: Location, buffer: &mut[u8]) -> std::io::Result<()> {
+        #[cfg(cathlamet_verif)]
+        { return verif::fetch(location, buffer).await; }
+        #[cfg(not(cathlamet_verif))]
         unimplemented!()
     }
 
@@ -859,6 +865,8 @@ impl BufferPool {
     // TODO: Update return type to a form of Result<T, E>
     async fn access_read_only<'a>(&'a self, location: Location) -> ReadOnlyBufferHandle<'a> {
         let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
+        #[cfg(cathlamet_verif)]
+        verif::point("buffer chosen").await;
 
         let guard = match init_lock {
             None => unsafe {
@@ -883,6 +891,8 @@ impl BufferPool {
     // TODO: Update return type to a form of Result<T, E>
     async fn access_read_write<'a>(&'a self, location: Location) -> ReadWriteBufferHandle<'a> {
         let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
+        #[cfg(cathlamet_verif)]
+        verif::point("buffer chosen").await;
 
         let guard = match init_lock {
             None => unsafe {
@@ -907,6 +917,8 @@ impl BufferPool {
     // TODO: Update return type to a form of Result<T, E>
     async fn access_initialize<'a>(&'a self, location: Location) -> ReadWriteBufferHandle<'a> {
         let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
+        #[cfg(cathlamet_verif)]
+        verif::point("buffer chosen").await;
 
         let guard = match init_lock {
             None => unsafe {
@@ -1229,6 +1241,8 @@ impl <'a> ReadOnlyBufferHandle<'a> {
         }
 
         self.pool.release_read_only(self.buffer_index).await;
+        #[cfg(cathlamet_verif)]
+        verif::point("releasing").await;
         self.guard.take();
     }
 }
@@ -1271,6 +1285,8 @@ impl <'a> ReadWriteBufferHandle<'a> {
         }
 
         self.pool.release_read_write(self.buffer_index).await;
+        #[cfg(cathlamet_verif)]
+        verif::point("releasing").await;
         self.guard.take();
     }
 }
diff --git a/src/storage/verif.rs b/src/storage/verif.rs
new file mode 100644
index 0000000..1043aff
--- /dev/null
+++ b/src/storage/verif.rs
@@ -0,0 +1,217 @@
+// MIT License
+//
+// Copyright (c) 2018-2021 Hans-Martin Will
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in all
+// copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+
+//! Access to the private parts of the storage layer for the checks. Only compiled with `--cfg cathlamet_verif`.
+
+use super::*;
+use std::cell::RefCell;
+use std::future::Future;
+use std::pin::Pin;
+use std::rc::Rc;
+use std::sync::Arc;
+use std::task::{Context, Poll};
+
+pub mod arithmetic {
+    use super::super::utils;
+
+    pub fn calc_file_blocks(file_size: u64, block_size: u64) -> u64 { utils::calc_file_blocks(file_size, block_size) }
+    pub fn align_usize(value: usize, alignment: usize) -> usize { utils::align_usize(value, alignment) }
+    pub fn align_u8(value: u8, alignment: u8) -> u8 { utils::align_u8(value, alignment) }
+    pub fn align_u16(value: u16, alignment: u16) -> u16 { utils::align_u16(value, alignment) }
+    pub fn align_u32(value: u32, alignment: u32) -> u32 { utils::align_u32(value, alignment) }
+    pub fn align_u64(value: u64, alignment: u64) -> u64 { utils::align_u64(value, alignment) }
+    pub fn align_u128(value: u128, alignment: u128) -> u128 { utils::align_u128(value, alignment) }
+}
+
+/// Packs a volume index and an offset into a location; answers the representation and what is unpacked again.
+pub fn location(index: u8, offset: u64) -> (u64, u8, u64) {
+    let location = Location::new(VolumeIndex(index), offset);
+    (location.0, location.index().0, location.offset())
+}
+
+/// How two locations compare.
+pub fn compare_locations(a: (u8, u64), b: (u8, u64)) -> (bool, std::cmp::Ordering) {
+    let (a, b) = (Location::new(VolumeIndex(a.0), a.1), Location::new(VolumeIndex(b.0), b.1));
+    (a == b, a.cmp(&b))
+}
+
+/// Access to the identifiers that a volume manager hands out.
+pub struct Ids(VolumeManager);
+
+impl Ids {
+    pub fn new() -> Ids {
+        let pool = BufferPool::new(8, 2).unwrap();
+        Ids(VolumeManager::new(&pool))
+    }
+
+    pub fn next(&mut self) -> Result<u8, String> {
+        self.0.next_volume().map(|index| index.0).map_err(|error| error.to_string())
+    }
+}
+
+/// The medium below the buffer pool.
+pub trait Device {
+    fn poll_fetch(&self, volume: u8, offset: u64, buffer: &mut [u8], cx: &mut Context<'_>) -> Poll<std::io::Result<()>>;
+
+    /// Asked at scheduling points; `Poll::Pending` suspends the task.
+    fn poll_point(&self, name: &'static str, first: bool, cx: &mut Context<'_>) -> Poll<()>;
+}
+
+thread_local! {
+    static DEVICE: RefCell<Option<Rc<dyn Device>>> = RefCell::new(None);
+}
+
+/// Set the medium used by all pools that are used in this thread.
+pub fn set_device(device: Option<Rc<dyn Device>>) {
+    DEVICE.with(|current| *current.borrow_mut() = device);
+}
+
+struct Fetch<'a> { location: Location, buffer: &'a mut [u8] }
+
+impl<'a> Future for Fetch<'a> {
+    type Output = std::io::Result<()>;
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+        let this = self.get_mut();
+        let device = DEVICE.with(|current| current.borrow().clone()).expect("device");
+        device.poll_fetch(this.location.index().0, this.location.offset(), this.buffer, cx)
+    }
+}
+
+pub(super) async fn fetch(location: Location, buffer: &mut [u8]) -> std::io::Result<()> {
+    Fetch { location, buffer }.await
+}
+
+struct Point { name: &'static str, first: bool }
+
+impl Future for Point {
+    type Output = ();
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
+        let this = self.get_mut();
+        let first = std::mem::replace(&mut this.first, false);
+        match DEVICE.with(|current| current.borrow().clone()) {
+            Some(device) => device.poll_point(this.name, first, cx),
+            None => Poll::Ready(()),
+        }
+    }
+}
+
+/// A place at which another thread may run before this task goes on.
+pub async fn point(name: &'static str) {
+    Point { name, first: true }.await
+}
+
+/// A buffer pool on top of the current device.
+pub struct Pool { pool: Arc<BufferPool>, _manager: Arc<VolumeManager> }
+
+impl Pool {
+    pub fn new(buffer_size: usize, num_buffers: usize) -> std::io::Result<Pool> {
+        let mut pool = BufferPool::new(buffer_size, num_buffers)?;
+        let manager = Arc::new(VolumeManager::new(&pool));
+        pool.set_backing_store(&manager);
+        Ok(Pool { pool: Arc::new(pool), _manager: manager })
+    }
+
+    pub fn total_size(&self) -> usize { self.pool.total_size() }
+
+    pub async fn read(&self, volume: u8, offset: u64) -> Reader<'_> {
+        Reader(Some(self.pool.access_read_only(Location::new(VolumeIndex(volume), offset)).await))
+    }
+
+    pub async fn write(&self, volume: u8, offset: u64) -> Writer<'_> {
+        Writer(Some(self.pool.access_read_write(Location::new(VolumeIndex(volume), offset)).await))
+    }
+
+    pub async fn initialize(&self, volume: u8, offset: u64) -> Writer<'_> {
+        Writer(Some(self.pool.access_initialize(Location::new(VolumeIndex(volume), offset)).await))
+    }
+
+    /// Holds the mutex over the pool's tables, as a thread does that was interrupted while it changed them.
+    pub async fn interrupt(&self) -> Interrupted<'_> {
+        Interrupted(self.pool.mapping.lock().await)
+    }
+
+    /// A description of the pool's tables, for recognizing states.
+    pub fn describe(&self, out: &mut Vec<u8>) {
+        let guard = match self.pool.mapping.try_lock() { Some(guard) => guard, None => { out.push(1); return; } };
+        out.push(0);
+        for (location, index) in guard.mapped_locations.iter() {
+            out.extend_from_slice(&location.0.to_le_bytes());
+            out.push(*index as u8);
+        }
+        for list in [&guard.in_use_buffers, &guard.dirty_buffers, &guard.available_buffers] {
+            out.push(0xfe);
+            let mut index = list.head;
+            let mut count = 0;
+            while index != NIL_BUFFER_INDEX && (index as usize) < guard.buffers.len() && count <= guard.buffers.len() {
+                out.push(index as u8);
+                index = guard.buffers[index as usize].link.next;
+                count += 1;
+            }
+            out.push(list.tail as u8);
+        }
+        for buffer in guard.buffers.iter() {
+            let access = buffer.access.as_ref().map_or(0, |access| 1 + access.num_handles);
+            out.extend_from_slice(&access.to_le_bytes());
+            out.push(buffer.dirty as u8 | (buffer.mapped as u8) << 1 | (buffer.submitted as u8) << 2 | (buffer.pinned as u8) << 3);
+            out.push(buffer.link.prev as u8);
+            out.push(buffer.link.next as u8);
+            out.extend_from_slice(&buffer.location.0.to_le_bytes());
+        }
+        out.push(guard.read_write_locks.len() as u8);
+    }
+}
+
+pub struct Interrupted<'a>(async_std::sync::MutexGuard<'a, BufferPoolMapping>);
+
+/// A handle for reading. Dropping it without a release abandons it.
+pub struct Reader<'a>(Option<ReadOnlyBufferHandle<'a>>);
+
+impl<'a> Reader<'a> {
+    pub fn bytes(&self) -> &[u8] { self.0.as_ref().unwrap().buffer_ref() }
+    pub async fn release(mut self) {
+        self.0.as_mut().unwrap().release().await;
+        drop(self.0.take());
+    }
+}
+
+impl<'a> Drop for Reader<'a> {
+    fn drop(&mut self) { std::mem::forget(self.0.take()); }
+}
+
+/// A handle for writing. Dropping it without a release abandons it.
+pub struct Writer<'a>(Option<ReadWriteBufferHandle<'a>>);
+
+impl<'a> Writer<'a> {
+    pub fn bytes(&self) -> &[u8] { self.0.as_ref().unwrap().buffer_ref() }
+    pub fn bytes_mut(&mut self) -> &mut [u8] { self.0.as_mut().unwrap().buffer_mut() }
+    pub async fn release(mut self) {
+        self.0.as_mut().unwrap().release().await;
+        drop(self.0.take());
+    }
+}
+
+impl<'a> Drop for Writer<'a> {
+    fn drop(&mut self) { std::mem::forget(self.0.take()); }
+}
-- 
2.43.0


From 3a0a2422c1ebb6a42348fe04d0f6a34f74f6f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 19/52] fix: display the message of an error instead of
 panicking

---
 src/core/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index 2add539..cd8b558 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -61,18 +61,18 @@ impl convert::From<io::Error> for Error {
 }
 
 impl fmt::Display for Error {
-    fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result {
-        unimplemented!()
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        f.write_str(&self.message)
     }
 }
 
 impl error::Error for Error {
     fn description(&self) -> &str {
-        unimplemented!()
+        &self.message
     }
 
     fn cause(&self) -> Option<&dyn error::Error> {
-        unimplemented!()
+        self.cause.as_deref()
     }
 }
 
-- 
2.43.0


From 5421390030da5379da98e846a7784552ae83fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 20/52] fix: create a buffer pool without integer underflow

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 56ce8ba..911106e 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -818,7 +818,7 @@ impl BufferPool {
 
         // chain all buffers into a single list
         for index in 0 .. num_buffers {
-            buffers[index].link.prev = (index - 1) as BufferIndex;
+            buffers[index].link.prev = index.wrapping_sub(1) as BufferIndex;
             buffers[index].link.next = (index + 1) as BufferIndex;
         }
 
-- 
2.43.0


From 4bac2ee0ab10a1ec18282b447c1463567e7bf9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 21/52] fix: report exhausted volume identifiers instead of
 overflowing

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 911106e..486ddba 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -383,7 +383,7 @@ impl VolumeManager {
     // generate an internal identifier for the volume to create or attach
     fn next_volume(&mut self) -> errors::Result<VolumeIndex> {
         let current = self.next_volume;
-        let next = current.0 + 1;
+        let next = current.0.wrapping_add(1);
 
         if next < current.0 {
             Err("Cannot allocate more internal volume identifiers".into())
-- 
2.43.0


From 9c66329558a9b987ad1380fbe3506c91242a8fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 22/52] fix: default volume parameters use the default block
 size

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 486ddba..ca2d236 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -203,7 +203,7 @@ pub struct VolumeParameters {
 
 impl VolumeParameters {
     pub fn new_with_defaults(volume_size: u64) -> VolumeParameters {
-        const LOG_BLOCK_SIZE: u64 = (32 - (DEFAULT_VOLUME_BLOCK_SIZE as u32).leading_zeros()) as u64;
+        const LOG_BLOCK_SIZE: u64 = (DEFAULT_VOLUME_BLOCK_SIZE as u32).trailing_zeros() as u64;
 
         let block_size = 1u64 << LOG_BLOCK_SIZE;
 
-- 
2.43.0


From 7fa105fbdaf067622859bcc3763153c4f53f74a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 23/52] hook: include the memory in the description of a pool

---
 src/storage/verif.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/storage/verif.rs b/src/storage/verif.rs
index 1043aff..99c5043 100644
--- a/src/storage/verif.rs
+++ b/src/storage/verif.rs
@@ -156,6 +156,7 @@ impl Pool {
     pub fn describe(&self, out: &mut Vec<u8>) {
         let guard = match self.pool.mapping.try_lock() { Some(guard) => guard, None => { out.push(1); return; } };
         out.push(0);
+        out.extend_from_slice(&self.pool.memory[..]);
         for (location, index) in guard.mapped_locations.iter() {
             out.extend_from_slice(&location.0.to_le_bytes());
             out.push(*index as u8);
-- 
2.43.0


From c65f29132c3f59800d52535f5730e97d1838f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 24/52] fix: put a newly mapped buffer into the list of buffers
 in use

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index ca2d236..eb846f2 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -954,7 +954,7 @@ impl BufferPool {
                         let buffers = &mut internal.buffers;
                         available_buffers.list_remove(buffers, index);
 
-                        let in_use_buffers = &mut internal.available_buffers;
+                        let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
                         internal.mapped_locations.insert(location, index as usize);
-- 
2.43.0


From ef0cb846f9f446062d751540c1cbb47cc03e6557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 25/52] fix: forget the previous location of a buffer that is
 mapped to another one

---
 src/storage/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index eb846f2..bd546b2 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -957,6 +957,13 @@ impl BufferPool {
                         let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
+                        // the buffer no longer holds the contents of the location it was mapped to
+                        if buffers[index as usize].mapped {
+                            internal.mapped_locations.remove(&buffers[index as usize].location);
+                        }
+
+                        buffers[index as usize].location = location;
+                        buffers[index as usize].mapped = true;
                         internal.mapped_locations.insert(location, index as usize);
 
                         assert!(buffers[index as usize].access.is_none());
-- 
2.43.0


From 391097b034c55117b4dbca899c6f93b0516ad569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 26/52] fix: keep the contents of idle buffers when they are
 accessed again

---
 src/storage/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index bd546b2..3455e22 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1001,12 +1001,19 @@ impl BufferPool {
                                     lock,
                                     num_handles: 1
                                 });
-                            
-                            let init_lock = unsafe {
-                                (*lock_ptr).try_write().unwrap()
-                            };
 
-                            break (index, lock_ptr, Some(init_lock));
+                            // the buffer is idle, but still has the contents of the location
+                            let buffers = &mut internal.buffers;
+
+                            if buffers[index as usize].dirty {
+                                internal.dirty_buffers.list_remove(buffers, index as BufferIndex);
+                            } else {
+                                internal.available_buffers.list_remove(buffers, index as BufferIndex);
+                            }
+
+                            internal.in_use_buffers.list_push_front(buffers, index as BufferIndex);
+
+                            break (index, lock_ptr, None);
                         },
                         &mut Some(ref mut access) => {
                             let lock_ptr = (&*access.lock) as *const async_std::sync::RwLock<()>;
-- 
2.43.0


From 3ed17a90baf933b32d3c1affcbc4cfbc93776ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:01 +0000
Subject: [PATCH 27/52] fix: unlock a buffer before its lock can be reused for
 another one

---
 src/storage/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 3455e22..8ba5bcb 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1029,8 +1029,7 @@ impl BufferPool {
 
     // Return a read-only handle
     async fn release_read_only<'a>(&'a self, buffer_index: usize) {
-        // because the handle still holds the lock, we are still preventing exclusive
-        // write access to this buffer
+        // because the handle is still counted, the buffer is still in use
 
         let internal = &mut *self.mapping.lock().await;
 
@@ -1089,8 +1088,7 @@ impl BufferPool {
 
     // Return a read-write handle
     async fn release_read_write<'a>(&'a self, buffer_index: usize) {
-        // because the handle still holds the lock, we still have exclusive access to
-        // this buffer
+        // because the handle is still counted, the buffer is still in use
         let internal = &mut *self.mapping.lock().await;
 
         let BufferAccess { lock, num_handles: _ } = {
@@ -1254,10 +1252,12 @@ impl <'a> ReadOnlyBufferHandle<'a> {
             panic!("Buffer handle has been released already")
         }
 
-        self.pool.release_read_only(self.buffer_index).await;
+        // unlock before the lock can be handed out again for another buffer; until the handle is
+        // given back below, the buffer itself remains in use
+        self.guard.take();
         #[cfg(cathlamet_verif)]
         verif::point("releasing").await;
-        self.guard.take();
+        self.pool.release_read_only(self.buffer_index).await;
     }
 }
 
@@ -1298,10 +1298,12 @@ impl <'a> ReadWriteBufferHandle<'a> {
             panic!("Buffer handle has been released already")
         }
 
-        self.pool.release_read_write(self.buffer_index).await;
+        // unlock before the lock can be handed out again for another buffer; until the handle is
+        // given back below, the buffer itself remains in use
+        self.guard.take();
         #[cfg(cathlamet_verif)]
         verif::point("releasing").await;
-        self.guard.take();
+        self.pool.release_read_write(self.buffer_index).await;
     }
 }
 
-- 
2.43.0


From a868c50dbb1e1d45c07380e430dd9f4ce8cb7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 28/52] fix: wake up all tasks that wait for a buffer when one
 becomes available

---
 src/storage/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 8ba5bcb..8ab9ad7 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1056,7 +1056,9 @@ impl BufferPool {
             // to the dirty queue or can become available because it is clean
 
             if !buffer.dirty {
-                self.buffer_available.notify_one();
+                // not just one: the task that wakes up may have lost interest, or not need this
+                // buffer because the location it waits for has been mapped in the meantime
+                self.buffer_available.notify_all();
             } else if !buffer.submitted {
                 self.buffer_dirty.notify_one();
             }
-- 
2.43.0


From 30ee70c79e1c56513bc8d0e8bc894739d6eaa3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:05 +0000
Subject: [PATCH 29/52] hook: access to the SQL front end for the checks

---
 src/sql/ast/typing.rs |  15 ++
 src/sql/mod.rs        |   3 +
 src/sql/verif.rs      | 331 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 349 insertions(+)
 create mode 100644 src/sql/verif.rs

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 024684f..2d8fb14 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1618,3 +1618,18 @@ impl CommonTableExpression {
         }
     }
 }
+
+#[cfg(cathlamet_verif)]
+impl SetContext {
+    pub fn verif_new(database: &schema::Database, default_schema: symbols::Name) -> Self {
+        Self::new(database, default_schema)
+    }
+}
+
+#[cfg(cathlamet_verif)]
+impl SelectStatement {
+    pub fn verif_columns(&self, context: &SetContext) -> Result<Vec<(String, String, bool)>, Error> {
+        let row_type = self.infer_type(context)?;
+        Ok(row_type.attributes.iter().map(|a| (a.name.to_string(), a.typ.to_string(), a.is_null)).collect())
+    }
+}
diff --git a/src/sql/mod.rs b/src/sql/mod.rs
index 443a2d3..fc355cc 100644
--- a/src/sql/mod.rs
+++ b/src/sql/mod.rs
@@ -28,6 +28,9 @@ mod types;
 mod parser;
 mod symbols;
 
+#[cfg(cathlamet_verif)]
+pub mod verif;
+
 /// A simple error type for this library
 pub struct Error {
     message: String,
diff --git a/src/sql/verif.rs b/src/sql/verif.rs
new file mode 100644
index 0000000..1020f21
--- /dev/null
+++ b/src/sql/verif.rs
@@ -0,0 +1,331 @@
+// MIT License
+//
+// Copyright (c) 2018-2021 Hans-Martin Will
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in all
+// copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+
+//! Access to the private parts of the SQL front end for the checks. Only compiled with `--cfg cathlamet_verif`.
+
+use super::ast::*;
+use super::ast::typing::SetContext;
+use super::{ast, parser, schema, symbols, types};
+use std::cmp::Ordering as Order;
+use std::fmt::Write;
+
+/// The parser; `parse` answers the syntax tree in a textual form in which different trees look different.
+pub struct Parser(parser::SqlStatementParser);
+
+impl Parser {
+    pub fn new() -> Parser { Parser(parser::SqlStatementParser::new()) }
+
+    pub fn parse(&self, text: &str) -> Result<String, String> {
+        match self.0.parse(text) {
+            Ok(statement) => { let mut out = String::new(); sql_statement(&mut out, &statement); Ok(out) }
+            Err(error) => Err(error.to_string()),
+        }
+    }
+
+    /// Validates a statement against a catalog.
+    pub fn validate(&self, catalog: &Catalog, default_schema: &str, text: &str) -> Result<(), Failure> {
+        let statement = self.0.parse(text).map_err(|error| Failure::Syntax(error.to_string()))?;
+        let context = SetContext::verif_new(&catalog.0, symbols::Name::from(default_schema));
+        statement.validate_type(&context).map_err(|error| Failure::Invalid(error.to_string()))
+    }
+
+    /// Validates a query and answers its result columns as (name, type, may be null).
+    pub fn columns(&self, catalog: &Catalog, default_schema: &str, text: &str) -> Result<Vec<(String, String, bool)>, Failure> {
+        let statement = self.0.parse(text).map_err(|error| Failure::Syntax(error.to_string()))?;
+        let context = SetContext::verif_new(&catalog.0, symbols::Name::from(default_schema));
+        match statement {
+            ast::SqlStatement::Statement(ast::Statement::Select(ref select)) =>
+                select.verif_columns(&context).map_err(|error| Failure::Invalid(error.to_string())),
+            _ => Err(Failure::Syntax("not a query".into())),
+        }
+    }
+}
+
+#[derive(Debug, Clone, PartialEq)]
+pub enum Failure { Syntax(String), Invalid(String) }
+
+/// How two names compare: ==, cmp, partial_cmp.
+pub fn compare_names(a: &str, b: &str) -> (bool, Order, Option<Order>) {
+    let (a, b) = (symbols::Name::from(a), symbols::Name::from(b.to_string()));
+    (a == b, a.cmp(&b), a.partial_cmp(&b))
+}
+
+/// How a name and a string compare: ==, partial_cmp.
+pub fn compare_name_with_string(a: &str, b: &str) -> (bool, Option<Order>) {
+    let a = symbols::Name::from(a);
+    (a == *b, a.partial_cmp(b))
+}
+
+/// The text of a name: as_str, and as it is displayed.
+pub fn name_text(a: &str) -> (String, String) {
+    let a = symbols::Name::from(a);
+    (a.as_str().to_string(), a.to_string())
+}
+
+/// A catalog.
+pub struct Catalog(schema::Database);
+
+pub struct ColumnSpec<'a> { pub name: &'a str, pub data_type: &'a str, pub not_null: bool, pub primary_key: bool }
+
+pub const TYPES: &[&str] = &["GENERIC", "VARCHAR", "NUMERIC", "LOGICAL", "DATE", "TIME", "TIMESTAMP", "GEOMETRY"];
+
+fn type_of(name: &str) -> types::DataType {
+    match name {
+        "GENERIC" => types::DataType::Generic,
+        "VARCHAR" => types::DataType::Varchar,
+        "NUMERIC" => types::DataType::Numeric,
+        "LOGICAL" => types::DataType::Logical,
+        "DATE" => types::DataType::Date,
+        "TIME" => types::DataType::Time,
+        "TIMESTAMP" => types::DataType::Timestamp,
+        "GEOMETRY" => types::DataType::Geometry,
+        _ => panic!("type {}", name),
+    }
+}
+
+/// How a type is displayed, and whether its values are ordered.
+pub fn type_properties(name: &str) -> (String, bool) {
+    let t = type_of(name);
+    (t.to_string(), t.is_ordered())
+}
+
+impl Catalog {
+    pub fn new() -> Catalog { Catalog(schema::Database::new()) }
+
+    pub fn create_schema(&mut self, name: &str) -> Result<(), String> {
+        self.0.create_schema(&symbols::Name::from(name)).map_err(|error| error.to_string())
+    }
+
+    /// Puts a table or view into an existing schema (creating them is not implemented).
+    pub fn put(&mut self, schema: &str, name: &str, view: bool, columns: &[ColumnSpec]) {
+        let rows = schema::RowSet {
+            columns: columns.iter().map(|column| schema::Column {
+                name: symbols::Name::from(column.name),
+                not_null: column.not_null,
+                primary_key: column.primary_key,
+                data_type: type_of(column.data_type),
+            }).collect(),
+        };
+        let name = symbols::Name::from(name);
+        let object = if view {
+            schema::SchemaObject::View(schema::View { name: name.clone(), rows, query: String::new() })
+        } else {
+            schema::SchemaObject::Table(schema::Table { name: name.clone(), rows, primary_key: vec![] })
+        };
+        self.0.schemata.get_mut(&symbols::Name::from(schema)).expect("schema").objects.insert(name, object);
+    }
+
+    /// The columns of a table or view as (name, type, not null, part of the primary key).
+    pub fn describe(&self, schema: &str, name: &str) -> Result<Vec<(String, String, bool, bool)>, String> {
+        self.0.describe(&symbols::Name::from(schema), &symbols::Name::from(name))
+            .map(|rows| rows.columns.iter().map(|c| (c.name.to_string(), c.data_type.to_string(), c.not_null, c.primary_key)).collect())
+            .map_err(|error| error.to_string())
+    }
+
+    /// The spellings of all schemata with those of their objects.
+    pub fn contents(&self) -> Vec<(String, String, Vec<String>)> {
+        self.0.schemata.iter().map(|(name, schema)| (name.to_string(), schema.name.to_string(), schema.objects.keys().map(|name| name.to_string()).collect())).collect()
+    }
+}
+
+// textual form of syntax trees
+
+fn names(out: &mut String, list: &[symbols::Name]) {
+    out.push('[');
+    for (i, name) in list.iter().enumerate() { if i > 0 { out.push(' '); } out.push_str(name.as_str()); }
+    out.push(']');
+}
+
+fn exprs(out: &mut String, list: &[Box<Expression>]) {
+    out.push('[');
+    for (i, expr) in list.iter().enumerate() { if i > 0 { out.push(' '); } expression(out, expr); }
+    out.push(']');
+}
+
+fn opt<T>(out: &mut String, value: &Option<T>, f: impl FnOnce(&mut String, &T)) {
+    match value { None => out.push('-'), Some(value) => f(out, value) }
+}
+
+fn sql_statement(out: &mut String, s: &SqlStatement) {
+    match s {
+        SqlStatement::Statement(s) => statement(out, s),
+        SqlStatement::ExplainQueryPlan(s) => { out.push_str("(explain "); statement(out, s); out.push(')'); }
+        SqlStatement::Attach(a) => { out.push_str("(attach "); names(out, &a.qualified_name); let _ = write!(out, " {:?})", a.path); }
+        SqlStatement::Describe(d) => { out.push_str("(describe "); names(out, &d.qualified_name); out.push(')'); }
+    }
+}
+
+fn statement(out: &mut String, s: &Statement) {
+    match s {
+        Statement::Select(s) => select(out, s),
+        Statement::Insert(s) => {
+            out.push_str("(insert "); names(out, &s.table_name); out.push(' ');
+            opt(out, &s.columns, |out, c| names(out, c)); out.push(' ');
+            set_expression(out, &s.source); out.push(')');
+        }
+        Statement::Delete(s) => {
+            out.push_str("(delete "); names(out, &s.table_name); out.push(' ');
+            opt(out, &s.where_expr, |out, e| expression(out, e)); out.push(')');
+        }
+        Statement::Update(s) => {
+            out.push_str("(update "); names(out, &s.table_name); out.push_str(" [");
+            for (i, a) in s.assignments.iter().enumerate() { if i > 0 { out.push(' '); } out.push('('); names(out, &a.columns); out.push(' '); expression(out, &a.expr); out.push(')'); }
+            out.push_str("] ");
+            opt(out, &s.where_expr, |out, e| expression(out, e)); out.push(')');
+        }
+    }
+}
+
+fn select(out: &mut String, s: &SelectStatement) {
+    out.push_str("(select [");
+    for (i, c) in s.common.iter().enumerate() {
+        if i > 0 { out.push(' '); }
+        let _ = write!(out, "(cte {} ", c.identifier.as_str());
+        opt(out, &c.column_names, |out, c| names(out, c)); out.push(' ');
+        select(out, &c.query); out.push(')');
+    }
+    out.push_str("] ");
+    set_expression(out, &s.expr);
+    out.push_str(" [");
+    for (i, o) in s.order_by.iter().enumerate() {
+        if i > 0 { out.push(' '); }
+        out.push_str("(by "); expression(out, &o.expr); out.push(' ');
+        opt(out, &o.collation, |out, n| out.push_str(n.as_str()));
+        out.push_str(match o.direction { OrderingDirection::Ascending => " asc)", OrderingDirection::Descending => " desc)" });
+    }
+    out.push_str("] ");
+    opt(out, &s.limit, |out, l| { out.push_str("(limit "); expression(out, &l.number_rows); out.push(' '); opt(out, &l.offset_value, |out, e| expression(out, e)); out.push(')'); });
+    out.push(')');
+}
+
+fn set_expression(out: &mut String, s: &SetExpression) {
+    match s {
+        SetExpression::Values(rows) => {
+            out.push_str("(values");
+            for row in rows { out.push(' '); exprs(out, row); }
+            out.push(')');
+        }
+        SetExpression::Query { mode, columns, from, where_expr, group_by } => {
+            out.push_str(match mode { SelectMode::All => "(query all ", SelectMode::Distinct => "(query distinct " });
+            match columns {
+                ResultColumns::All => out.push('*'),
+                ResultColumns::List(list) => {
+                    out.push('[');
+                    for (i, column) in list.iter().enumerate() {
+                        if i > 0 { out.push(' '); }
+                        match &**column {
+                            ResultColumn::AllFrom(name) => { let _ = write!(out, "(all {})", name.as_str()); }
+                            ResultColumn::Expr { expr, rename } => { out.push_str("(col "); expression(out, expr); out.push(' '); opt(out, rename, |out, n| out.push_str(n.as_str())); out.push(')'); }
+                        }
+                    }
+                    out.push(']');
+                }
+            }
+            out.push_str(" [");
+            for (i, t) in from.iter().enumerate() { if i > 0 { out.push(' '); } table_expression(out, t); }
+            out.push_str("] ");
+            opt(out, where_expr, |out, e| expression(out, e)); out.push(' ');
+            opt(out, group_by, |out, g| { out.push_str("(group "); exprs(out, &g.groupings); out.push(' '); opt(out, &g.having, |out, e| expression(out, e)); out.push(')'); });
+            out.push(')');
+        }
+        SetExpression::Op { op, left, right } => {
+            out.push_str(match op { SetOperator::Intersect => "(intersect ", SetOperator::Except => "(except ", SetOperator::Union => "(union ", SetOperator::UnionAll => "(unionall " });
+            set_expression(out, left); out.push(' '); set_expression(out, right); out.push(')');
+        }
+    }
+}
+
+fn table_expression(out: &mut String, t: &TableExpression) {
+    fn join_type(t: &JoinType) -> &'static str { match t { JoinType::Inner => "inner", JoinType::Left => "left", JoinType::Right => "right", JoinType::Full => "full" } }
+    match t {
+        TableExpression::Named { name, alias } => { out.push_str("(table "); names(out, name); out.push(' '); opt(out, alias, |out, n| out.push_str(n.as_str())); out.push(')'); }
+        TableExpression::Select { select: s, alias } => { out.push_str("(sub "); select(out, s); out.push(' '); opt(out, alias, |out, n| out.push_str(n.as_str())); out.push(')'); }
+        TableExpression::Join { left, right, op, constraint } => {
+            match op {
+                JoinOperator::Join(t) => { let _ = write!(out, "(join {} ", join_type(t)); }
+                JoinOperator::Natural(t) => { let _ = write!(out, "(natural {} ", join_type(t)); }
+                JoinOperator::Cross => out.push_str("(cross - "),
+            }
+            table_expression(out, left); out.push(' '); table_expression(out, right);
+            match constraint {
+                JoinConstraint::Expr(e) => { out.push_str(" (on "); expression(out, e); out.push_str("))"); }
+                JoinConstraint::Columns(c) => { out.push_str(" (using "); names(out, c); out.push_str("))"); }
+            }
+        }
+    }
+}
+
+fn expression(out: &mut String, e: &Expression) {
+    match e {
+        Expression::Literal(l) => { let _ = match l {
+            Literal::StringLiteral(s) => write!(out, "{:?}", s),
+            Literal::NumericLiteral(s) => write!(out, "#{}", s),
+            Literal::Null => write!(out, "null"),
+            Literal::CurrentTime => write!(out, "current_time"),
+            Literal::CurrentDate => write!(out, "current_date"),
+            Literal::CurrentTimestamp => write!(out, "current_timestamp"),
+            Literal::DateLiteral(s) => write!(out, "(date {:?})", s),
+            Literal::TimeLiteral(s) => write!(out, "(time {:?})", s),
+            Literal::TimestampLiteral(s) => write!(out, "(timestamp {:?})", s),
+        }; }
+        Expression::QualifiedIdentifier(n) => names(out, n),
+        Expression::MakeTuple(list) => { out.push_str("(tuple "); exprs(out, list); out.push(')'); }
+        Expression::Select(s) => { out.push_str("(scalar "); select(out, s); out.push(')'); }
+        Expression::Unary { op, expr } => {
+            out.push_str(match op { UnaryOperator::Negate => "(neg ", UnaryOperator::Not => "(not ", UnaryOperator::IsNull => "(isnull " });
+            expression(out, expr); out.push(')');
+        }
+        Expression::Binary { op, left, right } => {
+            out.push_str(match op {
+                BinaryOperator::Multiply => "(* ", BinaryOperator::Divide => "(/ ", BinaryOperator::Add => "(+ ", BinaryOperator::Subtract => "(- ",
+                BinaryOperator::Concat => "(|| ", BinaryOperator::And => "(and ", BinaryOperator::Or => "(or ",
+            });
+            expression(out, left); out.push(' '); expression(out, right); out.push(')');
+        }
+        Expression::Comparison { op, left, right } => {
+            out.push_str(match op {
+                ComparisonOperator::Equal => "(= ", ComparisonOperator::NotEqual => "(!= ", ComparisonOperator::LessThan => "(< ",
+                ComparisonOperator::LessEqual => "(<= ", ComparisonOperator::GreaterThan => "(> ", ComparisonOperator::GreaterEqual => "(>= ",
+                ComparisonOperator::Like => "(like ",
+            });
+            expression(out, left); out.push(' '); expression(out, right); out.push(')');
+        }
+        Expression::In { expr, set } => {
+            out.push_str("(in "); expression(out, expr); out.push(' ');
+            match set {
+                SetSpecification::Select(s) => { out.push_str("(set "); select(out, s); out.push(')'); }
+                SetSpecification::List(list) => exprs(out, list),
+                SetSpecification::Name(n) => { out.push_str("(name "); names(out, n); out.push(')'); }
+            }
+            out.push(')');
+        }
+        Expression::Between { expr, lower, upper } => {
+            out.push_str("(between "); expression(out, expr); out.push(' '); expression(out, lower); out.push(' '); expression(out, upper); out.push(')');
+        }
+        Expression::Case { expr, when_part, else_part } => {
+            out.push_str("(case "); opt(out, expr, |out, e| expression(out, e));
+            for w in when_part { out.push_str(" (when "); expression(out, &w.guard); out.push(' '); expression(out, &w.body); out.push(')'); }
+            out.push(' '); opt(out, else_part, |out, e| expression(out, e)); out.push(')');
+        }
+    }
+}
-- 
2.43.0


From 391f286793ae0b55a36b71f3551422ef5083ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:59 +0000
Subject: [PATCH 30/52] hook: accept or refuse a SQL text without looking at
 its tree

---
 src/sql/verif.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sql/verif.rs b/src/sql/verif.rs
index 1020f21..b6b0d68 100644
--- a/src/sql/verif.rs
+++ b/src/sql/verif.rs
@@ -42,6 +42,9 @@ impl Parser {
         }
     }
 
+    /// Whether a text is accepted; builds and releases the syntax tree and does nothing else with it.
+    pub fn accepts(&self, text: &str) -> bool { self.0.parse(text).is_ok() }
+
     /// Validates a statement against a catalog.
     pub fn validate(&self, catalog: &Catalog, default_schema: &str, text: &str) -> Result<(), Failure> {
         let statement = self.0.parse(text).map_err(|error| Failure::Syntax(error.to_string()))?;
-- 
2.43.0


From 137320d9ffa72f704989c6bcaaca951029b93f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 31/52] fix: the type of a null test is logical and never null

---
 src/sql/ast/typing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 2d8fb14..7fcc38f 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -287,7 +287,10 @@ impl Expression {
                         }
                     }
                     &UnaryOperator::IsNull => match expr_type {
-                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(expr_type.clone()),
+                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: false,
+                        }),
                         _ => Err(Error::from(
                             "Null test operation can only be applied to scalar type",
                         )),
-- 
2.43.0


From df6bf4b41004385bc2e09777787f77cb4473d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:11 +0000
Subject: [PATCH 32/52] fix: a comparison of tuples is null when any component
 is

---
 src/sql/ast/typing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 7fcc38f..99f67d5 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -67,7 +67,7 @@ impl ScalarType {
                         } else if item_result.is_err() {
                             item_result
                         } else {
-                            Ok(result.unwrap() & item_result.unwrap())
+                            Ok(result.unwrap() | item_result.unwrap())
                         }
                     })
             }
-- 
2.43.0


From 85510908c97180fef93263be333e29105f0d66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:12 +0000
Subject: [PATCH 33/52] fix: report ill-typed guards of CASE expressions

---
 src/sql/ast/typing.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 99f67d5..40d1ba6 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -495,7 +495,7 @@ impl Expression {
                 ref else_part,
             } => {
                 // All when part clauses must have a guard that evaluates to a logical value
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
 
                     match guard_type {
@@ -505,7 +505,7 @@ impl Expression {
                         } => Ok(()),
                         _ => Err(Error::from("Case guard must evaluate to a logical type")),
                     }
-                });
+                })?;
 
                 // All when part clauses must have a body that evaluates to the same type
                 assert!(when_part.len() >= 1);
@@ -559,17 +559,13 @@ impl Expression {
                 let expr_type = expr.infer_type(&context)?;
 
                 // All when part clauses must have a guard that evaluates to the same type as expr
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
 
-                    if guard_type.is_compatible(&expr_type)? {
-                        Ok(())
-                    } else {
-                        Err(Error::from(
-                            "Guard expression is incompatible with CASE expression",
-                        ))
-                    }
-                });
+                    // the result is whether the comparison can be null, which is like no match
+                    guard_type.is_compatible(&expr_type)?;
+                    Ok(())
+                })?;
 
                 // All when part clauses must have a body that evalujates to the same type
                 assert!(when_part.len() >= 1);
-- 
2.43.0


From 4e27d9b3bc636221f9ab43fc51aef761daacfd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:13 +0000
Subject: [PATCH 34/52] fix: report a CASE expression with a tuple as its only
 result instead of panicking

---
 src/sql/ast/typing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 40d1ba6..ed3b272 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -545,7 +545,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    (_, &ScalarType::Tuple(_)) => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
@@ -605,7 +607,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    (_, &ScalarType::Tuple(_)) => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
-- 
2.43.0


From e4ed1e8ee58899f8e64dcc49fe7acbf3668e383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:14 +0000
Subject: [PATCH 35/52] fix: IN with an empty list is well-typed instead of a
 panic

---
 src/sql/ast/typing.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index ed3b272..ab8c158 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -616,6 +616,20 @@ impl Expression {
             // Set membership test; set should evaluate to a row set with a single column
             &Expression::In { ref expr, ref set } => {
                 let expr_type = expr.infer_type(context)?;
+
+                // nothing is an element of the empty list, not even null
+                if let SetSpecification::List(ref values) = set {
+                    if values.is_empty() {
+                        return match expr_type {
+                            ScalarType::Scalar { typ: _, is_null: _ } => Ok(ScalarType::Scalar {
+                                typ: types::DataType::Logical,
+                                is_null: false,
+                            }),
+                            _ => Err(Error::from("Incompatible types for IN expression")),
+                        };
+                    }
+                }
+
                 let set_type = set.infer_type(&context)?;
 
                 if set_type.attributes.len() != 1 {
-- 
2.43.0


From 5f34c8ec9ae6fbdf480d082018293efb56c09b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 36/52] fix: accept IN with operands that are not null, and
 mark it null when they may be

---
 src/sql/ast/typing.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index ab8c158..51a2941 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -638,17 +638,15 @@ impl Expression {
                     ));
                 }
 
-                if expr_type.is_compatible(&ScalarType::Scalar {
+                let is_null = expr_type.is_compatible(&ScalarType::Scalar {
                     typ: set_type.attributes[0].typ,
                     is_null: set_type.attributes[0].is_null,
-                })? {
-                    Ok(ScalarType::Scalar {
-                        typ: types::DataType::Logical,
-                        is_null: false,
-                    })
-                } else {
-                    Err(Error::from("Incompatible types for IN expression"))
-                }
+                })?;
+
+                Ok(ScalarType::Scalar {
+                    typ: types::DataType::Logical,
+                    is_null,
+                })
             }
 
             // nested select statement
-- 
2.43.0


From 22329a64ad2babc43a9b702af96c9c8a71297a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:17 +0000
Subject: [PATCH 37/52] fix: refuse VALUES with rows of different lengths

---
 src/sql/ast/typing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 51a2941..9643b04 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -962,6 +962,10 @@ impl SetExpression {
                 // Validate other rows and unify into the result type
                 let component_types =
                     fold_err(component_types, (&rows[1..]).iter(), |types, vals| {
+                        if types.len() != vals.len() {
+                            return Err(Error::from("Rows of VALUES need to be of the same length"));
+                        }
+
                         fold_err(
                             Vec::new(),
                             types.iter().zip(vals.iter()),
-- 
2.43.0


From 8f1e29c5a5b5b3118ccd707da2d05e34dc103b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:18 +0000
Subject: [PATCH 38/52] fix: refuse set operations on different numbers of
 columns

---
 src/sql/ast/typing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 9643b04..6e109a8 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1072,6 +1072,12 @@ impl SetExpression {
                 let left_type = left.infer_type(context)?;
                 let right_type = right.infer_type(context)?;
 
+                if left_type.attributes.len() != right_type.attributes.len() {
+                    return Err(Error::from(
+                        "Operands of set operation need to have the same number of columns",
+                    ));
+                }
+
                 // unify columns by position
                 let attributes = fold_err(
                     Vec::new(),
-- 
2.43.0


From a52c71432dbf7496fcc03d5ab0feac83a391bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 39/52] fix: report a missing default namespace instead of
 panicking

---
 src/sql/ast/typing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 6e109a8..905c308 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -882,7 +882,7 @@ impl SetContext {
 
                 // look for the table name within the default schema
                 match self.namespaces.0.get(&self.default_namespace) {
-                    None => panic!("Default namespace not present in database"),
+                    None => Err(Error::from("Default namespace not present in database")),
                     Some(ref namespace) => namespace.0.get(&qualified_name[0]).ok_or(Error::from(
                         format!("Table name {} not found in schema", qualified_name[0]),
                     )),
-- 
2.43.0


From d721c22f2e321b0a92f6acf5182af56cb3aaf101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:57 +0000
Subject: [PATCH 40/52] fix: keep relations and attributes of the same name
 apart, and attributes in the order of their definition

---
 src/sql/ast/typing.rs | 160 ++++++++++++++++--------------------------
 1 file changed, 59 insertions(+), 101 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 905c308..44458fb 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -119,15 +119,11 @@ impl ScalarType {
     }
 }
 
-enum ScalarContextSymbol {
-    // a unique attribute that can be accessed directly
-    Attribute(ScalarType),
-
-    // a conflict of attribute from different relations
-    AttributeConflict,
-
-    // a relation with its constituent attributes
-    Relation(collections::BTreeMap<symbols::Name, ScalarType>),
+/// A relation within a scope, with its attributes in the order of their definition
+#[derive(Clone)]
+struct Relation {
+    name: symbols::Name,
+    attributes: Vec<Attribute>,
 }
 
 /// A context of bindings used to evaluate a type; for scalars, we are interested in bindings for
@@ -136,15 +132,15 @@ pub struct ScalarContext<'a> {
     // reference to an underlying SetContext
     set_context: &'a SetContext,
 
-    // need a way to capture qualified attributes and attributes without qualification
-    symbols: collections::BTreeMap<symbols::Name, ScalarContextSymbol>,
+    // the relations in scope; attributes can be referred to with or without the name of their relation
+    relations: Vec<Relation>,
 }
 
 impl<'a> ScalarContext<'a> {
     fn new(set_context: &'a SetContext) -> Self {
         ScalarContext {
             set_context,
-            symbols: collections::BTreeMap::new(),
+            relations: Vec::new(),
         }
     }
 
@@ -153,81 +149,53 @@ impl<'a> ScalarContext<'a> {
         name: symbols::Name,
         attributes: Vec<Attribute>,
     ) -> Result<(), Error> {
-        // add the individual attributes
-        for attribute in &attributes {
-            match self.symbols.get(&attribute.name) {
-                None => mem::drop(self.symbols.insert(
-                    attribute.name.clone(),
-                    ScalarContextSymbol::Attribute(ScalarType::Scalar {
-                        typ: attribute.typ,
-                        is_null: attribute.is_null,
-                    }),
-                )),
-                Some(&ScalarContextSymbol::Attribute(_)) => mem::drop(self.symbols.insert(
-                    attribute.name.clone(),
-                    ScalarContextSymbol::AttributeConflict,
-                )),
-                Some(&ScalarContextSymbol::AttributeConflict) => (),
-                Some(&ScalarContextSymbol::Relation(_)) => (),
-            }
+        if self.relation(&name).is_some() {
+            return Err(Error::from(format!("Duplicate relation name '{}'", &name)));
         }
 
-        // add the relationship entry
-        let map: collections::BTreeMap<symbols::Name, ScalarType> = attributes
-            .into_iter()
-            .map(|attribute| {
-                (
-                    attribute.name,
-                    ScalarType::Scalar {
-                        typ: attribute.typ,
-                        is_null: attribute.is_null,
-                    },
-                )
-            })
-            .collect();
+        self.relations.push(Relation { name, attributes });
+        Ok(())
+    }
 
-        match self.symbols.get(&name) {
-            Some(&ScalarContextSymbol::Relation(_)) => {
-                Err(Error::from(format!("Duplicate relation name '{}'", &name)))
-            }
-            _ => {
-                mem::drop(
-                    self.symbols
-                        .insert(name, ScalarContextSymbol::Relation(map)),
-                );
-                Ok(())
-            }
-        }
+    fn relation(&self, name: &symbols::Name) -> Option<&Relation> {
+        self.relations
+            .iter()
+            .find(|relation| relation.name == *name)
     }
 
     fn infer_type(&self, qualified_name: &[symbols::Name]) -> Result<ScalarType, Error> {
-        match qualified_name.len() {
-            1 => match self.symbols.get(&qualified_name[0]) {
-                None => Err(Error::from(format!(
-                    "Undefined attribute name '{}'",
-                    &qualified_name[0]
-                ))),
-                Some(&ScalarContextSymbol::Attribute(ref typ)) => Ok(typ.clone()),
-                Some(&ScalarContextSymbol::AttributeConflict) => Err(Error::from(format!(
-                    "Ambiguous attribute name '{}'",
-                    &qualified_name[0]
-                ))),
-                Some(&ScalarContextSymbol::Relation(_)) => Err(Error::from(format!(
-                    "Name '{}' refers to a relation",
-                    &qualified_name[0]
-                ))),
-            },
-            2 => match self.symbols.get(&qualified_name[0]) {
-                Some(&ScalarContextSymbol::Relation(ref attributes)) => attributes
-                    .get(&qualified_name[1])
-                    .map(|t| t.clone())
+        let attribute = match qualified_name.len() {
+            1 => {
+                let mut candidates = self
+                    .relations
+                    .iter()
+                    .flat_map(|relation| relation.attributes.iter())
+                    .filter(|attribute| attribute.name == qualified_name[0]);
+
+                match (candidates.next(), candidates.next()) {
+                    (None, _) => Err(Error::from(format!(
+                        "Undefined attribute name '{}'",
+                        &qualified_name[0]
+                    ))),
+                    (Some(attribute), None) => Ok(attribute),
+                    (Some(_), Some(_)) => Err(Error::from(format!(
+                        "Ambiguous attribute name '{}'",
+                        &qualified_name[0]
+                    ))),
+                }
+            }
+            2 => match self.relation(&qualified_name[0]) {
+                Some(relation) => relation
+                    .attributes
+                    .iter()
+                    .find(|attribute| attribute.name == qualified_name[1])
                     .ok_or_else(|| {
                         Error::from(format!(
                             "Name '{}' does not refer to an attribute of relation '{}'",
                             &qualified_name[1], &qualified_name[0]
                         ))
                     }),
-                _ => Err(Error::from(format!(
+                None => Err(Error::from(format!(
                     "Name '{}' does not refer to a relation",
                     &qualified_name[0]
                 ))),
@@ -235,7 +203,12 @@ impl<'a> ScalarContext<'a> {
             _ => Err(Error::from(
                 "Qualfied name needs to have 1 or 2 path components",
             )),
-        }
+        }?;
+
+        Ok(ScalarType::Scalar {
+            typ: attribute.typ,
+            is_null: attribute.is_null,
+        })
     }
 }
 
@@ -1158,37 +1131,22 @@ impl ResultColumns {
             },
             &ResultColumns::List(ref column_list) => for column in column_list {
                 match &**column {
-                    &ResultColumn::AllFrom(ref name) => match context.symbols.get(name) {
+                    &ResultColumn::AllFrom(ref name) => match context.relation(name) {
                         None => {
                             return Err(Error::from(format!("Undefined collection named {}", name)))
                         }
-                        Some(&ScalarContextSymbol::Relation(ref fields)) => {
-                            for (ref name, ref scalar) in fields {
-                                match *scalar {
-                                    &ScalarType::Scalar {
-                                        ref typ,
-                                        ref is_null,
-                                    } => {
-                                        let result_name =
-                                            generate_column_name(name, &mut generated_columns);
-                                        result_attributes.push(Attribute {
-                                            name: result_name,
-                                            typ: typ.clone(),
-                                            is_null: *is_null,
-                                        });
-                                    }
-                                    _ => panic!(
-                                        "Attributes of a schema object should be scalar values"
+                        Some(relation) => {
+                            for attribute in &relation.attributes {
+                                result_attributes.push(Attribute {
+                                    name: generate_column_name(
+                                        &attribute.name,
+                                        &mut generated_columns,
                                     ),
-                                }
+                                    typ: attribute.typ,
+                                    is_null: attribute.is_null,
+                                });
                             }
                         }
-                        Some(_) => {
-                            return Err(Error::from(format!(
-                                "Symbol {} needs to be a range variable",
-                                name
-                            )))
-                        }
                     },
                     &ResultColumn::Expr {
                         ref expr,
-- 
2.43.0


From 0baf2302d7490b35084038feda6f5fbec9bdf967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:58 +0000
Subject: [PATCH 41/52] fix: make the columns of a nested query in the FROM
 clause accessible

---
 src/sql/ast/typing.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 44458fb..643320d 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -122,7 +122,7 @@ impl ScalarType {
 /// A relation within a scope, with its attributes in the order of their definition
 #[derive(Clone)]
 struct Relation {
-    name: symbols::Name,
+    name: Option<symbols::Name>,
     attributes: Vec<Attribute>,
 }
 
@@ -146,11 +146,13 @@ impl<'a> ScalarContext<'a> {
 
     fn add_relation(
         &mut self,
-        name: symbols::Name,
+        name: Option<symbols::Name>,
         attributes: Vec<Attribute>,
     ) -> Result<(), Error> {
-        if self.relation(&name).is_some() {
-            return Err(Error::from(format!("Duplicate relation name '{}'", &name)));
+        if let Some(ref name) = name {
+            if self.relation(name).is_some() {
+                return Err(Error::from(format!("Duplicate relation name '{}'", name)));
+            }
         }
 
         self.relations.push(Relation { name, attributes });
@@ -160,7 +162,7 @@ impl<'a> ScalarContext<'a> {
     fn relation(&self, name: &symbols::Name) -> Option<&Relation> {
         self.relations
             .iter()
-            .find(|relation| relation.name == *name)
+            .find(|relation| relation.name.as_ref() == Some(name))
     }
 
     fn infer_type(&self, qualified_name: &[symbols::Name]) -> Result<ScalarType, Error> {
@@ -1202,16 +1204,17 @@ impl TableExpression {
                 };
 
                 // register the table and its columns in the context
-                context.add_relation(identifier, row_type.attributes.clone())?;
+                context.add_relation(Some(identifier), row_type.attributes.clone())?;
 
                 // return the expanded context, as well as all the attributes as default result column list
                 Ok((context, row_type.attributes.clone()))
             }
             &TableExpression::Select {
                 ref select,
-                alias: _,
+                ref alias,
             } => {
                 let row_type = select.infer_type(&context.set_context)?;
+                context.add_relation(alias.clone(), row_type.attributes.clone())?;
                 Ok((context, row_type.attributes))
             }
             &TableExpression::Join {
@@ -1322,7 +1325,7 @@ impl SelectStatement {
         // common table expression; validate type of each expression and build up a ScalarConext
         for ref cte in &self.common {
             let cte_type = cte.infer_type(context)?;
-            scalar_context.add_relation(cte.identifier.clone(), cte_type.attributes)?;
+            scalar_context.add_relation(Some(cte.identifier.clone()), cte_type.attributes)?;
         }
 
         // set expression
@@ -1439,7 +1442,7 @@ impl UpdateStatement {
         let identifier = self.table_name.last().unwrap().clone();
         let mut scalar_context = ScalarContext::new(&context);
 
-        scalar_context.add_relation(identifier, row_type.attributes.clone())?;
+        scalar_context.add_relation(Some(identifier), row_type.attributes.clone())?;
         let mut assigned_columns = collections::BTreeSet::new();
 
         for assignment in &self.assignments {
@@ -1500,7 +1503,7 @@ impl DeleteStatement {
         let row_type = context.resolve_table_name(&self.table_name)?;
         let identifier = self.table_name.last().unwrap().clone();
         let mut scalar_context = ScalarContext::new(&context);
-        scalar_context.add_relation(identifier, row_type.attributes.clone())?;
+        scalar_context.add_relation(Some(identifier), row_type.attributes.clone())?;
 
         match &self.where_expr {
             &Some(ref expr) => match expr.infer_type(&scalar_context)? {
-- 
2.43.0


From f2bb0db4f333ddb6e726fa63ef3f41344e371663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 42/52] fix: check join conditions, and mark the optional side
 of outer joins as nullable

---
 src/sql/ast/typing.rs | 123 +++++++++++++++++++++++++++++-------------
 1 file changed, 87 insertions(+), 36 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 643320d..e80b14d 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -159,6 +159,21 @@ impl<'a> ScalarContext<'a> {
         Ok(())
     }
 
+    // add all relations of another scope
+    fn append(&mut self, other: ScalarContext) -> Result<(), Error> {
+        for relation in other.relations {
+            self.add_relation(relation.name, relation.attributes)?;
+        }
+
+        Ok(())
+    }
+
+    fn attributes(&self) -> impl Iterator<Item = &Attribute> {
+        self.relations
+            .iter()
+            .flat_map(|relation| relation.attributes.iter())
+    }
+
     fn relation(&self, name: &symbols::Name) -> Option<&Relation> {
         self.relations
             .iter()
@@ -169,9 +184,7 @@ impl<'a> ScalarContext<'a> {
         let attribute = match qualified_name.len() {
             1 => {
                 let mut candidates = self
-                    .relations
-                    .iter()
-                    .flat_map(|relation| relation.attributes.iter())
+                    .attributes()
                     .filter(|attribute| attribute.name == qualified_name[0]);
 
                 match (candidates.next(), candidates.next()) {
@@ -982,13 +995,12 @@ impl SetExpression {
                 ref group_by,
             } => {
                 // evaluate from => yielding a ScalarContext
-                let (scalar_context, attributes) = fold_err(
-                    (ScalarContext::new(context), Vec::new()),
+                let scalar_context = fold_err(
+                    ScalarContext::new(context),
                     from.iter(),
-                    |(context, mut attributes), ref table_expr| {
-                        let (context, mut new_attribiutes) = table_expr.infer_type(context)?;
-                        attributes.append(&mut new_attribiutes);
-                        Ok((context, attributes))
+                    |mut scalar_context, ref table_expr| {
+                        scalar_context.append(table_expr.infer_type(context)?)?;
+                        Ok(scalar_context)
                     },
                 )?;
 
@@ -1036,8 +1048,8 @@ impl SetExpression {
                     }
                 };
 
-                // evaluate columns; the default columns should be passed into this function
-                columns.infer_type(&scalar_context, &attributes)
+                // evaluate columns
+                columns.infer_type(&scalar_context)
             }
             &SetExpression::Op {
                 op: _,
@@ -1112,18 +1124,14 @@ fn generate_column_name(
 }
 
 impl ResultColumns {
-    fn infer_type(
-        &self,
-        context: &ScalarContext,
-        attributes: &[Attribute],
-    ) -> Result<RowType, Error> {
+    fn infer_type(&self, context: &ScalarContext) -> Result<RowType, Error> {
         let mut result_attributes = Vec::new();
 
         // a map where we can track of names already generated
         let mut generated_columns = collections::BTreeMap::new();
 
         match self {
-            &ResultColumns::All => for attribute in attributes {
+            &ResultColumns::All => for attribute in context.attributes() {
                 let result_name = generate_column_name(&attribute.name, &mut generated_columns);
                 result_attributes.push(Attribute {
                     name: result_name,
@@ -1182,19 +1190,18 @@ impl ResultColumns {
 }
 
 impl TableExpression {
-    // The RowSet represents the columns that are visible in SELECT *; the ScalarContext provides
-    // look-up information for any other expression that is to be evaluated.
-    fn infer_type<'a>(
-        &self,
-        mut context: ScalarContext<'a>,
-    ) -> Result<(ScalarContext<'a>, Vec<Attribute>), Error> {
+    // The relations that the table expression brings into scope, which are also those that are
+    // visible in SELECT *
+    fn infer_type<'a>(&self, set_context: &'a SetContext) -> Result<ScalarContext<'a>, Error> {
+        let mut context = ScalarContext::new(set_context);
+
         match self {
             &TableExpression::Named {
                 ref name,
                 ref alias,
             } => {
                 // validate that the table name exists in the schema. If not => error
-                let row_type = context.set_context.resolve_table_name(name)?;
+                let row_type = set_context.resolve_table_name(name)?;
 
                 // If the alias is None, use the last component of the qualified table name
                 // as short-hand alias
@@ -1205,29 +1212,73 @@ impl TableExpression {
 
                 // register the table and its columns in the context
                 context.add_relation(Some(identifier), row_type.attributes.clone())?;
-
-                // return the expanded context, as well as all the attributes as default result column list
-                Ok((context, row_type.attributes.clone()))
+                Ok(context)
             }
             &TableExpression::Select {
                 ref select,
                 ref alias,
             } => {
-                let row_type = select.infer_type(&context.set_context)?;
-                context.add_relation(alias.clone(), row_type.attributes.clone())?;
-                Ok((context, row_type.attributes))
+                let row_type = select.infer_type(set_context)?;
+                context.add_relation(alias.clone(), row_type.attributes)?;
+                Ok(context)
             }
             &TableExpression::Join {
                 ref left,
                 ref right,
-                op: _,
-                constraint: _,
+                ref op,
+                ref constraint,
             } => {
-                let (left_context, mut attributes) = left.infer_type(context)?;
-                let (result_context, mut right_attributes) = right.infer_type(left_context)?;
+                let left_context = left.infer_type(set_context)?;
+                let right_context = right.infer_type(set_context)?;
+
+                // columns to compare need to exist on both sides
+                if let &JoinConstraint::Columns(ref columns) = constraint {
+                    for column in columns {
+                        let left_type = left_context.infer_type(&[column.clone()])?;
+                        let right_type = right_context.infer_type(&[column.clone()])?;
+                        left_type.is_compatible(&right_type)?;
+                    }
+                }
+
+                let left_count = left_context.relations.len();
+                context.append(left_context)?;
+                context.append(right_context)?;
+
+                // the condition can refer to both sides
+                if let &JoinConstraint::Expr(ref expr) = constraint {
+                    match expr.infer_type(&context)? {
+                        ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: _,
+                        } => (),
+                        _ => {
+                            return Err(Error::from(
+                                "ON clause must evaluate to a BOOLEAN predicate",
+                            ))
+                        }
+                    }
+                }
+
+                // a row of an outer join may lack its counterpart
+                let (left_optional, right_optional) = match op {
+                    &JoinOperator::Join(ref typ) | &JoinOperator::Natural(ref typ) => match typ {
+                        &JoinType::Inner => (false, false),
+                        &JoinType::Left => (false, true),
+                        &JoinType::Right => (true, false),
+                        &JoinType::Full => (true, true),
+                    },
+                    &JoinOperator::Cross => (false, false),
+                };
+
+                for (index, relation) in context.relations.iter_mut().enumerate() {
+                    if index < left_count && left_optional || index >= left_count && right_optional {
+                        for attribute in &mut relation.attributes {
+                            attribute.is_null = true;
+                        }
+                    }
+                }
 
-                attributes.append(&mut right_attributes);
-                Ok((result_context, attributes))
+                Ok(context)
             }
         }
     }
-- 
2.43.0


From feca3f15cbc0afacc602c33b52ec79e04144265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:48 +0000
Subject: [PATCH 43/52] fix: make common table expressions accessible to the
 query they belong to

---
 src/sql/ast/mod.rs    |  1 +
 src/sql/ast/typing.rs | 42 ++++++++++++++++++++++++++++++++----------
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/sql/ast/mod.rs b/src/sql/ast/mod.rs
index c6ec8d7..645db63 100644
--- a/src/sql/ast/mod.rs
+++ b/src/sql/ast/mod.rs
@@ -28,6 +28,7 @@ use std::borrow::Borrow;
 
 use std::collections;
 use std::iter;
+use std::rc;
 
 pub mod typing;
 
diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index e80b14d..14b3daf 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -826,9 +826,10 @@ where
 
 /// A context of bindings used to evaluate a type; for set expressions, we are interested in bindings
 /// of identifiers for relations.
+#[derive(Clone)]
 pub struct SetContext {
     // need a reference to a database
-    namespaces: Namespaces,
+    namespaces: rc::Rc<Namespaces>,
 
     // a default namespace name
     default_namespace: symbols::Name,
@@ -840,12 +841,37 @@ pub struct SetContext {
 impl SetContext {
     fn new(database: &schema::Database, default_schema: symbols::Name) -> Self {
         SetContext {
-            namespaces: Namespaces::from(database),
+            namespaces: rc::Rc::new(Namespaces::from(database)),
             default_namespace: default_schema,
             table_expression: collections::BTreeMap::new(),
         }
     }
 
+    // The context in which the given common table expressions are defined as well
+    fn with_common(&self, common: &[CommonTableExpression]) -> Result<SetContext, Error> {
+        let mut result = self.clone();
+
+        for (index, cte) in common.iter().enumerate() {
+            if common[..index]
+                .iter()
+                .any(|other| other.identifier == cte.identifier)
+            {
+                return Err(Error::from(format!(
+                    "Duplicate name '{}' for common table expression",
+                    cte.identifier
+                )));
+            }
+
+            // can refer to those before it, and hides any of the same name in an enclosing query
+            let row_type = cte.infer_type(&result)?;
+            result
+                .table_expression
+                .insert(cte.identifier.clone(), row_type);
+        }
+
+        Ok(result)
+    }
+
     fn define_relation(&mut self, name: symbols::Name, typ: RowType) -> Result<(), Error> {
         match self.table_expression.insert(name.clone(), typ) {
             None => Ok(()),
@@ -1371,25 +1397,21 @@ impl Statement {
 
 impl SelectStatement {
     fn infer_type(&self, context: &SetContext) -> Result<RowType, Error> {
-        let mut scalar_context = ScalarContext::new(context);
-
-        // common table expression; validate type of each expression and build up a ScalarConext
-        for ref cte in &self.common {
-            let cte_type = cte.infer_type(context)?;
-            scalar_context.add_relation(Some(cte.identifier.clone()), cte_type.attributes)?;
-        }
+        // common table expression; validate type of each expression and build up a SetContext
+        let context = &context.with_common(&self.common)?;
 
         // set expression
         let result_type = self.expr.infer_type(context)?;
 
         // order by
+        let scalar_context = ScalarContext::new(context);
         for ref iter in &self.order_by {
             iter.validate_type(&scalar_context)?;
         }
 
         // limit
         if let &Some(ref limit) = &self.limit {
-            limit.validate_type(&scalar_context.set_context)?;
+            limit.validate_type(context)?;
         }
 
         Ok(result_type)
-- 
2.43.0


From f41e18ffc960a1639a38fa0cc7641e8ceaeba606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 44/52] fix: resolve names in ORDER BY to the columns of the
 query

---
 src/sql/ast/typing.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 14b3daf..7b2083c 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -953,6 +953,14 @@ impl SetContext {
 
 impl SetExpression {
     fn infer_type(&self, context: &SetContext) -> Result<RowType, Error> {
+        Ok(self.infer_type_and_scope(context)?.0)
+    }
+
+    // The type of the rows, and what else is in scope for an ORDER BY clause
+    fn infer_type_and_scope<'a>(
+        &self,
+        context: &'a SetContext,
+    ) -> Result<(RowType, ScalarContext<'a>), Error> {
         match self {
             &SetExpression::Values(ref rows) => {
                 let scalar_context = ScalarContext::new(context);
@@ -1007,11 +1015,12 @@ impl SetExpression {
                         )
                     })?;
 
-                Ok(RowType {
+                let row_type = RowType {
                     attributes: component_types,
                     primary_key: Vec::new(),
                     order_by: Vec::new(),
-                })
+                };
+                Ok((row_type, ScalarContext::new(context)))
             }
             &SetExpression::Query {
                 mode: _,
@@ -1075,7 +1084,8 @@ impl SetExpression {
                 };
 
                 // evaluate columns
-                columns.infer_type(&scalar_context)
+                let row_type = columns.infer_type(&scalar_context)?;
+                Ok((row_type, scalar_context))
             }
             &SetExpression::Op {
                 op: _,
@@ -1118,11 +1128,12 @@ impl SetExpression {
                     },
                 )?;
 
-                Ok(RowType {
+                let row_type = RowType {
                     attributes,
                     primary_key: Vec::new(),
                     order_by: Vec::new(),
-                })
+                };
+                Ok((row_type, ScalarContext::new(context)))
             }
         }
     }
@@ -1401,12 +1412,16 @@ impl SelectStatement {
         let context = &context.with_common(&self.common)?;
 
         // set expression
-        let result_type = self.expr.infer_type(context)?;
+        let (result_type, scope) = self.expr.infer_type_and_scope(context)?;
+
+        // order by; expressions can refer to the columns of the result, or else to those of the relations queried
+        let mut result_scope = ScalarContext::new(context);
+        result_scope.add_relation(None, result_type.attributes.clone())?;
 
-        // order by
-        let scalar_context = ScalarContext::new(context);
         for ref iter in &self.order_by {
-            iter.validate_type(&scalar_context)?;
+            if iter.validate_type(&result_scope).is_err() {
+                iter.validate_type(&scope)?;
+            }
         }
 
         // limit
-- 
2.43.0


From 5117573e119ed39b3113e66157d0b71eeafa3e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:22 +0000
Subject: [PATCH 45/52] fix: name a result column after the column it refers to

---
 src/sql/ast/typing.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 7b2083c..1ca6f41 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1204,7 +1204,13 @@ impl ResultColumns {
                         }
                         ScalarType::Scalar { typ, is_null } => {
                             let name = match alias {
-                                &None => symbols::Name::from("col"),
+                                &None => match &**expr {
+                                    // a column without a new name keeps the one it has
+                                    &Expression::QualifiedIdentifier(ref name) => {
+                                        name.last().unwrap().clone()
+                                    }
+                                    _ => symbols::Name::from("col"),
+                                },
                                 &Some(ref name) => name.clone(),
                             };
                             result_attributes.push(Attribute {
-- 
2.43.0


From d95174456de44887ddaff462a495385fdd5c36bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:24 +0000
Subject: [PATCH 46/52] fix: generate column names that are not in use yet

---
 src/sql/ast/typing.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 1ca6f41..2fe2701 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1144,12 +1144,17 @@ fn generate_column_name(
     generated_names: &mut collections::BTreeMap<symbols::Name, usize>,
 ) -> symbols::Name {
     if generated_names.contains_key(name) {
-        let result = {
-            let counter = generated_names.entry(name.clone()).or_insert(0usize);
-            *counter += 1;
-            symbols::Name::from(format!("{}{}", name, *counter))
+        let mut counter = generated_names[name];
+        let result = loop {
+            counter += 1;
+            let candidate = symbols::Name::from(format!("{}{}", name, counter));
+            if !generated_names.contains_key(&candidate) {
+                break candidate;
+            }
         };
 
+        generated_names.insert(name.clone(), counter);
+
         generated_names.insert(result.clone(), 0usize);
         result
     } else {
-- 
2.43.0


From 4e190b1aaffce355cd9a3fdc17aeec62d03768f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:25 +0000
Subject: [PATCH 47/52] fix: match values to columns by position when INSERT
 does not name columns

---
 src/sql/ast/typing.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 2fe2701..13fb461 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1458,27 +1458,22 @@ impl InsertStatement {
 
         match &self.columns {
             &None => {
-                // iterate over the value attriute types, and verify that the
-                // associated type can be assigned to the corresponding column of the table row
-                for ref attribute in &values_type.attributes {
-                    match &row_type_map.get(&attribute.name) {
-                        &None => {
-                            return Err(Error::from(format!(
-                                "Column '{}' not defined in table '{:?}'",
-                                &attribute.name, &self.table_name
-                            )))
-                        }
-                        &Some(&(ref typ, ref is_null)) => {
-                            if *typ != attribute.typ || (!*is_null && attribute.is_null) {
-                                return Err(Error::from(format!(
-                                    "Cannot assign value '{}' to column '{}'",
-                                    attribute.name, attribute.name
-                                )));
-                            }
-                        }
+                // the values are those of all columns in the order of their definition
+                if row_type.attributes.len() != values_type.attributes.len() {
+                    return Err(Error::from(
+                        "Length mismatch between columns of the table and value set provided",
+                    ));
+                }
+
+                for (column, attribute) in row_type.attributes.iter().zip(values_type.attributes.iter()) {
+                    if !attribute.is_assignable_to(column) {
+                        return Err(Error::from(format!(
+                            "Cannot assign value '{}' to column '{}'",
+                            attribute.name, column.name
+                        )));
                     }
 
-                    row_type_map.remove(&attribute.name);
+                    row_type_map.remove(&column.name);
                 }
             }
             &Some(ref columns) => {
-- 
2.43.0


From e0391c3895196737e8cb8b14f23f968c575e5276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:52 +0000
Subject: [PATCH 48/52] fix: keep the WITH clause of INSERT, DELETE and UPDATE
 statements

---
 src/sql/ast/mod.rs     |  9 +++++++++
 src/sql/ast/typing.rs  |  9 ++++++---
 src/sql/parser.lalrpop | 12 ++++++------
 src/sql/parser.rs      | 14 +++++++-------
 4 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/sql/ast/mod.rs b/src/sql/ast/mod.rs
index 645db63..7805798 100644
--- a/src/sql/ast/mod.rs
+++ b/src/sql/ast/mod.rs
@@ -62,6 +62,9 @@ pub enum Statement {
 
 /// Representation of an insert statement
 pub struct InsertStatement {
+    /// 0 or more comon table expressions, that can be referenced within the statement
+    pub common: Vec<CommonTableExpression>,
+
     /// the name of the table into which we want to insert new values
     pub table_name: Vec<symbols::Name>,
 
@@ -105,6 +108,9 @@ pub struct SelectStatement {
 
 /// Represenatation of a delete statement
 pub struct DeleteStatement {
+    /// 0 or more comon table expressions, that can be referenced within the statement
+    pub common: Vec<CommonTableExpression>,
+
     /// the name of the table from which rows should be deleted
     pub table_name: Vec<symbols::Name>,
 
@@ -114,6 +120,9 @@ pub struct DeleteStatement {
 
 /// Representation of an update statement
 pub struct UpdateStatement {
+    /// 0 or more comon table expressions, that can be referenced within the statement
+    pub common: Vec<CommonTableExpression>,
+
     /// the qualified table name
     pub table_name: Vec<symbols::Name>,
 
diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 13fb461..66f4d63 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1454,7 +1454,8 @@ impl InsertStatement {
                 .map(|attribute| (attribute.name.clone(), (attribute.typ, attribute.is_null)))
                 .collect();
 
-        let values_type = self.source.infer_type(&context)?;
+        let context = &context.with_common(&self.common)?;
+        let values_type = self.source.infer_type(context)?;
 
         match &self.columns {
             &None => {
@@ -1534,7 +1535,8 @@ impl UpdateStatement {
             .collect();
 
         let identifier = self.table_name.last().unwrap().clone();
-        let mut scalar_context = ScalarContext::new(&context);
+        let context = &context.with_common(&self.common)?;
+        let mut scalar_context = ScalarContext::new(context);
 
         scalar_context.add_relation(Some(identifier), row_type.attributes.clone())?;
         let mut assigned_columns = collections::BTreeSet::new();
@@ -1596,7 +1598,8 @@ impl DeleteStatement {
         // validate that the table name exists in the schema. If not => error
         let row_type = context.resolve_table_name(&self.table_name)?;
         let identifier = self.table_name.last().unwrap().clone();
-        let mut scalar_context = ScalarContext::new(&context);
+        let context = &context.with_common(&self.common)?;
+        let mut scalar_context = ScalarContext::new(context);
         scalar_context.add_relation(Some(identifier), row_type.attributes.clone())?;
 
         match &self.where_expr {
diff --git a/src/sql/parser.lalrpop b/src/sql/parser.lalrpop
index c8bc9f4..b673c18 100644
--- a/src/sql/parser.lalrpop
+++ b/src/sql/parser.lalrpop
@@ -149,8 +149,8 @@ Statement: ast::Statement = {
 };
 
 InsertStatement: ast::InsertStatement = {
-    TableExpressions? "INSERT" "INTO" <table_name:QualifiedIdentifier> <columns:ColumnNameList?> <source:SelectCore> =>
-        ast::InsertStatement { table_name, columns, source }, 
+    <common:TableExpressions?> "INSERT" "INTO" <table_name:QualifiedIdentifier> <columns:ColumnNameList?> <source:SelectCore> =>
+        ast::InsertStatement { common: common.unwrap_or(Vec::new()), table_name, columns, source },
 };
 
 ColumnNameList: Vec<symbols::Name> = {
@@ -158,14 +158,14 @@ ColumnNameList: Vec<symbols::Name> = {
 };
 
 DeleteStatement: ast::DeleteStatement = {
-    TableExpressions? "DELETE" "FROM" <table_name:QualifiedIdentifier> <where_expr:WhereClause?> =>
-        ast::DeleteStatement { table_name, where_expr },
+    <common:TableExpressions?> "DELETE" "FROM" <table_name:QualifiedIdentifier> <where_expr:WhereClause?> =>
+        ast::DeleteStatement { common: common.unwrap_or(Vec::new()), table_name, where_expr },
 };
 
 UpdateStatement: ast::UpdateStatement = {
-    TableExpressions? "UPDATE" <table_name:QualifiedIdentifier> 
+    <common:TableExpressions?> "UPDATE" <table_name:QualifiedIdentifier> 
     "SET" <assignments: Assignments> <where_expr:WhereClause?> =>
-        ast::UpdateStatement { table_name, assignments, where_expr },
+        ast::UpdateStatement { common: common.unwrap_or(Vec::new()), table_name, assignments, where_expr },
 };
 
 Assignments: Vec<ast::Assignment> = {
diff --git a/src/sql/parser.rs b/src/sql/parser.rs
index 8562621..e33ccbd 100644
--- a/src/sql/parser.rs
+++ b/src/sql/parser.rs
@@ -1,5 +1,5 @@
 // auto-generated: "lalrpop 0.19.8"
-// sha3: f07b7b47a234d3ec455d58d940e87f91caed3ef7e8b156e9294fa4968754242f
+// sha3: 0420ddd0c2eebae8f970c3214d0047f7fa2b6ecd84e9a8eb48376c5b886f9a45
 use super::ast;
 use super::symbols;
 #[allow(unused_extern_crates)]
@@ -7638,7 +7638,7 @@ fn __action9<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, common, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
@@ -7646,7 +7646,7 @@ fn __action9<
     (_, source, _): (usize, Box<ast::SetExpression>, usize),
 ) -> ast::InsertStatement
 {
-    ast::InsertStatement { table_name, columns, source }
+    ast::InsertStatement { common: common.unwrap_or(Vec::new()), table_name, columns, source }
 }
 
 #[allow(unused_variables)]
@@ -7667,14 +7667,14 @@ fn __action11<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, common, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
     (_, where_expr, _): (usize, core::option::Option<Box<ast::Expression>>, usize),
 ) -> ast::DeleteStatement
 {
-    ast::DeleteStatement { table_name, where_expr }
+    ast::DeleteStatement { common: common.unwrap_or(Vec::new()), table_name, where_expr }
 }
 
 #[allow(unused_variables)]
@@ -7682,7 +7682,7 @@ fn __action12<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, common, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
     (_, _, _): (usize, &'input str, usize),
@@ -7690,7 +7690,7 @@ fn __action12<
     (_, where_expr, _): (usize, core::option::Option<Box<ast::Expression>>, usize),
 ) -> ast::UpdateStatement
 {
-    ast::UpdateStatement { table_name, assignments, where_expr }
+    ast::UpdateStatement { common: common.unwrap_or(Vec::new()), table_name, assignments, where_expr }
 }
 
 #[allow(unused_variables)]
-- 
2.43.0


From bebefa7310359e8fb87602ba28c43de07c934af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:44 +0000
Subject: [PATCH 49/52] hook: show the WITH clauses of data-modifying
 statements

---
 src/sql/verif.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/sql/verif.rs b/src/sql/verif.rs
index b6b0d68..ffca0b9 100644
--- a/src/sql/verif.rs
+++ b/src/sql/verif.rs
@@ -182,16 +182,16 @@ fn statement(out: &mut String, s: &Statement) {
     match s {
         Statement::Select(s) => select(out, s),
         Statement::Insert(s) => {
-            out.push_str("(insert "); names(out, &s.table_name); out.push(' ');
+            out.push_str("(insert "); commons(out, &s.common); out.push(' '); names(out, &s.table_name); out.push(' ');
             opt(out, &s.columns, |out, c| names(out, c)); out.push(' ');
             set_expression(out, &s.source); out.push(')');
         }
         Statement::Delete(s) => {
-            out.push_str("(delete "); names(out, &s.table_name); out.push(' ');
+            out.push_str("(delete "); commons(out, &s.common); out.push(' '); names(out, &s.table_name); out.push(' ');
             opt(out, &s.where_expr, |out, e| expression(out, e)); out.push(')');
         }
         Statement::Update(s) => {
-            out.push_str("(update "); names(out, &s.table_name); out.push_str(" [");
+            out.push_str("(update "); commons(out, &s.common); out.push(' '); names(out, &s.table_name); out.push_str(" [");
             for (i, a) in s.assignments.iter().enumerate() { if i > 0 { out.push(' '); } out.push('('); names(out, &a.columns); out.push(' '); expression(out, &a.expr); out.push(')'); }
             out.push_str("] ");
             opt(out, &s.where_expr, |out, e| expression(out, e)); out.push(')');
@@ -199,15 +199,19 @@ fn statement(out: &mut String, s: &Statement) {
     }
 }
 
-fn select(out: &mut String, s: &SelectStatement) {
-    out.push_str("(select [");
-    for (i, c) in s.common.iter().enumerate() {
+fn commons(out: &mut String, list: &[CommonTableExpression]) {
+    out.push('[');
+    for (i, c) in list.iter().enumerate() {
         if i > 0 { out.push(' '); }
         let _ = write!(out, "(cte {} ", c.identifier.as_str());
         opt(out, &c.column_names, |out, c| names(out, c)); out.push(' ');
         select(out, &c.query); out.push(')');
     }
-    out.push_str("] ");
+    out.push(']');
+}
+
+fn select(out: &mut String, s: &SelectStatement) {
+    out.push_str("(select "); commons(out, &s.common); out.push(' ');
     set_expression(out, &s.expr);
     out.push_str(" [");
     for (i, o) in s.order_by.iter().enumerate() {
-- 
2.43.0


From 9276d4f5274bc91c185720bcaaa6ce87db9a1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 50/52] hook: leave out the hooks of one area

---
 src/sql/ast/typing.rs |  4 ++--
 src/sql/mod.rs        |  2 +-
 src/storage/mod.rs    | 16 ++++++++--------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 66f4d63..7c1598b 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1702,14 +1702,14 @@ impl CommonTableExpression {
     }
 }
 
-#[cfg(cathlamet_verif)]
+#[cfg(all(cathlamet_verif, not(cathlamet_verif_no_sql)))]
 impl SetContext {
     pub fn verif_new(database: &schema::Database, default_schema: symbols::Name) -> Self {
         Self::new(database, default_schema)
     }
 }
 
-#[cfg(cathlamet_verif)]
+#[cfg(all(cathlamet_verif, not(cathlamet_verif_no_sql)))]
 impl SelectStatement {
     pub fn verif_columns(&self, context: &SetContext) -> Result<Vec<(String, String, bool)>, Error> {
         let row_type = self.infer_type(context)?;
diff --git a/src/sql/mod.rs b/src/sql/mod.rs
index fc355cc..b88dce8 100644
--- a/src/sql/mod.rs
+++ b/src/sql/mod.rs
@@ -28,7 +28,7 @@ mod types;
 mod parser;
 mod symbols;
 
-#[cfg(cathlamet_verif)]
+#[cfg(all(cathlamet_verif, not(cathlamet_verif_no_sql)))]
 pub mod verif;
 
 /// A simple error type for this library
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 8ab9ad7..688f0c7 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -27,7 +27,7 @@ use super::errors;
 
 mod utils;
 
-#[cfg(cathlamet_verif)]
+#[cfg(all(cathlamet_verif, not(cathlamet_verif_no_storage)))]
 pub mod verif;
 
 // Magic number used to identify a valid volume header block
@@ -637,9 +637,9 @@ impl VolumeManager {
 
     // Write buffer contents to external storage
     async fn fetch(&self, location: Location, buffer: &mut[u8]) -> std::io::Result<()> {
-        #[cfg(cathlamet_verif)]
+        #[cfg(all(cathlamet_verif, not(cathlamet_verif_no_storage)))]
         { return verif::fetch(location, buffer).await; }
-        #[cfg(not(cathlamet_verif))]
+        #[cfg(not(all(cathlamet_verif, not(cathlamet_verif_no_storage))))]
         unimplemented!()
     }
 
@@ -865,7 +865,7 @@ impl BufferPool {
     // TODO: Update return type to a form of Result<T, E>
     async fn access_read_only<'a>(&'a self, location: Location) -> ReadOnlyBufferHandle<'a> {
         let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
-        #[cfg(cathlamet_verif)]
+        #[cfg(all(cathlamet_verif, not(cathlamet_verif_no_storage)))]
         verif::point("buffer chosen").await;
 
         let guard = match init_lock {
@@ -891,7 +891,7 @@ impl BufferPool {
     // TODO: Update return type to a form of Result<T, E>
     async fn access_read_write<'a>(&'a self, location: Location) -> ReadWriteBufferHandle<'a> {
         let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
-        #[cfg(cathlamet_verif)]
+        #[cfg(all(cathlamet_verif, not(cathlamet_verif_no_storage)))]
         verif::point("buffer chosen").await;
 
         let guard = match init_lock {
@@ -917,7 +917,7 @@ impl BufferPool {
     // TODO: Update return type to a form of Result<T, E>
     async fn access_initialize<'a>(&'a self, location: Location) -> ReadWriteBufferHandle<'a> {
         let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
-        #[cfg(cathlamet_verif)]
+        #[cfg(all(cathlamet_verif, not(cathlamet_verif_no_storage)))]
         verif::point("buffer chosen").await;
 
         let guard = match init_lock {
@@ -1257,7 +1257,7 @@ impl <'a> ReadOnlyBufferHandle<'a> {
         // unlock before the lock can be handed out again for another buffer; until the handle is
         // given back below, the buffer itself remains in use
         self.guard.take();
-        #[cfg(cathlamet_verif)]
+        #[cfg(all(cathlamet_verif, not(cathlamet_verif_no_storage)))]
         verif::point("releasing").await;
         self.pool.release_read_only(self.buffer_index).await;
     }
@@ -1303,7 +1303,7 @@ impl <'a> ReadWriteBufferHandle<'a> {
         // unlock before the lock can be handed out again for another buffer; until the handle is
         // given back below, the buffer itself remains in use
         self.guard.take();
-        #[cfg(cathlamet_verif)]
+        #[cfg(all(cathlamet_verif, not(cathlamet_verif_no_storage)))]
         verif::point("releasing").await;
         self.pool.release_read_write(self.buffer_index).await;
     }
-- 
2.43.0


From 953390415fd374ab872beb5af81fffbe437cf211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 51/52] hook: leave out the description of the pool's tables

---
 src/storage/verif.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/storage/verif.rs b/src/storage/verif.rs
index 99c5043..2010339 100644
--- a/src/storage/verif.rs
+++ b/src/storage/verif.rs
@@ -147,12 +147,23 @@ impl Pool {
         Writer(Some(self.pool.access_initialize(Location::new(VolumeIndex(volume), offset)).await))
     }
 
+    /// Whether `describe` and `interrupt` know the pool's tables.
+    pub const TABLES: bool = cfg!(not(cathlamet_verif_no_tables));
+
     /// Holds the mutex over the pool's tables, as a thread does that was interrupted while it changed them.
+    #[cfg(not(cathlamet_verif_no_tables))]
     pub async fn interrupt(&self) -> Interrupted<'_> {
         Interrupted(self.pool.mapping.lock().await)
     }
 
+    #[cfg(cathlamet_verif_no_tables)]
+    pub async fn interrupt(&self) -> Interrupted<'_> { Interrupted(std::marker::PhantomData) }
+
+    #[cfg(cathlamet_verif_no_tables)]
+    pub fn describe(&self, _out: &mut Vec<u8>) {}
+
     /// A description of the pool's tables, for recognizing states.
+    #[cfg(not(cathlamet_verif_no_tables))]
     pub fn describe(&self, out: &mut Vec<u8>) {
         let guard = match self.pool.mapping.try_lock() { Some(guard) => guard, None => { out.push(1); return; } };
         out.push(0);
@@ -184,6 +195,10 @@ impl Pool {
     }
 }
 
+#[cfg(cathlamet_verif_no_tables)]
+pub struct Interrupted<'a>(std::marker::PhantomData<&'a ()>);
+
+#[cfg(not(cathlamet_verif_no_tables))]
 pub struct Interrupted<'a>(async_std::sync::MutexGuard<'a, BufferPoolMapping>);
 
 /// A handle for reading. Dropping it without a release abandons it.
-- 
2.43.0


From 99a160e051dbc37b1cea7b6f727bf5f8f61a5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 52/52] hook: validate several statements in one context

---
 src/sql/verif.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sql/verif.rs b/src/sql/verif.rs
index ffca0b9..62b4009 100644
--- a/src/sql/verif.rs
+++ b/src/sql/verif.rs
@@ -62,6 +62,18 @@ impl Parser {
             _ => Err(Failure::Syntax("not a query".into())),
         }
     }
+
+    /// Validates statements one after the other in one and the same context; queries answer their columns.
+    pub fn in_one_context(&self, catalog: &Catalog, default_schema: &str, texts: &[&str]) -> Vec<Result<Vec<(String, String, bool)>, Failure>> {
+        let context = SetContext::verif_new(&catalog.0, symbols::Name::from(default_schema));
+        texts.iter().map(|text| {
+            let statement = self.0.parse(text).map_err(|error| Failure::Syntax(error.to_string()))?;
+            match statement {
+                ast::SqlStatement::Statement(ast::Statement::Select(ref select)) => select.verif_columns(&context).map_err(|error| Failure::Invalid(error.to_string())),
+                _ => statement.validate_type(&context).map(|()| vec![]).map_err(|error| Failure::Invalid(error.to_string())),
+            }
+        }).collect()
+    }
 }
 
 #[derive(Debug, Clone, PartialEq)]
-- 
2.43.0


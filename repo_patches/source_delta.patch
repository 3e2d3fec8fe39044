From 429bf340dd64e8ef28136bfb66ce9c68135ea927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 01/50] fix: refuse a row when the page has no room left for
 its slot

---
 src/core/nsm.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/nsm.rs b/src/core/nsm.rs
index 880fa3c..4228273 100644
--- a/src/core/nsm.rs
+++ b/src/core/nsm.rs
@@ -73,6 +73,7 @@ impl PageFormat {
     }
 
     pub fn append_row(&self, page: &mut [u8], row: &[u8]) {
+        assert!(self.has_free_slot(page));
         assert!(row.len() <= self.max_insert_row_size(page));
         let num_rows = self.num_rows(page);
         let aligned_len = util::align(row.len(), self.row_alignment);
@@ -96,6 +97,7 @@ impl PageFormat {
     }
 
     pub fn insert_row(&self, page: &mut [u8], index: usize, row: &[u8]) {
+        assert!(self.has_free_slot(page));
         assert!(row.len() <= self.max_insert_row_size(page));
         let num_rows = self.num_rows(page);
 
@@ -186,6 +188,18 @@ impl PageFormat {
         }
     }
 
+    // An empty row needs a slot, too
+    fn has_free_slot(&self, page: &[u8]) -> bool {
+        let num_rows = self.num_rows(page);
+        let upper_bound = if num_rows > 0 {
+            self.aligned_row_offset(page, num_rows - 1)
+        } else {
+            page.len()
+        };
+
+        mem::size_of::<Offset>() * (num_rows + 2) <= upper_bound
+    }
+
     fn aligned_row_offset(&self, page: &[u8], index: usize) -> usize {
         assert!(index < self.num_rows(page));
         let offset_value = self.get_row_offset(page, index);
-- 
2.43.0


From c5d50b97a65a3b53cb008133963ac6e8386fd6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 02/50] fix: is_proper_prefix_of compares with the other path's
 length

---
 src/core/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/types/mod.rs b/src/core/types/mod.rs
index e872c1a..b430081 100644
--- a/src/core/types/mod.rs
+++ b/src/core/types/mod.rs
@@ -189,7 +189,7 @@ impl Path {
     }
 
     pub fn is_proper_prefix_of(&self, other: &Path) -> bool {
-        if self.0.len() == self.0.len() {
+        if self.0.len() == other.0.len() {
             return false;
         } else {
             self.is_prefix_of(other)
-- 
2.43.0


From 5694e430cd783f166e3ea09f9809da4f59a7bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 03/50] fix: enum tags that fill their bitfield container

---
 src/core/marshaller.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 50675d4..3033357 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -546,25 +546,25 @@ impl Layout {
 
                     match primitive {
                         types::Primitive::U8 => unsafe {
-                            let mask = ((1u8 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) as u8) << bit_offset;
                             let pointer: *mut u8 = mem::transmute(buffer[field.offset..].as_ptr());
                             *pointer =
                                 (*pointer & !mask) | (((case_tag as u8) << bit_offset) & mask);
                         },
                         types::Primitive::U16 => unsafe {
-                            let mask = ((1u16 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) as u16) << bit_offset;
                             let pointer: *mut u16 = mem::transmute(buffer[field.offset..].as_ptr());
                             *pointer =
                                 (*pointer & !mask) | (((case_tag as u16) << bit_offset) & mask);
                         },
                         types::Primitive::U32 => unsafe {
-                            let mask = ((1u32 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) as u32) << bit_offset;
                             let pointer: *mut u32 = mem::transmute(buffer[field.offset..].as_ptr());
                             *pointer =
                                 (*pointer & !mask) | (((case_tag as u32) << bit_offset) & mask);
                         },
                         types::Primitive::U64 => unsafe {
-                            let mask = ((1u64 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) as u64) << bit_offset;
                             let pointer: *mut u64 = mem::transmute(buffer[field.offset..].as_ptr());
                             *pointer =
                                 (*pointer & !mask) | (((case_tag as u64) << bit_offset) & mask);
-- 
2.43.0


From eccf11a182f89958a8ead91902b0e7e771b8af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 04/50] fix: tag of a single-case enum assigned to a full
 bitfield container

---
 src/core/marshaller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 3033357..421f4a8 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -233,7 +233,8 @@ fn allocate_bitfields(bit_fields: &mut Vec<Bitfield>) -> Vec<FixedSizeField> {
         for index in 0..result.len() {
             if capacity[index] >= num_bits as usize {
                 field.index = index;
-                field.bit_offset = offsets[index] as u8;
+                // a field of no bits may be assigned to a container that is full already
+                field.bit_offset = if num_bits > 0 { offsets[index] as u8 } else { 0u8 };
                 capacity[index] = capacity[index] - num_bits;
                 offsets[index] = offsets[index] + num_bits;
 
-- 
2.43.0


From 9fb10869481e94e105f6d209287475019124fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 05/50] fix: keep fields that follow an enum case aligned

---
 src/core/marshaller.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 421f4a8..a41e7b4 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -475,6 +475,9 @@ impl Layout {
                     let case_data = &data[offset..];
                     let case_size = cases[case_tag].encoding_size(case_data);
 
+                    // cases may require less alignment than the fields that follow
+                    let case_size = util::align(case_size, var_size_field.alignment());
+
                     offset = offset + case_size;
                 }
             }
@@ -504,7 +507,8 @@ impl Layout {
                 }
                 VariableSizeFieldKind::Enum { ref cases } => {
                     let case_tag = source.get_case_tag(&field.path);
-                    offset += cases[case_tag].encoding_size_with_source(source);
+                    let case_size = cases[case_tag].encoding_size_with_source(source);
+                    offset += util::align(case_size, field.alignment());
                 }
             }
         }
@@ -658,7 +662,8 @@ impl Layout {
                 VariableSizeFieldKind::Enum { ref cases } => {
                     let case_tag = source.get_case_tag(&field.path);
                     cases[case_tag].encode_with_source(&mut buffer[offset..], source);
-                    offset += cases[case_tag].encoding_size_with_source(source);
+                    let case_size = cases[case_tag].encoding_size_with_source(source);
+                    offset += util::align(case_size, field.alignment());
                 }
             }
         }
-- 
2.43.0


From 0df6f9b05500eddc9155324df94794f358a2157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 06/50] fix: refuse to encode into a buffer that is too small

---
 src/core/marshaller.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index a41e7b4..d561b35 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -705,6 +705,7 @@ impl Marshaller {
     where
         D: data_source::DataSource,
     {
+        assert!(buffer.len() >= self.encoding_size(source));
         self.layout.encode_with_source(buffer, source)
     }
 
-- 
2.43.0


From 6c8f0db4b338d980cf0ca5cdf042e36599ce3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 07/50] fix: JSON escapes of control characters

---
 src/core/json/encoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 2529cf4..fed5f13 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -30,13 +30,14 @@ use super::super::types::Path;
 
 // JSON Encoder and Decoder
 
+const HEX_DIGITS: &[u8; 16] = b"0123456789abcdef";
+
 fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     let mut buffer: [u8; 6] = [0; 6];
 
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\0' => writer.write("\\0".as_bytes())?,
         '\\' => writer.write("\\\\".as_bytes())?,
         '/' => writer.write("\\/".as_bytes())?,
         '\"' => writer.write("\\\"".as_bytes())?,
@@ -50,8 +51,8 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[1] = 'u' as u8;
             buffer[2] = '0' as u8;
             buffer[3] = '0' as u8;
-            buffer[4] = ('0' as u8) + (b0 as u8 >> 4);
-            buffer[5] = ('0' as u8) + (b0 as u8 & 0xfu8);
+            buffer[4] = HEX_DIGITS[(b0 as usize) >> 4];
+            buffer[5] = HEX_DIGITS[(b0 as usize) & 0xf];
             writer.write(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
-- 
2.43.0


From 1b09eeb2f45ff456fcf3c395df4ec007c0da480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 08/50] fix: three byte UTF-8 sequences reach up to U+FFFF

---
 src/core/json/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index fed5f13..73d08d0 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -64,7 +64,7 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
             writer.write(&buffer[..2])?
         }
-        b3 if value as u32 >= 0x800 && value as u32 <= 0x7fff => {
+        b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-- 
2.43.0


From d9897bb40c5024d9f15868b9bff92ff87becd0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 09/50] fix: JSON encoder must not lose characters to short
 writes

---
 src/core/json/encoder.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 73d08d0..eb3c177 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -38,14 +38,14 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\\' => writer.write("\\\\".as_bytes())?,
-        '/' => writer.write("\\/".as_bytes())?,
-        '\"' => writer.write("\\\"".as_bytes())?,
-        '\u{8}' => writer.write("\\b".as_bytes())?,
-        '\u{c}' => writer.write("\\f".as_bytes())?,
-        '\n' => writer.write("\\n".as_bytes())?,
-        '\r' => writer.write("\\r".as_bytes())?,
-        '\t' => writer.write("\\t".as_bytes())?,
+        '\\' => writer.write_all("\\\\".as_bytes())?,
+        '/' => writer.write_all("\\/".as_bytes())?,
+        '\"' => writer.write_all("\\\"".as_bytes())?,
+        '\u{8}' => writer.write_all("\\b".as_bytes())?,
+        '\u{c}' => writer.write_all("\\f".as_bytes())?,
+        '\n' => writer.write_all("\\n".as_bytes())?,
+        '\r' => writer.write_all("\\r".as_bytes())?,
+        '\t' => writer.write_all("\\t".as_bytes())?,
         b0 if 0x1f >= value as u32 => {
             buffer[0] = '\\' as u8;
             buffer[1] = 'u' as u8;
@@ -53,29 +53,29 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[3] = '0' as u8;
             buffer[4] = HEX_DIGITS[(b0 as usize) >> 4];
             buffer[5] = HEX_DIGITS[(b0 as usize) & 0xf];
-            writer.write(&buffer[..6])?
+            writer.write_all(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
             buffer[0] = b1 as u8;
-            writer.write(&buffer[..1])?
+            writer.write_all(&buffer[..1])?
         }
         b2 if value as u32 >= 0x80 && value as u32 <= 0x7ff => {
             buffer[1] = (b2 as u8) & 0x3fu8 | 0x80u8;
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
-            writer.write(&buffer[..2])?
+            writer.write_all(&buffer[..2])?
         }
         b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-            writer.write(&buffer[..3])?
+            writer.write_all(&buffer[..3])?
         }
         b4 => {
             buffer[3] = (b4 as u8) & 0x3fu8 | 0x80u8;
             buffer[2] = (b4 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[1] = (b4 as u32 >> 12) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b4 as u32 >> 18) as u8 & 0x07u8 | 0xf0u8;
-            writer.write(&buffer[..4])?
+            writer.write_all(&buffer[..4])?
         }
     };
     Ok(())
-- 
2.43.0


From 7fd82df6ac3ef2c8ae367e1caf80546fa30fbd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 10/50] fix: JSON encoder must not emit infinities and NaN

---
 src/core/json/encoder.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index eb3c177..190fe6f 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -234,10 +234,29 @@ macro_rules! encoder_emit_primitive {
     };
 }
 
+// JSON has no representation for infinities and NaN
+macro_rules! encoder_emit_float {
+    ($get_primitive:ident, $typ:ident) => {
+        impl JsonEmitter for EmitNumber<$typ> {
+            fn emit(&self, writer: &mut dyn io::Write, source: &dyn DataSource) -> io::Result<()> {
+                let value = source.$get_primitive(&self.path);
+                if !value.is_finite() {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "Number cannot be represented in JSON",
+                    ));
+                }
+                write!(writer, "{}", value)?;
+                Ok(())
+            }
+        }
+    };
+}
+
 encoder_emit_primitive!(get_bool, bool);
 encoder_emit_primitive!(get_char, char);
-encoder_emit_primitive!(get_f32, f32);
-encoder_emit_primitive!(get_f64, f64);
+encoder_emit_float!(get_f32, f32);
+encoder_emit_float!(get_f64, f64);
 encoder_emit_primitive!(get_u8, u8);
 encoder_emit_primitive!(get_u16, u16);
 encoder_emit_primitive!(get_u32, u32);
-- 
2.43.0


From 5438e08a0dce629b0917545d48fdf72adce58fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 11/50] fix: reject Unicode escapes without four hexadecimal
 digits

---
 src/core/json/tokenizer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 42bbf1f..1bcc446 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -248,6 +248,10 @@ impl<'a> Tokenizer<'a> {
                             if let Some(digit) = ch.to_digit(16) {
                                 char_code = char_code * 16 + digit;
                                 self.advance();
+                            } else {
+                                return Err(String::from(
+                                    "Invalid Unicode escape sequence in string value",
+                                ));
                             }
                         }
                         _ => {
-- 
2.43.0


From 5655787c4ade5ab5201e2e929e8876ecba4bdb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 12/50] fix: JSON surrogate pairs; reject lone surrogates
 instead of panicking

---
 src/core/json/tokenizer.rs | 66 ++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 1bcc446..db02f19 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -223,6 +223,33 @@ impl<'a> Tokenizer<'a> {
         self.advance();
     }
 
+    fn hex_digits(&mut self) -> Result<u32, TokenizerError> {
+        let mut char_code = 0u32;
+
+        // need for hexadecimal digits
+        for _ in 0..4 {
+            match self.look_ahead {
+                Some((_, ch)) => {
+                    if let Some(digit) = ch.to_digit(16) {
+                        char_code = char_code * 16 + digit;
+                        self.advance();
+                    } else {
+                        return Err(String::from(
+                            "Invalid Unicode escape sequence in string value",
+                        ));
+                    }
+                }
+                _ => {
+                    return Err(String::from(
+                        "Invalid Unicode escape sequence in string value",
+                    ))
+                }
+            }
+        }
+
+        Ok(char_code)
+    }
+
     fn string_control_char(&mut self) -> Result<(), TokenizerError> {
         // eat '\\'
         self.advance();
@@ -239,31 +266,30 @@ impl<'a> Tokenizer<'a> {
             Some((_, 'u')) => {
                 self.advance();
 
-                let mut char_code = 0u32;
-
-                // need for hexadecimal digits
-                for _ in 0..4 {
-                    match self.look_ahead {
-                        Some((_, ch)) => {
-                            if let Some(digit) = ch.to_digit(16) {
-                                char_code = char_code * 16 + digit;
-                                self.advance();
-                            } else {
-                                return Err(String::from(
-                                    "Invalid Unicode escape sequence in string value",
-                                ));
-                            }
+                let mut char_code = self.hex_digits()?;
+
+                // characters beyond 16 bits are represented as surrogate pairs
+                if char_code >= 0xd800 && char_code <= 0xdbff {
+                    for expected in &['\\', 'u'] {
+                        match self.look_ahead {
+                            Some((_, ch)) if ch == *expected => self.advance(),
+                            _ => return Err(String::from("Invalid surrogate pair in string value")),
                         }
-                        _ => {
-                            return Err(String::from(
-                                "Invalid Unicode escape sequence in string value",
-                            ))
+                    }
+
+                    match self.hex_digits()? {
+                        low if low >= 0xdc00 && low <= 0xdfff => {
+                            char_code = 0x10000 + ((char_code - 0xd800) << 10) + (low - 0xdc00)
                         }
+                        _ => return Err(String::from("Invalid surrogate pair in string value")),
                     }
                 }
 
-                // 16 bit should be the safe range for Unicode characters
-                self.string_buffer.push(char::from_u32(char_code).unwrap());
+                match char::from_u32(char_code) {
+                    Some(ch) => self.string_buffer.push(ch),
+                    None => return Err(String::from("Invalid surrogate pair in string value")),
+                }
+
                 Ok(())
             }
             _ => Err(String::from("Invalid escape sequence in string value")),
-- 
2.43.0


From 1082f4d264d85801e05c47a5baf1b3cf42ef78ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 13/50] fix: a JSON number's fraction needs digits

---
 src/core/json/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index db02f19..e4bcba0 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -357,7 +357,11 @@ impl<'a> Tokenizer<'a> {
         // check for fractional part
         if let Some((_, '.')) = self.look_ahead {
             self.advance();
-            self.digits();
+
+            match self.look_ahead {
+                Some((_, ch)) if ch.is_digit(10) => self.digits(),
+                _ => return Err(String::from("Invalid fraction format for number")),
+            }
         }
 
         // check for exponent part
-- 
2.43.0


From bf8741af8519f194efd84290b10f4635dc08b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 14/50] fix: only JSON whitespace separates JSON tokens

---
 src/core/json/tokenizer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index e4bcba0..ed80cb8 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -176,8 +176,9 @@ impl<'a> Tokenizer<'a> {
 
     fn skip_whitespace(&mut self) {
         while let Some((_, ch)) = self.look_ahead {
-            if !ch.is_whitespace() {
-                break;
+            match ch {
+                ' ' | '\t' | '\n' | '\r' => (),
+                _ => break,
             }
 
             self.advance()
-- 
2.43.0


From 367537a6ad8c53a372dabdb37159e333f528b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 15/50] fix: refuse input that follows a JSON document

---
 src/core/json/decoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 2fb4f76..96ebe2b 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -533,7 +533,13 @@ impl JsonDecoder {
     ) -> Result<(), String> {
         let mut tokenizer = tokenizer::Tokenizer::new(input)?;
         result.clear();
-        self.parser.parse(&mut tokenizer, result)
+        self.parser.parse(&mut tokenizer, result)?;
+
+        if tokenizer.token != tokenizer::Token::Eof {
+            return Err(String::from("Unexpected input following the value"));
+        }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From bea9603ebdb2054f2762a976285c5cb8bee76770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 16/50] fix: decode structs of 64 and more fields from JSON

---
 src/core/json/decoder.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 96ebe2b..9aa106d 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -64,7 +64,11 @@ trait BitSet {
 impl BitSet for u64 {
     fn new_with_elements(n: usize) -> Self {
         assert!(n <= 64);
-        (1u64 << n) - 1
+        if n < 64 {
+            (1u64 << n) - 1
+        } else {
+            !0u64
+        }
     }
 
     fn clear_element(&mut self, index: usize) {
@@ -80,6 +84,24 @@ impl BitSet for u64 {
     }
 }
 
+impl BitSet for collections::BTreeSet<usize> {
+    fn new_with_elements(n: usize) -> Self {
+        (0..n).collect()
+    }
+
+    fn clear_element(&mut self, index: usize) {
+        self.remove(&index);
+    }
+
+    fn has_element(&self, index: usize) -> bool {
+        self.contains(&index)
+    }
+
+    fn is_empty(&self) -> bool {
+        collections::BTreeSet::is_empty(self)
+    }
+}
+
 struct StructParser<T: BitSet> {
     indices: collections::BTreeMap<String, usize>,
     fields: Vec<Box<dyn JsonParser>>,
@@ -479,7 +501,7 @@ fn parser_for_type(prefix: Path, typ: &types::Type) -> Box<dyn JsonParser> {
                 .enumerate()
                 .map(|(index, field)| (field.label.clone(), index))
                 .collect();
-            let fields = fields
+            let fields: Vec<Box<dyn JsonParser>> = fields
                 .iter()
                 .enumerate()
                 .map(|(index, field)| {
@@ -487,6 +509,16 @@ fn parser_for_type(prefix: Path, typ: &types::Type) -> Box<dyn JsonParser> {
                     parser_for_type(component_path, &field.typ)
                 })
                 .collect();
+
+            if fields.len() > 64 {
+                let struct_parser: StructParser<collections::BTreeSet<usize>> = StructParser {
+                    indices,
+                    fields,
+                    _marker: marker::PhantomData,
+                };
+                return Box::new(struct_parser);
+            }
+
             let struct_parser: StructParser<u64> = StructParser {
                 indices,
                 fields,
-- 
2.43.0


From 19dcd0fe0ce3ca57705841a6767f0b1338aeddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 17/50] fix: refuse numbers that are out of range for a
 floating point type

---
 src/core/json/decoder.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 9aa106d..8815c14 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -310,6 +310,15 @@ struct PrimitiveParser {
     primitive: types::Primitive,
 }
 
+// A number that is too large for a floating point type is parsed as infinity
+fn is_finite(val: &value::PrimitiveValue) -> bool {
+    match val {
+        value::PrimitiveValue::F32(val) => val.is_finite(),
+        value::PrimitiveValue::F64(val) => val.is_finite(),
+        _ => true,
+    }
+}
+
 fn parse_primitive_number<T: FromStr, F: Fn(T) -> value::PrimitiveValue>(
     tokenizer: &mut tokenizer::Tokenizer,
     data_source: &mut IntermediateDataSource,
@@ -324,7 +333,11 @@ where
     }
     match T::from_str(tokenizer.value()) {
         Ok(val) => {
-            data_source.add_primitive(path, embed(val));
+            let val = embed(val);
+            if !is_finite(&val) {
+                return Err(String::from("Number is out of range"));
+            }
+            data_source.add_primitive(path, val);
             tokenizer.next()
         }
         Err(err) => Err(err.to_string()),
-- 
2.43.0


From 2fe47e692dea210c73ff3ac3bbde80a23e4663ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 18/50] fix: a null test is logical and never null

---
 src/sql/ast/typing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 024684f..376f2d0 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -287,7 +287,10 @@ impl Expression {
                         }
                     }
                     &UnaryOperator::IsNull => match expr_type {
-                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(expr_type.clone()),
+                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: false,
+                        }),
                         _ => Err(Error::from(
                             "Null test operation can only be applied to scalar type",
                         )),
-- 
2.43.0


From 9cda01d7b3b1e8f5ad4c2472c5dd4dd2d346aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:23 +0000
Subject: [PATCH 19/50] fix: report errors in the guards of CASE expressions

---
 src/sql/ast/typing.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 376f2d0..80dc4ff 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -495,7 +495,7 @@ impl Expression {
                 ref else_part,
             } => {
                 // All when part clauses must have a guard that evaluates to a logical value
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
 
                     match guard_type {
@@ -505,7 +505,7 @@ impl Expression {
                         } => Ok(()),
                         _ => Err(Error::from("Case guard must evaluate to a logical type")),
                     }
-                });
+                })?;
 
                 // All when part clauses must have a body that evaluates to the same type
                 assert!(when_part.len() >= 1);
@@ -559,17 +559,12 @@ impl Expression {
                 let expr_type = expr.infer_type(&context)?;
 
                 // All when part clauses must have a guard that evaluates to the same type as expr
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
 
-                    if guard_type.is_compatible(&expr_type)? {
-                        Ok(())
-                    } else {
-                        Err(Error::from(
-                            "Guard expression is incompatible with CASE expression",
-                        ))
-                    }
-                });
+                    guard_type.is_compatible(&expr_type)?;
+                    Ok(())
+                })?;
 
                 // All when part clauses must have a body that evalujates to the same type
                 assert!(when_part.len() >= 1);
-- 
2.43.0


From 2934f64a802679b0ea6a4a561fee2cf9b65dc385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:24 +0000
Subject: [PATCH 20/50] fix: refuse tuples as branches of CASE instead of
 panicking

---
 src/sql/ast/typing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 80dc4ff..bca20f7 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -545,7 +545,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    _ => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
@@ -604,7 +606,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    _ => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
-- 
2.43.0


From 2b48bf27ee843e4204bf0c07d18859a8edc606fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:25 +0000
Subject: [PATCH 21/50] fix: comparing tuples can be null as soon as one
 component can

---
 src/sql/ast/typing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index bca20f7..c905c23 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -67,7 +67,7 @@ impl ScalarType {
                         } else if item_result.is_err() {
                             item_result
                         } else {
-                            Ok(result.unwrap() & item_result.unwrap())
+                            Ok(result.unwrap() | item_result.unwrap())
                         }
                     })
             }
-- 
2.43.0


From 249d3d1f0b45b6cb2e4ec293d357db75b66483e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 22/50] fix: IN required a nullable operand and ignored
 nullability in its result

---
 src/sql/ast/typing.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index c905c23..e484519 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -623,17 +623,15 @@ impl Expression {
                     ));
                 }
 
-                if expr_type.is_compatible(&ScalarType::Scalar {
+                let is_null = expr_type.is_compatible(&ScalarType::Scalar {
                     typ: set_type.attributes[0].typ,
                     is_null: set_type.attributes[0].is_null,
-                })? {
-                    Ok(ScalarType::Scalar {
-                        typ: types::DataType::Logical,
-                        is_null: false,
-                    })
-                } else {
-                    Err(Error::from("Incompatible types for IN expression"))
-                }
+                })?;
+
+                Ok(ScalarType::Scalar {
+                    typ: types::DataType::Logical,
+                    is_null,
+                })
             }
 
             // nested select statement
-- 
2.43.0


From 04663ad8d20d44fc4b3be7684d6fc5d829a9b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:46 +0000
Subject: [PATCH 23/50] fix: membership in an empty list panicked

---
 src/sql/ast/typing.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index e484519..bbec5cf 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -612,6 +612,18 @@ impl Expression {
                 }
             }
 
+            // Set membership test against an empty list, which never holds
+            &Expression::In {
+                ref expr,
+                set: SetSpecification::List(ref values),
+            } if values.is_empty() => match expr.infer_type(context)? {
+                ScalarType::Scalar { .. } => Ok(ScalarType::Scalar {
+                    typ: types::DataType::Logical,
+                    is_null: false,
+                }),
+                _ => Err(Error::from("Incompatible types for IN expression")),
+            },
+
             // Set membership test; set should evaluate to a row set with a single column
             &Expression::In { ref expr, ref set } => {
                 let expr_type = expr.infer_type(context)?;
-- 
2.43.0


From 0df047a69a3646a0a4a9bd15c7cbeecc889831a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 24/50] fix: rows of different lengths were cut to the shortest

---
 src/sql/ast/typing.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index bbec5cf..42cf7fe 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -959,6 +959,10 @@ impl SetExpression {
                 // Validate other rows and unify into the result type
                 let component_types =
                     fold_err(component_types, (&rows[1..]).iter(), |types, vals| {
+                        if types.len() != vals.len() {
+                            return Err(Error::from("Rows have different numbers of values"));
+                        }
+
                         fold_err(
                             Vec::new(),
                             types.iter().zip(vals.iter()),
@@ -1065,6 +1069,12 @@ impl SetExpression {
                 let left_type = left.infer_type(context)?;
                 let right_type = right.infer_type(context)?;
 
+                if left_type.attributes.len() != right_type.attributes.len() {
+                    return Err(Error::from(
+                        "Operands of a set operation have different numbers of columns",
+                    ));
+                }
+
                 // unify columns by position
                 let attributes = fold_err(
                     Vec::new(),
-- 
2.43.0


From 6cc61048f48e080bfba74002cfe69e91f90887f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:48 +0000
Subject: [PATCH 25/50] fix: a missing default schema is an error, not a panic

---
 src/sql/ast/typing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 42cf7fe..4607e49 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -879,7 +879,7 @@ impl SetContext {
 
                 // look for the table name within the default schema
                 match self.namespaces.0.get(&self.default_namespace) {
-                    None => panic!("Default namespace not present in database"),
+                    None => Err(Error::from("Default namespace not present in database")),
                     Some(ref namespace) => namespace.0.get(&qualified_name[0]).ok_or(Error::from(
                         format!("Table name {} not found in schema", qualified_name[0]),
                     )),
-- 
2.43.0


From 74c64a6c4cbdceecb330fec7ed0771bae5ec076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:20 +0000
Subject: [PATCH 26/50] fix: columns named like a relation could not be used,
 and t.* sorted its columns

---
 src/sql/ast/typing.rs | 175 +++++++++++++++---------------------------
 1 file changed, 60 insertions(+), 115 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 4607e49..a90ab91 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -20,8 +20,6 @@
 // OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 // SOFTWARE.
 
-use std::mem;
-
 use super::*;
 
 #[derive(Clone, Debug)]
@@ -119,15 +117,10 @@ impl ScalarType {
     }
 }
 
-enum ScalarContextSymbol {
-    // a unique attribute that can be accessed directly
-    Attribute(ScalarType),
-
-    // a conflict of attribute from different relations
-    AttributeConflict,
-
-    // a relation with its constituent attributes
-    Relation(collections::BTreeMap<symbols::Name, ScalarType>),
+/// A relation in scope with its constituent attributes, in order
+struct Relation {
+    name: symbols::Name,
+    attributes: Vec<Attribute>,
 }
 
 /// A context of bindings used to evaluate a type; for scalars, we are interested in bindings for
@@ -136,15 +129,16 @@ pub struct ScalarContext<'a> {
     // reference to an underlying SetContext
     set_context: &'a SetContext,
 
-    // need a way to capture qualified attributes and attributes without qualification
-    symbols: collections::BTreeMap<symbols::Name, ScalarContextSymbol>,
+    // the relations in scope, in order; their attributes can be accessed with and without
+    // qualification
+    relations: Vec<Relation>,
 }
 
 impl<'a> ScalarContext<'a> {
     fn new(set_context: &'a SetContext) -> Self {
         ScalarContext {
             set_context,
-            symbols: collections::BTreeMap::new(),
+            relations: Vec::new(),
         }
     }
 
@@ -153,88 +147,55 @@ impl<'a> ScalarContext<'a> {
         name: symbols::Name,
         attributes: Vec<Attribute>,
     ) -> Result<(), Error> {
-        // add the individual attributes
-        for attribute in &attributes {
-            match self.symbols.get(&attribute.name) {
-                None => mem::drop(self.symbols.insert(
-                    attribute.name.clone(),
-                    ScalarContextSymbol::Attribute(ScalarType::Scalar {
-                        typ: attribute.typ,
-                        is_null: attribute.is_null,
-                    }),
-                )),
-                Some(&ScalarContextSymbol::Attribute(_)) => mem::drop(self.symbols.insert(
-                    attribute.name.clone(),
-                    ScalarContextSymbol::AttributeConflict,
-                )),
-                Some(&ScalarContextSymbol::AttributeConflict) => (),
-                Some(&ScalarContextSymbol::Relation(_)) => (),
-            }
+        if self.relation(&name).is_some() {
+            return Err(Error::from(format!("Duplicate relation name '{}'", &name)));
         }
 
-        // add the relationship entry
-        let map: collections::BTreeMap<symbols::Name, ScalarType> = attributes
-            .into_iter()
-            .map(|attribute| {
-                (
-                    attribute.name,
-                    ScalarType::Scalar {
-                        typ: attribute.typ,
-                        is_null: attribute.is_null,
-                    },
-                )
-            })
-            .collect();
+        self.relations.push(Relation { name, attributes });
+        Ok(())
+    }
 
-        match self.symbols.get(&name) {
-            Some(&ScalarContextSymbol::Relation(_)) => {
-                Err(Error::from(format!("Duplicate relation name '{}'", &name)))
-            }
-            _ => {
-                mem::drop(
-                    self.symbols
-                        .insert(name, ScalarContextSymbol::Relation(map)),
-                );
-                Ok(())
-            }
-        }
+    fn relation(&self, name: &symbols::Name) -> Option<&Relation> {
+        self.relations.iter().find(|relation| relation.name == *name)
     }
 
     fn infer_type(&self, qualified_name: &[symbols::Name]) -> Result<ScalarType, Error> {
-        match qualified_name.len() {
-            1 => match self.symbols.get(&qualified_name[0]) {
-                None => Err(Error::from(format!(
-                    "Undefined attribute name '{}'",
-                    &qualified_name[0]
-                ))),
-                Some(&ScalarContextSymbol::Attribute(ref typ)) => Ok(typ.clone()),
-                Some(&ScalarContextSymbol::AttributeConflict) => Err(Error::from(format!(
-                    "Ambiguous attribute name '{}'",
-                    &qualified_name[0]
-                ))),
-                Some(&ScalarContextSymbol::Relation(_)) => Err(Error::from(format!(
-                    "Name '{}' refers to a relation",
-                    &qualified_name[0]
-                ))),
-            },
-            2 => match self.symbols.get(&qualified_name[0]) {
-                Some(&ScalarContextSymbol::Relation(ref attributes)) => attributes
-                    .get(&qualified_name[1])
-                    .map(|t| t.clone())
-                    .ok_or_else(|| {
-                        Error::from(format!(
-                            "Name '{}' does not refer to an attribute of relation '{}'",
-                            &qualified_name[1], &qualified_name[0]
-                        ))
-                    }),
-                _ => Err(Error::from(format!(
-                    "Name '{}' does not refer to a relation",
-                    &qualified_name[0]
-                ))),
+        let (attribute_name, relations): (_, Vec<&Relation>) = match qualified_name.len() {
+            1 => (&qualified_name[0], self.relations.iter().collect()),
+            2 => match self.relation(&qualified_name[0]) {
+                Some(relation) => (&qualified_name[1], vec![relation]),
+                None => {
+                    return Err(Error::from(format!(
+                        "Name '{}' does not refer to a relation",
+                        &qualified_name[0]
+                    )))
+                }
             },
-            _ => Err(Error::from(
-                "Qualfied name needs to have 1 or 2 path components",
-            )),
+            _ => {
+                return Err(Error::from(
+                    "Qualfied name needs to have 1 or 2 path components",
+                ))
+            }
+        };
+
+        let mut candidates = relations
+            .iter()
+            .flat_map(|relation| relation.attributes.iter())
+            .filter(|attribute| attribute.name == *attribute_name);
+
+        match (candidates.next(), candidates.next()) {
+            (None, _) => Err(Error::from(format!(
+                "Undefined attribute name '{}'",
+                attribute_name
+            ))),
+            (Some(attribute), None) => Ok(ScalarType::Scalar {
+                typ: attribute.typ,
+                is_null: attribute.is_null,
+            }),
+            (Some(_), Some(_)) => Err(Error::from(format!(
+                "Ambiguous attribute name '{}'",
+                attribute_name
+            ))),
         }
     }
 }
@@ -1155,37 +1116,21 @@ impl ResultColumns {
             },
             &ResultColumns::List(ref column_list) => for column in column_list {
                 match &**column {
-                    &ResultColumn::AllFrom(ref name) => match context.symbols.get(name) {
+                    &ResultColumn::AllFrom(ref name) => match context.relation(name) {
                         None => {
                             return Err(Error::from(format!("Undefined collection named {}", name)))
                         }
-                        Some(&ScalarContextSymbol::Relation(ref fields)) => {
-                            for (ref name, ref scalar) in fields {
-                                match *scalar {
-                                    &ScalarType::Scalar {
-                                        ref typ,
-                                        ref is_null,
-                                    } => {
-                                        let result_name =
-                                            generate_column_name(name, &mut generated_columns);
-                                        result_attributes.push(Attribute {
-                                            name: result_name,
-                                            typ: typ.clone(),
-                                            is_null: *is_null,
-                                        });
-                                    }
-                                    _ => panic!(
-                                        "Attributes of a schema object should be scalar values"
-                                    ),
-                                }
+                        Some(relation) => {
+                            for attribute in &relation.attributes {
+                                let result_name =
+                                    generate_column_name(&attribute.name, &mut generated_columns);
+                                result_attributes.push(Attribute {
+                                    name: result_name,
+                                    typ: attribute.typ,
+                                    is_null: attribute.is_null,
+                                });
                             }
                         }
-                        Some(_) => {
-                            return Err(Error::from(format!(
-                                "Symbol {} needs to be a range variable",
-                                name
-                            )))
-                        }
                     },
                     &ResultColumn::Expr {
                         ref expr,
-- 
2.43.0


From 2d93f94985f6e3c51f1434b674e3b8c7625a4671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:49 +0000
Subject: [PATCH 27/50] fix: the columns of a sub-query in FROM were not in
 scope

---
 src/sql/ast/typing.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index a90ab91..9d5b814 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -117,9 +117,10 @@ impl ScalarType {
     }
 }
 
-/// A relation in scope with its constituent attributes, in order
+/// A relation in scope with its constituent attributes, in order; a relation without a name can
+/// only be accessed without qualification
 struct Relation {
-    name: symbols::Name,
+    name: Option<symbols::Name>,
     attributes: Vec<Attribute>,
 }
 
@@ -144,11 +145,13 @@ impl<'a> ScalarContext<'a> {
 
     fn add_relation(
         &mut self,
-        name: symbols::Name,
+        name: Option<symbols::Name>,
         attributes: Vec<Attribute>,
     ) -> Result<(), Error> {
-        if self.relation(&name).is_some() {
-            return Err(Error::from(format!("Duplicate relation name '{}'", &name)));
+        if let Some(ref name) = name {
+            if self.relation(name).is_some() {
+                return Err(Error::from(format!("Duplicate relation name '{}'", name)));
+            }
         }
 
         self.relations.push(Relation { name, attributes });
@@ -156,7 +159,9 @@ impl<'a> ScalarContext<'a> {
     }
 
     fn relation(&self, name: &symbols::Name) -> Option<&Relation> {
-        self.relations.iter().find(|relation| relation.name == *name)
+        self.relations
+            .iter()
+            .find(|relation| relation.name.as_ref() == Some(name))
     }
 
     fn infer_type(&self, qualified_name: &[symbols::Name]) -> Result<ScalarType, Error> {
@@ -1186,16 +1191,19 @@ impl TableExpression {
                 };
 
                 // register the table and its columns in the context
-                context.add_relation(identifier, row_type.attributes.clone())?;
+                context.add_relation(Some(identifier), row_type.attributes.clone())?;
 
                 // return the expanded context, as well as all the attributes as default result column list
                 Ok((context, row_type.attributes.clone()))
             }
             &TableExpression::Select {
                 ref select,
-                alias: _,
+                ref alias,
             } => {
                 let row_type = select.infer_type(&context.set_context)?;
+
+                // register the columns of the sub-query in the context
+                context.add_relation(alias.clone(), row_type.attributes.clone())?;
                 Ok((context, row_type.attributes))
             }
             &TableExpression::Join {
@@ -1306,7 +1314,7 @@ impl SelectStatement {
         // common table expression; validate type of each expression and build up a ScalarConext
         for ref cte in &self.common {
             let cte_type = cte.infer_type(context)?;
-            scalar_context.add_relation(cte.identifier.clone(), cte_type.attributes)?;
+            scalar_context.add_relation(Some(cte.identifier.clone()), cte_type.attributes)?;
         }
 
         // set expression
@@ -1423,7 +1431,7 @@ impl UpdateStatement {
         let identifier = self.table_name.last().unwrap().clone();
         let mut scalar_context = ScalarContext::new(&context);
 
-        scalar_context.add_relation(identifier, row_type.attributes.clone())?;
+        scalar_context.add_relation(Some(identifier), row_type.attributes.clone())?;
         let mut assigned_columns = collections::BTreeSet::new();
 
         for assignment in &self.assignments {
@@ -1484,7 +1492,7 @@ impl DeleteStatement {
         let row_type = context.resolve_table_name(&self.table_name)?;
         let identifier = self.table_name.last().unwrap().clone();
         let mut scalar_context = ScalarContext::new(&context);
-        scalar_context.add_relation(identifier, row_type.attributes.clone())?;
+        scalar_context.add_relation(Some(identifier), row_type.attributes.clone())?;
 
         match &self.where_expr {
             &Some(ref expr) => match expr.infer_type(&scalar_context)? {
-- 
2.43.0


From dc8d01ef5008b8d87d0b2e53f37244c9c37ccf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 28/50] fix: join constraints were not checked, outer joins did
 not make columns nullable

---
 src/sql/ast/typing.rs | 124 ++++++++++++++++++++++++++++++++----------
 1 file changed, 96 insertions(+), 28 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 9d5b814..ff69db6 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -22,6 +22,8 @@
 
 use super::*;
 
+use std::slice;
+
 #[derive(Clone, Debug)]
 pub enum ScalarType {
     Tuple(Vec<ScalarType>),
@@ -158,6 +160,22 @@ impl<'a> ScalarContext<'a> {
         Ok(())
     }
 
+    fn add_relations(&mut self, relations: Vec<Relation>) -> Result<(), Error> {
+        for Relation { name, attributes } in relations {
+            self.add_relation(name, attributes)?;
+        }
+
+        Ok(())
+    }
+
+    // the attributes of all relations in scope, in order
+    fn attributes(&self) -> Vec<Attribute> {
+        self.relations
+            .iter()
+            .flat_map(|relation| relation.attributes.iter().cloned())
+            .collect()
+    }
+
     fn relation(&self, name: &symbols::Name) -> Option<&Relation> {
         self.relations
             .iter()
@@ -970,15 +988,15 @@ impl SetExpression {
                 ref group_by,
             } => {
                 // evaluate from => yielding a ScalarContext
-                let (scalar_context, attributes) = fold_err(
-                    (ScalarContext::new(context), Vec::new()),
+                let scalar_context = fold_err(
+                    ScalarContext::new(context),
                     from.iter(),
-                    |(context, mut attributes), ref table_expr| {
-                        let (context, mut new_attribiutes) = table_expr.infer_type(context)?;
-                        attributes.append(&mut new_attribiutes);
-                        Ok((context, attributes))
+                    |mut scalar_context, ref table_expr| {
+                        scalar_context.add_relations(table_expr.infer_type(context)?)?;
+                        Ok(scalar_context)
                     },
                 )?;
+                let attributes = scalar_context.attributes();
 
                 // evaluate where clause
                 match where_expr {
@@ -1169,19 +1187,15 @@ impl ResultColumns {
 }
 
 impl TableExpression {
-    // The RowSet represents the columns that are visible in SELECT *; the ScalarContext provides
-    // look-up information for any other expression that is to be evaluated.
-    fn infer_type<'a>(
-        &self,
-        mut context: ScalarContext<'a>,
-    ) -> Result<(ScalarContext<'a>, Vec<Attribute>), Error> {
+    // The relations that this expression adds to the scope, in order
+    fn infer_type(&self, context: &SetContext) -> Result<Vec<Relation>, Error> {
         match self {
             &TableExpression::Named {
                 ref name,
                 ref alias,
             } => {
                 // validate that the table name exists in the schema. If not => error
-                let row_type = context.set_context.resolve_table_name(name)?;
+                let row_type = context.resolve_table_name(name)?;
 
                 // If the alias is None, use the last component of the qualified table name
                 // as short-hand alias
@@ -1190,38 +1204,92 @@ impl TableExpression {
                     &None => name.last().unwrap().clone(),
                 };
 
-                // register the table and its columns in the context
-                context.add_relation(Some(identifier), row_type.attributes.clone())?;
-
-                // return the expanded context, as well as all the attributes as default result column list
-                Ok((context, row_type.attributes.clone()))
+                Ok(vec![Relation {
+                    name: Some(identifier),
+                    attributes: row_type.attributes.clone(),
+                }])
             }
             &TableExpression::Select {
                 ref select,
                 ref alias,
             } => {
-                let row_type = select.infer_type(&context.set_context)?;
+                let row_type = select.infer_type(context)?;
 
-                // register the columns of the sub-query in the context
-                context.add_relation(alias.clone(), row_type.attributes.clone())?;
-                Ok((context, row_type.attributes))
+                Ok(vec![Relation {
+                    name: alias.clone(),
+                    attributes: row_type.attributes,
+                }])
             }
             &TableExpression::Join {
                 ref left,
                 ref right,
-                op: _,
-                constraint: _,
+                ref op,
+                ref constraint,
             } => {
-                let (left_context, mut attributes) = left.infer_type(context)?;
-                let (result_context, mut right_attributes) = right.infer_type(left_context)?;
+                let mut left_context = ScalarContext::new(context);
+                left_context.add_relations(left.infer_type(context)?)?;
+                let mut right_context = ScalarContext::new(context);
+                right_context.add_relations(right.infer_type(context)?)?;
+
+                // columns provided as constraint need to exist on both sides
+                if let &JoinConstraint::Columns(ref names) = constraint {
+                    for name in names {
+                        let left_type = left_context.infer_type(slice::from_ref(name))?;
+                        let right_type = right_context.infer_type(slice::from_ref(name))?;
+                        left_type.is_compatible(&right_type)?;
+                    }
+                }
+
+                let mut join_context = left_context;
+                let left_count = join_context.relations.len();
+                join_context.add_relations(right_context.relations)?;
+
+                if let &JoinConstraint::Expr(ref expr) = constraint {
+                    match expr.infer_type(&join_context)? {
+                        ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: _,
+                        } => (),
+                        _ => {
+                            return Err(Error::from(
+                                "Join constraint must evaluate to a BOOLEAN predicate",
+                            ))
+                        }
+                    }
+                }
 
-                attributes.append(&mut right_attributes);
-                Ok((result_context, attributes))
+                // rows without a match are extended with null values
+                let (left_null, right_null) = op.is_null();
+                let mut relations = join_context.relations;
+                for (index, relation) in relations.iter_mut().enumerate() {
+                    if (index < left_count && left_null) || (index >= left_count && right_null) {
+                        for attribute in &mut relation.attributes {
+                            attribute.is_null = true;
+                        }
+                    }
+                }
+
+                Ok(relations)
             }
         }
     }
 }
 
+impl JoinOperator {
+    // Can the columns of the left, and those of the right operand be null due to this join?
+    fn is_null(&self) -> (bool, bool) {
+        match self {
+            &JoinOperator::Cross => (false, false),
+            &JoinOperator::Join(ref typ) | &JoinOperator::Natural(ref typ) => match typ {
+                &JoinType::Inner => (false, false),
+                &JoinType::Left => (false, true),
+                &JoinType::Right => (true, false),
+                &JoinType::Full => (true, true),
+            },
+        }
+    }
+}
+
 impl SetSpecification {
     fn infer_type(&self, context: &ScalarContext) -> Result<RowType, Error> {
         match self {
-- 
2.43.0


From 30a816597a3b018d424381f9148ad2900e40bc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 29/50] fix: common table expressions could not be queried,
 ORDER BY could not refer to any column

---
 src/sql/ast/typing.rs | 95 ++++++++++++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 37 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index ff69db6..1054de2 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -135,6 +135,9 @@ pub struct ScalarContext<'a> {
     // the relations in scope, in order; their attributes can be accessed with and without
     // qualification
     relations: Vec<Relation>,
+
+    // result columns in scope; unless qualified, they take precedence over other attributes
+    result: Vec<Attribute>,
 }
 
 impl<'a> ScalarContext<'a> {
@@ -142,6 +145,7 @@ impl<'a> ScalarContext<'a> {
         ScalarContext {
             set_context,
             relations: Vec::new(),
+            result: Vec::new(),
         }
     }
 
@@ -183,6 +187,18 @@ impl<'a> ScalarContext<'a> {
     }
 
     fn infer_type(&self, qualified_name: &[symbols::Name]) -> Result<ScalarType, Error> {
+        if qualified_name.len() == 1 {
+            if let Some(attribute) = self.result
+                .iter()
+                .find(|attribute| attribute.name == qualified_name[0])
+            {
+                return Ok(ScalarType::Scalar {
+                    typ: attribute.typ,
+                    is_null: attribute.is_null,
+                });
+            }
+        }
+
         let (attribute_name, relations): (_, Vec<&Relation>) = match qualified_name.len() {
             1 => (&qualified_name[0], self.relations.iter().collect()),
             2 => match self.relation(&qualified_name[0]) {
@@ -778,7 +794,9 @@ where
     }
 }
 
+#[derive(Clone)]
 struct ObjectTypes(collections::BTreeMap<symbols::Name, RowType>);
+#[derive(Clone)]
 struct Namespaces(collections::BTreeMap<symbols::Name, ObjectTypes>);
 
 impl<T> From<T> for ObjectTypes
@@ -819,6 +837,7 @@ where
 
 /// A context of bindings used to evaluate a type; for set expressions, we are interested in bindings
 /// of identifiers for relations.
+#[derive(Clone)]
 pub struct SetContext {
     // need a reference to a database
     namespaces: Namespaces,
@@ -839,15 +858,7 @@ impl SetContext {
         }
     }
 
-    fn define_relation(&mut self, name: symbols::Name, typ: RowType) -> Result<(), Error> {
-        match self.table_expression.insert(name.clone(), typ) {
-            None => Ok(()),
-            Some(_) => Err(Error::from(format!(
-                "Duplicate name '{}' for common table expression",
-                name
-            ))),
-        }
-    }
+
 
     fn resolve_table_name<'b>(
         &'b self,
@@ -898,20 +909,22 @@ impl SetContext {
         }
     }
 
-    // Convenience function to construct SetContext from Database and iterator over common table expressions
-    fn initialize<'c, I>(
-        database: &schema::Database,
-        default_schema: symbols::Name,
-        cte: I,
-    ) -> Result<Self, Error>
-    where
-        I: iter::IntoIterator<Item = &'c CommonTableExpression>,
-    {
-        let mut result = Self::new(database, default_schema);
-
-        for item in cte {
+    // The context extended by common table expressions, each of which can refer to those before it;
+    // they hide those of an enclosing statement
+    fn with_common(&self, common: &[CommonTableExpression]) -> Result<Self, Error> {
+        let mut result = self.clone();
+        let mut names = collections::BTreeSet::new();
+
+        for item in common {
+            if !names.insert(&item.identifier) {
+                return Err(Error::from(format!(
+                    "Duplicate name '{}' for common table expression",
+                    item.identifier
+                )));
+            }
+
             let row_type = item.infer_type(&result)?;
-            result.define_relation(item.identifier.clone(), row_type)?;
+            result.table_expression.insert(item.identifier.clone(), row_type);
         }
 
         Ok(result)
@@ -920,6 +933,15 @@ impl SetContext {
 
 impl SetExpression {
     fn infer_type(&self, context: &SetContext) -> Result<RowType, Error> {
+        let (row_type, _) = self.infer_type_in_scope(context)?;
+        Ok(row_type)
+    }
+
+    // The row type, and the scope in which the result columns have been evaluated
+    fn infer_type_in_scope<'a>(
+        &self,
+        context: &'a SetContext,
+    ) -> Result<(RowType, ScalarContext<'a>), Error> {
         match self {
             &SetExpression::Values(ref rows) => {
                 let scalar_context = ScalarContext::new(context);
@@ -974,11 +996,12 @@ impl SetExpression {
                         )
                     })?;
 
-                Ok(RowType {
+                let row_type = RowType {
                     attributes: component_types,
                     primary_key: Vec::new(),
                     order_by: Vec::new(),
-                })
+                };
+                Ok((row_type, scalar_context))
             }
             &SetExpression::Query {
                 mode: _,
@@ -1043,7 +1066,8 @@ impl SetExpression {
                 };
 
                 // evaluate columns; the default columns should be passed into this function
-                columns.infer_type(&scalar_context, &attributes)
+                let row_type = columns.infer_type(&scalar_context, &attributes)?;
+                Ok((row_type, scalar_context))
             }
             &SetExpression::Op {
                 op: _,
@@ -1086,11 +1110,12 @@ impl SetExpression {
                     },
                 )?;
 
-                Ok(RowType {
+                let row_type = RowType {
                     attributes,
                     primary_key: Vec::new(),
                     order_by: Vec::new(),
-                })
+                };
+                Ok((row_type, ScalarContext::new(context)))
             }
         }
     }
@@ -1377,25 +1402,21 @@ impl Statement {
 
 impl SelectStatement {
     fn infer_type(&self, context: &SetContext) -> Result<RowType, Error> {
-        let mut scalar_context = ScalarContext::new(context);
-
-        // common table expression; validate type of each expression and build up a ScalarConext
-        for ref cte in &self.common {
-            let cte_type = cte.infer_type(context)?;
-            scalar_context.add_relation(Some(cte.identifier.clone()), cte_type.attributes)?;
-        }
+        // common table expression; validate type of each expression and make it available
+        let context = &context.with_common(&self.common)?;
 
         // set expression
-        let result_type = self.expr.infer_type(context)?;
+        let (result_type, mut scalar_context) = self.expr.infer_type_in_scope(context)?;
 
-        // order by
+        // order by; result columns take precedence over the columns they have been computed from
+        scalar_context.result = result_type.attributes.clone();
         for ref iter in &self.order_by {
             iter.validate_type(&scalar_context)?;
         }
 
         // limit
         if let &Some(ref limit) = &self.limit {
-            limit.validate_type(&scalar_context.set_context)?;
+            limit.validate_type(context)?;
         }
 
         Ok(result_type)
-- 
2.43.0


From 4ca92a0eb95d8cd763d9aa9070829468afe77d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:22 +0000
Subject: [PATCH 30/50] fix: a selected column lost its name, generated column
 names could be duplicates

---
 src/sql/ast/typing.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 1054de2..4d81d7b 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1125,21 +1125,17 @@ fn generate_column_name(
     name: &symbols::Name,
     generated_names: &mut collections::BTreeMap<symbols::Name, usize>,
 ) -> symbols::Name {
-    if generated_names.contains_key(name) {
-        let result = {
-            let counter = generated_names.entry(name.clone()).or_insert(0usize);
-            *counter += 1;
-            symbols::Name::from(format!("{}{}", name, *counter))
-        };
+    let mut result = name.clone();
 
-        generated_names.insert(result.clone(), 0usize);
-        result
-    } else {
-        // first time we see the key
-        let result = name.clone();
-        generated_names.insert(result.clone(), 0usize);
-        result
+    // append a number if we have seen the name before
+    while generated_names.contains_key(&result) {
+        let counter = generated_names.entry(name.clone()).or_insert(0usize);
+        *counter += 1;
+        result = symbols::Name::from(format!("{}{}", name, *counter));
     }
+
+    generated_names.insert(result.clone(), 0usize);
+    result
 }
 
 impl ResultColumns {
@@ -1188,9 +1184,12 @@ impl ResultColumns {
                             return Err(Error::from("Result column needs to be a scalar type"))
                         }
                         ScalarType::Scalar { typ, is_null } => {
-                            let name = match alias {
-                                &None => symbols::Name::from("col"),
-                                &Some(ref name) => name.clone(),
+                            let name = match (alias, &**expr) {
+                                (&Some(ref name), _) => name.clone(),
+                                (&None, &Expression::QualifiedIdentifier(ref path)) => {
+                                    path.last().unwrap().clone()
+                                }
+                                (&None, _) => symbols::Name::from("col"),
                             };
                             result_attributes.push(Attribute {
                                 name: generate_column_name(&name, &mut generated_columns),
-- 
2.43.0


From 1e168169dd619b91bdd7cd715b90db295bbd277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:24 +0000
Subject: [PATCH 31/50] fix: INSERT without columns looked for generated value
 names in the table

---
 src/sql/ast/typing.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 4d81d7b..24e9358 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1436,27 +1436,24 @@ impl InsertStatement {
 
         match &self.columns {
             &None => {
+                // values are assigned to the columns of the table in their order
+                if row_type.attributes.len() != values_type.attributes.len() {
+                    return Err(Error::from(
+                        "Length mismatch between columns of the table and value set provided",
+                    ));
+                }
+
                 // iterate over the value attriute types, and verify that the
                 // associated type can be assigned to the corresponding column of the table row
-                for ref attribute in &values_type.attributes {
-                    match &row_type_map.get(&attribute.name) {
-                        &None => {
-                            return Err(Error::from(format!(
-                                "Column '{}' not defined in table '{:?}'",
-                                &attribute.name, &self.table_name
-                            )))
-                        }
-                        &Some(&(ref typ, ref is_null)) => {
-                            if *typ != attribute.typ || (!*is_null && attribute.is_null) {
-                                return Err(Error::from(format!(
-                                    "Cannot assign value '{}' to column '{}'",
-                                    attribute.name, attribute.name
-                                )));
-                            }
-                        }
+                for (attribute, column) in values_type.attributes.iter().zip(&row_type.attributes) {
+                    if !attribute.is_assignable_to(column) {
+                        return Err(Error::from(format!(
+                            "Cannot assign value '{}' to column '{}'",
+                            attribute.name, column.name
+                        )));
                     }
 
-                    row_type_map.remove(&attribute.name);
+                    row_type_map.remove(&column.name);
                 }
             }
             &Some(ref columns) => {
-- 
2.43.0


From bf9f014e545268f2e7e7bb22905bfc83bd47b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 32/50] fix: common table expressions of INSERT, UPDATE and
 DELETE were dropped

---
 src/sql/ast/mod.rs     |  9 +++++++++
 src/sql/ast/typing.rs  |  8 +++++---
 src/sql/parser.lalrpop | 12 ++++++------
 src/sql/parser.rs      | 14 +++++++-------
 4 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/sql/ast/mod.rs b/src/sql/ast/mod.rs
index c6ec8d7..7f1a08d 100644
--- a/src/sql/ast/mod.rs
+++ b/src/sql/ast/mod.rs
@@ -61,6 +61,9 @@ pub enum Statement {
 
 /// Representation of an insert statement
 pub struct InsertStatement {
+    /// 0 or more comon table expressions, that can be referenced by the statement
+    pub common: Vec<CommonTableExpression>,
+
     /// the name of the table into which we want to insert new values
     pub table_name: Vec<symbols::Name>,
 
@@ -104,6 +107,9 @@ pub struct SelectStatement {
 
 /// Represenatation of a delete statement
 pub struct DeleteStatement {
+    /// 0 or more comon table expressions, that can be referenced by the statement
+    pub common: Vec<CommonTableExpression>,
+
     /// the name of the table from which rows should be deleted
     pub table_name: Vec<symbols::Name>,
 
@@ -113,6 +119,9 @@ pub struct DeleteStatement {
 
 /// Representation of an update statement
 pub struct UpdateStatement {
+    /// 0 or more comon table expressions, that can be referenced by the statement
+    pub common: Vec<CommonTableExpression>,
+
     /// the qualified table name
     pub table_name: Vec<symbols::Name>,
 
diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 24e9358..5538e67 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1432,7 +1432,7 @@ impl InsertStatement {
                 .map(|attribute| (attribute.name.clone(), (attribute.typ, attribute.is_null)))
                 .collect();
 
-        let values_type = self.source.infer_type(&context)?;
+        let values_type = self.source.infer_type(&context.with_common(&self.common)?)?;
 
         match &self.columns {
             &None => {
@@ -1514,7 +1514,8 @@ impl UpdateStatement {
             .collect();
 
         let identifier = self.table_name.last().unwrap().clone();
-        let mut scalar_context = ScalarContext::new(&context);
+        let common_context = context.with_common(&self.common)?;
+        let mut scalar_context = ScalarContext::new(&common_context);
 
         scalar_context.add_relation(Some(identifier), row_type.attributes.clone())?;
         let mut assigned_columns = collections::BTreeSet::new();
@@ -1576,7 +1577,8 @@ impl DeleteStatement {
         // validate that the table name exists in the schema. If not => error
         let row_type = context.resolve_table_name(&self.table_name)?;
         let identifier = self.table_name.last().unwrap().clone();
-        let mut scalar_context = ScalarContext::new(&context);
+        let common_context = context.with_common(&self.common)?;
+        let mut scalar_context = ScalarContext::new(&common_context);
         scalar_context.add_relation(Some(identifier), row_type.attributes.clone())?;
 
         match &self.where_expr {
diff --git a/src/sql/parser.lalrpop b/src/sql/parser.lalrpop
index c8bc9f4..d9bf6d7 100644
--- a/src/sql/parser.lalrpop
+++ b/src/sql/parser.lalrpop
@@ -149,8 +149,8 @@ Statement: ast::Statement = {
 };
 
 InsertStatement: ast::InsertStatement = {
-    TableExpressions? "INSERT" "INTO" <table_name:QualifiedIdentifier> <columns:ColumnNameList?> <source:SelectCore> =>
-        ast::InsertStatement { table_name, columns, source }, 
+    <common:TableExpressions?> "INSERT" "INTO" <table_name:QualifiedIdentifier> <columns:ColumnNameList?> <source:SelectCore> =>
+        ast::InsertStatement { common: common.unwrap_or(Vec::new()), table_name, columns, source }, 
 };
 
 ColumnNameList: Vec<symbols::Name> = {
@@ -158,14 +158,14 @@ ColumnNameList: Vec<symbols::Name> = {
 };
 
 DeleteStatement: ast::DeleteStatement = {
-    TableExpressions? "DELETE" "FROM" <table_name:QualifiedIdentifier> <where_expr:WhereClause?> =>
-        ast::DeleteStatement { table_name, where_expr },
+    <common:TableExpressions?> "DELETE" "FROM" <table_name:QualifiedIdentifier> <where_expr:WhereClause?> =>
+        ast::DeleteStatement { common: common.unwrap_or(Vec::new()), table_name, where_expr },
 };
 
 UpdateStatement: ast::UpdateStatement = {
-    TableExpressions? "UPDATE" <table_name:QualifiedIdentifier> 
+    <common:TableExpressions?> "UPDATE" <table_name:QualifiedIdentifier> 
     "SET" <assignments: Assignments> <where_expr:WhereClause?> =>
-        ast::UpdateStatement { table_name, assignments, where_expr },
+        ast::UpdateStatement { common: common.unwrap_or(Vec::new()), table_name, assignments, where_expr },
 };
 
 Assignments: Vec<ast::Assignment> = {
diff --git a/src/sql/parser.rs b/src/sql/parser.rs
index 8562621..f907c8f 100644
--- a/src/sql/parser.rs
+++ b/src/sql/parser.rs
@@ -1,5 +1,5 @@
 // auto-generated: "lalrpop 0.19.8"
-// sha3: f07b7b47a234d3ec455d58d940e87f91caed3ef7e8b156e9294fa4968754242f
+// sha3: 6a5abd6a99aa97d6cfe7663950e3942f23a6d1e35ab9dc257b11578c550a8de7
 use super::ast;
 use super::symbols;
 #[allow(unused_extern_crates)]
@@ -7638,7 +7638,7 @@ fn __action9<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, common, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
@@ -7646,7 +7646,7 @@ fn __action9<
     (_, source, _): (usize, Box<ast::SetExpression>, usize),
 ) -> ast::InsertStatement
 {
-    ast::InsertStatement { table_name, columns, source }
+    ast::InsertStatement { common: common.unwrap_or(Vec::new()), table_name, columns, source }
 }
 
 #[allow(unused_variables)]
@@ -7667,14 +7667,14 @@ fn __action11<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, common, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
     (_, where_expr, _): (usize, core::option::Option<Box<ast::Expression>>, usize),
 ) -> ast::DeleteStatement
 {
-    ast::DeleteStatement { table_name, where_expr }
+    ast::DeleteStatement { common: common.unwrap_or(Vec::new()), table_name, where_expr }
 }
 
 #[allow(unused_variables)]
@@ -7682,7 +7682,7 @@ fn __action12<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, common, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
     (_, _, _): (usize, &'input str, usize),
@@ -7690,7 +7690,7 @@ fn __action12<
     (_, where_expr, _): (usize, core::option::Option<Box<ast::Expression>>, usize),
 ) -> ast::UpdateStatement
 {
-    ast::UpdateStatement { table_name, assignments, where_expr }
+    ast::UpdateStatement { common: common.unwrap_or(Vec::new()), table_name, assignments, where_expr }
 }
 
 #[allow(unused_variables)]
-- 
2.43.0


From 359d9cf14068e35932c805b3be9023c38d69ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 33/50] fix: a catalog could not be saved as its keys are
 structures

---
 src/sql/symbols.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sql/symbols.rs b/src/sql/symbols.rs
index b76e8f6..cf9cdc7 100644
--- a/src/sql/symbols.rs
+++ b/src/sql/symbols.rs
@@ -23,7 +23,9 @@
 use std::cmp::{Eq, Ord, Ordering, PartialEq, PartialOrd};
 use std::fmt;
 
+/// An identifier; serialized as plain string, such that it can be used as key of a map
 #[derive(Serialize, Deserialize, Clone, Debug)]
+#[serde(transparent)]
 pub struct Name {
     string: String,
 }
-- 
2.43.0


From d02995d891b2fb4a534cb627c6dfc7f789012178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 34/50] hook: open the SQL modules to conformance checks

---
 src/sql/ast/typing.rs | 23 +++++++++++++++++++++++
 src/sql/mod.rs        | 17 +++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 5538e67..dad6482 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1680,3 +1680,26 @@ impl CommonTableExpression {
         }
     }
 }
+
+// Access for conformance checks
+#[cfg(cathlamet_verif)]
+impl SetContext {
+    pub fn verif_new(database: &schema::Database, default_schema: symbols::Name) -> Self {
+        SetContext::new(database, default_schema)
+    }
+}
+
+#[cfg(cathlamet_verif)]
+impl SelectStatement {
+    /// name, type and nullability of each column, in order
+    pub fn verif_columns(
+        &self,
+        context: &SetContext,
+    ) -> Result<Vec<(String, types::DataType, bool)>, Error> {
+        Ok(self.infer_type(context)?
+            .attributes
+            .iter()
+            .map(|attribute| (attribute.name.to_string(), attribute.typ, attribute.is_null))
+            .collect())
+    }
+}
diff --git a/src/sql/mod.rs b/src/sql/mod.rs
index 443a2d3..87e4a6f 100644
--- a/src/sql/mod.rs
+++ b/src/sql/mod.rs
@@ -22,12 +22,29 @@
 
 //! `sql` provides a SQL front-end implementation.
 
+#[cfg(not(cathlamet_verif))]
 mod ast;
+#[cfg(not(cathlamet_verif))]
 mod schema;
+#[cfg(not(cathlamet_verif))]
 mod types;
+#[cfg(not(cathlamet_verif))]
 mod parser;
+#[cfg(not(cathlamet_verif))]
 mod symbols;
 
+// conformance checks look into these modules
+#[cfg(cathlamet_verif)]
+pub mod ast;
+#[cfg(cathlamet_verif)]
+pub mod schema;
+#[cfg(cathlamet_verif)]
+pub mod types;
+#[cfg(cathlamet_verif)]
+pub mod parser;
+#[cfg(cathlamet_verif)]
+pub mod symbols;
+
 /// A simple error type for this library
 pub struct Error {
     message: String,
-- 
2.43.0


From 1b1ac6f4e93bbab49eaf3704644f21818a006749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 35/50] fix: a buffer pool could not be created as the first
 buffer has no predecessor

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index cd8ef59..41a27d7 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -812,7 +812,7 @@ impl BufferPool {
 
         // chain all buffers into a single list
         for index in 0 .. num_buffers {
-            buffers[index].link.prev = (index - 1) as BufferIndex;
+            buffers[index].link.prev = (index as BufferIndex).wrapping_sub(1);
             buffers[index].link.next = (index + 1) as BufferIndex;
         }
 
-- 
2.43.0


From 23ad0359612ba00e16d260e228727f8d9f8ce940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 36/50] fix: buffers in use stayed in the list of available
 buffers

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 41a27d7..a225159 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -942,7 +942,7 @@ impl BufferPool {
                         let buffers = &mut internal.buffers;
                         available_buffers.list_remove(buffers, index);
 
-                        let in_use_buffers = &mut internal.available_buffers;
+                        let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
                         internal.mapped_locations.insert(location, index as usize);
-- 
2.43.0


From 7cbf6b63258837152a87ee97a99b210b3e9b0397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 37/50] fix: a recycled buffer remained mapped to its previous
 location

---
 src/storage/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index a225159..3ebd53f 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -945,6 +945,13 @@ impl BufferPool {
                         let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
+                        // the buffer no longer represents its previous location
+                        if buffers[index as usize].mapped {
+                            internal.mapped_locations.remove(&buffers[index as usize].location);
+                        }
+
+                        buffers[index as usize].location = location;
+                        buffers[index as usize].mapped = true;
                         internal.mapped_locations.insert(location, index as usize);
 
                         assert!(buffers[index as usize].access.is_none());
-- 
2.43.0


From bf366b56b7c2acba00f9b2e999c16d8071b66b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 38/50] fix: a mapped buffer lost its content and kept its
 place among idle buffers on renewed access

---
 src/storage/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 3ebd53f..1cfc200 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -978,8 +978,20 @@ impl BufferPool {
                     }
                 },
                 Some(&index) => {
+                    let dirty = internal.buffers[index as usize].dirty;
+
                     match &mut internal.buffers[index as usize].access {
                         &mut None => {
+                            // the buffer is idle; hence, it is either dirty or available
+                            let buffers = &mut internal.buffers;
+                            let idle_buffers = if dirty {
+                                &mut internal.dirty_buffers
+                            } else {
+                                &mut internal.available_buffers
+                            };
+                            idle_buffers.list_remove(buffers, index as BufferIndex);
+                            internal.in_use_buffers.list_push_front(buffers, index as BufferIndex);
+
                             let read_write_locks = &mut internal.read_write_locks;
                             let lock = BufferPoolMapping::alloc_lock(read_write_locks);
                             let lock_ptr = (&*lock) as *const async_std::sync::RwLock<()>;
@@ -989,12 +1001,9 @@ impl BufferPool {
                                     lock,
                                     num_handles: 1
                                 });
-                            
-                            let init_lock = unsafe {
-                                (*lock_ptr).try_write().unwrap()
-                            };
 
-                            break (index, lock_ptr, Some(init_lock));
+                            // the buffer holds the content of this location already
+                            break (index, lock_ptr, None);
                         },
                         &mut Some(ref mut access) => {
                             let lock_ptr = (&*access.lock) as *const async_std::sync::RwLock<()>;
-- 
2.43.0


From afe9ae3589db6a7380705a2c9cfeddc8ceddfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 39/50] fix: locks of buffers were recycled while they were
 still held

---
 src/storage/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 1cfc200..9c9a9b0 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1019,8 +1019,7 @@ impl BufferPool {
 
     // Return a read-only handle
     async fn release_read_only<'a>(&'a self, buffer_index: usize) {
-        // because the handle still holds the lock, we are still preventing exclusive
-        // write access to this buffer
+        // because the handle is still counted, the buffer remains in use until we are done
 
         let internal = &mut *self.mapping.lock().await;
 
@@ -1079,8 +1078,7 @@ impl BufferPool {
 
     // Return a read-write handle
     async fn release_read_write<'a>(&'a self, buffer_index: usize) {
-        // because the handle still holds the lock, we still have exclusive access to
-        // this buffer
+        // because the handle is still counted, the buffer remains in use until we are done
         let internal = &mut *self.mapping.lock().await;
 
         let BufferAccess { lock, num_handles: _ } = {
@@ -1244,8 +1242,9 @@ impl <'a> ReadOnlyBufferHandle<'a> {
             panic!("Buffer handle has been released already")
         }
 
-        self.pool.release_read_only(self.buffer_index).await;
+        // give up the lock first, as the last handle returns it for use with another buffer
         self.guard.take();
+        self.pool.release_read_only(self.buffer_index).await;
     }
 }
 
@@ -1286,8 +1285,9 @@ impl <'a> ReadWriteBufferHandle<'a> {
             panic!("Buffer handle has been released already")
         }
 
-        self.pool.release_read_write(self.buffer_index).await;
+        // give up the lock first, as the last handle returns it for use with another buffer
         self.guard.take();
+        self.pool.release_read_write(self.buffer_index).await;
     }
 }
 
-- 
2.43.0


From 09798a4d9d40f55f73a3a47d9b5086fa170139e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 40/50] fix: requests waiting for a buffer missed that their
 location became available

---
 src/storage/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 9c9a9b0..22b92cb 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -954,6 +954,9 @@ impl BufferPool {
                         buffers[index as usize].mapped = true;
                         internal.mapped_locations.insert(location, index as usize);
 
+                        // others that have been waiting for this location can share the buffer
+                        self.buffer_available.notify_all();
+
                         assert!(buffers[index as usize].access.is_none());
 
                         let read_write_locks = &mut internal.read_write_locks;
-- 
2.43.0


From 109dcadaa53e92b3fad2c263ae84a7bdff78417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 41/50] fix: running out of volume identifiers panicked

---
 src/storage/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 22b92cb..4c5bec2 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -380,13 +380,13 @@ impl VolumeManager {
     // generate an internal identifier for the volume to create or attach
     fn next_volume(&mut self) -> errors::Result<VolumeIndex> {
         let current = self.next_volume;
-        let next = current.0 + 1;
 
-        if next < current.0 {
-            Err("Cannot allocate more internal volume identifiers".into())
-        } else {
-            self.next_volume = VolumeIndex(next);
-            Ok(current)
+        match current.0.checked_add(1) {
+            None => Err("Cannot allocate more internal volume identifiers".into()),
+            Some(next) => {
+                self.next_volume = VolumeIndex(next);
+                Ok(current)
+            }
         }
     }
 
-- 
2.43.0


From 863149f20af5760cc1d58f73d8b6c575256cd0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 42/50] fix: default volume parameters doubled the default
 block size

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 4c5bec2..69ff3b5 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -200,7 +200,7 @@ pub struct VolumeParameters {
 
 impl VolumeParameters {
     pub fn new_with_defaults(volume_size: u64) -> VolumeParameters {
-        const LOG_BLOCK_SIZE: u64 = (32 - (DEFAULT_VOLUME_BLOCK_SIZE as u32).leading_zeros()) as u64;
+        const LOG_BLOCK_SIZE: u64 = (31 - (DEFAULT_VOLUME_BLOCK_SIZE as u32).leading_zeros()) as u64;
 
         let block_size = 1u64 << LOG_BLOCK_SIZE;
 
-- 
2.43.0


From fe7c05b6170237b800a97dbb9264fe508213168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 43/50] fix: volume header and file headers did not fill the
 slices they were copied to

---
 src/storage/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 69ff3b5..bef568a 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -295,7 +295,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
 
     unsafe {
         let file_header_slice = crate::common::any_as_u8_slice(&file_header);
-        buffer.copy_from_slice(&file_header_slice);
+        buffer[..file_header_slice.len()].copy_from_slice(&file_header_slice);
     }
 
     // append file name
@@ -309,7 +309,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
         let name_length_pointer = attribute_slice.as_mut_ptr().add(std::mem::size_of::<u16>());
         assert!(filename.len() <= u8::MAX as usize);
         *name_length_pointer = filename.len() as u8;
-        let name_slice = &mut buffer[offset + 3..];
+        let name_slice = &mut buffer[offset + 3..offset + 3 + filename.len()];
         name_slice.copy_from_slice(filename.as_bytes());
         offset = offset + 3 + filename.len();
     }
@@ -468,7 +468,7 @@ impl VolumeManager {
 
             unsafe {
                 let header_data = crate::common::any_as_u8_slice(&volume_header_copy);
-                buffer.copy_from_slice(header_data);
+                buffer[..header_data.len()].copy_from_slice(header_data);
             }
 
             handle.release().await;
-- 
2.43.0


From eeae313867e8e5bf602d675e23816b5844685133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 44/50] fix: the sub-second part of time stamps was required to
 be divisible by its upper bits

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index bef568a..5d327f2 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -278,7 +278,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
     let seconds = now.as_secs();
     let nanos = now.subsec_nanos(); 
     // subsec_nanos should return a 30 bit value
-    assert!(nanos & 0xC000 == 0);
+    assert!(nanos & 0xC000_0000 == 0);
     let timestamp = (seconds << 16) | (nanos as u64 >> 14);
 
     let file_header = FileHeader {
-- 
2.43.0


From 0108f47a979f187a970a5c54fd250d39f7793395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 45/50] fix: extents of files were written far behind their
 list

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 5d327f2..6d19272 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -326,7 +326,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
             let list_length_pointer = attribute_slice.as_mut_ptr().add(std::mem::size_of::<u16>()) as *mut u16;
             *list_length_pointer = 1u16;
             let extent_offset = utils::align_usize(offset + std::mem::size_of::<u16>() * 2, std::mem::size_of::<u32>());
-            let extent_pointer = attribute_slice.as_mut_ptr().add(extent_offset) as *mut Extent;
+            let extent_pointer = buffer.as_mut_ptr().add(extent_offset) as *mut Extent;
             *extent_pointer = initial_extent;
             offset = extent_offset + std::mem::size_of::<Extent>();
         },
-- 
2.43.0


From ae105601f103a1faeeb0746f71cf083614f38b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 46/50] fix: the allocation bitmap overlapped the file table
 mirror

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 6d19272..03bc08b 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -401,7 +401,7 @@ impl VolumeManager {
         let file_table_blocks = (file_table_size + block_size - 1) / block_size;
         let file_table_mirror_offset = file_table_offset + (file_table_blocks * block_size) as u64;
         // the file table mirror has the same size as the file table offset
-        let allocation_bitmap_offset = file_table_mirror_offset + file_table_blocks as u64;
+        let allocation_bitmap_offset = file_table_mirror_offset + (file_table_blocks * block_size) as u64;
 
         // should hold, because we require the volume size to be an integer multiple of the block size
         assert!(parameters.volume_size % block_size == 0);
-- 
2.43.0


From 365b6eddc85102b884f7c01eff69e6da629aed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 47/50] fix: the allocation bitmap marked taken and missing
 blocks as free

---
 src/storage/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 03bc08b..88817c8 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -575,17 +575,19 @@ impl VolumeManager {
                     const ALL_ONES: u128 = !0u128;
                     
                     let mask_left = 
-                        if total_allocated_blocks >= bit_index  && 
-                            total_allocated_blocks < bit_index + bits_per_word {
+                        if total_allocated_blocks >= bit_index + bits_per_word {
+                            0
+                        } else if total_allocated_blocks >= bit_index {
                             ALL_ONES << (total_allocated_blocks - bit_index) as u32
                         } else {
                             ALL_ONES
                         };
 
                     let mask_right = 
-                        if allocation_bitmap_size_bits >= bit_index  && 
-                        allocation_bitmap_size_bits < bit_index + bits_per_word {
-                            ALL_ONES >> (allocation_bitmap_size_bits - bit_index) as u32
+                        if allocation_bitmap_size_bits <= bit_index {
+                            0
+                        } else if allocation_bitmap_size_bits < bit_index + bits_per_word {
+                            ALL_ONES >> (bits_per_word - (allocation_bitmap_size_bits - bit_index)) as u32
                         } else {
                             ALL_ONES
                         };
-- 
2.43.0


From d691dfc73320e6d4556ee021b5f9d230c5a87dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 48/50] hook: open the storage module to conformance checks

---
 src/storage/mod.rs   |  25 ++++++
 src/storage/verif.rs | 190 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 215 insertions(+)
 create mode 100644 src/storage/verif.rs

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 88817c8..eb78e7a 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -27,6 +27,10 @@ use super::errors;
 
 mod utils;
 
+// conformance checks
+#[cfg(cathlamet_verif)]
+pub mod verif;
+
 // Magic number used to identify a valid volume header block
 const VOLUME_HEADER_FORMAT_MAGIC: u32 = 0xCA78;
 
@@ -636,6 +640,10 @@ impl VolumeManager {
 
     // Write buffer contents to external storage
     async fn fetch(&self, location: Location, buffer: &mut[u8]) -> std::io::Result<()> {
+        #[cfg(cathlamet_verif)]
+        return verif::fetch(location, buffer).await;
+
+        #[cfg(not(cathlamet_verif))]
         unimplemented!()
     }
 
@@ -862,6 +870,9 @@ impl BufferPool {
     async fn access_read_only<'a>(&'a self, location: Location) -> ReadOnlyBufferHandle<'a> {
         let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
 
+        #[cfg(cathlamet_verif)]
+        verif::pause().await;
+
         let guard = match init_lock {
             None => unsafe {
                 (*lock_ptr).read().await
@@ -886,6 +897,9 @@ impl BufferPool {
     async fn access_read_write<'a>(&'a self, location: Location) -> ReadWriteBufferHandle<'a> {
         let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
 
+        #[cfg(cathlamet_verif)]
+        verif::pause().await;
+
         let guard = match init_lock {
             None => unsafe {
                 (*lock_ptr).write().await
@@ -910,6 +924,9 @@ impl BufferPool {
     async fn access_initialize<'a>(&'a self, location: Location) -> ReadWriteBufferHandle<'a> {
         let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
 
+        #[cfg(cathlamet_verif)]
+        verif::pause().await;
+
         let guard = match init_lock {
             None => unsafe {
                 (*lock_ptr).write().await
@@ -1249,6 +1266,10 @@ impl <'a> ReadOnlyBufferHandle<'a> {
 
         // give up the lock first, as the last handle returns it for use with another buffer
         self.guard.take();
+
+        #[cfg(cathlamet_verif)]
+        verif::pause().await;
+
         self.pool.release_read_only(self.buffer_index).await;
     }
 }
@@ -1292,6 +1313,10 @@ impl <'a> ReadWriteBufferHandle<'a> {
 
         // give up the lock first, as the last handle returns it for use with another buffer
         self.guard.take();
+
+        #[cfg(cathlamet_verif)]
+        verif::pause().await;
+
         self.pool.release_read_write(self.buffer_index).await;
     }
 }
diff --git a/src/storage/verif.rs b/src/storage/verif.rs
new file mode 100644
index 0000000..e8ade60
--- /dev/null
+++ b/src/storage/verif.rs
@@ -0,0 +1,190 @@
+//! Access for conformance checks, only compiled with `cfg(cathlamet_verif)`: a stand-in for the
+//! backing store, points at which a schedule can switch between clients, and wrappers for
+//! private items.
+
+use super::*;
+
+use std::future::Future;
+use std::path::Path;
+use std::pin::Pin;
+use std::sync::{Arc, RwLock};
+use std::task::{Context, Poll};
+
+/// The stand-in for the backing store: called with volume index, offset, and the buffer to be
+/// filled, first when the transfer begins (false) and then when it ends (true)
+pub type Store = fn(u8, u64, &mut [u8], bool);
+
+/// Called at each point where a client can be interrupted; the client gives way if the result is
+/// true
+pub type Pause = fn() -> bool;
+
+static STORE: RwLock<Option<(Store, Pause)>> = RwLock::new(None);
+
+pub fn set_store(store: Store, pause: Pause) {
+    *STORE.write().unwrap() = Some((store, pause));
+}
+
+struct Yield(bool);
+
+impl Future for Yield {
+    type Output = ();
+
+    fn poll(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Poll<()> {
+        if self.0 {
+            self.0 = false;
+            context.waker().wake_by_ref();
+            Poll::Pending
+        } else {
+            Poll::Ready(())
+        }
+    }
+}
+
+fn store() -> Option<(Store, Pause)> {
+    *STORE.read().unwrap()
+}
+
+pub(super) async fn pause() {
+    let give_way = store().map_or(false, |(_, pause)| pause());
+    Yield(give_way).await
+}
+
+pub(super) async fn fetch(location: Location, buffer: &mut [u8]) -> std::io::Result<()> {
+    let VolumeIndex(index) = location.index();
+    let (store, _) = store().expect("no backing store");
+    store(index, location.offset(), buffer, false);
+    pause().await;
+    store(index, location.offset(), buffer, true);
+    pause().await;
+    Ok(())
+}
+
+pub struct Pool {
+    // the pool refers to the store by a weak reference
+    _store: Arc<VolumeManager>,
+    pool: Arc<BufferPool>,
+}
+
+pub enum Handle<'a> {
+    ReadOnly(ReadOnlyHandle<'a>),
+    ReadWrite(ReadWriteHandle<'a>),
+}
+
+pub struct ReadOnlyHandle<'a>(ReadOnlyBufferHandle<'a>);
+pub struct ReadWriteHandle<'a>(ReadWriteBufferHandle<'a>);
+
+impl Pool {
+    pub fn new(buffer_size: usize, num_buffers: usize) -> std::io::Result<Pool> {
+        let mut pool = BufferPool::new(buffer_size, num_buffers)?;
+        let store = Arc::new(VolumeManager::new(&pool));
+        pool.set_backing_store(&store);
+        Ok(Pool {
+            _store: store,
+            pool: Arc::new(pool),
+        })
+    }
+
+    pub fn total_size(&self) -> usize {
+        self.pool.total_size()
+    }
+
+    /// address of the first buffer
+    pub fn base(&self) -> usize {
+        self.pool.memory.as_ptr() as usize
+    }
+
+    pub async fn read_only<'a>(&'a self, volume: u8, offset: u64) -> Handle<'a> {
+        let location = Location::new(VolumeIndex(volume), offset);
+        Handle::ReadOnly(ReadOnlyHandle(self.pool.access_read_only(location).await))
+    }
+
+    pub async fn read_write<'a>(&'a self, volume: u8, offset: u64) -> Handle<'a> {
+        let location = Location::new(VolumeIndex(volume), offset);
+        Handle::ReadWrite(ReadWriteHandle(self.pool.access_read_write(location).await))
+    }
+
+    pub async fn initialize<'a>(&'a self, volume: u8, offset: u64) -> Handle<'a> {
+        let location = Location::new(VolumeIndex(volume), offset);
+        Handle::ReadWrite(ReadWriteHandle(self.pool.access_initialize(location).await))
+    }
+}
+
+impl<'a> Handle<'a> {
+    pub fn bytes(&self) -> &[u8] {
+        match self {
+            Handle::ReadOnly(handle) => handle.0.buffer_ref(),
+            Handle::ReadWrite(handle) => handle.0.buffer_ref(),
+        }
+    }
+
+    pub fn bytes_mut(&mut self) -> &mut [u8] {
+        match self {
+            Handle::ReadOnly(_) => panic!("not for writing"),
+            Handle::ReadWrite(handle) => handle.0.buffer_mut(),
+        }
+    }
+
+    pub async fn release(mut self) {
+        match &mut self {
+            Handle::ReadOnly(handle) => handle.0.release().await,
+            Handle::ReadWrite(handle) => handle.0.release().await,
+        }
+    }
+}
+
+pub struct Volumes(VolumeManager);
+
+impl Volumes {
+    pub fn new(pool: &Pool) -> Volumes {
+        let mut volumes = VolumeManager::new(&pool.pool);
+        volumes.set_buffer_pool(&pool.pool);
+        Volumes(volumes)
+    }
+
+    pub fn next_volume(&mut self) -> Result<u8, String> {
+        match self.0.next_volume() {
+            Ok(VolumeIndex(index)) => Ok(index),
+            Err(error) => Err(error.to_string()),
+        }
+    }
+
+    pub async fn create(&mut self, path: &Path, parameters: &VolumeParameters) -> std::io::Result<u8> {
+        let VolumeIndex(index) = self.0.create(path, parameters).await?;
+        Ok(index)
+    }
+}
+
+/// A location, and what it says about itself
+#[derive(Debug, Copy, Clone, Ord, Eq, PartialEq, PartialOrd)]
+pub struct Place(Location);
+
+impl Place {
+    pub fn new(volume: u8, offset: u64) -> Place {
+        Place(Location::new(VolumeIndex(volume), offset))
+    }
+
+    pub fn volume(&self) -> u8 {
+        self.0.index().0
+    }
+
+    pub fn offset(&self) -> u64 {
+        self.0.offset()
+    }
+}
+
+pub fn file_blocks(file_size: u64, block_size: u64) -> u64 {
+    utils::calc_file_blocks(file_size, block_size)
+}
+
+/// The value rounded up by the function for values of the given number of bits, 0 for usize
+pub fn align(bits: u32, value: u128, alignment: u128) -> u128 {
+    match bits {
+        0 => utils::align_usize(value as usize, alignment as usize) as u128,
+        8 => utils::align_u8(value as u8, alignment as u8) as u128,
+        16 => utils::align_u16(value as u16, alignment as u16) as u128,
+        32 => utils::align_u32(value as u32, alignment as u32) as u128,
+        64 => utils::align_u64(value as u64, alignment as u64) as u128,
+        128 => utils::align_u128(value, alignment),
+        _ => panic!("no such type"),
+    }
+}
-- 
2.43.0


From 504e5f7af0c066f0d5cffa4861d74f9f22ee31b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 49/50] fix: rounding up overflowed although the result fits

---
 src/storage/utils.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/storage/utils.rs b/src/storage/utils.rs
index 4911859..f0fb215 100644
--- a/src/storage/utils.rs
+++ b/src/storage/utils.rs
@@ -21,29 +21,29 @@
 // SOFTWARE.
 
 pub (crate) fn calc_file_blocks(file_size: u64, block_size: u64) -> u64 {
-    (file_size + block_size - 1) / block_size
+    file_size / block_size + (file_size % block_size != 0) as u64
 }
 
 pub (crate) fn align_usize(value: usize, alignment: usize) -> usize {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u8(value: u8, alignment: u8) -> u8 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u16(value: u16, alignment: u16) -> u16 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u32(value: u32, alignment: u32) -> u32 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u64(value: u64, alignment: u64) -> u64 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u128(value: u128, alignment: u128) -> u128 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
\ No newline at end of file
-- 
2.43.0


From 9949be2f855176e373a792d3b83a7d2025739d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 50/50] storage hook: the address of the memory is not needed

---
 src/storage/verif.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/storage/verif.rs b/src/storage/verif.rs
index e8ade60..43fb3cd 100644
--- a/src/storage/verif.rs
+++ b/src/storage/verif.rs
@@ -88,11 +88,6 @@ impl Pool {
         self.pool.total_size()
     }
 
-    /// address of the first buffer
-    pub fn base(&self) -> usize {
-        self.pool.memory.as_ptr() as usize
-    }
-
     pub async fn read_only<'a>(&'a self, volume: u8, offset: u64) -> Handle<'a> {
         let location = Location::new(VolumeIndex(volume), offset);
         Handle::ReadOnly(ReadOnlyHandle(self.pool.access_read_only(location).await))
-- 
2.43.0


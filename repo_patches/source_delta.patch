From 49f4d31d922120e09b565beb18f99c168f7cd024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 01/60] fix: decode two-digit hex escapes in strings from the
 right bytes

---
 protospec-build/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 29f5e9c..d958339 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -213,7 +213,6 @@ impl Token {
                         i += 1;
                         if input[i].is_ascii_hexdigit() {
                             if i < input.len() - 1 && input[i + 1].is_ascii_hexdigit() {
-                                i += 1;
                                 out.push(
                                     u8::from_str_radix(
                                         std::str::from_utf8(&input[i..i + 2]).unwrap(),
@@ -221,6 +220,7 @@ impl Token {
                                     )
                                     .unwrap(),
                                 );
+                                i += 1;
                             } else {
                                 out.push(
                                     u8::from_str_radix(
-- 
2.43.0


From 1101dab17049cad8a1ba9ade307ef953a9707950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 02/60] fix: token spans report the line and column the token
 is at

---
 protospec-build/src/tokenizer.rs | 49 ++++++++++++--------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index d958339..4cb06a3 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -493,27 +493,15 @@ impl std::ops::Add for Span {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        if self.line_start == other.line_stop {
-            Span {
-                line_start: self.line_start,
-                line_stop: self.line_stop,
-                col_start: self.col_start.min(other.col_start),
-                col_stop: self.col_stop.max(other.col_stop),
-            }
-        } else if self.line_start < other.line_start {
-            Span {
-                line_start: self.line_start,
-                line_stop: other.line_stop,
-                col_start: self.col_start,
-                col_stop: other.col_stop,
-            }
-        } else {
-            Span {
-                line_start: other.line_start,
-                line_stop: self.line_stop,
-                col_start: other.col_start,
-                col_stop: self.col_stop,
-            }
+        let (line_start, col_start) =
+            (self.line_start, self.col_start).min((other.line_start, other.col_start));
+        let (line_stop, col_stop) =
+            (self.line_stop, self.col_stop).max((other.line_stop, other.col_stop));
+        Span {
+            line_start,
+            line_stop,
+            col_start,
+            col_stop,
         }
     }
 }
@@ -540,32 +528,31 @@ impl fmt::Debug for SpannedToken {
 pub fn tokenize(input: &str, strip_comments: bool) -> Result<Vec<SpannedToken>> {
     let mut input = input.as_bytes();
     let mut tokens = vec![];
-    let mut index = 064;
+    let mut index = 0u64;
     let mut line_no = 1u64;
     let mut line_start = 0u64;
     while input.len() > 0 {
         match Token::gobble(input) {
             (output, Some(token)) => {
                 let start_line = line_no;
-                match &token {
-                    Token::CommentLine(_) => {
+                let col_start = index - line_start + 1;
+                // comments and strings can span lines
+                for byte in &input[..input.len() - output.len()] {
+                    index += 1;
+                    if *byte == b'\n' {
                         line_no += 1;
+                        line_start = index;
                     }
-                    Token::CommentBlock(s) => {
-                        line_no += s.chars().filter(|x| *x == '\n').count() as u64;
-                    }
-                    _ => (),
                 }
                 tokens.push(SpannedToken {
                     token,
                     span: Span {
                         line_start: start_line,
                         line_stop: line_no,
-                        col_start: index - line_start + 1,
-                        col_stop: index - line_start + (input.len() - output.len()) as u64 + 1,
+                        col_start,
+                        col_stop: index - line_start + 1,
                     },
                 });
-                index += (input.len() - output.len()) as u64;
                 input = output;
             }
             (output, None) => {
-- 
2.43.0


From 586bc2f3f1e2bcebc9cc1c59c7f6ed0d734d1301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 03/60] fix: reject an unterminated block comment instead of
 ignoring the rest of the input

---
 protospec-build/src/tokenizer.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 4cb06a3..290add8 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -325,15 +325,13 @@ impl Token {
                             String::from_utf8_lossy(comment).to_string(),
                         )),
                     );
-                } else if let Some(input) = eat(input, "/*") {
-                    if input.len() == 0 {
-                        return (input, None);
-                    }
-                    let eol = input.windows(2).position(|x| x[0] == b'*' && x[1] == b'/');
+                } else if let Some(body) = eat(input, "/*") {
+                    let eol = body.windows(2).position(|x| x[0] == b'*' && x[1] == b'/');
                     let (input, comment) = if let Some(eol) = eol {
-                        (&input[(eol + 2)..], &input[..eol])
+                        (&body[(eol + 2)..], &body[..eol])
                     } else {
-                        (&input[input.len()..input.len()], &input[..])
+                        // unterminated
+                        return (input, None);
                     };
                     return (
                         input,
-- 
2.43.0


From a7702957d344c591d17f9285e9083d065e7e1a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 04/60] fix: decoding a length from the input bounds memory by
 the bytes that are present

---
 protospec-build/src/compiler/decoder.rs | 20 ++++++++----------
 protospec-build/src/compiler/mod.rs     | 28 +++++++++++++++++++++++++
 protospec-build/src/prelude/mod.rs      |  1 +
 protospec-build/src/prelude/utf8.rs     | 15 ++-----------
 4 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 06b50e5..2555ca8 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -314,13 +314,12 @@ fn prepare_decode(
                 };
                 if let Some(len) = len {
                     let len = emit_register(*len);
+                    let total = emit_byte_count(&len, quote! { size });
+                    let raw = emit_read_bytes(&target, total, &async_);
                     statements.push(quote! {
                         let #data = {
-                            let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let raw = #raw;
                             raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
                         };
                     });
@@ -349,13 +348,12 @@ fn prepare_decode(
 
                 if let Some(len) = len {
                     let len = emit_register(*len);
+                    let total = emit_byte_count(&len, quote! { size });
+                    let raw = emit_read_bytes(&target, total, &async_);
                     statements.push(quote! {
                         let #data = {
-                            let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let raw = #raw;
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
@@ -378,7 +376,7 @@ fn prepare_decode(
                 let target = emit_target(target);
                 if let Some(stop) = stop {
                     statements.push(quote! {
-                        let mut #output = Vec::with_capacity(#stop as usize);
+                        let mut #output = Vec::new();
                         for _ in 0..#stop {
                             #inner
                         }
@@ -501,9 +499,9 @@ fn prepare_decode(
             Instruction::Skip(target, len) => {
                 let target = emit_target(target);
                 let len = emit_register(*len);
+                let raw = emit_read_bytes(&target, quote! { #len as usize }, &async_);
                 statements.push(quote! {
-                    let mut big_scratch = vec![0u8; #len as usize];
-                    #target.read_exact(&mut big_scratch[..])#async_?;
+                    #raw;
                 });
             }
         }
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 240c04a..90f801f 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -277,6 +277,34 @@ fn emit_ident(name: &str) -> TokenStream {
     }
 }
 
+/// reads exactly `total` bytes into a new vector without trusting `total` for the allocation
+pub(crate) fn emit_read_bytes(
+    source: &TokenStream,
+    total: TokenStream,
+    async_: &TokenStream,
+) -> TokenStream {
+    quote! {
+        {
+            let total: usize = #total;
+            let mut raw: Vec<u8> = Vec::new();
+            (&mut *#source).take(total as u64).read_to_end(&mut raw)#async_?;
+            if raw.len() < total {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
+            raw
+        }
+    }
+}
+
+/// size in bytes of `count` items, which comes from untrusted input
+pub(crate) fn emit_byte_count(count: &TokenStream, size: TokenStream) -> TokenStream {
+    quote! {
+        (#count as usize)
+            .checked_mul(#size)
+            .ok_or_else(|| decode_error("length is too large"))?
+    }
+}
+
 fn emit_register(register: usize) -> TokenStream {
     let ident = format_ident!("r_{}", register);
     quote! {
diff --git a/protospec-build/src/prelude/mod.rs b/protospec-build/src/prelude/mod.rs
index 5ad26e7..54e24ee 100644
--- a/protospec-build/src/prelude/mod.rs
+++ b/protospec-build/src/prelude/mod.rs
@@ -1,5 +1,6 @@
 use crate::asg::*;
 use crate::ast::ScalarType;
+use crate::compiler::{emit_byte_count, emit_read_bytes};
 use crate::ffi::{ForeignType, *};
 use crate::import::*;
 use crate::result::*;
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 4c01365..a2f70bc 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -29,20 +29,9 @@ impl ForeignType for Utf8 {
     ) -> TokenStream {
         let async_ = map_async(is_async);
         if let Some(len) = arguments.first() {
+            let raw = emit_read_bytes(&source, quote! { #len as usize }, &async_);
             quote! {
-                let #output_ref = {
-                    let t_count = #len as usize;
-                    let mut t: Vec<u8> = Vec::with_capacity(t_count);
-                    unsafe { t.set_len(t_count); }
-                    let t_borrow = &mut t[..];
-                    let t_borrow2 = unsafe {
-                        let len = t_borrow.len();
-                        let ptr = t.as_ptr() as *mut u8;
-                        slice::from_raw_parts_mut(ptr, len)
-                    };
-                    #source.read_exact(&mut t_borrow2[..])#async_?;
-                    String::from_utf8(t)?
-                };
+                let #output_ref = String::from_utf8(#raw)?;
             }
         } else {
             quote! {
-- 
2.43.0


From c1e81ea8e77755977d10219bc27ce3ca833b8cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 05/60] fix: utf16 decodes big endian as it is encoded, without
 trusting the length for the allocation

---
 protospec-build/src/prelude/utf16.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 76540c5..8fb22a6 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -29,18 +29,14 @@ impl ForeignType for Utf16 {
     ) -> TokenStream {
         let async_ = map_async(is_async);
         let len = arguments.first().expect("missing len argument");
+        let raw = emit_read_bytes(&source, emit_byte_count(len, quote! { 2 }), &async_);
         quote! {
             let #output_ref = {
-                let t_count = #len as usize;
-                let mut t: Vec<u16> = Vec::with_capacity(t_count);
-                unsafe { t.set_len(t_count); }
-                let t_borrow = &mut t[..];
-                let t_borrow2 = unsafe {
-                    let len = t_borrow.len() * 2;
-                    let ptr = t.as_ptr() as *mut u8;
-                    slice::from_raw_parts_mut(ptr, len)
-                };
-                #source.read_exact(&mut t_borrow2[..])#async_?;
+                let raw = #raw;
+                let t = raw
+                    .chunks_exact(2)
+                    .map(|x| u16::from_be_bytes([x[0], x[1]]))
+                    .collect::<Vec<u16>>();
                 String::from_utf16(&t[..])?
             };
         }
-- 
2.43.0


From 03297bf7c95e854ca3cdd8c4a6b79e5b50990761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 06/60] fix: encoding a counted array of the wrong length is an
 error, not a panic or a silent truncation

---
 protospec-build/src/coder/encode/array.rs       |  5 +++++
 protospec-build/src/coder/encode/instruction.rs |  5 +++++
 protospec-build/src/compiler/encoder.rs         | 12 ++++++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 7748bb7..6c7204c 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -89,6 +89,11 @@ impl Context {
         self.encode_type(&type_.element, target, new_source);
         let drained = self.instructions.drain(current_pos..).collect();
         let len = if let Some(len) = len {
+            self.instructions.push(Instruction::LenCheck(
+                source,
+                len,
+                "array length mismatch".to_string(),
+            ));
             len
         } else {
             let len = self.alloc_register();
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 333f912..eefe84b 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -58,6 +58,8 @@ pub enum Instruction {
     Loop(usize, usize, Vec<Instruction>),
     /// len target, buffer, cast_type
     GetLen(usize, usize, Option<ScalarType>),
+    /// source, length register, message
+    LenCheck(usize, usize, String),
     /// register
     Drop(usize),
     /// original, checked, is_copyable, message
@@ -174,6 +176,9 @@ impl fmt::Display for Instruction {
             Instruction::GetLen(dest, buffer, cast_type) => {
                 write!(f, "GetLen({}, {}, {:?})", dest, buffer, cast_type)
             }
+            Instruction::LenCheck(source, len, message) => {
+                write!(f, "LenCheck({}, {}, {})", source, len, message)
+            }
             Instruction::Drop(register) => write!(f, "Drop({})", register),
             Instruction::NullCheck(original, checked, is_copyable, message) => write!(
                 f,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 3029fa3..73c86e5 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -115,6 +115,15 @@ impl EncoderContext {
                         let #len = #source.len() #cast;
                     });
                 }
+                Instruction::LenCheck(source, len, message) => {
+                    let source = emit_register(*source);
+                    let len = emit_register(*len);
+                    statements.push(quote! {
+                        if #source.len() != #len as usize {
+                            return Err(encode_error(#message).into());
+                        }
+                    });
+                }
                 Instruction::NullCheck(target, destination, is_copyable, message) => {
                     let target = emit_register(*target);
                     let destination = emit_register(*destination);
@@ -303,8 +312,7 @@ impl EncoderContext {
                             {
                                 let t_count = #len as usize;
                                 if t_count != #data.len() {
-                                    //todo: throw an error properly
-                                    assert_eq!(t_count, #data.len());
+                                    return Err(encode_error("array length mismatch").into());
                                 }
                                 #writing
                             }
-- 
2.43.0


From 71a71590fd41595c8083067aec7c03d98ae17898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 07/60] fix: an unbounded array with a partial trailing element
 is an error

---
 protospec-build/src/compiler/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 2555ca8..b460aaf 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -329,6 +329,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                return Err(decode_error("partial array element").into());
+                            }
                             raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
                         };
                     });
@@ -363,6 +366,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                return Err(decode_error("partial array element").into());
+                            }
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
-- 
2.43.0


From 3580ae80244b0ab69e8b5c359b406c15a5d53314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 08/60] fix: decoding a terminated array no longer loops
 forever when the buffer is shorter than the terminator

---
 protospec-build/src/compiler/decoder.rs | 26 +++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index b460aaf..45dcf25 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -388,22 +388,28 @@ fn prepare_decode(
                         }
                     });
                 } else if let Some(terminator) = terminator {
+                    let trait_name = if is_async {
+                        quote! { dyn AsyncBufRead + Unpin + Send + Sync }
+                    } else {
+                        quote! { dyn BufRead }
+                    };
                     statements.push(quote! {
                         let mut #output = Vec::new();
+                        // bytes looked at for the terminator, which belong to the next element
+                        let mut ahead: Vec<u8> = Vec::new();
                         loop {
-                            let buf = #target.fill_buf()#async_?;
-                            if buf.len() == 0 {
+                            let missing = #terminator.len() - ahead.len();
+                            (&mut *#target).take(missing as u64).read_to_end(&mut ahead)#async_?;
+                            if ahead.is_empty() || &ahead[..] == &#terminator[..] {
                                 break;
                             }
-                            if (buf.len() < #terminator.len()) {
-                                //todo: confirm this cannot infinite loop
-                                continue;
-                            }
-                            if &buf[..#terminator.len()] == #terminator {
-                                #target.consume(#terminator.len());
-                                break;
+                            let mut rest = Cursor::new(ahead).chain(&mut *#target as &mut (#trait_name));
+                            {
+                                let #target = &mut rest;
+                                #inner
                             }
-                            #inner
+                            let (unread, _) = rest.into_inner();
+                            ahead = unread.get_ref()[unread.position() as usize..].to_vec();
                         }
                     });
                 } else {
-- 
2.43.0


From c26a4d8b81377c64de1ca4ab8f003dc2d51ecba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 09/60] fix: variable length integers decode over their full
 range and reject what does not fit

---
 protospec-build/src/prelude/var.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/prelude/var.rs b/protospec-build/src/prelude/var.rs
index 66b0e50..c805c35 100644
--- a/protospec-build/src/prelude/var.rs
+++ b/protospec-build/src/prelude/var.rs
@@ -71,23 +71,24 @@ impl ForeignType for VarInt {
         is_async: bool,
     ) -> TokenStream {
         let inner = self.type_ref();
-        let end = (self.scalar_type.size() as f64 / 7.0).ceil() as usize;
+        let bits = self.scalar_type.size() as usize * 8;
         let inner_unsigned = emit_type_ref(&self.unsigned);
         let async_ = map_async(is_async);
         quote! {
             let #output_ref = {
-                let mut i = 0usize;
+                let mut shift = 0usize;
                 let mut buf = [0xffu8; 1];
-                let mut output: #inner = 0;
+                let mut output: #inner_unsigned = 0;
                 while (buf[0] & 128) == 128 {
                     #source.read_exact(&mut buf[..])#async_?;
-                    output |= ((buf[0] as #inner_unsigned & 127) << (i * 7)) as #inner;
-                    i += 1;
-                    if i > #end {
-                        break;
+                    let group = buf[0] as #inner_unsigned & 127;
+                    if shift >= #bits || (group << shift) >> shift != group {
+                        return Err(decode_error("variable length integer is too large").into());
                     }
+                    output |= group << shift;
+                    shift += 7;
                 }
-                output
+                output as #inner
             };
         }
     }
-- 
2.43.0


From 2de3e14ec20ef2f20c9fe5e6830c0705be8e93b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 10/60] fix: arrays of bool compile

---
 protospec-build/src/compiler/decoder.rs | 9 +++++----
 protospec-build/src/compiler/encoder.rs | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 45dcf25..9db1cdf 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -306,11 +306,12 @@ fn prepare_decode(
                 let target = emit_target(target);
                 let data = emit_register(*data);
                 let decoder = match type_ {
+                    PrimitiveType::Bool => quote! { (|x: [u8; 1]| x[0] != 0) },
                     PrimitiveType::Scalar(EndianScalarType {
                         endian: Endian::Little,
                         ..
-                    }) => quote! { from_le_bytes },
-                    _ => quote! { from_be_bytes },
+                    }) => quote! { #type_::from_le_bytes },
+                    _ => quote! { #type_::from_be_bytes },
                 };
                 if let Some(len) = len {
                     let len = emit_register(*len);
@@ -320,7 +321,7 @@ fn prepare_decode(
                         let #data = {
                             let size = mem::size_of::<#type_>();
                             let raw = #raw;
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
                         };
                     });
                 } else {
@@ -332,7 +333,7 @@ fn prepare_decode(
                             if raw.len() % size != 0 {
                                 return Err(decode_error("partial array element").into());
                             }
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
                         };
                     });
                 }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 73c86e5..b898aef 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -276,7 +276,7 @@ impl EncoderContext {
                         PrimitiveType::Bool => {
                             quote! {
                                 for x in #data.iter() {
-                                    #target.write_all(&[if x { 1u8 } else { 0u8 }])#async_?;
+                                    #target.write_all(&[if *x { 1u8 } else { 0u8 }])#async_?;
                                 }
                             }
                         }
-- 
2.43.0


From d6db020b5bb450f37ab3deccde913f1694c04407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 11/60] fix: several transforms on a field are encoded in the
 order they are decoded in

---
 protospec-build/src/coder/encode/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 1cc8eca..a2f375e 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -67,7 +67,7 @@ impl Context {
     ) {
         let mut new_streams = vec![];
 
-        for transform in field.transforms.borrow().iter() {
+        for transform in field.transforms.borrow().iter().rev() {
             let condition = if let Some(condition) = &transform.condition {
                 let value = self.alloc_register();
                 self.instructions
-- 
2.43.0


From 88864354b258ddcab107852aa3f79eac5dbeea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 12/60] fix: several pending blen fields are written in
 declaration order

---
 protospec-build/src/coder/encode/container.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 831eff8..7912d56 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -152,8 +152,9 @@ impl Context {
                         self.eval_blen_expr(&blen_calls[..], auto_field, calculated);
 
                     auto_targets.remove(i);
-                    let target = auto_targets
-                        .get(i)
+                    let target = i
+                        .checked_sub(1)
+                        .and_then(|previous| auto_targets.get(previous))
                         .map(|(target, _)| Target::Buf(*target))
                         .unwrap_or(buf_target);
                     self.encode_field(target, calculated_register, auto_field, conditional);
-- 
2.43.0


From 0460275f352b5a98d051c0b8ad54852776759c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 13/60] fix: generated expressions keep the grouping of the
 source and name constants by value

---
 protospec-build/src/compiler/expr.rs | 18 +++++++++---------
 protospec-build/src/prelude/pad.rs   |  6 +++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index abe5e06..695c99e 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -278,7 +278,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                     BinaryOp::BitXor => quote! { ^ },
                     BinaryOp::Shr => quote! { >> },
                     BinaryOp::Shl => quote! { << },
-                    BinaryOp::ShrSigned => quote! { >>> },
+                    BinaryOp::ShrSigned => quote! { >> },
                     BinaryOp::Add => quote! { + },
                     BinaryOp::Sub => quote! { - },
                     BinaryOp::Mul => quote! { * },
@@ -315,17 +315,17 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             match &*c.inner.get_type().unwrap().resolved() {
                 Type::Enum(_) => {
                     quote! {
-                        (#inner).to_repr() as #target
+                        ((#inner).to_repr() as #target)
                     }
                 }
                 Type::Bitfield(_) => {
                     quote! {
-                        (#inner).0 as #target
+                        ((#inner).0 as #target)
                     }
                 }
                 _ => {
                     quote! {
-                        (#inner) as #target
+                        ((#inner) as #target)
                     }
                 }
             }
@@ -335,7 +335,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let index = emit_expression(&c.index, ref_resolver);
 
             quote! {
-                (#array)[#index]
+                (#array)[(#index) as usize]
             }
         }
         EnumAccess(c) => {
@@ -361,9 +361,9 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         ConstRef(c) => {
-            let c = format_ident!("{}", c.name);
+            let value = emit_expression(&c.value, ref_resolver);
             quote! {
-                #c
+                (#value)
             }
         }
         InputRef(c) => {
@@ -385,11 +385,11 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let if_false = emit_expression(&c.if_false, ref_resolver);
 
             quote! {
-                if #condition {
+                (if #condition {
                     #if_true
                 } else {
                     #if_false
-                }
+                })
             }
         }
         Bool(c) => {
diff --git a/protospec-build/src/prelude/pad.rs b/protospec-build/src/prelude/pad.rs
index 1b45ce7..c8fb47b 100644
--- a/protospec-build/src/prelude/pad.rs
+++ b/protospec-build/src/prelude/pad.rs
@@ -26,11 +26,11 @@ impl ForeignFunction for PadFunction {
         let pad = &arguments[0].value;
         let base = &arguments[1].value;
         return quote! {
-            if #base % #pad == 0 {
+            (if (#base) % (#pad) == 0 {
                 0
             } else {
-                (#pad - (#base % #pad))
-            }
+                ((#pad) - ((#base) % (#pad)))
+            })
         };
     }
 }
-- 
2.43.0


From 860c2d45aaa9406f301f8b7372e579310b17043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 14/60] fix: type aliases can be array elements, be used in
 expressions and be encoded at the top level

---
 .../src/asg/expression/array_index.rs         |  2 +-
 protospec-build/src/asg/types/mod.rs          | 14 +++++++++++
 protospec-build/src/coder/decode/array.rs     |  6 ++++-
 protospec-build/src/coder/encode/array.rs     |  6 ++++-
 protospec-build/src/compiler/encoder.rs       |  1 +
 protospec-build/src/compiler/expr.rs          | 25 ++++++++++++++++---
 6 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/asg/expression/array_index.rs b/protospec-build/src/asg/expression/array_index.rs
index bd9dd2e..df459e5 100644
--- a/protospec-build/src/asg/expression/array_index.rs
+++ b/protospec-build/src/asg/expression/array_index.rs
@@ -10,7 +10,7 @@ pub struct ArrayIndexExpression {
 impl AsgExpression for ArrayIndexExpression {
     fn get_type(&self) -> Option<Type> {
         let parent_type = self.array.get_type()?;
-        match parent_type {
+        match &*parent_type.resolved() {
             Type::Array(parent_type) => Some(parent_type.element.as_ref().clone()),
             _ => None,
         }
diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index ef64d74..1b638ac 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -152,7 +152,21 @@ impl Type {
         }
     }
 
+    /// for a reference to a type which is generated as a newtype (i.e. an alias), the type it wraps
+    pub fn newtype_interior(&self) -> Option<Type> {
+        match self {
+            Type::Ref(x) => match &*x.target.type_.borrow() {
+                Type::Container(_) | Type::Enum(_) | Type::Bitfield(_) | Type::Foreign(_) => None,
+                interior => Some(interior.clone()),
+            },
+            _ => None,
+        }
+    }
+
     pub fn copyable(&self) -> bool {
+        if self.newtype_interior().is_some() {
+            return false;
+        }
         match &*self.resolved() {
             Type::Enum(_) => true,
             Type::Bitfield(_) => true,
diff --git a/protospec-build/src/coder/decode/array.rs b/protospec-build/src/coder/decode/array.rs
index 789506d..7c0c8a2 100644
--- a/protospec-build/src/coder/decode/array.rs
+++ b/protospec-build/src/coder/decode/array.rs
@@ -1,4 +1,5 @@
 use super::*;
+use std::borrow::Cow;
 
 impl Context {
     pub fn decode_array(&mut self, type_: &ArrayType, source: Target) -> usize {
@@ -24,7 +25,10 @@ impl Context {
 
         let output = self.alloc_register();
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
+            let type_ = match type_.element.newtype_interior() {
+                Some(_) => Cow::Borrowed(&*type_.element),
+                None => type_.element.resolved(),
+            };
             match &*type_ {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => (),
diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 6c7204c..7d6703c 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -1,4 +1,5 @@
 use super::*;
+use std::borrow::Cow;
 
 impl Context {
     pub fn encode_array(&mut self, type_: &ArrayType, target: Target, source: usize) {
@@ -37,7 +38,10 @@ impl Context {
         };
 
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
+            let type_ = match type_.element.newtype_interior() {
+                Some(_) => Cow::Borrowed(&*type_.element),
+                None => type_.element.resolved(),
+            };
             let primitive_type = match &*type_ {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => None,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index b898aef..ad8bb5d 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -68,6 +68,7 @@ impl EncoderContext {
                                 quote! { #source[#index as usize] }
                             }
                             FieldRef::TupleAccess(x) => {
+                                let x = proc_macro2::Literal::usize_unsuffixed(*x);
                                 quote! { #source.#x }
                             }
                         };
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 695c99e..e40ae52 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -250,6 +250,15 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
     }
 }
 
+/// expressions are typed by what an alias stands for, but it is generated as a newtype
+fn unwrap_newtype(mut value: TokenStream, mut type_: Type) -> TokenStream {
+    while let Some(inner) = type_.newtype_interior() {
+        value = quote! { (#value).0 };
+        type_ = inner;
+    }
+    value
+}
+
 pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     expr: &Expression,
     ref_resolver: &F,
@@ -334,13 +343,20 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let array = emit_expression(&c.array, ref_resolver);
             let index = emit_expression(&c.index, ref_resolver);
 
-            quote! {
+            let value = quote! {
                 (#array)[(#index) as usize]
+            };
+            match c.get_type() {
+                Some(type_) => unwrap_newtype(value, type_),
+                None => value,
             }
         }
         EnumAccess(c) => {
             let enum_name = emit_ident(&c.enum_field.name);
-            let enum_variant_name = emit_ident(&c.variant.name);
+            let enum_variant_name = match &*c.enum_field.type_.borrow() {
+                Type::Bitfield(_) => emit_ident(&c.variant.name.to_snake().to_uppercase()),
+                _ => emit_ident(&c.variant.name),
+            };
             quote! {
                 #enum_name::#enum_variant_name
             }
@@ -372,7 +388,10 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                 #c
             }
         }
-        FieldRef(c) => ref_resolver(c),
+        FieldRef(c) => {
+            let type_ = c.type_.borrow().clone();
+            unwrap_newtype(ref_resolver(c), type_)
+        }
         Str(c) => {
             let c = Literal::byte_string(&c.content[..]);
             quote! {
-- 
2.43.0


From 1e34edb11cba97f14a24c8ab4381ede0ab6dea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 15/60] fix: optional arguments can be given without being
 reported as out of order

---
 protospec-build/src/semantics/convert/ffi_arguments.rs  | 4 ++--
 protospec-build/src/semantics/convert/type_/type_ref.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/semantics/convert/ffi_arguments.rs b/protospec-build/src/semantics/convert/ffi_arguments.rs
index 7cfed2f..b45f7b5 100644
--- a/protospec-build/src/semantics/convert/ffi_arguments.rs
+++ b/protospec-build/src/semantics/convert/ffi_arguments.rs
@@ -11,9 +11,9 @@ impl Scope {
         let min_arg_count = type_arguments.iter().filter(|x| !x.optional).count();
         // optionals MUST be at the end
         if min_arg_count < arguments.len()
-            && type_arguments[type_arguments.len() - min_arg_count..]
+            && type_arguments[..min_arg_count]
                 .iter()
-                .any(|x| !x.optional)
+                .any(|x| x.optional)
         {
             unimplemented!("cannot have ffi transform with required arguments after optional arguments for '{}'", name);
         }
diff --git a/protospec-build/src/semantics/convert/type_/type_ref.rs b/protospec-build/src/semantics/convert/type_/type_ref.rs
index 04269d0..74c94ff 100644
--- a/protospec-build/src/semantics/convert/type_/type_ref.rs
+++ b/protospec-build/src/semantics/convert/type_/type_ref.rs
@@ -13,7 +13,7 @@ impl Scope {
                 .count();
             // optionals MUST be at the end
             if min_arg_count < type_.arguments.len()
-                && target_args[target_args.len() - min_arg_count..]
+                && target_args[..min_arg_count]
                     .iter()
                     .any(|x| x.default_value.is_some())
             {
-- 
2.43.0


From fa006cb1eb29ad03ed836e7deb4de70ec896bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 16/60] fix: types with optional arguments can be referenced
 from other types

---
 .../src/coder/decode/instruction.rs           |  2 +-
 protospec-build/src/coder/decode/mod.rs       |  2 +-
 .../src/coder/encode/instruction.rs           |  6 ++---
 protospec-build/src/coder/encode/var_ref.rs   |  6 ++++-
 protospec-build/src/coder/mod.rs              | 27 +++++++++++++++++++
 protospec-build/src/compiler/decoder.rs       |  7 +----
 protospec-build/src/compiler/encoder.rs       |  7 +----
 protospec-build/src/compiler/mod.rs           | 14 ++++++++++
 8 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index d5a7296..1dce46c 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -40,7 +40,7 @@ pub enum Instruction {
     ), // condition, prelude, stream, new stream, transformer, arguments
 
     DecodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
-    DecodeRef(Target, usize, String, Vec<usize>),
+    DecodeRef(Target, usize, String, Vec<RefArgument>),
     DecodeRepr(String, PrimitiveType, usize, Target),
     DecodePrimitive(Target, usize, PrimitiveType),
     DecodePrimitiveArray(Target, usize, PrimitiveType, Option<usize>),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 0e5369d..78cd7d9 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -153,7 +153,7 @@ impl Context {
                         source,
                         output,
                         r.target.name.clone(),
-                        args,
+                        RefArgument::new(r, &args[..]),
                     ));
                 }
                 output
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index eefe84b..5189117 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -40,7 +40,7 @@ pub enum Instruction {
     /// dest, source, type, arguments
     EncodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
     /// dest, source, arguments
-    EncodeRef(Target, usize, Vec<usize>),
+    EncodeRef(Target, usize, Vec<RefArgument>),
     /// rep type, dest, source
     EncodeEnum(Target, usize, EndianScalarType),
     /// dest, source
@@ -142,9 +142,7 @@ impl fmt::Display for Instruction {
                 write!(f, ")")
             }
             Instruction::EncodeRef(dest, source, arguments) => {
-                write!(f, "EncodeRef({:?}, {}, ", dest, source)?;
-                write_arguments(f, &arguments[..])?;
-                write!(f, ")")
+                write!(f, "EncodeRef({:?}, {}, {:?})", dest, source, arguments)
             }
             Instruction::EncodeEnum(dest, source, type_) => {
                 write!(f, "EncodeEnum({:?}, {}, {})", dest, source, type_)
diff --git a/protospec-build/src/coder/encode/var_ref.rs b/protospec-build/src/coder/encode/var_ref.rs
index 45ad006..482a668 100644
--- a/protospec-build/src/coder/encode/var_ref.rs
+++ b/protospec-build/src/coder/encode/var_ref.rs
@@ -23,7 +23,11 @@ impl Context {
                 args.push(r);
             }
             self.instructions
-                .push(Instruction::EncodeRef(target, source, args));
+                .push(Instruction::EncodeRef(
+                    target,
+                    source,
+                    RefArgument::new(type_, &args[..]),
+                ));
         }
     }
 }
diff --git a/protospec-build/src/coder/mod.rs b/protospec-build/src/coder/mod.rs
index c087b01..37ef86c 100644
--- a/protospec-build/src/coder/mod.rs
+++ b/protospec-build/src/coder/mod.rs
@@ -72,3 +72,30 @@ impl ToTokens for PrimitiveType {
 
 pub mod decode;
 pub mod encode;
+
+/// An argument to a referenced type, with the register it is in.
+#[derive(Clone, Copy, Debug)]
+pub enum RefArgument {
+    /// the argument must be given
+    Required(usize),
+    /// the argument has a default, `None` if it is to be used
+    Optional(Option<usize>),
+}
+
+impl RefArgument {
+    /// pairs the registers of the given arguments with the arguments the type declares
+    pub fn new(type_: &crate::asg::TypeRef, given: &[usize]) -> Vec<RefArgument> {
+        type_
+            .target
+            .arguments
+            .borrow()
+            .iter()
+            .enumerate()
+            .map(|(i, argument)| match (&argument.default_value, given.get(i)) {
+                (None, Some(register)) => RefArgument::Required(*register),
+                (None, None) => unreachable!("missing required type argument"),
+                (Some(_), register) => RefArgument::Optional(register.copied()),
+            })
+            .collect()
+    }
+}
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 9db1cdf..5587c01 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -229,12 +229,7 @@ fn prepare_decode(
                 );
             }
             Instruction::DecodeRef(target, source, class, args) => {
-                let mut out_arguments = vec![];
-                for argument in args {
-                    let value = emit_register(*argument);
-                    out_arguments.push(quote! {, #value});
-                }
-                let out_arguments = flatten(out_arguments);
+                let out_arguments = emit_ref_arguments(args);
                 let target = emit_target(target);
                 let source = emit_register(*source);
                 let class = emit_ident(class);
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index ad8bb5d..73acf50 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -200,12 +200,7 @@ impl EncoderContext {
                     });
                 }
                 Instruction::EncodeRef(target, source, args) => {
-                    let mut out_arguments = vec![];
-                    for argument in args {
-                        let value = emit_register(*argument);
-                        out_arguments.push(quote! {, #value});
-                    }
-                    let out_arguments = flatten(out_arguments);
+                    let out_arguments = emit_ref_arguments(args);
                     let target = emit_target(target);
                     let source = emit_register(*source);
                     if self.is_async {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 90f801f..97e3bb7 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -312,6 +312,20 @@ fn emit_register(register: usize) -> TokenStream {
     }
 }
 
+fn emit_ref_arguments(arguments: &[coder::RefArgument]) -> TokenStream {
+    flatten(arguments.iter().map(|argument| match argument {
+        coder::RefArgument::Required(register) => {
+            let value = emit_register(*register);
+            quote! {, #value}
+        }
+        coder::RefArgument::Optional(Some(register)) => {
+            let value = emit_register(*register);
+            quote! {, Some(#value)}
+        }
+        coder::RefArgument::Optional(None) => quote! {, None},
+    }))
+}
+
 fn flatten<T: IntoIterator<Item = TokenStream>>(iter: T) -> TokenStream {
     let mut out = quote! {};
     out.append_all(iter);
-- 
2.43.0


From 26c7eca02b1dfe43c1245586646ce3ad7992353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 17/60] fix: enum and bitfield values which overflow or are not
 constant are errors, not wrapped or panics

---
 .../src/asg/expression/const_int.rs           | 18 ++++++++---------
 protospec-build/src/compiler/expr.rs          | 20 ++++---------------
 protospec-build/src/compiler/mod.rs           |  8 ++++++++
 .../src/semantics/convert/type_/bitfield.rs   |  4 ++++
 .../src/semantics/convert/type_/enum_.rs      |  4 ++++
 protospec-build/src/semantics/error.rs        |  2 ++
 6 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/protospec-build/src/asg/expression/const_int.rs b/protospec-build/src/asg/expression/const_int.rs
index b08936e..24c18c8 100644
--- a/protospec-build/src/asg/expression/const_int.rs
+++ b/protospec-build/src/asg/expression/const_int.rs
@@ -1,4 +1,5 @@
 use super::*;
+use std::convert::TryFrom;
 
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum ConstInt {
@@ -118,7 +119,7 @@ impl Shr for ConstInt {
     type Output = Option<Self>;
 
     fn shr(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 >> i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_shr(u32::try_from(i2).ok()?)?)
     }
 }
 
@@ -126,7 +127,7 @@ impl Shl for ConstInt {
     type Output = Option<Self>;
 
     fn shl(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 << i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_shl(u32::try_from(i2).ok()?)?)
     }
 }
 
@@ -134,7 +135,7 @@ impl Add for ConstInt {
     type Output = Option<Self>;
 
     fn add(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 + i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_add(i2)?)
     }
 }
 
@@ -142,7 +143,7 @@ impl Sub for ConstInt {
     type Output = Option<Self>;
 
     fn sub(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 - i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_sub(i2)?)
     }
 }
 
@@ -150,7 +151,7 @@ impl Mul for ConstInt {
     type Output = Option<Self>;
 
     fn mul(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 * i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_mul(i2)?)
     }
 }
 
@@ -158,7 +159,7 @@ impl Div for ConstInt {
     type Output = Option<Self>;
 
     fn div(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 / i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_div(i2)?)
     }
 }
 
@@ -166,16 +167,15 @@ impl Rem for ConstInt {
     type Output = Option<Self>;
 
     fn rem(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 % i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_rem(i2)?)
     }
 }
 
 impl Neg for ConstInt {
     type Output = Option<Self>;
 
-    #[allow(unreachable_code, unused_variables)]
     fn neg(self) -> Self::Output {
-        const_int_map!(self, i1, -i1, unimplemented!("cannot neg unsigned value"))
+        const_int_map!(self, i1, i1.checked_neg()?, i1.checked_neg()?)
     }
 }
 
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index e40ae52..70749aa 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -191,9 +191,7 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                 BinaryOp::Mul => ConstValue::Int((left.to_int()? * right.to_int()?)?),
                 BinaryOp::Div => ConstValue::Int((left.to_int()? / right.to_int()?)?),
                 BinaryOp::Mod => ConstValue::Int((left.to_int()? % right.to_int()?)?),
-                BinaryOp::Elvis => {
-                    unimplemented!("cannot use elvis operator (?:) in const context")
-                }
+                BinaryOp::Elvis => return None,
             })
         }
         Member(c) => {
@@ -204,7 +202,7 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                     // todo: find better way to get same-typed zero
                     Some(ConstValue::Bool((target & member)? != (member - member)?))
                 }
-                _ => unimplemented!("can not use member exprs on nonint targets"),
+                _ => None,
             }
         }
         Unary(c) => {
@@ -219,18 +217,11 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
             let inner = eval_const_expression(&c.inner)?;
             inner.cast_to(&c.type_)
         }
-        ArrayIndex(_) => {
-            unimplemented!("can not use array indexing in const")
-        }
+        // only known at run time
+        ArrayIndex(_) | InputRef(_) | FieldRef(_) | Call(_) => None,
         EnumAccess(c) => eval_const_expression(&c.variant.value),
         Int(c) => Some(ConstValue::Int(c.value)),
         ConstRef(c) => eval_const_expression(&c.value),
-        InputRef(_) => {
-            unimplemented!("cannot access input in constant");
-        }
-        FieldRef(_) => {
-            unimplemented!("cannot access field in constant");
-        }
         Str(c) => Some(ConstValue::String(c.content.clone())),
         Ternary(c) => {
             let condition = eval_const_expression(&c.condition)?;
@@ -244,9 +235,6 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
             }
         }
         Bool(c) => Some(ConstValue::Bool(*c)),
-        Call(_) => {
-            unimplemented!("cannot call ffi in constant");
-        }
     }
 }
 
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 97e3bb7..f88bd32 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -12,6 +12,14 @@ mod decoder;
 mod encoder;
 mod expr;
 
+/// the value of a constant integer expression, if it is one and all steps are in range
+pub(crate) fn eval_const_int(expr: &Expression) -> Option<ConstInt> {
+    match eval_const_expression(expr)? {
+        ConstValue::Int(value) => Some(value),
+        _ => None,
+    }
+}
+
 pub fn global_name(input: &str) -> String {
     input.to_string()
 }
diff --git a/protospec-build/src/semantics/convert/type_/bitfield.rs b/protospec-build/src/semantics/convert/type_/bitfield.rs
index 75c8174..910efcd 100644
--- a/protospec-build/src/semantics/convert/type_/bitfield.rs
+++ b/protospec-build/src/semantics/convert/type_/bitfield.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::compiler::eval_const_int;
 
 impl Scope {
     pub(super) fn convert_bitfield_type(
@@ -46,6 +47,9 @@ impl Scope {
                     }),
                 },
             });
+            if eval_const_int(&cons.value).is_none() {
+                return Err(AsgError::InvalidConstValue(name.name.clone(), name.span));
+            }
             if item.is_some() {
                 last_defined_item = Some(cons.clone());
                 undefined_counter = 1;
diff --git a/protospec-build/src/semantics/convert/type_/enum_.rs b/protospec-build/src/semantics/convert/type_/enum_.rs
index e252a49..393da03 100644
--- a/protospec-build/src/semantics/convert/type_/enum_.rs
+++ b/protospec-build/src/semantics/convert/type_/enum_.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::compiler::eval_const_int;
 
 impl Scope {
     pub(super) fn convert_enum_type(
@@ -54,6 +55,9 @@ impl Scope {
                             span: type_.span,
                         }),
                     };
+                    if eval_const_int(&value).is_none() {
+                        return Err(AsgError::InvalidConstValue(name.name.clone(), name.span));
+                    }
                     EnumValue::Value(Arc::new(Const {
                         name: name.name.clone(),
                         span: type_.span,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 92b5aa2..b92baab 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -61,6 +61,8 @@ pub enum AsgError {
     UnresolvedBitfieldVariant(String, String, Span),
     #[error("could not infer type @ {0} (try adding more explicit types)")]
     UninferredType(Span),
+    #[error("value of '{0}' is not a constant integer in range @ {1}")]
+    InvalidConstValue(String, Span),
     #[error("could not parse int {0} @ {1} @ {1}")]
     InvalidInt(String, Span),
     #[error("invalid number of arguments for ffi, expected {0} to {1} arguments, got {2} @ {3}")]
-- 
2.43.0


From 0c51b2a654dcedce38dd48e9f26724baaefad9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 18/60] fix: an enum with only a default variant compiles

---
 protospec-build/src/compiler/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index f88bd32..5593d14 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -582,12 +582,16 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     let format_string = format!("illegal enum value '{{}}' for enum '{}'", name);
 
     let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
-        let (default_field, _) = item.items.first().expect("missing enum entry for default");
+        let (default_field, value) = item.items.first().expect("missing enum entry for default");
         let default_field = format_ident!("{}", default_field);
+        let default_value = match value {
+            EnumValue::Value(_) => quote! {},
+            EnumValue::Default => quote! { (Default::default()) },
+        };
         quote! {
             impl Default for #name_ident {
                 fn default() -> Self {
-                    Self::#default_field
+                    Self::#default_field#default_value
                 }
             }
         }
-- 
2.43.0


From 33b53632af19ff857037884138a3e977ece0cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 19/60] fix: encoding a container does not allocate what its
 length field says

---
 protospec-build/src/compiler/encoder.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 73acf50..c830652 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -77,12 +77,11 @@ impl EncoderContext {
                         let #target = #source;
                     });
                 }
-                Instruction::AllocBuf(buf, len) => {
+                Instruction::AllocBuf(buf, _) => {
+                    // the length comes from the value, which might not be what is written
                     let buf = emit_register(*buf);
-                    let len = emit_register(*len);
                     statements.push(quote! {
-                        //todo: strictly bound this
-                        let mut #buf: Vec<u8> = Vec::with_capacity(#len as usize);
+                        let mut #buf: Vec<u8> = Vec::new();
                     });
                 }
                 Instruction::AllocDynBuf(buf) => {
-- 
2.43.0


From 58f506549552df46867f62308a4e75619178f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 20/60] fix: conditional fields in conditional containers
 decode to a plain optional

---
 protospec-build/src/coder/decode/field.rs       | 15 ++++++++++-----
 protospec-build/src/coder/decode/instruction.rs |  2 +-
 protospec-build/src/coder/decode/mod.rs         |  7 ++++++-
 protospec-build/src/compiler/decoder.rs         | 13 ++++++++-----
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index 865df93..67afd34 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -53,17 +53,22 @@ impl Context {
 
         let emitted = self.decode_field_unconditional(source, field);
 
-        if field.is_pad.get() {
-            return emitted;
-        }
         if let Some(field_condition) = field_condition {
             let drained = self.instructions.drain(start..).collect();
             if emitted.is_empty() {
-                panic!("no emitted values from conditional");
+                // only padding
+                self.instructions
+                    .push(Instruction::ConditionalPredicate(field_condition, drained));
+                return emitted;
             }
+            // values which already are optional don't get wrapped again
+            let interior = emitted
+                .iter()
+                .map(|register| (*register, !self.optional_registers.insert(*register)))
+                .collect();
             self.instructions.push(Instruction::Conditional(
                 emitted.clone(),
-                emitted.clone(),
+                interior,
                 field_condition,
                 drained,
             ));
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 1dce46c..4386631 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -57,7 +57,7 @@ pub enum Instruction {
         Vec<Instruction>,
     ),
     LoopOutput(usize, usize), // output handle, item
-    Conditional(Vec<usize>, Vec<usize>, usize, Vec<Instruction>), // target, interior_register, condition, if_true
+    Conditional(Vec<usize>, Vec<(usize, bool)>, usize, Vec<Instruction>), // target, (interior_register, is_optional), condition, if_true
     ConditionalPredicate(usize, Vec<Instruction>), // target, interior_register, condition, if_true
     /// returns from decoder early
     Return(usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 78cd7d9..d11c1cf 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -1,6 +1,9 @@
 use super::*;
 use crate::asg::*;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    sync::Arc,
+};
 
 mod instruction;
 pub use instruction::*;
@@ -18,6 +21,7 @@ pub use container::*;
 pub struct Context {
     pub register_count: usize,
     pub field_register_map: HashMap<String, usize>,
+    pub optional_registers: HashSet<usize>,
     pub instructions: Vec<Instruction>,
     pub name: String,
 }
@@ -36,6 +40,7 @@ impl Context {
             name: String::new(),
             instructions: vec![],
             field_register_map: HashMap::new(),
+            optional_registers: HashSet::new(),
             register_count: 0,
         }
     }
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 5587c01..54d1e78 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -449,11 +449,14 @@ fn prepare_decode(
                 };
                 let interiors = interior
                     .iter()
-                    .copied()
-                    .map(|r| {
-                        let r = emit_register(r);
-                        quote! {
-                            Some(#r)
+                    .map(|(r, is_optional)| {
+                        let r = emit_register(*r);
+                        if *is_optional {
+                            r
+                        } else {
+                            quote! {
+                                Some(#r)
+                            }
                         }
                     })
                     .collect::<Vec<_>>();
-- 
2.43.0


From 8312ab9dd72039dcb6d1f45b3d060b67ec65ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 21/60] fix: len of utf16 text counts the units its length
 argument is in

---
 protospec-build/src/ffi/type_.rs     | 8 ++++++++
 protospec-build/src/prelude/len.rs   | 3 ++-
 protospec-build/src/prelude/utf16.rs | 6 ++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/ffi/type_.rs b/protospec-build/src/ffi/type_.rs
index a64e863..f6e59fe 100644
--- a/protospec-build/src/ffi/type_.rs
+++ b/protospec-build/src/ffi/type_.rs
@@ -1,4 +1,5 @@
 use proc_macro2::TokenStream;
+use quote::quote;
 
 use crate::{
     asg::{Type, TypeArgument},
@@ -88,6 +89,13 @@ pub trait ForeignType {
     /// All optional arguments must come at the end of the list of arguments.
     fn arguments(&self) -> Vec<TypeArgument>;
 
+    /// Emits the length of a value of this type, in the unit which its length argument is in
+    fn len_gen(&self, value: &TokenStream) -> TokenStream {
+        quote! {
+            (#value).len() as u64
+        }
+    }
+
     /// If true, this type can be freely copied
     fn copyable(&self) -> bool;
 }
diff --git a/protospec-build/src/prelude/len.rs b/protospec-build/src/prelude/len.rs
index 48b3af4..4e70add 100644
--- a/protospec-build/src/prelude/len.rs
+++ b/protospec-build/src/prelude/len.rs
@@ -27,11 +27,12 @@ impl LenFunction {
                     #size
                 }
             }
-            Type::Array(_) | Type::Foreign(_) => {
+            Type::Array(_) => {
                 quote! {
                     (#value).len() as u64
                 }
             }
+            Type::Foreign(f) => f.obj.len_gen(value),
             Type::Ref(type_call) => self.len(&*type_call.target.type_.borrow(), value),
         }
     }
diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 8fb22a6..df576ab 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -68,6 +68,12 @@ impl ForeignType for Utf16 {
         }]
     }
 
+    fn len_gen(&self, value: &TokenStream) -> TokenStream {
+        quote! {
+            (#value).encode_utf16().count() as u64
+        }
+    }
+
     fn copyable(&self) -> bool {
         false
     }
-- 
2.43.0


From 0008d61f1372c6a51f11ad18efe11abf70b7965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 22/60] fix: encoding text which could not be read back is an
 error

---
 protospec-build/src/prelude/utf16.rs | 6 +++++-
 protospec-build/src/prelude/utf8.rs  | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index df576ab..54ee16f 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -46,12 +46,16 @@ impl ForeignType for Utf16 {
         &self,
         target: TokenStream,
         field_ref: TokenStream,
-        _arguments: Vec<TokenStream>,
+        arguments: Vec<TokenStream>,
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
+        let len = arguments.first().expect("missing len argument");
         quote! {
             {
+                if #field_ref.encode_utf16().count() != #len as usize {
+                    return Err(encode_error("text length mismatch").into());
+                }
                 for utf16 in #field_ref.encode_utf16() {
                     #target.write_all(&utf16.to_be_bytes()[..])#async_?;
                 }
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index a2f70bc..de0cb33 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -55,15 +55,21 @@ impl ForeignType for Utf8 {
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
-        if let Some(_) = arguments.first() {
+        if let Some(len) = arguments.first() {
             quote! {
                 {
+                    if #field_ref.len() != #len as usize {
+                        return Err(encode_error("text length mismatch").into());
+                    }
                     #target.write_all(#field_ref.as_bytes())#async_?;
                 }
             }
         } else {
             quote! {
                 {
+                    if #field_ref.as_bytes().contains(&0u8) {
+                        return Err(encode_error("zero byte in zero-terminated text").into());
+                    }
                     #target.write_all(#field_ref.as_bytes())#async_?;
                     #target.write_all(&[0u8])#async_?;
                 }
-- 
2.43.0


From 3975be2546c34c31c36a9f1e03110d69e93dc3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 23/60] fix: encoding a bool variant of a tagged enum compiles

---
 protospec-build/src/coder/encode/container.rs |  1 +
 .../src/coder/encode/instruction.rs           | 22 ++++++++++++++-----
 protospec-build/src/compiler/encoder.rs       | 16 ++++++++++++--
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 7912d56..75e1463 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -239,6 +239,7 @@ impl Context {
                             name.clone(),
                             source,
                             unwrapped,
+                            subtype.copyable(),
                             "mismatch betweeen condition and enum discriminant".to_string(),
                         ));
 
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 5189117..56e99d8 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -66,8 +66,8 @@ pub enum Instruction {
     NullCheck(usize, usize, bool, String),
     /// condition, if_true, if_false
     Conditional(usize, Vec<Instruction>, Vec<Instruction>),
-    /// enum name, discriminant, original, checked, message
-    UnwrapEnum(String, String, usize, usize, String),
+    /// enum name, discriminant, original, checked, do_copy, message
+    UnwrapEnum(String, String, usize, usize, bool, String),
     /// enum name, discriminant, original, checked: (enumstruct field name, checked, do_copy), message
     UnwrapEnumStruct(String, String, usize, Vec<(String, usize, bool)>, String),
     /// instructions
@@ -194,10 +194,22 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
-            Instruction::UnwrapEnum(enum_name, discriminant, original, checked, message) => write!(
+            Instruction::UnwrapEnum(
+                enum_name,
+                discriminant,
+                original,
+                checked,
+                do_copy,
+                message,
+            ) => write!(
                 f,
-                "UnwrapEnum('{}', '{}', {}, {}, '{}')",
-                enum_name, discriminant, original, checked, message
+                "UnwrapEnum('{}', '{}', {}, {}{}, '{}')",
+                enum_name,
+                discriminant,
+                original,
+                if *do_copy { "*" } else { "" },
+                checked,
+                message
             ),
             Instruction::UnwrapEnumStruct(enum_name, discriminant, original, checked, message) => {
                 write!(
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index c830652..e1e13b7 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -358,15 +358,27 @@ impl EncoderContext {
                         };
                     })
                 }
-                Instruction::UnwrapEnum(enum_name, discriminant, original, checked, message) => {
+                Instruction::UnwrapEnum(
+                    enum_name,
+                    discriminant,
+                    original,
+                    checked,
+                    do_copy,
+                    message,
+                ) => {
                     let enum_name = emit_ident(enum_name);
                     let discriminant = emit_ident(discriminant);
                     let original = emit_register(*original);
                     let checked = emit_register(*checked);
+                    let copy = if *do_copy {
+                        quote! { * }
+                    } else {
+                        quote! {}
+                    };
 
                     statements.push(quote! {
                         let #checked = if let #enum_name::#discriminant(#checked) = &#original {
-                            #checked
+                            #copy#checked
                         } else {
                             return Err(encode_error(#message).into())
                         };
-- 
2.43.0


From c6c5b307844464e52a524bd64b81cf85c7737025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 24/60] fix: an optional on the left of ?: may be narrower than
 the type expected of the result

---
 protospec-build/src/semantics/convert/expression/binary.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 705210a..3bf9bcd 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -21,7 +21,8 @@ impl Scope {
         }
         let init_expected_type = match expr.op {
             Lt | Gt | Lte | Gte => PartialType::Scalar(PartialScalarType::None),
-            Eq | Ne => PartialType::Any,
+            // the optional itself cannot be cast, only what is taken out of it
+            Eq | Ne | Elvis => PartialType::Any,
             Or | And => PartialType::Type(Type::Bool),
             _ => expected_type.clone(),
         };
-- 
2.43.0


From 45a8d63dc8b394165709b92d61db2386ba31a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 25/60] fix: the element of an array may be narrower than the
 type expected of it

---
 .../src/semantics/convert/expression/array_index.rs           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/semantics/convert/expression/array_index.rs b/protospec-build/src/semantics/convert/expression/array_index.rs
index fed7f5d..b487ead 100644
--- a/protospec-build/src/semantics/convert/expression/array_index.rs
+++ b/protospec-build/src/semantics/convert/expression/array_index.rs
@@ -4,13 +4,13 @@ impl Scope {
     pub(super) fn convert_array_index_expression(
         self_: &Arc<RefCell<Scope>>,
         expr: &ast::ArrayIndexExpression,
-        expected_type: PartialType,
+        _expected_type: PartialType,
     ) -> AsgResult<ArrayIndexExpression> {
         Ok(ArrayIndexExpression {
             array: Box::new(Scope::convert_expr(
                 self_,
                 &expr.array,
-                PartialType::Array(Some(Box::new(expected_type))),
+                PartialType::Array(None),
             )?),
             index: Box::new(Scope::convert_expr(
                 self_,
-- 
2.43.0


From 8fe2e0c53bd8b19f0e3bc30586c5abdcda86cefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 26/60] fix: the right side of ?: is only evaluated when the
 left one is absent

---
 protospec-build/src/compiler/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 70749aa..b91cb2b 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -258,7 +258,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let right = emit_expression(&c.right, ref_resolver);
             if c.op == BinaryOp::Elvis {
                 quote! {
-                    (#left).unwrap_or(#right)
+                    (#left).unwrap_or_else(|| #right)
                 }
             } else {
                 let op = match c.op {
-- 
2.43.0


From ceaf5e27cfdfe86a195ba2cb22ac5befdc33038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 27/60] fix: a transformed field leaves the stream to what
 follows it

The stream was moved into the transform, so nothing could be read or written after a transformed field or through two
transforms, and transformed content which needs a buffered reader did not compile.
---
 protospec-build/src/coder/decode/field.rs     |  4 +
 .../src/coder/decode/instruction.rs           |  1 +
 protospec-build/src/coder/encode/field.rs     |  9 +-
 .../src/coder/encode/instruction.rs           | 16 ++--
 protospec-build/src/compiler/decoder.rs       | 82 ++++++++++++-------
 protospec-build/src/compiler/encoder.rs       | 48 +++++++----
 6 files changed, 108 insertions(+), 52 deletions(-)

diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index 67afd34..8a90b4d 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -134,6 +134,10 @@ impl Context {
         //todo: assert condition matching actual presence
         let emitted = self.decode_complex_type(source, field);
 
+        for stream in new_streams.iter().rev() {
+            self.instructions.push(Instruction::EndStream(*stream));
+        }
+
         emitted
     }
 }
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 4386631..04eac85 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -38,6 +38,7 @@ pub enum Instruction {
         Arc<Transform>,
         Vec<usize>,
     ), // condition, prelude, stream, new stream, transformer, arguments
+    EndStream(usize), // stream
 
     DecodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
     DecodeRef(Target, usize, String, Vec<RefArgument>),
diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index a2f375e..4a89403 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -85,7 +85,7 @@ impl Context {
                 args.push(r);
             }
             let new_stream = self.alloc_register();
-            let new_owned_stream = condition.map(|_| self.alloc_register());
+            let new_owned_stream = self.alloc_register();
             new_streams.push((new_stream, new_owned_stream));
 
             if let Some(condition) = condition {
@@ -95,7 +95,7 @@ impl Context {
                     drained,
                     target,
                     new_stream,
-                    new_owned_stream.unwrap(),
+                    new_owned_stream,
                     transform.transform.clone(),
                     args,
                 ));
@@ -103,6 +103,7 @@ impl Context {
                 self.instructions.push(Instruction::WrapStream(
                     target,
                     new_stream,
+                    new_owned_stream,
                     transform.transform.clone(),
                     args,
                 ));
@@ -149,9 +150,7 @@ impl Context {
 
         for (stream, owned_stream) in new_streams.iter().rev() {
             self.instructions.push(Instruction::EndStream(*stream));
-            if let Some(owned_stream) = owned_stream {
-                self.instructions.push(Instruction::Drop(*owned_stream));
-            }
+            self.instructions.push(Instruction::Drop(*owned_stream));
         }
     }
 }
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 56e99d8..4c0f1e6 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -19,8 +19,8 @@ pub enum Instruction {
     AllocBuf(usize, usize),
     /// buf handle
     AllocDynBuf(usize),
-    /// stream, new stream, transformer, arguments
-    WrapStream(Target, usize, Arc<Transform>, Vec<usize>),
+    /// stream, new stream, owned_new_stream, transformer, arguments
+    WrapStream(Target, usize, usize, Arc<Transform>, Vec<usize>),
     /// condition, prelude, stream, new stream, owned_new_stream, transformer, arguments
     ConditionalWrapStream(
         usize,
@@ -98,11 +98,17 @@ impl fmt::Display for Instruction {
             }
             Instruction::AllocBuf(buf, len) => write!(f, "AllocBuf({}, {})", buf, len),
             Instruction::AllocDynBuf(buf) => write!(f, "AllocDynBuf({})", buf),
-            Instruction::WrapStream(stream, new_stream, transform, arguments) => {
+            Instruction::WrapStream(
+                stream,
+                new_stream,
+                owned_new_stream,
+                transform,
+                arguments,
+            ) => {
                 write!(
                     f,
-                    "WrapStream({:?}, {}, '{}', ",
-                    stream, new_stream, transform.name
+                    "WrapStream({:?}, {}, {}, '{}', ",
+                    stream, new_stream, owned_new_stream, transform.name
                 )?;
                 write_arguments(f, &arguments[..])?;
                 write!(f, ")")
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 54d1e78..2bce5a6 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -13,6 +13,27 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+fn emit_owned_stream(stream: usize) -> proc_macro2::Ident {
+    format_ident!("r_{}_owned", stream)
+}
+
+fn reader_trait(is_async: bool) -> TokenStream {
+    if is_async {
+        quote! { dyn AsyncBufRead + Unpin + Send + Sync }
+    } else {
+        quote! { dyn BufRead }
+    }
+}
+
+/// what a transform reads from is shared with what follows it, so that nothing is read ahead
+fn emit_buffered(reader: &TokenStream, is_async: bool) -> TokenStream {
+    if is_async {
+        quote! { tokio::io::BufReader::with_capacity(1, #reader) }
+    } else {
+        quote! { std::io::BufReader::with_capacity(1, #reader) }
+    }
+}
+
 fn prepare_decode(
     options: &CompileOptions,
     context: &Context,
@@ -163,11 +184,18 @@ fn prepare_decode(
             }
             Instruction::WrapStream(stream, new_stream, transformer, args) => {
                 let new_stream_value = emit_register(*new_stream);
+                let owned = emit_owned_stream(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
                 let input = emit_target(stream);
-                let transformed = transformer.inner.decoding_gen(input, args, is_async);
+                let transformed =
+                    transformer
+                        .inner
+                        .decoding_gen(quote! { (&mut *#input) }, args, is_async);
+                let transformed = emit_buffered(&transformed, is_async);
+                let trait_name = reader_trait(is_async);
                 statements.push(quote! {
-                    let mut #new_stream_value = #transformed;
+                    let mut #owned = #transformed;
+                    let mut #new_stream_value: &mut (#trait_name) = &mut #owned;
                     let #new_stream_value = &mut #new_stream_value;
                 })
             }
@@ -181,37 +209,35 @@ fn prepare_decode(
             ) => {
                 let condition = emit_register(*condition);
                 let new_stream_value = emit_register(*new_stream);
+                let owned = emit_owned_stream(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
                 let input = emit_target(stream);
-                let transformed = transformer
-                    .inner
-                    .decoding_gen(input.clone(), args, is_async);
+                let transformed =
+                    transformer
+                        .inner
+                        .decoding_gen(quote! { (&mut *#input) }, args, is_async);
+                let transformed = emit_buffered(&transformed, is_async);
+                let trait_name = reader_trait(is_async);
                 let prelude = prepare_decode(options, context, &prelude[..], is_async, false);
 
                 //todo: would be nicer to use generics here instead of trait object
-                if is_async {
-                    statements.push(quote! {
-                        let mut r_xform;
-                        let #new_stream_value: &mut dyn AsyncBufRead + Unpin + Send + Sync = if #condition {
-                            #prelude
-                            r_xform = #transformed;
-                            &mut r_xform
-                        } else {
-                            #input as &mut dyn AsyncBufRead + Unpin + Send + Sync
-                        };
-                    })
-                } else {
-                    statements.push(quote! {
-                        let mut r_xform;
-                        let #new_stream_value: &mut dyn Read = if #condition {
-                            #prelude
-                            r_xform = #transformed;
-                            &mut r_xform
-                        } else {
-                            #input as &mut dyn Read
-                        };
-                    })
-                }
+                statements.push(quote! {
+                    let mut #owned = None;
+                    let mut #new_stream_value: &mut (#trait_name) = if #condition {
+                        #prelude
+                        #owned = Some(#transformed);
+                        #owned.as_mut().unwrap()
+                    } else {
+                        &mut *#input
+                    };
+                    let #new_stream_value = &mut #new_stream_value;
+                })
+            }
+            Instruction::EndStream(stream) => {
+                let owned = emit_owned_stream(*stream);
+                statements.push(quote! {
+                    drop(#owned);
+                });
             }
             Instruction::DecodeForeign(target, data, type_ref, args) => {
                 let target = emit_target(target);
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index e1e13b7..bedef1a 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -15,6 +15,14 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+fn writer_trait(is_async: bool) -> TokenStream {
+    if is_async {
+        quote! { dyn AsyncWrite + Send + Sync + Unpin }
+    } else {
+        quote! { dyn Write }
+    }
+}
+
 struct EncoderContext {
     is_async: bool,
     resolved_refs: HashMap<String, usize>,
@@ -159,13 +167,27 @@ impl EncoderContext {
                         drop(#register);
                     });
                 }
-                Instruction::WrapStream(stream, new_stream, transformer, args) => {
+                Instruction::WrapStream(
+                    stream,
+                    new_stream,
+                    owned_new_stream,
+                    transformer,
+                    args,
+                ) => {
                     let new_stream_value = emit_register(*new_stream);
+                    let owned_new_stream = emit_register(*owned_new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
                     let input = emit_target(stream);
-                    let transformed = transformer.inner.encoding_gen(input, args, self.is_async);
+                    let transformed = transformer.inner.encoding_gen(
+                        quote! { (&mut *#input) },
+                        args,
+                        self.is_async,
+                    );
+                    let trait_name = writer_trait(self.is_async);
                     statements.push(quote! {
-                        let mut #new_stream_value = #transformed;
+                        let mut #owned_new_stream = #transformed;
+                        let mut #new_stream_value: &mut (#trait_name) = &mut #owned_new_stream;
+                        let #new_stream_value = &mut #new_stream_value;
                     })
                 }
                 Instruction::EncodeForeign(target, data, type_ref, args) => {
@@ -334,28 +356,26 @@ impl EncoderContext {
                     let owned_new_stream = emit_register(*owned_new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
                     let input = emit_target(stream);
-                    let transformed =
-                        transformer
-                            .inner
-                            .encoding_gen(input.clone(), args, self.is_async);
+                    let transformed = transformer.inner.encoding_gen(
+                        quote! { (&mut *#input) },
+                        args,
+                        self.is_async,
+                    );
                     let prelude = self.prepare_encode(&prelude[..], false);
 
-                    let trait_name = if self.is_async {
-                        quote! { dyn AsyncWrite + Send + Sync + Unpin }
-                    } else {
-                        quote! { dyn Write }
-                    };
+                    let trait_name = writer_trait(self.is_async);
 
                     //todo: would be nicer to use generics here instead of trait object
                     statements.push(quote! {
                         let mut #owned_new_stream = None;
-                        let #new_stream_value: &mut #trait_name = if #condition {
+                        let mut #new_stream_value: &mut (#trait_name) = if #condition {
                             #prelude
                             #owned_new_stream = Some(#transformed);
                             #owned_new_stream.as_mut().unwrap()
                         } else {
-                            #input as &mut #trait_name
+                            &mut *#input
                         };
+                        let #new_stream_value = &mut #new_stream_value;
                     })
                 }
                 Instruction::UnwrapEnum(
-- 
2.43.0


From c1376b5716de2491f267415d23f91bc3fd1a689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 28/60] fix: a type may contain itself within a container of
 limited length

---
 protospec-build/src/compiler/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 2bce5a6..961b506 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -177,8 +177,11 @@ fn prepare_decode(
                 let stream = emit_target(stream);
                 let new_stream = emit_register(*new_stream);
                 let len = emit_register(*len);
+                let trait_name = reader_trait(is_async);
                 statements.push(quote! {
                     let mut #new_stream = #stream.take(#len as u64);
+                    // a type which contains itself would otherwise be an endless nest of readers
+                    let mut #new_stream: &mut (#trait_name) = &mut #new_stream;
                     let #new_stream = &mut #new_stream;
                 });
             }
-- 
2.43.0


From 035c561a15c2136d67817ed4a28f03d970f84a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:00 +0000
Subject: [PATCH 29/60] fix: asynchronous decoding of unbounded and terminated
 arrays compiles for every element

---
 protospec-build/src/compiler/decoder.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 961b506..7e3db62 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -413,10 +413,12 @@ fn prepare_decode(
                         }
                     });
                 } else if let Some(terminator) = terminator {
-                    let trait_name = if is_async {
-                        quote! { dyn AsyncBufRead + Unpin + Send + Sync }
+                    let trait_name = reader_trait(is_async);
+                    // both kinds of `chain` are in scope, and a `Cursor` has both
+                    let chain = if is_async {
+                        quote! { AsyncReadExt::chain }
                     } else {
-                        quote! { dyn BufRead }
+                        quote! { Read::chain }
                     };
                     statements.push(quote! {
                         let mut #output = Vec::new();
@@ -428,7 +430,7 @@ fn prepare_decode(
                             if ahead.is_empty() || &ahead[..] == &#terminator[..] {
                                 break;
                             }
-                            let mut rest = Cursor::new(ahead).chain(&mut *#target as &mut (#trait_name));
+                            let mut rest = #chain(Cursor::new(ahead), &mut *#target as &mut (#trait_name));
                             {
                                 let #target = &mut rest;
                                 #inner
@@ -438,6 +440,7 @@ fn prepare_decode(
                         }
                     });
                 } else {
+                    let trait_name = reader_trait(is_async);
                     statements.push(quote! {
                         let mut #output = Vec::new();
                         //TODO: optimize this to not buffer with a Peekable type
@@ -447,9 +450,10 @@ fn prepare_decode(
                             let r_len = r.len() as u64;
 
                             {
-                                let mut #target = Cursor::new(r);
-                                let #target = &mut #target;
-                                while #target.position() < r_len {
+                                let mut rest = Cursor::new(r);
+                                while rest.position() < r_len {
+                                    let mut #target: &mut (#trait_name) = &mut rest;
+                                    let #target = &mut #target;
                                     #inner
                                 }
                             }
-- 
2.43.0


From 297d5ad92a94e82705815f5169db4476d9a6adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:01 +0000
Subject: [PATCH 30/60] fix: decoding an unbounded array of elements without
 content does not run forever

---
 protospec-build/src/compiler/decoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 7e3db62..77a1986 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -436,6 +436,9 @@ fn prepare_decode(
                                 #inner
                             }
                             let (unread, _) = rest.into_inner();
+                            if unread.position() == 0 {
+                                return Err(decode_error("endless array of empty elements").into());
+                            }
                             ahead = unread.get_ref()[unread.position() as usize..].to_vec();
                         }
                     });
@@ -452,9 +455,13 @@ fn prepare_decode(
                             {
                                 let mut rest = Cursor::new(r);
                                 while rest.position() < r_len {
+                                    let r_start = rest.position();
                                     let mut #target: &mut (#trait_name) = &mut rest;
                                     let #target = &mut #target;
                                     #inner
+                                    if rest.position() == r_start {
+                                        return Err(decode_error("endless array of empty elements").into());
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From 415559bbc8ea6e525dda49e43aaecea714b3eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 31/60] fix: convert the operand of a unary expression once

---
 protospec-build/src/semantics/convert/expression/unary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/expression/unary.rs b/protospec-build/src/semantics/convert/expression/unary.rs
index 05243b7..0cf311f 100644
--- a/protospec-build/src/semantics/convert/expression/unary.rs
+++ b/protospec-build/src/semantics/convert/expression/unary.rs
@@ -47,7 +47,7 @@ impl Scope {
         }
         Ok(UnaryExpression {
             op: expr.op.clone(),
-            inner: Box::new(Scope::convert_expr(self_, &expr.inner, expected_type)?),
+            inner,
             span: expr.span,
         })
     }
-- 
2.43.0


From 38e299cb250fef7fd06fdfeac6dc503c74fc1036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 32/60] fix: do not convert the left operand again where that
 cannot help

---
 .../semantics/convert/expression/binary.rs    | 58 ++++++++++++++-----
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 3bf9bcd..7ccba80 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -1,5 +1,31 @@
 use super::*;
 
+/// can converting the operand for a more specific type succeed after converting it for `tried` has failed?
+fn worth_retrying(expr: &ast::Expression, tried: &PartialType) -> bool {
+    use ast::BinaryOp::*;
+    let is_bool = match expr {
+        ast::Expression::Binary(x) => {
+            matches!(x.op, Lt | Gt | Lte | Gte | Eq | Ne | Or | And)
+        }
+        _ => false,
+    };
+    match tried {
+        // only an expression whose own type depends on the one expected fails
+        PartialType::Any => match expr {
+            ast::Expression::Int(_) | ast::Expression::Unary(_) | ast::Expression::Ternary(_) => {
+                true
+            }
+            ast::Expression::Binary(x) => !is_bool && x.op != Elvis,
+            _ => false,
+        },
+        // the other operand is of that very type
+        PartialType::Scalar(PartialScalarType::Some(_))
+        | PartialType::Scalar(PartialScalarType::Defaults(_))
+        | PartialType::Type(Type::Bool) => false,
+        _ => !is_bool,
+    }
+}
+
 impl Scope {
     pub(super) fn convert_binary_expression(
         self_: &Arc<RefCell<Scope>>,
@@ -26,24 +52,28 @@ impl Scope {
             Or | And => PartialType::Type(Type::Bool),
             _ => expected_type.clone(),
         };
-        let mut left = Scope::convert_expr(self_, &expr.left, init_expected_type.clone());
-        let right = if let Some(left_type) = left.as_ref().map(|x| x.get_type()).ok().flatten() {
-            Scope::convert_expr(self_, &expr.right, left_type.into())?
-        } else {
-            let right = Scope::convert_expr(self_, &expr.right, init_expected_type)?;
-            if let Some(right_type) = right.get_type() {
-                left = Ok(Scope::convert_expr(self_, &expr.left, right_type.into())?);
-                if left.as_ref().unwrap().get_type().is_none() {
-                    return Err(AsgError::UninferredType(*expr.left.span()));
-                }
-            } else {
-                return Err(AsgError::UninferredType(expr.span));
+        let left = Scope::convert_expr(self_, &expr.left, init_expected_type.clone());
+        let (left, right) = match left {
+            Err(e) if !worth_retrying(&expr.left, &init_expected_type) => return Err(e),
+            Err(_) => {
+                let right = Scope::convert_expr(self_, &expr.right, init_expected_type)?;
+                let right_type = right
+                    .get_type()
+                    .ok_or(AsgError::UninferredType(expr.span))?;
+                let left = Scope::convert_expr(self_, &expr.left, right_type.into())?;
+                (left, right)
+            }
+            Ok(left) => {
+                let left_type = left
+                    .get_type()
+                    .ok_or(AsgError::UninferredType(*expr.left.span()))?;
+                let right = Scope::convert_expr(self_, &expr.right, left_type.into())?;
+                (left, right)
             }
-            right
         };
         Ok(BinaryExpression {
             op: expr.op.clone(),
-            left: Box::new(left.unwrap()),
+            left: Box::new(left),
             right: Box::new(right),
             span: expr.span,
         })
-- 
2.43.0


From 9a90d3995eaf933e5cbf57858860dc860eaa32fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:06 +0000
Subject: [PATCH 33/60] fix: reject a type which is an alias of itself

---
 protospec-build/src/asg/types/mod.rs           | 10 ++++++++++
 protospec-build/src/semantics/convert/field.rs |  4 ++++
 protospec-build/src/semantics/error.rs         |  2 ++
 3 files changed, 16 insertions(+)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 1b638ac..247a46c 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -152,6 +152,16 @@ impl Type {
         }
     }
 
+    /// is this type another name of `field`?
+    pub(crate) fn aliases(&self, field: &Arc<Field>) -> bool {
+        match self {
+            Type::Ref(x) => {
+                Arc::ptr_eq(&x.target, field) || x.target.type_.borrow().aliases(field)
+            }
+            _ => false,
+        }
+    }
+
     /// for a reference to a type which is generated as a newtype (i.e. an alias), the type it wraps
     pub fn newtype_interior(&self) -> Option<Type> {
         match self {
diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 9acb1cd..0b1cd0a 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -134,6 +134,10 @@ impl Scope {
         //     }
         // }
 
+        if into.toplevel && asg_type.aliases(into) {
+            return Err(AsgError::CyclicType(into.name.clone(), into.span));
+        }
+
         into.type_.replace(asg_type);
         into.condition.replace(condition);
         into.transforms.replace(transforms);
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index b92baab..c40beae 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -87,6 +87,8 @@ pub enum AsgError {
     TypeNotAutoCompatible(String, Span),
     #[error("referenced bitfield member `{0}` does not exist @ {1}")]
     BitfieldMemberUndefined(String, Span),
+    #[error("type `{0}` consists of itself @ {1}")]
+    CyclicType(String, Span),
     #[error("unknown: {0}")]
     Unknown(#[from] crate::Error),
 }
-- 
2.43.0


From 3a274057e80426a6959abb442bb66dcef0e9e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:52 +0000
Subject: [PATCH 34/60] fix: compare types which contain themselves

---
 protospec-build/src/asg/field.rs     |  5 ++++-
 protospec-build/src/asg/types/mod.rs | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/field.rs b/protospec-build/src/asg/field.rs
index 6573977..64cb429 100644
--- a/protospec-build/src/asg/field.rs
+++ b/protospec-build/src/asg/field.rs
@@ -60,6 +60,9 @@ impl AsgExpression for Field {
 
 impl PartialEq for Field {
     fn eq(&self, other: &Field) -> bool {
-        self.name == other.name && self.type_.borrow().assignable_from(&other.type_.borrow())
+        // the same field, not least one whose type contains itself
+        std::ptr::eq(self, other)
+            || (self.name == other.name
+                && self.type_.borrow().assignable_from(&other.type_.borrow()))
     }
 }
diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 247a46c..5b4d3aa 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -86,7 +86,22 @@ impl Type {
         }
     }
 
+    /// the container type this is a reference to
+    fn referenced_container(&self) -> Option<Arc<Field>> {
+        match self {
+            Type::Ref(x) => match &*x.target.type_.borrow() {
+                Type::Container(_) => Some(x.target.clone()),
+                interior => interior.referenced_container(),
+            },
+            _ => None,
+        }
+    }
+
     pub fn assignable_from(&self, other: &Type) -> bool {
+        // declared containers are distinct types, and can contain themselves
+        if let (Some(c1), Some(c2)) = (self.referenced_container(), other.referenced_container()) {
+            return Arc::ptr_eq(&c1, &c2);
+        }
         match (self.resolved().as_ref(), other.resolved().as_ref()) {
             (Type::Ref(field1), Type::Ref(field2)) => field1
                 .target
-- 
2.43.0


From 6cde25706c919ca631d59a755c8983096157a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 35/60] fix: use what an alias stands for before its
 declaration

---
 protospec-build/src/semantics/convert/program/field.rs |  7 ++++++-
 protospec-build/src/semantics/convert/program/mod.rs   | 10 ++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/semantics/convert/program/field.rs b/protospec-build/src/semantics/convert/program/field.rs
index 1e59b45..c5805fd 100644
--- a/protospec-build/src/semantics/convert/program/field.rs
+++ b/protospec-build/src/semantics/convert/program/field.rs
@@ -19,7 +19,12 @@ impl Scope {
             name: type_.name.name.clone(),
             arguments: RefCell::new(vec![]),
             span: type_.value.span,
-            type_: RefCell::new(Type::Bool), // placeholder
+            type_: RefCell::new(match &type_.value.type_.raw_type {
+                ast::RawType::Scalar(x) => Type::Scalar(*x),
+                ast::RawType::F32 => Type::F32,
+                ast::RawType::F64 => Type::F64,
+                _ => Type::Bool, // placeholder
+            }),
             condition: RefCell::new(None),
             calculated: RefCell::new(None),
             transforms: RefCell::new(vec![]),
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 0c15ee2..74101b4 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -121,8 +121,14 @@ impl Program {
                 )?);
             }
 
-            // convert rest
-            for ((type_, field), sub_scope) in return_fields.into_iter().zip(sub_scopes.iter()) {
+            // convert rest, aliases before the containers whose expressions can depend on what they stand for
+            let (containers, others): (Vec<_>, Vec<_>) = return_fields
+                .into_iter()
+                .zip(sub_scopes.iter())
+                .partition(|((type_, _), _)| {
+                    matches!(type_.value.type_.raw_type, ast::RawType::Container(_))
+                });
+            for ((type_, field), sub_scope) in others.into_iter().chain(containers) {
                 Scope::convert_ast_field_mid(sub_scope, &type_.value, &field)?;
                 Scope::convert_ast_field_end(sub_scope, &type_.value, &field)?;
             }
-- 
2.43.0


From 203f4f82ac48b42ac1c6c65f227f90b4a01f2ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 36/60] fix: reject a type which is nothing but arrays of
 itself

---
 protospec-build/src/asg/types/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 5b4d3aa..aedbf3a 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -167,12 +167,13 @@ impl Type {
         }
     }
 
-    /// is this type another name of `field`?
+    /// is this type another name of `field`, or nothing but arrays of it?
     pub(crate) fn aliases(&self, field: &Arc<Field>) -> bool {
         match self {
             Type::Ref(x) => {
                 Arc::ptr_eq(&x.target, field) || x.target.type_.borrow().aliases(field)
             }
+            Type::Array(x) => x.element.aliases(field),
             _ => false,
         }
     }
-- 
2.43.0


From 704a25812285caba25d474e7cb22d642b53e377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:57 +0000
Subject: [PATCH 37/60] fix: names which are keywords or parameters of the
 generated code compile

---
 protospec-build/src/compiler/decoder.rs |  4 +-
 protospec-build/src/compiler/encoder.rs |  2 +-
 protospec-build/src/compiler/expr.rs    |  4 +-
 protospec-build/src/compiler/mod.rs     | 55 ++++++++++++++++++-------
 4 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 77a1986..1eaea9d 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -276,7 +276,7 @@ fn prepare_decode(
                 let target = emit_target(target);
                 let value = emit_register(*value);
 
-                let enum_ident = format_ident!("{}", &name);
+                let enum_ident = rust_ident(&name);
                 let length = type_.size() as usize;
                 let decoder = match type_ {
                     PrimitiveType::Scalar(EndianScalarType {
@@ -365,7 +365,7 @@ fn prepare_decode(
             Instruction::DecodeReprArray(target, data, name, type_, len) => {
                 let target = emit_target(target);
                 let data = emit_register(*data);
-                let enum_ident = format_ident!("{}", &name);
+                let enum_ident = rust_ident(&name);
                 let decoder = match type_ {
                     PrimitiveType::Scalar(EndianScalarType {
                         endian: Endian::Little,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index bedef1a..a75a3a2 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -68,7 +68,7 @@ impl EncoderContext {
                                 quote! { &#source }
                             }
                             FieldRef::Name(name) => {
-                                let name = format_ident!("{}", name);
+                                let name = rust_ident(name);
                                 quote! { #source.#name }
                             }
                             FieldRef::ArrayAccess(index) => {
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index b91cb2b..ab1f771 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -290,7 +290,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         Member(c) => {
             let target = emit_expression(&c.target, ref_resolver);
-            let get_member = format_ident!("{}", c.member.name.to_snake());
+            let get_member = rust_ident(&c.member.name.to_snake());
             quote! {
                 #target.#get_member()
             }
@@ -371,7 +371,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         InputRef(c) => {
-            let c = format_ident!("{}", c.name);
+            let c = emit_argument(&c.name);
             quote! {
                 #c
             }
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 5593d14..7f6adab 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -3,7 +3,7 @@ use crate::coder;
 use crate::{BinaryOp, UnaryOp};
 use case::CaseExt;
 use expr::*;
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, TokenStream};
 use quote::TokenStreamExt;
 use quote::{format_ident, quote};
 use std::{sync::Arc, unimplemented};
@@ -163,7 +163,7 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
                 components.push(generate_bitfield(&name, item, options));
             }
             generic => {
-                let ident = format_ident!("{}", global_name(name));
+                let ident = rust_ident(&global_name(name));
                 let type_ref = emit_type_ref(generic);
                 let type_ref = if field.condition.borrow().is_some() {
                     quote! {
@@ -197,7 +197,7 @@ fn ref_resolver(_f: &Arc<Field>) -> TokenStream {
 }
 
 fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
-    let container_ident = format_ident!("{}", global_name(&field.name));
+    let container_ident = rust_ident(&global_name(&field.name));
 
     let mut decode_context = coder::decode::Context::new();
     decode_context.decode_field_top(field);
@@ -211,7 +211,7 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
     let mut arguments = vec![];
     let mut redefaults = vec![];
     for argument in field.arguments.borrow().iter() {
-        let name = emit_ident(&argument.name);
+        let name = emit_argument(&argument.name);
         let type_ref = emit_type_ref(&argument.type_);
         let opt_type_ref = if argument.default_value.is_some() {
             quote! { Option<#type_ref> }
@@ -278,8 +278,31 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
     }
 }
 
+/// the name of something declared in a specification, which can be a keyword of Rust
+fn rust_ident(name: &str) -> Ident {
+    match name {
+        // not even as raw identifiers
+        "self" | "Self" | "super" | "crate" | "_" => format_ident!("{}_", name),
+        "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
+        | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
+        | "pub" | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type"
+        | "unsafe" | "use" | "where" | "while" | "async" | "await" | "dyn" | "abstract"
+        | "become" | "box" | "do" | "final" | "gen" | "macro" | "override" | "priv" | "try"
+        | "typeof" | "unsized" | "virtual" | "yield" => format_ident!("r#{}", name),
+        name => format_ident!("{}", name),
+    }
+}
+
+/// arguments are parameters of the generated functions, next to those which are always there
+fn emit_argument(name: &str) -> TokenStream {
+    let ident = format_ident!("arg_{}", name);
+    quote! {
+        #ident
+    }
+}
+
 fn emit_ident(name: &str) -> TokenStream {
-    let ident = format_ident!("{}", name);
+    let ident = rust_ident(name);
     quote! {
         #ident
     }
@@ -398,7 +421,7 @@ fn generate_container_fields_recur(
                 );
             }
             _ => {
-                let name_ident = format_ident!("{}", name);
+                let name_ident = rust_ident(&name);
                 let type_ref = emit_type_ref(&field.type_.borrow());
                 let type_ref = if conditional || field.condition.borrow().is_some() {
                     quote! {
@@ -427,12 +450,12 @@ pub fn generate_container(
     item: &ContainerType,
     options: &CompileOptions,
 ) -> TokenStream {
-    let name_ident = format_ident!("{}", global_name(name));
+    let name_ident = rust_ident(&global_name(name));
     if item.is_enum.get() {
         let derives = options.emit_enum_derives(&[]);
         let mut fields = vec![];
         for (name, field) in &item.items {
-            let name_ident = format_ident!("{}", name);
+            let name_ident = rust_ident(&name);
             let type_ = field.type_.borrow();
             let type_ref = match &*type_ {
                 Type::Container(sub_container) => {
@@ -458,7 +481,7 @@ pub fn generate_container(
         let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
             let (default_field, field) =
                 item.items.first().expect("missing enum entry for default");
-            let default_field = format_ident!("{}", default_field);
+            let default_field = rust_ident(default_field);
 
             let type_ = field.type_.borrow();
             let default_value = match &*type_ {
@@ -468,7 +491,7 @@ pub fn generate_container(
                         if field.is_pad.get() {
                             continue;
                         }
-                        let name_ident = format_ident!("{}", name);
+                        let name_ident = rust_ident(&name);
 
                         fields.push(quote! {
                             #name_ident: Default::default(),
@@ -519,7 +542,7 @@ pub fn generate_container(
 }
 
 pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> TokenStream {
-    let name_ident = format_ident!("{}", global_name(name));
+    let name_ident = rust_ident(&global_name(name));
     let mut fields = vec![];
     let mut from_repr_matches = vec![];
     let mut to_repr_matches = vec![];
@@ -531,7 +554,7 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     let rep = format_ident!("{}", item.rep.scalar.to_string());
 
     for (name, value) in item.items.iter() {
-        let discriminant_ident = format_ident!("{}", name);
+        let discriminant_ident = rust_ident(name);
         match value {
             EnumValue::Value(value) => {
                 let value = eval_const_expression(&value.value);
@@ -583,7 +606,7 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
 
     let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
         let (default_field, value) = item.items.first().expect("missing enum entry for default");
-        let default_field = format_ident!("{}", default_field);
+        let default_field = rust_ident(default_field);
         let default_value = match value {
             EnumValue::Value(_) => quote! {},
             EnumValue::Default => quote! { (Default::default()) },
@@ -657,15 +680,15 @@ pub fn generate_bitfield(
     item: &BitfieldType,
     options: &CompileOptions,
 ) -> TokenStream {
-    let name_ident = format_ident!("{}", global_name(bitfield_name));
+    let name_ident = rust_ident(&global_name(bitfield_name));
     let mut fields = vec![];
     let mut funcs = vec![];
     let mut all_fields = ConstInt::parse(item.rep.scalar, "0", crate::Span::default()).unwrap();
     // let zero = all_fields;
 
     for (name, cons) in item.items.iter() {
-        let name_ident = format_ident!("{}", name.to_snake().to_uppercase());
-        let get_name = format_ident!("{}", name.to_snake());
+        let name_ident = rust_ident(&name.to_snake().to_uppercase());
+        let get_name = rust_ident(&name.to_snake());
         let set_name = format_ident!("set_{}", name.to_snake());
         let value = eval_const_expression(&cons.value);
         if value.is_none() {
-- 
2.43.0


From a4120558f21e17ac3c4079ca43f909414a1bee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:44 +0000
Subject: [PATCH 38/60] fix: calculated fields and arguments of alias types
 compile

---
 protospec-build/src/coder/encode/container.rs   | 11 +++++++++++
 protospec-build/src/coder/encode/instruction.rs |  3 +++
 protospec-build/src/compiler/encoder.rs         |  7 +++++++
 protospec-build/src/compiler/expr.rs            | 12 ++++++++++++
 protospec-build/src/compiler/mod.rs             |  7 ++++++-
 5 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 75e1463..37bab50 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -65,12 +65,22 @@ impl Context {
                 let calculated_register = self.alloc_register();
                 self.instructions
                     .push(Instruction::Eval(calculated_register, calculated.clone()));
+                self.wrap_calculated(calculated_register, &field);
                 self.instructions
                     .push(Instruction::SetRef(name, calculated_register));
             }
         }
     }
 
+    /// expressions are typed by what an alias stands for, fields by the alias itself
+    fn wrap_calculated(&mut self, register: usize, field: &Field) {
+        let type_ = field.type_.borrow();
+        if type_.newtype_interior().is_some() {
+            self.instructions
+                .push(Instruction::WrapNewtype(register, type_.clone()));
+        }
+    }
+
     fn eval_blen_expr(
         &mut self,
         blens: &[String],
@@ -91,6 +101,7 @@ impl Context {
         let calculated_register = self.alloc_register();
         self.instructions
             .push(Instruction::Eval(calculated_register, calculated));
+        self.wrap_calculated(calculated_register, field);
         self.instructions
             .push(Instruction::SetRef(field.name.clone(), calculated_register));
         calculated_register
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 4c0f1e6..5597e08 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -9,6 +9,8 @@ use super::*;
 pub enum Instruction {
     /// dest, expression
     Eval(usize, Expression),
+    /// dest, type which is generated as a newtype
+    WrapNewtype(usize, Type),
     /// dest, source, ops
     GetField(usize, usize, Vec<FieldRef>),
     /// dest, ref name
@@ -89,6 +91,7 @@ impl fmt::Display for Instruction {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Instruction::Eval(dest, expression) => write!(f, "Eval({}, {:?})", dest, expression),
+            Instruction::WrapNewtype(dest, type_) => write!(f, "WrapNewtype({}, {})", dest, type_),
             Instruction::GetField(dest, source, ops) => {
                 write!(f, "GetField({}, {}, {:?})", dest, source, ops)
             }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index a75a3a2..27091c0 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -59,6 +59,13 @@ impl EncoderContext {
                         let #target = #value;
                     });
                 }
+                Instruction::WrapNewtype(target, type_) => {
+                    let target = emit_register(*target);
+                    let value = wrap_newtype(quote! { #target }, type_);
+                    statements.push(quote! {
+                        let #target = #value;
+                    });
+                }
                 Instruction::GetField(target, source, op) => {
                     let target = emit_register(*target);
                     let mut source = emit_register(*source);
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index ab1f771..3c69c34 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -247,6 +247,18 @@ fn unwrap_newtype(mut value: TokenStream, mut type_: Type) -> TokenStream {
     value
 }
 
+/// the inverse of [`unwrap_newtype`]
+pub fn wrap_newtype(value: TokenStream, type_: &Type) -> TokenStream {
+    match type_.newtype_interior() {
+        Some(inner) => {
+            let name = emit_type_ref(type_);
+            let value = wrap_newtype(value, &inner);
+            quote! { #name(#value) }
+        }
+        None => value,
+    }
+}
+
 pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     expr: &Expression,
     ref_resolver: &F,
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 7f6adab..72dd3fe 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -212,7 +212,12 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
     let mut redefaults = vec![];
     for argument in field.arguments.borrow().iter() {
         let name = emit_argument(&argument.name);
-        let type_ref = emit_type_ref(&argument.type_);
+        // expressions are typed by what an alias stands for
+        let mut type_ = argument.type_.clone();
+        while let Some(interior) = type_.newtype_interior() {
+            type_ = interior;
+        }
+        let type_ref = emit_type_ref(&type_);
         let opt_type_ref = if argument.default_value.is_some() {
             quote! { Option<#type_ref> }
         } else {
-- 
2.43.0


From 3b657e71eebed4a4f44841f930a6b60eea451aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 39/60] fix: generate all of an imported file, and reject files
 which import themselves

---
 protospec-build/src/asg/program.rs            |  2 +
 protospec-build/src/compiler/mod.rs           | 21 +++++++
 .../src/semantics/convert/program/field.rs    |  9 ++-
 .../src/semantics/convert/program/import.rs   | 55 ++++++++++++++++++-
 .../src/semantics/convert/program/mod.rs      |  3 +-
 .../src/semantics/convert/program/resolve.rs  |  7 ++-
 protospec-build/src/semantics/error.rs        |  2 +
 protospec-build/src/semantics/mod.rs          |  2 +-
 8 files changed, 94 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/asg/program.rs b/protospec-build/src/asg/program.rs
index 8d53e93..e54d18e 100644
--- a/protospec-build/src/asg/program.rs
+++ b/protospec-build/src/asg/program.rs
@@ -6,6 +6,8 @@ pub struct Program {
     pub consts: IndexMap<String, Arc<Const>>,
     pub transforms: IndexMap<String, Arc<Transform>>,
     pub functions: IndexMap<String, Arc<Function>>,
+    /// every type of the imported files, by the name it has there
+    pub imported: IndexMap<String, Arc<Field>>,
 }
 
 impl Program {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 72dd3fe..5134f3b 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -151,6 +151,27 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
         #errors
     });
     for (name, field) in program.types.iter() {
+        // imported under another name
+        if *name != field.name
+            && !program.imported.contains_key(name)
+            && !matches!(&*field.type_.borrow(), Type::Foreign(_))
+        {
+            let alias = rust_ident(&global_name(name));
+            let ident = rust_ident(&global_name(&field.name));
+            components.push(quote! {
+                pub type #alias = #ident;
+            });
+        }
+    }
+    let imported = program
+        .imported
+        .iter()
+        .filter(|(name, _)| program.types.get(*name).map_or(true, |x| x.name != **name));
+    let declared = program
+        .types
+        .iter()
+        .filter(|(name, field)| **name == field.name);
+    for (name, field) in declared.chain(imported) {
         match &*field.type_.borrow() {
             Type::Foreign(_) => continue,
             Type::Container(item) => {
diff --git a/protospec-build/src/semantics/convert/program/field.rs b/protospec-build/src/semantics/convert/program/field.rs
index c5805fd..3fe6eec 100644
--- a/protospec-build/src/semantics/convert/program/field.rs
+++ b/protospec-build/src/semantics/convert/program/field.rs
@@ -7,7 +7,14 @@ impl Scope {
         type_: &TypeDeclaration,
         program: &RefCell<Program>,
     ) -> AsgResult<Arc<Field>> {
-        if let Some(defined) = program.borrow().types.get(&type_.name.name) {
+        let defined = {
+            let program = program.borrow();
+            let defined = program.types.get(&type_.name.name);
+            defined
+                .or_else(|| program.imported.get(&type_.name.name))
+                .cloned()
+        };
+        if let Some(defined) = defined {
             return Err(AsgError::TypeRedefinition(
                 type_.name.name.clone(),
                 type_.span,
diff --git a/protospec-build/src/semantics/convert/program/import.rs b/protospec-build/src/semantics/convert/program/import.rs
index 13e130c..ffe7bca 100644
--- a/protospec-build/src/semantics/convert/program/import.rs
+++ b/protospec-build/src/semantics/convert/program/import.rs
@@ -19,9 +19,35 @@ impl Scope {
                     import_item.name.name.clone()
                 };
                 if let Some(t) = cached.types.get(&import_item.name.name) {
-                    program.borrow_mut().types.insert(imported_name, t.clone());
+                    let replaced = program
+                        .borrow_mut()
+                        .types
+                        .insert(imported_name.clone(), t.clone());
+                    match replaced {
+                        Some(defined) if !Arc::ptr_eq(&defined, t) => {
+                            return Err(AsgError::TypeRedefinition(
+                                imported_name,
+                                import_item.name.span,
+                                defined.span,
+                            ));
+                        }
+                        _ => (),
+                    }
                 } else if let Some(t) = cached.consts.get(&import_item.name.name) {
-                    program.borrow_mut().consts.insert(imported_name, t.clone());
+                    let replaced = program
+                        .borrow_mut()
+                        .consts
+                        .insert(imported_name.clone(), t.clone());
+                    match replaced {
+                        Some(defined) if !Arc::ptr_eq(&defined, t) => {
+                            return Err(AsgError::ConstRedefinition(
+                                imported_name,
+                                import_item.name.span,
+                                defined.span,
+                            ));
+                        }
+                        _ => (),
+                    }
                 } else if let Some(t) = cached.transforms.get(&import_item.name.name) {
                     program
                         .borrow_mut()
@@ -35,8 +61,31 @@ impl Scope {
                     ));
                 }
             }
+            Scope::import_all_types(import, &mut *program.borrow_mut(), cached)
         } else {
-            return Err(AsgError::ImportMissing(normalized, import.span));
+            Err(AsgError::ImportMissing(normalized, import.span))
+        }
+    }
+
+    /// code is generated for all of an imported file: what is imported can consist of the rest of it
+    fn import_all_types(
+        import: &ImportDeclaration,
+        program: &mut Program,
+        cached: &Program,
+    ) -> AsgResult<()> {
+        let declared = cached.types.values().chain(cached.imported.values());
+        for field in declared.filter(|x| !matches!(&*x.type_.borrow(), Type::Foreign(_))) {
+            let replaced = program.imported.insert(field.name.clone(), field.clone());
+            match replaced {
+                Some(defined) if !Arc::ptr_eq(&defined, field) => {
+                    return Err(AsgError::TypeRedefinition(
+                        field.name.clone(),
+                        import.span,
+                        defined.span,
+                    ));
+                }
+                _ => (),
+            }
         }
         Ok(())
     }
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 74101b4..2bc0d4b 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -17,7 +17,7 @@ impl Program {
     ) -> AsgResult<Program> {
         let mut cached_imports: IndexMap<String, Program> = IndexMap::new();
 
-        Program::from_ast_imports(ast, resolver, &mut cached_imports)?;
+        Program::from_ast_imports(ast, resolver, &mut cached_imports, &mut IndexSet::new())?;
         Program::from_ast_imported(ast, resolver, &cached_imports)
     }
 
@@ -31,6 +31,7 @@ impl Program {
             consts: IndexMap::new(),
             transforms: IndexMap::new(),
             functions: IndexMap::new(),
+            imported: IndexMap::new(),
         }));
 
         {
diff --git a/protospec-build/src/semantics/convert/program/resolve.rs b/protospec-build/src/semantics/convert/program/resolve.rs
index 042cc22..e3cb932 100644
--- a/protospec-build/src/semantics/convert/program/resolve.rs
+++ b/protospec-build/src/semantics/convert/program/resolve.rs
@@ -5,6 +5,7 @@ impl Program {
         ast: &ast::Program,
         resolver: &T,
         cache: &mut IndexMap<String, Program>,
+        pending: &mut IndexSet<String>,
     ) -> AsgResult<()> {
         for declaration in ast.declarations.iter() {
             match declaration {
@@ -12,6 +13,8 @@ impl Program {
                     let content = String::from_utf8_lossy(&import.from.content[..]).into_owned();
                     let normalized = resolver.normalize_import(&content[..])?;
                     if let Some(_cached) = cache.get(&normalized) {
+                    } else if pending.contains(&normalized) {
+                        return Err(AsgError::ImportCycle(content, import.from.span));
                     } else {
                         let loaded = resolver.resolve_import(&normalized)?;
                         if let Some(loaded) = loaded {
@@ -21,7 +24,9 @@ impl Program {
                                     return Err(AsgError::ImportParse(content, import.from.span, e))
                                 }
                             };
-                            Program::from_ast_imports(&parsed, resolver, cache)?;
+                            pending.insert(normalized.clone());
+                            Program::from_ast_imports(&parsed, resolver, cache, pending)?;
+                            pending.remove(&normalized);
                             let asg = Program::from_ast_imported(&parsed, resolver, cache)?;
                             cache.insert(normalized, asg);
                         } else {
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index c40beae..7b22d1b 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -13,6 +13,8 @@ pub enum AsgError {
     ImportMissing(String, Span),
     #[error("unresolved import item '{0}' does not exist in module {1} @ {2}")]
     ImportUnresolved(String, String, Span),
+    #[error("import '{0}' @ {1} imports itself")]
+    ImportCycle(String, Span),
     #[error("failed to parse import file '{0}' @ {1}: {2}")]
     ImportParse(String, Span, crate::parser::ParseError),
     #[error("type name already in use: '{0}' @ {1}, originally declared at {2}")]
diff --git a/protospec-build/src/semantics/mod.rs b/protospec-build/src/semantics/mod.rs
index 596dd46..d10371e 100644
--- a/protospec-build/src/semantics/mod.rs
+++ b/protospec-build/src/semantics/mod.rs
@@ -3,7 +3,7 @@ use crate::ImportResolver;
 use crate::Span;
 use crate::{asg::*, ScalarType};
 use ast::Node;
-use indexmap::IndexMap;
+use indexmap::{IndexMap, IndexSet};
 use std::cell::{Cell, RefCell};
 use std::fmt;
 use std::{sync::Arc, unimplemented};
-- 
2.43.0


From cb9fdead49a7ebb4a6a1c6da3507e46160ddd33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:26 +0000
Subject: [PATCH 40/60] fix: types named like the type parameters of the
 generated functions compile

---
 protospec-build/src/compiler/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 5134f3b..7d4a126 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -272,13 +272,13 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
         let decode_async = decoder::prepare_decoder(options, &decode_context, true);
         quote! {
             #async_recursion
-            pub async fn encode_async<W: tokio::io::AsyncWrite + Send + Sync + Unpin>(&self, writer: &mut W #arguments) -> Result<()> {
+            pub async fn encode_async<PsWriter: tokio::io::AsyncWrite + Send + Sync + Unpin>(&self, writer: &mut PsWriter #arguments) -> Result<()> {
                 #redefaults
                 #encode_async
             }
 
             #async_recursion
-            pub async fn decode_async<R: tokio::io::AsyncBufRead + Send + Sync + Unpin>(reader: &mut R #arguments) -> Result<Self> {
+            pub async fn decode_async<PsReader: tokio::io::AsyncBufRead + Send + Sync + Unpin>(reader: &mut PsReader #arguments) -> Result<Self> {
                 #redefaults
                 #decode_async
             }
@@ -289,12 +289,12 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
 
     quote! {
         impl #container_ident {
-            pub fn decode_sync<R: Read + BufRead>(reader: &mut R #arguments) -> Result<Self> {
+            pub fn decode_sync<PsReader: Read + BufRead>(reader: &mut PsReader #arguments) -> Result<Self> {
                 #redefaults
                 #decode_sync
             }
 
-            pub fn encode_sync<W: std::io::Write>(&self, writer: &mut W #arguments) -> Result<()> {
+            pub fn encode_sync<PsWriter: std::io::Write>(&self, writer: &mut PsWriter #arguments) -> Result<()> {
                 #redefaults
                 #encode_sync
             }
-- 
2.43.0


From 195f6dfa36ec832ac57c53a32119606e63a9cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:21 +0000
Subject: [PATCH 41/60] fix: calculate the fields of a conditional container
 once it is known to be there

---
 protospec-build/src/coder/encode/container.rs | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 37bab50..aecc36f 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -56,22 +56,31 @@ impl Context {
     }
 
     fn encode_container_calculated(&mut self, container: &ContainerType) {
-        for (name, field) in container.flatten_view() {
-            let calculated = field.calculated.borrow();
-            if let Some(calculated) = &*calculated {
-                if !calculated.blen_calls().is_empty() {
-                    continue;
-                }
-                let calculated_register = self.alloc_register();
-                self.instructions
-                    .push(Instruction::Eval(calculated_register, calculated.clone()));
-                self.wrap_calculated(calculated_register, &field);
-                self.instructions
-                    .push(Instruction::SetRef(name, calculated_register));
+        for field in container.items.values() {
+            match &*field.type_.borrow() {
+                // can depend on fields which are only there when the condition is met
+                Type::Container(_) if field.condition.borrow().is_some() => (),
+                Type::Container(interior) => self.encode_container_calculated(interior),
+                _ => self.encode_calculated(field),
             }
         }
     }
 
+    fn encode_calculated(&mut self, field: &Arc<Field>) {
+        let calculated = field.calculated.borrow();
+        if let Some(calculated) = &*calculated {
+            if !calculated.blen_calls().is_empty() {
+                return;
+            }
+            let calculated_register = self.alloc_register();
+            self.instructions
+                .push(Instruction::Eval(calculated_register, calculated.clone()));
+            self.wrap_calculated(calculated_register, field);
+            self.instructions
+                .push(Instruction::SetRef(field.name.clone(), calculated_register));
+        }
+    }
+
     /// expressions are typed by what an alias stands for, fields by the alias itself
     fn wrap_calculated(&mut self, register: usize, field: &Field) {
         let type_ = field.type_.borrow();
@@ -273,6 +282,11 @@ impl Context {
                 self.encode_container_calculated(type_);
             } else {
                 self.nullcheck_container_refs(type_, conditional);
+                if conditional {
+                    for child in type_.items.values() {
+                        self.encode_calculated(child);
+                    }
+                }
             }
             self.encode_container_items(type_, buf_target, source, conditional);
         }
-- 
2.43.0


From 9159daba3e3b2aa61ca8a90443186d2e3f7e1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:20 +0000
Subject: [PATCH 42/60] fix: a container used before its declaration is no bool

---
 protospec-build/src/semantics/convert/program/field.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/program/field.rs b/protospec-build/src/semantics/convert/program/field.rs
index 3fe6eec..4451500 100644
--- a/protospec-build/src/semantics/convert/program/field.rs
+++ b/protospec-build/src/semantics/convert/program/field.rs
@@ -30,7 +30,13 @@ impl Scope {
                 ast::RawType::Scalar(x) => Type::Scalar(*x),
                 ast::RawType::F32 => Type::F32,
                 ast::RawType::F64 => Type::F64,
-                _ => Type::Bool, // placeholder
+                // placeholders
+                ast::RawType::Container(_) => Type::Container(Box::new(ContainerType {
+                    length: None,
+                    items: IndexMap::new(),
+                    is_enum: Cell::new(false),
+                })),
+                _ => Type::Bool,
             }),
             condition: RefCell::new(None),
             calculated: RefCell::new(None),
-- 
2.43.0


From d9ffbcbd13d94bedeeeb2eeeac3e6ceb2673c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 43/60] fix: an alias of an alias stands for the same type
 before its declaration

---
 .../src/semantics/convert/program/mod.rs         | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 2bc0d4b..04aea8b 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -112,6 +112,22 @@ impl Program {
                 }
             }
 
+            // what aliases stand for, for expressions which are converted before them
+            for (type_, field) in &return_fields {
+                if let ast::RawType::Ref(reference) = &type_.value.type_.raw_type {
+                    let target = program.borrow().types.get(&reference.name.name).cloned();
+                    if let Some(target) = target {
+                        let alias = Type::Ref(TypeRef {
+                            target,
+                            arguments: vec![],
+                        });
+                        if !alias.aliases(field) {
+                            field.type_.replace(alias);
+                        }
+                    }
+                }
+            }
+
             // convert arguments
             let mut sub_scopes = vec![];
             for (type_, field) in &return_fields {
-- 
2.43.0


From 8dbc59d1d711bada6d377cf7a90f1f282105588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:52 +0000
Subject: [PATCH 44/60] fix: a calculated field of an alias type can be used
 more than once

---
 protospec-build/src/compiler/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 27091c0..96cb8ca 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -63,7 +63,7 @@ impl EncoderContext {
                     let target = emit_register(*target);
                     let value = wrap_newtype(quote! { #target }, type_);
                     statements.push(quote! {
-                        let #target = #value;
+                        let #target = &#value;
                     });
                 }
                 Instruction::GetField(target, source, op) => {
-- 
2.43.0


From f92085bbee55f1cf8b1b8fcc5f781cf7668aeb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 45/60] fix: two arguments of a type cannot have the same name

---
 protospec-build/src/semantics/convert/field.rs | 10 ++++++++++
 protospec-build/src/semantics/error.rs         |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 0b1cd0a..3d9f3e6 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -16,6 +16,16 @@ impl Scope {
         let mut arguments = vec![];
         if let Some(ast_arguments) = ast_arguments {
             for argument in ast_arguments {
+                if sub_scope
+                    .borrow()
+                    .declared_inputs
+                    .contains_key(&argument.name.name)
+                {
+                    return Err(AsgError::TypeArgumentRedefinition(
+                        argument.name.name.clone(),
+                        argument.name.span,
+                    ));
+                }
                 let target_type = Scope::convert_ast_type(
                     &sub_scope,
                     &argument.type_.raw_type,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 7b22d1b..f653b8a 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -71,6 +71,8 @@ pub enum AsgError {
     InvalidFFIArgumentCount(usize, usize, usize, Span),
     #[error("invalid number of arguments for type, expected {0} to {1} arguments, got {2} @ {3}")]
     InvalidTypeArgumentCount(usize, usize, usize, Span),
+    #[error("type argument name already in use: '{0}' @ {1}")]
+    TypeArgumentRedefinition(String, Span),
     #[error("cannot have required arguments after optional arguments for type @ {0}")]
     InvalidTypeArgumentOrder(Span),
     #[error("invalid or unknown flag '{0}' @ {1}")]
-- 
2.43.0


From 6512968749b3e1aa9b07c0b6815af23d4dc95dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 46/60] fix: a field called like a type does not hide that a
 type contains itself

---
 protospec-build/src/asg/types/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index aedbf3a..677b99f 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -211,10 +211,9 @@ impl Type {
                 interior.element.get_indirect_contained_fields(target);
             }
             Type::Container(interior) => {
+                // fields of an inline container can be called like any type
                 for (_, field) in &interior.items {
-                    if target.insert(field.name.clone()) {
-                        field.get_indirect_contained_fields(target);
-                    }
+                    field.get_indirect_contained_fields(target);
                 }
             }
             Type::Ref(call) => {
-- 
2.43.0


From 44122b29e49a3a083076cd5f938a7463ea47b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 47/60] fix: a pad does not replace a field called like it

---
 protospec-build/src/semantics/convert/type_/container.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 8691dec..424e1bb 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -94,7 +94,8 @@ impl Scope {
                     if is_enum {
                         return Err(AsgError::EnumContainerPad(*expr.span()));
                     }
-                    let name = format!("_pad{}", pad_count);
+                    // no name a field could have
+                    let name = format!(".pad{}", pad_count);
                     pad_count += 1;
 
                     let len = Scope::convert_expr(
-- 
2.43.0


From b5017c47ebfcdb5b2a3024cbd383b1110f27a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 48/60] fix: variants of a tagged enum cannot refer to each
 other

---
 .../src/semantics/convert/type_/container.rs          | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 424e1bb..46d6bb6 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -84,10 +84,13 @@ impl Scope {
                         had_unconditional_field = true;
                     }
 
-                    sub_scope
-                        .borrow_mut()
-                        .declared_fields
-                        .insert(name.name.clone(), field_out.clone());
+                    // only one variant of a tagged enum is there
+                    if !is_enum {
+                        sub_scope
+                            .borrow_mut()
+                            .declared_fields
+                            .insert(name.name.clone(), field_out.clone());
+                    }
                     items.insert(name.name.clone(), field_out);
                 }
                 ContainerItem::Pad(expr) => {
-- 
2.43.0


From c68703b17fdd69b6bf3e686ff835d7b08b013600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:11 +0000
Subject: [PATCH 49/60] fix: a calculated variant of a tagged enum is encoded
 as its calculation

---
 protospec-build/src/coder/encode/container.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index aecc36f..9b976c1 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -263,7 +263,17 @@ impl Context {
                             "mismatch betweeen condition and enum discriminant".to_string(),
                         ));
 
-                        self.encode_field_unconditional(buf_target, unwrapped, child, false, false);
+                        let value = match &*child.calculated.borrow() {
+                            Some(calculated) => {
+                                let value = self.alloc_register();
+                                self.instructions
+                                    .push(Instruction::Eval(value, calculated.clone()));
+                                self.wrap_calculated(value, child);
+                                value
+                            }
+                            None => unwrapped,
+                        };
+                        self.encode_field_unconditional(buf_target, value, child, false, false);
                         self.instructions.push(Instruction::Break);
                     }
                 }
-- 
2.43.0


From dc67aa63ce696ae427afab06b0974d7937e4f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 50/60] fix: blen() of a container is not that of another of
 the same name

---
 protospec-build/src/coder/encode/container.rs | 38 +++++++++++--------
 protospec-build/src/coder/encode/mod.rs       |  8 ++--
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 9b976c1..9a2c74f 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -7,6 +7,11 @@ use crate::Span;
 
 use super::*;
 
+/// what identifies a blen target, as different containers can have fields of the same name
+fn auto_key(field: &Arc<Field>) -> usize {
+    Arc::as_ptr(field) as usize
+}
+
 impl Context {
     fn encode_container_refs(&mut self, container: &ContainerType, source: usize) {
         for (name, field) in container.flatten_view() {
@@ -92,15 +97,16 @@ impl Context {
 
     fn eval_blen_expr(
         &mut self,
-        blens: &[String],
+        blens: &[usize],
         field: &Arc<Field>,
         calculated: &Expression,
     ) -> usize {
         let mut blen_map = HashMap::new();
-        for target_name in blens {
-            let register = *self.resolved_autos.get(target_name).unwrap();
-            let blen_name = format!("__blen_{}", target_name);
-            blen_map.insert(target_name.clone(), blen_name.clone());
+        for target in blens {
+            let register = *self.resolved_autos.get(target).unwrap();
+            // no name a field could have
+            let blen_name = format!(".blen{}", register);
+            blen_map.insert(*target, blen_name.clone());
             self.instructions
                 .push(Instruction::SetRef(blen_name, register));
         }
@@ -133,7 +139,7 @@ impl Context {
                     for target in &blen_calls {
                         if !self.resolved_autos.contains_key(target) {
                             all_resolved = false;
-                            self.pending_autos.insert(target.clone());
+                            self.pending_autos.insert(*target);
                         }
                     }
                     if all_resolved {
@@ -200,7 +206,7 @@ impl Context {
             //todo: use limited stream
             let buf = self.alloc_register();
             // we avoid cyclic dependency during encoding by ignoring container length constraint if we're a blen-target
-            if self.pending_autos.contains(&field.name) {
+            if self.pending_autos.contains(&auto_key(field)) {
                 self.instructions.push(Instruction::AllocDynBuf(buf));
             } else {
                 let len_register = self.alloc_register();
@@ -302,14 +308,14 @@ impl Context {
         }
 
         if type_.length.is_some() {
-            if self.pending_autos.remove(&field.name) {
+            if self.pending_autos.remove(&auto_key(field)) {
                 let target = self.alloc_register();
                 self.instructions.push(Instruction::GetLen(
                     target,
                     buf_target.unwrap_buf(),
                     Some(ScalarType::U64),
                 ));
-                self.resolved_autos.insert(field.name.clone(), target);
+                self.resolved_autos.insert(auto_key(field), target);
             }
             self.instructions
                 .push(Instruction::EmitBuf(target, buf_target.unwrap_buf()));
@@ -318,7 +324,7 @@ impl Context {
 }
 
 impl Expression {
-    fn rewrite_blen_calls(&mut self, map: &HashMap<String, String>) {
+    fn rewrite_blen_calls(&mut self, map: &HashMap<usize, String>) {
         match self {
             Expression::Binary(expr) => {
                 expr.left.rewrite_blen_calls(map);
@@ -352,11 +358,11 @@ impl Expression {
                 }
                 if expr.function.name == "blen" {
                     let target = expr.arguments.first().unwrap();
-                    let name = match target {
-                        Expression::FieldRef(f) => f.name.clone(),
+                    let key = match target {
+                        Expression::FieldRef(f) => auto_key(f),
                         _ => panic!("invalid blen target, expected field ref"), // todo: better error message
                     };
-                    let new_name = map.get(&name).expect("malformed blen map");
+                    let new_name = map.get(&key).expect("malformed blen map");
                     *self = Expression::FieldRef(Arc::new(Field {
                         name: new_name.clone(),
                         arguments: RefCell::new(vec![]),
@@ -377,13 +383,13 @@ impl Expression {
         }
     }
 
-    fn blen_calls(&self) -> Vec<String> {
+    fn blen_calls(&self) -> Vec<usize> {
         let mut out = HashSet::new();
         self.extract_magic_blen_calls(&mut out);
         out.into_iter().collect()
     }
 
-    fn extract_magic_blen_calls(&self, output: &mut HashSet<String>) {
+    fn extract_magic_blen_calls(&self, output: &mut HashSet<usize>) {
         match self {
             Expression::Binary(expr) => {
                 expr.left.extract_magic_blen_calls(output);
@@ -418,7 +424,7 @@ impl Expression {
                 if expr.function.name == "blen" {
                     let target = expr.arguments.first().unwrap();
                     output.insert(match target {
-                        Expression::FieldRef(f) => f.name.clone(),
+                        Expression::FieldRef(f) => auto_key(f),
                         _ => panic!("invalid blen target, expected field ref"), // todo: better error message
                     });
                 }
diff --git a/protospec-build/src/coder/encode/mod.rs b/protospec-build/src/coder/encode/mod.rs
index c0a2268..241f84b 100644
--- a/protospec-build/src/coder/encode/mod.rs
+++ b/protospec-build/src/coder/encode/mod.rs
@@ -23,10 +23,10 @@ pub use var_ref::*;
 pub struct Context {
     pub register_count: usize,
     pub instructions: Vec<Instruction>,
-    // map of resolved field name -> register
-    pub resolved_autos: IndexMap<String, usize>,
-    // set of pending field name
-    pub pending_autos: IndexSet<String>,
+    // map of resolved field (address of it) -> register
+    pub resolved_autos: IndexMap<usize, usize>,
+    // set of pending fields (addresses of them)
+    pub pending_autos: IndexSet<usize>,
 }
 
 impl Context {
-- 
2.43.0


From 66134454aea899f1a082ed1944e0355e853c7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:51 +0000
Subject: [PATCH 51/60] fix: blen() of a container which is not there is 0

---
 protospec-build/src/coder/encode/container.rs | 46 +++++++++++++++----
 protospec-build/src/coder/encode/field.rs     |  4 ++
 protospec-build/src/coder/encode/mod.rs       |  3 ++
 3 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 9a2c74f..4985e1f 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -95,6 +95,35 @@ impl Context {
         }
     }
 
+    fn resolve_auto(&mut self, field: &Arc<Field>, buf: usize) {
+        if self.pending_autos.remove(&auto_key(field)) {
+            let target = self.alloc_register();
+            self.instructions.push(Instruction::GetLen(
+                target,
+                buf,
+                Some(ScalarType::U64),
+            ));
+            self.resolved_autos.insert(auto_key(field), target);
+        }
+    }
+
+    /// the length of a blen target is needed outside of its condition, it is 0 if the field is not there
+    pub(super) fn alloc_conditional_auto(&mut self, field: &Arc<Field>) -> bool {
+        let is_auto = self.pending_autos.contains(&auto_key(field));
+        if is_auto {
+            let buf = self.alloc_register();
+            self.instructions.push(Instruction::AllocDynBuf(buf));
+            self.conditional_autos.insert(auto_key(field), buf);
+        }
+        is_auto
+    }
+
+    pub(super) fn resolve_conditional_auto(&mut self, field: &Arc<Field>) {
+        if let Some(buf) = self.conditional_autos.remove(&auto_key(field)) {
+            self.resolve_auto(field, buf);
+        }
+    }
+
     fn eval_blen_expr(
         &mut self,
         blens: &[usize],
@@ -204,9 +233,12 @@ impl Context {
     ) {
         let buf_target = if let Some(length) = &type_.length {
             //todo: use limited stream
-            let buf = self.alloc_register();
+            let conditional_buf = self.conditional_autos.get(&auto_key(field)).copied();
+            let buf = conditional_buf.unwrap_or_else(|| self.alloc_register());
             // we avoid cyclic dependency during encoding by ignoring container length constraint if we're a blen-target
-            if self.pending_autos.contains(&auto_key(field)) {
+            if conditional_buf.is_some() {
+                // allocated before the condition
+            } else if self.pending_autos.contains(&auto_key(field)) {
                 self.instructions.push(Instruction::AllocDynBuf(buf));
             } else {
                 let len_register = self.alloc_register();
@@ -308,14 +340,8 @@ impl Context {
         }
 
         if type_.length.is_some() {
-            if self.pending_autos.remove(&auto_key(field)) {
-                let target = self.alloc_register();
-                self.instructions.push(Instruction::GetLen(
-                    target,
-                    buf_target.unwrap_buf(),
-                    Some(ScalarType::U64),
-                ));
-                self.resolved_autos.insert(auto_key(field), target);
+            if !self.conditional_autos.contains_key(&auto_key(field)) {
+                self.resolve_auto(field, buf_target.unwrap_buf());
             }
             self.instructions
                 .push(Instruction::EmitBuf(target, buf_target.unwrap_buf()));
diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 4a89403..5380d82 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -40,6 +40,7 @@ impl Context {
         conditional: bool,
     ) {
         let field_condition = self.encode_field_condition(field);
+        let is_auto = field_condition.is_some() && self.alloc_conditional_auto(field);
         let start = self.instructions.len();
 
         self.encode_field_unconditional(
@@ -55,6 +56,9 @@ impl Context {
             self.instructions
                 .push(Instruction::Conditional(field_condition, drained, vec![]));
         }
+        if is_auto {
+            self.resolve_conditional_auto(field);
+        }
     }
 
     pub fn encode_field_unconditional(
diff --git a/protospec-build/src/coder/encode/mod.rs b/protospec-build/src/coder/encode/mod.rs
index 241f84b..9863c13 100644
--- a/protospec-build/src/coder/encode/mod.rs
+++ b/protospec-build/src/coder/encode/mod.rs
@@ -27,6 +27,8 @@ pub struct Context {
     pub resolved_autos: IndexMap<usize, usize>,
     // set of pending fields (addresses of them)
     pub pending_autos: IndexSet<usize>,
+    // map of pending field under a condition -> buffer, which stays empty if the field is not there
+    pub conditional_autos: IndexMap<usize, usize>,
 }
 
 impl Context {
@@ -44,6 +46,7 @@ impl Context {
             register_count: 0,
             resolved_autos: IndexMap::new(),
             pending_autos: IndexSet::new(),
+            conditional_autos: IndexMap::new(),
         }
     }
 
-- 
2.43.0


From 6496d57c96eed104770083af532a4029a8badfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 52/60] fix: a tagged enum none of whose conditions holds is
 not encoded as nothing

---
 protospec-build/src/coder/encode/container.rs   | 8 ++++++++
 protospec-build/src/coder/encode/instruction.rs | 3 +++
 protospec-build/src/compiler/encoder.rs         | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 4985e1f..c0f9357 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -322,6 +322,14 @@ impl Context {
                         .push(Instruction::Conditional(condition, drained, vec![]));
                 }
             }
+            if let Some((_, last)) = type_.items.last() {
+                if last.condition.borrow().is_some() {
+                    self.instructions.push(Instruction::Error(format!(
+                        "no enum conditions matched for {}",
+                        field.name
+                    )));
+                }
+            }
             let drained = self.instructions.drain(break_start..).collect();
             self.instructions.push(Instruction::BreakBlock(drained));
         } else {
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 5597e08..0205011 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -75,6 +75,8 @@ pub enum Instruction {
     /// instructions
     BreakBlock(Vec<Instruction>),
     Break,
+    /// message
+    Error(String),
 }
 
 fn write_arguments(f: &mut fmt::Formatter<'_>, arguments: &[usize]) -> fmt::Result {
@@ -245,6 +247,7 @@ impl fmt::Display for Instruction {
                 Ok(())
             }
             Instruction::Break => write!(f, "Break()"),
+            Instruction::Error(message) => write!(f, "Error('{}')", message),
         }
     }
 }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 96cb8ca..2b9d14c 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -461,6 +461,11 @@ impl EncoderContext {
                         break 'bb;
                     });
                 }
+                Instruction::Error(message) => {
+                    statements.push(quote! {
+                        return Err(encode_error(#message).into());
+                    });
+                }
                 Instruction::Pad(target, length) => {
                     let length = emit_register(*length);
                     let target = emit_target(target);
-- 
2.43.0


From be67eb9cdcf536e46828e52d934b62c145fc7f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:36 +0000
Subject: [PATCH 53/60] fix: transforms of an enum or bitfield apply to arrays
 of it

---
 protospec-build/src/asg/types/mod.rs      | 12 ++++++++++++
 protospec-build/src/coder/decode/array.rs |  1 +
 protospec-build/src/coder/encode/array.rs |  1 +
 3 files changed, 14 insertions(+)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 677b99f..97f6bf1 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -189,6 +189,18 @@ impl Type {
         }
     }
 
+    /// is there more to a type than what it stands for, which only its own functions encode and decode?
+    pub(crate) fn is_modified(&self) -> bool {
+        match self {
+            Type::Ref(x) => {
+                x.target.condition.borrow().is_some()
+                    || x.target.calculated.borrow().is_some()
+                    || !x.target.transforms.borrow().is_empty()
+            }
+            _ => false,
+        }
+    }
+
     pub fn copyable(&self) -> bool {
         if self.newtype_interior().is_some() {
             return false;
diff --git a/protospec-build/src/coder/decode/array.rs b/protospec-build/src/coder/decode/array.rs
index 7c0c8a2..ee8a289 100644
--- a/protospec-build/src/coder/decode/array.rs
+++ b/protospec-build/src/coder/decode/array.rs
@@ -27,6 +27,7 @@ impl Context {
         if terminator.is_none() {
             let type_ = match type_.element.newtype_interior() {
                 Some(_) => Cow::Borrowed(&*type_.element),
+                None if type_.element.is_modified() => Cow::Borrowed(&*type_.element),
                 None => type_.element.resolved(),
             };
             match &*type_ {
diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 7d6703c..00d35f4 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -40,6 +40,7 @@ impl Context {
         if terminator.is_none() {
             let type_ = match type_.element.newtype_interior() {
                 Some(_) => Cow::Borrowed(&*type_.element),
+                None if type_.element.is_modified() => Cow::Borrowed(&*type_.element),
                 None => type_.element.resolved(),
             };
             let primitive_type = match &*type_ {
-- 
2.43.0


From 53914ac894a19d86113a49e38e2367ae71e03bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:36 +0000
Subject: [PATCH 54/60] fix: a calculated type is encoded as its calculation

---
 protospec-build/src/coder/encode/container.rs | 2 +-
 protospec-build/src/coder/encode/field.rs     | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index c0f9357..6f9db1f 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -87,7 +87,7 @@ impl Context {
     }
 
     /// expressions are typed by what an alias stands for, fields by the alias itself
-    fn wrap_calculated(&mut self, register: usize, field: &Field) {
+    pub(super) fn wrap_calculated(&mut self, register: usize, field: &Field) {
         let type_ = field.type_.borrow();
         if type_.newtype_interior().is_some() {
             self.instructions
diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 5380d82..c14f1c1 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -3,9 +3,15 @@ use super::*;
 impl Context {
     pub fn encode_field_top(&mut self, field: &Arc<Field>) {
         let top = self.alloc_register(); // implicitly set to self/equivalent
+        let calculated = field.calculated.borrow();
         match &*field.type_.borrow() {
             Type::Foreign(_) => return,
             Type::Container(_) => (),
+            _ if calculated.is_some() => {
+                self.instructions
+                    .push(Instruction::Eval(top, calculated.clone().unwrap()));
+                self.wrap_calculated(top, field);
+            }
             Type::Enum(_) => (),
             Type::Bitfield(_) => (),
             type_ => {
-- 
2.43.0


From 108403c63fab4d1f4f299200d0782f1628c2a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:34 +0000
Subject: [PATCH 55/60] fix: transforms of a container variant of a tagged enum
 are applied

---
 protospec-build/src/coder/encode/container.rs |  4 ++-
 protospec-build/src/coder/encode/field.rs     | 33 ++++++++++++++-----
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 6f9db1f..348c12b 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -288,7 +288,9 @@ impl Context {
                             self.instructions.push(Instruction::SetRef(name, register));
                         }
                         self.encode_container_calculated(type_);
-                        self.encode_container_items(type_, buf_target, source, false);
+                        let (target, streams) = self.encode_transforms(buf_target, child);
+                        self.encode_container_items(type_, target, source, false);
+                        self.encode_transforms_end(&streams);
                         self.instructions.push(Instruction::Break);
                     }
                     _ => {
diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index c14f1c1..98aac9c 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -67,14 +67,12 @@ impl Context {
         }
     }
 
-    pub fn encode_field_unconditional(
+    /// the target which is to be written for what is written to `target` to be transformed, and the streams to end then
+    pub(super) fn encode_transforms(
         &mut self,
         mut target: Target,
-        source: usize,
         field: &Arc<Field>,
-        self_conditional: bool,
-        total_conditional: bool,
-    ) {
+    ) -> (Target, Vec<(usize, usize)>) {
         let mut new_streams = vec![];
 
         for transform in field.transforms.borrow().iter().rev() {
@@ -121,6 +119,26 @@ impl Context {
             target = Target::Stream(new_stream);
         }
 
+        (target, new_streams)
+    }
+
+    pub(super) fn encode_transforms_end(&mut self, streams: &[(usize, usize)]) {
+        for (stream, owned_stream) in streams.iter().rev() {
+            self.instructions.push(Instruction::EndStream(*stream));
+            self.instructions.push(Instruction::Drop(*owned_stream));
+        }
+    }
+
+    pub fn encode_field_unconditional(
+        &mut self,
+        target: Target,
+        source: usize,
+        field: &Arc<Field>,
+        self_conditional: bool,
+        total_conditional: bool,
+    ) {
+        let (target, new_streams) = self.encode_transforms(target, field);
+
         let is_psuedocontainer =
             !field.toplevel && matches!(&*field.type_.borrow(), Type::Container(_));
 
@@ -158,9 +176,6 @@ impl Context {
             type_ => self.encode_complex_type(field, type_, target, source, total_conditional),
         }
 
-        for (stream, owned_stream) in new_streams.iter().rev() {
-            self.instructions.push(Instruction::EndStream(*stream));
-            self.instructions.push(Instruction::Drop(*owned_stream));
-        }
+        self.encode_transforms_end(&new_streams);
     }
 }
-- 
2.43.0


From 16915808ed7a408a3c0bcb12261f75e7ecfc1164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 56/60] fix: an argument is not there for its own default

---
 protospec-build/src/semantics/convert/field.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 3d9f3e6..da57d7b 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -31,6 +31,12 @@ impl Scope {
                     &argument.type_.raw_type,
                     TypePurpose::Expression,
                 )?;
+                // an argument is not there for its own default
+                let default_value = argument
+                    .default_value
+                    .as_ref()
+                    .map(|expr| Scope::convert_expr(&sub_scope, expr, target_type.clone().into()))
+                    .transpose()?;
                 sub_scope.borrow_mut().declared_inputs.insert(
                     argument.name.name.clone(),
                     Arc::new(Input {
@@ -40,12 +46,8 @@ impl Scope {
                 );
                 arguments.push(TypeArgument {
                     name: argument.name.name.clone(),
-                    type_: target_type.clone(),
-                    default_value: argument
-                        .default_value
-                        .as_ref()
-                        .map(|expr| Scope::convert_expr(&sub_scope, expr, target_type.into()))
-                        .transpose()?,
+                    type_: target_type,
+                    default_value,
                     can_resolve_auto: false,
                 });
             }
-- 
2.43.0


From 22798047e319e6cc44a7e7b6900d6b7960406aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:03 +0000
Subject: [PATCH 57/60] fix: required arguments after optional ones are always
 rejected

---
 protospec-build/src/semantics/convert/type_/type_ref.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/semantics/convert/type_/type_ref.rs b/protospec-build/src/semantics/convert/type_/type_ref.rs
index 74c94ff..ff87b89 100644
--- a/protospec-build/src/semantics/convert/type_/type_ref.rs
+++ b/protospec-build/src/semantics/convert/type_/type_ref.rs
@@ -12,10 +12,9 @@ impl Scope {
                 .filter(|x| x.default_value.is_none())
                 .count();
             // optionals MUST be at the end
-            if min_arg_count < type_.arguments.len()
-                && target_args[..min_arg_count]
-                    .iter()
-                    .any(|x| x.default_value.is_some())
+            if target_args[..min_arg_count]
+                .iter()
+                .any(|x| x.default_value.is_some())
             {
                 return Err(AsgError::InvalidTypeArgumentOrder(type_.span));
             }
-- 
2.43.0


From 4221c9b5ffb894c8513b2562f1b0393d94349368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:43 +0000
Subject: [PATCH 58/60] fix: the span of an enum access covers its variant

---
 protospec-build/src/parser/expression/primary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/parser/expression/primary.rs b/protospec-build/src/parser/expression/primary.rs
index f7dde4c..3a22bdd 100644
--- a/protospec-build/src/parser/expression/primary.rs
+++ b/protospec-build/src/parser/expression/primary.rs
@@ -18,7 +18,7 @@ pub fn parse_primary_expression(t: &mut TokenIter) -> ParseResult<Expression> {
             if t.eat(Token::DoubleColon).is_some() {
                 let variant = t.expect_ident()?;
                 Expression::EnumAccess(EnumAccessExpression {
-                    span: ident.span + ident.span,
+                    span: ident.span + variant.span,
                     name: ident,
                     variant,
                 })
-- 
2.43.0


From 28e0b467128163c572104dd65484403648b69349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:46 +0000
Subject: [PATCH 59/60] fix: members of enums and bitfields stand where they
 are declared

---
 protospec-build/src/semantics/convert/type_/bitfield.rs | 2 +-
 protospec-build/src/semantics/convert/type_/enum_.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/semantics/convert/type_/bitfield.rs b/protospec-build/src/semantics/convert/type_/bitfield.rs
index 910efcd..4014cb9 100644
--- a/protospec-build/src/semantics/convert/type_/bitfield.rs
+++ b/protospec-build/src/semantics/convert/type_/bitfield.rs
@@ -21,7 +21,7 @@ impl Scope {
             //todo: static eval here
             let cons = Arc::new(Const {
                 name: name.name.clone(),
-                span: type_.span,
+                span: name.span,
                 type_: Type::Scalar(type_.rep),
                 value: match item {
                     Some(expr) => Scope::convert_expr(
diff --git a/protospec-build/src/semantics/convert/type_/enum_.rs b/protospec-build/src/semantics/convert/type_/enum_.rs
index 393da03..ef9e513 100644
--- a/protospec-build/src/semantics/convert/type_/enum_.rs
+++ b/protospec-build/src/semantics/convert/type_/enum_.rs
@@ -60,7 +60,7 @@ impl Scope {
                     }
                     EnumValue::Value(Arc::new(Const {
                         name: name.name.clone(),
-                        span: type_.span,
+                        span: name.span,
                         type_: Type::Scalar(type_.rep),
                         value,
                     }))
-- 
2.43.0


From 85b03850f6684e508372d6c3bc3e2e79c4978b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:57 +0000
Subject: [PATCH 60/60] fix: a value of 64 floating-point bits fits where one
 is expected

---
 protospec-build/src/asg/types/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 97f6bf1..fecfc46 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -118,6 +118,7 @@ impl Type {
             (Type::Scalar(s1), Type::Scalar(s2)) => s2 == s1,
             (Type::Array(a1), Type::Array(a2)) => a1 == a2,
             (Type::F32, Type::F32) => true,
+            (Type::F64, Type::F64) => true,
             (Type::F64, Type::F32) => true,
             (Type::Bool, Type::Bool) => true,
             (_, _) => false,
-- 
2.43.0


From 4f33254fba416340f02c99d0c199b8c58f46f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 01/14] fix: reject an empty bit string that claims unused bits

Its size() underflowed: a panic in debug builds and an endless
iteration past the end of the slice in release builds.
---
 rx509/src/der/parser.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 0d78e35..dd2572b 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -155,10 +155,13 @@ fn parse_bit_string(contents: &[u8]) -> ASNResult {
         return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
     }
 
-    Ok(BitString::asn(ASNBitString::new(
-        unused_bits,
-        &contents[1..],
-    )))
+    let bytes = &contents[1..];
+    if bytes.is_empty() && unused_bits != 0 {
+        // there is no final octet that could hold unused bits
+        return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
+    }
+
+    Ok(BitString::asn(ASNBitString::new(unused_bits, bytes)))
 }
 
 fn parse_object_identifier(contents: &[u8]) -> ASNResult {
-- 
2.43.0


From 01de73ed2de5233e89a6e98f5ffc7581cdb28bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 02/14] fix: advance through the bits of a KeyUsage extension

`offset += offset` never left bit zero, so every bit overwrote
digital_signature and no other usage was ever reported.
---
 rx509/src/x509/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index f7a4e09..86a8b8b 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -185,7 +185,7 @@ impl KeyUsage {
                 8 => key_usage.decipher_only = bit,
                 _ => {}
             }
-            offset += offset;
+            offset += 1;
         }
         Ok(key_usage)
     }
-- 
2.43.0


From 7ca02d84c9e5a7e0d593ae32a00a9c91ccc9f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 03/14] fix: walk nested DER with an explicit stack in
 parse_all

The recursion overflowed the stack, which aborts the process, on deeply
nested input of a few hundred kilobytes.
---
 rx509/src/der/parse_all.rs | 44 +++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/rx509/src/der/parse_all.rs b/rx509/src/der/parse_all.rs
index b57017a..7718948 100644
--- a/rx509/src/der/parse_all.rs
+++ b/rx509/src/der/parse_all.rs
@@ -9,33 +9,33 @@ pub trait ParseHandler {
 }
 
 pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASNError> {
-    for result in Parser::new(input) {
-        match result {
-            Err(err) => {
+    // the parsers of the constructed types being visited, outermost first. An explicit
+    // stack, as the nesting depth is chosen by whoever produced the input.
+    let mut parsers = vec![Parser::new(input)];
+
+    while let Some(parser) = parsers.last_mut() {
+        match parser.next() {
+            None => {
+                parsers.pop();
+                if !parsers.is_empty() {
+                    handler.end_constructed();
+                }
+            }
+            Some(Err(err)) => {
                 let err = err.into();
                 handler.on_error(&err);
                 return Err(err);
             }
-            Ok(asn) => {
+            Some(Ok(asn)) => {
                 handler.on_type(&asn);
-                match asn {
-                    ASNType::Sequence(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::ExplicitTag(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value.contents, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::Set(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    _ => (),
-                }
+                let contents = match asn {
+                    ASNType::Sequence(wrapper) => wrapper.value,
+                    ASNType::ExplicitTag(wrapper) => wrapper.value.contents,
+                    ASNType::Set(wrapper) => wrapper.value,
+                    _ => continue,
+                };
+                handler.begin_constructed();
+                parsers.push(Parser::new(contents));
             }
         }
     }
-- 
2.43.0


From 169ef62363b19195635eec97a5f5d6e4cd0050a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 04/14] fix: don't take a truncated element for the end of the
 input

expect_or_end reported a clean end when the last element was cut short,
so truncated names, extensions, alternative names and key usages were
accepted with the incomplete element silently dropped.
---
 rx509/src/der/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index dd2572b..cfce5a7 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -435,11 +435,11 @@ impl<'a> Parser<'a> {
     pub(crate) fn expect_or_end<T: ASNWrapperType<'a>>(
         &mut self,
     ) -> Result<Option<T::Item>, ASNErrorVariant> {
-        match self.expect::<T>() {
-            Ok(value) => Ok(Some(value)),
-            Err(ASNErrorVariant::EndOfStream) => Ok(None),
-            Err(err) => Err(err),
+        if self.reader.is_empty() {
+            return Ok(None);
         }
+
+        self.expect::<T>().map(Some)
     }
 
     pub(crate) fn expect_any(&mut self) -> Result<ASNType<'a>, ASNErrorVariant> {
-- 
2.43.0


From 22b32b5aa4f7eb8e4a5223fbd9f777002fd8c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 05/14] fix: reject bytes left over in the remaining fixed
 structures

AlgorithmIdentifier, SubjectKeyIdentifier, KeyUsage, BasicConstraints and
the version tag ignored whatever followed their last field.
---
 rx509/src/der/parser.rs |  4 +++-
 rx509/src/x509/ext.rs   |  7 +++----
 rx509/src/x509/mod.rs   | 12 ++++++------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index cfce5a7..97f21c5 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -357,7 +357,9 @@ impl<'a> Parser<'a> {
         match self.get_optional_explicit_tag(tag)? {
             Some(tag) => {
                 let mut parser = Parser::new(tag.contents);
-                Ok(Some(parser.expect::<T>()?))
+                let value = parser.expect::<T>()?;
+                parser.expect_end()?;
+                Ok(Some(value))
             }
             None => Ok(None),
         }
diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 86a8b8b..5ec7795 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -124,8 +124,7 @@ pub struct SubjectKeyIdentifier<'a> {
 
 impl<'a> SubjectKeyIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<SubjectKeyIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let key_identifier = parser.expect::<OctetString>()?;
+        let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;
         Ok(SubjectKeyIdentifier { key_identifier })
     }
 }
@@ -157,8 +156,7 @@ pub struct KeyUsage {
 
 impl KeyUsage {
     fn parse(input: &[u8]) -> Result<KeyUsage, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let bit_string = parser.expect::<BitString>()?;
+        let bit_string = Parser::parse_all(input, |parser| parser.expect::<BitString>())?;
 
         let mut key_usage = KeyUsage {
             digital_signature: false,
@@ -346,6 +344,7 @@ impl BasicConstraints {
             },
             None => Ok(None),
         }?;
+        parser.expect_end()?;
 
         Ok(BasicConstraints {
             ca,
diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 4a1d470..94d5449 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -394,12 +394,12 @@ impl<'a> Certificate<'a> {
 
 impl<'a> AlgorithmIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<AlgorithmIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-
-        Ok(AlgorithmIdentifier::new(
-            parser.expect::<ObjectIdentifier>()?,
-            parser.expect_any_or_end()?,
-        ))
+        Parser::parse_all(input, |parser| {
+            Ok(AlgorithmIdentifier::new(
+                parser.expect::<ObjectIdentifier>()?,
+                parser.expect_any_or_end()?,
+            ))
+        })
     }
 
     pub fn new(algorithm: ASNObjectIdentifier, parameters: Option<ASNType>) -> AlgorithmIdentifier {
-- 
2.43.0


From b20927dc25dd3908adfe7b79c16310296b77a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 06/14] fix: reject bytes after the 'Z' of a time

They were ignored, so different encodings decoded to the same time.
---
 rx509/src/der/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 97f21c5..59d153d 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -130,7 +130,7 @@ fn parse_time(contents: &[u8], time_type: TimeType) -> ASNResult {
     let time_zone = reader
         .read_byte()
         .map_err(|_| ASNErrorVariant::BadUTCTime)?;
-    if time_zone != b'Z' {
+    if time_zone != b'Z' || !reader.is_empty() {
         return Err(ASNErrorVariant::BadUTCTime);
     }
 
-- 
2.43.0


From 1bca09b9e456ee721ad6565fc299afbac2564a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 07/14] fix: decode the first two arcs of an object identifier
 as DER does

The first subidentifier is base-128 like the others and its root arc is
at most 2: 2.40 and above came out as 3.0 and up, and 2.48 and above as
unrelated longer identifiers. Subidentifiers with leading zero digits are
not DER and are now refused.
---
 rx509/src/der/parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 59d153d..ed02ed0 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -178,6 +178,11 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
             let has_next: bool = (next_byte & 0b1000_0000) != 0;
             let value: u32 = (next_byte & 0b0111_1111) as u32;
 
+            // DER only allows the shortest encoding, i.e. no leading zero digits
+            if count == 0 && has_next && value == 0 {
+                return Err(ASNErrorVariant::BadOidLength);
+            }
+
             sum <<= 7;
             sum += value;
 
@@ -193,10 +198,13 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
 
     let mut items: Vec<u32> = Vec::new();
 
-    let first_byte = reader.read_byte()?;
+    // the first subidentifier combines the first two arcs: only the arcs 0 and 1
+    // limit the second one to [0..39]
+    let first = parse_one(&mut reader)?;
+    let root = core::cmp::min(first / 40, 2);
 
-    items.push((first_byte / 40) as u32);
-    items.push((first_byte % 40) as u32);
+    items.push(root);
+    items.push(first - root * 40);
 
     while !reader.is_empty() {
         items.push(parse_one(&mut reader)?);
-- 
2.43.0


From f3ea57b806b82259abc8b57a663be640637c9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 08/14] fix: decode negative and four byte integers in as_i32

Negative values came out as positive ones, and the four byte integers
that the comment announces were refused.
---
 rx509/src/der/types.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index 63870dc..9bba187 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -53,7 +53,7 @@ impl Identifier {
 }
 
 impl<'a> ASNInteger<'a> {
-    const VALID_I32_LENGTHS: core::ops::Range<usize> = 1usize..4usize;
+    const VALID_I32_LENGTHS: core::ops::Range<usize> = 1usize..5usize;
 
     pub fn new(bytes: &'a [u8]) -> ASNInteger {
         ASNInteger { bytes }
@@ -65,7 +65,9 @@ impl<'a> ASNInteger<'a> {
             return None;
         }
 
-        let mut acc: i32 = 0;
+        // DER integers are two's complement: start from the sign
+        let negative = self.bytes.first().map_or(false, |byte| byte & 0x80 != 0);
+        let mut acc: i32 = if negative { -1 } else { 0 };
         for byte in self.bytes {
             acc <<= 8;
             acc |= *byte as i32;
-- 
2.43.0


From 97ef104fbdbc821dd44c9761cc446143b9a866f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 09/14] fix: parse the unique identifiers of a certificate as
 IMPLICIT bit strings

RFC 5280 tags issuerUniqueID and subjectUniqueID implicitly; certificates
carrying them were refused.
---
 rx509/src/x509/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 94d5449..753606f 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -459,9 +459,10 @@ impl<'a> TBSCertificate<'a> {
         ) -> Result<Option<ASNBitString<'a>>, ASNErrorVariant> {
             // TODO: check minimum version
             match parser.get_optional_explicit_tag(tag)? {
-                Some(tag) => Parser::parse_all(tag.contents, |parser| {
-                    Ok(Some(parser.expect::<BitString>()?))
-                }),
+                // both unique ids are IMPLICIT: the tag replaces the one of the bit string
+                Some(tag) => Ok(Some(
+                    Parser::new(tag.contents).parse_implicit::<BitString>()?,
+                )),
                 None => Ok(None),
             }
         }
-- 
2.43.0


From ecbb60c206ca79a48d4da28914f820c88d6dd59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:09 +0000
Subject: [PATCH 10/14] fix: refuse context-specific tags in the multi-byte
 form

Their number was read as 31 and its bytes as the length and contents of
the element, so the rest of the input was decoded from a wrong position.
---
 rx509/src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index ed02ed0..8309df2 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -295,11 +295,12 @@ fn read_type(id: &Identifier) -> Option<(ASNTypeId, u8)> {
             _ => None,
         },
 
+        // 0x1F announces a tag number in the following bytes
         Identifier {
             class: TagClass::ContextSpecific,
             tag,
             ..
-        } => Some((ASNTypeId::ExplicitTag, *tag)),
+        } if *tag != 0x1F => Some((ASNTypeId::ExplicitTag, *tag)),
 
         _ => None,
     }
-- 
2.43.0


From 4e743a505dd64f136dd999f2158b50271f209547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 11/14] fix: don't walk the contents of primitive
 context-specific tags

A primitive tag stands for an implicitly tagged primitive type, such as the
unique identifiers of a certificate. parse_all took its contents for nested
elements, reporting elements that don't exist or failing. The form of the
tag is kept in ASNExplicitTag.
---
 rx509/src/der/parse_all.rs |  4 +++-
 rx509/src/der/parser.rs    |  4 ++++
 rx509/src/der/types.rs     | 16 +++++++++++++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/rx509/src/der/parse_all.rs b/rx509/src/der/parse_all.rs
index 7718948..b3a6357 100644
--- a/rx509/src/der/parse_all.rs
+++ b/rx509/src/der/parse_all.rs
@@ -30,7 +30,9 @@ pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASN
                 handler.on_type(&asn);
                 let contents = match asn {
                     ASNType::Sequence(wrapper) => wrapper.value,
-                    ASNType::ExplicitTag(wrapper) => wrapper.value.contents,
+                    ASNType::ExplicitTag(wrapper) if wrapper.value.constructed => {
+                        wrapper.value.contents
+                    }
                     ASNType::Set(wrapper) => wrapper.value,
                     _ => continue,
                 };
diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 8309df2..f7ffca5 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -255,6 +255,10 @@ fn parse_one_type<'a>(reader: &mut Reader<'a>) -> ASNResult<'a> {
     let id = Identifier::from(reader.read_byte()?);
 
     match read_type(&id) {
+        Some((ASNTypeId::ExplicitTag, tag)) if id.pc == PC::Primitive => {
+            let contents = get_contents(reader)?;
+            Ok(ExplicitTag::asn(ASNExplicitTag::primitive(tag, contents)))
+        }
         Some((asn_type, tag)) => {
             let contents = get_contents(reader)?;
             parse_content(&asn_type, tag, contents)
diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index 9bba187..b774d07 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -160,12 +160,26 @@ impl<'a> Iterator for ASNBitStringIterator<'a> {
 #[derive(Debug, PartialEq, Eq)]
 pub struct ASNExplicitTag<'a> {
     pub value: u8,
+    // whether the contents are elements, otherwise they are those of an implicitly tagged type
+    pub constructed: bool,
     pub contents: &'a [u8],
 }
 
 impl<'a> ASNExplicitTag<'a> {
     pub fn new(value: u8, contents: &'a [u8]) -> ASNExplicitTag<'a> {
-        ASNExplicitTag { value, contents }
+        ASNExplicitTag {
+            value,
+            constructed: true,
+            contents,
+        }
+    }
+
+    pub fn primitive(value: u8, contents: &'a [u8]) -> ASNExplicitTag<'a> {
+        ASNExplicitTag {
+            value,
+            constructed: false,
+            contents,
+        }
     }
 }
 
-- 
2.43.0


From 0a7ee8aabecff31d24fc3d16c8ef546e66de3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 12/14] fix: take file names that are no valid Unicode

The decoder panicked on them before opening the file.
---
 decoder/src/main.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/decoder/src/main.rs b/decoder/src/main.rs
index 2027dcc..a41f210 100644
--- a/decoder/src/main.rs
+++ b/decoder/src/main.rs
@@ -1,6 +1,7 @@
 mod der_printer;
 
 use std::env;
+use std::ffi::{OsStr, OsString};
 use std::fs::File;
 use std::io::prelude::*;
 use std::process;
@@ -9,7 +10,7 @@ use rx509::der::parse_all;
 use rx509::x509::printer::{ConsoleLinePrinter, Printable};
 use rx509::x509::Certificate;
 
-fn get_bytes(file: &str) -> Result<Vec<u8>, std::io::Error> {
+fn get_bytes(file: &OsStr) -> Result<Vec<u8>, std::io::Error> {
     let mut f = File::open(file)?;
     let mut vec: Vec<u8> = Vec::new();
     f.read_to_end(&mut vec)?;
@@ -33,18 +34,18 @@ pub fn main() -> Result<(), std::io::Error> {
         Ok(())
     }
 
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<OsString> = env::args_os().collect();
 
     if args.len() != 3 {
         eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
         process::exit(-1);
     }
 
-    match args[1].as_str() {
-        "--der" => parse_der(&get_bytes(&args[2])?),
-        "--certs" => parse_x509(&get_bytes(&args[2])?),
-        unknown => {
-            eprintln!("Unknown flag: {}", unknown);
+    match args[1].to_str() {
+        Some("--der") => parse_der(&get_bytes(&args[2])?),
+        Some("--certs") => parse_x509(&get_bytes(&args[2])?),
+        _ => {
+            eprintln!("Unknown flag: {}", args[1].to_string_lossy());
             process::exit(-1);
         }
     }
-- 
2.43.0


From 83159f351556e470568bc52d65f19d160d7f00fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 13/14] fix: a key usage of 2^31 or more bits overflowed the
 bit counter

---
 rx509/src/x509/ext.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 5ec7795..8d8621e 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -169,8 +169,7 @@ impl KeyUsage {
             encipher_only: false,
             decipher_only: false,
         };
-        let mut offset = 0;
-        for bit in bit_string.iter() {
+        for (offset, bit) in bit_string.iter().enumerate() {
             match offset {
                 0 => key_usage.digital_signature = bit,
                 1 => key_usage.content_commitment = bit,
@@ -183,7 +182,6 @@ impl KeyUsage {
                 8 => key_usage.decipher_only = bit,
                 _ => {}
             }
-            offset += 1;
         }
         Ok(key_usage)
     }
-- 
2.43.0


From 1050da92aa6e0e9b55100d7de1c2acaa28dd04b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 14/14] fix: refuse context-specific tags in the wrong form

An explicit tag is constructed, and one that stands for a primitive type is
primitive. The version and extensions tags were accepted as primitive ones, the
unique identifiers and alternative names as constructed ones, whose contents
(elements) were then read as the value.
---
 rx509/src/der/parser.rs | 8 +++++++-
 rx509/src/x509/ext.rs   | 5 +++++
 rx509/src/x509/mod.rs   | 4 ++--
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index f7ffca5..955755f 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -367,7 +367,7 @@ impl<'a> Parser<'a> {
         &mut self,
         tag: u8,
     ) -> Result<Option<T::Item>, ASNErrorVariant> {
-        match self.get_optional_explicit_tag(tag)? {
+        match self.get_optional_explicit_tag(tag, PC::Constructed)? {
             Some(tag) => {
                 let mut parser = Parser::new(tag.contents);
                 let value = parser.expect::<T>()?;
@@ -378,9 +378,12 @@ impl<'a> Parser<'a> {
         }
     }
 
+    // `pc` is the form DER prescribes for the tagged type: explicit tags are constructed,
+    // implicit ones have the form of the type they stand for
     pub(crate) fn get_optional_explicit_tag(
         &mut self,
         tag: u8,
+        pc: PC,
     ) -> Result<Option<ASNExplicitTag<'a>>, ASNErrorVariant> {
         if self.reader.is_empty() {
             return Ok(None);
@@ -390,6 +393,9 @@ impl<'a> Parser<'a> {
 
         match read_type(&id) {
             Some((ASNTypeId::ExplicitTag, actual_tag)) if tag == actual_tag => {
+                if id.pc != pc {
+                    return Err(ASNErrorVariant::UnsupportedId(id));
+                }
                 Ok(Some(self.expect::<ExplicitTag>()?))
             }
             Some(_) => Ok(None),
diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 8d8621e..12f6e57 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -280,6 +280,11 @@ impl<'a> SubjectAlternativeName<'a> {
         let mut names: Vec<GeneralName> = Vec::new();
 
         while let Some(tag) = parser.expect_or_end::<ExplicitTag>()? {
+            // the supported types are all primitive, and so are their implicit tags
+            if tag.constructed {
+                return Err(ASNErrorVariant::UnexpectedTag(tag.value));
+            }
+
             let mut parser = Parser::new(tag.contents);
             match tag.value {
                 // TODO: parse the other types
diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 753606f..b259abb 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -458,7 +458,7 @@ impl<'a> TBSCertificate<'a> {
             tag: u8,
         ) -> Result<Option<ASNBitString<'a>>, ASNErrorVariant> {
             // TODO: check minimum version
-            match parser.get_optional_explicit_tag(tag)? {
+            match parser.get_optional_explicit_tag(tag, PC::Primitive)? {
                 // both unique ids are IMPLICIT: the tag replaces the one of the bit string
                 Some(tag) => Ok(Some(
                     Parser::new(tag.contents).parse_implicit::<BitString>()?,
@@ -471,7 +471,7 @@ impl<'a> TBSCertificate<'a> {
             parser: &mut Parser<'a>,
         ) -> Result<Option<Extensions<'a>>, ASNErrorVariant> {
             // TODO: check minimum version
-            if let Some(tag) = parser.get_optional_explicit_tag(3)? {
+            if let Some(tag) = parser.get_optional_explicit_tag(3, PC::Constructed)? {
                 Ok(Some(Extensions::new(tag.contents)))
             } else {
                 Ok(None)
-- 
2.43.0


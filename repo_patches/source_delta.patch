From 2fde0709559e8912b5a88e6ca4c2600a74c953e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:58 +0000
Subject: [PATCH 001/112] verif hooks: expose private modules to the library
 under cfg(av1enc_verif)

---
 src/lib.rs | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0966ba7..4ff9074 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,4 +5,45 @@ mod cdf;
 mod common;
 mod block;
 mod frame;
-mod sequence_header;
\ No newline at end of file
+mod sequence_header;
+
+// Verification hooks, compiled only with RUSTFLAGS="--cfg av1enc_verif".
+// They add nothing to a normal build: the modules that otherwise belong to the
+// binary are compiled into the library, and the private modules are re-exported.
+#[cfg(av1enc_verif)] #[macro_use] extern crate lazy_static;
+#[cfg(av1enc_verif)] mod option;
+#[cfg(av1enc_verif)] mod binary_reader;
+#[cfg(av1enc_verif)] mod binary_writer;
+#[cfg(av1enc_verif)] mod quantizer;
+#[cfg(av1enc_verif)] mod obu;
+#[cfg(av1enc_verif)] mod obu_encoder;
+#[cfg(av1enc_verif)] mod tile_encoder;
+#[cfg(av1enc_verif)] mod encoder;
+
+#[cfg(av1enc_verif)]
+#[allow(non_snake_case)]
+pub mod verif {
+    pub mod constants { pub use ::constants::*; }
+    pub mod cdf { pub use ::cdf::*; }
+    pub mod common { pub use ::common::*; }
+    pub mod block { pub use ::block::*; }
+    pub mod frame { pub use ::frame::*; }
+    pub mod sequence_header { pub use ::sequence_header::*; }
+    pub mod option { pub use ::option::*; }
+    pub mod binary_reader { pub use ::binary_reader::*; }
+    pub mod binary_writer { pub use ::binary_writer::*; }
+    pub mod obu { pub use ::obu::*; }
+    pub mod obu_encoder { pub use ::obu_encoder::*; }
+    pub mod tile_encoder { pub use ::tile_encoder::*; }
+    pub mod encoder { pub use ::encoder::*; }
+
+    // the arithmetic macros, as functions
+    pub fn Abs(x: i64) -> i64 { Abs!(x) }
+    pub fn Min(x: i64, y: i64) -> i64 { Min!(x, y) }
+    pub fn Max(x: i64, y: i64) -> i64 { Max!(x, y) }
+    pub fn Clip1(x: i64) -> i64 { Clip1!(x) }
+    pub fn Clip3(lo: i64, hi: i64, x: i64) -> i64 { Clip3!(lo, hi, x) }
+    pub fn Round2(x: i64, n: u32) -> i64 { Round2!(x, n) }
+    pub fn Round2Signed(x: i64, n: u32) -> i64 { Round2Signed!(x, n) }
+    pub fn FloorLog2(x: u64) -> u64 { FloorLog2!(x) }
+}
-- 
2.43.0


From 6bfc04a52e8162ef4df30df9dda56b71449db76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:58 +0000
Subject: [PATCH 002/112] fix: reset the emitted-bit counter when a symbol
 stream starts, so a reused coder stays byte aligned

---
 src/bool_coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 46d07fe..19e0a6c 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -137,6 +137,7 @@ impl BoolCoder {
         self.bool_value_last_zero = false;
         self.bool_value_zero_count = 0;
         self.bool_first = true;
+        self.bit_count = 0;
     }
 
     pub fn encode_symbol(&mut self, symbol: i32, out_bits: &mut Vec<u8>, cdf: &mut [i32]) {
-- 
2.43.0


From 5f96864cdf8c404237e770d889e21a6d135998e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:58 +0000
Subject: [PATCH 003/112] fix: count each decoded bit once, so leaving the
 decoder consumes exactly the stream's bytes

---
 src/bool_coder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 19e0a6c..f89eb52 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -93,7 +93,6 @@ impl BoolCoder {
         for _ in 0..(bits as i32) {
             if let Some(bit) = in_bits.pop_front() {
                 new_data = (new_data << 1) + bit as i32;
-                self.bool_max_bits -= 1;
             }
             else { assert!(false); }
         }
-- 
2.43.0


From 5c4f72f23d0ae6b2265f109fefbf9cd06f990438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:30 +0000
Subject: [PATCH 004/112] fix: encode_uvlc overflowed on the largest value,
 whose code has no suffix bits

---
 src/bool_coder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index f89eb52..c7db835 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -230,10 +230,11 @@ impl BoolCoder {
     }
 
     pub fn encode_uvlc(&mut self, out_bits: &mut Vec<u8>, val: u32) {
-        let v: u64 = (val + 1) as u64;
+        let v: u64 = val as u64 + 1;
         let n = msb64(v);
         for _ in 0..n { out_bits.push(0) }
         out_bits.push(1);
+        if n>=32 { return; } // 32 leading zeros stand for (1<<32)-1 on their own
         for i in (0..n).rev() { out_bits.push(((v>>i)&1) as u8); }
     }
 
-- 
2.43.0


From 54e6e74e84ae57a3724d0dfc577bde8c2f3a2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:30 +0000
Subject: [PATCH 005/112] fix: decode_uvlc looped for ever on exhausted input
 instead of failing like the other readers

---
 src/bool_coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index c7db835..0cf3338 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -246,6 +246,7 @@ impl BoolCoder {
                 if done { break; }
                 else { lz += 1; }
             }
+            else { assert!(false); }
         }
         if lz>=32 { return ((1u64<<32) - 1) as u32; }
         let mut v: u64 = 0;
-- 
2.43.0


From 73e073e753351b97aadd421e4c8ecf891581b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:25 +0000
Subject: [PATCH 006/112] fix: Round2Signed! dropped the sign of negative
 operands

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 3d7a41b..ed88dc8 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -27,7 +27,7 @@ macro_rules! Round2 {
 }
 
 macro_rules! Round2Signed {
-    ($x: expr, $n: expr) => ( if $x>=0 { Round2!($x, $n) } else { Round2!(-$x, $n) } );
+    ($x: expr, $n: expr) => ( if $x>=0 { Round2!($x, $n) } else { -Round2!(-$x, $n) } );
 }
 
 #[macro_export]
-- 
2.43.0


From c642f4a9634a50e6f4df3d1996d204166eb1be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:07 +0000
Subject: [PATCH 007/112] fix: options after --framerate N/D were silently
 dropped

---
 src/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/option.rs b/src/option.rs
index 1d6d01f..6a78e73 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -153,7 +153,7 @@ lazy_static! {
                     if let Err(e) = CommandOption::parse_tuple::<usize>(&args[0], '/', 2, &mut [&mut numer, &mut denom]) { Err(e) }
                     else {
                         config.framerate = Some(Ratio::new(numer.unwrap(), denom.unwrap()));
-                        Ok(vec![])
+                        Ok(args[1..].to_vec())
                     }
                 }
             },
-- 
2.43.0


From b5951ed3d9be79c43d177a853bd92cbee190254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:07 +0000
Subject: [PATCH 008/112] fix: --framerate N/0 panicked instead of being
 refused

---
 src/option.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/option.rs b/src/option.rs
index 6a78e73..6c9d94d 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -151,6 +151,7 @@ lazy_static! {
                 else {
                     let (mut denom, mut numer) = (None, None);
                     if let Err(e) = CommandOption::parse_tuple::<usize>(&args[0], '/', 2, &mut [&mut numer, &mut denom]) { Err(e) }
+                    else if denom == Some(0) { Err("denominator must not be zero".to_string()) }
                     else {
                         config.framerate = Some(Ratio::new(numer.unwrap(), denom.unwrap()));
                         Ok(args[1..].to_vec())
-- 
2.43.0


From d35ab2e99f18de0b6e54e0521b1406a3ce3c4ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:07 +0000
Subject: [PATCH 009/112] fix: an empty, lone '-' or non-ASCII argument
 panicked instead of being refused

---
 src/option.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/option.rs b/src/option.rs
index 6c9d94d..c30ae16 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -227,9 +227,9 @@ impl CommandOption {
         if args.len() == 0 { Ok(vec![]) }
         else {
             let arg = &args[0];
-            if &arg[0..1] == "-" {
+            if arg.starts_with("-") {
                 match {
-                    if &arg[1..2] == "-" { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
+                    if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
                     else { CommandOption::set_option_by_short_name(&arg[1..], args[1..].to_vec(), config) }
                 } {
                     Ok(v) => CommandOption::parse(v, config),
-- 
2.43.0


From 765bef24d4f44b14814770875128c7d88c09dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:07 +0000
Subject: [PATCH 010/112] fix: a command line that is not valid Unicode
 panicked instead of being refused

---
 src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1c4b99e..c4bf7cf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -51,7 +51,16 @@ fn main() {
 
     let mut config: Config = Config::default();
 
-    let args = std::env::args().skip(1).collect::<Vec<String>>();
+    let mut args: Vec<String> = vec![];
+    for arg in std::env::args_os().skip(1) {
+        match arg.into_string() {
+            Ok(a) => args.push(a),
+            Err(a) => {
+                println!("{}: failed to parse command-line arguments: {:?} is not valid Unicode", "error".red(), a);
+                process::exit(0);
+            }
+        }
+    }
     if args.len() == 0 { return; }
 
     CommandOption::init_config(&mut config);
-- 
2.43.0


From 3fa60f40a5542e199119e942001ee7a995eea2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:07 +0000
Subject: [PATCH 011/112] fix: the banner and error messages corrupted the
 stream written with -o stdout

---
 src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c4bf7cf..f14defe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -42,7 +42,7 @@ use encoder::*;
 
 fn main() {
 
-    println!(
+    eprintln!(
         "{} version {} Copyright (c) 2018-2018 {}",
         env!("CARGO_PKG_NAME").to_string(),
         env!("CARGO_PKG_VERSION").to_string(),
@@ -56,7 +56,7 @@ fn main() {
         match arg.into_string() {
             Ok(a) => args.push(a),
             Err(a) => {
-                println!("{}: failed to parse command-line arguments: {:?} is not valid Unicode", "error".red(), a);
+                eprintln!("{}: failed to parse command-line arguments: {:?} is not valid Unicode", "error".red(), a);
                 process::exit(0);
             }
         }
@@ -65,11 +65,11 @@ fn main() {
 
     CommandOption::init_config(&mut config);
     if let Err(e) = CommandOption::parse(args, &mut config) {
-        println!("{}: failed to parse command-line arguments: {}", "error".red(), e);
+        eprintln!("{}: failed to parse command-line arguments: {}", "error".red(), e);
         process::exit(0);
     }
     if let Err(e) = CommandOption::validate_config(&config) {
-        println!("{}: invalid configuration: {}", "error".red(), e);
+        eprintln!("{}: invalid configuration: {}", "error".red(), e);
         process::exit(0);
     }
 
@@ -82,7 +82,7 @@ fn main() {
         match BinaryReader::file(&config.input.unwrap()) {
             Ok(f) => f,
             Err(e) => {
-                println!("{}: failed to open input file: {}", "error".red(), e);
+                eprintln!("{}: failed to open input file: {}", "error".red(), e);
                 process::exit(0);
             }
         }
@@ -97,7 +97,7 @@ fn main() {
         match BinaryWriter::file(&config.output.unwrap()) {
             Ok(f) => f,
             Err(e) => {
-                println!("{}: failed to open output file: {}", "error".red(), e);
+                eprintln!("{}: failed to open output file: {}", "error".red(), e);
                 process::exit(0);
             }
         }
-- 
2.43.0


From 9af8a694bd61274512af925afb29de193c8a941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:07 +0000
Subject: [PATCH 012/112] fix: refused command lines and files that cannot be
 opened were reported as success

---
 src/main.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f14defe..88858fe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -57,7 +57,7 @@ fn main() {
             Ok(a) => args.push(a),
             Err(a) => {
                 eprintln!("{}: failed to parse command-line arguments: {:?} is not valid Unicode", "error".red(), a);
-                process::exit(0);
+                process::exit(1);
             }
         }
     }
@@ -66,11 +66,11 @@ fn main() {
     CommandOption::init_config(&mut config);
     if let Err(e) = CommandOption::parse(args, &mut config) {
         eprintln!("{}: failed to parse command-line arguments: {}", "error".red(), e);
-        process::exit(0);
+        process::exit(1);
     }
     if let Err(e) = CommandOption::validate_config(&config) {
         eprintln!("{}: invalid configuration: {}", "error".red(), e);
-        process::exit(0);
+        process::exit(1);
     }
 
     // initialize binary reader
@@ -83,7 +83,7 @@ fn main() {
             Ok(f) => f,
             Err(e) => {
                 eprintln!("{}: failed to open input file: {}", "error".red(), e);
-                process::exit(0);
+                process::exit(1);
             }
         }
     };
@@ -98,7 +98,7 @@ fn main() {
             Ok(f) => f,
             Err(e) => {
                 eprintln!("{}: failed to open output file: {}", "error".red(), e);
-                process::exit(0);
+                process::exit(1);
             }
         }
     };
-- 
2.43.0


From ff6d63eae08f6606c068c84154f9dd66dcaf56bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:36 +0000
Subject: [PATCH 013/112] fix: read_to_vec left a plane partly filled when one
 read returned less than asked for

---
 src/binary_reader.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/binary_reader.rs b/src/binary_reader.rs
index e115f83..a22341f 100644
--- a/src/binary_reader.rs
+++ b/src/binary_reader.rs
@@ -27,15 +27,20 @@ impl<'a> BinaryReader<'a> {
     pub fn read_to_vec<T: From<u8>>(&mut self, v: &mut Vec<T>) -> io::Result<usize> {
         let len = v.len();
         let mut tmp: Vec<u8> = vec![0; len];
-        match self.input.read(&mut tmp[..]) {
-            Ok(s) => {
-                for i in 0..len {
-                    v[i] = T::from(tmp[i]);
-                }
-                Ok(s)
-            },
-            Err(e) => Err(e)
+        let mut s = 0;
+        while s<len {
+            // one read may return fewer bytes than asked for: go on until full or end of input
+            match self.input.read(&mut tmp[s..]) {
+                Ok(0) => break,
+                Ok(n) => s += n,
+                Err(ref e) if e.kind()==io::ErrorKind::Interrupted => {},
+                Err(e) => return Err(e)
+            }
         }
+        for i in 0..len {
+            v[i] = T::from(tmp[i]);
+        }
+        Ok(s)
     }
 }
 
-- 
2.43.0


From 1dfc5b33db63fef37d51be06b1f2bf95ffc56edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:36 +0000
Subject: [PATCH 014/112] fix: write_bit lost a byte when the output accepted
 none of it

---
 src/binary_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_writer.rs b/src/binary_writer.rs
index bfd727b..37814d6 100644
--- a/src/binary_writer.rs
+++ b/src/binary_writer.rs
@@ -33,7 +33,7 @@ impl<'a> BinaryWriter<'a> {
         if self.index==8 {
             self.index = 0;
             let tmp = [self.buf];
-            if let Err(e) = self.write(&tmp) {
+            if let Err(e) = self.write_all(&tmp) {
                 assert!(false, e);
             }
             self.buf = 0;
-- 
2.43.0


From b1985b3619cf800ac9da2686de464796f7ef5ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:36 +0000
Subject: [PATCH 015/112] fix: chroma planes and the mode info grid were too
 small for sizes that are not multiples of 8

---
 src/frame.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 857cd30..6da61e1 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -252,10 +252,10 @@ impl Frame {
             tile_groups: vec![0],
 
             original_y: vec![0; width as usize * height as usize],
-            original_u: vec![0; width as usize * height as usize / 4],
-            original_v: vec![0; width as usize * height as usize / 4],
+            original_u: vec![0; ((width+1)>>1) * ((height+1)>>1)],
+            original_v: vec![0; ((width+1)>>1) * ((height+1)>>1)],
 
-            mis: vec![vec![None; width as usize / 4]; height as usize / 4],
+            mis: vec![vec![None; 2 * ((width+7)>>3)]; 2 * ((height+7)>>3)],
             decoder_model_info: None,
             temporal_point_info: None,
             display_frame_id: None, // TODO
-- 
2.43.0


From 63d088bf3a7faa6fa7c6b24ff3326aa6e340a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:36 +0000
Subject: [PATCH 016/112] fix: frames were read as 176x144 whatever size was
 asked for

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 88858fe..d86f7cc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -110,7 +110,7 @@ fn main() {
     let mut obu_encoder = OBUEncoder::new(&ectx, &mut writer, &mut coder);
 
     for fr in 0..config.frames.unwrap() {
-        let mut frame = Frame::new(FrameType::KEY_FRAME, 176, 144);
+        let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
         if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(0); }
         if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(0); }
         if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(0); }
-- 
2.43.0


From c4f8a042b99c43451257d421b4cb966a6b8dad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:42 +0000
Subject: [PATCH 017/112] fix: the program never noticed the end of its input
 and ran for 2^32 frames

---
 src/main.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d86f7cc..eb898f5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -111,9 +111,17 @@ fn main() {
 
     for fr in 0..config.frames.unwrap() {
         let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
-        if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(0); }
+        let mut complete = true;
+        for plane in [&mut frame.original_y, &mut frame.original_u, &mut frame.original_v].iter_mut() {
+            match reader.read_to_vec(plane) {
+                Ok(s) => complete = complete && s==plane.len(),
+                Err(e) => {
+                    eprintln!("{}: failed to read input: {}", "error".red(), e);
+                    process::exit(1);
+                }
+            }
+        }
+        if !complete { break; } // end of input
 
         if fr==0 {
             // encode sequence header
-- 
2.43.0


From c24045e10c08053a780f713243fb17de397f94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:42 +0000
Subject: [PATCH 018/112] fix: a write error while flushing the output was
 ignored

---
 src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index eb898f5..e29fe2a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -133,4 +133,9 @@ fn main() {
             
         }
     }
+
+    if let Err(e) = writer.flush() {
+        eprintln!("{}: failed to write output: {}", "error".red(), e);
+        process::exit(1);
+    }
 }
-- 
2.43.0


From 20a469daef8ca5fddefd5d9f0b9fbdb0f980f343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:25 +0000
Subject: [PATCH 019/112] fix: the sequence header announced fewer bits for the
 frame size than it wrote, and panicked below 3 pixels

---
 src/obu_encoder.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 9797d9c..ab010e5 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -112,12 +112,11 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                     }
                 }
-                let frame_width_bits_minus_1 = msb16((sequence_header.frame_width-1) as u16) - 1;
-                let frame_height_bits_minus_1 = msb16((sequence_header.frame_height-1) as u16) - 1;
+                // bits needed for the largest coded value, at least one
+                let frame_width_bits_minus_1 = msb16(Max!(sequence_header.max_frame_width-1, 1) as u16);
+                let frame_height_bits_minus_1 = msb16(Max!(sequence_header.max_frame_height-1, 1) as u16);
                 self.coder.push_bits_with_size(out_bits, frame_width_bits_minus_1 as u32, 4);
                 self.coder.push_bits_with_size(out_bits, frame_height_bits_minus_1 as u32, 4);
-                let frame_width_bits_minus_1 = msb16(sequence_header.max_frame_width as u16) - 1;
-                let frame_height_bits_minus_1 = msb16(sequence_header.max_frame_height as u16) - 1;
                 let nw = frame_width_bits_minus_1 + 1;
                 let nh = frame_height_bits_minus_1 + 1;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
-- 
2.43.0


From c19d2d8ecfba7d23f5c20cdeeb1e570b30dc9990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:27 +0000
Subject: [PATCH 020/112] fix: the sequence header wrote the number of
 operating points where its syntax has that number minus one

---
 src/obu_encoder.rs     | 3 +--
 src/sequence_header.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index ab010e5..1124830 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -100,8 +100,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 if ecx.reduced_still_picture_header {
                     // TODO
                 } else {
-                    // FIXME
-                    self.coder.push_bits_with_size(out_bits, sequence_header.operating_points.len() as u32, 5);
+                    self.coder.push_bits_with_size(out_bits, (sequence_header.operating_points.len()-1) as u32, 5); // operating_points_cnt_minus_1
                     for op in sequence_header.operating_points.iter() {
                         self.coder.push_bits_with_size(out_bits, op.idc as u32, 12);
                         self.coder.push_bits_with_size(out_bits, op.seq_level_idx as u32, 5);
diff --git a/src/sequence_header.rs b/src/sequence_header.rs
index 987cdf1..73c9e46 100644
--- a/src/sequence_header.rs
+++ b/src/sequence_header.rs
@@ -91,7 +91,7 @@ impl SequenceHeader {
     pub fn new(frame_width: usize, frame_height: usize) -> SequenceHeader { SequenceHeader {
         profile: 0,
         still_picture: false,
-        operating_points: vec![],
+        operating_points: vec![OperatingPoint { idc: 0, seq_level_idx: 31, seq_tier: Some(false) }], // every layer, no level limit
         frame_width: frame_width,
         frame_height: frame_height,
         max_frame_width: frame_width,
-- 
2.43.0


From 5eb467d048cb0b2dcd04341d7f88c025eb2d05e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:27 +0000
Subject: [PATCH 021/112] fix: a sequence header with order hints panicked
 because the number of order hint bits was never taken over

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 1124830..caec5a8 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -175,6 +175,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         ecx.seq_force_integer_mv = SELECT_INTEGER_MV;
                     }
                     if ecx.enable_order_hint {
+                        self.order_hint_bits = ecx.order_hint_bits as usize;
                         self.coder.push_bits_with_size(out_bits, (self.order_hint_bits-1) as u32, 3);
                     } else {
                         self.order_hint_bits = 0;
-- 
2.43.0


From 25baa7cd35c8cf69a353b02b58fbdb5387192248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:28 +0000
Subject: [PATCH 022/112] fix: a monochrome color config carried a chroma flag
 its syntax does not have

---
 src/obu_encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index caec5a8..baab9bc 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -254,7 +254,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         self.coder.push_bits_with_size(out_bits, ecx.color_config.chroma_sample_position as u32, 2);
                     }
                 }
-                self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                if !ecx.color_config.mono_chrome {
+                    self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                }
 
                 if ecx.reduced_still_picture_header {
                     ecx.timing_info = None;
-- 
2.43.0


From 85e2e69a4e1ebb6b11b1e9fc40e6f113fee23ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:29 +0000
Subject: [PATCH 023/112] fix: a repeated sequence header differed from the
 first one

---
 src/obu_encoder.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index baab9bc..0de4f0c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -204,20 +204,19 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bits_with_size(out_bits, cd.transfer_characteristics as u32, 8);
                     self.coder.push_bits_with_size(out_bits, cd.matrix_coefficients as u32, 8);
                 }
-                if ecx.color_config.color_description.is_none() {
-                    ecx.color_config.color_description = Some( ColorDescription {
-                        color_primaries: CP_UNSPECIFIED,
-                        transfer_characteristics: TC_UNSPECIFIED,
-                        matrix_coefficients: MC_UNSPECIFIED
-                    });
-                }
+                // the inferred description must not be stored: the next sequence header would code it
+                let color_description = ecx.color_config.color_description.unwrap_or(ColorDescription {
+                    color_primaries: CP_UNSPECIFIED,
+                    transfer_characteristics: TC_UNSPECIFIED,
+                    matrix_coefficients: MC_UNSPECIFIED
+                });
                 if ecx.color_config.mono_chrome {
                     self.coder.push_bit(out_bits, ecx.color_config.color_range as u8);
                     ecx.color_config.subsampling_x = true;
                     ecx.color_config.subsampling_y = true;
                     ecx.color_config.chroma_sample_position = CSP_UNKNOWN;
                     ecx.color_config.separate_uv_delta_q = false;
-                } else if ecx.color_config.color_description.unwrap() == (ColorDescription {
+                } else if color_description == (ColorDescription {
                     color_primaries: CP_BT_709,
                     transfer_characteristics: TC_SRGB,
                     matrix_coefficients: MC_IDENTITY
-- 
2.43.0


From 8709341ecae89b4462a3484691cf6871d1f14769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:30 +0000
Subject: [PATCH 024/112] fix: frame headers kept coding chroma parameters
 after a monochrome sequence header

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0de4f0c..2e93b08 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -198,6 +198,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, ecx.color_config.mono_chrome as u8);
                 }
                 self.num_planes = if ecx.color_config.mono_chrome { 1 } else { 3 };
+                ecx.num_planes = self.num_planes;
                 self.coder.push_bit(out_bits, ecx.color_config.color_description.is_some() as u8);
                 if let Some(ref mut cd) = ecx.color_config.color_description {
                     self.coder.push_bits_with_size(out_bits, cd.color_primaries as u32, 8);
-- 
2.43.0


From a9f95f4d536ff858d621937847b961015abeb6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:31 +0000
Subject: [PATCH 025/112] fix: time code metadata was labelled as scalability
 metadata and lacked three fields

---
 src/obu_encoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 2e93b08..930ced6 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1528,15 +1528,18 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         time_offset_length: tol,
                         time_offset_value: tov,
                     } => {
-                        self.coder.encode_leb128(out_bits, 3);
+                        self.coder.encode_leb128(out_bits, 5);
                         self.coder.push_bits_with_size(out_bits, ct as u32, 5);
+                        let full_timestamp_flag = secs.is_some() && mins.is_some() && hrs.is_some();
+                        self.coder.push_bit(out_bits, full_timestamp_flag as u8);
+                        self.coder.push_bit(out_bits, 0); // discontinuity_flag
+                        self.coder.push_bit(out_bits, 0); // cnt_dropped_flag
+                        self.coder.push_bits_with_size(out_bits, 0, 9); // n_frames
                         if let (Some(s), Some(m), Some(h)) = (secs, mins, hrs) {
-                            self.coder.push_bit(out_bits, 1);
                             self.coder.push_bits_with_size(out_bits, s as u32, 6);
                             self.coder.push_bits_with_size(out_bits, m as u32, 6);
                             self.coder.push_bits_with_size(out_bits, h as u32, 5);
                         } else {
-                            self.coder.push_bit(out_bits, 0);
                             if let Some(s) = secs {
                                 self.coder.push_bit(out_bits, 1);
                                 self.coder.push_bits_with_size(out_bits, s as u32, 6);
-- 
2.43.0


From 067de6e0d6f41e1cd0f41e2d7be7a50fc923f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:32 +0000
Subject: [PATCH 026/112] fix: the payload of ITU-T T.35 metadata was dropped

---
 src/obu_encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 930ced6..b010f3c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1459,7 +1459,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         if cc==0xFF {
                             self.coder.push_bits_with_size(out_bits, 0 as u32, 8); // FIXME itu_t_t35_country_code_extension_byte
                         }
-                        // FIXME itu_t_t35_payload_bytes not in spec
+                        for b in pb.iter() {
+                            self.coder.push_bits_with_size(out_bits, *b as u32, 8);
+                        }
                     },
                     &METADATA_TYPE_HDR_CLL { max_cll: mc, max_fall: mf } => {
                         self.coder.encode_leb128(out_bits, 1);
-- 
2.43.0


From 15725080f45d04789aad00a821096da1ee9fa219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:33 +0000
Subject: [PATCH 027/112] fix: OBU payloads were written ahead of their headers
 and without trailing bits

---
 src/obu_encoder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index b010f3c..78cb0b7 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1586,8 +1586,15 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
         if obu.obu_has_size_field {
             let obu_size = obu_payload_bits.len();
         }*/
-        self.writer.write_bits(&obu_payload_bits);
-        self.writer.byte_align();
+        let has_trailing_bits = match obu {
+            &mut OBU_TILE_GROUP(_) | &mut OBU_FRAME { frame: _ } => false,
+            _ => obu_payload_bits.len()>0,
+        };
+        if has_trailing_bits {
+            self.coder.push_bit(&mut obu_payload_bits, 1); // trailing_one_bit
+        }
+        self.coder.push_bits_align(&mut obu_payload_bits);
+        self.coder.push_bits(out_bits, &obu_payload_bits);
     }
 
     pub fn encode_temporal_unit(&mut self, mut obu: &mut OBU) -> () {
-- 
2.43.0


From b2d44bdbd8cadb1a1ffff7caf6623ce378861c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:33 +0000
Subject: [PATCH 028/112] fix: temporal unit, frame unit and OBU sizes were
 counted in bits instead of bytes

---
 src/obu_encoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 78cb0b7..15a8d53 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1600,15 +1600,15 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
     pub fn encode_temporal_unit(&mut self, mut obu: &mut OBU) -> () {
         let mut obu_bits = vec![];
         self.encode_obu(&mut obu, &mut obu_bits);
-        let obu_length = obu_bits.len();
+        let obu_length = obu_bits.len() / 8; // in bytes
         let mut frame_unit_bits = vec![];
         self.coder.encode_leb128(&mut frame_unit_bits, obu_length as u64);
         self.coder.push_bits(&mut frame_unit_bits, &obu_bits);
-        let frame_unit_size = frame_unit_bits.len();
+        let frame_unit_size = frame_unit_bits.len() / 8; // in bytes
         let mut temporal_unit_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_bits, frame_unit_size as u64);
         self.coder.push_bits(&mut temporal_unit_bits, &frame_unit_bits);
-        let temporal_unit_size = temporal_unit_bits.len();
+        let temporal_unit_size = temporal_unit_bits.len() / 8; // in bytes
         let mut temporal_unit_size_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_size_bits, temporal_unit_size as u64);
 
-- 
2.43.0


From ca70bca5ad05a916d102bbec61ba48d6ef14e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:29 +0000
Subject: [PATCH 029/112] fix: a frame header panicked on the order hint of the
 last reference frame

---
 src/encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 51849ae..10675e9 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -31,9 +31,9 @@ pub struct EncoderContext {
     pub prev_gm_params: [[isize; 6]; NUM_REF_FRAMES],
     pub film_grain_params: Option<FilmGrainParams>,
     pub ref_film_grain_params: [FilmGrainParams; NUM_REF_FRAMES],
-    pub order_hints: [usize; REFS_PER_FRAME],
+    pub order_hints: [usize; TOTAL_REFS_PER_FRAME],
     pub expected_frame_id: [usize; REFS_PER_FRAME],
-    pub ref_frame_sign_bias: [usize; REFS_PER_FRAME],
+    pub ref_frame_sign_bias: [usize; TOTAL_REFS_PER_FRAME],
     pub seq_force_screen_content_tools: usize,
     pub seq_force_integer_mv: usize,
     pub prev_frame_id: usize,
@@ -114,9 +114,9 @@ impl EncoderContext {
         ref_film_grain_params: [ // FIXME
             FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new()
         ],
-        order_hints: [0; REFS_PER_FRAME],
+        order_hints: [0; TOTAL_REFS_PER_FRAME],
         expected_frame_id: [0; REFS_PER_FRAME],
-        ref_frame_sign_bias: [0; REFS_PER_FRAME],
+        ref_frame_sign_bias: [0; TOTAL_REFS_PER_FRAME],
         seq_force_screen_content_tools: 0,
         seq_force_integer_mv: 0,
         prev_frame_id: 0,
-- 
2.43.0


From 2c0987fb1a68a7705ac8daca5a18d622ee6bb216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:31 +0000
Subject: [PATCH 030/112] fix: error resilient mode was off where a decoder
 infers that it is on

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 15a8d53..a58ea4c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -385,7 +385,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, ecx.showable_frame as u8);
                         }
                         if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {
-                            frame.error_resilient_mode = false;
+                            frame.error_resilient_mode = true;
                         } else {
                             self.coder.push_bit(out_bits, frame.error_resilient_mode as u8);
                         }
-- 
2.43.0


From 3a77999aceabe31abdadaa7d82819b63cbc91af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:34 +0000
Subject: [PATCH 031/112] fix: an overridden frame size was not written with
 the bit counts of the sequence header

---
 src/obu_encoder.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index a58ea4c..0fb8909 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -36,6 +36,8 @@ pub struct OBUEncoder<'a, 'b> where 'a: 'b {
     num_planes: usize,
     tile_num: usize,
     id_len: usize,
+    frame_width_bits: u8,
+    frame_height_bits: u8,
     all_frames: usize,
     ectx: Rc<RefCell<EncoderContext>>,
 }
@@ -51,6 +53,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
             num_planes: 3,
             tile_num: 1,
             id_len: 0,
+            frame_width_bits: 16,
+            frame_height_bits: 16,
             all_frames: 0,
             ectx: Rc::clone(ectx),
         }
@@ -118,6 +122,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 self.coder.push_bits_with_size(out_bits, frame_height_bits_minus_1 as u32, 4);
                 let nw = frame_width_bits_minus_1 + 1;
                 let nh = frame_height_bits_minus_1 + 1;
+                self.frame_width_bits = nw;
+                self.frame_height_bits = nh;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
                 let max_frame_height_minus_1 = sequence_header.max_frame_height - 1;
                 self.coder.push_bits_with_size(out_bits, max_frame_width_minus_1 as u32, nw);
@@ -484,8 +490,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if frame.frame_type==KEY_FRAME {
                         // frame size
                         if ecx.frame_size_override_flag {
-                            let nw = msb16((frame.frame_width-1) as u16);
-                            let nh = msb16((frame.frame_height-1) as u16);
+                            let nw = self.frame_width_bits;
+                            let nh = self.frame_height_bits;
                             self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                             self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                         } else {
@@ -526,8 +532,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         if frame.frame_type==INTRA_ONLY_FRAME {
                             // frame size
                             if ecx.frame_size_override_flag {
-                                let nw = msb16((frame.frame_width-1) as u16);
-                                let nh = msb16((frame.frame_height-1) as u16);
+                                let nw = self.frame_width_bits;
+                                let nh = self.frame_height_bits;
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                             } else {
@@ -598,8 +604,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 if !found_ref {
                                     // frame size
                                     if ecx.frame_size_override_flag {
-                                        let nw = msb16((frame.frame_width-1) as u16);
-                                        let nh = msb16((frame.frame_height-1) as u16);
+                                        let nw = self.frame_width_bits;
+                                        let nh = self.frame_height_bits;
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                     } else {
@@ -651,8 +657,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 // frame size
                                 if ecx.frame_size_override_flag {
-                                    let nw = msb16((frame.frame_width-1) as u16);
-                                    let nh = msb16((frame.frame_height-1) as u16);
+                                    let nw = self.frame_width_bits;
+                                    let nh = self.frame_height_bits;
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                 } else {
-- 
2.43.0


From eeb1516743e1fe64415f052237ecd2e6fb147a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:36 +0000
Subject: [PATCH 032/112] fix: the order hints of the reference frames were
 missing from error resilient frame headers

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0fb8909..fab3dd9 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -481,6 +481,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if !ecx.frame_is_intra || ecx.refresh_frame_flags != self.all_frames as u8 {
                         if frame.error_resilient_mode && ecx.enable_order_hint {
                             for i in 0..NUM_REF_FRAMES {
+                                self.coder.push_bits_with_size(out_bits, frame.ref_order_hint[i] as u32, self.order_hint_bits as u8);
                                 if frame.ref_order_hint[i] != ecx.ref_order_hint[i] {
                                     ecx.ref_valid[i] = false;
                                 }
-- 
2.43.0


From ab79e7d1690bc5b52ba0a8ebcc48f4472633f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:38 +0000
Subject: [PATCH 033/112] fix: the sign bias of a reference frame overflowed
 for references in the past

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index fab3dd9..8c04830 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -728,10 +728,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                     if !ecx.enable_order_hint {
                                         0
                                     } else {
-                                        let mut diff = hint - frame.order_hint as usize;
+                                        let mut diff = hint as isize - frame.order_hint as isize;
                                         let m = 1 << (ecx.order_hint_bits-1);
                                         diff = (diff&(m-1)) - (diff&m);
-                                        diff
+                                        (diff>0) as usize
                                     }
                                 };
                             }
-- 
2.43.0


From ba976a72ac9a79310812c3e19630b2ae8fbe2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:40 +0000
Subject: [PATCH 034/112] fix: high precision motion vectors, reference motion
 vectors and intra block copy could not be turned on

---
 src/obu_encoder.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 8c04830..b9a8bd9 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -470,9 +470,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
                         }
                     }
-                    frame.allow_high_precision_mv = false;
-                    frame.use_ref_frame_mvs = false;
-                    frame.allow_intrabc = false;
+                    if ecx.frame_is_intra {
+                        frame.allow_high_precision_mv = false;
+                        frame.use_ref_frame_mvs = false;
+                    } else {
+                        frame.allow_intrabc = false;
+                    }
                     if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {
                         ecx.refresh_frame_flags = self.all_frames as u8;
                     } else {
@@ -528,6 +531,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                         if frame.allow_screen_content_tools>0 {
                             self.coder.push_bit(out_bits, frame.allow_intrabc as u8);
+                        } else {
+                            frame.allow_intrabc = false;
                         }
                     } else {
                         if frame.frame_type==INTRA_ONLY_FRAME {
@@ -570,6 +575,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                             if frame.allow_screen_content_tools>0 && ecx.upscaled_width==frame.frame_width {
                                 self.coder.push_bit(out_bits, frame.allow_intrabc as u8);
+                            } else {
+                                frame.allow_intrabc = false;
                             }
                         } else {
                             if !ecx.enable_order_hint {
-- 
2.43.0


From 57d14e004dbd377af8dfc5f3533ec71d5b30698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:42 +0000
Subject: [PATCH 035/112] fix: key frames with superres carried an intra block
 copy flag their syntax does not have

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index b9a8bd9..b958024 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -529,7 +529,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             frame.render_height = frame.frame_height;
                         }
 
-                        if frame.allow_screen_content_tools>0 {
+                        if frame.allow_screen_content_tools>0 && ecx.upscaled_width==frame.frame_width {
                             self.coder.push_bit(out_bits, frame.allow_intrabc as u8);
                         } else {
                             frame.allow_intrabc = false;
-- 
2.43.0


From 03b5e4a1a908e537d5aae78880894667c2091126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:44 +0000
Subject: [PATCH 036/112] fix: the render size was compared with the downscaled
 frame width

---
 src/obu_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index b958024..37d30ad 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -519,7 +519,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
 
                         // render size
-                        let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                        let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                         self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                         if render_and_frame_size_different {
                             self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -563,7 +563,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
 
                             // render size
-                            let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                            let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                             self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                             if render_and_frame_size_different {
                                 self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -637,7 +637,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                     }
 
                                     // render size
-                                    let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                    let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                     self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                     if render_and_frame_size_different {
                                         self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -690,7 +690,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
 
                                 // render size
-                                let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                 self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                 if render_and_frame_size_different {
                                     self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
-- 
2.43.0


From 3c242401251b4bb0b9efcf3c301a0b189f899df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:45 +0000
Subject: [PATCH 037/112] fix: the header of the frame after a shown existing
 frame was dropped

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 37d30ad..da95267 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -367,6 +367,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 // load grain params
                                 // TODO
                             }
+                            ecx.seen_frame_header = false;
                             return;
                         }
                         self.coder.push_bits_with_size(out_bits, frame.frame_type as u32, 2);
-- 
2.43.0


From 2b1f4a17ab1252d5e169897321c355978f762f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:36 +0000
Subject: [PATCH 038/112] fix: log2 of the number of tiles was rounded down

---
 src/frame.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 6da61e1..1d51277 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -1,7 +1,6 @@
 #![allow(dead_code)]
 
 use constants::*;
-use util::*;
 use sequence_header::DecoderModelInfo;
 use constants::InterpFilter::*;
 use block::*;
@@ -383,10 +382,14 @@ impl Frame {
     }
 
     pub fn tile_cols_log2(&self) -> usize {
-        msb16(self.tile_col_starts.len() as u16) as usize
+        let mut log2 = 0;
+        while (1<<log2) < self.tile_col_starts.len() { log2 += 1; }
+        log2
     }
 
     pub fn tile_rows_log2(&self) -> usize {
-        msb16(self.tile_row_starts.len() as u16) as usize
+        let mut log2 = 0;
+        while (1<<log2) < self.tile_row_starts.len() { log2 += 1; }
+        log2
     }
 }
\ No newline at end of file
-- 
2.43.0


From e71415afd26e5347e223a2a65ae98b09c478c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:38 +0000
Subject: [PATCH 039/112] fix: the tile info panicked on storing the tile
 starts

---
 src/obu_encoder.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index da95267..5d65a05 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -794,14 +794,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                         self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
-                        let mut i = 0;
                         let mut start_sb = 0;
+                        ecx.mi_col_starts.clear();
                         while start_sb<sb_cols {
-                            ecx.mi_col_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_col_starts.push(start_sb << sb_shift);
                             start_sb += tile_width_sb
                         }
-                        ecx.mi_col_starts[i] = mi_cols;
+                        ecx.mi_col_starts.push(mi_cols);
                         //frame.tile_cols() = i;
 
                         let min_log2_tile_rows = Max!(min_log2_tiles-frame.tile_cols_log2(), 0);
@@ -811,14 +810,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                         self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
-                        let mut i = 0;
                         start_sb = 0;
+                        ecx.mi_row_starts.clear();
                         while start_sb<sb_rows {
-                            ecx.mi_row_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_row_starts.push(start_sb << sb_shift);
                             start_sb += tile_height_sb;
                         }
-                        ecx.mi_row_starts[i] = mi_rows;
+                        ecx.mi_row_starts.push(mi_rows);
                         //ecx.tile_rows = i;
                     } else {
                         // TODO
-- 
2.43.0


From 68fa1a0024568721af066414aa8146ceea3dfec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:40 +0000
Subject: [PATCH 040/112] fix: the tile info overflowed with more tile columns
 than the frame needs tiles

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5d65a05..61d38f3 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -803,7 +803,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         ecx.mi_col_starts.push(mi_cols);
                         //frame.tile_cols() = i;
 
-                        let min_log2_tile_rows = Max!(min_log2_tiles-frame.tile_cols_log2(), 0);
+                        let min_log2_tile_rows = min_log2_tiles.saturating_sub(frame.tile_cols_log2());
                         let max_tile_height_sb = sb_rows >> min_log2_tile_rows;
                         for _ in 0..(frame.tile_rows_log2()-min_log2_tile_rows) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_rows_log2
-- 
2.43.0


From 766da8d0d03a6ab64d2873016ebc49f79f5f54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:42 +0000
Subject: [PATCH 041/112] fix: the tile info carried a stop bit after the
 largest number of tiles

---
 src/obu_encoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 61d38f3..6b9b89c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -792,7 +792,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         for _ in 0..(frame.tile_cols_log2()-min_log2_tile_cols) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_cols_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        if frame.tile_cols_log2() < max_log2_tile_cols {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        }
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
                         let mut start_sb = 0;
                         ecx.mi_col_starts.clear();
@@ -808,7 +810,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         for _ in 0..(frame.tile_rows_log2()-min_log2_tile_rows) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_rows_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        if frame.tile_rows_log2() < max_log2_tile_rows {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        }
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
                         start_sb = 0;
                         ecx.mi_row_starts.clear();
-- 
2.43.0


From d6165121bc040d758cdde9fedb9a655e83384b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:44 +0000
Subject: [PATCH 042/112] fix: unsigned segmentation features were written as
 signed values

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 6b9b89c..78c14c3 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -901,7 +901,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                             self.coder.encode_su(out_bits, fv as i64, 1+bits_to_read as u8);
                                             clipped_value = Clip3!(-limit, limit, fv);
                                         } else {
-                                            self.coder.encode_su(out_bits, fv as i64, bits_to_read as u8);
+                                            self.coder.push_bits_with_size(out_bits, fv as u32, bits_to_read as u8);
                                             clipped_value = Clip3!(0, limit, fv);
                                         }
                                     }
-- 
2.43.0


From b9b62d1818dcac4c9c512dc53b00d5c8cd3647c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:46 +0000
Subject: [PATCH 043/112] fix: segmentation features that are off were kept as
 active ones

---
 src/obu_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 78c14c3..b2e5088 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -893,19 +893,19 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             for i in 0..MAX_SEGMENTS {
                                 for j in 0..SEG_LVL_MAX {
                                     self.coder.push_bit(out_bits, frame.segmentation_params.feature_value[i][j].is_some() as u8);
-                                    let mut clipped_value = 0;
+                                    let mut clipped_value = None;
                                     if let Some(fv) = frame.segmentation_params.feature_value[i][j] {
                                         let bits_to_read = segmentation_feature_bits[j];
                                         let limit = segmentation_feature_max[j] as isize;
                                         if segmentation_feature_signed[j] {
                                             self.coder.encode_su(out_bits, fv as i64, 1+bits_to_read as u8);
-                                            clipped_value = Clip3!(-limit, limit, fv);
+                                            clipped_value = Some(Clip3!(-limit, limit, fv));
                                         } else {
                                             self.coder.push_bits_with_size(out_bits, fv as u32, bits_to_read as u8);
-                                            clipped_value = Clip3!(0, limit, fv);
+                                            clipped_value = Some(Clip3!(0, limit, fv));
                                         }
                                     }
-                                    frame.segmentation_params.feature_value[i][j] = Some(clipped_value);
+                                    frame.segmentation_params.feature_value[i][j] = clipped_value;
                                 }
                             }
                         }
-- 
2.43.0


From c42e10858b5fef00f46c840e4925b45704beb6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:49 +0000
Subject: [PATCH 044/112] fix: the last of the eight segmentation features was
 missing

---
 src/constants.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index 8377541..d1db7cc 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -335,7 +335,7 @@ pub const SEG_LVL_ALT_LF_Y_V: usize = 1; // Index for vertical luma loop filter
 pub const SEG_LVL_REF_FRAME: usize = 5; // Index for reference frame segment feature
 pub const SEG_LVL_SKIP: usize = 6; // Index for skip segment feature
 pub const SEG_LVL_GLOBALMV: usize = 7; // Index for global mv feature
-pub const SEG_LVL_MAX: usize = 7; // Number of segment features
+pub const SEG_LVL_MAX: usize = 8; // Number of segment features
 pub const PLANE_TYPES: usize = 2; // Number of different plane types (luma or chroma)
 pub const TX_SIZE_CONTEXTS: usize = 3; // Number of contexts for transform size
 pub const INTERP_FILTERS: usize = 3; // Number of values for interp_filter
@@ -1015,15 +1015,15 @@ pub const sgrproj_xqd_max: [isize; 2] = [
 ];
 
 // FIXME
-pub const segmentation_feature_bits: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_bits: [usize; SEG_LVL_MAX] = [
     8 , 6 , 6 , 6 , 6 , 3 , 0 , 0
 ];
 
-pub const segmentation_feature_signed: [bool; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_signed: [bool; SEG_LVL_MAX] = [
     true , true , true , true , true , false , false , false
 ];
 
-pub const segmentation_feature_max: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_max: [usize; SEG_LVL_MAX] = [
     255, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, 7, 0, 0
 ];
 
-- 
2.43.0


From 469dd4803bba308d5ac189c9c7c2256e4170a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:51 +0000
Subject: [PATCH 045/112] fix: delta_q_res was written with one bit instead of
 two

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index b2e5088..a59a4f7 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -936,7 +936,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         frame.delta_q_params.delta_q_present = false;
                     }
                     if frame.delta_q_params.delta_q_present {
-                        self.coder.push_bit(out_bits, frame.delta_q_params.delta_q_res as u8);
+                        self.coder.push_bits_with_size(out_bits, frame.delta_q_params.delta_q_res as u32, 2);
                     } else {
                         frame.delta_q_params.delta_q_res = 0;
                     }
-- 
2.43.0


From ea155c3b9d68e4838ecf43ae8c73c092f8f80582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:53 +0000
Subject: [PATCH 046/112] fix: the delta LF parameters stayed on in frames
 without delta q

---
 src/obu_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index a59a4f7..62d746b 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -955,6 +955,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             frame.delta_lf_params.delta_lf_res = 0;
                             frame.delta_lf_params.delta_lf_multi = false;
                         }
+                    } else {
+                        frame.delta_lf_params.delta_lf_present = false;
+                        frame.delta_lf_params.delta_lf_res = 0;
+                        frame.delta_lf_params.delta_lf_multi = false;
                     }
 
                     if frame.primary_ref_frame==PRIMARY_REF_NONE as u8 {
-- 
2.43.0


From d4e9b006afa92b7b13bce88afef6d7e6729cc392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:55 +0000
Subject: [PATCH 047/112] fix: whether a segment is lossless was decided by the
 current instead of the base quantizer index

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 62d746b..c0104b4 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -978,7 +978,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 qindex = ecx.current_q_index as isize + data;
                             }
                             return Clip3!(0isize, 255isize, qindex) as usize;
-                        } else if ignore_delta_q {
+                        } else if !ignore_delta_q && frame.delta_q_params.delta_q_present {
                             return ecx.current_q_index;
                         } else {
                             return frame.quantization_params.base_q_idx as usize;
-- 
2.43.0


From 2e0a72bca40adec19f7eb800ee68bf9b1069e288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:57 +0000
Subject: [PATCH 048/112] fix: a loop filter mode delta was written according
 to the flag of a reference delta

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index c0104b4..7cc2e78 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1043,7 +1043,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
                                 for i in 0..2 {
                                     self.coder.push_bit(out_bits, frame.loop_filter_params.update_mode_delta[i] as u8);
-                                    if frame.loop_filter_params.update_ref_delta[i] {
+                                    if frame.loop_filter_params.update_mode_delta[i] {
                                         self.coder.encode_su(out_bits, frame.loop_filter_params.loop_filter_mode_deltas[i] as i64, 1+6);
                                     }
                                 }
-- 
2.43.0


From 7ee27550b979e8f6bfc112bcfe2941caeef743cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:59 +0000
Subject: [PATCH 049/112] fix: CDEF parameters were written although the
 sequence header turns CDEF off, and panicked where they are absent

---
 src/obu_encoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 7cc2e78..692d49b 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1052,12 +1052,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // cdef params
-                    if ecx.coded_lossless || frame.allow_intrabc {
+                    if ecx.coded_lossless || frame.allow_intrabc || !ecx.enable_cdef {
                         frame.cdef_params.cdef_bits = 0;
-                        frame.cdef_params.cdef_y_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_y_sec_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_sec_strength[0] = 0;
+                        frame.cdef_params.cdef_y_pri_strength = vec![0];
+                        frame.cdef_params.cdef_y_sec_strength = vec![0];
+                        frame.cdef_params.cdef_uv_pri_strength = vec![0];
+                        frame.cdef_params.cdef_uv_sec_strength = vec![0];
                         frame.cdef_params.cdef_damping = 3;
                     } else {
                         self.coder.push_bits_with_size(out_bits, (frame.cdef_params.cdef_damping-3) as u32, 2);
-- 
2.43.0


From 560f1acbe0ec09afb69efe2f6f16f39dba6b81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:01 +0000
Subject: [PATCH 050/112] fix: loop restoration parameters were written only
 where the sequence header turns restoration off

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 692d49b..7de1560 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1079,7 +1079,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // lr params
-                    if ecx.all_lossless || frame.allow_intrabc || ecx.enable_restoration {
+                    if ecx.all_lossless || frame.allow_intrabc || !ecx.enable_restoration {
                         ecx.frame_restoration_type[0] = RESTORE_NONE;
                         ecx.frame_restoration_type[1] = RESTORE_NONE;
                         ecx.frame_restoration_type[2] = RESTORE_NONE;
-- 
2.43.0


From 00bb2dd75edb53c9a725714794a1c966059a6a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:03 +0000
Subject: [PATCH 051/112] fix: lr_unit_shift 2 was written as a bit of value 2

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 7de1560..5bc0336 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1101,7 +1101,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             if ecx.use_128x128_superblock {
                                 self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift-1) as u8);
                             } else {
-                                self.coder.push_bit(out_bits, frame.lr_params.lr_unit_shift as u8);
+                                self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift>0) as u8);
                                 if frame.lr_params.lr_unit_shift>=1 {
                                     frame.lr_params.lr_unit_extra_shift = frame.lr_params.lr_unit_shift - 1;
                                     self.coder.push_bit(out_bits, frame.lr_params.lr_unit_extra_shift as u8);
-- 
2.43.0


From 6ba77535decb62bb72f1543e1901bf6b8be65fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:05 +0000
Subject: [PATCH 052/112] fix: the restoration unit size of chroma was derived
 from that of the frame before

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5bc0336..1462598 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1113,8 +1113,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 frame.lr_params.lr_uv_shift = 0;
                             }
-                            ecx.loop_restoration_size[1] >>= frame.lr_params.lr_uv_shift;
-                            ecx.loop_restoration_size[2] >>= frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[1] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[2] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
                         }
                     }
 
-- 
2.43.0


From 44d03f2507fd63e4ecf01ac7243ea7a5cf81a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:07 +0000
Subject: [PATCH 053/112] fix: the global motion of ALTREF_FRAME was not coded

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 1462598..038cf87 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1210,14 +1210,14 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, frame.reduced_tx_set as u8);
 
                     // global motion params
-                    for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
+                    for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                         ecx.gm_type[rf] = IDENTITY;
                         for i in 0..6 {
                             ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
                         }
                     }
                     if !ecx.frame_is_intra {
-                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
+                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                             let mut typ;
                             self.coder.push_bit(out_bits, frame.global_motion_params.is_global[rf] as u8);
                             if frame.global_motion_params.is_global[rf] {
-- 
2.43.0


From b79ceeb0267635418ba4cffe9e7891a14dc2ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:09 +0000
Subject: [PATCH 054/112] fix: the global motion parameters were reset before
 they were coded

---
 src/obu_encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 038cf87..6455d9c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1212,6 +1212,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     // global motion params
                     for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                         ecx.gm_type[rf] = IDENTITY;
+                        if !ecx.frame_is_intra && frame.global_motion_params.is_global[rf] {
+                            continue; // coded below
+                        }
                         for i in 0..6 {
                             ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
                         }
-- 
2.43.0


From 9c689ecef2f45ddff979964c89fd7508e728d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:11 +0000
Subject: [PATCH 055/112] fix: the last parameter of a rotation and zoom had
 the wrong sign

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 6455d9c..f14159e 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1314,7 +1314,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 encode_global_param(typ, rf, 5, &ecx, self.coder);
                                 } else {
                                     ecx.gm_params[rf][4] = -ecx.gm_params[rf][3];
-                                    ecx.gm_params[rf][5] = -ecx.gm_params[rf][2];
+                                    ecx.gm_params[rf][5] = ecx.gm_params[rf][2];
                                 }
                             }
                             if typ >= TRANSLATION {
-- 
2.43.0


From f3c1fe033cafef4f3e8803e6c25a946179e9bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:13 +0000
Subject: [PATCH 056/112] fix: global motion parameters were mapped with the
 decoder's half of the code

---
 src/obu_encoder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index f14159e..791e079 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1254,13 +1254,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 let mx = 1 << abs_bits;
                                 let r = (ecx.prev_gm_params[rf][idx]>>prec_diff) - sub;
 
-                                let inverse_recenter = |r: usize, v: usize| -> usize {
+                                let recenter = |r: usize, v: usize| -> usize {
                                     if v > 2*r {
                                         v
-                                    } else if v&1 > 0 {
-                                        r - ((v+1)>>1)
+                                    } else if v < r {
+                                        2*(r-v) - 1
                                     } else {
-                                        r + (v>>1)
+                                        2*(v-r)
                                     }
                                 };
                                 let mut encode_subexp = |v: usize, num_syms: usize, coder: &mut BoolCoder| -> () {
@@ -1291,12 +1291,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 };
                                 let mut encode_unsigned_subexp_with_ref = |v: usize, mx: usize, r: usize, coder: &mut BoolCoder| -> () {
                                     if (r<<1) <= mx {
-                                        let tv = inverse_recenter(r, v);
+                                        let tv = recenter(r, v);
                                         encode_subexp(tv, mx, coder);
                                     } else {
                                         let mut tv = mx - 1 - v;
-                                        tv = inverse_recenter(mx-1-r, tv);
-                                        encode_subexp(tv, mx-1-r, coder);
+                                        tv = recenter(mx-1-r, tv);
+                                        encode_subexp(tv, mx, coder);
                                     }
                                 };
                                 let mut encode_signed_subexp_with_ref = |v: isize, low: isize, high: isize, r: isize, coder: &mut BoolCoder| -> () {
-- 
2.43.0


From bdced8ac3c27f2b9aeb067ba1738ed5a58956baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:15 +0000
Subject: [PATCH 057/112] fix: global motion parameters were predicted from
 another frame where a decoder takes the defaults

---
 src/obu_encoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 791e079..369d84a 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1252,7 +1252,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 let round = if idx%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
                                 let sub = if idx%3==2 { 1<<prec_bits } else { 0 };
                                 let mx = 1 << abs_bits;
-                                let r = (ecx.prev_gm_params[rf][idx]>>prec_diff) - sub;
+                                let prev = if frame.primary_ref_frame==PRIMARY_REF_NONE as u8 { round } else { ecx.prev_gm_params[rf][idx] };
+                                let r = (prev>>prec_diff) - sub;
 
                                 let recenter = |r: usize, v: usize| -> usize {
                                     if v > 2*r {
-- 
2.43.0


From dbcec2b6e413812db91f2d6e5b91bd7e89326367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:17 +0000
Subject: [PATCH 058/112] fix: film grain parameters were written where the
 syntax has none

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 369d84a..2b52c0c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1327,9 +1327,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                     // film grain params
                     // FIXME refactor
-                    if ecx.film_grain_params.is_none() || (!ecx.show_frame && !ecx.showable_frame) {
+                    if ecx.film_grain_params.is_some() && !ecx.show_frame && !ecx.showable_frame {
                         ecx.film_grain_params = Some(FilmGrainParams::new());
-                    } if ecx.film_grain_params.is_some() {
+                    } else if ecx.film_grain_params.is_some() {
                         let tmp_fgp = ecx.ref_film_grain_params[ecx.film_grain_params.as_ref().unwrap().film_grain_params_ref_idx as usize].clone();
                         let tmp_cc = ecx.color_config.clone();
                         if let Some(ref mut fgp) = ecx.film_grain_params {
-- 
2.43.0


From 999beccc052bb625b870815f337696f500f98882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:57 +0000
Subject: [PATCH 059/112] fix: 16 sample wide blocks were counted as three 4x4
 blocks wide

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index d1db7cc..d85d41c 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1161,7 +1161,7 @@ pub const mi_height_log2: [usize; BLOCK_SIZES] = [
 ];
 
 pub const num_4x4_blocks_wide: [usize; BLOCK_SIZES] = [
-    1, 1, 2, 2, 2, 3, 3, 3, 8, 8, 8,
+    1, 1, 2, 2, 2, 4, 4, 4, 8, 8, 8,
     16, 16, 16, 32, 32, 1, 4, 2, 8, 4, 16
 ];
 
-- 
2.43.0


From 2eaaaf86a79f00022eaaee055e16e75213c06f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:59 +0000
Subject: [PATCH 060/112] fix: the block size logarithms counted samples where
 4x4 blocks are meant

---
 src/constants.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index d85d41c..eee35f9 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1153,11 +1153,11 @@ pub const block_height: [usize; BLOCK_SIZES] = [
 ];
 
 pub const mi_width_log2: [usize; BLOCK_SIZES] = [
-    2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 2, 4, 3, 5, 4, 6
+    0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 0, 2, 1, 3, 2, 4
 ];
 
 pub const mi_height_log2: [usize; BLOCK_SIZES] = [
-    2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 6, 5, 6, 7, 6, 7, 4, 2, 5, 3, 6, 4
+    0, 1, 0, 1, 2, 1, 2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 2, 0, 3, 1, 4, 2
 ];
 
 pub const num_4x4_blocks_wide: [usize; BLOCK_SIZES] = [
-- 
2.43.0


From 299a0cf5cc652a1e85fcf8a7b25d0b0510167afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:01 +0000
Subject: [PATCH 061/112] fix: the inter transform sets were numbered from 0,
 as the DCT only set

---
 src/constants.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index eee35f9..9ae9c73 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1259,9 +1259,9 @@ pub const tx_size_sqr_up: [TxSize; TX_SIZES_ALL+1] = [
 pub const TX_SET_DCTONLY: usize = 0;
 pub const TX_SET_INTRA_1: usize = 1;
 pub const TX_SET_INTRA_2: usize = 2;
-pub const TX_SET_INTER_1: usize = 0;
-pub const TX_SET_INTER_2: usize = 1;
-pub const TX_SET_INTER_3: usize = 2;
+pub const TX_SET_INTER_1: usize = 1;
+pub const TX_SET_INTER_2: usize = 2;
+pub const TX_SET_INTER_3: usize = 3;
 
 #[derive(PartialEq, Copy, Clone)]
 pub enum TxType {
-- 
2.43.0


From a46dfd4ef9885f0871a62b2f9d4fdeea1b8cbccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:03 +0000
Subject: [PATCH 062/112] fix: the probability of a split at the frame edge was
 summed over the wrong partitions

---
 src/bool_coder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 0cf3338..cbc38d9 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -455,10 +455,10 @@ impl BoolCoder {
             &mut tile_cdf.partition_w128[ctx]
         };
         let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1];
+                   partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1] +
+                   partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
+                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
+                   partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
         if bsize != BLOCK_128X128 {
             psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
         }
@@ -480,13 +480,13 @@ impl BoolCoder {
         } else {
             &mut tile_cdf.partition_w128[ctx]
         };
-        let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
+        let mut psum = partition_cdf[PARTITION_HORZ as usize] - partition_cdf[PARTITION_HORZ as usize - 1] +
                    partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1] +
                    partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
+                   partition_cdf[PARTITION_HORZ_B as usize] - partition_cdf[PARTITION_HORZ_B as usize - 1] +
+                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1];
         if bsize != BLOCK_128X128 {
-            psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
+            psum += partition_cdf[PARTITION_HORZ_4 as usize] - partition_cdf[PARTITION_HORZ_4 as usize - 1];
         }
         let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_vert, out_bits, &mut cdf);
-- 
2.43.0


From 89959758d2ab1eb62e03091a01820ca252ff8d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:06 +0000
Subject: [PATCH 063/112] fix: the probability of a split at the frame edge was
 shifted by the sum

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index cbc38d9..72a9518 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -462,7 +462,7 @@ impl BoolCoder {
         if bsize != BLOCK_128X128 {
             psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_horz, out_bits, &mut cdf);
     }
 
@@ -488,7 +488,7 @@ impl BoolCoder {
         if bsize != BLOCK_128X128 {
             psum += partition_cdf[PARTITION_HORZ_4 as usize] - partition_cdf[PARTITION_HORZ_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_vert, out_bits, &mut cdf);
     }
 
-- 
2.43.0


From 90d87e72fd5edb22c1800af134452c2a5b545e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:38 +0000
Subject: [PATCH 064/112] fix: uv_mode was coded in the context of itself
 instead of the luma mode

---
 src/bool_coder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 72a9518..be5e68f 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -402,13 +402,13 @@ impl BoolCoder {
         self.encode_symbol(y_mode as i32, out_bits, cdf);
     }
 
-    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
+    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, y_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
         let cdf: &mut [i32] = if lossless && get_plane_residual_size(mi_size, 1, subsampling_x, subsampling_y)==BLOCK_4X4 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else if !lossless && Max!(block_width[mi_size as usize], block_height[mi_size as usize])<=32 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else {
-            &mut tile_cdf.uv_mode_cfl_not_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_not_allowed[y_mode as usize]
         };
         self.encode_symbol(uv_mode as i32, out_bits, cdf);
     }
-- 
2.43.0


From c6152351ffe1b3cb4ad8d848838182a4d58fb8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:40 +0000
Subject: [PATCH 065/112] fix: the tx_depth context took the width of the inter
 block on the left for its height

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index be5e68f..9ad018c 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -505,7 +505,7 @@ impl BoolCoder {
         };
         let left_h = match frame.get_left_mi(mi_row, mi_col) {
             Some(mi) => if mi.is_inter {
-                block_width[mi.mi_size as usize]
+                block_height[mi.mi_size as usize]
             } else {
                 tx_height[mi.tx_size as usize]
             },
-- 
2.43.0


From bd1e922d46090da7861ef7be52b1d1495ac6ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:42 +0000
Subject: [PATCH 066/112] fix: the txfm_split context added up sizes, and
 widths for heights, instead of comparing them

---
 src/bool_coder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 9ad018c..1692223 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -536,11 +536,13 @@ impl BoolCoder {
         let left = if col==mi_col {
             match frame.get_left_mi(row, col) {
                 Some(mi) => if mi.skip && mi.is_inter {
-                    block_width[mi.mi_size as usize]
-                } else { tx_width[mi.tx_size as usize] },
+                    block_height[mi.mi_size as usize]
+                } else { tx_height[mi.tx_size as usize] },
                 None => 64,
             }
-        } else { tx_width[frame.get_above_mi(row, col).unwrap().tx_size as usize] };
+        } else { tx_height[frame.get_left_mi(row, col).unwrap().tx_size as usize] };
+        let above = (above < tx_width[tx_size as usize]) as usize;
+        let left = (left < tx_height[tx_size as usize]) as usize;
         let size = Min!(64, Max!(block_width[mi_size as usize], block_height[mi_size as usize]));
         let max_tx_size = find_tx_size(size, size);
         let tx_sz_sqr_up = tx_size_sqr_up[tx_size as usize];
-- 
2.43.0


From ca7f916d0ddf0c0077dc1fae744d575aa56ba683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:44 +0000
Subject: [PATCH 067/112] fix: the interp_filter context compared the second
 references with each other

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 1692223..ef7a7b9 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -765,12 +765,12 @@ impl BoolCoder {
         let ref_frame = frame.get_mi(mi_row, mi_col).unwrap().ref_frame;
         let mut ctx = ((dir&1)*2 + (ref_frame[1]>INTRA_FRAME) as usize) * 4;
         let left_type = if let Some(mi) = frame.get_left_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
         let above_type = if let Some(mi) = frame.get_above_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
-- 
2.43.0


From d3f8bad3676b43faebbd2194752367562187d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:46 +0000
Subject: [PATCH 068/112] fix: the comp_ref_type context took two
 unidirectional neighbours for one

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index ef7a7b9..b7b5605 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1182,7 +1182,7 @@ impl BoolCoder {
             } else {
                 if !above_uni_comp && !left_uni_comp {
                     0
-                } else if !above_uni_comp || left_uni_comp {
+                } else if !above_uni_comp || !left_uni_comp {
                     2
                 } else { 3 + ((above0==BWDREF_FRAME) as usize == (left0==BWDREF_FRAME) as usize) as usize }
             }
-- 
2.43.0


From 4cb6dfce01a203328284c03d52f2c45c6b77ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 069/112] fix: dc_sign coded the sum of the neighbours' signs
 instead of the sign

---
 src/bool_coder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index b7b5605..eff0ca1 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -980,14 +980,14 @@ impl BoolCoder {
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
 
-    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
+    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, dc_sign: usize, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
         let mut max_x4 = frame.mi_cols();
         let mut max_y4 = frame.mi_rows();
         if plane>0 {
             max_x4 >>= frame.subsampling_x as usize;
             max_y4 >>= frame.subsampling_y as usize;
         }
-        let mut dc_sign: isize = 0;
+        let mut sum: isize = 0;
         for k in 0..w4 {
             if x4+k < max_x4 {
                 let sign = match frame.get_above_mi(mi_row, mi_col) {
@@ -995,9 +995,9 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sum += 1;
                 }
             }
         }
@@ -1008,13 +1008,13 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sum += 1;
                 }
             }
         }
-        let ctx = if dc_sign<0 { 1 } else if dc_sign>0 {
+        let ctx = if sum<0 { 1 } else if sum>0 {
             2
         } else { 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.dc_sign[0/*FIXME*/][ptype][ctx];
-- 
2.43.0


From 7ac049a449259e848cd92f08ed5fc39fa4c1e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:50 +0000
Subject: [PATCH 070/112] fix: mv_sign took a joint type for a sign

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index eff0ca1..b168652 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -795,7 +795,7 @@ impl BoolCoder {
         self.encode_symbol(mv_joint as i32, out_bits, &mut cdf);
     }
 
-    pub fn encode_mv_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, mv_sign: MvJoint, mv_ctx: usize, comp: usize) {
+    pub fn encode_mv_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, mv_sign: usize, mv_ctx: usize, comp: usize) {
         let mut cdf: &mut [i32] = &mut tile_cdf.mv_sign[mv_ctx as usize][comp];
         self.encode_symbol(mv_sign as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 0fb79d78560e312c9c156a664ecebba029bf53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:52 +0000
Subject: [PATCH 071/112] fix: the coeff_base_eob context underflowed

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index b168652..e3db416 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -975,7 +975,7 @@ impl BoolCoder {
     }
 
     pub fn encode_coeff_base_eob(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, coeff_base_eob: usize, tx_size: TxSize, tx_size_ctx: usize, ptype: usize, plane: usize, x4: usize, y4: usize, scan: &[usize], c: usize, frame: &mut Frame, lossless: bool, is_inter: bool, reduced_tx_set: bool, uv_mode: YMode, mi_row: usize, mi_col: usize, quant: &[isize]) {
-        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) - SIG_COEF_CONTEXTS + SIG_COEF_CONTEXTS_EOB;
+        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) + SIG_COEF_CONTEXTS_EOB - SIG_COEF_CONTEXTS;
         let mut cdf: &mut [i32] = &mut tile_cdf.coeff_base_eob[0/*FIXME*/][tx_size_ctx][ptype][ctx];
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 74b2c5a3f3f23b5fbea856caa45f0efeb5142659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:54 +0000
Subject: [PATCH 072/112] fix: the cfl alpha contexts were off by one

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index e3db416..796562a 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1304,13 +1304,13 @@ impl BoolCoder {
     }
 
     pub fn encode_cfl_alpha_u(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_u: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-2 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_u as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_cfl_alpha_v(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_v: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+cfl_alpha_signs/3-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+cfl_alpha_signs/3 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_v as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 355d25477828281fd25c510797059553587f36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:47 +0000
Subject: [PATCH 073/112] fix: transform types were coded by their number
 instead of their place in the transform set

---
 src/bool_coder.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 796562a..4a1341e 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1141,15 +1141,25 @@ impl BoolCoder {
         let intra_dir = if use_filter_intra { filter_intra_mode_to_intra_dir[filter_intra_mode] as usize } else {
             y_mode as usize
         };
+        let inv_set: &[TxType] = if tx_set==TX_SET_INTRA_1 { &tx_type_intra_inv_set1 } else { &tx_type_intra_inv_set2 };
+        let symbol = inv_set.iter().position(|t| *t==intra_tx_type).unwrap();
         let mut cdf: &mut [i32] = if tx_set==TX_SET_INTRA_1 {
             &mut tile_cdf.intra_tx_type_set1[tx_size_sqr[tx_size as usize] as usize][intra_dir]
         } else {
             &mut tile_cdf.intra_tx_type_set2[tx_size_sqr[tx_size as usize] as usize][intra_dir]
         };
-        self.encode_symbol(intra_tx_type as i32, out_bits, &mut cdf);
+        self.encode_symbol(symbol as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_inter_tx_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, inter_tx_type: TxType, tx_size: TxSize, tx_set: usize) {
+        let inv_set: &[TxType] = if tx_set==TX_SET_INTER_1 {
+            &tx_type_inter_inv_set1
+        } else if tx_set==TX_SET_INTER_2 {
+            &tx_type_inter_inv_set12
+        } else {
+            &tx_type_inter_inv_set3
+        };
+        let symbol = inv_set.iter().position(|t| *t==inter_tx_type).unwrap();
         let mut cdf: &mut [i32] = if tx_set==TX_SET_INTER_1 {
             &mut tile_cdf.inter_tx_type_set1[tx_size_sqr[tx_size as usize] as usize]
         } else if tx_set==TX_SET_INTER_2 {
@@ -1157,7 +1167,7 @@ impl BoolCoder {
         } else {
             &mut tile_cdf.inter_tx_type_set3[tx_size_sqr[tx_size as usize] as usize]
         };
-        self.encode_symbol(inter_tx_type as i32, out_bits, &mut cdf);
+        self.encode_symbol(symbol as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_comp_ref_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, comp_ref_type: usize, frame: &mut Frame, mi_row: usize, mi_col: usize) {
-- 
2.43.0


From 5b521118472e60c52c116d465e6f857aac716260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 074/112] fix: the transform type of a luma block was taken
 from the corner of its prediction block

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 4c109a2..31c822c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -109,7 +109,7 @@ pub fn compute_tx_type(plane: usize, tx_size: TxSize, block_x: usize, block_y: u
     }
     let tx_set = get_tx_set(tx_size, is_inter, reduced_tx_set);
     if plane==0 {
-        let tx_type = frame.get_mi(mi_row, mi_col).unwrap().tx_type;
+        let tx_type = frame.get_mi(block_y, block_x).unwrap().tx_type;
         if !is_tx_type_in_set(tx_set, tx_type, is_inter) {
             return DCT_DCT;
         } else {
-- 
2.43.0


From 4a685bc8ad92814950a19f9d1a7dd6d1ec94a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:49 +0000
Subject: [PATCH 075/112] fix: the segment id code underflowed below the
 predicted id and mapped others to the wrong symbol

---
 src/tile_encoder.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index a16adde..ba3168d 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -565,25 +565,12 @@ impl<'b> TileEncoder<'b> {
                     v
                 } else if rf>=(max-1) {
                     max - 1 - v
-                } else if 2*rf < max {
-                    let d1 = ((v-rf)<<1) - 1;
-                    let d2 = (rf-v)<<1;
-                    if d1 <= 2*rf {
-                        d1
-                    } else if d2 <= 2*rf {
-                        d2
-                    } else {
-                        v
-                    }
                 } else {
-                    let d1 = ((v-rf)<<1) - 1;
-                    let d2 = (rf-v)<<1;
-                    if d1 <= 2*(max-rf-1) {
-                        d1
-                    } else if d2 <= 2*(max-rf-1) {
-                        d2
+                    let d = if v>rf { ((v-rf)<<1) - 1 } else { (rf-v)<<1 };
+                    if 2*rf < max {
+                        if d <= 2*rf { d } else { v }
                     } else {
-                        rf-v-1
+                        if d <= 2*(max-rf-1) { d } else { max-v-1 }
                     }
                 }
             };
-- 
2.43.0


From 0afbbbd7bcf1d85dcee2f6effd7e9f51456050fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:52 +0000
Subject: [PATCH 076/112] fix: segment ids were coded as if segment 0 were the
 only active one

---
 src/tile_encoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index ba3168d..4edf03f 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -574,7 +574,8 @@ impl<'b> TileEncoder<'b> {
                     }
                 }
             };
-            let v = neg_interleave(part_tree.segment_id, pred as usize, self.last_active_seg_id+1);
+            let last_active_seg_id = self.ectx.borrow().last_active_seg_id;
+            let v = neg_interleave(part_tree.segment_id, pred as usize, last_active_seg_id+1);
             self.coder.encode_segment_id(out_bits, &mut self.cdf, v, prev_u as isize, prev_l as isize, prev_ul as isize);
         }
     }
-- 
2.43.0


From 17b915f7d5e8ee6084bb75b93801c4a41fdb083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:54 +0000
Subject: [PATCH 077/112] fix: segment id and cdef index were written for
 skipped blocks

---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 4edf03f..f01625c 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -606,6 +606,7 @@ impl<'b> TileEncoder<'b> {
             } else {
                 self.coder.encode_skip(out_bits, &mut self.cdf, part_tree.skip as usize, frame, self.mi_row, self.mi_col);
             }
+            self.skip = part_tree.skip;
 
             if !seg_id_pre_skip {
                 // intra segment id
-- 
2.43.0


From f6df21746c50487ccc5393c190a329cd72a945ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:56 +0000
Subject: [PATCH 078/112] fix: a cdef index was stored for all blocks above and
 to the left

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f01625c..9cbfa3d 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -631,9 +631,9 @@ impl<'b> TileEncoder<'b> {
                     let w4 = num_4x4_blocks_wide[part_tree.bsize as usize];
                     let h4 = num_4x4_blocks_high[part_tree.bsize as usize];
                     {
-                        let mut i = 0;
+                        let mut i = r;
                         while i < r+h4 {
-                            let mut j = 0;
+                            let mut j = c;
                             while j < c+w4 {
                                 frame.cdef_idx[i][j] = part_tree.cdef_idx;
                                 j += cdef_size4;
-- 
2.43.0


From ecc47fd66a9fbbcf591a344781c039de70d36d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:58 +0000
Subject: [PATCH 079/112] fix: large quantizer index changes were coded with
 half their base value

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 9cbfa3d..fbb8c87 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -660,7 +660,7 @@ impl<'b> TileEncoder<'b> {
                         self.coder.encode_delta_q_abs(out_bits, &mut self.cdf, DELTA_Q_SMALL);
                         let delta_q_rem_bits = msb16((delta_q_abs-1) as u16);
                         self.coder.encode_literal(out_bits, (delta_q_rem_bits-1) as u64, 3);
-                        let delta_q_abs_bits = (delta_q_abs-1) - (1<<(delta_q_rem_bits-1));
+                        let delta_q_abs_bits = (delta_q_abs-1) - (1<<delta_q_rem_bits);
                         self.coder.encode_literal(out_bits, delta_q_abs_bits as u64, delta_q_rem_bits);
                     }
                     let delta_q_sign_bit = if delta_q_index < 0 { 1 } else { 0 };
-- 
2.43.0


From bee1f4dec33756f81dc7fb1ab67039188cdf4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:00 +0000
Subject: [PATCH 080/112] fix: large loop filter level changes were coded with
 the wrong value

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index fbb8c87..66fc85f 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -689,8 +689,8 @@ impl<'b> TileEncoder<'b> {
                             self.coder.encode_delta_lf_abs(out_bits, &mut self.cdf, DELTA_LF_SMALL, frame.delta_lf_params.delta_lf_multi as usize, i);
                             let delta_lf_rem_bits = msb16((delta_lf_abs-1) as u16);
                             self.coder.encode_literal(out_bits, (delta_lf_rem_bits-1) as u64, 3);
-                            let delta_lf_abs_bits = (delta_lf_abs-1) - (1<<(delta_lf_rem_bits-1));
-                            self.coder.encode_literal(out_bits, (delta_lf_abs_bits-1) as u64, delta_lf_rem_bits);
+                            let delta_lf_abs_bits = (delta_lf_abs-1) - (1<<delta_lf_rem_bits);
+                            self.coder.encode_literal(out_bits, delta_lf_abs_bits as u64, delta_lf_rem_bits);
                         }
                         let delta_lf_sign_bits = if delta_lf < 0 { 1 } else { 0 };
                         self.coder.encode_literal(out_bits, delta_lf_sign_bits as u64, 1);
-- 
2.43.0


From 941b9e9ded80cfa4666a5503d5dea5db05788582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:02 +0000
Subject: [PATCH 081/112] fix: uni_comp_ref_p2 was missing

---
 src/tile_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 66fc85f..83040e5 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -756,6 +756,10 @@ impl<'b> TileEncoder<'b> {
                                 if !uni_comp_ref {
                                     let uni_comp_ref_p1 = part_tree.ref_frame[0]==LAST_FRAME && [GOLDEN_FRAME, LAST3_FRAME].contains(&part_tree.ref_frame[1]);
                                     self.coder.encode_uni_comp_ref_p1(out_bits, &mut self.cdf, uni_comp_ref_p1 as usize, frame, self.mi_row, self.mi_col);
+                                    if uni_comp_ref_p1 {
+                                        let uni_comp_ref_p2 = part_tree.ref_frame[1]==GOLDEN_FRAME;
+                                        self.coder.encode_uni_comp_ref_p2(out_bits, &mut self.cdf, uni_comp_ref_p2 as usize, frame, self.mi_row, self.mi_col);
+                                    }
                                 }
                             } else {
                                 let comp_ref = [GOLDEN_FRAME, LAST3_FRAME].contains(&part_tree.ref_frame[0]);
-- 
2.43.0


From e6b4658d54e700fa511141c65ef440d20c3bb96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:04 +0000
Subject: [PATCH 082/112] fix: the second backward reference element was
 written depending on, and as, one of the forward reference

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 83040e5..6eae244 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -774,9 +774,9 @@ impl<'b> TileEncoder<'b> {
 
                                 let comp_bwdref = part_tree.ref_frame[1]==ALTREF_FRAME;
                                 self.coder.encode_comp_bwdref(out_bits, &mut self.cdf, comp_bwdref as usize, frame, self.mi_row, self.mi_col);
-                                if !comp_ref {
+                                if !comp_bwdref {
                                     let comp_bwdref_p1 = part_tree.ref_frame[1]==ALTREF2_FRAME;
-                                    self.coder.encode_comp_ref_p1(out_bits, &mut self.cdf, comp_bwdref_p1 as usize, frame, self.mi_row, self.mi_col);
+                                    self.coder.encode_comp_bwdref_p1(out_bits, &mut self.cdf, comp_bwdref_p1 as usize, frame, self.mi_row, self.mi_col);
                                 }
                             }
                         } else {
-- 
2.43.0


From 993bd4305ae75304f7916b634cd58e84dbc36a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:06 +0000
Subject: [PATCH 083/112] fix: the mode of a compound block was not taken over

---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 6eae244..c0f9aa8 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -821,6 +821,7 @@ impl<'b> TileEncoder<'b> {
                     } else if is_compound {
                         let compound_mode = part_tree.compound_mode as usize - NEAREST_NEARESTMV as usize;
                         self.coder.encode_compound_mode(out_bits, &mut self.cdf, compound_mode, self.ref_mv_context, self.new_mv_context);
+                        self.y_mode = part_tree.compound_mode as usize;
                     } else {
                         self.coder.encode_new_mv(out_bits, &mut self.cdf, part_tree.new_mv as usize, self.new_mv_context);
                         if !part_tree.new_mv {
-- 
2.43.0


From 96ffa60b52e05a1d885a2aabaec098c8234ef350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:49 +0000
Subject: [PATCH 084/112] fix: the components of a motion vector difference
 were never written

---
 src/tile_encoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index c0f9aa8..0ada752 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1395,7 +1395,7 @@ impl<'b> TileEncoder<'b> {
                     _ => MV_JOINT_HNZVNZ,
                 };
                 self.coder.encode_mv_joint(out_bits, &mut self.cdf, mv_joint, self.mv_ctx);
-                let encode_mv_component = |v: isize, comp: usize| -> () {
+                let mut encode_mv_component = |v: isize, comp: usize| -> () {
                     let mv_sign = if v<0 { 1 } else { 0 };
                     let mv_abs = Abs!(v) as usize;
                     let mv_class = MVClass::from_u8(msb16(mv_abs as u16)/8).unwrap();
@@ -1427,6 +1427,12 @@ impl<'b> TileEncoder<'b> {
                         }
                     }
                 };
+                if diff_mv.y != 0 {
+                    encode_mv_component(diff_mv.y, 0);
+                }
+                if diff_mv.x != 0 {
+                    encode_mv_component(diff_mv.x, 1);
+                }
             } else {
                 part_tree.mvs[i] = self.pred_mv[i];
             }
-- 
2.43.0


From 2495c7d68dd003a14aa22b5d9758f949f0d9aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:51 +0000
Subject: [PATCH 085/112] fix: the sign of a motion vector difference was
 missing

---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 0ada752..6e6a508 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1397,6 +1397,7 @@ impl<'b> TileEncoder<'b> {
                 self.coder.encode_mv_joint(out_bits, &mut self.cdf, mv_joint, self.mv_ctx);
                 let mut encode_mv_component = |v: isize, comp: usize| -> () {
                     let mv_sign = if v<0 { 1 } else { 0 };
+                    self.coder.encode_mv_sign(out_bits, &mut self.cdf, mv_sign, self.mv_ctx, comp);
                     let mv_abs = Abs!(v) as usize;
                     let mv_class = MVClass::from_u8(msb16(mv_abs as u16)/8).unwrap();
                     self.coder.encode_mv_class(out_bits, &mut self.cdf, mv_class as usize, self.mv_ctx, comp);
-- 
2.43.0


From 90af811e8a0be0ef302949c0562137d2f0f58ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:53 +0000
Subject: [PATCH 086/112] fix: the class and the bits of a motion vector
 difference were derived from the wrong magnitude

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 6e6a508..c00c342 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1398,8 +1398,8 @@ impl<'b> TileEncoder<'b> {
                 let mut encode_mv_component = |v: isize, comp: usize| -> () {
                     let mv_sign = if v<0 { 1 } else { 0 };
                     self.coder.encode_mv_sign(out_bits, &mut self.cdf, mv_sign, self.mv_ctx, comp);
-                    let mv_abs = Abs!(v) as usize;
-                    let mv_class = MVClass::from_u8(msb16(mv_abs as u16)/8).unwrap();
+                    let mv_abs = Abs!(v) as usize - 1; // a component that is coded is not 0
+                    let mv_class = MVClass::from_u8(if mv_abs < CLASS0_SIZE<<3 { 0 } else { msb16(mv_abs as u16)-3 }).unwrap();
                     self.coder.encode_mv_class(out_bits, &mut self.cdf, mv_class as usize, self.mv_ctx, comp);
                     if mv_class==MV_CLASS_0 {
                         let mv_class0_bit = (mv_abs >> 3) & 1;
-- 
2.43.0


From 9dea50a94bcd21e549a7c4ae5013030cad43875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:55 +0000
Subject: [PATCH 087/112] fix: the second vector of a compound block was coded
 as the first

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index c00c342..8d3b7f8 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1382,7 +1382,7 @@ impl<'b> TileEncoder<'b> {
             }
             if part_tree.compound_mode==NEWMV {
                 // encode mv
-                let mut diff_mv = part_tree.mvs[0] - self.pred_mv[0];
+                let diff_mv = part_tree.mvs[i] - self.pred_mv[i];
                 if part_tree.use_intrabc {
                     self.mv_ctx = MV_INTRABC_CONTEXT;
                 } else {
-- 
2.43.0


From ab1a7ff85af415ff06205a18b086269d115029a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:57 +0000
Subject: [PATCH 088/112] fix: assigning the vectors of a compound block
 changed its mode

---
 src/tile_encoder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 8d3b7f8..78e081a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1323,8 +1323,8 @@ impl<'b> TileEncoder<'b> {
 
     pub fn assign_mv(&mut self, is_compound: bool, frame: &mut Frame, out_bits: &mut Vec<u8>, part_tree: &mut PartitionTree) {
         for i in 0..(1+is_compound as usize) {
-            if part_tree.use_intrabc {
-                part_tree.compound_mode = NEWMV;
+            let comp_mode = if part_tree.use_intrabc {
+                NEWMV
             } else {
                 let get_mode = |ref_list: usize| -> YMode {
                     let y_mode = self.y_mode;
@@ -1348,8 +1348,8 @@ impl<'b> TileEncoder<'b> {
                         } else { GLOBALMV }
                     };
                 };
-                part_tree.compound_mode = get_mode(i);
-            }
+                get_mode(i)
+            };
             if part_tree.use_intrabc {
                 self.pred_mv[0] = self.ref_stack_mv[0][0];
                 if self.pred_mv[0]==MotionVector::new(0, 0) {
@@ -1370,17 +1370,17 @@ impl<'b> TileEncoder<'b> {
                         );
                     }
                 }
-            } else if part_tree.compound_mode==GLOBALMV {
+            } else if comp_mode==GLOBALMV {
                 self.pred_mv[i] = self.global_mvs[i];
             } else {
-                let pos = if part_tree.compound_mode==NEWMV && self.num_mv_found<=1 {
+                let pos = if comp_mode==NEWMV && self.num_mv_found<=1 {
                     0
-                } else if part_tree.compound_mode==NEARESTMV {
+                } else if comp_mode==NEARESTMV {
                     0
                 } else { self.ref_mv_idx };
                 self.pred_mv[i] = self.ref_stack_mv[pos][i];
             }
-            if part_tree.compound_mode==NEWMV {
+            if comp_mode==NEWMV {
                 // encode mv
                 let diff_mv = part_tree.mvs[i] - self.pred_mv[i];
                 if part_tree.use_intrabc {
-- 
2.43.0


From d3c37371fe1183bcf7034641699ebdabf10b066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:59 +0000
Subject: [PATCH 089/112] fix: the default vector of intra block copy
 underflowed near the top of a tile

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 78e081a..ba587ba 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1358,7 +1358,7 @@ impl<'b> TileEncoder<'b> {
                 if self.pred_mv[0]==MotionVector::new(0, 0) {
                     let sb_size = if self.ectx.borrow_mut().use_128x128_superblock { BLOCK_128X128 } else { BLOCK_64X64 };
                     let sb_size4 = num_4x4_blocks_high[sb_size as usize];
-                    if self.mi_row-sb_size4 < self.mi_row_start {
+                    if self.mi_row < self.mi_row_start+sb_size4 {
                         self.pred_mv[0] = MotionVector::new(
                             0,
                             -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8
-- 
2.43.0


From 9e08879a8b79c2bc75ae6b347eef6539d8696fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:01 +0000
Subject: [PATCH 090/112] fix: the default vector of intra block copy pointed
 down a column instead of along the row

---
 src/tile_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index ba587ba..2b0a524 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1360,13 +1360,13 @@ impl<'b> TileEncoder<'b> {
                     let sb_size4 = num_4x4_blocks_high[sb_size as usize];
                     if self.mi_row < self.mi_row_start+sb_size4 {
                         self.pred_mv[0] = MotionVector::new(
-                            0,
-                            -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8
+                            -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8,
+                            0
                         );
                     } else {
                         self.pred_mv[0] = MotionVector::new(
-                            -((sb_size4 * MI_SIZE * 8) as isize),
-                            0
+                            0,
+                            -((sb_size4 * MI_SIZE * 8) as isize)
                         );
                     }
                 }
-- 
2.43.0


From 6dd9a26d4440b9aff3f6c86d5ba54a039716e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:03 +0000
Subject: [PATCH 091/112] fix: translational global motion exchanged rows and
 columns

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 2b0a524..745572a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -896,8 +896,8 @@ impl<'b> TileEncoder<'b> {
                     MotionVector::new(0, 0)
                 } else if typ==TRANSLATION {
                     MotionVector::new(
-                        ecx.gm_params[rf as usize][0] >> (WARPEDMODEL_PREC_BITS-3),
-                        ecx.gm_params[rf as usize][1] >> (WARPEDMODEL_PREC_BITS-3)
+                        ecx.gm_params[rf as usize][1] >> (WARPEDMODEL_PREC_BITS-3),
+                        ecx.gm_params[rf as usize][0] >> (WARPEDMODEL_PREC_BITS-3)
                     )
                 } else {
                     let x = (self.mi_col * MI_SIZE + bw/2 - 1) as isize;
-- 
2.43.0


From 4fe792cb8be36c867361ed934b3db23adbb56c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:05 +0000
Subject: [PATCH 092/112] fix: candidate vectors lost their lowest bit in
 frames with high precision vectors

---
 src/tile_encoder.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 745572a..3e8abbb 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -921,8 +921,9 @@ impl<'b> TileEncoder<'b> {
                     }
                 };
                 let lower_mv_precision = |v: isize| -> isize {
-                    let mut r = v;
-                    if frame.force_integer_mv>0 {
+                    if frame.allow_high_precision_mv {
+                        v
+                    } else if frame.force_integer_mv>0 {
                         let a = Abs!(v);
                         let a_int = (a+3) >> 3;
                         if v>0 {
@@ -1070,8 +1071,9 @@ impl<'b> TileEncoder<'b> {
                             self.zero_mv_context = 1;
                         }
                         let lower_mv_precision = |v: isize| -> isize {
-                            let mut r = v;
-                            if frame.force_integer_mv>0 {
+                            if frame.allow_high_precision_mv {
+                                v
+                            } else if frame.force_integer_mv>0 {
                                 let a = Abs!(v);
                                 let a_int = (a+3) >> 3;
                                 if v>0 {
@@ -1200,8 +1202,9 @@ impl<'b> TileEncoder<'b> {
                             mi.mvs[cand_list]
                         };
                         let lower_mv_precision = |v: isize| -> isize {
-                            let mut r = v;
-                            if frame.force_integer_mv>0 {
+                            if frame.allow_high_precision_mv {
+                                v
+                            } else if frame.force_integer_mv>0 {
                                 let a = Abs!(v);
                                 let a_int = (a+3) >> 3;
                                 if v>0 {
@@ -1264,8 +1267,9 @@ impl<'b> TileEncoder<'b> {
                         }
                     }
                     let lower_mv_precision = |v: isize| -> isize {
-                        let mut r = v;
-                        if frame.force_integer_mv>0 {
+                        if frame.allow_high_precision_mv {
+                            v
+                        } else if frame.force_integer_mv>0 {
                             let a = Abs!(v);
                             let a_int = (a+3) >> 3;
                             if v>0 {
-- 
2.43.0


From 445c99fa738868eb23a02bd8cd295110e6a634df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:07 +0000
Subject: [PATCH 093/112] fix: the candidate above and to the right was read
 outside the tile and before it was coded

---
 src/tile_encoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 3e8abbb..292c9ce 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1034,9 +1034,10 @@ impl<'b> TileEncoder<'b> {
             let mv_row = self.mi_row as isize + delta_row;
             let mv_col = self.mi_col as isize + delta_col;
             let weight = 4;
-            let mi = frame.get_mi(mv_row as usize, mv_col as usize).unwrap();
-            if self.is_inside(mv_row, mv_col) && mi.ref_frame[0]!=NONE { // FIXME
-                self.add_ref_mv_candidate(mv_row as usize, mv_col as usize, is_compound, weight, &mi, frame, part_tree);
+            if self.is_inside(mv_row, mv_col) {
+                if let Some(mi) = frame.get_mi(mv_row as usize, mv_col as usize) {
+                    self.add_ref_mv_candidate(mv_row as usize, mv_col as usize, is_compound, weight, &mi, frame, part_tree);
+                }
             }
         }
         if self.found_match {
-- 
2.43.0


From 50db21e186385106a90f3edad9c3c06b7b6150ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:09 +0000
Subject: [PATCH 094/112] fix: temporal candidates were looked up in frames
 that do not use them

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 292c9ce..46aa712 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1052,7 +1052,7 @@ impl<'b> TileEncoder<'b> {
             }
         }
         self.zero_mv_context = 0;
-        {
+        if frame.use_ref_frame_mvs {
             // temporal scan
             let bw4 = num_4x4_blocks_wide[part_tree.bsize as usize];
             let bh4 = num_4x4_blocks_high[part_tree.bsize as usize];
-- 
2.43.0


From 8378df85c04c77abdf974d0cfdb06c5d6fe40c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:39 +0000
Subject: [PATCH 095/112] fix: coding a Wiener filtered unit panicked

---
 src/tile_encoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 46aa712..b461028 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -289,7 +289,6 @@ impl<'b> TileEncoder<'b> {
                                     let v = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].lr_wiener[pass][j];
                                     encode_signed_subexp_with_ref_bool(v, min, max+1, k as usize, ecx.ref_lr_wiener[plane][pass][j], self.coder, out_bits);
                                     frame.lr_wiener[plane][unit_row][unit_col][pass][j] = v;
-                                    let mut ecx = self.ectx.borrow_mut();
                                     ecx.ref_lr_wiener[plane][pass][j] = v;
                                 }
                             }
-- 
2.43.0


From 902ad9d435d27710737d5b65780b8cd1aa3937e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:41 +0000
Subject: [PATCH 096/112] fix: whether a unit is restored was written past the
 symbol coder

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index b461028..87b802a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -214,12 +214,12 @@ impl<'b> TileEncoder<'b> {
                             RESTORE_NONE => RESTORE_NONE,
                             RESTORE_WIENER => {
                                 let use_wiener = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].use_wiener;
-                                self.coder.push_bit(out_bits, use_wiener as u8);
+                                self.coder.encode_use_wiener(out_bits, &mut self.cdf, use_wiener as usize);
                                 if use_wiener { RESTORE_WIENER }  else { RESTORE_NONE }
                             },
                             RESTORE_SGRPROJ => {
                                 let use_sgrproj = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].use_sgrproj;
-                                self.coder.push_bit(out_bits, use_sgrproj as u8);
+                                self.coder.encode_use_sgrproj(out_bits, &mut self.cdf, use_sgrproj as usize);
                                 if use_sgrproj { RESTORE_SGRPROJ }  else { RESTORE_NONE }
                             },
                             _ => sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type,
-- 
2.43.0


From 821487090ee0a7f28cf8bb1f224d1369884058e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:43 +0000
Subject: [PATCH 097/112] fix: the restoration type of a unit was missing in
 frames that switch it

---
 src/tile_encoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 87b802a..3dc7aa5 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -222,7 +222,11 @@ impl<'b> TileEncoder<'b> {
                                 self.coder.encode_use_sgrproj(out_bits, &mut self.cdf, use_sgrproj as usize);
                                 if use_sgrproj { RESTORE_SGRPROJ }  else { RESTORE_NONE }
                             },
-                            _ => sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type,
+                            _ => {
+                                let restoration_type = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type;
+                                self.coder.encode_restoration_type(out_bits, &mut self.cdf, restoration_type as usize);
+                                restoration_type
+                            },
                         };
                         frame.lr_type[plane][unit_row][unit_col] = restoration_type;
 
-- 
2.43.0


From 5a9bd310c6bd0bed51bcf7789133562dbb60c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:45 +0000
Subject: [PATCH 098/112] fix: restoration coefficients were mapped with the
 decoder's half of the code

---
 src/tile_encoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 3dc7aa5..d3175d9 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -230,13 +230,13 @@ impl<'b> TileEncoder<'b> {
                         };
                         frame.lr_type[plane][unit_row][unit_col] = restoration_type;
 
-                        let inverse_recenter = |r: usize, v: usize| -> usize {
+                        let recenter = |r: usize, v: usize| -> usize {
                             if v > 2*r {
                                 v
-                            } else if v&1 > 0 {
-                                r - ((v+1)>>1)
+                            } else if v >= r {
+                                (v-r) << 1
                             } else {
-                                r + (v>>1)
+                                ((r-v) << 1) - 1
                             }
                         };
                         let mut encode_subexp_bool = |v: usize, num_syms: usize, k: usize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
@@ -265,11 +265,11 @@ impl<'b> TileEncoder<'b> {
                         };
                         let mut encode_unsigned_subexp_with_ref_bool = |v: usize, mx: usize, k: usize, r: usize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
                             if (r<<1) <= mx {
-                                let tv = inverse_recenter(r, v);
+                                let tv = recenter(r, v);
                                 encode_subexp_bool(tv, mx, k, coder, out_bits);
                             } else {
                                 let mut tv = mx - 1 - v;
-                                tv = inverse_recenter(mx-1-r, tv);
+                                tv = recenter(mx-1-r, tv);
                                 encode_subexp_bool(tv, mx-1-r, k, coder, out_bits);
                             }
                         };
-- 
2.43.0


From 0033bb69388f6752c2977e6749979475a102dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:47 +0000
Subject: [PATCH 099/112] fix: restoration coefficients near their maximum were
 coded in too small a range

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index d3175d9..cb209b4 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -270,7 +270,7 @@ impl<'b> TileEncoder<'b> {
                             } else {
                                 let mut tv = mx - 1 - v;
                                 tv = recenter(mx-1-r, tv);
-                                encode_subexp_bool(tv, mx-1-r, k, coder, out_bits);
+                                encode_subexp_bool(tv, mx, k, coder, out_bits);
                             }
                         };
                         let mut encode_signed_subexp_with_ref_bool = |v: isize, low: isize, high: isize, k: usize, r: isize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
-- 
2.43.0


From 10a7cd2a53c9d19ea680386e769d685cb47fa9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:49 +0000
Subject: [PATCH 100/112] fix: the last part of a restoration coefficient was
 written past the symbol coder

---
 src/tile_encoder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index cb209b4..ca53d35 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -247,7 +247,15 @@ impl<'b> TileEncoder<'b> {
                                 let a = 1 << b2;
                                 if num_syms <= mk+3*a {
                                     let tv = v - mk;
-                                    coder.encode_ns(out_bits, tv as u64, (num_syms-mk) as u64);
+                                    let n = num_syms - mk;
+                                    let w = FloorLog2!(n) + 1;
+                                    let m = (1<<w) - n;
+                                    if tv < m {
+                                        coder.encode_literal(out_bits, tv as u64, (w-1) as u8);
+                                    } else {
+                                        coder.encode_literal(out_bits, (m + ((tv-m)>>1)) as u64, (w-1) as u8);
+                                        coder.encode_literal(out_bits, ((tv-m)&1) as u64, 1);
+                                    }
                                     break;
                                 } else {
                                     let tv = v - mk;
-- 
2.43.0


From ddb5fd2f03ddfa32ae9007802802c6ebddf1c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:51 +0000
Subject: [PATCH 101/112] fix: the weight left to the second self guided filter
 was derived with the wrong precision

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index ca53d35..08f9941 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -319,7 +319,7 @@ impl<'b> TileEncoder<'b> {
                                 } else {
                                     v = 0;
                                     if i==1 {
-                                        v = Clip3!(min, max, (1<<SGRPROJ_PARAMS_BITS) - ecx.ref_sgr_xqd[plane][0]);
+                                        v = Clip3!(min, max, (1<<SGRPROJ_PRJ_BITS) - ecx.ref_sgr_xqd[plane][0]);
                                     }
                                 }
                                 frame.lr_sgr_xqd[plane][unit_row][unit_col][i] = v;
-- 
2.43.0


From 8e78cf7399d94517072ab600b7f66e911a2f32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:24 +0000
Subject: [PATCH 102/112] fix: the column of a tile was its number divided by,
 not modulo, the number of columns

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 08f9941..a0990ab 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -113,8 +113,8 @@ impl<'b> TileEncoder<'b> {
         let mut sb_size;
         {
             let mut ecx = self.ectx.borrow_mut();
-            let tile_col = ecx.tile_num / frame.tile_cols();
-            let tile_row = ecx.tile_num / frame.tile_rows();
+            let tile_col = ecx.tile_num % frame.tile_cols();
+            let tile_row = ecx.tile_num / frame.tile_cols();
             self.mi_row_start = ecx.mi_row_starts[tile_row];
             self.mi_row_end = ecx.mi_row_starts[tile_row+1];
             self.mi_col_start = ecx.mi_col_starts[tile_col];
-- 
2.43.0


From c9b58c9d2b5fd31f24a510416a65711baea73f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:26 +0000
Subject: [PATCH 103/112] fix: partitions a block size does not have were
 tried, which panicked

---
 src/tile_encoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index a0990ab..f750077 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -365,6 +365,12 @@ impl<'b> TileEncoder<'b> {
             PARTITION_HORZ_A, PARTITION_HORZ_B, PARTITION_VERT_A, PARTITION_VERT_B, PARTITION_HORZ_4, PARTITION_VERT_4
         ].iter() {
             let mut  part_bits: Vec<u8> = vec![];
+            if partition_subsize[*partition as usize][part_tree.bsize as usize]==BLOCK_INVALID {
+                continue;
+            }
+            if part_tree.bsize==BLOCK_8X8 && ![PARTITION_NONE, PARTITION_HORZ, PARTITION_VERT, PARTITION_SPLIT].contains(partition) {
+                continue;
+            }
             if part_tree.bsize < BLOCK_8X8 {
                 if *partition != PARTITION_NONE {
                     continue;
-- 
2.43.0


From 293e67735a55b8719b8be768a6944e72961b6354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:28 +0000
Subject: [PATCH 104/112] fix: the partition context was whether there are
 neighbours instead of whether they are smaller

---
 src/tile_encoder.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f750077..8272330 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -354,6 +354,15 @@ impl<'b> TileEncoder<'b> {
         let quarter_block4x4 = half_block4x4 >> 1;
         let has_rows = r+half_block4x4 < mi_rows;
         let has_cols = c+half_block4x4 < mi_cols;
+        let bsl = mi_width_log2[part_tree.bsize as usize];
+        let above = self.avail_u && match frame.get_above_mi(r, c) {
+            Some(mi) => mi_width_log2[mi.mi_size as usize] < bsl,
+            None => false,
+        };
+        let left = self.avail_l && match frame.get_left_mi(r, c) {
+            Some(mi) => mi_height_log2[mi.mi_size as usize] < bsl,
+            None => false,
+        };
 
         let mut best_part_bits: Vec<u8> = vec![];
         let mut best_part_tree = part_tree.clone();
@@ -376,24 +385,24 @@ impl<'b> TileEncoder<'b> {
                     continue;
                 }
             } else if has_rows && has_cols {
-                self.coder.encode_partition(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, *partition);
+                self.coder.encode_partition(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, *partition);
             } else if has_cols {
                 match *partition {
                     PARTITION_SPLIT => {
-                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 1);
+                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 1);
                     },
                     PARTITION_HORZ => {
-                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 0);
+                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 0);
                     },
                     _ => { continue; }
                 }
             } else if has_rows {
                 match *partition {
                     PARTITION_SPLIT => {
-                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 1);
+                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 1);
                     },
                     PARTITION_VERT => {
-                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 0);
+                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 0);
                     },
                     _ => { continue; }
                 }
-- 
2.43.0


From 8e4b21635467e7ac6ead1dfac7f5612c8ee54b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:11 +0000
Subject: [PATCH 105/112] fix: the last block of a vertical four-way partition
 was placed below the block

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 8272330..79c2bf2 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -512,7 +512,7 @@ impl<'b> TileEncoder<'b> {
                     self.encode_block(sb, r, c+quarter_block4x4*2, frame, &mut part_bits, &mut part_tree.partitions[2]);
                     if c+quarter_block4x4*3 < mi_cols {
                         part_tree.partitions.push(PartitionTree::new(sub_size));
-                        self.encode_block(sb, r+quarter_block4x4*3, c, frame, &mut part_bits, &mut part_tree.partitions[3]);
+                        self.encode_block(sb, r, c+quarter_block4x4*3, frame, &mut part_bits, &mut part_tree.partitions[3]);
                     }
                 },
             }
-- 
2.43.0


From 6709d241fc5cdd7f80235c35edb664f81e67c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:30 +0000
Subject: [PATCH 106/112] fix: coding a tile group always panicked, the context
 being borrowed twice

---
 src/obu_encoder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 2b52c0c..3b06c5c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1451,21 +1451,25 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 }
                 self.coder.push_bits_align(out_bits);
 
-                for n in ecx.tg_start..(ecx.tg_end+1) {
-                    ecx.tile_num = n;
-                    let last_tile = ecx.tile_num == ecx.tg_end;
+                let (tg_start, tg_end) = (ecx.tg_start, ecx.tg_end);
+                drop(ecx); // the tile encoder borrows the context itself
+                for n in tg_start..(tg_end+1) {
+                    self.ectx.borrow_mut().tile_num = n;
+                    let last_tile = n == tg_end;
                     let mut tile_bits: Vec<u8> = vec![];
                     {
                         //let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.writer, self.coder);
                         let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.coder);
-                        tile_encoder.encode_tile(frame, ecx.tile_num, &mut tile_bits);
+                        tile_encoder.encode_tile(frame, n, &mut tile_bits);
                     }
                     let tile_size_bytes = (tile_bits.len()+7) / 8;
                     if !last_tile {
-                        self.coder.encode_le(out_bits, (tile_size_bytes-1) as u64, ecx.tile_size_bytes as u8);
+                        let n = self.ectx.borrow().tile_size_bytes;
+                        self.coder.encode_le(out_bits, (tile_size_bytes-1) as u64, n as u8);
                     }
                 }
 
+                let mut ecx = self.ectx.borrow_mut();
                 if ecx.tg_end == frame.num_tiles()-1 {
                     if !ecx.disable_frame_end_update_cdf {
                         // frame_end_update_cdf
-- 
2.43.0


From 18b90ed556c81aceb5f45bc7a5beeb0500d038ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:33 +0000
Subject: [PATCH 107/112] fix: a tile group did not contain its tiles

---
 src/obu_encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 3b06c5c..e9f5f90 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1457,16 +1457,19 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.ectx.borrow_mut().tile_num = n;
                     let last_tile = n == tg_end;
                     let mut tile_bits: Vec<u8> = vec![];
+                    self.coder.init_encoder();
                     {
                         //let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.writer, self.coder);
                         let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.coder);
                         tile_encoder.encode_tile(frame, n, &mut tile_bits);
                     }
+                    self.coder.exit_encoder(&mut tile_bits);
                     let tile_size_bytes = (tile_bits.len()+7) / 8;
                     if !last_tile {
                         let n = self.ectx.borrow().tile_size_bytes;
                         self.coder.encode_le(out_bits, (tile_size_bytes-1) as u64, n as u8);
                     }
+                    self.coder.push_bits(out_bits, &tile_bits);
                 }
 
                 let mut ecx = self.ectx.borrow_mut();
-- 
2.43.0


From e6adabfe5fb5546a90cefa4ff0b24fdda83f1c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:00 +0000
Subject: [PATCH 108/112] fix: distributions were adapted in frames whose
 header disables adaptation

---
 src/bool_coder.rs   | 6 ++++++
 src/tile_encoder.rs | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 4a1341e..2729c9e 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -25,6 +25,7 @@ pub struct BoolCoder{
     bool_first: bool,
     bit_count: u64,
     leb_128_bytes: u64,
+    pub disable_cdf_update: bool,
 //    CDF tile_cdf;
 //    std::array<CDF, 8> cdfs;
 }
@@ -41,6 +42,7 @@ impl BoolCoder {
             bool_first: true,
             bit_count: 0,
             leb_128_bytes: 0,
+            disable_cdf_update: false,
         }
     }
 
@@ -70,6 +72,7 @@ impl BoolCoder {
         self.bool_value = (((1i32 << 15) - 1) ^ buf) as i32;
         self.bool_range = 1<<15;
         self.bool_max_bits = 8 * sz as i32 - 15;
+        self.disable_cdf_update = false;
     }
 
     pub fn decode_symbol(&mut self, in_bits: &mut VecDeque<u8>, cdf: &mut [i32]) -> u64 {
@@ -100,6 +103,7 @@ impl BoolCoder {
         self.bool_max_bits -= bits as i32;
 
         // update cdf
+        if self.disable_cdf_update { return symbol as u64; }
         let rate: i32 = 4 + (cdf[N as usize] > 31) as i32 + msb16(N as u16) as i32;
         let rate2: i32 = 5;
         let tmp0: i32 = 1 << rate2;
@@ -137,6 +141,7 @@ impl BoolCoder {
         self.bool_value_zero_count = 0;
         self.bool_first = true;
         self.bit_count = 0;
+        self.disable_cdf_update = false;
     }
 
     pub fn encode_symbol(&mut self, symbol: i32, out_bits: &mut Vec<u8>, cdf: &mut [i32]) {
@@ -193,6 +198,7 @@ impl BoolCoder {
         }
 
         // update cdf
+        if self.disable_cdf_update { return; }
         let rate: i32 = 4 + ((cdf[N as usize]>31) as i32) + msb16(N as u16) as i32;
         let rate2: i32 = 5;
         let tmp0: i32 = 1 << rate2;
diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 79c2bf2..c07078b 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -122,6 +122,7 @@ impl<'b> TileEncoder<'b> {
             ecx.current_q_index = frame.quantization_params.base_q_idx as usize;
 
             // init symbol
+            self.coder.disable_cdf_update = ecx.disable_cdf_update;
 
             // clear above context
 
-- 
2.43.0


From 510c65a9233e8d064c0fe0942af576455e953bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:42 +0000
Subject: [PATCH 109/112] fix: a translation kept stale warp parameters of an
 earlier frame

Only the first two global motion parameters of a translation are coded; a
decoder has the defaults for the others.
---
 src/obu_encoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index e9f5f90..e48a7d2 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1212,10 +1212,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     // global motion params
                     for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                         ecx.gm_type[rf] = IDENTITY;
-                        if !ecx.frame_is_intra && frame.global_motion_params.is_global[rf] {
-                            continue; // coded below
-                        }
+                        let gmp = &frame.global_motion_params;
+                        let is_global = !ecx.frame_is_intra && gmp.is_global[rf];
+                        let only_translation = !gmp.is_rot_zoom[rf] && gmp.is_translation[rf];
                         for i in 0..6 {
+                            if is_global && (i<2 || !only_translation) {
+                                continue; // coded below
+                            }
                             ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
                         }
                     }
-- 
2.43.0


From bee61057f6cd3983f9b8a476737a9cbe063606e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:02 +0000
Subject: [PATCH 110/112] fix: the running quantizer index and loop filter
 deltas differed from a decoder's

A change is coded in whole steps and the result is clipped; the requested value was
kept even where a decoder gets another one.
---
 src/tile_encoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index c07078b..b810fd3 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -692,10 +692,11 @@ impl<'b> TileEncoder<'b> {
                     }
                     let delta_q_sign_bit = if delta_q_index < 0 { 1 } else { 0 };
                     self.coder.encode_literal(out_bits, delta_q_sign_bit as u64, 1);
+                    // as derived by the decoder
+                    *current_q_index = Clip3!(1isize, 255isize, *current_q_index as isize + (delta_q_index << delta_q_res)) as usize;
                 } else {
                     self.coder.encode_delta_q_abs(out_bits, &mut self.cdf, delta_q_abs);
                 }
-                *current_q_index = part_tree.q_index;
             }
 
             // encode delta lf
@@ -721,10 +722,11 @@ impl<'b> TileEncoder<'b> {
                         }
                         let delta_lf_sign_bits = if delta_lf < 0 { 1 } else { 0 };
                         self.coder.encode_literal(out_bits, delta_lf_sign_bits as u64, 1);
+                        // as derived by the decoder
+                        *current_delta_lf = Clip3!(-(MAX_LOOP_FILTER as isize), MAX_LOOP_FILTER as isize, *current_delta_lf + (delta_lf << delta_lf_res));
                     } else {
                         self.coder.encode_delta_lf_abs(out_bits, &mut self.cdf, 0, frame.delta_lf_params.delta_lf_multi as usize, i);
                     }
-                    *current_delta_lf = part_tree.delta_lf[i];
                 }
             }
 
-- 
2.43.0


From 40d43ea4ed137fdb225a58fa312fc1428c0c1aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:32 +0000
Subject: [PATCH 111/112] fix: contexts of a tile depended on the blocks of
 other tiles

To a decoder the blocks above and to the left of a tile are not available.
---
 src/frame.rs        | 8 ++++++--
 src/tile_encoder.rs | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 1d51277..f7bd76f 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -234,6 +234,8 @@ pub struct Frame {
 
     pub superblocks: Vec<Vec<Superblock>>,
     pub cdef_idx: Vec<Vec<isize>>,
+    pub tile_row_start: usize, // origin of the tile being coded, in 4x4 units
+    pub tile_col_start: usize,
 }
 
 impl Frame {
@@ -344,6 +346,8 @@ impl Frame {
             lr_sgr_set: vec![vec![vec![]]],
             lr_sgr_xqd: vec![vec![vec![vec![]]]],
             cdef_idx: vec![vec![]],
+            tile_row_start: 0,
+            tile_col_start: 0,
         }
     }
 
@@ -352,12 +356,12 @@ impl Frame {
     }
 
     pub fn get_above_mi(&mut self, mi_row: usize, mi_col: usize) -> Option<ModeInfo> {
-        if mi_row==0 { None }
+        if mi_row<=self.tile_row_start { None }
         else { self.mis[mi_row-1][mi_col] }
     }
 
     pub fn get_left_mi(&mut self, mi_row: usize, mi_col: usize) -> Option<ModeInfo> {
-        if mi_col==0 { None }
+        if mi_col<=self.tile_col_start { None }
         else { self.mis[mi_row][mi_col-1] }
     }
 
diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index b810fd3..7d28653 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -119,6 +119,8 @@ impl<'b> TileEncoder<'b> {
             self.mi_row_end = ecx.mi_row_starts[tile_row+1];
             self.mi_col_start = ecx.mi_col_starts[tile_col];
             self.mi_col_end = ecx.mi_col_starts[tile_col+1];
+            frame.tile_row_start = self.mi_row_start;
+            frame.tile_col_start = self.mi_col_start;
             ecx.current_q_index = frame.quantization_params.base_q_idx as usize;
 
             // init symbol
-- 
2.43.0


From 0cf8e19adfdb442b7a12d505056787cdac1cb575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:52 +0000
Subject: [PATCH 112/112] fix: a long list of options exhausted stack and
 memory

Each option called parse again with a copy of the rest of the list while
keeping its own, so a list of some ten thousand options aborted the program.
---
 src/option.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/option.rs b/src/option.rs
index c30ae16..73f4426 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -224,19 +224,23 @@ impl CommandOption {
     }
 
     pub fn parse(args: Vec<String>, config: &mut Config) -> Result<Vec<String>, String> {
-        if args.len() == 0 { Ok(vec![]) }
-        else {
-            let arg = &args[0];
+        let mut pos = 0;
+        while pos < args.len() {
+            let arg = &args[pos];
             if arg.starts_with("-") {
+                // an option takes at most one value
+                let values: Vec<String> = args[pos+1..].iter().take(1).cloned().collect();
+                let len = values.len();
                 match {
-                    if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
-                    else { CommandOption::set_option_by_short_name(&arg[1..], args[1..].to_vec(), config) }
+                    if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], values, config) }
+                    else { CommandOption::set_option_by_short_name(&arg[1..], values, config) }
                 } {
-                    Ok(v) => CommandOption::parse(v, config),
-                    Err(e) => Err(e)
+                    Ok(v) => pos += 1 + len - v.len(),
+                    Err(e) => return Err(e)
                 }
             }
             else{ return Err("option name must start with '-'.".to_string()) }
         }
+        Ok(vec![])
     }
 }
\ No newline at end of file
-- 
2.43.0


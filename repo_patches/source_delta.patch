From f518d04c80df7c418264568665c5935ba7bbc4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 01/26] fix: count_sigma overflows on texts using all 256 byte
 values

---
 src/bin/count_sigma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/count_sigma.rs b/src/bin/count_sigma.rs
index 58330b0..b20899e 100644
--- a/src/bin/count_sigma.rs
+++ b/src/bin/count_sigma.rs
@@ -7,10 +7,10 @@ extern crate log;
 use log::info;
 
 /// counts the number of different characters in a byte string
-// fn count_sigma(s : &[u8]) -> u8 {
-fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> u8 {
-    let mut inc = 0_u8;
-    let mut alphabet_to_reduced: Vec<u8> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
+/// (the result does not fit into a u8, since all 256 byte values can occur)
+fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> u16 {
+    let mut inc = 0_u16;
+    let mut alphabet_to_reduced: Vec<u16> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
     for c in text_iter {
         let index = *c as usize;
         if alphabet_to_reduced[index] == 0 {
-- 
2.43.0


From e15fabf539d14c26e587380d56f2fbedfa85798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 02/26] fix: mtf panics on byte 255, which was missing in the
 initial list

---
 src/bin/mtf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index 9fb08f3..b0424b7 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -5,7 +5,7 @@ use stringology::core;
 use stringology::io;
 
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    let mut mtfvector: Vec<u8> = (0..u8::MAX).collect();
+    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
         match io::read_char(&mut reader) {
             Err(_) => break,
-- 
2.43.0


From c02dae713dc21c31bdb2b60b9d7e6a75d83049b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 03/26] fix: rle cannot start since the short options -o and -h
 are defined twice

---
 src/bin/rle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index d179068..e5ccb7d 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -113,12 +113,12 @@ struct Args {
     #[arg(short, long)]
     outfilename: Option<String>,
 
-    /// the length of the prefix to parse
-    #[arg(short, long)]
+    /// encode only runs of the character '0'
+    #[arg(short = 'z', long)]
     onlyzero: bool,
 
     /// human-readable output
-    #[arg(short, long)]
+    #[arg(long)]
     human: bool,
 }
 
-- 
2.43.0


From e848576160d7633623ad2d21850854d6358a2533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 04/26] fix: rle overflows its counter on runs longer than 256
 characters

---
 src/bin/rle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index e5ccb7d..4bfbcfc 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -10,7 +10,7 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0_u8; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
                 match io::read_char(&mut reader) {
@@ -42,8 +42,8 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
                 match io::read_char(&mut reader) {
                     Err(_) => break,
                     Ok(next_char) => {
-                        if next_char != prev_char {
-                            assert_lt!(run_counter, u8::MAX);
+                        //@ a run longer than 256 characters is split
+                        if next_char != prev_char || run_counter == u8::MAX {
                             writer.write_all(&[prev_char, run_counter]).unwrap();
                             prev_char = next_char;
                             run_counter = 0;
-- 
2.43.0


From 88e59b8a6f7dda986e0fed1688c01f135f244043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 05/26] fix: rle --onlyzero loses the character after a run of
 zeros and miscounts the last run

---
 src/bin/rle.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 4bfbcfc..1f0289b 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -1,7 +1,5 @@
 // extern crate byte_string;
 extern crate env_logger;
-#[macro_use]
-extern crate more_asserts;
 
 use stringology::core;
 use stringology::io;
@@ -65,7 +63,7 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0; //@ counts the number of character runs
+            let mut run_counter = 0_u16; //@ length of the current run of zeros
             if first_char == CHR_ZERO {
                 run_counter = 1;
             } else {
@@ -76,23 +74,28 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                     Err(_) => break,
                     Ok(next_char) => {
                         if next_char != CHR_ZERO {
-                            if run_counter == 0 {
-                                writer.write_all(&[next_char]).unwrap();
-                            } else {
-                                assert_lt!(run_counter - 1, u8::MAX);
+                            if run_counter > 0 {
                                 writer
-                                    .write_all(&[CHR_ZERO, run_counter.saturating_sub(1)])
+                                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
                                     .unwrap();
                                 run_counter = 0;
                             }
+                            writer.write_all(&[next_char]).unwrap();
                         } else {
+                            //@ a run longer than 256 characters is split
+                            if run_counter == u8::MAX as u16 + 1 {
+                                writer.write_all(&[CHR_ZERO, u8::MAX]).unwrap();
+                                run_counter = 0;
+                            }
                             run_counter += 1;
                         }
                     }
                 }
             }
             if run_counter > 0 {
-                writer.write_all(&[CHR_ZERO, run_counter]).unwrap();
+                writer
+                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
+                    .unwrap();
             }
         }
     }
-- 
2.43.0


From 62bcd9b09e3a19bb825c8f1e44479f75a79dd003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 06/26] fix: bwt_by_matrix panics on zero bytes, hence bwt and
 count_r with --use-matrix on texts with at least 99 bytes

---
 src/core.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 5f1dfb9..269c37f 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -54,9 +54,10 @@ pub fn bwt_by_matrix_naive<T: std::cmp::Ord + Copy>(text: &[T]) -> Vec<T> {
 }
 
 /// computes the BWT based on the matrix, i.e., the sorting of the cyclic conjugates of the
-/// input text by first finding its Lyndon conjugate, appending a 0 byte,
-/// then computing the BWT of this conjugate
-/// via the suffix array, and removing the 0 byte at the end.
+/// input text by first finding its Lyndon conjugate,
+/// then computing the BWT of this conjugate via the suffix array.
+/// The suffixes of a least conjugate have the same order as its conjugates, so there is no need for
+/// a delimiter, and `text` may contain zero bytes.
 pub fn bwt_by_matrix(text: &[u8]) -> Vec<u8> {
     let n = text.len();
     assert_gt!(n, 0);
@@ -69,10 +70,11 @@ pub fn bwt_by_matrix(text: &[u8]) -> Vec<u8> {
     for letter in text[0..conjugate_start].iter() {
         newtext.push(*letter);
     }
-    newtext.push(0u8);
-    let mut bwt = bwt_from_text_by_sa(&newtext);
-    bwt.remove(bwt.iter().position(|&x| x == 0).unwrap());
-    bwt
+    let mut sa = vec![0; n];
+    cdivsufsort::sort_in_place(&newtext, sa.as_mut_slice());
+    sa.iter()
+        .map(|&pos| newtext[(n + pos as usize - 1) % n])
+        .collect()
 }
 
 /// the conjugate of the text that is Lyndon
-- 
2.43.0


From 3ea3f7a9e0481789dc24a1cfaf98d492304c98d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 07/26] fix: PLCP value of the smallest suffix is wrong for
 unary texts, such that their lex-parse has cyclic references

---
 src/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 269c37f..4ffb6c0 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -270,6 +270,11 @@ pub fn compute_plcp(text: &[u8], phi: &[i32]) -> Vec<u32> {
         {
             length += 1;
         }
+        //@ a suffix cannot be a prefix of its predecessor; this only happens for unary texts, where
+        //@ phi maps the smallest suffix, which has no predecessor, to the largest one
+        if position_b + length == text.len() {
+            length = 0;
+        }
         plcp[position_b] = length as u32;
         length = length.saturating_sub(1);
     }
-- 
2.43.0


From 78cc88745fdb48c61e85a24f35d05575652fcd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 08/26] fix: mus misses the sentinel its algorithm relies on

---
 src/bin/mus.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bin/mus.rs b/src/bin/mus.rs
index a81400f..1b62589 100644
--- a/src/bin/mus.rs
+++ b/src/bin/mus.rs
@@ -65,8 +65,14 @@ fn main() {
     info!("Build DS");
     let now = Instant::now();
 
-    let text =
-        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
+    let text = {
+        let mut text = io::file_or_stdin2byte_vector(
+            core::stringopt_stropt(&args.infilename),
+            args.prefixlength,
+        );
+        text.push(0u8); //@ the sentinel that get_mus expects
+        text
+    };
 
     let sa = {
         let mut sa = vec![0; text.len()];
@@ -85,7 +91,7 @@ fn main() {
     let result_format = format!(
         "RESULT file={} length={} ",
         core::get_filename(&args.infilename),
-        sa.len()
+        text.len() - 1
     );
 
     println!(
-- 
2.43.0


From 3c9fa5f4735186b63134ee703b4aa4aa231b5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 09/26] fix: entropy_kmer panics on texts shorter than the
 order

---
 src/bin/entropy_kmer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/entropy_kmer.rs b/src/bin/entropy_kmer.rs
index f4450b5..2f00392 100644
--- a/src/bin/entropy_kmer.rs
+++ b/src/bin/entropy_kmer.rs
@@ -28,9 +28,12 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
     let mut kmers = HashMap::new();
     let mut kplusmers = HashMap::new();
     let mut ringbuf: u64 = 0;
-    for _ in 0..order {
+    for length in 0..order {
         ringbuf <<= 8;
-        ringbuf |= text_iter.next().unwrap().unwrap() as u64;
+        match text_iter.next() {
+            Some(byte) => ringbuf |= byte.unwrap() as u64,
+            None => return (0.0, length), //@ the text is too short to have a context of length order
+        }
     }
     let mut count = order;
 
-- 
2.43.0


From 6198b73f19472268dcae4780dd58df281489614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 10/26] fix: is_stringattractor panics when an uncovered
 substring is not valid UTF-8

---
 src/bin/is_stringattractor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/is_stringattractor.rs b/src/bin/is_stringattractor.rs
index aa4505b..63618a6 100644
--- a/src/bin/is_stringattractor.rs
+++ b/src/bin/is_stringattractor.rs
@@ -222,7 +222,6 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
 
     use segment_tree::ops::Min;
     use segment_tree::SegmentPoint;
-    use std::str;
     let d_rmq = SegmentPoint::build(arr_d.clone(), Min);
 
     let mut is_attractor = true;
@@ -237,7 +236,7 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
             let endpos = std::cmp::min(sa[lcpinterval.begin as usize] as usize + lcplength, n);
             println!(
                 "substring '{}' not covered!",
-                str::from_utf8(&text[startpos..endpos]).unwrap()
+                String::from_utf8_lossy(&text[startpos..endpos])
             );
         }
     }
-- 
2.43.0


From c9e6177c873ec952f5acbb909e314ea6463a990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 11/26] fix: texts shorter than the prefix length on stdin, and
 texts from pipes named as files, are not read

---
 src/io.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index d95055d..636868a 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -6,16 +6,16 @@ pub fn file2byte_vector(filename: &str, prefix_length: usize) -> Vec<u8> {
 
     let path = std::path::Path::new(filename);
     let mut f = fs::File::open(path).expect("no file found");
-    let metadata = fs::metadata(path).expect("unable to read metadata");
-    let buffer_length = if prefix_length > 0 {
-        std::cmp::min(prefix_length as u64, metadata.len())
-    } else {
-        metadata.len()
-    };
-    assert!(buffer_length <= usize::MAX as u64);
 
-    let mut buffer = vec![0; buffer_length as usize];
-    f.read_exact(&mut buffer).unwrap();
+    //@ do not trust the length in the metadata, which is zero for pipes
+    let mut buffer = Vec::new();
+    if prefix_length > 0 {
+        f.take(prefix_length as u64)
+            .read_to_end(&mut buffer)
+            .unwrap();
+    } else {
+        f.read_to_end(&mut buffer).unwrap();
+    }
 
     // let mut buffer = Vec::new();
     // buffer.reserve_exact(buffer_length as usize);
@@ -33,8 +33,11 @@ pub fn stdin2byte_vector(prefix_length: usize) -> Vec<u8> {
     let mut reader = std::io::stdin();
     // let reader = stdin.lock();
     if prefix_length > 0 {
-        let mut buffer = vec![0; prefix_length];
-        reader.read_exact(buffer.as_mut_slice()).unwrap();
+        let mut buffer = Vec::new();
+        reader
+            .take(prefix_length as u64)
+            .read_to_end(&mut buffer)
+            .unwrap();
         buffer
     } else {
         let mut buffer = Vec::new();
-- 
2.43.0


From 8575a6817fba6f7904bac2c29ba596dbddbcaa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 12/26] fix: run counting, mtf, rle and escape take read errors
 and interrupts for the end of the input

---
 src/bin/escape.rs | 12 ++++++------
 src/bin/mtf.rs    |  6 +++---
 src/bin/rle.rs    | 36 ++++++++++++++++++------------------
 src/core.rs       | 12 ++++++------
 src/io.rs         | 36 ++++++++++++++++++++++++------------
 5 files changed, 57 insertions(+), 45 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 89e7561..1f2e49c 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -103,9 +103,9 @@ fn main() {
             revert_mapping
         };
         for _ in 0..args.prefixlength {
-            match io::read_char(&mut reader) {
-                Err(_) => break,
-                Ok(cur_char) => {
+            match io::next_char(&mut reader) {
+                None => break,
+                Some(cur_char) => {
                     if cur_char == args.escape_symbol {
                         let next_char = io::read_char(&mut reader).unwrap();
                         if next_char == args.escape_symbol {
@@ -130,9 +130,9 @@ fn main() {
             char_mapping
         };
         for _ in 0..args.prefixlength {
-            match io::read_char(&mut reader) {
-                Err(_) => break,
-                Ok(cur_char) => {
+            match io::next_char(&mut reader) {
+                None => break,
+                Some(cur_char) => {
                     if cur_char == args.escape_symbol {
                         writer
                             .write_all(&[args.escape_symbol, args.escape_symbol])
diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index b0424b7..dd3d65e 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -7,9 +7,9 @@ use stringology::io;
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
     let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
-        match io::read_char(&mut reader) {
-            Err(_) => break,
-            Ok(cur_char) => {
+        match io::next_char(&mut reader) {
+            None => break,
+            Some(cur_char) => {
                 let pos = mtfvector.iter().position(|&c| c == cur_char).unwrap();
                 for j in 0..pos {
                     mtfvector[pos - j] = mtfvector[pos - j - 1];
diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 1f0289b..9e51ecc 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -5,15 +5,15 @@ use stringology::core;
 use stringology::io;
 
 pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::next_char(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_usize; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != prev_char {
                             write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();
                             prev_char = next_char;
@@ -31,15 +31,15 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
 }
 
 pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::next_char(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_u8; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         //@ a run longer than 256 characters is split
                         if next_char != prev_char || run_counter == u8::MAX {
                             writer.write_all(&[prev_char, run_counter]).unwrap();
@@ -60,9 +60,9 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
 const CHR_ZERO: u8 = b'0';
 
 pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    match io::read_char(&mut reader) {
-        Err(_) => (),
-        Ok(first_char) => {
+    match io::next_char(&mut reader) {
+        None => (),
+        Some(first_char) => {
             let mut run_counter = 0_u16; //@ length of the current run of zeros
             if first_char == CHR_ZERO {
                 run_counter = 1;
@@ -70,9 +70,9 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                 writer.write_all(&[first_char]).unwrap();
             }
             loop {
-                match io::read_char(&mut reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(&mut reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != CHR_ZERO {
                             if run_counter > 0 {
                                 writer
diff --git a/src/core.rs b/src/core.rs
index 4ffb6c0..2c11f3a 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -560,15 +560,15 @@ impl<C: Eq + Copy + Clone> Iterator for ConjugateIterator<'_, C> {
 
 /// counts the number of runs in an array `arr`
 pub fn number_of_runs<R: std::io::Read>(reader: &mut R) -> usize {
-    match io::read_char(reader) {
-        Err(_) => 0,
-        Ok(first_char) => {
+    match io::next_char(reader) {
+        None => 0,
+        Some(first_char) => {
             let mut run_counter = 1; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
-                match io::read_char(reader) {
-                    Err(_) => break,
-                    Ok(next_char) => {
+                match io::next_char(reader) {
+                    None => break,
+                    Some(next_char) => {
                         if next_char != prev_char {
                             prev_char = next_char;
                             run_counter += 1;
diff --git a/src/io.rs b/src/io.rs
index 636868a..0eda34a 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -78,21 +78,33 @@ pub fn stream_or_stdout(filename: Option<&str>) -> Box<dyn std::io::Write> {
     }
 }
 
-/// read a single u8 character
+/// read a single u8 character; reports `UnexpectedEof` at the end of the input
 pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
     let mut buffer = [0u8];
-    match reader.read(buffer.as_mut()) {
-        Result::Ok(u) => {
-            if u == 1 {
-                Ok(buffer[0])
-            } else {
-                Err(std::io::Error::new(
-                    std::io::ErrorKind::Other,
-                    "end of file",
-                ))
+    loop {
+        match reader.read(buffer.as_mut()) {
+            Result::Ok(u) => {
+                return if u == 1 {
+                    Ok(buffer[0])
+                } else {
+                    Err(std::io::Error::new(
+                        std::io::ErrorKind::UnexpectedEof,
+                        "end of file",
+                    ))
+                }
+                // assert_eq!(u, 1);
             }
-            // assert_eq!(u, 1);
+            Err(error) if error.kind() == std::io::ErrorKind::Interrupted => continue,
+            Err(error) => return Err(error),
         }
-        Err(error) => Err(error),
+    }
+}
+
+/// read a single u8 character, or `None` at the end of the input. Panics if the input cannot be read.
+pub fn next_char<R: std::io::Read>(reader: &mut R) -> Option<u8> {
+    match read_char(reader) {
+        Ok(c) => Some(c),
+        Err(error) if error.kind() == std::io::ErrorKind::UnexpectedEof => None,
+        Err(error) => panic!("cannot read the input: {}", error),
     }
 }
-- 
2.43.0


From 23558f91ef5d82ee186a0ed90e609773fd78080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 13/26] fix: escape refuses the comma-separated lists its help
 text asks for

---
 src/bin/escape.rs | 4 ++--
 src/io.rs         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 1f2e49c..e1ca9a2 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -35,11 +35,11 @@ struct Args {
     escape_symbol: u8,
 
     /// byte codes that need to be escaped, a list separeted by commas
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     from_symbols: Vec<u8>,
 
     /// list byte codes that are safe and equal of length to from
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     to_symbols: Vec<u8>,
 
     /// if true, invert the conversion
diff --git a/src/io.rs b/src/io.rs
index 0eda34a..4ee5f1f 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -91,7 +91,7 @@ pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
                         std::io::ErrorKind::UnexpectedEof,
                         "end of file",
                     ))
-                }
+                };
                 // assert_eq!(u, 1);
             }
             Err(error) if error.kind() == std::io::ErrorKind::Interrupted => continue,
-- 
2.43.0


From b3b37796fcc5e0394650fe304d81f11e35ec5a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 14/26] fix: escape outputs nothing unless a prefix length is
 given

---
 src/bin/escape.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index e1ca9a2..8e77576 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -93,6 +93,11 @@ fn main() {
 
     env_logger::init();
     info!("args.prefixlength: {}", args.prefixlength);
+    let prefixlength = if args.prefixlength == 0 {
+        usize::MAX
+    } else {
+        args.prefixlength
+    };
 
     if args.is_reversion {
         let revert_mapping = {
@@ -102,7 +107,7 @@ fn main() {
             }
             revert_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefixlength {
             match io::next_char(&mut reader) {
                 None => break,
                 Some(cur_char) => {
@@ -129,7 +134,7 @@ fn main() {
             }
             char_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefixlength {
             match io::next_char(&mut reader) {
                 None => break,
                 Some(cur_char) => {
-- 
2.43.0


From d419a23c179356c9fa722f0d22a307f40da4ecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 15/26] fix: escape accepts lists that map different bytes to
 the same byte, which cannot be reverted

---
 src/bin/escape.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 8e77576..ac7eb1a 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -90,6 +90,13 @@ fn main() {
         .from_symbols
         .iter()
         .any(|&i| args.to_symbols.contains(&i)));
+    for i in 0..args.to_symbols.len() {
+        assert!(
+            (0..i).all(|j| args.to_symbols[i] != args.to_symbols[j]
+                || args.from_symbols[i] == args.from_symbols[j]),
+            "Different --from symbols must have different --to symbols!"
+        );
+    }
 
     env_logger::init();
     info!("args.prefixlength: {}", args.prefixlength);
-- 
2.43.0


From 1c0ad8867791b37443f132200d841bd7f5045f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 16/26] fix: word, randomstring and lyndonfactorization ignore
 write errors of their last buffered output

---
 src/bin/lyndonfactorization.rs | 1 +
 src/bin/randomstring.rs        | 1 +
 src/bin/word.rs                | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index 0838652..fd79b78 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -96,6 +96,7 @@ fn main() {
                 os.write_all(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1])
                     .unwrap();
             }
+            os.flush().unwrap();
         }
     };
 
diff --git a/src/bin/randomstring.rs b/src/bin/randomstring.rs
index ed12ab7..53a9dd9 100644
--- a/src/bin/randomstring.rs
+++ b/src/bin/randomstring.rs
@@ -58,4 +58,5 @@ fn main() {
         charset.insert(newchar);
         writer.write_all(&[newchar]).unwrap();
     }
+    writer.flush().unwrap();
 }
diff --git a/src/bin/word.rs b/src/bin/word.rs
index 3ce7afe..24a4a9b 100644
--- a/src/bin/word.rs
+++ b/src/bin/word.rs
@@ -54,4 +54,5 @@ fn main() {
         WordName::Vtm => word::vtm_word,
     };
     writer.write_all(fun(args.k).as_slice()).unwrap();
+    writer.flush().unwrap();
 }
-- 
2.43.0


From 5cd68d41c8505025069ec4c3a43bf1f76a2995aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 17/26] fix: lyndonfactorization reports the prefix option,
 which is 0 by default, as the length of the text

---
 src/bin/lyndonfactorization.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index fd79b78..5998358 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -37,17 +37,17 @@ fn main() {
     env_logger::init();
     use std::time::Instant;
 
-    let result_format = format!(
-        "RESULT file={} length={} ",
-        core::get_filename(&args.infilename),
-        args.prefixlength
-    );
-
     info!("read text");
 
     let text =
         io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
 
+    let result_format = format!(
+        "RESULT file={} length={} ",
+        core::get_filename(&args.infilename),
+        text.len()
+    );
+
     let timenow = Instant::now();
 
     let factors = core::duval(&text);
-- 
2.43.0


From 9dbcd0f8829b6125ae272eb587b5c46e8d28b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 18/26] fix: BinaryStringGenerator does not end and does not
 list the strings in lexicographic order

---
 src/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 2c11f3a..42c33a1 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -507,11 +507,11 @@ impl Iterator for BinaryStringGenerator {
     type Item = Vec<u8>;
 
     fn next(&mut self) -> Option<Vec<u8>> {
-        if self.m_rank == u64::MAX {
+        if self.m_rank == u64::MAX || (self.m_length < 64 && self.m_rank >> self.m_length > 0) {
             return None;
         }
         let mut text = Vec::with_capacity(self.m_length as usize);
-        for i in 0..self.m_length {
+        for i in (0..self.m_length).rev() {
             let bit = self.m_rank & (1 << i);
             text.push(if bit == 0 { b'0' } else { b'1' });
         }
-- 
2.43.0


From 07b07bf2599363d1f26186c2e80b739eec89af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 19/26] fix: the last character of power2_sequence is a zero
 byte

---
 src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index 168b228..c854ef4 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -597,7 +597,7 @@ pub fn power2_sequence(k: u8) -> Vec<u8> {
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
     let mut most_significant_bit = 0;
-    for j in 1..n {
+    for j in 1..=n {
         while j > 1 << (most_significant_bit + 1) {
             most_significant_bit += 1;
         }
-- 
2.43.0


From d888f571ef3945030e59da3046e3f3bf0ff83657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 20/26] fix: binary_debruijn_word misses blocks from order 4
 on, since its test accepts prefixes of necklaces

---
 src/word.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index c854ef4..59684b4 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -540,6 +540,15 @@ fn reverse(c: u8) -> u8 {
     }
 }
 
+/// `is_necklace` also accepts proper prefixes of necklaces like aba
+fn is_least_conjugate<T>(text: &T, n: usize) -> bool
+where
+    T: ?Sized + std::ops::Index<usize, Output = u8>,
+{
+    let conjugate = |shift: usize| (0..n).map(move |i| text.index((shift + i) % n));
+    (1..n).all(|shift| conjugate(0).le(conjugate(shift)))
+}
+
 /// Online construction algorithm of
 /// J. Sawada, A. Williams and D. Wong. A surprisingly simple de Bruijn sequence
 /// construction. Discrete Math., 339(1):127--131, 2016.
@@ -554,7 +563,7 @@ pub fn binary_debruijn_word(k: u8) -> Vec<u8> {
     loop {
         let mut first_char = word.pop_front().unwrap();
         word.push_back(CHR_B);
-        if is_necklace(&word, word.len()) {
+        if is_least_conjugate(&word, word.len()) {
             first_char = reverse(first_char);
         }
         *word.back_mut().unwrap() = first_char;
-- 
2.43.0


From 53a138403497ccc50cd044e7e05febf1e3a460a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:27 +0000
Subject: [PATCH 21/26] fix: compute_stats.sh: name the options of the programs
 (--infilename; a terminator is the default of count_r)

---
 compute_stats.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compute_stats.sh b/compute_stats.sh
index 09a8294..7550e7d 100755
--- a/compute_stats.sh
+++ b/compute_stats.sh
@@ -8,7 +8,7 @@ function die {
 kFilename="$1"
 [[ -r "$kFilename" ]] || die "cannot read $kFilename"
 
-result_line=$(cargo run --bin=count_sigma -- --input "$kFilename" | grep '^RESULT')
+result_line=$(cargo run --bin=count_sigma -- --infilename "$kFilename" | grep '^RESULT')
 
 echo "dataset & \$n\$ & \$\\sigma\$ & \$z\$ & \$r\$ & \$H_0\$ & \$H_1\$ & \$H_2\$ & \$H_3\$ & \$H_4\$ \\\\\\"
 
@@ -18,13 +18,13 @@ echo -n $result_line | sed 's@.* length=\([0-9]\+\) .*@\1@'
 echo -n " & "
 echo -n $result_line | sed 's@.* sigma=\([0-9]\+\) .*@\1@'
 
-bwtruns=$(cargo run --bin=count_r -- -d --input "$kFilename" | grep '^RESULT' | sed 's@.* bwt_runs=\([0-9]\+\) .*@\1@')
+bwtruns=$(cargo run --bin=count_r -- --infilename "$kFilename" | grep '^RESULT' | sed 's@.* bwt_runs=\([0-9]\+\) .*@\1@')
 echo -n " & $bwtruns " 
-lz77factors=$(cargo run --bin=count_z -- --input "$kFilename" | grep '^RESULT' | sed 's@.* factors=\([0-9]\+\).*@\1@')
+lz77factors=$(cargo run --bin=count_z -- --infilename "$kFilename" | grep '^RESULT' | sed 's@.* factors=\([0-9]\+\).*@\1@')
 echo -n " & $lz77factors " 
 
 for k in $(seq 0 4); do
-	entropy=$(cargo run --bin=entropy -- --order "$k" --input "$kFilename" | grep '^RESULT' | sed 's@.* entropy=\([0-9\.]\+\) .*@\1@')
+	entropy=$(cargo run --bin=entropy -- --order "$k" --infilename "$kFilename" | grep '^RESULT' | sed 's@.* entropy=\([0-9\.]\+\) .*@\1@')
 	echo -n " & $entropy "
 done
 
-- 
2.43.0


From 51ded2d951dd5937a579f26e7f9f650b6d01c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:27 +0000
Subject: [PATCH 22/26] fix: compute_stats.sh: head the columns of r and z in
 the order of the row

---
 compute_stats.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute_stats.sh b/compute_stats.sh
index 7550e7d..016d0f2 100755
--- a/compute_stats.sh
+++ b/compute_stats.sh
@@ -10,7 +10,7 @@ kFilename="$1"
 
 result_line=$(cargo run --bin=count_sigma -- --infilename "$kFilename" | grep '^RESULT')
 
-echo "dataset & \$n\$ & \$\\sigma\$ & \$z\$ & \$r\$ & \$H_0\$ & \$H_1\$ & \$H_2\$ & \$H_3\$ & \$H_4\$ \\\\\\"
+echo "dataset & \$n\$ & \$\\sigma\$ & \$r\$ & \$z\$ & \$H_0\$ & \$H_1\$ & \$H_2\$ & \$H_3\$ & \$H_4\$ \\\\\\"
 
 echo -n $(basename "$kFilename")
 echo -n " & "
-- 
2.43.0


From dd35d98c836e723e48d328e8717583e3230e7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:29 +0000
Subject: [PATCH 23/26] fix: README: the option for the input file is
 --infilename

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index f7464d2..82ce737 100644
--- a/README.md
+++ b/README.md
@@ -29,7 +29,7 @@ Compile and run with `cargo` of `rust`-lang:
 
 ```
 cargo build
-cargo run --bin count_sigma -- --file ./data/tudocomp/einstein.en.txt
+cargo run --bin count_sigma -- --infilename ./data/tudocomp/einstein.en.txt
 ```
 
 
-- 
2.43.0


From 30c7928e0af1abc6349f0bd74bc7f3e349377c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:01 +0000
Subject: [PATCH 24/26] fix: generator_kmer crashed or printed garbage in
 release builds

---
 src/bin/generator_kmer.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/bin/generator_kmer.rs b/src/bin/generator_kmer.rs
index dadb222..89175c3 100644
--- a/src/bin/generator_kmer.rs
+++ b/src/bin/generator_kmer.rs
@@ -1,20 +1,16 @@
-use generator::{done, Gn};
 use std::str;
 
 fn main() {
     let length: usize = 8;
     let alphabet_size: usize = 4;
-    let g = Gn::new_scoped(|mut s| {
-        for num in 0..usize::pow(alphabet_size, length as u32) {
-            let mut text = vec![b'a'; length];
-            let mut remainder = num;
-            for letter in &mut text {
-                *letter = b'a' + ((remainder % alphabet_size) as u8);
-                remainder /= alphabet_size;
-            }
-            s.yield_(text);
+    let g = (0..usize::pow(alphabet_size, length as u32)).map(|num| {
+        let mut text = vec![b'a'; length];
+        let mut remainder = num;
+        for letter in &mut text {
+            *letter = b'a' + ((remainder % alphabet_size) as u8);
+            remainder /= alphabet_size;
         }
-        done!();
+        text
     });
 
     for i in g {
-- 
2.43.0


From ecbe1fd9c193a03791cbc96d959ecb1285b029f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:01 +0000
Subject: [PATCH 25/26] fix: release builds refuse word lengths that overflow,
 instead of computing another word

---
 src/word.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index 59684b4..5728fd7 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -10,14 +10,26 @@ const SQRT_5: f64 = 2.23606797749978969641; //(5.0 as f64).sqrt();
 const GOLDEN_RATIO: f64 = (1.0 + SQRT_5) / 2.0;
 const PSI: f64 = -1.0 / GOLDEN_RATIO;
 
+/// a length that does not fit into a machine word is refused in release builds, too
+fn checked_sum(a: usize, b: usize) -> usize {
+    a.checked_add(b).expect("length does not fit into a machine word")
+}
+
+/// computes 2^k, where an exponent that does not fit is refused in release builds, too
+fn power_of_two(k: u8) -> usize {
+    1usize
+        .checked_shl(k as u32)
+        .expect("length does not fit into a machine word")
+}
+
 pub fn fibonacci_number(k: u8) -> usize {
     if k == 0 {
         return 1;
     }
 
     let [mut sum, mut cur, mut old] = [1, 1, 0];
-    for _ in 0..k + 1 {
-        sum = cur + old;
+    for _ in 0..=k {
+        sum = checked_sum(cur, old);
         old = cur;
         cur = sum;
     }
@@ -33,7 +45,10 @@ fn fibonacci_number_estimate(k: u8) -> f64 {
 /// https://oeis.org/A003849
 /// Reference: Patrice Séébold: "Sequences generated by infinitely iterated morphisms". Discret. Appl. Math. 11(3): 255-264 (1985)
 pub fn fibonacci_word(k: u8) -> Vec<u8> {
-    let length = (fibonacci_number_estimate(k + 2) + 1.0) as usize + 1;
+    let exponent = k
+        .checked_add(2)
+        .expect("length does not fit into a machine word");
+    let length = (fibonacci_number_estimate(exponent) + 1.0) as usize + 1;
     let mut text = vec![0_u8; length];
     // let mut text : Vec<u8> = Vec::with_capacity(length);
     // unsafe { text.set_len(length); }
@@ -103,7 +118,7 @@ fn test_fibonacci_number() {
 /// a) TM_k = TM_k-1 \bar{TM_k-1}
 /// b) TM_k is a prefix of TM_{k+1}
 pub fn thuemorse_word(k: u8) -> Vec<u8> {
-    let n = 1 << k;
+    let n = power_of_two(k);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -239,7 +254,7 @@ fn iterate_2morphism(rounds: u8, morphism: fn(u8) -> &'static [u8]) -> Vec<u8> {
     if rounds == 0 {
         return vec![CHR_A];
     }
-    let n = 1 << (rounds);
+    let n = power_of_two(rounds);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -303,7 +318,7 @@ fn iterate_general_morphism_with_startsymbol(
     startsymbol: &[u8],
 ) -> Vec<u8> {
     let mut oldtext: Vec<u8> = startsymbol.to_vec();
-    let mut text: Vec<u8> = Vec::with_capacity(if sizehint > 0 { sizehint } else { 1 << rounds });
+    let mut text: Vec<u8> = Vec::with_capacity(if sizehint > 0 { sizehint } else { power_of_two(rounds) });
     for _ in 0..rounds {
         for start_char in oldtext {
             for c in morphism(start_char) {
@@ -327,7 +342,7 @@ fn iterate_general_morphism(
     if rounds == 0 {
         return vec![CHR_A];
     }
-    let mut text: Vec<u8> = Vec::with_capacity(if sizehint > 0 { sizehint } else { 1 << rounds });
+    let mut text: Vec<u8> = Vec::with_capacity(if sizehint > 0 { sizehint } else { power_of_two(rounds) });
     let mut round = 1;
     for c in morphism(CHR_A) {
         text.push(*c);
@@ -414,7 +429,7 @@ pub fn paperfolding_word(i: u8) -> Vec<u8> {
 /// https://oeis.org/A014577
 /// where a = 00, b = 01, c = 10, d = 11
 pub fn quaternary_paperfolding_word(i: u8) -> Vec<u8> {
-    let n = 1 << i;
+    let n = power_of_two(i);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -601,7 +616,7 @@ fn test_binary_debrujin_word() {
 /// is https://oeis.org/A209229 and
 /// resembles https://oeis.org/A267366
 pub fn power2_sequence(k: u8) -> Vec<u8> {
-    let n = 1 << k;
+    let n = power_of_two(k);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -654,7 +669,7 @@ pub fn tribonacci_number(k: u8) -> usize {
 
     let [mut sum, mut cur, mut old, mut ancient] = [0, 1, 1, 0];
     for _ in 0..k {
-        sum = cur + old + ancient;
+        sum = checked_sum(checked_sum(cur, old), ancient);
         ancient = old;
         old = cur;
         cur = sum;
@@ -693,7 +708,7 @@ pub fn vtm_morphism(c: u8) -> &'static [u8] {
 /// Francine Blanchet-Sadri, James D. Currie, Narad Rampersad, Nathan Fox:
 /// Abelian Complexity of Fixed Point of Morphism 0 ↦ 012, 1 ↦ 02, 2 ↦ 1. Integers 14: A11 (2014)
 pub fn vtm_word(k: u8) -> Vec<u8> {
-    iterate_general_morphism(k, vtm_morphism, (1 + (3 << (k))) as usize)
+    iterate_general_morphism(k, vtm_morphism, 1 + 3 * power_of_two(k))
 }
 
 #[test]
@@ -720,7 +735,7 @@ pub fn fibonacci_lyndonfactor(k: u8) -> Vec<u8> {
     iterate_general_morphism_with_startsymbol(
         k,
         fibonacci_lyndonfactor_morphism,
-        (1 + (3 << (k))) as usize,
+        1 + 3 * power_of_two(k),
         STR_AB,
     )
 }
-- 
2.43.0


From 930d5b434863fc9319750067b02ef4bb568581bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:01 +0000
Subject: [PATCH 26/26] fix: lyndonwords refuses alphabets without letters for
 them in release builds, too

---
 src/bin/lyndonwords.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/lyndonwords.rs b/src/bin/lyndonwords.rs
index ac4bb77..a0a9474 100644
--- a/src/bin/lyndonwords.rs
+++ b/src/bin/lyndonwords.rs
@@ -26,7 +26,10 @@ fn main() {
     let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
     for it in core::LyndonWordGenerator::new(args.length, args.sigma) {
-        let out: Vec<u8> = it.iter().map(|x| x + b'a').collect::<Vec<u8>>();
+        let out: Vec<u8> = it
+            .iter()
+            .map(|x| x.checked_add(b'a').expect("the alphabet exceeds the available letters"))
+            .collect::<Vec<u8>>();
         writer.write_all(&out).unwrap();
         writer.write_all(b"\n").unwrap();
     }
-- 
2.43.0


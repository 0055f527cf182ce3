From ed78ff540b1b3ecdc928b198f803f67ae095e1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 01/14] fix: threshold images smaller than a block and block
 means without stride

The exclusive end of the neighbourhood underflowed when the image held no
full block, or when the stride was zero; use at least the block itself.
---
 src/prepare/blockedmean.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 8100593..626f612 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -102,9 +102,15 @@ impl BlockedMean {
         for block_x in range_inc(BlockCoord(0), block_width) {
             for block_y in range_inc(BlockCoord(0), block_height) {
                 let x_start = max(BlockCoord(0), block_x.saturating_sub(block_stride));
-                let x_end = min(block_width, block_x + block_stride);
+                let x_end = max(
+                    x_start + BlockCoord(1),
+                    min(block_width, block_x + block_stride),
+                );
                 let y_start = max(BlockCoord(0), block_y.saturating_sub(block_stride));
-                let y_end = min(block_height, block_y + block_stride);
+                let y_end = max(
+                    y_start + BlockCoord(1),
+                    min(block_height, block_y + block_stride),
+                );
 
                 let mut total = 0;
                 let mut count = 0;
-- 
2.43.0


From 46fbf4a0e7f090c33f323395108943a47a506eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 02/14] fix: solve the error location equations when a pivot is
 zero

Dividing zero gave a nonzero result, and a zero pivot was divided by, so
that some damage within capacity could not be repaired.
---
 src/decode/qr/correct.rs | 49 +++++++++++++++++++++++++++-------------
 src/decode/qr/galois.rs  |  8 +++++++
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index 6d02755..636d4ff 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -85,7 +85,7 @@ fn find_locs(block_info: &BlockInfo, syndromes: &[GF8]) -> Result<Vec<usize>, QR
         eq[i][..=z].clone_from_slice(&syndromes[i..(z + 1 + i)]);
     }
 
-    let sigma = solve(eq, GF8(0), GF8(1), false);
+    let sigma = solve(eq, GF8(0));
 
     let sigma = sigma.ok_or(QRError {
         msg: String::from("Could not calculate SIGMA"),
@@ -123,10 +123,10 @@ fn calculate_distances(syndromes: &[GF8], locs: &[usize]) -> Option<Vec<GF8>> {
         eq[i][locs.len()] = syndromes[i];
     }
 
-    solve(eq, GF8(0), GF8(1), false)
+    solve(eq, GF8(0))
 }
 
-fn solve<T>(mut eq: Vec<Vec<T>>, zero: T, one: T, fail_on_rank: bool) -> Option<Vec<T>>
+fn solve<T>(mut eq: Vec<Vec<T>>, zero: T) -> Option<Vec<T>>
 where
     T: Div<Output = T> + Mul<Output = T> + Sub<Output = T> + Copy + PartialEq,
 {
@@ -140,34 +140,51 @@ where
         return None;
     }
 
-    for i in 0..num_eq {
+    // row at which each coefficient is the leading one
+    let mut lead = vec![None; num_coeff - 1];
+    let mut row = 0;
+
+    for i in 0..num_coeff - 1 {
+        // find an equation in which this coefficient is nonzero, if there is one
+        let pivot = match (row..num_eq).find(|j| eq[*j][i] != zero) {
+            Some(pivot) => pivot,
+            None => continue,
+        };
+        eq.swap(row, pivot);
+
         // normalise equation
         for j in (i..num_coeff).rev() {
             // divide all coefficients by the first nonzero
             // the first nonzero will now be GF8(1)
-            eq[i][j] = eq[i][j] / eq[i][i];
+            eq[row][j] = eq[row][j] / eq[row][i];
         }
 
         // subtract normalised equation from others, multiplied by first coefficient
         // so the coefficients corresponding to the GF8(1) above will be GF8(0)
-        for j in i + 1..num_eq {
+        for j in row + 1..num_eq {
             for k in (i..num_coeff).rev() {
-                eq[j][k] = eq[j][k] - (eq[j][i] * eq[i][k]);
+                eq[j][k] = eq[j][k] - (eq[j][i] * eq[row][k]);
             }
         }
 
-        // If the rank is too low, can't solve
-        if fail_on_rank && eq[i][num_coeff - 1] == one {
-            return None;
-        }
+        lead[i] = Some(row);
+        row += 1;
     }
 
-    let mut solution = vec![zero; num_eq];
+    // If the rank is too low, can't solve
+    if eq[row..].iter().any(|e| e[num_coeff - 1] != zero) {
+        return None;
+    }
+
+    // coefficients that can be chosen freely stay zero
+    let mut solution = vec![zero; num_coeff - 1];
 
-    for i in (0..num_eq).rev() {
-        solution[i] = eq[i][num_coeff - 1];
-        for j in i + 1..num_coeff - 1 {
-            solution[i] = solution[i] - (eq[i][j] * solution[j]);
+    for i in (0..num_coeff - 1).rev() {
+        if let Some(row) = lead[i] {
+            solution[i] = eq[row][num_coeff - 1];
+            for j in i + 1..num_coeff - 1 {
+                solution[i] = solution[i] - (eq[row][j] * solution[j]);
+            }
         }
     }
 
diff --git a/src/decode/qr/galois.rs b/src/decode/qr/galois.rs
index 208881e..b8a765a 100644
--- a/src/decode/qr/galois.rs
+++ b/src/decode/qr/galois.rs
@@ -46,6 +46,10 @@ impl Div<GF8> for GF8 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF8) -> GF8 {
+        if self.0 == 0 {
+            return GF8(0);
+        }
+
         let log_self = LOG8[self.0 as usize];
         let log_other = LOG8[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
@@ -98,6 +102,10 @@ impl Div<GF4> for GF4 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF4) -> GF4 {
+        if self.0 == 0 {
+            return GF4(0);
+        }
+
         let log_self = LOG4[self.0 as usize];
         let log_other = LOG4[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
-- 
2.43.0


From a77c51d00bb501e5edd9956ea08cfd47856c35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 03/14] fix: check every syndrome of a block

Blocks with more error correction codewords than twice the capacity were
accepted with damage in the remaining ones, and a correction was accepted
when only its first syndrome was zero.
---
 src/decode/qr/correct.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index 636d4ff..6bd75ad 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -42,7 +42,7 @@ pub fn correct_with_error_count(
         block[block_info.total_per as usize - 1 - locs[i] as usize] ^= distance[i].0;
     }
 
-    if syndrome(&block, EXP8[0]) != GF8(0) {
+    if !calculate_syndromes(&block, block_info).0 {
         return Err(QRError {
             msg: String::from("Error correcting did not fix corrupted data"),
         });
@@ -52,12 +52,14 @@ pub fn correct_with_error_count(
 }
 
 fn calculate_syndromes(block: &[u8], block_info: &BlockInfo) -> (bool, Vec<GF8>) {
-    let mut syndromes = vec![GF8(0); (block_info.ec_cap * 2) as usize];
+    // there are as many syndromes as error correction codewords
+    let count = (block_info.total_per - block_info.data_per) as usize;
+    let mut syndromes = vec![GF8(0); count];
 
     let mut all_fine = true;
-    for i in 0..block_info.ec_cap * 2 {
-        syndromes[i as usize] = syndrome(block, EXP8[i as usize]);
-        if syndromes[i as usize] != GF8(0) {
+    for i in 0..count {
+        syndromes[i] = syndrome(block, EXP8[i]);
+        if syndromes[i] != GF8(0) {
             all_fine = false;
         }
     }
-- 
2.43.0


From 87de2ce07713f7774e753c4c9a789174cd58ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 04/14] fix: check all three syndromes of the format
 information

Only the first syndrome was checked, so other words passed as valid, and
an error in the last position was never corrected.
---
 src/decode/qr/format.rs | 54 ++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/decode/qr/format.rs b/src/decode/qr/format.rs
index 4350edb..612f395 100644
--- a/src/decode/qr/format.rs
+++ b/src/decode/qr/format.rs
@@ -64,42 +64,48 @@ fn format2(data: &QRData) -> Result<Vec<u8>, QRError> {
     correct(format2)
 }
 
-fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
-    let mut s1 = GF4(0);
+fn syndrome(format: &[u8], power: usize) -> GF4 {
+    let mut s = GF4(0);
 
     for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
+        s = s + GF4(format[format.len() - i - 1]) * EXP4[(power * i) % 15];
     }
 
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    s
+}
+
+fn is_valid(format: &[u8]) -> bool {
+    [1, 3, 5].iter().all(|power| syndrome(format, *power) == GF4(0))
+}
+
+fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
+    if is_valid(&format) {
+        // all syndromes == 0, no error detected
         return Ok(format);
     }
 
+    let s1 = syndrome(&format, 1);
+    let s3 = syndrome(&format, 3);
+    let s5 = syndrome(&format, 5);
+
     let s2 = s1 * s1;
     let s4 = s2 * s2;
 
-    let mut s3 = GF4(0);
-    let mut s5 = GF4(0);
-
-    for i in 0..format.len() {
-        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
-        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
-    }
-
     let sigma1 = s1;
-    let sigma2 = ((s5 + s4 * sigma1) - s2 * (s3 + s2 * sigma1)) / (s3 - s1 * s2);
+    let sigma2 = if s3 == s1 * s2 {
+        // a single error, or no correctable one
+        GF4(0)
+    } else {
+        ((s5 + s4 * sigma1) - s2 * (s3 + s2 * sigma1)) / (s3 - s1 * s2)
+    };
     let sigma3 = s3 + s2 * sigma1 + s1 * sigma2;
 
     let mut error_pos = vec![];
 
-    for i in 0..16 {
+    for i in 1..16 {
         let x = GF4(i);
         if sigma3 + sigma2 * x + sigma1 * x * x + x * x * x == GF4(0) {
-            let log = LOG4[i as usize];
-            if log != 0 {
-                error_pos.push(log);
-            }
+            error_pos.push(LOG4[i as usize]);
         }
     }
 
@@ -108,14 +114,8 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
         format[len - error as usize - 1] ^= 1;
     }
 
-    s1 = GF4(0);
-
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
-
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if is_valid(&format) {
+        // all syndromes == 0, the errors have been corrected
         return Ok(format);
     }
 
-- 
2.43.0


From 7016ef6e153abb39cc7a8a5fc119e75815f9abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 05/14] fix: keep the count of unread bits exact

Bits read from within a byte were not counted, so a request longer than
the rest lost bits and then failed, and requests of more than 16 bits were
not refused.
---
 src/util/chomp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/chomp.rs b/src/util/chomp.rs
index e31e9cf..cc9a33f 100644
--- a/src/util/chomp.rs
+++ b/src/util/chomp.rs
@@ -61,6 +61,10 @@ impl Chomp {
     pub fn chomp_or_u16<E: Clone>(&mut self, nr_bits: u8, err: E) -> Result<u16, E> {
         let mut bits = nr_bits;
 
+        if !(1..=16).contains(&bits) || BitCount(bits as usize) > self.bits_left {
+            return Err(err);
+        }
+
         let mut result: u16 = 0;
         while bits > 8 {
             result = u16::from(self.chomp(8).ok_or_else(|| err.clone())?) << (bits - 8);
@@ -124,6 +128,7 @@ impl Chomp {
             let result = *byte >> (8 - nr_bits.0);
             *byte <<= nr_bits.0;
 
+            self.bits_left -= nr_bits;
             self.bits_left_in_byte -= nr_bits;
 
             Some(result)
-- 
2.43.0


From 9eefca66b07d86f207dcc3c0424ed069fc975a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 06/14] fix: reject an invalid single alphanumeric character

A trailing 6-bit value above 44 indexed past the character table.
---
 src/decode/qr/data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index 5643416..cff46ea 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -123,6 +123,13 @@ fn alphanumeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
         if length == 1 {
             let chars = read_bits_u16(chomp, 6)?;
+
+            if chars > 44 {
+                return Err(QRError {
+                    msg: format!("Invalid character in alphanumeric data {}", chars),
+                });
+            }
+
             result.push(ALPHANUMERIC[chars as usize]);
 
             break;
-- 
2.43.0


From 50116e92ffe517080a07a8f9cdde3b942333ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 07/14] fix: reject numeric groups that no digits encode

Three digits fill at most 999 of 1024 values; the others were decoded to
four characters (and likewise for groups of two and one digits).
---
 src/decode/qr/data.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index cff46ea..8afc92c 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -45,7 +45,7 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
     while length > 0 {
         if length >= 3 {
-            let digits = read_bits_u16(chomp, 10)?;
+            let digits = read_digits(chomp, 10, 999)?;
             result.push_str(&format!("{:03}", digits));
 
             length -= 3;
@@ -53,14 +53,14 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
         }
 
         if length == 2 {
-            let digits = read_bits_u16(chomp, 7)?;
+            let digits = read_digits(chomp, 7, 99)?;
             result.push_str(&format!("{:02}", digits));
 
             break;
         }
 
         if length == 1 {
-            let digits = read_bits_u16(chomp, 4)?;
+            let digits = read_digits(chomp, 4, 9)?;
             result.push_str(&format!("{:01}", digits));
 
             break;
@@ -72,6 +72,18 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
     Ok(result)
 }
 
+fn read_digits(chomp: &mut Chomp, bits: u8, max: u16) -> Result<u16, QRError> {
+    let digits = read_bits_u16(chomp, bits)?;
+
+    if digits > max {
+        return Err(QRError {
+            msg: format!("Invalid digits in numeric data {}", digits),
+        });
+    }
+
+    Ok(digits)
+}
+
 const ALPHANUMERIC: [char; 45] = [
     '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I',
     'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z', ' ', '$',
-- 
2.43.0


From 979118abfa55986877fe0754c957984d690405f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 08/14] fix: report a sampling grid that leaves the image

---
 src/extract/qr/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 30fda7f..55d8fa1 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -57,6 +57,12 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
             for _ in 0..size {
                 let x = line.x.round() as u32;
                 let y = line.y.round() as u32;
+                if x >= prepared.width() || y >= prepared.height() {
+                    return Err(QRError {
+                        msg: String::from("Sampling grid leaves the image"),
+                    });
+                }
+
                 let pixel = prepared.get_pixel(x, y)[0];
 
                 #[cfg(feature = "debug-images")]
-- 
2.43.0


From c7661f4583cc80fdd2a9e4eea0dee1dd3284ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 09/14] fix: check all corners of an alignment pattern
 candidate

---
 src/extract/qr/mod.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 55d8fa1..9f48af9 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -323,15 +323,20 @@ fn is_alignment(prepared: &GrayImage, p: Point, dx: Delta, dy: Delta, scale: f64
         }
     }
 
-    let top_left = p - 2.0 * dx - 2.0 * dy;
-    if top_left.x < 0.0 || top_left.y < 0.0 {
-        return false;
-    }
-
-    let bottom_right = p + 2.0 * dx + 2.0 * dy;
+    // dx and dy can point in any direction, so all four corners need to be inside the image
     let dims = prepared.dimensions();
+    let inside = |c: Point| {
+        c.x >= 0.0
+            && c.y >= 0.0
+            && c.x.round() < f64::from(dims.0)
+            && c.y.round() < f64::from(dims.1)
+    };
 
-    if bottom_right.x.round() >= f64::from(dims.0) || bottom_right.y.round() >= f64::from(dims.1) {
+    if !inside(p - 2.0 * dx - 2.0 * dy)
+        || !inside(p - 2.0 * dx + 2.0 * dy)
+        || !inside(p + 2.0 * dx - 2.0 * dy)
+        || !inside(p + 2.0 * dx + 2.0 * dy)
+    {
         return false;
     }
 
-- 
2.43.0


From c38e7a062045d9b46fdb2bf6984ab526f578eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 10/14] fix: keep the refined alignment column inside the image

---
 src/extract/qr/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 9f48af9..42bb2e4 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -8,12 +8,10 @@ use image::GrayImage;
 #[cfg(feature = "debug-images")]
 use image::{DynamicImage, Rgb};
 
+use std::cmp::min;
+
 #[cfg(feature = "debug-images")]
-use std::{
-    cmp::{max, min},
-    env::temp_dir,
-    fs::create_dir_all,
-};
+use std::{cmp::max, env::temp_dir, fs::create_dir_all};
 
 /// Extract QR Data from a preprocessed image
 ///
@@ -209,7 +207,10 @@ fn determine_perspective(
     debug!("LEFT X {} RIGHT X {}", left_x, right_x);
     est_alignment.x = (f64::from(left_x) + f64::from(right_x)) / 2.0;
 
-    let al_x = est_alignment.x.round() as u32;
+    let al_x = min(
+        est_alignment.x.round() as u32,
+        prepared.dimensions().0 - 1,
+    );
     let al_y = est_alignment.y.round() as u32;
     let mut top_y = 0;
     let mut bottom_y = prepared.dimensions().1;
-- 
2.43.0


From 880a1a68b538285db8370691b64b7b4946bd2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 11/14] fix: bound the rows of debug images by the image height

---
 src/detect/linescan.rs | 2 +-
 src/extract/qr/mod.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 3c26e3b..be1c058 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -135,7 +135,7 @@ impl Detect<GrayImage> for LineScan {
                 let x_start = (loc.x - 3.5 * c.module_size).max(0.0_f64) as u32;
                 let x_end = min(img.dimensions().0, (loc.x + 3.5 * c.module_size) as u32);
                 let y_start = (loc.y - 3.5 * c.module_size).max(0.0_f64) as u32;
-                let y_end = min(img.dimensions().0, (loc.y + 3.5 * c.module_size) as u32);
+                let y_end = min(img.dimensions().1, (loc.y + 3.5 * c.module_size) as u32);
 
                 for x in x_start..x_end {
                     for y in y_start..y_end {
diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 42bb2e4..0503aeb 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -67,7 +67,7 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
                 {
                     if pixel == 0 {
                         for i in max(0, x.saturating_sub(2))..min(img.dimensions().0, x + 2) {
-                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().0, y + 2) {
+                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().1, y + 2) {
                                 img.put_pixel(i, j, Rgb([255, 0, 0]));
                             }
                         }
@@ -243,7 +243,7 @@ fn determine_perspective(
         );
         let y_start = max(0, (est_alignment.y - 2.5 * loc.module_size) as u32);
         let y_end = min(
-            img.dimensions().0,
+            img.dimensions().1,
             (est_alignment.y + 2.5 * loc.module_size) as u32,
         );
 
-- 
2.43.0


From a19230ee7d470fae16f3072fe412c62824a9d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 12/14] fix: prepare images without pixels

---
 src/prepare/blockedmean.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 626f612..e56fc89 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -34,9 +34,12 @@ impl BlockedMean {
 
 impl <D> Prepare<D, GrayImage> for BlockedMean where D: GenericImageView<Pixel = Rgba<u8>> {
     fn prepare(&self, input: &D) -> GrayImage {
-        let grayscale = grayscale(input);
+        let dimensions = input.dimensions();
+        if dimensions.0 == 0 || dimensions.1 == 0 {
+            return GrayImage::new(dimensions.0, dimensions.1);
+        }
 
-        let dimensions = grayscale.dimensions();
+        let grayscale = grayscale(input);
         let width = ImageCoord(dimensions.0);
         let height = ImageCoord(dimensions.1);
 
-- 
2.43.0


From b1d24014481451571c0027733218e27d5c76d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:56 +0000
Subject: [PATCH 13/14] fix: find symbols next to large areas of one color

---
 src/detect/linescan.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index be1c058..dc8e3cd 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -46,17 +46,22 @@ impl Detect<GrayImage> for LineScan {
 
         let mut last_pixel = 127;
         let mut pattern = QRFinderPattern::new();
+        // The runs as they are, because a short run after a large area of one color is not always noise,
+        // it can also be the start of a finder
+        let mut exact = QRFinderPattern::new();
         'pixels: for (x, y, p) in prepared.enumerate_pixels() {
             // Step 1
             // A new line, construct a new QRFinderPattern
             if x == 0 {
                 last_pixel = 127;
                 pattern = QRFinderPattern::new();
+                exact = QRFinderPattern::new();
             }
 
             // A pixel of the same color, add to the count in the last position
             if p.channels()[0] == last_pixel {
                 pattern.6 += 1;
+                exact.6 += 1;
 
                 if x != prepared.dimensions().0 - 1 {
                     continue 'pixels;
@@ -65,13 +70,18 @@ impl Detect<GrayImage> for LineScan {
 
             // A pixel color switch, but the current pattern does not look like a finder
             // Slide the pattern and continue searching
-            if !pattern.looks_like_finder() {
+            if !pattern.looks_like_finder() && !exact.looks_like_finder() {
                 last_pixel = p.channels()[0];
                 pattern.slide();
+                exact.shift();
                 continue 'pixels;
             }
 
-            let mut module_size = pattern.est_mod_size();
+            let mut module_size = if pattern.looks_like_finder() {
+                pattern.est_mod_size()
+            } else {
+                exact.est_mod_size()
+            };
 
             // A finder pattern is 1-1-3-1-1 modules wide, so subtract 3.5 modules to get the x coordinate in the center
             let mut finder = Point {
@@ -84,6 +94,7 @@ impl Detect<GrayImage> for LineScan {
                     // The candidate location we have found was already detected and stored on a previous line.
                     last_pixel = p.channels()[0];
                     pattern.slide();
+                    exact.shift();
 
                     continue 'pixels;
                 }
@@ -97,6 +108,7 @@ impl Detect<GrayImage> for LineScan {
                 if vert.is_none() {
                     last_pixel = p.channels()[0];
                     pattern.slide();
+                    exact.shift();
 
                     continue 'pixels;
                 }
@@ -120,6 +132,7 @@ impl Detect<GrayImage> for LineScan {
 
             last_pixel = p.channels()[0];
             pattern.slide();
+            exact.shift();
         }
 
         debug!("Candidate QR Locators {:#?}", candidates);
@@ -383,17 +396,21 @@ impl QRFinderPattern {
             self.1 = self.0;
             self.0 = 0;
         } else {
-            // the pixels inverted so slide the pattern down and start a new count in the last position
-            self.0 = self.1;
-            self.1 = self.2;
-            self.2 = self.3;
-            self.3 = self.4;
-            self.4 = self.5;
-            self.5 = self.6;
-            self.6 = 1;
+            self.shift();
         }
     }
 
+    // the pixels inverted so slide the pattern down and start a new count in the last position
+    fn shift(&mut self) {
+        self.0 = self.1;
+        self.1 = self.2;
+        self.2 = self.3;
+        self.3 = self.4;
+        self.4 = self.5;
+        self.5 = self.6;
+        self.6 = 1;
+    }
+
     fn est_mod_size(&self) -> f64 {
         f64::from(self.2 + self.3 + self.4 + self.5 + self.6) / 7.0
     }
-- 
2.43.0


From 0706ce54d74f7cf6ebca447f779814393dd278c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:03 +0000
Subject: [PATCH 14/14] fix: estimate the version from the module size of all
 three finders

---
 src/detect/linescan.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index dc8e3cd..602c747 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -204,11 +204,17 @@ impl Detect<GrayImage> for LineScan {
                         continue;
                     }
 
+                    // A single finder can be off by a tenth, too much for the version of a large symbol
+                    let mean_module_size = (candidates[candidate1].module_size
+                        + candidates[candidate2].module_size
+                        + candidates[candidate3].module_size)
+                        / 3.0;
+
                     if let Some(qr) = find_qr(
                         &candidates[candidate1].location,
                         &candidates[candidate2].location,
                         &candidates[candidate3].location,
-                        candidates[candidate1].module_size,
+                        mean_module_size,
                     ) {
                         locations.push(Location::QR(qr));
                     }
-- 
2.43.0


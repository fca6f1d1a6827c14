From 2e38ca0ed84b241bd8b7c00425f39e6f52af57c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 1/9] fix: TLE lines that are too short or not ASCII are parse
 errors, not slice panics

---
 src/io.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 5e20020..5f521a3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -345,23 +345,31 @@ pub enum SatrecParseError {
 }
 
 
+/// Text in columns `low..high` of a line (empty if the line has no such columns).
+fn columns(line: &str, low: usize, high: usize) -> &str {
+    line.get(low..high).unwrap_or("")
+}
+
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
-    match line[low..high].trim().parse::<f64>() {
+    match columns(line, low, high).trim().parse::<f64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high).to_string()))
     }
 }
 
 fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<i64, SatrecParseError> {
-    match line[low..high].trim().parse::<i64>() {
+    match columns(line, low, high).trim().parse::<i64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high).to_string()))
     }
 }
 
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
     // Parse sat num
-    let satnum = str1[2..7].trim();
+    let satnum = match str1.get(2..7) {
+        Some(text) => text.trim(),
+        None => return Err(SatrecParseError::CompoundError("satnum", str1.to_string()))
+    };
 
     // Parse epoch
     let epochyr = parse_int(str1, "epochyr", 18, 20)?;
@@ -372,7 +380,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
 
     // Parse nndot
     let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = str1[50..52].to_string();
+    let nddot_1 = columns(str1, 50, 52).to_string();
     let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
@@ -381,9 +389,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     };
 
     // Parse bstar
-    let bstar_0 = str1[53..54].to_string();
+    let bstar_0 = columns(str1, 53, 54).to_string();
     let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
-    let bstar_2 = str1[59..61].to_string();
+    let bstar_2 = columns(str1, 59, 61).to_string();
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
@@ -395,7 +403,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
 
     // Parse ecco
-    let ecco_str = format!(".{}", str2[26..33].trim().to_string());
+    let ecco_str = format!(".{}", columns(str2, 26, 33).trim().to_string());
     let ecco = match ecco_str.trim().parse::<f64>() {
         Ok(res) => res,
         Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
-- 
2.43.0


From 4fed725609c1cef6a480dc719a9181604390b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 2/9] fix: a title line shorter than its "0 " marker no longer
 panics, and parse() trims the name

---
 src/io.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 5f521a3..529b3df 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -241,7 +241,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
                     if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                        rec.name = Some(lines[i][2..].trim().to_string());
+                        rec.name = Some(lines[i].get(2..).unwrap_or("").trim().to_string());
                     } else {
                         rec.name = Some(lines[i].trim().to_string());
                     }
@@ -287,9 +287,9 @@ pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
         match satrec {
             Ok(mut satrec) => {
                 if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                    satrec.name = Some(lines[0][2..].to_string());
+                    satrec.name = Some(lines[0].get(2..).unwrap_or("").trim().to_string());
                 } else {
-                    satrec.name = Some(lines[0].to_string());
+                    satrec.name = Some(lines[0].trim().to_string());
                 }
 
                 return Ok(satrec)
-- 
2.43.0


From 7eac75077466372b556eb501327749dbfd26b17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 3/9] fix: keep leading zeros and the sign of the nddot and
 bstar mantissas

---
 src/io.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 529b3df..a3b0bcf 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -379,18 +379,21 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let ndot = parse_float(str1, "ndot", 33, 43)?  / (XPDOTP * 1440.0);;
 
     // Parse nndot
-    let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = columns(str1, 50, 52).to_string();
-    let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
+    parse_int(str1, "nndot frac", 44, 50)?;
+    let nddot_0 = columns(str1, 44, 45).to_string();
+    let nddot_1 = columns(str1, 45, 50).trim().to_string();
+    let nddot_2 = columns(str1, 50, 52).to_string();
+    let nndot_str = format!("{}.{}E{}", nddot_0, nddot_1, nddot_2);
 
-    let nddot = match nndot_str.parse::<f64>() {
+    let nddot = match nndot_str.trim().parse::<f64>() {
             Ok(res) => res / (XPDOTP * 1440.0 * 1440.0),
             Err(_) => return Err(SatrecParseError::CompoundError("nndot", nndot_str))
     };
 
     // Parse bstar
     let bstar_0 = columns(str1, 53, 54).to_string();
-    let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
+    parse_int(str1, "bstar frac", 54, 59)?;
+    let bstar_1 = columns(str1, 54, 59).trim().to_string();
     let bstar_2 = columns(str1, 59, 61).to_string();
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
-- 
2.43.0


From 519db0a4cd8ff9e1c8b7cbdad682fc6119d7d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 4/9] fix: parse_multiple reads catalogues without title lines

---
 src/io.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index a3b0bcf..cc193b2 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -236,8 +236,11 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let mut errors: Vec<SatrecParseError> = vec![];
     let mut i = 0;
     while i < lines.len() {
-        // If line 1 is not equal to a line operator, try next.
-        if lines[i].trim().len() != 25 && i + 2 < lines.len() {
+        // A "1" line directly followed by a "2" line is an entry without a title line.
+        let untitled = i + 1 < lines.len() && lines[i].starts_with('1') && lines[i+1].starts_with('2');
+
+        // Otherwise, if there are enough lines left, the first one is the title.
+        if !untitled && i + 2 < lines.len() {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
                     if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-- 
2.43.0


From c3bcb28b9fb5bab80ef866951f5db4a6d9ded244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 5/9] fix: a bad float field is a FloatParseError, and NaN or
 infinite fields are rejected

---
 src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index cc193b2..e66a634 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -355,8 +355,8 @@ fn columns(line: &str, low: usize, high: usize) -> &str {
 
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
     match columns(line, low, high).trim().parse::<f64>() {
-        Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high).to_string()))
+        Ok(res) if res.is_finite() => Ok(res),
+        _ => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high).to_string()))
     }
 }
 
-- 
2.43.0


From 08780bf422488a5c6d7d1d79ea441df865dfec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 6/9] fix: missing square root in the radius of curvature used
 by eci_to_geodedic

---
 src/transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index f8b4577..6f91744 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -85,7 +85,7 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     let mut c: f64 = 0.0;
 
     while k < KMAX {
-        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2)));
+        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
         latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
         k += 1;
     }
-- 
2.43.0


From 37c87828db5c98898cea272fa12562c41efc6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 7/9] fix: the half-day resonance second derivative doubles all
 four second-harmonic terms

---
 src/propogation/dspace.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/propogation/dspace.rs b/src/propogation/dspace.rs
index d6a1dfd..c7da9cc 100644
--- a/src/propogation/dspace.rs
+++ b/src/propogation/dspace.rs
@@ -270,9 +270,9 @@ pub fn dspace(options: DspaceOptions) -> DspaceResult {
                     + (d5220 * ((xomi + xli) - G52).cos())
                     + (d5232 * ((-xomi + xli) - G52).cos())
                     + (2.0 * d4410 * ((x2omi + x2li) - G44).cos())
-                    + (d4422 * (x2li - G44).cos())
-                    + (d5421 * ((xomi + x2li) - G54).cos())
-                    + (d5433 * ((-xomi + x2li) - G54).cos());
+                    + (2.0 * d4422 * (x2li - G44).cos())
+                    + (2.0 * d5421 * ((xomi + x2li) - G54).cos())
+                    + (2.0 * d5433 * ((-xomi + x2li) - G54).cos());
                 xnddt *= xldot;
             }
 
-- 
2.43.0


From 8edc305f5c34bf288a1ce27c8170e19f93d3baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 8/9] fix: keep the sub-second part of a DateTime

---
 src/ext.rs             | 2 +-
 src/propogation/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ext.rs b/src/ext.rs
index 7993809..70a0221 100644
--- a/src/ext.rs
+++ b/src/ext.rs
@@ -94,6 +94,6 @@ pub fn jday_datetime(time: DateTime<Utc>) -> f64 {
         time.hour() as f64,
         time.minute() as f64,
         time.second() as f64,
-        0 as f64
+        time.nanosecond() as f64 / 1.0e6
     )
 }
diff --git a/src/propogation/mod.rs b/src/propogation/mod.rs
index 4a4e61d..c63a6e9 100644
--- a/src/propogation/mod.rs
+++ b/src/propogation/mod.rs
@@ -25,7 +25,7 @@ pub fn propogate_datetime(satrec: &Satrec, time: DateTime<Utc>) -> Result<SGP4Re
     time.hour() as f64,
     time.minute() as f64,
     time.second() as f64,
-    0 as f64
+    time.nanosecond() as f64 / 1.0e6
   );
 
   let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
-- 
2.43.0


From 9f805a6a8dabdc97f4c2b8e54aa32d4661c0bba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 9/9] fix: sgp4 applies the deep-space secular, resonance and
 lunar-solar corrections it computes

---
 src/propogation/sgp4.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index 048c117..ffb9ba7 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -127,7 +127,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let delomg;
     let mut eo1;
     let mut argpm;
-    let argpp;
+    let mut argpp;
     let mut su;
     let t3;
     let t4;
@@ -137,14 +137,14 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut tempa;
     let mut tempe;
     let mut templ;
-    let inclm;
+    let mut inclm;
     let mut mm;
     let mut nm;
     let mut nodem;
     let mut xincp;
     let mut xlm;
-    let mp;
-    let nodep;
+    let mut mp;
+    let mut nodep;
 
     /* ------------------ set mathematical constants --------------- */
     // sgp4fix divisor for divide by zero check on inclination
@@ -232,15 +232,12 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
 
         let dspace_result = crate::propogation::dspace::dspace(dspace_options);
 
-        let crate::propogation::dspace::DspaceResult {
-            argpm: _,
-            inclm: _,
-            mm: _,
-            nodem: _,
-            nm: _,
-            ..
-        } = dspace_result;
         em = dspace_result.em;
+        argpm = dspace_result.argpm;
+        inclm = dspace_result.inclm;
+        mm = dspace_result.mm;
+        nodem = dspace_result.nodem;
+        nm = dspace_result.nm;
     }
 
     if nm <= 0.0 {
@@ -285,7 +282,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let cosim = inclm.cos();
 
     // -------------------- add lunar-solar periodics --------------
-    let ep = em;
+    let mut ep = em;
     xincp = inclm;
     argpp = argpm;
     nodep = nodem;
@@ -305,15 +302,11 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         };
 
         let dpper_result = dpper(&satrec, dpper_parameters);
-        let DpperResult {
-            ep,
-            mut nodep,
-            mut argpp,
-            mp: _,
-            ..
-        } = dpper_result;
-
+        ep = dpper_result.ep;
         xincp = dpper_result.inclp;
+        nodep = dpper_result.nodep;
+        argpp = dpper_result.argpp;
+        mp = dpper_result.mp;
 
         if xincp < 0.0 {
             xincp = -xincp;
-- 
2.43.0


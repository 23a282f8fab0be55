From 3c25e20f145c95b4ef6a3048717444900e37f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 01/14] fix: apply the deep-space secular and resonance
 corrections returned by dspace

sgp4 discarded argpm, inclm, mm, nodem and nm computed by dspace, so deep-space
orbits were propagated without lunar-solar secular rates and without resonance.
---
 src/propogation/sgp4.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index 048c117..e52b17a 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -137,7 +137,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut tempa;
     let mut tempe;
     let mut templ;
-    let inclm;
+    let mut inclm;
     let mut mm;
     let mut nm;
     let mut nodem;
@@ -232,15 +232,12 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
 
         let dspace_result = crate::propogation::dspace::dspace(dspace_options);
 
-        let crate::propogation::dspace::DspaceResult {
-            argpm: _,
-            inclm: _,
-            mm: _,
-            nodem: _,
-            nm: _,
-            ..
-        } = dspace_result;
         em = dspace_result.em;
+        argpm = dspace_result.argpm;
+        inclm = dspace_result.inclm;
+        mm = dspace_result.mm;
+        nodem = dspace_result.nodem;
+        nm = dspace_result.nm;
     }
 
     if nm <= 0.0 {
-- 
2.43.0


From e3acfa8fbeec35075efe967b52feacaca6c66f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:49 +0000
Subject: [PATCH 02/14] fix: keep the lunar-solar periodic corrections returned
 by dpper

The corrected eccentricity, node, perigee and anomaly were bound to shadowing
variables inside the block and lost; only the inclination took effect.
---
 src/propogation/sgp4.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index e52b17a..503627f 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -127,7 +127,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let delomg;
     let mut eo1;
     let mut argpm;
-    let argpp;
+    let mut argpp;
     let mut su;
     let t3;
     let t4;
@@ -143,8 +143,8 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut nodem;
     let mut xincp;
     let mut xlm;
-    let mp;
-    let nodep;
+    let mut mp;
+    let mut nodep;
 
     /* ------------------ set mathematical constants --------------- */
     // sgp4fix divisor for divide by zero check on inclination
@@ -282,7 +282,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let cosim = inclm.cos();
 
     // -------------------- add lunar-solar periodics --------------
-    let ep = em;
+    let mut ep = em;
     xincp = inclm;
     argpp = argpm;
     nodep = nodem;
@@ -302,14 +302,10 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         };
 
         let dpper_result = dpper(&satrec, dpper_parameters);
-        let DpperResult {
-            ep,
-            mut nodep,
-            mut argpp,
-            mp: _,
-            ..
-        } = dpper_result;
-
+        ep = dpper_result.ep;
+        nodep = dpper_result.nodep;
+        argpp = dpper_result.argpp;
+        mp = dpper_result.mp;
         xincp = dpper_result.inclp;
 
         if xincp < 0.0 {
-- 
2.43.0


From a0891a315febdec1982acd9fb8238c491c94fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:49 +0000
Subject: [PATCH 03/14] fix: half-day resonance second derivative misses factor
 two

d/dt of the terms in 2*lambda carries a factor 2 for all of d4410, d4422,
d5421 and d5433, not only for the first.
---
 src/propogation/dspace.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/propogation/dspace.rs b/src/propogation/dspace.rs
index d6a1dfd..c7da9cc 100644
--- a/src/propogation/dspace.rs
+++ b/src/propogation/dspace.rs
@@ -270,9 +270,9 @@ pub fn dspace(options: DspaceOptions) -> DspaceResult {
                     + (d5220 * ((xomi + xli) - G52).cos())
                     + (d5232 * ((-xomi + xli) - G52).cos())
                     + (2.0 * d4410 * ((x2omi + x2li) - G44).cos())
-                    + (d4422 * (x2li - G44).cos())
-                    + (d5421 * ((xomi + x2li) - G54).cos())
-                    + (d5433 * ((-xomi + x2li) - G54).cos());
+                    + (2.0 * d4422 * (x2li - G44).cos())
+                    + (2.0 * d5421 * ((xomi + x2li) - G54).cos())
+                    + (2.0 * d5433 * ((-xomi + x2li) - G54).cos());
                 xnddt *= xldot;
             }
 
-- 
2.43.0


From 4be73cc1cc362c1556a7956224853a0efb3e2d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 04/14] fix: square root missing from the prime vertical radius
 in eci_to_geodedic

The radius of curvature is A / sqrt(1 - e^2 sin^2(lat)), as in geodedic_to_ecf;
without the root latitude and height came out kilometres off.
---
 src/transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index f8b4577..6f91744 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -85,7 +85,7 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     let mut c: f64 = 0.0;
 
     while k < KMAX {
-        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2)));
+        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
         latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
         k += 1;
     }
-- 
2.43.0


From 3946fa29179702490132e750f8568895ec7ff0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 05/14] fix: geodetic height is lost at the poles

r / cos(latitude) is 0/0 at the poles and amplifies rounding near them.
---
 src/transforms.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index 6f91744..ff2a5e6 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -90,7 +90,9 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
         k += 1;
     }
 
-    let height = (r / latitude.cos()) - (A * c);
+    // Projection on the ellipsoid normal; stays accurate towards the poles, where
+    // r / cos(latitude) does not. A / c is the distance of the tangent plane.
+    let height = (r * latitude.cos()) + (eci.z * latitude.sin()) - (A / c);
 
     Geodedic {
         latitude,
-- 
2.43.0


From 63ba534a7547571d8ce92dabdba6ee322ee0382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:14 +0000
Subject: [PATCH 06/14] fix: doppler factor ignores the sign of the range rate

An approaching satellite is received above, a receding one below its nominal
frequency; the factor was always at least one.
---
 src/doppler_factor.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/doppler_factor.rs b/src/doppler_factor.rs
index 25b0fe0..31fe71a 100644
--- a/src/doppler_factor.rs
+++ b/src/doppler_factor.rs
@@ -1,14 +1,6 @@
 use crate::constants::*;
 use crate::Vec3;
 
-fn sign(val: f64) -> f64 {
-    if val >= 0.0 {
-        1.0
-    } else {
-        -1.0
-    }
-}
-
 pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
     let current_range = position.range(&location);
 
@@ -16,10 +8,7 @@ pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
 
     let next_range = next_pos.range(&location);
 
-    let mut range_rate = next_range - current_range;
-
-    // TODO: is this simply abs()
-    range_rate *= sign(range_rate);
+    let range_rate = next_range - current_range;
 
-    return 1.0 + (range_rate / C);
+    return 1.0 - (range_rate / C);
 }
-- 
2.43.0


From db1863678fa73950a56376e874fece7d2aa804b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:14 +0000
Subject: [PATCH 07/14] fix: fraction of a second of a date-time is dropped

propogate_datetime and jday_datetime passed zero milliseconds to jday; a
satellite moves up to 10 km in the second that was lost.
---
 src/ext.rs             | 2 +-
 src/propogation/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ext.rs b/src/ext.rs
index 7993809..70a0221 100644
--- a/src/ext.rs
+++ b/src/ext.rs
@@ -94,6 +94,6 @@ pub fn jday_datetime(time: DateTime<Utc>) -> f64 {
         time.hour() as f64,
         time.minute() as f64,
         time.second() as f64,
-        0 as f64
+        time.nanosecond() as f64 / 1.0e6
     )
 }
diff --git a/src/propogation/mod.rs b/src/propogation/mod.rs
index 4a4e61d..c63a6e9 100644
--- a/src/propogation/mod.rs
+++ b/src/propogation/mod.rs
@@ -25,7 +25,7 @@ pub fn propogate_datetime(satrec: &Satrec, time: DateTime<Utc>) -> Result<SGP4Re
     time.hour() as f64,
     time.minute() as f64,
     time.second() as f64,
-    0 as f64
+    time.nanosecond() as f64 / 1.0e6
   );
 
   let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
-- 
2.43.0


From fef4c9236bb4da30aafebd3ad9a60642f9b13306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:14 +0000
Subject: [PATCH 08/14] fix: sgp4 reports success with NaN position for a
 negative mean motion

Recovering a negative mean motion gives NaN, which passes the nm <= 0 and
mrt < 1 checks and was returned as a valid state.
---
 src/propogation/sgp4.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index 503627f..0537f70 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -240,7 +240,8 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         nm = dspace_result.nm;
     }
 
-    if nm <= 0.0 {
+    // negated so that a mean motion that is not a number is refused too
+    if !(nm > 0.0) {
         // printf("// error nm %f\n", nm);
         satrec.error = 2;
         // sgp4fix add return
@@ -439,7 +440,8 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     };
 
     // sgp4fix for decaying satellites
-    if mrt < 1.0 {
+    // negated so that a radius that is not a number is never returned as a state
+    if !(mrt >= 1.0) {
         // printf("// decay condition %11.6f \n",mrt);
         satrec.error = 6;
         // return {
-- 
2.43.0


From 6bcd243d869f4a448b4b28fb06163c213db9bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 09/14] fix: parser panics on short or non-ASCII element lines

Columns were taken with unchecked slices; a truncated line or a multi-byte
character brought the caller down instead of yielding a SatrecParseError.
---
 src/io.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 5e20020..b200e7f 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -345,23 +345,37 @@ pub enum SatrecParseError {
 }
 
 
+/// Text of the columns low..high of a line, as far as the line has them.
+fn columns(line: &str, low: usize, high: usize) -> String {
+    let bytes = line.as_bytes();
+    let high = high.min(bytes.len());
+    String::from_utf8_lossy(&bytes[low.min(high)..high]).to_string()
+}
+
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
-    match line[low..high].trim().parse::<f64>() {
-        Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+    match line.get(low..high).and_then(|text| text.trim().parse::<f64>().ok()) {
+        Some(res) => Ok(res),
+        None => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high)))
     }
 }
 
 fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<i64, SatrecParseError> {
-    match line[low..high].trim().parse::<i64>() {
-        Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+    match line.get(low..high).and_then(|text| text.trim().parse::<i64>().ok()) {
+        Some(res) => Ok(res),
+        None => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high)))
+    }
+}
+
+fn parse_text<'a>(line: &'a str, name: &'static str, low: usize, high: usize) -> Result<&'a str, SatrecParseError> {
+    match line.get(low..high) {
+        Some(text) => Ok(text),
+        None => return Err(SatrecParseError::CompoundError(name, columns(line, low, high)))
     }
 }
 
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
     // Parse sat num
-    let satnum = str1[2..7].trim();
+    let satnum = parse_text(str1, "satnum", 2, 7)?.trim();
 
     // Parse epoch
     let epochyr = parse_int(str1, "epochyr", 18, 20)?;
@@ -372,7 +386,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
 
     // Parse nndot
     let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = str1[50..52].to_string();
+    let nddot_1 = parse_text(str1, "nndot", 50, 52)?.to_string();
     let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
@@ -381,9 +395,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     };
 
     // Parse bstar
-    let bstar_0 = str1[53..54].to_string();
+    let bstar_0 = parse_text(str1, "bstr", 53, 54)?.to_string();
     let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
-    let bstar_2 = str1[59..61].to_string();
+    let bstar_2 = parse_text(str1, "bstr", 59, 61)?.to_string();
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
@@ -395,7 +409,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
 
     // Parse ecco
-    let ecco_str = format!(".{}", str2[26..33].trim().to_string());
+    let ecco_str = format!(".{}", parse_text(str2, "ecco", 26, 33)?.trim().to_string());
     let ecco = match ecco_str.trim().parse::<f64>() {
         Ok(res) => res,
         Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
-- 
2.43.0


From e58ed72f36e29f02e9a6dbff1393d763ef7fb9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:57 +0000
Subject: [PATCH 10/14] fix: an unreadable floating-point field is reported as
 FloatParseError

---
 src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index b200e7f..c7665e5 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -355,7 +355,7 @@ fn columns(line: &str, low: usize, high: usize) -> String {
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
     match line.get(low..high).and_then(|text| text.trim().parse::<f64>().ok()) {
         Some(res) => Ok(res),
-        None => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high)))
+        None => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high)))
     }
 }
 
-- 
2.43.0


From 9f93359ff2da5e68858f91c9035a8987237cd47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:57 +0000
Subject: [PATCH 11/14] fix: "nan" and "inf" in an element field are accepted
 as numbers

---
 src/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index c7665e5..70e9325 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -354,8 +354,9 @@ fn columns(line: &str, low: usize, high: usize) -> String {
 
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
     match line.get(low..high).and_then(|text| text.trim().parse::<f64>().ok()) {
-        Some(res) => Ok(res),
-        None => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high)))
+        // "nan", "inf" and overflowing exponents parse, but are no numbers an element set can hold.
+        Some(res) if res.is_finite() => Ok(res),
+        _ => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high)))
     }
 }
 
-- 
2.43.0


From c3f37183622b545d8ed9c651991f1e84c7cd648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:21 +0000
Subject: [PATCH 12/14] fix: implied-decimal fields lose leading zeros, signs
 and blanks

The mantissas of nddot and bstar went through an integer, so 00123 was read as
.123; a negative nddot was refused; blank leading digits of the eccentricity
shifted it; and text such as 1E5 in the eccentricity, or a digit in the sign
column of bstar, was read as a number.
---
 src/io.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 70e9325..ffe6a03 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -374,6 +374,27 @@ fn parse_text<'a>(line: &'a str, name: &'static str, low: usize, high: usize) ->
     }
 }
 
+/// Digits of a number whose decimal point is implied before its first column, which makes
+/// leading zeros (and blanks in their place) significant.
+fn parse_fraction(line: &str, name: &'static str, low: usize, high: usize) -> Result<String, SatrecParseError> {
+    let text = line.get(low..high).unwrap_or("");
+    let digits = text.trim();
+    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high)))
+    }
+
+    let blanks = text.len() - text.trim_start().len();
+    Ok(format!("{}{}", "0".repeat(blanks), digits))
+}
+
+/// Sign column of a number with an implied decimal point.
+fn parse_sign(line: &str, name: &'static str, column: usize) -> Result<String, SatrecParseError> {
+    match parse_text(line, name, column, column + 1)? {
+        sign @ " " | sign @ "+" | sign @ "-" => Ok(sign.to_string()),
+        other => Err(SatrecParseError::CompoundError(name, other.to_string()))
+    }
+}
+
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
     // Parse sat num
     let satnum = parse_text(str1, "satnum", 2, 7)?.trim();
@@ -386,18 +407,19 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let ndot = parse_float(str1, "ndot", 33, 43)?  / (XPDOTP * 1440.0);;
 
     // Parse nndot
-    let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
+    let nddot_sign = parse_sign(str1, "nndot", 44)?;
+    let nddot_0 = parse_fraction(str1, "nndot frac", 45, 50)?;
     let nddot_1 = parse_text(str1, "nndot", 50, 52)?.to_string();
-    let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
+    let nndot_str = format!("{}.{}E{}", nddot_sign, nddot_0, nddot_1);
 
-    let nddot = match nndot_str.parse::<f64>() {
+    let nddot = match nndot_str.trim().parse::<f64>() {
             Ok(res) => res / (XPDOTP * 1440.0 * 1440.0),
             Err(_) => return Err(SatrecParseError::CompoundError("nndot", nndot_str))
     };
 
     // Parse bstar
-    let bstar_0 = parse_text(str1, "bstr", 53, 54)?.to_string();
-    let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
+    let bstar_0 = parse_sign(str1, "bstr", 53)?;
+    let bstar_1 = parse_fraction(str1, "bstar frac", 54, 59)?;
     let bstar_2 = parse_text(str1, "bstr", 59, 61)?.to_string();
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
@@ -410,7 +432,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
 
     // Parse ecco
-    let ecco_str = format!(".{}", parse_text(str2, "ecco", 26, 33)?.trim().to_string());
+    let ecco_str = format!(".{}", parse_fraction(str2, "ecco", 26, 33)?);
     let ecco = match ecco_str.trim().parse::<f64>() {
         Ok(res) => res,
         Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
-- 
2.43.0


From 84e6eec9e5f865349285542e17fdcb7290eaafdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 13/14] fix: title lines panic, lose characters or keep padding

A title was cut with [2..] whenever it began with '0': "0" panicked and
"0STAR" lost a character; parse kept carriage returns and padding in the name
where parse_multiple removed them.
---
 src/io.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ffe6a03..5f98e93 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -230,6 +230,12 @@ impl Satrec {
     }
 }
 
+/// Name on the title line of a 3LE: without the optional "0 " line number and padding.
+fn parse_title(line: &str) -> String {
+    let line = line.trim_start();
+    line.strip_prefix("0 ").unwrap_or(line).trim().to_string()
+}
+
 pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let lines = string.split("\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
     let mut recs : Vec<Satrec> = vec![];
@@ -240,12 +246,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
         if lines[i].trim().len() != 25 && i + 2 < lines.len() {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
-                    if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                        rec.name = Some(lines[i][2..].trim().to_string());
-                    } else {
-                        rec.name = Some(lines[i].trim().to_string());
-                    }
-
+                    rec.name = Some(parse_title(lines[i]));
                     recs.push(rec);
                 },
                 Err(err) => {
@@ -286,12 +287,7 @@ pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
         // Because this is a 3le, we have a name. Extract/save it.
         match satrec {
             Ok(mut satrec) => {
-                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                    satrec.name = Some(lines[0][2..].to_string());
-                } else {
-                    satrec.name = Some(lines[0].to_string());
-                }
-
+                satrec.name = Some(parse_title(lines[0]));
                 return Ok(satrec)
             },
             Err(err) => { return Err(err) }
-- 
2.43.0


From b9ded7b5cf1f11990e187c174074c66287efc077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:59 +0000
Subject: [PATCH 14/14] fix: parse_multiple loses element sets in two-line and
 damaged catalogues

Entries were told apart by a title length that no line has, so catalogues
without titles were mis-grouped, and one orphaned line shifted the grouping of
everything after it. Group by the line numbers of the element lines instead.
---
 src/io.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 5f98e93..3f42d08 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -236,14 +236,24 @@ fn parse_title(line: &str) -> String {
     line.strip_prefix("0 ").unwrap_or(line).trim().to_string()
 }
 
+/// Do the lines at i and i + 1 carry the line numbers of an element set?
+fn is_pair(lines: &[&str], i: usize) -> bool {
+    i + 1 < lines.len() && lines[i].starts_with("1 ") && lines[i + 1].starts_with("2 ")
+}
+
+/// Is this the (orphaned) line 1 or 2 of an element set, rather than a title?
+fn is_element_line(line: &str) -> bool {
+    line.trim_end().len() >= 68 && (line.starts_with("1 ") || line.starts_with("2 "))
+}
+
 pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let lines = string.split("\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
     let mut recs : Vec<Satrec> = vec![];
     let mut errors: Vec<SatrecParseError> = vec![];
     let mut i = 0;
     while i < lines.len() {
-        // If line 1 is not equal to a line operator, try next.
-        if lines[i].trim().len() != 25 && i + 2 < lines.len() {
+        // A title line, followed by the two element lines.
+        if !is_pair(&lines, i) && is_pair(&lines, i + 1) && !is_element_line(lines[i]) {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
                     rec.name = Some(parse_title(lines[i]));
@@ -254,7 +264,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
                 }
             }
             i += 3;
-        } else if i + 1 < lines.len() {
+        } else if is_pair(&lines, i) {
             match twoline2satrec(lines[i], lines[i+1]) {
                 Ok(rec) => recs.push(rec),
                 Err(err) => {
-- 
2.43.0


From d82fbb32ad28f67288e1cb66b01761716839de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 01/13] fix: delta_at applies a new value from the first month
 it is published for

---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index e02c44c..93592bc 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -84,7 +84,7 @@ impl DeltaAt for GregorianDate {
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month < m)
+	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From 8a901f7e944112fbdc8c38752e887ca99489292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 02/13] fix: delta_at refuses a fraction of day that is not a
 number

---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 93592bc..1ed23ab 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -71,7 +71,7 @@ impl DeltaAt for GregorianDate {
 	let iy = self.year;
 	let im = self.month;
 	
-	if fd < 0.0 || fd > 1.0 {
+	if !(fd >= 0.0 && fd <= 1.0) {
 	    return Err(DeltaAtError::BadFract);
 	}
 
-- 
2.43.0


From 9bf7ec4ace2dd414c01227c27848b36816fb8995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 03/13] fix: GregorianDate::to_julian does not overflow for
 far-future years

---
 crates/tofas/src/calendar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index f34a449..bc4d3c7 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -73,6 +73,7 @@ impl GregorianDate {
     /// Source: cal2jd.for
     pub fn to_julian(&self)->(R,R) {
 	let &Self{ year,month,day } = self;
+	let (year,month,day) = (year as i64,month as i64,day as i64);
 	let my = ( month - 14 ) / 12;
 	let iypmy = year + my;
 	let djm = ( 1461 * ( iypmy + 4800 ) ) / 4
-- 
2.43.0


From c74ec10c19dd9cd1deed4e1dc01076087e875ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 04/13] fix: GregorianDate::from_julian does not overflow below
 DJ_MAX

---
 crates/tofas/src/calendar.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index bc4d3c7..ecde49d 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -107,7 +107,7 @@ impl GregorianDate {
 	    f += 1.0;
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
-	let jd = d as i32 + 1;
+	let jd = d as i64 + 1;
 
 	let l = jd + 68569;
 	let n = ( 4*l ) / 146097;
@@ -122,9 +122,9 @@ impl GregorianDate {
 	let fd = f;
 
 	Ok((Self {
-	    year:iy,
-	    month:im,
-	    day:id },
+	    year:iy as i32,
+	    month:im as i32,
+	    day:id as i32 },
 	    fd))
     }
 }
-- 
2.43.0


From bca146a61ab83422d50ca24af036a80712e4fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 05/13] fix: GregorianDate::from_julian refuses a date that is
 not a number

---
 crates/tofas/src/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index ecde49d..facf96d 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -88,7 +88,7 @@ impl GregorianDate {
     /// Source: jd2cal.for
     pub fn from_julian(dj1:R,dj2:R)->Result<(Self,R),CalendarError> {
 	let dj = dj1 + dj2;
-	if dj < DJ_MIN || dj > DJ_MAX {
+	if !(dj >= DJ_MIN && dj <= DJ_MAX) {
 	    return Err(CalendarError::BadJulian);
 	}
 
-- 
2.43.0


From 4fc80ba43f934c86cfba2de82c2404cf242916bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 06/13] fix: GregorianDate::from_julian keeps the fraction of
 day below one

---
 crates/tofas/src/calendar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index facf96d..636edc3 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -105,6 +105,10 @@ impl GregorianDate {
 	let mut f = (f1 + f2) % 1.0;
 	if f < 0.0 {
 	    f += 1.0;
+	    if f >= 1.0 {
+		// A tiny negative fraction rounded up to a whole day
+		f = 0.0;
+	    }
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
 	let jd = d as i64 + 1;
-- 
2.43.0


From 9c3e2867de11a77ed54a20f295cb47d4563b41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 07/13] fix: HMS::from_fraction_of_day refuses a fraction that
 is not a number

---
 crates/tofas/src/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index 636edc3..255c9cf 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -145,7 +145,7 @@ impl HMS {
     }
     
     pub fn from_fraction_of_day(f:f64)->Result<Self,CalendarError> {
-	if f < 0.0 || f > 1.0 {
+	if !(f >= 0.0 && f <= 1.0) {
 	    return Err(CalendarError::BadFract)
 	}
 	let s = 86400.0 * f;
-- 
2.43.0


From 772ae31433bf53fa0b0ca46d744f7041fa62c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 08/13] fix: anp stays below two pi for tiny negative angles

---
 crates/tofas/src/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 318334f..67d5dd5 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -31,6 +31,10 @@ pub fn anp(a:R)->R {
     let mut w = a % TWO_PI;
     if w < 0.0 {
 	w += TWO_PI;
+	if w >= TWO_PI {
+	    // A tiny negative angle rounded up to a whole turn
+	    w = 0.0;
+	}
     }
     w
 }
-- 
2.43.0


From 8310d143bf63ab128996d9ddacab133581fcd3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 09/13] fix: Vector::angle of parallel vectors is not NaN

---
 crates/tofas/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 67d5dd5..78c2287 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -88,7 +88,7 @@ impl Vector for Vec3 {
     }
 
     fn angle(self,b:Self)->R {
-	acos(self.normalize().dot(b.normalize()))
+	acos(self.normalize().dot(b.normalize()).clamp(-1.0,1.0))
     }
 }
 
-- 
2.43.0


From b68f3d8631e010e213863800250622dc9bbcaf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 10/13] fix: EllipsoidConverter::new refuses a zero or
 not-a-number radius or flattening

---
 crates/tofas/src/ellipsoid.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 78968b0..93eeee2 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -125,11 +125,11 @@ impl EllipsoidConverter {
     pub fn new(ellipsoid:&Ellipsoid)->Result<Self,EllipsoidError> {
 	let &Ellipsoid{ a,f } = ellipsoid;
 
-	if f < 0.0 || f >= 1.0 {
+	if !(f >= 0.0 && f < 1.0) {
 	    return Err(EllipsoidError::InvalidFlattening);
 	}
 
-	if a < 0.0 {
+	if !(a > 0.0) {
 	    return Err(EllipsoidError::InvalidRadius);
 	}
 
-- 
2.43.0


From 3a5e26049980a7bcdfbf0d4301e48f6a4ccd2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 11/13] fix: converting the North Pole to degrees keeps its
 latitude

---
 crates/tofas/src/ellipsoid.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 93eeee2..f112e10 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -54,7 +54,13 @@ impl From<Geodetic> for Geodetic360 {
 impl From<&Geodetic> for Geodetic360 {
     fn from(gd:&Geodetic)->Self {
 	let lon = (gd.elong/DEGREE + 180.0).rem_euclid(360.0) - 180.0;
-	let lat = (gd.phi/DEGREE + 90.0).rem_euclid(180.0) - 90.0;
+	let lat = gd.phi/DEGREE;
+	let lat =
+	    if abs(lat) <= 90.0 {
+		lat
+	    } else {
+		(lat + 90.0).rem_euclid(180.0) - 90.0
+	    };
 	debug_assert!(-180.0 <= lon && lon <= 180.0);
 	debug_assert!(-90.0 <= lat && lat <= 90.0);
 	Self {
-- 
2.43.0


From 23e09cc5841ea650d36b3ec65889a3be9e811a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:36 +0000
Subject: [PATCH 12/13] fix: a time just below the next minute is not displayed
 with 60 seconds

---
 crates/tofas/src/calendar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index 255c9cf..dc8ac20 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -181,7 +181,9 @@ impl GregorianDateHMS {
 
 impl Display for HMS {
     fn fmt(&self,f:&mut Formatter<'_>)->Result<(),std::fmt::Error> {
-	write!(f,"{:02}:{:02}:{:0>9.6}",self.hour,self.minute,self.second)
+	// Rounding to the microsecond must not show 60 seconds
+	let second = if self.second < 60.0 { self.second.min(59.999999) } else { self.second };
+	write!(f,"{:02}:{:02}:{:0>9.6}",self.hour,self.minute,second)
     }
 }
 
-- 
2.43.0


From 0d013c5204d96157f3e0875a762647a4ed812d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:10 +0000
Subject: [PATCH 13/13] fix: TAI-UTC of a date in the far future does not
 overflow

---
 crates/tofas/src/delta_at.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 1ed23ab..3eb9460 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -79,12 +79,12 @@ impl DeltaAt for GregorianDate {
 	    return Ok(None);
 	}
 
-	let m = 12*iy + im;
+	let m = 12*(iy as i64) + im as i64;
 
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
+	    .rposition(|DatData { year,month,.. }| 12*(*year as i64) + *month as i64 <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From 97ea4342db6a62b7db8f06fb0ee097eaf4d11429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 1/7] fix: date_from_float panicked for every 1 January

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 55684f2..757ab6e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,7 +52,7 @@ pub fn date_to_float(dt: NDt) -> f64 {
 Converts a float to a NaiveDate with 1(One) year represented by 1.0
 */
 pub fn date_from_float(yr: f64) -> NDt {
-    let y = (yr - 0.00274).floor();
+    let y = (yr - 0.00137).floor();
     let yp = y as i32;
     NDt::from_yo_opt(yp, ((yr - y) * days_in_year(yp) as f64).round() as u32).unwrap()
 }
-- 
2.43.0


From 0f1927ace15a36c1de9b1a48ff5de1951f072333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 2/7] fix: consecutive_periods panicked when an earlier month
 lacks the latest day

---
 src/statements.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index bb6c66a..13e6d6e 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1327,13 +1327,17 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
     let pr_qtr = |y: i32, m: u32| if m <= 3 { (y - 1, m + 9) } else { (y, m - 3) };
 
     let dt = dt_1.day();
+    // a month without the day has its last day instead
+    let month_day = |y: i32, m: u32| {
+        [dt, 30, 29, 28].into_iter().find_map(|d| NDt::from_ymd_opt(y, m, d)).unwrap()
+    };
     let mut bt = BTreeSet::new();
 
     for _ in 0..100 {
         let (y1, m1) = (dt_1.year(), dt_1.month());
         let (yq, mq) = pr_qtr(y1, m1);
-        let dt_q = NDt::from_ymd_opt(yq, mq, dt).unwrap();
-        let dt_0 = NDt::from_ymd_opt(y1 - 1, m1, dt).unwrap();
+        let dt_q = month_day(yq, mq);
+        let dt_0 = month_day(y1 - 1, m1);
 
         if prd.contains(&(dt_q, dt_1)) {
             bt.insert((dt_q, dt_1));
-- 
2.43.0


From 2d9147ba10cb5c2a0869345ab33f5db19e01c3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 3/7] fix: split_periods lost periods of exactly 120 days

---
 src/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statements.rs b/src/statements.rs
index 13e6d6e..a789355 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1398,7 +1398,7 @@ impl Accounts {
                 })
                 .collect(),
             dts.filter_map(|&(d0, d1)| {
-                if d0 + Duration::days(120) > d1 {
+                if d0 + Duration::days(120) >= d1 {
                     Some((d0, d1))
                 } else {
                     None
-- 
2.43.0


From 79b4c534751dd6553d4e755ae3532d607d98c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 4/7] fix: check_dates panicked without periods

---
 src/statements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/statements.rs b/src/statements.rs
index a789355..47c9958 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1301,6 +1301,9 @@ impl FinancialReport {
 
 /** Check if a Vec of dates in sequence is valid i.e. the last dates of previous and the first date of next are same. */
 pub fn check_dates(dts: &Vec<Period>) -> bool {
+    if dts.is_empty() {
+        return true;
+    }
     let (mut dp, dt) = dts[0];
     if dp > dt {
         return false;
-- 
2.43.0


From 8ee00a01106bf8632f3404c70d672429428aee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 5/7] fix: check_dates rejected contiguous periods

---
 src/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 47c9958..27f78d9 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1304,8 +1304,8 @@ pub fn check_dates(dts: &Vec<Period>) -> bool {
     if dts.is_empty() {
         return true;
     }
-    let (mut dp, dt) = dts[0];
-    if dp > dt {
+    let (dt, mut dp) = dts[0];
+    if dt > dp {
         return false;
     }
 
-- 
2.43.0


From d33e40a86873c38f41321ac2454c3b66413a1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 6/7] fix: pv_annuity and pmt were NaN at a zero rate

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 757ab6e..1e0d406 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -260,6 +260,9 @@ pub fn fvc(r: f64, n: f64, pv: f64) -> f64 {
 - m   = number of payments per period (say, monthly where `m = 12`)
 */
 pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
+    if r == 0.0 {
+        return -pmt * n * m - fv;
+    }
     let rn = (1.0 + r / m).powf(n * m);
     -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn
 }
@@ -271,6 +274,9 @@ pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
 - m  = number of payments per period (say, monthly where m = 12)
 */
 pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {
+    if r == 0.0 {
+        return -(pv + fv) / (n * m);
+    }
     let rn = (1.0 + r / m).powf(n * m);
     -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)
 }
-- 
2.43.0


From 2a9f8e00e53638b0ecf31cd8a418411f59566749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 7/7] fix: generate_cashflow dropped a coupon when freq *
 t_life rounds below the whole number

---
 src/fixedincomes/bonds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds.rs b/src/fixedincomes/bonds.rs
index 5515686..94afdf0 100644
--- a/src/fixedincomes/bonds.rs
+++ b/src/fixedincomes/bonds.rs
@@ -74,7 +74,7 @@ impl CouponBond {
      */
     pub fn generate_cashflow(&self) -> Vec<f64> {
         let c = self.par * self.c / self.freq;
-        let sz = (self.freq * self.t_life) as usize;
+        let sz = (self.freq * self.t_life).round() as usize;
         let mut cb: Vec<f64> = vec![c; sz];
         cb[sz - 1] += self.par;
         cb
-- 
2.43.0


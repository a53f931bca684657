From afc7f5d96f4f7663def4273d33edd3cc8866be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 01/10] fix: date_from_float panicked on the first of January

The half-day threshold was a whole day, so 1 January (1/365 of a year) fell
into the previous year as day 366 or 367.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 55684f2..6c7b2b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,9 +52,10 @@ pub fn date_to_float(dt: NDt) -> f64 {
 Converts a float to a NaiveDate with 1(One) year represented by 1.0
 */
 pub fn date_from_float(yr: f64) -> NDt {
-    let y = (yr - 0.00274).floor();
+    let y = (yr - 0.00137).floor();
     let yp = y as i32;
-    NDt::from_yo_opt(yp, ((yr - y) * days_in_year(yp) as f64).round() as u32).unwrap()
+    let days = days_in_year(yp) as f64;
+    NDt::from_yo_opt(yp, ((yr - y) * days).round().min(days) as u32).unwrap()
 }
 
 /**
-- 
2.43.0


From 5d72d59514294e4f64082010d239203b1d7cdb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 02/10] fix: check_dates compared the second period with the
 start of the first

Contiguous periods were reported as broken.
---
 src/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index bb6c66a..6ebfe1b 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1301,8 +1301,8 @@ impl FinancialReport {
 
 /** Check if a Vec of dates in sequence is valid i.e. the last dates of previous and the first date of next are same. */
 pub fn check_dates(dts: &Vec<Period>) -> bool {
-    let (mut dp, dt) = dts[0];
-    if dp > dt {
+    let (dt, mut dp) = dts[0];
+    if dt > dp {
         return false;
     }
 
-- 
2.43.0


From 496fa24dc666f43bc87b4c6ab2f677d2dd5bf435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 03/10] fix: consecutive_periods panicked when an earlier month
 has no such day

E.g. for accounts ending on 31 December (there is no 31 September).
---
 src/statements.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 6ebfe1b..1d9e8a2 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1327,13 +1327,22 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
     let pr_qtr = |y: i32, m: u32| if m <= 3 { (y - 1, m + 9) } else { (y, m - 3) };
 
     let dt = dt_1.day();
+    let month_date = |y: i32, m: u32| {
+        let last = match m {
+            2 if crate::is_leap_year(y) => 29,
+            2 => 28,
+            4 | 6 | 9 | 11 => 30,
+            _ => 31,
+        };
+        NDt::from_ymd_opt(y, m, dt.min(last)).unwrap()
+    };
     let mut bt = BTreeSet::new();
 
     for _ in 0..100 {
         let (y1, m1) = (dt_1.year(), dt_1.month());
         let (yq, mq) = pr_qtr(y1, m1);
-        let dt_q = NDt::from_ymd_opt(yq, mq, dt).unwrap();
-        let dt_0 = NDt::from_ymd_opt(y1 - 1, m1, dt).unwrap();
+        let dt_q = month_date(yq, mq);
+        let dt_0 = month_date(y1 - 1, m1);
 
         if prd.contains(&(dt_q, dt_1)) {
             bt.insert((dt_q, dt_1));
-- 
2.43.0


From f49ec56ff39a3533d8b539050fc0480e8071d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 04/10] fix: split_periods dropped periods of exactly 120 days

---
 src/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statements.rs b/src/statements.rs
index 1d9e8a2..9147fec 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1403,7 +1403,7 @@ impl Accounts {
                 })
                 .collect(),
             dts.filter_map(|&(d0, d1)| {
-                if d0 + Duration::days(120) > d1 {
+                if d0 + Duration::days(120) >= d1 {
                     Some((d0, d1))
                 } else {
                     None
-- 
2.43.0


From c501c93814206657e1e8fd5e48a0924a22a541f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 05/10] fix: annuity value and payment were NaN at a zero rate

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6c7b2b6..bdec480 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -261,6 +261,9 @@ pub fn fvc(r: f64, n: f64, pv: f64) -> f64 {
 - m   = number of payments per period (say, monthly where `m = 12`)
 */
 pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
+    if r == 0.0 {
+        return -pmt * (n * m) - fv;
+    }
     let rn = (1.0 + r / m).powf(n * m);
     -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn
 }
@@ -272,6 +275,9 @@ pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
 - m  = number of payments per period (say, monthly where m = 12)
 */
 pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {
+    if r == 0.0 {
+        return -(pv + fv) / (n * m);
+    }
     let rn = (1.0 + r / m).powf(n * m);
     -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)
 }
-- 
2.43.0


From 3bdbaf28b4b87f44d7dbf5d48f9d6e697584e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 06/10] fix: rate curve lookup just below a grid point because
 of rounding

1/49*49 is less than 1 in floating point, so the first point of such a curve
panicked; other points interpolated with a weight of almost one.
---
 src/fixedincomes/bonds/rates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds/rates.rs b/src/fixedincomes/bonds/rates.rs
index e95c404..5d5447c 100644
--- a/src/fixedincomes/bonds/rates.rs
+++ b/src/fixedincomes/bonds/rates.rs
@@ -42,7 +42,7 @@ impl RateCurve {
     pub fn rate_estim(&self, y: f64) -> f64 {
         fn estima(rx: &Vec<f64>, fq: f64, y: f64) -> f64 {
             let proper = |x: f64| -> (usize, f64) {
-                let sl = x.floor();
+                let sl = (x + 1e-9).floor();
                 (sl as usize, x - sl)
             };
             let (fl, pf) = proper(y * fq);
-- 
2.43.0


From a2429bdc1996af91f800bc0aeea1c72457e3f8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 07/10] fix: generate_cashflow lost the last coupon when freq *
 t_life rounded down

52 * (15 / 52) is less than 15 in floating point.
---
 src/fixedincomes/bonds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds.rs b/src/fixedincomes/bonds.rs
index 5515686..5d1b34d 100644
--- a/src/fixedincomes/bonds.rs
+++ b/src/fixedincomes/bonds.rs
@@ -74,7 +74,7 @@ impl CouponBond {
      */
     pub fn generate_cashflow(&self) -> Vec<f64> {
         let c = self.par * self.c / self.freq;
-        let sz = (self.freq * self.t_life) as usize;
+        let sz = (self.freq * self.t_life + 1e-9) as usize;
         let mut cb: Vec<f64> = vec![c; sz];
         cb[sz - 1] += self.par;
         cb
-- 
2.43.0


From 9d530eee805ce036a3c241c119bc5b935ae19a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:31 +0000
Subject: [PATCH 08/10] fix: account books and valuation models could not be
 saved: JSON has only text keys, maps by period are written as lists

---
 src/statements.rs | 26 ++++++++++++++++++++++++++
 src/valuations.rs |  1 +
 2 files changed, 27 insertions(+)

diff --git a/src/statements.rs b/src/statements.rs
index 9147fec..ecec3bc 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1357,14 +1357,40 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
     bt
 }
 
+/**
+Maps by period are saved as lists of (period, value), as formats like JSON have only text for keys of a map
+*/
+pub(crate) mod by_period {
+    use super::Period;
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+    use std::collections::BTreeMap;
+
+    pub fn serialize<V: Serialize, S: Serializer>(
+        map: &BTreeMap<Period, V>,
+        serializer: S,
+    ) -> Result<S::Ok, S::Error> {
+        serializer.collect_seq(map)
+    }
+
+    pub fn deserialize<'de, V: Deserialize<'de>, D: Deserializer<'de>>(
+        deserializer: D,
+    ) -> Result<BTreeMap<Period, V>, D::Error> {
+        let list = Vec::<(Period, V)>::deserialize(deserializer)?;
+        Ok(list.into_iter().collect())
+    }
+}
+
 #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
 pub struct Accounts {
     pub currency: Currency,
     pub consolidated: bool,
     pub dates: BTreeSet<NDt>,
     pub balance_sheet: BTreeMap<NDt, BsMap>,
+    #[serde(with = "by_period")]
     pub profit_loss: BTreeMap<Period, PlMap>,
+    #[serde(with = "by_period")]
     pub cash_flow: BTreeMap<Period, CfMap>,
+    #[serde(with = "by_period")]
     pub others: BTreeMap<Period, FinOthersMap>,
 }
 
diff --git a/src/valuations.rs b/src/valuations.rs
index f0f347e..f765bde 100644
--- a/src/valuations.rs
+++ b/src/valuations.rs
@@ -42,6 +42,7 @@ pub struct CompanyReports {
 
 #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
 pub struct ValuationModel {
+    #[serde(with = "crate::statements::by_period")]
     pub params: BTreeMap<Period, CompanyReports>,
     pub shareprice: BTreeMap<NDt, f64>,
 }
-- 
2.43.0


From 7d67292b42ce34ec0abac5f61159c339594bfeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 09/10] fix: read existing RON account files again: reverts
 9d530ee, which wrote maps by period as lists

---
 src/statements.rs | 26 --------------------------
 src/valuations.rs |  1 -
 2 files changed, 27 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index ecec3bc..9147fec 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1357,40 +1357,14 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
     bt
 }
 
-/**
-Maps by period are saved as lists of (period, value), as formats like JSON have only text for keys of a map
-*/
-pub(crate) mod by_period {
-    use super::Period;
-    use serde::{Deserialize, Deserializer, Serialize, Serializer};
-    use std::collections::BTreeMap;
-
-    pub fn serialize<V: Serialize, S: Serializer>(
-        map: &BTreeMap<Period, V>,
-        serializer: S,
-    ) -> Result<S::Ok, S::Error> {
-        serializer.collect_seq(map)
-    }
-
-    pub fn deserialize<'de, V: Deserialize<'de>, D: Deserializer<'de>>(
-        deserializer: D,
-    ) -> Result<BTreeMap<Period, V>, D::Error> {
-        let list = Vec::<(Period, V)>::deserialize(deserializer)?;
-        Ok(list.into_iter().collect())
-    }
-}
-
 #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
 pub struct Accounts {
     pub currency: Currency,
     pub consolidated: bool,
     pub dates: BTreeSet<NDt>,
     pub balance_sheet: BTreeMap<NDt, BsMap>,
-    #[serde(with = "by_period")]
     pub profit_loss: BTreeMap<Period, PlMap>,
-    #[serde(with = "by_period")]
     pub cash_flow: BTreeMap<Period, CfMap>,
-    #[serde(with = "by_period")]
     pub others: BTreeMap<Period, FinOthersMap>,
 }
 
diff --git a/src/valuations.rs b/src/valuations.rs
index f765bde..f0f347e 100644
--- a/src/valuations.rs
+++ b/src/valuations.rs
@@ -42,7 +42,6 @@ pub struct CompanyReports {
 
 #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
 pub struct ValuationModel {
-    #[serde(with = "crate::statements::by_period")]
     pub params: BTreeMap<Period, CompanyReports>,
     pub shareprice: BTreeMap<NDt, f64>,
 }
-- 
2.43.0


From 24f198ccdb20444ea3adc5820b9e04fc6e8300c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:35 +0000
Subject: [PATCH 10/10] fix: printing an account book without statements
 panicked, and one without positive totals showed NaN

---
 src/statements.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 9147fec..bb427a0 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1811,13 +1811,14 @@ impl fmt::Display for Accounts {
                     .iter()
                     .map(|(_, x)| x.value(Assets).floor() as i64)
                     .max()
-                    .unwrap(),
+                    .unwrap_or(1),
                 self.profit_loss
                     .iter()
                     .map(|(_, x)| x.value(Revenue).floor() as i64)
                     .max()
-                    .unwrap(),
-            ) as f64)
+                    .unwrap_or(1),
+            )
+            .max(1) as f64)
                 .log10()
                 .ceil() as i32)
                 / 3
-- 
2.43.0


From b9fec94990998230bd897631ab4daaba1ac6c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 01/10] fix: inactivity alarm of the driver turns on when
 nothing is processed

The alarm was refreshed by every collection, including empty ones, so it
could never turn on.
---
 src/driver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/driver.rs b/src/driver.rs
index 7c53257..962913e 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -726,7 +726,9 @@ impl DriverInstruments {
                     now,
                 ));
         }
-        self.inactivity_alarm.update(&Update::Observation(now));
+        if outcome.something_happened() {
+            self.inactivity_alarm.update(&Update::Observation(now));
+        }
     }
 
     pub fn update_post_snapshot(&mut self, snapshot_started: Instant) {
-- 
2.43.0


From e9ea37a25be77930d9c1fc4e71b81856995f8bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 02/10] fix: average peaks and bottoms of a tracking gauge over
 the records that have values

---
 src/instruments/gauge/tracking.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index 6fd58eb..cabba81 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -45,6 +45,7 @@ impl BucketsStats {
         let mut sum_peak = 0;
         let mut total_sum = 0;
         let mut total_count = 0;
+        let mut non_empty = 0u64;
 
         buckets.iter().for_each(
             |Bucket {
@@ -55,6 +56,7 @@ impl BucketsStats {
                 if *count != 0 {
                     total_sum += sum;
                     total_count += count;
+                    non_empty += 1;
 
                     let (min, max) = min_max;
 
@@ -70,8 +72,8 @@ impl BucketsStats {
 
         if total_count != 0 {
             let avg = (total_sum as f64) / (total_count as f64);
-            let bottom_avg = (sum_bottom as f64) / (buckets.len() as f64);
-            let peak_avg = (sum_peak as f64) / (buckets.len() as f64);
+            let bottom_avg = (sum_bottom as f64) / (non_empty as f64);
+            let peak_avg = (sum_peak as f64) / (non_empty as f64);
             Some(BucketsStats {
                 peak,
                 peak_min,
-- 
2.43.0


From 6532b4f4dd7d6ffe8229975b9f363f20b146e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 03/10] fix: shown and inverted value of a switch come from the
 same reading of the clock

---
 src/instruments/switches/non_occurrence_indicator.rs | 5 +++--
 src/instruments/switches/occurrence_indicator.rs     | 5 +++--
 src/instruments/switches/staircase_timer.rs          | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index f4f4acc..45a6445 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -225,10 +225,11 @@ impl PutsSnapshot for NonOccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index 2748523..e346b61 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -220,10 +220,11 @@ impl PutsSnapshot for OccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index 0ab2a8c..545fe4c 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -226,10 +226,11 @@ impl PutsSnapshot for StaircaseTimer {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
-- 
2.43.0


From 36117f75a6f1feaf71366ae72b7dd2239f4d9484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 04/10] fix: handling an observation keeps a panel active

---
 src/instruments/panel.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index da2b2b1..2af6ddc 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -350,6 +350,8 @@ where
             return 0;
         }
 
+        self.last_update = Instant::now();
+
         let mut instruments_updated = 0;
 
         self.counter
-- 
2.43.0


From 00ea6d3fc11e917eb93a0845d84d1c7616d1f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 05/10] fix: an inactivity limit also applies when the activity
 state is not shown

---
 src/cockpit.rs           | 20 ++++++++------------
 src/instruments/panel.rs | 20 ++++++++------------
 src/processor.rs         | 20 ++++++++------------
 3 files changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/cockpit.rs b/src/cockpit.rs
index 7f6625f..9bcbfc7 100644
--- a/src/cockpit.rs
+++ b/src/cockpit.rs
@@ -216,19 +216,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
 
diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index 2af6ddc..0c3f88f 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -280,19 +280,15 @@ where
     fn put_values_into_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_default_descriptives(self, into, descriptive);
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_update.elapsed() > d;
             if self.show_activity_state {
-                if self.last_update.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
         self.counter
diff --git a/src/processor.rs b/src/processor.rs
index cad49c7..77c394a 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -460,19 +460,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
 
-- 
2.43.0


From affebd702218518e6cf59a76525a9ccf1fa0bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 06/10] fix: do not panic on durations the clock cannot
 represent

---
 src/instruments/other_instruments/display.rs        |  2 +-
 .../switches/non_occurrence_indicator.rs            |  3 +--
 src/instruments/switches/occurrence_indicator.rs    | 13 +++++++------
 src/instruments/switches/staircase_timer.rs         |  6 +++++-
 src/processor.rs                                    | 10 +++++++---
 5 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/instruments/other_instruments/display.rs b/src/instruments/other_instruments/display.rs
index 5879b87..46cbea2 100644
--- a/src/instruments/other_instruments/display.rs
+++ b/src/instruments/other_instruments/display.rs
@@ -191,7 +191,7 @@ impl Updates for DataDisplay {
     fn update(&mut self, update: &Update) -> usize {
         if let Some(value) = update.observed_value().and_then(|v| v.to_item_kind()) {
             if let Some(reset_after) = self.reset_after {
-                self.stay_on_until = Some(Instant::now() + reset_after);
+                self.stay_on_until = Instant::now().checked_add(reset_after);
             }
             self.value = Some(value);
             1
diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index 45a6445..cae0e99 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -208,8 +208,7 @@ impl NonOccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_not_have_happened_after = Instant::now() - self.if_not_happened_within;
-        let current_state = self.happened_last <= must_not_have_happened_after;
+        let current_state = self.happened_last.elapsed() >= self.if_not_happened_within;
 
         if self.invert {
             !current_state
diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index e346b61..b282fef 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -19,7 +19,7 @@ pub struct OccurrenceIndicator {
     title: Option<String>,
     description: Option<String>,
     if_happened_within: Duration,
-    happened_last: Instant,
+    happened_last: Option<Instant>,
     invert: bool,
     show_inverted: Option<NameAlternation>,
 }
@@ -31,7 +31,7 @@ impl OccurrenceIndicator {
             title: None,
             description: None,
             if_happened_within: Duration::from_secs(60),
-            happened_last: Instant::now() - Duration::from_secs(60),
+            happened_last: None,
             invert: false,
             show_inverted: None,
         }
@@ -102,7 +102,7 @@ impl OccurrenceIndicator {
 
     pub fn set_if_happened_within(&mut self, d: Duration) {
         self.if_happened_within = d;
-        self.happened_last = Instant::now() - d;
+        self.happened_last = None;
     }
 
     pub fn if_happened_within(mut self, d: Duration) -> Self {
@@ -203,8 +203,9 @@ impl OccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_have_happened_after = Instant::now() - self.if_happened_within;
-        let current_state = self.happened_last > must_have_happened_after;
+        let current_state = self
+            .happened_last
+            .map_or(false, |last| last.elapsed() < self.if_happened_within);
 
         if self.invert {
             !current_state
@@ -231,7 +232,7 @@ impl PutsSnapshot for OccurrenceIndicator {
 
 impl Updates for OccurrenceIndicator {
     fn update(&mut self, _: &Update) -> usize {
-        self.happened_last = Instant::now();
+        self.happened_last = Some(Instant::now());
         1
     }
 }
diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index 545fe4c..1e65ec9 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -9,6 +9,9 @@ use crate::{Descriptive, PutsSnapshot};
 
 use super::NameAlternation;
 
+/// Longer durations might not be representable as an `Instant`
+const MAX_SWITCH_OFF_AFTER: Duration = Duration::from_secs(100 * 365 * 24 * 60 * 60);
+
 /// A `StaircaseTimer` is 'tapped' by an `Observation`
 /// and then stays on for some time.
 ///
@@ -237,7 +240,8 @@ impl PutsSnapshot for StaircaseTimer {
 
 impl Updates for StaircaseTimer {
     fn update(&mut self, _: &Update) -> usize {
-        self.stay_on_until = Some(Instant::now() + self.switch_off_after);
+        self.stay_on_until =
+            Some(Instant::now() + std::cmp::min(self.switch_off_after, MAX_SWITCH_OFF_AFTER));
         1
     }
 }
diff --git a/src/processor.rs b/src/processor.rs
index 77c394a..7e7c190 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -127,9 +127,13 @@ impl ProcessingStrategy {
             ProcessingStrategy::DropOlderThan {
                 max_age,
                 drop_deltas,
-            } => ProcessingDecider::DropBeforeDeadline {
-                drop_if_older_than: Instant::now() - max_age,
-                drop_deltas,
+            } => match Instant::now().checked_sub(max_age) {
+                Some(drop_if_older_than) => ProcessingDecider::DropBeforeDeadline {
+                    drop_if_older_than,
+                    drop_deltas,
+                },
+                // No representable `Instant` is that far in the past
+                None => ProcessingDecider::ProcessAll,
             },
         }
     }
-- 
2.43.0


From ad6f423bf40d04d0d7c940f1401346fec0a3575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 07/10] fix: do not overflow when a gauge adds up extreme
 values

---
 src/instruments/gauge/mod.rs      | 2 +-
 src/instruments/gauge/tracking.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/instruments/gauge/mod.rs b/src/instruments/gauge/mod.rs
index 6f92fef..efb7219 100644
--- a/src/instruments/gauge/mod.rs
+++ b/src/instruments/gauge/mod.rs
@@ -346,7 +346,7 @@ impl Gauge {
 
     fn next_value(&self, current: Option<i64>, observed: ObservedValue) -> Option<i64> {
         match observed {
-            ObservedValue::ChangedBy(d) => current.map(|c| c + d).or_else(|| Some(d)),
+            ObservedValue::ChangedBy(d) => current.map(|c| c.saturating_add(d)).or_else(|| Some(d)),
             ObservedValue::Duration(time, unit) => {
                 let value = super::duration_to_display_value(time, unit, self.display_time_unit);
                 Some(value as i64)
diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index cabba81..c270afa 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -3,7 +3,7 @@ use crate::snapshot::Snapshot;
 
 #[derive(Default)]
 pub struct Bucket {
-    pub sum: i64,
+    pub sum: i128,
     pub count: u64,
     pub min_max: (i64, i64),
 }
@@ -16,7 +16,7 @@ impl Bucket {
         } else {
             (v, v)
         };
-        self.sum += v;
+        self.sum += i128::from(v);
         self.count += 1;
     }
 }
@@ -64,8 +64,8 @@ impl BucketsStats {
                     peak_min = std::cmp::min(peak_min, *max);
                     bottom = std::cmp::min(bottom, *min);
                     bottom_max = std::cmp::max(bottom_max, *min);
-                    sum_bottom += min;
-                    sum_peak += max;
+                    sum_bottom += i128::from(*min);
+                    sum_peak += i128::from(*max);
                 }
             },
         );
-- 
2.43.0


From 5b679dac0d31edb2cf8f54bdee7a91ebb1af96f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 08/10] fix: do not overflow when converting extreme durations

---
 src/instruments/mod.rs | 12 ++++++------
 src/observation.rs     | 23 ++++++++---------------
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/instruments/mod.rs b/src/instruments/mod.rs
index 87bf567..e0e573c 100644
--- a/src/instruments/mod.rs
+++ b/src/instruments/mod.rs
@@ -129,17 +129,17 @@ fn duration_to_display_value(time: u64, current_unit: TimeUnit, target_unit: Tim
         (Nanoseconds, Microseconds) => time / 1_000,
         (Nanoseconds, Milliseconds) => time / 1_000_000,
         (Nanoseconds, Seconds) => time / 1_000_000_000,
-        (Microseconds, Nanoseconds) => time * 1_000,
+        (Microseconds, Nanoseconds) => time.saturating_mul(1_000),
         (Microseconds, Microseconds) => time,
         (Microseconds, Milliseconds) => time / 1_000,
         (Microseconds, Seconds) => time / 1_000_000,
-        (Milliseconds, Nanoseconds) => time * 1_000_000,
-        (Milliseconds, Microseconds) => time * 1_000,
+        (Milliseconds, Nanoseconds) => time.saturating_mul(1_000_000),
+        (Milliseconds, Microseconds) => time.saturating_mul(1_000),
         (Milliseconds, Milliseconds) => time,
         (Milliseconds, Seconds) => time / 1_000,
-        (Seconds, Nanoseconds) => time * 1_000_000_000,
-        (Seconds, Microseconds) => time * 1_000_000,
-        (Seconds, Milliseconds) => time * 1_000,
+        (Seconds, Nanoseconds) => time.saturating_mul(1_000_000_000),
+        (Seconds, Microseconds) => time.saturating_mul(1_000_000),
+        (Seconds, Milliseconds) => time.saturating_mul(1_000),
         (Seconds, Seconds) => time,
     }
 }
diff --git a/src/observation.rs b/src/observation.rs
index 19f93c1..9e6f87b 100644
--- a/src/observation.rs
+++ b/src/observation.rs
@@ -182,8 +182,7 @@ impl From<bool> for ObservedValue {
 
 impl From<Duration> for ObservedValue {
     fn from(v: Duration) -> Self {
-        let nanos = (v.as_secs() * 1_000_000_000) + (v.subsec_nanos() as u64);
-        ObservedValue::Duration(nanos, TimeUnit::Nanoseconds)
+        (v, TimeUnit::Nanoseconds).into()
     }
 }
 
@@ -196,24 +195,18 @@ impl From<(u64, TimeUnit)> for ObservedValue {
 impl From<(Duration, TimeUnit)> for ObservedValue {
     fn from(d: (Duration, TimeUnit)) -> Self {
         match d.1 {
-            TimeUnit::Nanoseconds => {
-                let nanos = (d.0.as_secs() * 1_000_000_000) + (d.0.subsec_nanos() as u64);
-                (nanos, d.1).into()
-            }
-            TimeUnit::Microseconds => {
-                let micros = (d.0.as_secs() * 1_000_000) + (d.0.subsec_nanos() as u64 / 1_000);
-
-                (micros, d.1).into()
-            }
-            TimeUnit::Milliseconds => {
-                let millis = (d.0.as_secs() * 1_000) + (d.0.subsec_nanos() as u64 / 1_000_000);
-                (millis, d.1).into()
-            }
+            TimeUnit::Nanoseconds => (saturate_to_u64(d.0.as_nanos()), d.1).into(),
+            TimeUnit::Microseconds => (saturate_to_u64(d.0.as_micros()), d.1).into(),
+            TimeUnit::Milliseconds => (saturate_to_u64(d.0.as_millis()), d.1).into(),
             TimeUnit::Seconds => (d.0.as_secs(), d.1).into(),
         }
     }
 }
 
+fn saturate_to_u64(v: u128) -> u64 {
+    std::cmp::min(v, u128::from(std::u64::MAX)) as u64
+}
+
 impl From<super::Increment> for ObservedValue {
     fn from(_: super::Increment) -> Self {
         ObservedValue::ChangedBy(1)
-- 
2.43.0


From 14c8208d8d41338be0e1bf3727c422c72240feef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 09/10] fix: do not overflow when counting extreme numbers of
 occurrences

---
 src/instruments/counter.rs                    | 4 ++--
 src/instruments/fundamentals/metrics_meter.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instruments/counter.rs b/src/instruments/counter.rs
index ff08486..929c335 100644
--- a/src/instruments/counter.rs
+++ b/src/instruments/counter.rs
@@ -78,12 +78,12 @@ impl Counter {
 
     /// Increase the stored value by one.
     pub fn inc(&mut self) {
-        self.count += 1;
+        self.count = self.count.saturating_add(1);
     }
 
     /// Increase the stored value by `n`
     pub fn inc_by(&mut self, n: u64) {
-        self.count += n;
+        self.count = self.count.saturating_add(n);
     }
 
     /// Get the current value
diff --git a/src/instruments/fundamentals/metrics_meter.rs b/src/instruments/fundamentals/metrics_meter.rs
index eff6e1d..16433d3 100644
--- a/src/instruments/fundamentals/metrics_meter.rs
+++ b/src/instruments/fundamentals/metrics_meter.rs
@@ -68,7 +68,7 @@ impl Meter for StdMeter {
         let mut s = self.data.lock().unwrap();
         self.tick_inner(&mut s);
 
-        s.count += n;
+        s.count = s.count.saturating_add(n);
 
         for i in 0..WINDOW.len() {
             s.ewma[i].update(n as usize);
-- 
2.43.0


From 6dd323acd7d84e459033a4cc0b0472c67e8ba67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 10/10] fix: render the smallest integer as JSON without
 overflowing

---
 src/snapshot.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 0a70e92..53dd50f 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -2,7 +2,7 @@
 use std::fmt;
 use std::time::Duration;
 
-use json::{stringify, stringify_pretty, JsonValue};
+use json::{number::Number, stringify, stringify_pretty, JsonValue};
 
 use crate::observation::ObservedValue;
 
@@ -353,7 +353,8 @@ impl ItemKind {
             }
             ItemKind::Float(v) => v.into(),
             ItemKind::UInt(v) => v.into(),
-            ItemKind::Int(v) => v.into(),
+            // `Number::from` overflows for `i64::MIN`
+            ItemKind::Int(v) => Number::from_parts(v >= 0, v.wrapping_abs() as u64, 0).into(),
             ItemKind::Snapshot(ref snapshot) => snapshot.to_json_value(config),
         }
     }
-- 
2.43.0


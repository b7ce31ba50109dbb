From c8d8701194fe5e8415b9c7204c6237480b3da879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 01/20] fix: pack nanoseconds and the top bit of the second
 where the layout says

The nanosecond bits 16..30 were shifted by 48 and lost, and bit 16 of the
second was put in the same byte. Use the documented positions and mask the
precision when reading it back.
---
 src/iso8601/date_time.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index d7f4815..97760d1 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -176,9 +176,9 @@ impl DateTime {
         let year = gnd.year;
         let day = gnd.day;
         let rebased_cycle = cycle as i32 + 6;
-        ((nanosecond & 0x7FFF0000) as u64) << 48
+        ((nanosecond & 0x7FFF0000) as u64) << 32
             | (p as u64) << 41
-            | ((second & 0x10000) as u64) << 40
+            | ((second & 0x10000) as u64) << 24
             | ((rebased_cycle & 0x1F) as u64) << 35
             | ((century & 0x3) as u64) << 33
             | ((quadrennium & 0x1F) as u64) << 27
@@ -194,9 +194,9 @@ impl DateTime {
         let quadrennium = ((w0 >> 27) & 0x1F) as u8;
         let century = ((w0 >> 33) & 0x3) as u8;
         let cycle = ((w0 >> 35) & 0x1F) as i8 - 6;
-        let second = ((w0 >> 40) & 0x10000) as u32 | lower_second;
-        let precision = Self::decode_precision((w0 >> 41) as u8);
-        let nanosecond = ((w0 >> 48) & 0x7FFF0000) as u32;
+        let second = ((w0 >> 24) & 0x10000) as u32 | lower_second;
+        let precision = Self::decode_precision(((w0 >> 41) & 0xF) as u8);
+        let nanosecond = ((w0 >> 32) & 0x7FFF0000) as u32;
         let gnd = GregorianNormalizedDate {
             cycle,
             century,
-- 
2.43.0


From 170ff02cf800e3bca8b2c1e3fe4b2f4832e1a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 02/20] fix: spill seconds past the end of the day to the last
 second of the day

The leap second of the segment belongs to its last day, the last valid second
is day length - 1, and days outside the leap-second table have 86400 seconds
too, so e.g. 2016-12-31T23:59:60 plus one day is 2017-01-01T23:59:59 with a
carry of one second.
---
 src/iso8601/date_time.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 97760d1..47100b6 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -602,20 +602,21 @@ impl DateTime {
         // we need a larger return type here, and probably some kind of fix to the logic.
         let leap_second_chronology = self.chronology.leap_seconds();
         let days_from_epoch = gnd.to_day();
-        if let SegmentLookupResult::In(segment) = leap_second_chronology.by_day(days_from_epoch) {
-            let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
-            let leap_seconds = if day_offset == segment.duration_days {
-                segment.leap_seconds
-            } else {
-                0
-            };
-            let day_length_s = (SECONDS_PER_DAY as i32 + leap_seconds as i32) as u32;
-            if second >= day_length_s {
-                let second_carry = second - day_length_s;
-                (day_length_s, second_carry)
-            } else {
-                (second, 0)
+        let leap_seconds = match leap_second_chronology.by_day(days_from_epoch) {
+            SegmentLookupResult::In(segment) => {
+                let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
+                if day_offset == segment.duration_days - 1 {
+                    segment.leap_seconds
+                } else {
+                    0
+                }
             }
+            _ => 0,
+        };
+        let day_length_s = (SECONDS_PER_DAY as i32 + leap_seconds as i32) as u32;
+        if second >= day_length_s {
+            let max_second = day_length_s - 1;
+            (max_second, second - max_second)
         } else {
             (second, 0)
         }
-- 
2.43.0


From 3aeab758649ebbe0f35be0315b04de687ecce439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 03/20] fix: report minute additions that are out of range
 instead of wrapping

---
 src/iso8601/date_time.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 47100b6..cb4dd9b 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -417,9 +417,10 @@ impl DateTime {
         let (minute, second_of_minute) =
             second_of_day.clamped_div_rem(MINUTES_PER_HOUR as u32, MINUTES_PER_DAY - 1);
         let second_of_minute = second_of_minute as u8;
-        let (day_delta, minute) =
-            (minute as i64 + minutes).div_mod_floor(&(MINUTES_PER_DAY as i64));
-        let (day_delta, minute) = (day_delta as i32, minute as u16);
+        let (day_delta, minute) = (minute as i64)
+            .checked_add(minutes)?
+            .div_mod_floor(&(MINUTES_PER_DAY as i64));
+        let (day_delta, minute) = (i32::try_from(day_delta).ok()?, minute as u16);
         gnd.add_days(day_delta).ok()?;
         if !is_in_range(&gnd) {
             return None;
-- 
2.43.0


From 8114592620087385275ffdf56a80b5155b969a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 04/20] fix: do not truncate the number of cycles when adding
 days

---
 src/gregorian_normalized_date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index ea30dae..bf03e11 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -400,7 +400,7 @@ impl GregorianNormalizedDate {
         let (cycles, day) = day.div_mod_floor(&(GREGORIAN_CYCLE_DAYS as i32));
         let (century, quadrennium, year, day) = decompose_day_of_cycle(day as u32);
 
-        self.cycle = self.cycle.checked_add(cycles as i8).ok_or(OutOfBounds)?;
+        self.cycle = i8::try_from(self.cycle as i32 + cycles).map_err(|_| OutOfBounds)?;
         self.century = century;
         self.quadrennium = quadrennium;
         self.year = year;
-- 
2.43.0


From f04d1eccebf81ad3ea156780bbda50816584e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:00 +0000
Subject: [PATCH 05/20] fix: reject day 0 of a month as an invalid date

---
 src/gregorian_normalized_date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index bf03e11..fdcf3da 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -204,7 +204,7 @@ impl GregorianNormalizedDate {
 
         let mut year = year;
         let mut month = month - 1;
-        let day = day - 1;
+        let day = day.checked_sub(1).ok_or(Error::InvalidDate)?;
         if month < 2 {
             month += 12;
             year -= 1;
-- 
2.43.0


From 24492bde7e776e7dd5bedc60c64e46a2b898bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 06/20] fix: treat large year and month additions as out of
 bounds

GregorianNormalizedDate only supports adding up to +-9999 years; more than
that overflowed or wrapped around to a date that is in range.
---
 src/iso8601/date_time.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index cb4dd9b..46db96d 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -117,6 +117,11 @@ const MIN_FIXED_DAY: i32 = -719528;
 const MIN_YEAR: u16 = 0;
 const MAX_YEAR: u16 = 9999;
 
+// The largest number of years or months between two dates in the range of DateTime. Adding
+// more than this is always out of bounds.
+const MAX_YEARS_DELTA: i16 = (MAX_YEAR - MIN_YEAR) as i16;
+const MAX_MONTHS_DELTA: i32 = MAX_YEARS_DELTA as i32 * 12 + 11;
+
 // The minimum of the DateTime represented as a GregorianNormalizedDate. The
 // date 0000-03-01 is exactly 2000/400 = 5 cycles before the GND epoch. However,
 // we want to represent the date 0000-01-01 which is two months before, so we
@@ -320,6 +325,9 @@ impl DateTime {
     }
 
     pub fn checked_add_years(&self, years: i16) -> Option<DateTimeWithCarry> {
+        if !(-MAX_YEARS_DELTA..=MAX_YEARS_DELTA).contains(&years) {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_years(years);
         if !is_in_range(&gnd) {
@@ -347,6 +355,9 @@ impl DateTime {
     }
 
     pub fn checked_add_months(&self, months: i32) -> Option<DateTimeWithCarry> {
+        if !(-MAX_MONTHS_DELTA..=MAX_MONTHS_DELTA).contains(&months) {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_months(months);
         if !is_in_range(&gnd) {
-- 
2.43.0


From 71d326297c6c727a5db1165dbdb0be0adfa93b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 07/20] fix: return None for the earliest instant instead of
 panicking

---
 src/iso8601/date_time.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 46db96d..017dec5 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -587,7 +587,8 @@ impl DateTime {
             }
             SegmentLookupResult::BeforeFirst(first_segment) => {
                 let seconds_until_first_segment =
-                    (first_segment.start_instant.into() - instant).ticks() as u64;
+                    (first_segment.start_instant.ticks_since_epoch() as i64)
+                        .checked_sub(instant.ticks_since_epoch())? as u64;
                 // When seconds_until_first_segment is 1, we want to end up subtracting 1 day and
                 // setting the second to 86399. Simply dividing by SECONDS_PER_DAY will give us 0 days.
                 // It's essentially a division that rounds up.
-- 
2.43.0


From 47282082e49dd0d88dd2b898d5c310e4f3ca4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 08/20] fix: compare instants of different scales by the time
 they denote

The ticks of the finer instant were multiplied by the conversion factor
instead of those of the coarser one, so 1 s compared equal to 0.000000001 ns
and the multiplication could overflow.
---
 src/instant.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 16dde7c..0df7857 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -239,12 +239,15 @@ where
             std::cmp::Ordering::Less => {
                 let factor =
                     T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_eq(t2 * factor)
+                // Scaling t1 up could overflow, so scale t2 down instead.
+                let (t2, remainder) = t2.div_mod_floor(&factor);
+                remainder.is_zero() && t1.num_eq(t2)
             }
             std::cmp::Ordering::Greater => {
                 let factor =
                     T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_eq(t2)
+                let (t1, remainder) = t1.div_mod_floor(&factor);
+                remainder.is_zero() && t1.num_eq(t2)
             }
             std::cmp::Ordering::Equal => t1.num_eq(t2),
         }
@@ -298,12 +301,26 @@ where
             std::cmp::Ordering::Less => {
                 let factor =
                     T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_cmp(t2 * factor)
+                // Scaling t1 up could overflow, so scale t2 down instead. The remainder is never
+                // negative so it only matters when the rest is equal.
+                let (t2, remainder) = t2.div_mod_floor(&factor);
+                match t1.num_cmp(t2) {
+                    Some(std::cmp::Ordering::Equal) if !remainder.is_zero() => {
+                        Some(std::cmp::Ordering::Less)
+                    }
+                    ordering => ordering,
+                }
             }
             std::cmp::Ordering::Greater => {
                 let factor =
                     T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_cmp(t2)
+                let (t1, remainder) = t1.div_mod_floor(&factor);
+                match t1.num_cmp(t2) {
+                    Some(std::cmp::Ordering::Equal) if !remainder.is_zero() => {
+                        Some(std::cmp::Ordering::Greater)
+                    }
+                    ordering => ordering,
+                }
             }
             std::cmp::Ordering::Equal => t1.num_cmp(t2),
         }
-- 
2.43.0


From c5ce08fc085177081b69bbf50a2b917d1da7d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 09/20] fix: round system times before the epoch down to the
 second

---
 src/instant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/instant.rs b/src/instant.rs
index 0df7857..2da454c 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -380,10 +380,16 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     }
     .unwrap();
     let mut seconds = duration.as_secs() as i64;
+    let mut nanoseconds = duration.subsec_nanos();
     if sign {
         seconds = -seconds;
+        if nanoseconds > 0 {
+            // The nanoseconds count forward from the second, so we need to round down.
+            seconds -= 1;
+            nanoseconds = 1_000_000_000 - nanoseconds;
+        }
     }
-    (seconds, duration.subsec_nanos())
+    (seconds, nanoseconds)
 }
 
 /// Return true if the system time includes leap seconds.
-- 
2.43.0


From c19afe061280176d5a8225d3a1a49736e03c4e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 10/20] fix: count the last leap second for times after the
 leap-second table

---
 src/zoneinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index ffa8a74..5f512e0 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -239,6 +239,8 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-        SegmentLookupResult::AfterLast(last_segment) => last_segment.accumulated_leap_seconds,
+        SegmentLookupResult::AfterLast(last_segment) => {
+            last_segment.accumulated_leap_seconds + last_segment.leap_seconds as i32
+        }
     }
 }
-- 
2.43.0


From b53135fed3678ef84ed46f16a2c37e6eaf208000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 11/20] fix: do not truncate the day when looking up leap
 seconds

---
 src/zoneinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 5f512e0..b64d7ff 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -235,7 +235,8 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     let utc = iso8601::load_chronology("UTC");
     let leap_seconds = utc.leap_seconds();
 
-    let day = (unix_timestamp / 86_400) as i32;
+    // A day that doesn't fit in an i32 is outside of the table just like the nearest one that does.
+    let day = (unix_timestamp / 86_400).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-- 
2.43.0


From e5e7fbf2f333f487499f5f9393717cec511fe05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:34 +0000
Subject: [PATCH 12/20] fix: round negative durations down in Duration::floor

---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 5082602..d5035a8 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -114,7 +114,7 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             "Cannot floor to a higher scale"
         );
         let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
-        Duration::new(self.ticks / factor)
+        Duration::new(self.ticks.div_floor(&factor))
     }
 
     pub fn extend<S2: Scale>(&self) -> Option<Duration<T, S2>> {
-- 
2.43.0


From 383520b42313d5f5938ca71875d8928073db3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 13/20] fix: do not underflow when moving a slice cursor past
 either end

---
 src/slice_cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/slice_cursor.rs b/src/slice_cursor.rs
index beb2bd0..3e66616 100644
--- a/src/slice_cursor.rs
+++ b/src/slice_cursor.rs
@@ -57,7 +57,7 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
         }
     }
     fn advance_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.slice.len() - self.pos;
+        let remaining = self.slice.len().saturating_sub(self.pos);
         let advance = min(n, remaining);
         self.pos += advance;
         let n = n - advance;
@@ -106,7 +106,7 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
     }
 
     fn revert_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.pos - 1;
+        let remaining = self.pos.saturating_sub(1);
         let revert = min(n, remaining);
         self.pos -= revert;
         let n = n - revert;
-- 
2.43.0


From 60f847d74c3122f1593e99a53af41cc06c573b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:00 +0000
Subject: [PATCH 14/20] verify: hooks for the harnesses, behind
 cfg(momentous_verify)

---
 src/instant.rs           |  19 +++
 src/iso8601/date_time.rs |  41 +++++++
 src/lib.rs               |   6 +
 src/verify_hooks.rs      | 244 +++++++++++++++++++++++++++++++++++++++
 4 files changed, 310 insertions(+)
 create mode 100644 src/verify_hooks.rs

diff --git a/src/instant.rs b/src/instant.rs
index 2da454c..a2c3cc5 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -476,6 +476,25 @@ fn julian_day(year: i32, month: i32, day: i32) -> i32 {
     }
 }*/
 
+#[cfg(momentous_verify)]
+pub(crate) mod verify_hooks {
+    pub fn system_time_to_time_t(value: std::time::SystemTime) -> (i64, u32) {
+        super::system_time_to_time_t(value)
+    }
+
+    pub fn system_time_includes_leap_seconds() -> bool {
+        super::system_time_includes_leap_seconds()
+    }
+
+    pub fn utc_to_unix_time(date: (i32, i32, i32), hour: i32, minute: i32, second: i32) -> i64 {
+        super::utc_to_unix_time(date.0, date.1, date.2, hour, minute, second)
+    }
+
+    pub fn julian_day(year: i32, month: i32, day: i32) -> i32 {
+        super::julian_day(year, month, day)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 017dec5..0140367 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -640,6 +640,47 @@ fn is_in_range(gnd: &GregorianNormalizedDate) -> bool {
     (MIN_GND..=MAX_GND).contains(gnd)
 }
 
+#[cfg(momentous_verify)]
+impl DateTime {
+    pub fn verify_pack(
+        precision: u8,
+        date: crate::verify_hooks::Date,
+        second: u32,
+        nanosecond: u32,
+    ) -> (u64, u16) {
+        let precision = match precision {
+            0 => Precision::Millennia,
+            1 => Precision::Centuries,
+            2 => Precision::Decades,
+            3 => Precision::Years,
+            4 => Precision::Months,
+            5 => Precision::Weeks,
+            6 => Precision::Days,
+            7 => Precision::Hours,
+            8 => Precision::Minutes,
+            9 => Precision::Seconds,
+            10 => Precision::Milliseconds,
+            11 => Precision::Microseconds,
+            _ => Precision::Nanoseconds,
+        };
+        Self::pack(precision, date.0, second, nanosecond)
+    }
+
+    pub fn verify_unpack(w0: u64, w1: u16) -> (u8, crate::verify_hooks::Date, u32, u32) {
+        let (precision, date, second, nanosecond) = Self::unpack(w0, w1);
+        (
+            precision as u8,
+            crate::verify_hooks::Date(date),
+            second,
+            nanosecond,
+        )
+    }
+
+    pub fn verify_words(&self) -> (u64, u16) {
+        (self.w0, self.w1)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index e4b2eb8..99b174f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// The verification harnesses build with this flag.
+#![allow(unexpected_cfgs)]
+
 pub use duration::{Duration, DurationNs128};
 pub use instant::{Instant, InstantNs128, InstantOutOfRange};
 pub use scale::{Nanoseconds, Scale};
@@ -13,6 +16,9 @@ mod least_common_width;
 mod period;
 mod scale;
 mod slice_cursor;
+#[cfg(momentous_verify)]
+#[doc(hidden)]
+pub mod verify_hooks;
 mod widen;
 mod zoneinfo;
 
diff --git a/src/verify_hooks.rs b/src/verify_hooks.rs
new file mode 100644
index 0000000..b532081
--- /dev/null
+++ b/src/verify_hooks.rs
@@ -0,0 +1,244 @@
+//! Access to crate-internal items for the verification harnesses. Only compiled with
+//! `--cfg momentous_verify`.
+use std::cmp::Ordering;
+use std::num::NonZeroUsize;
+
+use numcmp::NumCmp;
+
+use crate::cursor::{Cursor, CursorPosition, CursorWithPosition};
+use crate::div_rem::RemFloor;
+use crate::gregorian_normalized_date::{Error, GregorianNormalizedDate};
+use crate::instant::Tick;
+use crate::iso8601::Chronology;
+use crate::least_common_width::LeastCommonWidth;
+use crate::slice_cursor::SliceCursor;
+use crate::zoneinfo::{ContinuousTimeSegment, SegmentLookupResult};
+use crate::{Duration, Instant, Scale};
+
+pub use crate::instant::verify_hooks::*;
+pub use crate::scale::{Milliseconds, Seconds};
+
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub struct Date(pub(crate) GregorianNormalizedDate);
+
+pub enum DateError {
+    Invalid,
+    OutOfBounds,
+}
+
+impl Date {
+    pub fn new(cycle: i8, century: u8, quadrennium: u8, year: u8, day: u16) -> Self {
+        Date(GregorianNormalizedDate {
+            cycle,
+            century,
+            quadrennium,
+            year,
+            day,
+        })
+    }
+
+    pub fn parts(&self) -> (i8, u8, u8, u8, u16) {
+        let d = &self.0;
+        (d.cycle, d.century, d.quadrennium, d.year, d.day)
+    }
+
+    pub fn from_day(day: i32) -> Option<Self> {
+        GregorianNormalizedDate::from_day(day).map(Date)
+    }
+
+    pub fn to_day(&self) -> i32 {
+        self.0.to_day()
+    }
+
+    pub fn from_date(year: i32, month: u8, day: u8) -> Result<Self, DateError> {
+        match GregorianNormalizedDate::from_date(year, month, day) {
+            Ok(d) => Ok(Date(d)),
+            Err(Error::InvalidDate) => Err(DateError::Invalid),
+            Err(Error::DateOutOfBounds) => Err(DateError::OutOfBounds),
+        }
+    }
+
+    pub fn to_date(&self) -> (u16, u8, u8) {
+        self.0.to_date()
+    }
+
+    pub fn year(&self) -> i32 {
+        self.0.unnormalized_year()
+    }
+
+    pub fn month(&self) -> u8 {
+        self.0.unnormalized_month()
+    }
+
+    pub fn day(&self) -> u8 {
+        self.0.unnormalized_day()
+    }
+
+    pub fn is_leap_year(&self) -> bool {
+        self.0.is_unnormalized_leap_year()
+    }
+
+    pub fn add_years(&mut self, years: i16) -> bool {
+        self.0.add_years(years)
+    }
+
+    pub fn add_months(&mut self, months: i32) -> u8 {
+        self.0.add_months(months)
+    }
+
+    pub fn add_days(&mut self, days: i32) -> bool {
+        self.0.add_days(days).is_ok()
+    }
+
+    pub fn order(&self, other: &Self) -> (Option<Ordering>, Ordering) {
+        (self.0.partial_cmp(&other.0), self.0.cmp(&other.0))
+    }
+}
+
+pub struct SliceWalk<'a>(SliceCursor<'a, u32>);
+
+/// -1 before the first element, the length after the last.
+fn position(pos: CursorPosition, len: usize) -> isize {
+    match pos {
+        CursorPosition::Start => -1,
+        CursorPosition::Pos(pos) => pos as isize,
+        CursorPosition::End => len as isize,
+    }
+}
+
+impl<'a> SliceWalk<'a> {
+    pub fn at_start(slice: &'a [u32]) -> Self {
+        SliceWalk(SliceCursor::at_start(slice))
+    }
+
+    pub fn at_end(slice: &'a [u32]) -> Self {
+        SliceWalk(SliceCursor::at_end(slice))
+    }
+
+    pub fn with_pos(slice: &'a [u32], pos: usize) -> Self {
+        SliceWalk(SliceCursor::with_pos(slice, pos))
+    }
+
+    pub fn next(&mut self) -> Option<u32> {
+        self.0.next().copied()
+    }
+
+    pub fn prev(&mut self) -> Option<u32> {
+        self.0.prev().copied()
+    }
+
+    pub fn current(&self) -> Option<u32> {
+        self.0.current().copied()
+    }
+
+    pub fn peek_next(&self) -> Option<u32> {
+        self.0.peek_next().copied()
+    }
+
+    pub fn peek_prev(&self) -> Option<u32> {
+        self.0.peek_prev().copied()
+    }
+
+    pub fn advance_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
+        self.0.advance_by(n)
+    }
+
+    pub fn revert_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
+        self.0.revert_by(n)
+    }
+
+    pub fn is_at_start(&self) -> bool {
+        Cursor::at_start(&self.0)
+    }
+
+    pub fn is_at_end(&self) -> bool {
+        Cursor::at_end(&self.0)
+    }
+
+    pub fn pos(&self, len: usize) -> isize {
+        position(self.0.pos(), len)
+    }
+
+    pub fn set_pos(&mut self, pos: isize, len: usize) {
+        self.0.set_pos(if pos < 0 {
+            CursorPosition::Start
+        } else if pos as usize == len {
+            CursorPosition::End
+        } else {
+            CursorPosition::Pos(pos as usize)
+        })
+    }
+}
+
+/// Start instant, start day, days, leap seconds and accumulated leap seconds of a segment.
+pub type Segment = (i32, u32, u32, i8, i32);
+
+fn segment(s: &ContinuousTimeSegment) -> Segment {
+    (
+        s.start_instant.ticks,
+        s.start_day,
+        s.duration_days,
+        s.leap_seconds,
+        s.accumulated_leap_seconds,
+    )
+}
+
+/// -1, 0 or 1 for before the first segment, in a segment, and after the last.
+fn lookup(result: SegmentLookupResult) -> (i8, Segment) {
+    match result {
+        SegmentLookupResult::BeforeFirst(s) => (-1, segment(s)),
+        SegmentLookupResult::In(s) => (0, segment(s)),
+        SegmentLookupResult::AfterLast(s) => (1, segment(s)),
+    }
+}
+
+pub fn segments(chronology: &Chronology) -> Vec<Segment> {
+    chronology.leap_seconds().0.iter().map(segment).collect()
+}
+
+pub fn segment_ends(chronology: &Chronology) -> Vec<(u32, i32)> {
+    let segments = chronology.leap_seconds().0.iter();
+    segments
+        .map(|s| (s.end_day(), s.end_instant().ticks))
+        .collect()
+}
+
+pub fn by_day(chronology: &Chronology, day: i32) -> (i8, Segment) {
+    lookup(chronology.leap_seconds().by_day(day))
+}
+
+pub fn by_instant<T: Tick + NumCmp<i32>, S: Scale>(
+    chronology: &Chronology,
+    instant: Instant<T, S>,
+) -> (i8, Segment) {
+    lookup(chronology.leap_seconds().by_instant(instant))
+}
+
+pub fn leap_second_adjustment(unix_timestamp: i64) -> i32 {
+    crate::zoneinfo::get_leap_second_adjustment_for_unix_timestamp(unix_timestamp)
+}
+
+pub fn least_common_width<A, B: Tick, O: Tick>(a: A, b: B) -> (O, O)
+where
+    A: LeastCommonWidth<B, Output = O>,
+{
+    a.least_common_width(b)
+}
+
+pub fn duration<T: Tick, S: Scale>(ticks: T) -> Duration<T, S> {
+    Duration::new(ticks)
+}
+
+pub fn duration_ticks<T: Tick, S: Scale>(duration: Duration<T, S>) -> T {
+    duration.ticks()
+}
+
+pub fn duration_from<T: Tick, T2: Tick + Into<T>, S: Scale>(
+    duration: Duration<T2, S>,
+) -> Duration<T, S> {
+    <Duration<T, S>>::from(duration)
+}
+
+pub fn rem_floor<T: RemFloor>(a: T, b: T) -> T {
+    a.rem_floor(b)
+}
-- 
2.43.0


From 7cc1090d36f3ffcf204298774d7cb61a0007c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:53 +0000
Subject: [PATCH 15/20] fix: honour a TZDIR that is not valid Unicode

---
 src/zoneinfo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index b64d7ff..63eb5db 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -40,8 +40,8 @@ fn tzdir() -> PathBuf {
     // We could try to be more clever here (look for the root directory that /etc/localtime points
     // to, check if /etc/zoneinfo has anything, etc), but the logic here appears to be what
     // the C library does so we probably shouldn't deviate too much from that behavior.
-    std::env::var("TZDIR")
-        .unwrap_or_else(|_| "/usr/share/zoneinfo".to_string())
+    std::env::var_os("TZDIR")
+        .unwrap_or_else(|| "/usr/share/zoneinfo".into())
         .into()
 }
 
-- 
2.43.0


From 6c3bf1d0497d4d7abc1908027b4546c32d8b0e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:54 +0000
Subject: [PATCH 16/20] fix: refuse a cursor position beyond the slice

---
 src/slice_cursor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/slice_cursor.rs b/src/slice_cursor.rs
index 3e66616..b527c88 100644
--- a/src/slice_cursor.rs
+++ b/src/slice_cursor.rs
@@ -141,7 +141,10 @@ impl<'a, T> CursorWithPosition for SliceCursor<'a, T> {
         match pos {
             CursorPosition::Start => self.pos = 0,
             CursorPosition::End => self.pos = self.slice.len() + 1,
-            CursorPosition::Pos(pos) => self.pos = pos + 1,
+            CursorPosition::Pos(pos) => {
+                assert!(pos < self.slice.len(), "Position out of bounds");
+                self.pos = pos + 1
+            }
         }
     }
 }
-- 
2.43.0


From 9da06a4c31c22a0d479017f608e12195f686b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:55 +0000
Subject: [PATCH 17/20] fix: build dates of year and month precision

---
 src/iso8601/date_time_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time_builder.rs b/src/iso8601/date_time_builder.rs
index a41990b..37291c8 100644
--- a/src/iso8601/date_time_builder.rs
+++ b/src/iso8601/date_time_builder.rs
@@ -141,12 +141,12 @@ impl DateTimeBuilder {
         let month = if precision >= Precision::Months {
             self.month.expect("No month provided")
         } else {
-            0
+            1
         };
         let day = if precision >= Precision::Days {
             self.day.expect("No day provided")
         } else {
-            0
+            1
         };
         let hour = if precision >= Precision::Hours {
             self.hour.expect("No hour provided")
-- 
2.43.0


From f3e542d372fe59a10138a4eca55aa1e410cbfed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:55 +0000
Subject: [PATCH 18/20] fix: convert the earliest system time

---
 src/instant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/instant.rs b/src/instant.rs
index a2c3cc5..4c0dac6 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -382,7 +382,8 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     let mut seconds = duration.as_secs() as i64;
     let mut nanoseconds = duration.subsec_nanos();
     if sign {
-        seconds = -seconds;
+        // The earliest system time is 2^63 seconds before the epoch, which the cast has wrapped already.
+        seconds = seconds.wrapping_neg();
         if nanoseconds > 0 {
             // The nanoseconds count forward from the second, so we need to round down.
             seconds -= 1;
-- 
2.43.0


From 2d051851a98b050f9f145801e64b25e1d918ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:56 +0000
Subject: [PATCH 19/20] fix: convert system times whose intermediate values
 overflow

---
 src/instant.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 4c0dac6..1494379 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -343,27 +343,22 @@ impl<T: Tick, S: Scale> TryFrom<SystemTime> for Instant<T, S> {
     type Error = std::time::SystemTimeError;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
-        let ticks_per_second =
-            T::from(S::TICKS_PER_SECOND).expect("ticks per second is too large for type T)");
-        let nanoseconds_per_second =
-            T::from(1_000_000_000).expect("nanoseconds per second is too large for type T)");
-        let nanoseconds_per_tick = nanoseconds_per_second / ticks_per_second;
+        // Intermediate values can be too large for type T (or an i64) even if the instant isn't.
+        let ticks_per_second = S::TICKS_PER_SECOND as i128;
+        let nanoseconds_per_tick = 1_000_000_000 / ticks_per_second;
 
-        let (mut seconds, subsecond_ns) = system_time_to_time_t(value);
+        let (seconds, subsecond_ns) = system_time_to_time_t(value);
+        let mut total_seconds = seconds as i128;
         if !system_time_includes_leap_seconds() {
-            seconds += get_leap_second_adjustment_for_unix_timestamp(seconds) as i64;
+            total_seconds += get_leap_second_adjustment_for_unix_timestamp(seconds) as i128;
         }
 
-        // FIXME report proper error here
-        let seconds = T::from(seconds).unwrap();
-        // FIXME and here
-        let subsecond_ns = T::from(subsecond_ns).unwrap();
-
-        let subsec_ticks = subsecond_ns / nanoseconds_per_tick;
-        let total_ticks = seconds * ticks_per_second + subsec_ticks;
+        let subsec_ticks = subsecond_ns as i128 / nanoseconds_per_tick;
+        let total_ticks = total_seconds * ticks_per_second + subsec_ticks;
 
         Ok(Instant::<T, S> {
-            ticks: total_ticks,
+            // FIXME report proper error here
+            ticks: T::from(total_ticks).unwrap(),
             phantom: PhantomData,
         })
     }
-- 
2.43.0


From c10107eeff05a98897b54fe6e37204719d87fd7e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:45:23 +0000
Subject: [PATCH 20/20] verify: hooks for cursor positions beyond the slice and
 for any pair of widths

---
 src/verify_hooks.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/verify_hooks.rs b/src/verify_hooks.rs
index b532081..0f22b19 100644
--- a/src/verify_hooks.rs
+++ b/src/verify_hooks.rs
@@ -101,7 +101,8 @@ pub struct SliceWalk<'a>(SliceCursor<'a, u32>);
 fn position(pos: CursorPosition, len: usize) -> isize {
     match pos {
         CursorPosition::Start => -1,
-        CursorPosition::Pos(pos) => pos as isize,
+        CursorPosition::Pos(pos) if pos < len => pos as isize,
+        CursorPosition::Pos(_) => isize::MIN,
         CursorPosition::End => len as isize,
     }
 }
@@ -225,6 +226,36 @@ where
     a.least_common_width(b)
 }
 
+/// A value that fits one of them.
+pub type Value = (Option<i128>, Option<u128>);
+
+fn value<T: Tick>(ticks: T) -> Value {
+    (ticks.to_i128(), ticks.to_u128())
+}
+
+/// The pairs of types that widen, whichever they are.
+pub trait Widens<B: Tick>: Tick {
+    fn widened(self) -> Value;
+}
+
+impl<A: crate::widen::Widen<B>, B: Tick> Widens<B> for A {
+    fn widened(self) -> Value {
+        value(crate::widen::Widen::<B>::widen(self))
+    }
+}
+
+/// The pairs of types that have a common width, whichever they are.
+pub trait Common<B: Tick>: Tick {
+    fn common(self, other: B) -> (Value, Value);
+}
+
+impl<A: LeastCommonWidth<B>, B: Tick> Common<B> for A {
+    fn common(self, other: B) -> (Value, Value) {
+        let (a, b) = self.least_common_width(other);
+        (value(a), value(b))
+    }
+}
+
 pub fn duration<T: Tick, S: Scale>(ticks: T) -> Duration<T, S> {
     Duration::new(ticks)
 }
-- 
2.43.0


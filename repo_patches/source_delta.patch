From 77fd04b986235afa3114eb11886a457017c1eca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 01/14] fix: SHL/SHR by at least the operand width yields 0

Shifting by the width or more panicked with overflow checks and wrapped the
count without them, so SHL(x, 8) on a BYTE returned x.
---
 src/bit_shift_functions.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bit_shift_functions.rs b/src/bit_shift_functions.rs
index 48510fc..e34bd39 100644
--- a/src/bit_shift_functions.rs
+++ b/src/bit_shift_functions.rs
@@ -4,56 +4,56 @@
 #[no_mangle]
 /// Shift left operation on bytes
 pub fn SHL__BYTE(input: u8, n: u32) -> u8 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on word
 pub fn SHL__WORD(input: u16, n: u32) -> u16 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on dword
 pub fn SHL__DWORD(input: u32, n: u32) -> u32 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on lword
 pub fn SHL__LWORD(input: u64, n: u32) -> u64 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on bytes
 pub fn SHR__BYTE(input: u8, n: u32) -> u8 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on word
 pub fn SHR__WORD(input: u16, n: u32) -> u16 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on dword
 pub fn SHR__DWORD(input: u32, n: u32) -> u32 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on lword
 pub fn SHR__LWORD(input: u64, n: u32) -> u64 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
-- 
2.43.0


From a70e3907b9b6d43f8408453da6dd769c67bab415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 02/14] fix: DELETE and REPLACE reject negative counts in every
 build profile

A negative count was converted to a huge usize; with overflow checks off the
bounds check wrapped around and accepted it.
---
 src/string_functions.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index dfbb925..da46ab1 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -507,6 +507,9 @@ pub unsafe extern "C" fn DELETE_EXT__STRING(
     pos: i32,
     dest: *mut u8,
 ) -> i32 {
+    if num_chars_to_delete < 0 {
+        panic!("Number of characters cannot be negative.");
+    }
     let mut dest = dest;
     let nchars = EncodedCharsIter::decode(src).count();
     if pos < 1 || pos > nchars as i32 {
@@ -550,6 +553,9 @@ pub unsafe extern "C" fn DELETE_EXT__WSTRING(
     pos: i32,
     dest: *mut u16,
 ) -> i32 {
+    if num_chars_to_delete < 0 {
+        panic!("Number of characters cannot be negative.");
+    }
     let mut dest = dest;
     let nchars = EncodedCharsIter::decode(src).count();
     if pos < 1 || pos > nchars as i32 {
@@ -595,6 +601,9 @@ pub unsafe extern "C" fn REPLACE_EXT__STRING(
     pos: i32,
     dest: *mut u8,
 ) -> i32 {
+    if num_chars_to_replace < 0 {
+        panic!("Number of characters cannot be negative.");
+    }
     let mut dest = dest;
     let nbase = EncodedCharsIter::decode(src_base).count();
     if pos < 1 || pos > nbase as i32 {
@@ -643,6 +652,9 @@ pub unsafe extern "C" fn REPLACE_EXT__WSTRING(
     pos: i32,
     dest: *mut u16,
 ) -> i32 {
+    if num_chars_to_replace < 0 {
+        panic!("Number of characters cannot be negative.");
+    }
     let mut dest = dest;
     let nbase = EncodedCharsIter::decode(src_base).count();
     if pos < 1 || pos > nbase as i32 {
-- 
2.43.0


From e87ce1e6ec673d483b142a71e10cf44b39ed51e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:00 +0000
Subject: [PATCH 03/14] fix: CONCAT without arguments terminates the
 destination

---
 src/string_functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index da46ab1..384ed8e 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -727,6 +727,8 @@ pub unsafe extern "C" fn CONCAT_EXT__STRING(
         EncodedCharsIter::decode(*argv).encode(&mut dest);
         argv = argv.add(1);
     }
+    // without arguments nothing has been terminated yet
+    *dest = 0;
 
     0
 }
@@ -775,6 +777,8 @@ pub unsafe extern "C" fn CONCAT_EXT__WSTRING(
         EncodedCharsIter::decode(*argv).encode(&mut dest);
         argv = argv.add(1);
     }
+    // without arguments nothing has been terminated yet
+    *dest = 0;
 
     0
 }
-- 
2.43.0


From 8b05e5eaf9f379808b6980053cb78e31882d23e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 04/14] fix: STRING_TO_WSTRING terminates the destination

---
 src/string_conversion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/string_conversion.rs b/src/string_conversion.rs
index 2b18a2e..3a002fd 100644
--- a/src/string_conversion.rs
+++ b/src/string_conversion.rs
@@ -39,6 +39,7 @@ pub unsafe extern "C" fn STRING_TO_WSTRING_EXT(src: *const u8, dest: *mut u16) -
             dest = dest.add(1);
         }
     }
+    *dest = 0;
 
     0
 }
-- 
2.43.0


From b54b611fbb5374a15e97c3f2562f60f8c835a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:08 +0000
Subject: [PATCH 05/14] fix: zero-initialized timer instances are not running

---
 src/timers.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 1661c8d..0d57619 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -20,6 +20,9 @@ pub struct TimerParams {
     output: bool,
     elapsed_time: Time,
     input_edge: Signal,
+    /// ST programs zero-initialize their instances, but an `Option<Instant>` of zeros is not `None`:
+    /// the start time only counts while this flag is set
+    running: bool,
     start_time: Option<Instant>,
 }
 
@@ -28,15 +31,17 @@ impl TimerParams {
     /// It does not take into consideration the preset/range for the timer
     /// Only if a start time has been set.
     fn is_running(&self) -> bool {
-        self.start_time.is_some()
+        self.running
     }
 
     fn start(&mut self) {
+        self.running = true;
         self.start_time = Some(Instant::now());
         self.set_elapsed_time(0);
     }
 
     fn reset(&mut self) {
+        self.running = false;
         self.start_time = None;
         self.set_elapsed_time(0);
     }
@@ -63,7 +68,9 @@ impl TimerParams {
     }
 
     fn get_run_time(&self) -> Option<Duration> {
-        self.start_time.map(|it| it.elapsed())
+        self.start_time
+            .filter(|_| self.running)
+            .map(|it| it.elapsed())
     }
 
     fn set_output(&mut self, value: bool) {
-- 
2.43.0


From c65b8aad5f5798032913a44a70b95c5bb7cd7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:29 +0000
Subject: [PATCH 06/14] fix: TP accepts calls on an idle timer and ends pulses
 whose input fell early

---
 src/timers.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 0d57619..b8b29f5 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -89,23 +89,30 @@ impl TimerParams {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn TP(timer: &mut TimerParams) {
+    let rising_edge = timer.input_rising_edge();
     //If timer is active (start time set)
     let output = if timer.is_running() {
         timer.update_elapsed_time();
         // If time elapsed within range
         if timer.is_in_preset_range() {
             true
+        } else if rising_edge {
+            //The last pulse is over, a new one starts
+            timer.start();
+            true
         } else {
-            if timer.input_falling_edge() {
+            //The input may have fallen at any time since the pulse started
+            if !timer.input {
                 timer.reset()
             }
             false
         }
-    } else if timer.input_rising_edge() {
+    } else if rising_edge {
         timer.start();
         true
     } else {
-        unreachable!("We should not get here, if we do write the failing test for it.")
+        //Nothing to do until the next rising edge
+        false
     };
     timer.set_output(output);
     timer.input_edge.set(timer.input);
-- 
2.43.0


From 4f405ea8823e25b6587f91d06b8b1eb10a4f3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:00 +0000
Subject: [PATCH 07/14] fix: CONCAT_TOD rejects 1000 and more milliseconds at
 second 59

---
 src/date_time_extra_functions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 2fe83b9..f11fac3 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -162,7 +162,9 @@ pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn concat_tod(in1: u32, in2: u32, in3: u32, in4: u32) -> i64 {
+    // chrono reads 1000..1999 milliseconds of second 59 as a leap second
     let dt = NaiveDate::from_ymd_opt(1970, 1, 1)
+        .filter(|_| in4 < 1000)
         .and_then(|date| date.and_hms_milli_opt(in1, in2, in3, in4))
         .expect("Invalid parameters, cannot create TOD");
     dt.timestamp_nanos()
-- 
2.43.0


From 5c0a749d8d1f05ea763ab171ee4d1b1f55bc5b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:09 +0000
Subject: [PATCH 08/14] fix: LINT/ULINT variants of CONCAT_DATE and CONCAT_TOD
 do not truncate their fields

---
 src/date_time_extra_functions.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index f11fac3..fcc8ca7 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -60,7 +60,12 @@ pub extern "C" fn CONCAT_DATE__UDINT(in1: u32, in2: u32, in3: u32) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    // a value which does not fit is not part of any date -> panic
+    concat_date(
+        in1.try_into().expect("Invalid year, cannot create date"),
+        in2.try_into().expect("Invalid month, cannot create date"),
+        in3.try_into().expect("Invalid day, cannot create date"),
+    )
 }
 
 /// .
@@ -69,7 +74,12 @@ pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__ULINT(in1: u64, in2: u64, in3: u64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    // a value which does not fit is not part of any date -> panic
+    concat_date(
+        in1.try_into().expect("Invalid year, cannot create date"),
+        in2.try_into().expect("Invalid month, cannot create date"),
+        in3.try_into().expect("Invalid day, cannot create date"),
+    )
 }
 
 /// .
@@ -144,7 +154,13 @@ pub extern "C" fn CONCAT_TOD__UDINT(in1: u32, in2: u32, in3: u32, in4: u32) -> i
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    // a value which does not fit is not part of any time of day -> panic
+    concat_tod(
+        in1.try_into().expect("Invalid hour, cannot create TOD"),
+        in2.try_into().expect("Invalid minute, cannot create TOD"),
+        in3.try_into().expect("Invalid second, cannot create TOD"),
+        in4.try_into().expect("Invalid millisecond, cannot create TOD"),
+    )
 }
 
 /// .
@@ -153,7 +169,13 @@ pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i6
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    // a value which does not fit is not part of any time of day -> panic
+    concat_tod(
+        in1.try_into().expect("Invalid hour, cannot create TOD"),
+        in2.try_into().expect("Invalid minute, cannot create TOD"),
+        in3.try_into().expect("Invalid second, cannot create TOD"),
+        in4.try_into().expect("Invalid millisecond, cannot create TOD"),
+    )
 }
 
 /// .
-- 
2.43.0


From cf06f2cb4727a4b21fa3be24a4e0412b91079375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:16 +0000
Subject: [PATCH 09/14] fix: *_TO_STRING conversions terminate their result

---
 src/extra_functions.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 441fe5c..bb3c01f 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -24,7 +24,7 @@ const DEFAULT_STRING_LEN: usize = 81;
 pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -36,7 +36,7 @@ pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -47,7 +47,7 @@ pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
 #[no_mangle]
 pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -60,9 +60,9 @@ pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
     if input.floor() < 1e14 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -78,9 +78,9 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
 
     // TODO: discuss when scientific notation should be displayed
     if input.floor() < 1e6 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -218,7 +218,7 @@ pub unsafe extern "C" fn DT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}-{time}").unwrap();
+    write!(&mut *buf, "{date}-{time}\0").unwrap();
 
     0
 }
@@ -232,7 +232,7 @@ pub unsafe extern "C" fn DATE_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let date = datetime.to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}").unwrap();
+    write!(&mut *buf, "{date}\0").unwrap();
 
     0
 }
@@ -246,7 +246,7 @@ pub unsafe extern "C" fn TOD_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{time}").unwrap();
+    write!(&mut *buf, "{time}\0").unwrap();
 
     0
 }
-- 
2.43.0


From c8ddeea2916f4ed021f901139c5f853bb5bad997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:20 +0000
Subject: [PATCH 10/14] fix: REAL/LREAL_TO_STRING use exponent notation for
 large negative values

---
 src/extra_functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index bb3c01f..bacdbed 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -59,7 +59,7 @@ pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
-    if input.floor() < 1e14 {
+    if input.abs().floor() < 1e14 {
         write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}\0").unwrap()
@@ -77,7 +77,7 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     // float: 23 bits are used for the mantissa (about 7 decimal digits)
 
     // TODO: discuss when scientific notation should be displayed
-    if input.floor() < 1e6 {
+    if input.abs().floor() < 1e6 {
         write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}\0").unwrap()
-- 
2.43.0


From 3bb37ea30dbab028b3a80681249eaec7fd87c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 11/14] fix: TIME_TO_STRING handles negative and zero durations
 and terminates its result

---
 src/extra_functions.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index bacdbed..ae29f25 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -172,20 +172,26 @@ pub extern "C" fn TIME() -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
-    let mut dest = dest;
+    let mut buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     let literals = parse_timestamp(input);
+    if input < 0 {
+        write!(buf, "-").unwrap();
+    }
     literals.iter().filter(|&it| it.0 != 0).for_each(|it| {
-        let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-        write!(&mut *buf, "{}{}", it.0, it.1).unwrap();
-        let idx = buf.iter().position(|&c| c == 0).unwrap();
-        dest = dest.add(idx);
+        write!(buf, "{}{}", it.0, it.1).unwrap();
     });
+    if input == 0 {
+        write!(buf, "0ns").unwrap();
+    }
+    write!(buf, "\0").unwrap();
 
     0
 }
 
+/// the components of the timestamp's magnitude
 fn parse_timestamp<'a>(timestamp_nanos: i64) -> [(u32, &'a str); 7] {
-    let datetime = chrono::Utc.timestamp_nanos(timestamp_nanos);
+    let nanos_per_day = 1e9 as i64 * 3600 * 24;
+    let datetime = chrono::Utc.timestamp_nanos((timestamp_nanos % nanos_per_day).abs());
     let (nanos, micros, millis, seconds, minutes, hours) = (
         datetime.timestamp_subsec_nanos() % 1000,
         datetime.timestamp_subsec_micros() % 1000,
@@ -194,8 +200,7 @@ fn parse_timestamp<'a>(timestamp_nanos: i64) -> [(u32, &'a str); 7] {
         datetime.minute(),
         datetime.hour(),
     );
-    let nanos_per_day = 1e9 as i64 * 3600 * 24;
-    let days = (timestamp_nanos / nanos_per_day) as u32;
+    let days = (timestamp_nanos / nanos_per_day).unsigned_abs() as u32;
 
     [
         (days, "d"),
-- 
2.43.0


From ec60ea34af80d098919fe9f0da295fcdc67c18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:02 +0000
Subject: [PATCH 12/14] fix: SPLIT_LDT__* were declared external although
 nothing provides them; use their ST bodies

---
 iec61131-st/date_time_extra_functions.st | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/iec61131-st/date_time_extra_functions.st b/iec61131-st/date_time_extra_functions.st
index bc28622..da876c3 100644
--- a/iec61131-st/date_time_extra_functions.st
+++ b/iec61131-st/date_time_extra_functions.st
@@ -796,7 +796,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for INT *)
-{external}
 FUNCTION SPLIT_LDT__INT : INT
 VAR_INPUT
 	in : LDT;
@@ -814,7 +813,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UINT *)
-{external}
 FUNCTION SPLIT_LDT__UINT : INT
 VAR_INPUT
 	in : LDT;
@@ -832,7 +830,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for DINT *)
-{external}
 FUNCTION SPLIT_LDT__DINT : INT
 VAR_INPUT
 	in : LDT;
@@ -850,7 +847,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UDINT *)
-{external}
 FUNCTION SPLIT_LDT__UDINT : INT
 VAR_INPUT
 	in : LDT;
@@ -868,7 +864,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for LINT *)
-{external}
 FUNCTION SPLIT_LDT__LINT : INT
 VAR_INPUT
 	in : LDT;
@@ -886,7 +881,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for ULINT *)
-{external}
 FUNCTION SPLIT_LDT__ULINT : INT
 VAR_INPUT
 	in : LDT;
-- 
2.43.0


From e022906b859943786bd2efeccd89a861019809fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 13/14] fix: WSTRING_TO_LINT, _DINT, _LREAL and _REAL decoded
 into an 81-byte text, which non-ASCII input overran

---
 iec61131-st/extra_functions.st | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iec61131-st/extra_functions.st b/iec61131-st/extra_functions.st
index d87365d..5b61abe 100644
--- a/iec61131-st/extra_functions.st
+++ b/iec61131-st/extra_functions.st
@@ -496,7 +496,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_LINT := STRING_TO_LINT(STR);
@@ -676,7 +676,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_DINT := STRING_TO_LINT(STR);
@@ -716,7 +716,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_LREAL := STRING_TO_LREAL(STR);
@@ -732,7 +732,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_REAL := STRING_TO_REAL(STR);
-- 
2.43.0


From b97834c0b350fda6c34f387db552103f9802b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:58 +0000
Subject: [PATCH 14/14] fix: WSTRING_TO_DINT truncated numbers beyond DINT that
 STRING_TO_DINT rejects

---
 iec61131-st/extra_functions.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iec61131-st/extra_functions.st b/iec61131-st/extra_functions.st
index 5b61abe..8cf55f7 100644
--- a/iec61131-st/extra_functions.st
+++ b/iec61131-st/extra_functions.st
@@ -679,7 +679,7 @@ VAR_TEMP
     STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
-    WSTRING_TO_DINT := STRING_TO_LINT(STR);
+    WSTRING_TO_DINT := STRING_TO_DINT(STR);
 END_FUNCTION
 
 (******************************************************************************
-- 
2.43.0


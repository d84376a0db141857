From ff6cd72db07e9ef714ed2034e249b1c6f2979c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 01/42] fix: reject UUID strings with characters other than
 hexadecimal digits and dashes

---
 keramics-types/src/uuid.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-types/src/uuid.rs b/keramics-types/src/uuid.rs
index 30601bc..faf1ad5 100644
--- a/keramics-types/src/uuid.rs
+++ b/keramics-types/src/uuid.rs
@@ -83,6 +83,12 @@ impl Uuid {
         if string_length != 36 {
             return Err(ParseError::new(format!("Unsupported string length")));
         }
+        if !string
+            .bytes()
+            .all(|byte_value| byte_value == b'-' || byte_value.is_ascii_hexdigit())
+        {
+            return Err(ParseError::new(format!("Unsupported string")));
+        }
         if &string[8..9] != "-"
             || &string[13..14] != "-"
             || &string[18..19] != "-"
-- 
2.43.0


From 367dca044525fccbf281634005ba2131b00b5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 02/42] fix: ignore a trailing odd byte when reading 16-bit
 strings from bytes

---
 keramics-types/src/ucs2_string.rs  | 6 +++---
 keramics-types/src/utf16_string.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/keramics-types/src/ucs2_string.rs b/keramics-types/src/ucs2_string.rs
index cab4401..d32e075 100644
--- a/keramics-types/src/ucs2_string.rs
+++ b/keramics-types/src/ucs2_string.rs
@@ -50,7 +50,7 @@ impl Ucs2String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size.saturating_sub(1)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_be!(data, data_offset);
             if value_16bit == 0 {
                 break;
@@ -65,7 +65,7 @@ impl Ucs2String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size.saturating_sub(1)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
             if value_16bit == 0 {
                 break;
@@ -91,7 +91,7 @@ impl Ucs2String {
     pub fn read_data_le(&mut self, data: &[u8]) {
         let data_size: usize = data.len();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size.saturating_sub(1)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
             if value_16bit == 0 {
                 break;
diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index 306b23b..3b7c901 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -33,7 +33,7 @@ impl Utf16String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size.saturating_sub(1)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_be!(data, data_offset);
             if value_16bit == 0 {
                 break;
@@ -48,7 +48,7 @@ impl Utf16String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size.saturating_sub(1)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
             if value_16bit == 0 {
                 break;
-- 
2.43.0


From 26430ff8b5af66386d2cfb88a3183bd7e8bc4665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 03/42] fix: do not panic when converting UTF-16 with unpaired
 surrogates

---
 keramics-types/src/utf16_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index 3b7c901..9188447 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -60,7 +60,7 @@ impl Utf16String {
 
     /// Converts the UTF-16 string to a `String`.
     pub fn to_string(&self) -> String {
-        String::from_utf16(&self.elements).unwrap()
+        String::from_utf16_lossy(&self.elements)
     }
 }
 
-- 
2.43.0


From 5f8f2aeff0a7660fec5f2a20096b077971512b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 04/42] fix: advance the ASCII encoder past a code point that
 cannot be encoded

---
 keramics-encodings/src/ascii.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-encodings/src/ascii.rs b/keramics-encodings/src/ascii.rs
index ebfbf97..515f167 100644
--- a/keramics-encodings/src/ascii.rs
+++ b/keramics-encodings/src/ascii.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderAscii<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0080 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0080 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 5d12b24bf5f5b08f7d52e81abcf208480cb043b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 05/42] fix: reject overlong and out of range UTF-8 and advance
 past malformed bytes

---
 keramics-encodings/src/utf8.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index eb715ab..83397d2 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -51,7 +51,10 @@ impl<'a> Iterator for DecoderUtf8<'a> {
             }
             None => return None,
         };
-        if (byte_value1 >= 0x80 && byte_value1 < 0xc0) || byte_value1 > 0xf4 {
+        // Continue after the first byte if the byte sequence is malformed.
+        self.byte_index = byte_index;
+
+        if (byte_value1 >= 0x80 && byte_value1 < 0xc2) || byte_value1 > 0xf4 {
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
                 byte_value1
@@ -75,6 +78,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 0xe0 => byte_value < 0xa0 || byte_value > 0xbf,
                 0xed => byte_value < 0x80 || byte_value > 0x9f,
                 0xf0 => byte_value < 0x90 || byte_value > 0xbf,
+                0xf4 => byte_value < 0x80 || byte_value > 0x8f,
                 _ => byte_value < 0x80 || byte_value > 0xbf,
             };
             if is_valid {
-- 
2.43.0


From a6869d655061f760f6e1e6ceefa02767544e1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 06/42] fix: do not panic when converting a byte string with
 undecodable bytes

---
 keramics-types/src/byte_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-types/src/byte_string.rs b/keramics-types/src/byte_string.rs
index eea9ce5..6bb8f85 100644
--- a/keramics-types/src/byte_string.rs
+++ b/keramics-types/src/byte_string.rs
@@ -139,7 +139,7 @@ impl ByteString {
                     };
                     string_parts.push(string);
                 }
-                Err(error) => todo!(),
+                Err(_) => string_parts.push(char::REPLACEMENT_CHARACTER.to_string()),
             }
         }
         string_parts.join("")
-- 
2.43.0


From 00d45261cd5a5eed9e0d0dfd366512c59ef06f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 07/42] fix: return an error when the Base64 output buffer is
 too small

---
 keramics-encodings/src/base64.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/base64.rs b/keramics-encodings/src/base64.rs
index b9601da..0aa4335 100644
--- a/keramics-encodings/src/base64.rs
+++ b/keramics-encodings/src/base64.rs
@@ -130,7 +130,14 @@ impl Base64Context {
         let mut data_offset: usize = 0;
 
         while let Some(byte_value) = base64_stream.get_value()? {
-            data[data_offset] = byte_value;
+            match data.get_mut(data_offset) {
+                Some(value) => *value = byte_value,
+                None => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid data value too small"
+                    ));
+                }
+            }
             data_offset += 1;
         }
         self.data_size = data_offset;
-- 
2.43.0


From e5aeadf5b752601c889f4b2db495c8d26ddf73ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 08/42] fix: do not encode unmapped code points as a substitute
 character

---
 keramics-encodings/src/iso8859_2.rs | 6 +++---
 keramics-encodings/src/iso8859_4.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-encodings/src/iso8859_2.rs b/keramics-encodings/src/iso8859_2.rs
index 620a5f4..05762b5 100644
--- a/keramics-encodings/src/iso8859_2.rs
+++ b/keramics-encodings/src/iso8859_2.rs
@@ -288,11 +288,11 @@ impl<'a> EncoderIso8859_2<'a> {
     const BASE_0X02D8: [Option<&'static [u8]>; 8] = [
         Some(&[0xa2]),
         Some(&[0xff]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xb2]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xbd]),
-        Some(&[0x1a]),
+        None,
         None,
     ];
 
diff --git a/keramics-encodings/src/iso8859_4.rs b/keramics-encodings/src/iso8859_4.rs
index f722fcd..5c1ce37 100644
--- a/keramics-encodings/src/iso8859_4.rs
+++ b/keramics-encodings/src/iso8859_4.rs
@@ -303,7 +303,7 @@ impl<'a> EncoderIso8859_4<'a> {
         None,
         Some(&[0xae]),
         Some(&[0xbe]),
-        Some(&[0x1a]),
+        None,
     ];
 
     /// Creates a new encoder.
-- 
2.43.0


From aac75ac7a6fe3d3b3500f81e955ac9272bacd1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 09/42] fix: advance the ISO-8859-1 encoder past a code point
 that cannot be encoded

---
 keramics-encodings/src/iso8859_1.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-encodings/src/iso8859_1.rs b/keramics-encodings/src/iso8859_1.rs
index 7ce7497..c9cf61a 100644
--- a/keramics-encodings/src/iso8859_1.rs
+++ b/keramics-encodings/src/iso8859_1.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderIso8859_1<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0100 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0100 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From b2899b67920c2d7d2a97f4f73d005d53a2c2162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 10/42] fix: calendar dates before the epoch and after year
 9999

Dates before the epoch were off by one or had a day of month of 0 around year
boundaries and dates after the year 9999 caused an out of bounds lookup or an
integer overflow.
---
 keramics-datetime/src/filetime.rs |  2 +-
 keramics-datetime/src/posix.rs    |  4 +-
 keramics-datetime/src/util.rs     | 69 ++++++++++---------------------
 3 files changed, 25 insertions(+), 50 deletions(-)

diff --git a/keramics-datetime/src/filetime.rs b/keramics-datetime/src/filetime.rs
index 59bf610..df389b6 100644
--- a/keramics-datetime/src/filetime.rs
+++ b/keramics-datetime/src/filetime.rs
@@ -57,7 +57,7 @@ impl Filetime {
         let number_of_seconds: u64 = self.timestamp / 10000000;
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(number_of_seconds as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:07}",
             year, month, day_of_month, hours, minutes, seconds, fraction
diff --git a/keramics-datetime/src/posix.rs b/keramics-datetime/src/posix.rs
index a32f7cc..3d1e8c0 100644
--- a/keramics-datetime/src/posix.rs
+++ b/keramics-datetime/src/posix.rs
@@ -60,7 +60,7 @@ impl PosixTime32 {
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(self.timestamp as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
             year, month, day_of_month, hours, minutes, seconds
@@ -103,7 +103,7 @@ impl PosixTime64Ns {
     /// Retrieves an ISO 8601 string representation of the timestamp.
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) = get_time_values(self.timestamp);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}",
             year, month, day_of_month, hours, minutes, seconds, self.fraction
diff --git a/keramics-datetime/src/util.rs b/keramics-datetime/src/util.rs
index 7aeb6a5..971bb4f 100644
--- a/keramics-datetime/src/util.rs
+++ b/keramics-datetime/src/util.rs
@@ -59,7 +59,7 @@ const DAYS_IN_YEAR: [i16; 10000] = calculate_days_in_year_lookup_table();
 /// Retrieves the number of days in a specific year.
 #[inline(always)]
 fn get_days_in_year(year: i16) -> i16 {
-    if year >= 0 && year <= 10000 {
+    if year >= 0 && year < 10000 {
         DAYS_IN_YEAR[year as usize]
     } else if is_leap_year(year) {
         366
@@ -91,7 +91,7 @@ const DAYS_IN_CENTURY: [i32; 100] = calculate_days_in_century_lookup_table();
 /// Retrieves the number of days in a specific century.
 #[inline(always)]
 fn get_days_in_century(year: i16) -> i32 {
-    if year >= 0 && year <= 10000 {
+    if year >= 0 && year < 10000 {
         DAYS_IN_CENTURY[(year / 100) as usize]
     } else if is_leap_year(year) {
         36525
@@ -100,34 +100,27 @@ fn get_days_in_century(year: i16) -> i32 {
     }
 }
 
+/// Number of days in 400 years of the Gregorian calendar.
+const DAYS_IN_400_YEARS: i64 = 146097;
+
 /// Retrieves date values.
-pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8) {
-    let before_epoch: bool = number_of_days < 0;
+pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i64, u8, u8) {
+    // The calendar repeats every 400 years, hence determine the date in the 400 years that
+    // start at the epoch.
+    let number_of_cycles: i64 = number_of_days.div_euclid(DAYS_IN_400_YEARS);
+    number_of_days = number_of_days.rem_euclid(DAYS_IN_400_YEARS);
 
     let mut year: i16 = epoch.year;
     let mut month: u8 = epoch.month;
     number_of_days += epoch.day_of_month as i64;
 
-    if before_epoch {
-        month -= 1;
-
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        }
-        number_of_days *= -1;
-    }
     // Align with the start of the year.
     while month > 1 {
         let days_in_month: i64 = get_days_in_month(year, month) as i64;
         if number_of_days < days_in_month {
             break;
         }
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
+        month += 1;
         if month > 12 {
             month = 1;
             year += 1;
@@ -141,46 +134,27 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
         if number_of_days < days_in_year {
             break;
         }
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
         number_of_days -= days_in_year;
     }
     let mut days_in_century: i64 = get_days_in_century(year) as i64;
     while number_of_days > days_in_century {
-        if before_epoch {
-            year -= 100;
-        } else {
-            year += 100;
-        }
+        year += 100;
         number_of_days -= days_in_century;
 
         days_in_century = get_days_in_century(year) as i64;
     }
     let mut days_in_year: i64 = get_days_in_year(year) as i64;
     while number_of_days > days_in_year {
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
         number_of_days -= days_in_year;
 
         days_in_year = get_days_in_year(year) as i64;
     }
     let mut days_in_month: i64 = get_days_in_month(year, month) as i64;
     while number_of_days > days_in_month {
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        } else if month > 12 {
+        month += 1;
+        if month > 12 {
             month = 1;
             year += 1;
         }
@@ -188,15 +162,16 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
 
         days_in_month = get_days_in_month(year, month) as i64;
     }
-    if before_epoch {
-        let days_in_month: i64 = get_days_in_month(year, month) as i64;
-        number_of_days = days_in_month - number_of_days;
-    } else if number_of_days == 0 {
+    if number_of_days == 0 {
         number_of_days = 31;
         month = 12;
         year -= 1;
     }
-    (year, month, number_of_days as u8)
+    (
+        (year as i64) + (number_of_cycles * 400),
+        month,
+        number_of_days as u8,
+    )
 }
 
 /// Retrieves time values.
-- 
2.43.0


From 229c12b4807d143b33062a820bc0628cde2c7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 11/42] fix: FakeDataStream read across the end of the data
 repeated the data instead of zeros

---
 keramics-core/src/fake_data_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 3d11ec6..1e1f4e6 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -88,9 +88,9 @@ impl DataStream for FakeDataStream {
                 read_remainder_size
             };
             buf_offset += read_count;
-        }
-        self.current_offset += buf_offset as u64;
 
+            self.current_offset += read_count as u64;
+        }
         Ok(buf_offset)
     }
 
-- 
2.43.0


From 2802d1052628be862684c55f1a3fb509c5a5e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 12/42] fix: FakeDataStream seek to a position out of bounds
 wrapped around instead of an error

---
 keramics-core/src/fake_data_stream.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 1e1f4e6..868fca4 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -96,18 +96,20 @@ impl DataStream for FakeDataStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(crate::error_trace_new!(
+                    "Invalid seek position value out of bounds"
+                ));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
-- 
2.43.0


From f9e18d0aea577a04d0a53df429433aa9c86aea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 13/42] fix: debug_format_array panicked on an empty array

---
 keramics-core/src/formatters.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 44ca025..56531e9 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -15,6 +15,10 @@
 pub fn debug_format_array(array: &Vec<String>) -> String {
     // TODO: pass string for indentation?
     let number_of_values: usize = array.len();
+
+    if number_of_values == 0 {
+        return String::from("[]");
+    }
     let string_value: &String = &array[0];
     let mut use_short_hand: bool = true;
 
-- 
2.43.0


From 60fb62dd1c61d3010791bd1b4afb4aee43a3cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 14/42] fix: debug_format_array repeated values of arrays
 larger than and not a multiple of 16

---
 keramics-core/src/formatters.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 56531e9..9c1047f 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -33,11 +33,9 @@ pub fn debug_format_array(array: &Vec<String>) -> String {
     }
     if number_of_values > 16 {
         let mut string_parts: Vec<String> = Vec::new();
-        let last_value_index: usize = number_of_values - 16;
-        for value_index in (0..last_value_index).step_by(16) {
-            string_parts.push(array[value_index..value_index + 16].join(", "));
+        for values in array.chunks(16) {
+            string_parts.push(values.join(", "));
         }
-        string_parts.push(array[last_value_index..].join(", "));
 
         return format!("[\n        {}\n    ]", string_parts.join(",\n        "));
     }
-- 
2.43.0


From 605ca8297c1a2dbb5b6833e7695a15bfbf342608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 15/42] fix: hexdump did not complete a last line of a single
 byte

---
 keramics-core/src/formatters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 9c1047f..7081443 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -117,7 +117,7 @@ pub fn format_as_hexdump(data: &[u8], group: bool) -> String {
         }
         data_offset += 1;
     }
-    if data_size > 0 && character_index > 0 {
+    if data_size > groups_data_size {
         character_index += 1;
 
         for index in character_index..16 {
-- 
2.43.0


From a15145b2d59eca3cb2ba49eee996391041584e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:02 +0000
Subject: [PATCH 16/42] fix: layout maps of signed 8-bit integers did not
 compile

---
 keramics-layout-map/src/structure.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 5e10d77..6542786 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -405,9 +405,8 @@ impl StructureLayoutField {
                 }
                 _ => panic!("Unsupported byte order"),
             },
-            DataType::SignedInteger8Bit | DataType::UnsignedInteger8Bit => {
-                quote!(data[#data_offset])
-            }
+            DataType::SignedInteger8Bit => quote!((data[#data_offset] as i8)),
+            DataType::UnsignedInteger8Bit => quote!(data[#data_offset]),
             DataType::SignedInteger16Bit => match byte_order {
                 &ByteOrder::BigEndian => {
                     quote!(keramics_types::bytes_to_i16_be!(data, #data_offset))
-- 
2.43.0


From f504d4ecf3e5d3a14170832d1cc5d2b98b14b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:02 +0000
Subject: [PATCH 17/42] fix: layout maps overflowed the mask of a bit field of
 64 bits

---
 keramics-layout-map/src/structure.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 6542786..6f161d6 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -667,8 +667,11 @@ impl StructureLayout {
         for bitfield in bitfields_group.bitfields.iter() {
             let field_name: Ident = format_ident!("{}", bitfield.name);
 
-            let bit_mask: usize = (1 << bitfield.number_of_bits) - 1;
-            let bit_mask_literal = Literal::usize_unsuffixed(bit_mask);
+            let bit_mask: u64 = match bitfield.number_of_bits {
+                64 => u64::MAX,
+                number_of_bits => (1 << number_of_bits) - 1,
+            };
+            let bit_mask_literal = Literal::u64_unsuffixed(bit_mask);
             let quote_from_packed_value = if bit_offset == 0 {
                 quote!(#packed_field_name & #bit_mask_literal)
             } else {
-- 
2.43.0


From a917d1e07078f10ec2198cecc786434514e2f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 18/42] fix: layout maps without a byte order of the structure
 were rejected

---
 keramics-layout-map/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-layout-map/src/macros.rs b/keramics-layout-map/src/macros.rs
index 380c6e1..5756785 100644
--- a/keramics-layout-map/src/macros.rs
+++ b/keramics-layout-map/src/macros.rs
@@ -278,7 +278,7 @@ struct StructureOptions {
 impl StructureOptions {
     /// Determines if the options are empty.
     pub fn is_empty(&self) -> bool {
-        return self.byte_order.is_empty() && (self.fields.len() == 0 || self.members.len() == 0);
+        return self.byte_order.is_empty() && self.fields.is_empty() && self.members.is_empty();
     }
 
     /// Parses the byte order.
-- 
2.43.0


From ea70cfe3c9480396b7cc32614952e6e4bd00e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 19/42] fix: modifiers of bit fields were applied to the mask

---
 keramics-compression/src/lzfse.rs    | 4 ++--
 keramics-layout-map/src/structure.rs | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index bf9d1da..82dafa4 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -251,7 +251,7 @@ impl LzfseBlockV1Header {
         field(name = "number_of_literals", data_type = "BitField64<20>"),
         field(name = "literals_data_size", data_type = "BitField64<20>"),
         field(name = "number_of_lmd_values", data_type = "BitField64<20>"),
-        field(name = "literal_bits", data_type = "BitField64<3>", modifier = "- 7"),
+        field(name = "literal_bits", data_type = "BitField64<3>", modifier = "as i64 - 7"),
         field(name = "unknown1", data_type = "BitField64<1>"),
         field(name = "literal_state1", data_type = "BitField64<10>"),
         field(name = "literal_state2", data_type = "BitField64<10>"),
@@ -261,7 +261,7 @@ impl LzfseBlockV1Header {
         field(
             name = "lmd_values_bits",
             data_type = "BitField64<3>",
-            modifier = "- 7"
+            modifier = "as i64 - 7"
         ),
         field(name = "unknown2", data_type = "BitField64<1>"),
         field(name = "header_size", data_type = "BitField64<32>"),
diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 6f161d6..3312cd5 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -679,12 +679,18 @@ impl StructureLayout {
                 quote!((#packed_field_name >> #bit_offset_literal) & #bit_mask_literal)
             };
             let field_modifier: TokenStream = bitfield.get_modifier_token_stream();
+            // A modifier can change the type of the value.
+            let quote_let: TokenStream = if field_modifier.is_empty() {
+                quote!(let #field_name: #field_type = #quote_from_packed_value;)
+            } else {
+                quote!(let #field_name = (#quote_from_packed_value) #field_modifier;)
+            };
 
             let field_format_string: String = bitfield.get_format_string();
             let format_string: String =
                 format!("    {}: {},\n", bitfield.name, field_format_string);
             debug_read_bitfields.extend(quote! {
-                let #field_name: #field_type = #quote_from_packed_value #field_modifier;
+                #quote_let
                 string_parts.push(format!(#format_string, #field_name));
 
             });
-- 
2.43.0


From b1e956a56a30620d7176d932abc2d03cf2928541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 20/42] fix: signatures with the same pattern at different
 offsets were treated as one

---
 keramics-sigscan/src/signature.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 061570d..980776b 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -102,7 +102,9 @@ impl Signature {
 impl PartialEq for Signature {
     /// Determines if the signature is equivalent to another signature.
     fn eq(&self, other: &Signature) -> bool {
-        self.pattern == other.pattern
+        self.pattern_type == other.pattern_type
+            && self.pattern_offset == other.pattern_offset
+            && self.pattern == other.pattern
     }
 }
 
-- 
2.43.0


From 0421211b14be924610d7d9e0e7ebd63af25812ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 21/42] fix: endless recursion when no pattern offset of a
 signature table is significant

---
 keramics-sigscan/src/signature_table.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/keramics-sigscan/src/signature_table.rs b/keramics-sigscan/src/signature_table.rs
index fdd2275..0d928fa 100644
--- a/keramics-sigscan/src/signature_table.rs
+++ b/keramics-sigscan/src/signature_table.rs
@@ -11,7 +11,6 @@
  * under the License.
  */
 
-use std::cmp::min;
 use std::collections::BTreeMap;
 use std::sync::Arc;
 
@@ -34,9 +33,6 @@ pub(super) struct SignatureTable {
     /// Byte value groups.
     pub byte_value_groups: BTreeMap<usize, ByteValueGroup>,
 
-    /// Smallest pattern offset.
-    pub smallest_pattern_offset: usize,
-
     /// Signatures.
     pub signatures: Vec<SignatureReference>,
 
@@ -57,7 +53,6 @@ impl SignatureTable {
             mediator: Mediator::current(),
             pattern_type: pattern_type.clone(),
             byte_value_groups: BTreeMap::new(),
-            smallest_pattern_offset: 0,
             signatures: Vec::new(),
             byte_value_weights: PatternWeights::new(),
             occurrence_weights: PatternWeights::new(),
@@ -130,8 +125,8 @@ impl SignatureTable {
             2 => self.get_pattern_offset_by_occurrence_weights(),
             _ => self.get_pattern_offset_by_similarity_weights(),
         };
-        if result.is_none() && self.byte_value_groups.len() > 0 {
-            result = Some(self.smallest_pattern_offset);
+        if result.is_none() {
+            result = self.byte_value_groups.keys().next().copied();
         }
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
@@ -384,8 +379,6 @@ impl SignatureTable {
         match self.byte_value_groups.get_mut(&pattern_offset) {
             Some(byte_value_group) => byte_value_group.insert_signature(byte_value, signature),
             None => {
-                self.smallest_pattern_offset = min(pattern_offset, self.smallest_pattern_offset);
-
                 let mut byte_value_group: ByteValueGroup = ByteValueGroup::new(pattern_offset);
                 byte_value_group.insert_signature(byte_value, signature);
 
-- 
2.43.0


From 6d36ae5e652e32a06fa1fe59862aa06d666834b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 22/42] fix: overflow when the data is smaller than the offset
 of a signature bound to its end

---
 keramics-sigscan/src/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 980776b..ebf9c48 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -64,7 +64,10 @@ impl Signature {
         buffer_size: usize,
     ) -> bool {
         let pattern_offset: u64 = match self.pattern_type {
-            PatternType::BoundToEnd => data_size - self.pattern_offset as u64,
+            PatternType::BoundToEnd => match data_size.checked_sub(self.pattern_offset as u64) {
+                Some(pattern_offset) => pattern_offset,
+                None => return false,
+            },
             PatternType::BoundToStart => self.pattern_offset as u64,
             PatternType::Unbound => data_offset,
         };
-- 
2.43.0


From c29bdc37bf140f38ed9b152abe9c41b1bcda1982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 23/42] fix: overflow when a signature has an empty pattern

---
 keramics-sigscan/src/scanner.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keramics-sigscan/src/scanner.rs b/keramics-sigscan/src/scanner.rs
index 40e4502..3b768fa 100644
--- a/keramics-sigscan/src/scanner.rs
+++ b/keramics-sigscan/src/scanner.rs
@@ -52,6 +52,14 @@ impl Scanner {
 
     /// Builds the scan trees.
     pub fn build(&mut self) -> Result<(), BuildError> {
+        for signature in self.signatures.iter() {
+            if signature.pattern_size == 0 {
+                return Err(BuildError::new(format!(
+                    "Invalid signature: {} missing pattern",
+                    signature.identifier
+                )));
+            }
+        }
         self.header_scan_tree.build(&self.signatures)?;
         self.footer_scan_tree.build(&self.signatures)?;
         self.unbound_scan_tree.build(&self.signatures)
-- 
2.43.0


From cfa620008aedc102227d596b11ce9112cc169081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 24/42] fix: signatures that extend past the end of the data
 were matched

---
 keramics-sigscan/src/signature.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index ebf9c48..4a18f87 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -89,7 +89,9 @@ impl Signature {
         };
         let scan_end_offset: usize = scan_offset + self.pattern_size;
 
-        if scan_end_offset > buffer_size || (scan_end_offset as u64) > data_size {
+        if scan_end_offset > buffer_size
+            || (scan_end_offset as u64) > data_size.saturating_sub(data_offset)
+        {
             return false;
         }
         if buffer[scan_offset..scan_end_offset] != self.pattern {
-- 
2.43.0


From 9b32890cdc1279b1a11eedfaf843d73b553ec765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 25/42] fix: overflow when scanning a buffer of a single byte
 or without signatures

---
 keramics-sigscan/src/scan_context.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index b8ea4fb..54f4139 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -122,11 +122,10 @@ impl<'a> ScanContext<'a> {
                                 _ => scan_tree.skip_table.smallest_pattern_size,
                             };
                         }
-                        skip_value_offset -= 1;
-
                         if skip_value_offset <= buffer_offset || skip_value != 0 {
                             break;
                         }
+                        skip_value_offset -= 1;
                     }
                 }
             };
@@ -153,7 +152,7 @@ impl<'a> ScanContext<'a> {
         } else {
             0
         };
-        if next_data_offset >= footer_start_offset {
+        if self.footer_range_size > 0 && next_data_offset >= footer_start_offset {
             let remaining_data_size: usize = (next_data_offset - footer_start_offset) as usize;
 
             let buffer_start_offset: usize = if remaining_data_size < buffer_size {
-- 
2.43.0


From 5cbd4345fb4126046fc1bc66cb67584a3e6a112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 26/42] fix: unbound signatures were reported at the start of
 the buffer

---
 keramics-sigscan/src/scan_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index 54f4139..533d09f 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -101,7 +101,7 @@ impl<'a> ScanContext<'a> {
                     let pattern_offset: u64 = match signature.pattern_type {
                         PatternType::BoundToEnd => self.data_size - signature.pattern_offset as u64,
                         PatternType::BoundToStart => signature.pattern_offset as u64,
-                        PatternType::Unbound => self.data_offset,
+                        PatternType::Unbound => self.data_offset + buffer_offset as u64,
                     };
                     self.results.insert(pattern_offset, Arc::clone(&signature));
 
-- 
2.43.0


From 2d9aa979ef723a66d143a195864c0bfa8329b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 27/42] fix: unbound signatures were missed after a partial
 match

---
 keramics-sigscan/src/scan_context.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index 533d09f..bdd0ee5 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -133,6 +133,7 @@ impl<'a> ScanContext<'a> {
                 break;
             }
             buffer_offset += skip_value;
+            scan_tree_node = &scan_tree.root_node;
         }
     }
 
-- 
2.43.0


From 750a6493ef71de00a0bcdf072aa363cdea8da85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 28/42] fix: bound signatures were missed in a buffer that does
 not start at their range

---
 keramics-sigscan/src/scan_context.rs | 37 ++++++++++++++++++----------
 keramics-sigscan/src/scan_tree.rs    | 24 ++++++++++++------
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index bdd0ee5..dd74935 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -76,14 +76,14 @@ impl<'a> ScanContext<'a> {
         &mut self,
         scan_tree: &'a ScanTree,
         buffer: &[u8],
-        mut buffer_offset: usize,
+        mut buffer_offset: i64,
         buffer_size: usize,
     ) {
         let buffer_end_offset: usize = buffer_size - 1;
         let mut skip_value: usize;
         let mut scan_tree_node: &ScanTreeNode = &scan_tree.root_node;
 
-        while buffer_offset < buffer_size {
+        while buffer_offset < buffer_size as i64 {
             let scan_result: ScanResult = scan_tree_node.scan_buffer(
                 self.data_offset,
                 self.data_size,
@@ -108,10 +108,15 @@ impl<'a> ScanContext<'a> {
                     skip_value = signature.pattern_size;
                 }
                 _ => {
+                    if scan_tree.pattern_type != PatternType::Unbound {
+                        break;
+                    }
                     let smallest_pattern_size: usize =
                         min(buffer_size, scan_tree.skip_table.smallest_pattern_size);
-                    let mut skip_value_offset: usize =
-                        min(buffer_offset + smallest_pattern_size - 1, buffer_end_offset);
+                    let mut skip_value_offset: usize = min(
+                        buffer_offset as usize + smallest_pattern_size - 1,
+                        buffer_end_offset,
+                    );
 
                     loop {
                         let byte_value: u8 = buffer[skip_value_offset];
@@ -122,7 +127,7 @@ impl<'a> ScanContext<'a> {
                                 _ => scan_tree.skip_table.smallest_pattern_size,
                             };
                         }
-                        if skip_value_offset <= buffer_offset || skip_value != 0 {
+                        if skip_value_offset <= buffer_offset as usize || skip_value != 0 {
                             break;
                         }
                         skip_value_offset -= 1;
@@ -132,7 +137,7 @@ impl<'a> ScanContext<'a> {
             if scan_tree.pattern_type != PatternType::Unbound {
                 break;
             }
-            buffer_offset += skip_value;
+            buffer_offset += skip_value as i64;
             scan_tree_node = &scan_tree.root_node;
         }
     }
@@ -144,7 +149,15 @@ impl<'a> ScanContext<'a> {
             return;
         }
         if self.data_offset < self.header_range_size {
-            self.scan_buffer_with_scan_tree(&self.scanner.header_scan_tree, buffer, 0, buffer_size);
+            // The header scan tree is relative to the start of the data.
+            let buffer_start_offset: i64 = -(self.data_offset as i64);
+
+            self.scan_buffer_with_scan_tree(
+                &self.scanner.header_scan_tree,
+                buffer,
+                buffer_start_offset,
+                buffer_size,
+            );
         }
         let next_data_offset: u64 = self.data_offset + buffer_size as u64;
 
@@ -154,13 +167,11 @@ impl<'a> ScanContext<'a> {
             0
         };
         if self.footer_range_size > 0 && next_data_offset >= footer_start_offset {
-            let remaining_data_size: usize = (next_data_offset - footer_start_offset) as usize;
+            // The footer scan tree is relative to the end of the data.
+            let buffer_start_offset: i64 = (self.data_size as i128
+                - self.footer_range_size as i128
+                - self.data_offset as i128) as i64;
 
-            let buffer_start_offset: usize = if remaining_data_size < buffer_size {
-                buffer_size - remaining_data_size
-            } else {
-                0
-            };
             self.scan_buffer_with_scan_tree(
                 &self.scanner.footer_scan_tree,
                 buffer,
diff --git a/keramics-sigscan/src/scan_tree.rs b/keramics-sigscan/src/scan_tree.rs
index bebe11c..bb5b37e 100644
--- a/keramics-sigscan/src/scan_tree.rs
+++ b/keramics-sigscan/src/scan_tree.rs
@@ -164,7 +164,7 @@ impl ScanTreeNode {
         data_offset: u64,
         data_size: u64,
         buffer: &[u8],
-        buffer_offset: usize,
+        buffer_offset: i64,
         buffer_size: usize,
     ) -> ScanResult<'_> {
         if data_offset >= data_size {
@@ -172,15 +172,19 @@ impl ScanTreeNode {
         }
         let mediator: MediatorReference = Mediator::current();
 
-        let scan_offset: usize = buffer_offset + self.pattern_offset;
+        // Note that a bound scan tree can start before the buffer.
+        let scan_offset: i64 = buffer_offset + self.pattern_offset as i64;
 
         let mut scan_object_key: i16 = DEFAULT_SCAN_OBJECT;
 
         // Note that if the pattern offset exceeds the (total) data size the scan continues with the default scan object.
         let mut scan_object: Option<&ScanObject> = None;
 
-        if scan_offset < buffer_size && (scan_offset as u64) < data_size - data_offset {
-            scan_object_key = buffer[scan_offset] as i16;
+        if scan_offset >= 0
+            && scan_offset < buffer_size as i64
+            && (scan_offset as u64) < data_size - data_offset
+        {
+            scan_object_key = buffer[scan_offset as usize] as i16;
             scan_object = self.scan_objects.get(&scan_object_key);
         }
         if scan_object.is_none() {
@@ -189,7 +193,7 @@ impl ScanTreeNode {
         }
         if mediator.debug_output {
             mediator.debug_print(format!("ScanTreeNode::scan_buffer {{\n"));
-            let pattern_offset: u64 = data_offset + scan_offset as u64;
+            let pattern_offset: i64 = data_offset as i64 + scan_offset;
             mediator.debug_print(format!(
                 "    scanning at offset: {} (0x{:08x}) for scan object: ",
                 pattern_offset, pattern_offset
@@ -207,7 +211,13 @@ impl ScanTreeNode {
             mediator.debug_print(format!("}}\n\n"));
         }
         if let Some(ScanObject::Signature(signature)) = scan_object {
-            if signature.scan_buffer(data_offset, data_size, buffer, buffer_offset, buffer_size) {
+            if signature.scan_buffer(
+                data_offset,
+                data_size,
+                buffer,
+                buffer_offset as usize,
+                buffer_size,
+            ) {
                 return ScanResult::Signature(Arc::clone(signature));
             } else if scan_object_key == DEFAULT_SCAN_OBJECT {
                 return ScanResult::None;
@@ -224,7 +234,7 @@ impl ScanTreeNode {
                         data_offset,
                         data_size,
                         buffer,
-                        buffer_offset,
+                        buffer_offset as usize,
                         buffer_size,
                     ) {
                         ScanResult::Signature(Arc::clone(signature))
-- 
2.43.0


From b95d6a266039915dbb5407e26b8accae06f9429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 29/42] fix: reject EWF error2 data with more entries than it
 holds

---
 keramics-formats/src/ewf/error2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/ewf/error2.rs b/keramics-formats/src/ewf/error2.rs
index cc4e9eb..5077b00 100644
--- a/keramics-formats/src/ewf/error2.rs
+++ b/keramics-formats/src/ewf/error2.rs
@@ -61,6 +61,12 @@ impl EwfError2 {
         let footer_offset: usize = 520 + (error2_header.number_of_entries as usize * 8);
         let footer_end_offset: usize = footer_offset + 4;
 
+        if footer_end_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                error2_header.number_of_entries
+            )));
+        }
         let mut error2_footer: EwfError2Footer = EwfError2Footer::new();
 
         if self.mediator.debug_output {
-- 
2.43.0


From 36fb6b47a8c94be58e1cbf2fbc14791ff62cd6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 30/42] fix: reject EWF tables with more entries than they hold

---
 keramics-formats/src/ewf/table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/ewf/table.rs b/keramics-formats/src/ewf/table.rs
index 4eedf34..0b10fc1 100644
--- a/keramics-formats/src/ewf/table.rs
+++ b/keramics-formats/src/ewf/table.rs
@@ -67,6 +67,12 @@ impl EwfTable {
         let footer_offset: usize = 24 + (table_header.number_of_entries as usize * 4);
         let footer_end_offset: usize = footer_offset + 4;
 
+        if footer_end_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                table_header.number_of_entries
+            )));
+        }
         let mut table_footer: EwfTableFooter = EwfTableFooter::new();
 
         if self.mediator.debug_output {
-- 
2.43.0


From 089ac46774a91972f14b5c88b5925421cfcede41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 31/42] fix: reject VHDX metadata tables with more entries than
 they hold

---
 keramics-formats/src/vhdx/metadata_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/vhdx/metadata_table.rs b/keramics-formats/src/vhdx/metadata_table.rs
index 57dc308..89b7e6c 100644
--- a/keramics-formats/src/vhdx/metadata_table.rs
+++ b/keramics-formats/src/vhdx/metadata_table.rs
@@ -62,6 +62,12 @@ impl VhdxMetadataTable {
         for _ in 0..metadata_table_header.number_of_entries {
             let data_end_offset: usize = data_offset + 32;
 
+            if data_end_offset > data.len() {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid number of entries: {} value out of bounds",
+                    metadata_table_header.number_of_entries
+                )));
+            }
             let mut metadata_table_entry: VhdxMetadataTableEntry = VhdxMetadataTableEntry::new();
 
             if self.mediator.debug_output {
-- 
2.43.0


From 7cfa4f61395096a2031398a61570cfa929d209da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 32/42] fix: check the size of ext4 inode extensions against
 their data

---
 keramics-formats/src/ext/inode_extension_ext4.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index 1f8e848..ab13446 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -56,8 +56,19 @@ impl Ext4InodeExtension {
 
     /// Reads the inode exension from a buffer.
     pub fn read_data(inode: &mut ExtInode, data: &[u8]) -> Result<(), ErrorTrace> {
+        if data.len() < 2 {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported inode extension data size"
+            ));
+        }
         let extra_size: u16 = bytes_to_u16_le!(data, 0);
 
+        if extra_size as usize > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid inode extension size: {} value out of bounds",
+                extra_size
+            )));
+        }
         if extra_size >= 4 {
             let upper_16bit: u16 = bytes_to_u16_le!(data, 2);
             inode.checksum |= (upper_16bit as u32) << 16;
-- 
2.43.0


From 6c36456cc13658065d60c446bee296186852a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 33/42] fix: reject NTFS entry sizes of 2^32, which do not fit
 the 32-bit size

---
 keramics-formats/src/ntfs/boot_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/boot_record.rs b/keramics-formats/src/ntfs/boot_record.rs
index 79b7af5..104197e 100644
--- a/keramics-formats/src/ntfs/boot_record.rs
+++ b/keramics-formats/src/ntfs/boot_record.rs
@@ -148,7 +148,7 @@ impl NtfsBootRecord {
         } else {
             // The size is calculated as: 2 ^ ( 256 - value ).
             let exponent: u32 = 256 - mft_entry_size;
-            if exponent > 32 {
+            if exponent > 31 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported MFT entry size: {} value out of bounds",
                     mft_entry_size
@@ -181,7 +181,7 @@ impl NtfsBootRecord {
         } else {
             // The size is calculated as: 2 ^ ( 256 - value ).
             let exponent: u32 = 256 - index_entry_size;
-            if exponent > 32 {
+            if exponent > 31 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported index entry size: {} value out of bounds",
                     index_entry_size
-- 
2.43.0


From f32c5f3d384f4d6b0d7311c4acf6e4b99f61957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 34/42] fix: read the QCOW version 3 compression method only
 where the header has one

---
 keramics-formats/src/qcow/file_header_v3.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file_header_v3.rs b/keramics-formats/src/qcow/file_header_v3.rs
index 6b2a84e..c6c5920 100644
--- a/keramics-formats/src/qcow/file_header_v3.rs
+++ b/keramics-formats/src/qcow/file_header_v3.rs
@@ -94,7 +94,6 @@ impl QcowFileHeaderV3 {
         file_header.number_of_snapshots = bytes_to_u32_be!(data, 60);
         file_header.snapshots_offset = bytes_to_u64_be!(data, 64);
         file_header.header_size = bytes_to_u32_be!(data, 100);
-        file_header.compression_method = data[104];
 
         if file_header.number_of_cluster_block_bits <= 8
             || file_header.number_of_cluster_block_bits > 63
@@ -110,6 +109,17 @@ impl QcowFileHeaderV3 {
                 file_header.header_size
             )));
         }
+        // The compression method is only present in the additional header fields.
+        file_header.compression_method = if file_header.header_size == 112 {
+            if data.len() < 112 {
+                return Err(keramics_core::error_trace_new!(
+                    "Unsupported QCOW file header version 3 data size"
+                ));
+            }
+            data[104]
+        } else {
+            0
+        };
         Ok(())
     }
 }
-- 
2.43.0


From c1fd7a0cae65299b1489c87e2523b1d3d4a03bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 35/42] fix: read the data size of VHD file footers from its
 own field

---
 keramics-formats/src/vhd/file_footer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/vhd/file_footer.rs b/keramics-formats/src/vhd/file_footer.rs
index 993b73d..15e6c07 100644
--- a/keramics-formats/src/vhd/file_footer.rs
+++ b/keramics-formats/src/vhd/file_footer.rs
@@ -92,7 +92,7 @@ impl VhdFileFooter {
             )));
         }
         self.next_offset = bytes_to_u64_be!(data, 16);
-        self.data_size = bytes_to_u64_be!(data, 40);
+        self.data_size = bytes_to_u64_be!(data, 48);
         self.disk_type = bytes_to_u32_be!(data, 60);
         self.identifier = Uuid::from_be_bytes(&data[68..84]);
 
-- 
2.43.0


From 1969da959c549d3ea8a693e1d44c4c8760c1396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 36/42] fix: read all 64 bits of the EWF-E01 number of sectors

---
 keramics-formats/src/ewf/image.rs  | 17 ++++++++++++++---
 keramics-formats/src/ewf/volume.rs |  6 +++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 0ee6d0c..3588329 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -64,7 +64,7 @@ pub struct EwfImage {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Block (or chunk) size.
     block_size: u32,
@@ -883,7 +883,7 @@ impl EwfImage {
                 self.number_of_chunks = volume.number_of_chunks;
                 self.sectors_per_chunk = volume.sectors_per_chunk;
                 self.bytes_per_sector = volume.bytes_per_sector;
-                self.number_of_sectors = volume.number_of_sectors;
+                self.number_of_sectors = volume.number_of_sectors as u64;
             }
             1128 => {
                 let mut volume: EwfE01Volume = EwfE01Volume::new();
@@ -919,7 +919,18 @@ impl EwfImage {
             }
         }
         self.block_size = self.sectors_per_chunk * self.bytes_per_sector;
-        self.media_size = (self.number_of_sectors as u64) * (self.bytes_per_sector as u64);
+        self.media_size = match self
+            .number_of_sectors
+            .checked_mul(self.bytes_per_sector as u64)
+        {
+            Some(media_size) => media_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported number of sectors: {} value out of bounds",
+                    self.number_of_sectors
+                )));
+            }
+        };
 
         let block_tree_data_size: u64 = (self.number_of_chunks as u64) * (self.block_size as u64);
 
diff --git a/keramics-formats/src/ewf/volume.rs b/keramics-formats/src/ewf/volume.rs
index c56d4c7..e9cf842 100644
--- a/keramics-formats/src/ewf/volume.rs
+++ b/keramics-formats/src/ewf/volume.rs
@@ -14,7 +14,7 @@
 use keramics_checksums::Adler32Context;
 use keramics_core::ErrorTrace;
 use keramics_layout_map::LayoutMap;
-use keramics_types::{Uuid, bytes_to_u32_le};
+use keramics_types::{Uuid, bytes_to_u32_le, bytes_to_u64_le};
 
 #[derive(LayoutMap)]
 #[layout_map(
@@ -61,7 +61,7 @@ pub struct EwfE01Volume {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Media flags.
     pub media_flags: u8,
@@ -115,7 +115,7 @@ impl EwfE01Volume {
         self.number_of_chunks = bytes_to_u32_le!(data, 4);
         self.sectors_per_chunk = bytes_to_u32_le!(data, 8);
         self.bytes_per_sector = bytes_to_u32_le!(data, 12);
-        self.number_of_sectors = bytes_to_u32_le!(data, 16);
+        self.number_of_sectors = bytes_to_u64_le!(data, 16);
         self.media_flags = data[36];
         self.compression_level = data[52];
         self.error_granularity = bytes_to_u32_le!(data, 56);
-- 
2.43.0


From d75595a461f1711a5ec4ae716879945ef6e6bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:45 +0000
Subject: [PATCH 37/42] fix: reject NTFS data runs whose block number overflows

---
 keramics-formats/src/ntfs/data_run.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ntfs/data_run.rs b/keramics-formats/src/ntfs/data_run.rs
index de0d109..5f170b1 100644
--- a/keramics-formats/src/ntfs/data_run.rs
+++ b/keramics-formats/src/ntfs/data_run.rs
@@ -109,9 +109,15 @@ impl NtfsDataRun {
                 block_number <<= 8;
                 block_number |= *byte_value as i64;
             }
-            block_number += last_block_number as i64;
-
-            self.block_number = block_number as u64;
+            self.block_number = match block_number.checked_add(last_block_number as i64) {
+                Some(block_number) => block_number as u64,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Unsupported block number: {} value out of bounds",
+                        block_number
+                    )));
+                }
+            };
         }
         data_offset += block_number_size;
 
-- 
2.43.0


From 99ec8e38a54003e021bbb34fe4bfefde71596f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:16 +0000
Subject: [PATCH 38/42] fix: limit the padding shown after ext attribute names
 to the data

---
 keramics-formats/src/ext/attributes_block.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/attributes_block.rs b/keramics-formats/src/ext/attributes_block.rs
index a13236a..1896940 100644
--- a/keramics-formats/src/ext/attributes_block.rs
+++ b/keramics-formats/src/ext/attributes_block.rs
@@ -11,6 +11,8 @@
  * under the License.
  */
 
+use std::cmp::min;
+
 use keramics_core::ErrorTrace;
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_types::ByteString;
@@ -105,7 +107,8 @@ impl ExtAttributesBlock {
                 entry_data_offset
             ));
                 self.mediator.debug_print_data(
-                    &data[entry_data_offset..entry_data_offset + alignment_padding_size],
+                    &data[entry_data_offset
+                        ..min(entry_data_offset + alignment_padding_size, data_size)],
                     true,
                 );
             }
-- 
2.43.0


From 6b05625ef3f56fc178426590faf22a47d4845aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:06 +0000
Subject: [PATCH 39/42] fix: verify the Adler-32 of ZLIB data, of the
 uncompressed data only

The checksum was not verified when exactly its 4 bytes remain, which is the case
for every complete stream, and was calculated of the whole output buffer.
---
 keramics-compression/src/zlib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 5c250cf..ab0877e 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -160,11 +160,11 @@ impl ZlibContext {
 
         bitstream.unread_data();
 
-        if 4 < bitstream.data_size - bitstream.data_offset {
+        if bitstream.data_size - bitstream.data_offset >= 4 {
             let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
 
             let mut adler32_context: Adler32Context = Adler32Context::new(1);
-            adler32_context.update(uncompressed_data);
+            adler32_context.update(&uncompressed_data[..deflate_context.uncompressed_data_size]);
             let calculated_checksum: u32 = adler32_context.finalize();
 
             if stored_checksum != calculated_checksum {
-- 
2.43.0


From 9d278ca3479f3cd1db898b06ee1932ccb1e6fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:41 +0000
Subject: [PATCH 40/42] fix: refuse LZVN matches without a distance

---
 keramics-compression/src/lzvn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/lzvn.rs b/keramics-compression/src/lzvn.rs
index 9c93d77..94baf58 100644
--- a/keramics-compression/src/lzvn.rs
+++ b/keramics-compression/src/lzvn.rs
@@ -477,9 +477,9 @@ impl LzvnContext {
                 uncompressed_data_offset = uncompressed_data_end_offset;
             }
             if match_size > 0 {
-                if distance as usize > uncompressed_data_offset {
+                if distance == 0 || distance as usize > uncompressed_data_offset {
                     return Err(keramics_core::error_trace_new!(
-                        "Invalid distance value exceeds uncompressed data offset"
+                        "Invalid distance value out of bounds"
                     ));
                 }
                 if match_size as usize > uncompressed_data_size - uncompressed_data_offset {
-- 
2.43.0


From 5a46d7ba877776987f00f9d64e8b4bc59dfdbb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:07 +0000
Subject: [PATCH 41/42] fix: check the size of an uncompressed LZNT1 block
 before printing its data

---
 keramics-compression/src/lznt1.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/keramics-compression/src/lznt1.rs b/keramics-compression/src/lznt1.rs
index 3e60071..48258df 100644
--- a/keramics-compression/src/lznt1.rs
+++ b/keramics-compression/src/lznt1.rs
@@ -143,16 +143,6 @@ impl Lznt1Context {
                 let uncompressed_data_end_offset: usize =
                     uncompressed_data_offset + block_header.block_size as usize;
 
-                if self.mediator.debug_output {
-                    self.mediator
-                        .debug_print(format!("Lznt1Context::decompress {{\n",));
-                    self.mediator.debug_print(format!("    literal data:\n"));
-                    self.mediator.debug_print_data(
-                        &compressed_data[compressed_data_offset..compressed_data_end_offset],
-                        true,
-                    );
-                    self.mediator.debug_print(format!("}}\n\n"));
-                }
                 if compressed_data_end_offset > compressed_data_size {
                     return Err(keramics_core::error_trace_new!(
                         "Invalid compressed data value too small"
@@ -163,6 +153,16 @@ impl Lznt1Context {
                         "Invalid uncompressed data value too small"
                     ));
                 }
+                if self.mediator.debug_output {
+                    self.mediator
+                        .debug_print(format!("Lznt1Context::decompress {{\n",));
+                    self.mediator.debug_print(format!("    literal data:\n"));
+                    self.mediator.debug_print_data(
+                        &compressed_data[compressed_data_offset..compressed_data_end_offset],
+                        true,
+                    );
+                    self.mediator.debug_print(format!("}}\n\n"));
+                }
                 uncompressed_data[uncompressed_data_offset..uncompressed_data_end_offset]
                     .copy_from_slice(
                         &compressed_data[compressed_data_offset..compressed_data_end_offset],
-- 
2.43.0


From 6629e393a385c6624b365f8ac88c0637dab870df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:57 +0000
Subject: [PATCH 42/42] fix: split path components at character boundaries

PathComponent::extension and file_stem skipped the first byte of the text and used a number of characters as a byte index, which aborts or splits at the wrong place if the text contains non-ASCII characters.
---
 keramics-formats/src/path_component.rs | 28 ++++++++++----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/keramics-formats/src/path_component.rs b/keramics-formats/src/path_component.rs
index 0e4536e..4095741 100644
--- a/keramics-formats/src/path_component.rs
+++ b/keramics-formats/src/path_component.rs
@@ -27,17 +27,12 @@ impl PathComponent {
     pub fn extension(&self) -> Option<PathComponent> {
         match self {
             PathComponent::String(string) => {
-                if string.is_empty() {
-                    None
-                } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
-                        Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_index: usize = string.len() - value_index;
-                            Some(PathComponent::String(string[string_index..].to_string()))
-                        }
-                        None => None,
-                    }
+                // Note that a leading dot does not denote an extension.
+                match string.rfind('.') {
+                    Some(string_index) if string_index > 0 => Some(PathComponent::String(
+                        string[string_index + 1..].to_string(),
+                    )),
+                    _ => None,
                 }
             }
             _ => todo!(),
@@ -51,13 +46,12 @@ impl PathComponent {
                 if string.is_empty() {
                     None
                 } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
-                        Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_size: usize = string.len() - value_index - 1;
-                            Some(PathComponent::String(string[0..string_size].to_string()))
+                    // Note that a leading dot does not denote an extension.
+                    match string.rfind('.') {
+                        Some(string_index) if string_index > 0 => {
+                            Some(PathComponent::String(string[..string_index].to_string()))
                         }
-                        None => Some(PathComponent::String(string.clone())),
+                        _ => Some(PathComponent::String(string.clone())),
                     }
                 }
             }
-- 
2.43.0


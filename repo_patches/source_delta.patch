From fbba6c7fc2b09c854afcb1463c0528d89c95b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 01/11] fix: reject MLX90640 EEPROM buffers shorter than the
 EEPROM

The length check compared bytes against a number of words, so buffers
between 831 and 1663 bytes long caused a panic instead of an error.
---
 mlx9064x/src/mlx90640/eeprom.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index b0ec12d..c8c5025 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -250,7 +250,8 @@ impl Mlx90640Calibration {
     /// The buffer must cover *all* of the EEPROM.
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
-        let eeprom_length = usize::from(EepromAddress::End - EepromAddress::Base);
+        // The end address is inclusive, and each address covers a whole word.
+        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
         if buf.len() < eeprom_length {
             return Err(LibraryError::Other(
                 "Not enough space left in buffer to be a full EEPROM dump",
-- 
2.43.0


From 6b077a87e6ce4aa61e848657e48f85f2714883d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 02/11] fix: reject MLX90641 EEPROM buffers shorter than the
 EEPROM

Short buffers caused a panic instead of returning an error.
---
 mlx9064x/src/mlx90641/eeprom.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 44da0cb..0e3d43e 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -84,6 +84,13 @@ pub struct Mlx90641Calibration {
 impl Mlx90641Calibration {
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
+        // The end address is inclusive, and each address covers a whole word.
+        let eeprom_length = (EepromAddress::End.offset_from_base() + 1) * WORD_SIZE;
+        if buf.len() < eeprom_length {
+            return Err(LibraryError::Other(
+                "Not enough space left in buffer to be a full EEPROM dump",
+            ));
+        }
         // Much like the MLX90640 implementation, this is a mess of a function as the data is
         // scattered across the EEPROM.
         // Skip past the per-pixel values
-- 
2.43.0


From 4d9c18b7f08a590f64c8ccf8e4b94064a1b107d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 03/11] fix: use all 16 bits of the MLX90641 offset average

The combined word was sign extended from 11 bits, losing averages outside
of -1024..1024.
---
 mlx9064x/src/mlx90641/eeprom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 0e3d43e..b32c27f 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -351,8 +351,8 @@ impl PerPixelCalibration {
         // Offset scale is the upper 6 bits. The other bits are reserved.
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
         let offset_scale = 2i16.pow(offset_scale as u32);
-        let offset_average_bytes = get_combined_word(&mut buf)?;
-        let offset_average = i16_from_i11(&offset_average_bytes[..]);
+        // Combined words cover the full 16 bits, unlike the 11 bits of a single word.
+        let offset_average = i16::from_be_bytes(get_combined_word(&mut buf)?);
         // the next two words are reserved.
         buf.advance(WORD_SIZE * 2);
         let k_ta_average = get_hamming_i16(&mut buf)?;
-- 
2.43.0


From 2cfc56c47629aa9c0b1ed12b9c8217a517d1fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 04/11] fix: keep the fractional part of the MLX90640 alpha
 PTAT

The datasheet divides by four without truncating the result.
---
 mlx9064x/src/mlx90640/eeprom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index c8c5025..98be57f 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -262,7 +262,7 @@ impl Mlx90640Calibration {
         // alpha_PTAT and offset compensation correction scales
         let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
-        let alpha_ptat = alpha_ptat / 4 + 8;
+        let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
@@ -381,7 +381,7 @@ impl Mlx90640Calibration {
             k_v_ptat,
             k_t_ptat,
             v_ptat_25: v_ptat_25.into(),
-            alpha_ptat: alpha_ptat.into(),
+            alpha_ptat,
             gain: gain.into(),
             k_s_ta,
             corner_temperatures,
-- 
2.43.0


From d2afb5edd4d6e5adec7578e7bb4a37e86b2b7167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 05/11] fix: avoid overflowing when calculating delta V

The difference of two 16-bit values does not fit in 16 bits.
---
 mlx9064x/src/calculations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 75bd682..7b0b0a6 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -159,7 +159,7 @@ const KELVINS_TO_CELSIUS: f32 = 273.15;
 /// while $V_{DD_{pix}}$ (`v_dd_pixel`) is read from the camera's RAM.
 #[doc = include_str!("katex.html")]
 pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i16) -> f32 {
-    f32::from(v_dd_pixel - calibration.v_dd_25()) / f32::from(calibration.k_v_dd())
+    (f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25())) / f32::from(calibration.k_v_dd())
 }
 
 /// Calculate $V_{DD}$
-- 
2.43.0


From 0b7aec4bc6a2819543ab3b1573a43557a512cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 06/11] fix: only apply the resolution correction to the
 measured supply voltage

The datasheets (and the documentation of v_dd) multiply just the value from
RAM by the correction factor, but the calibrated reference voltage was being
scaled as well. With a 16-bit ADC resolution this gave a supply voltage of
about -9 V instead of 3.3 V.
---
 mlx9064x/src/calculations.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 7b0b0a6..e9492dc 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -172,7 +172,8 @@ pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i
 /// \begin{align*}
 /// V\_{DD} &= \frac{\text{Resolution}\_\text{corr} \* V\_{DD\_{pix}} - V\_{DD\_{25}}}{K\_{V\_{DD}}} +
 ///          V\_{DD\_0}\newline
-///         &= \text{Resolution}\_\text{corr} * \Delta V + V\_{DD\_0}
+///         &= \text{Resolution}\_\text{corr} * \Delta V + (\text{Resolution}\_\text{corr} - 1) *
+///          \frac{V\_{DD\_{25}}}{K\_{V\_{DD}}} + V\_{DD\_0}
 /// \end{align*}
 ///
 /// $V_{DD_{0}}$ is retrieved from the `calibration` argument, while $\Delta V$ (`delta_v`) is the
@@ -187,7 +188,12 @@ pub fn v_dd<'a, Clb: CalibrationData<'a>>(
     resolution_correction: f32,
     delta_v: f32,
 ) -> f32 {
-    delta_v * resolution_correction + calibration.v_dd_0()
+    // The resolution correction only applies to the value read from RAM, while delta_v also includes
+    // the (uncorrected) reference voltage.
+    let reference = f32::from(calibration.v_dd_25()) / f32::from(calibration.k_v_dd());
+    delta_v * resolution_correction
+        + (resolution_correction - 1f32) * reference
+        + calibration.v_dd_0()
 }
 
 /// Calculate $V\_{PTAT\_{art}}$
-- 
2.43.0


From 33519f2a35a9605dc8076c569dbe79c28914fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 07/11] fix: keep the current settings when writing the control
 register fails

The cached access pattern and resolution correction were updated before the
write, so after a failed write frames were processed with settings the camera
wasn't using.
---
 mlx9064x/src/driver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/driver.rs b/mlx9064x/src/driver.rs
index 2bd10e1..672f566 100644
--- a/mlx9064x/src/driver.rs
+++ b/mlx9064x/src/driver.rs
@@ -161,8 +161,9 @@ where
     }
 
     fn set_control_register(&mut self, register: ControlRegister) -> Result<(), Error<I2C>> {
-        self.update_control_register(&register);
         register.to_i2c(&mut self.bus, self.address)?;
+        // Only use the new settings once the camera has them.
+        self.update_control_register(&register);
         Ok(())
     }
 
-- 
2.43.0


From c64506c33f0f1abcf1ac7c536be7c88e301dc9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 08/11] fix: handle large MLX90640 EEPROM values without
 overflowing

The scaled average, row, column and remainder values do not necessarily fit in
16 bits, causing panics (or wrong values without overflow checks) for some
EEPROM contents. Sum them using 32 bits, and return an error if the offset of
a pixel cannot be represented.
---
 mlx9064x/src/mlx90640/eeprom.rs | 39 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 98be57f..0e695a6 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -91,25 +91,26 @@ impl Mlx90640Calibration {
     /// preceding the scaling factors are returned (in that order).
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
-    ) -> ([i16; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
+    ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
-        let offset_average = data.get_i16();
+        // The scaled sums can be larger than 16 bits.
+        let offset_average = i32::from(data.get_i16());
         let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
         for row_chunks in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH * VALUES_PER_DATA_ROW)
         {
             let rows_coefficients = word_to_i4s(data);
-            // Create a nice lazy iterator that converts the values to i16, scales them, and
+            // Create a nice lazy iterator that converts the values to i32, scales them, and
             // reverses that order of the data (because the data is laid out backwards in the
             // EEPROM).
             let rows_coefficients = rows_coefficients
                 .into_iter()
                 //let rows_coefficients = core::array::IntoIter::new(rows_coefficients)
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << row_scale)
                 .rev();
             for (row, coefficient) in row_chunks
@@ -128,7 +129,7 @@ impl Mlx90640Calibration {
             let column_coefficients = column_coefficients
                 .iter()
                 .copied()
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << column_scale)
                 .rev();
             for row in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH) {
@@ -260,13 +261,13 @@ impl Mlx90640Calibration {
         // Skip the first 16 words, they're irrelevant
         buf.advance(WORD_SIZE * 16);
         // alpha_PTAT and offset compensation correction scales
-        let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
+        let (offset_sums, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
-            alpha_pixels.into_iter().map(f32::from).collect();
+            alpha_pixels.into_iter().map(|alpha| alpha as f32).collect();
         // Safe to unwrap as the length of pixel arrays are *all* Mlx90640::NUM_PIXELS long.
         let mut alpha_pixels = alpha_pixels.into_inner().unwrap();
         // Calculate the actual alpha scaling value from the exponent value. The alpha scaling
@@ -338,15 +339,18 @@ impl Mlx90640Calibration {
         let mut outlier_pixels = FlagArray::default();
         // Calculate the rest of the per-pixel data using the remainder/k_ta data
         let mut k_ta_pixels = [0f32; Mlx90640::NUM_PIXELS];
+        let mut offset_reference_pixels = [0i16; Mlx90640::NUM_PIXELS];
         offset_reference_pixels
             .iter_mut()
+            .zip(offset_sums)
             .zip(alpha_pixels.iter_mut())
             .zip(lazy_k_ta_pixels)
             .zip(k_ta_pixels.iter_mut())
             .zip(failed_pixels.iter_mut())
             .zip(outlier_pixels.iter_mut())
-            .for_each(
-                |(((((offset, alpha), k_ta_rc), k_ta), mut failed), mut outlier)| {
+            .try_for_each(
+                |((((((offset, offset_sum), alpha), k_ta_rc), k_ta), mut failed), mut outlier)| {
+                    let mut offset_sum = offset_sum;
                     let high = buf.get_u8();
                     let low = buf.get_u8();
                     // If both bytes are 0, this is a failed pixel
@@ -354,26 +358,31 @@ impl Mlx90640Calibration {
                         failed.set(true);
                     } else {
                         // Normal dance to extend the sign bit from an i6 to an i8
-                        let offset_remainder = i16::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
-                        *offset += offset_remainder << offset_correction_remainder_scale;
+                        let offset_remainder = i32::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
+                        offset_sum += offset_remainder << offset_correction_remainder_scale;
                         // alpha is going to be a little weird: not only is there the i6-shift-dance,
                         // but there's an extra shift right by 4 to drop the k_ta and outlier bits.
                         let alpha_remainder = (i16::from_be_bytes([high & 0x03, low]) << 6) >> 10;
-                        *alpha += f32::from(alpha_remainder << alpha_correction_remainder_scale);
+                        *alpha +=
+                            (i32::from(alpha_remainder) << alpha_correction_remainder_scale) as f32;
                         *alpha /= alpha_scale;
                         // To try to keep floating point errors down as long as possible, do all the
                         // operations for the numerator as ints, then convert to floats for the final
                         // division.
-                        let k_ta_remainder = i16::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
+                        let k_ta_remainder = i32::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
                         let k_ta_numerator =
-                            f32::from(k_ta_rc + (k_ta_remainder << k_ta_scale2_exp));
+                            (i32::from(k_ta_rc) + (k_ta_remainder << k_ta_scale2_exp)) as f32;
                         *k_ta = k_ta_numerator / k_ta_scale1;
                         // If the last bit of the low byte is set, this is an outlier (or deviant)
                         // pixel.
                         outlier.set(is_bit_set(low, 0))
                     }
+                    *offset = i16::try_from(offset_sum).map_err(|_| {
+                        LibraryError::InvalidData("A pixel offset does not fit in 16 bits")
+                    })?;
+                    Ok(())
                 },
-            );
+            )?;
         Ok(Self {
             k_v_dd,
             v_dd_25,
-- 
2.43.0


From 118c38c7017ef23958e36c8de021d2d56739d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 09/11] fix: handle large MLX90641 pixel offsets without
 overflowing

The scaled offsets do not necessarily fit in 16 bits, causing panics (or wrong
values without overflow checks) for some EEPROM contents. Return an error for
those instead.
---
 mlx9064x/src/mlx90641/eeprom.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index b32c27f..f542639 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -350,7 +350,6 @@ impl PerPixelCalibration {
         buf.advance(EepromAddress::OffsetCompensationScale.offset_from_base() * WORD_SIZE);
         // Offset scale is the upper 6 bits. The other bits are reserved.
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
-        let offset_scale = 2i16.pow(offset_scale as u32);
         // Combined words cover the full 16 bits, unlike the 11 bits of a single word.
         let offset_average = i16::from_be_bytes(get_combined_word(&mut buf)?);
         // the next two words are reserved.
@@ -370,6 +369,15 @@ impl PerPixelCalibration {
             let numerator = f32::from(raw_value) * scale2 + f32::from(avg);
             numerator / scale1
         };
+        // The scaled offsets might not fit in 16 bits
+        let scale_offset = |raw_value: i16| -> Result<i16, LibraryError> {
+            let offset = 2i64
+                .saturating_pow(offset_scale.into())
+                .saturating_mul(raw_value.into())
+                .saturating_add(offset_average.into());
+            i16::try_from(offset)
+                .map_err(|_| LibraryError::InvalidData("A pixel offset does not fit in 16 bits"))
+        };
         // Create slices covering each of the per-pixel data regions
         let offsets_0 = &data[(EepromAddress::PixelOffsetSubpage0Start.offset_from_base()
             * WORD_SIZE)
@@ -435,16 +443,8 @@ impl PerPixelCalibration {
                 k_ta_pixels.push(Default::default());
                 k_v_pixels.push(Default::default());
             } else {
-                // NOTE: There's a chance this will overflow, if offset_scale is too large
-                let offset_delta_0 = offset_0_raw * offset_scale;
-                let offset_delta_1 = offset_1_raw * offset_scale;
-                // The contents of the offset pixels are initialized to offset_average
-                offset_reference_pixels
-                    .0
-                    .push(offset_average + offset_delta_0);
-                offset_reference_pixels
-                    .1
-                    .push(offset_average + offset_delta_1);
+                offset_reference_pixels.0.push(scale_offset(offset_0_raw)?);
+                offset_reference_pixels.1.push(scale_offset(offset_1_raw)?);
                 // The datasheet is a little hard to read for this, but alpha_EE is divided by
                 // (2^{11} - 1) = 2047
                 alpha_pixels.push((f32::from(alpha_raw) / 2047f32) * alpha_reference);
-- 
2.43.0


From 667fa43fbd8f3358208e6ba7df158653089d8997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 10/11] fix: preserve the reserved bits of the I2C
 configuration register

Writing back a register that was read from the camera cleared all of its
reserved bits, unlike for the other registers.
---
 mlx9064x/src/register.rs | 42 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/register.rs b/mlx9064x/src/register.rs
index 65e9016..214a2fc 100644
--- a/mlx9064x/src/register.rs
+++ b/mlx9064x/src/register.rs
@@ -1,5 +1,6 @@
 //! Types for interacting with Melexis camera registers.
 
+use core::cmp::Ordering;
 use core::convert::{TryFrom, TryInto};
 use core::time::Duration;
 
@@ -423,13 +424,16 @@ impl From<ControlRegister> for [u8; 2] {
 }
 
 /// Represents the possible states of the I²C configuration register (0x800F).
-#[derive(Clone, Copy, Debug, Eq, PartialEq, PartialOrd, Ord)]
+#[derive(Clone, Copy, Debug)]
 pub struct I2cRegister {
     fast_mode_plus: bool,
 
     i2c_threshold_halved: bool,
 
     sda_current_limiter: bool,
+
+    /// The reserved bits, as read from the camera.
+    reserved: u16,
 }
 
 impl I2cRegister {
@@ -468,6 +472,38 @@ impl I2cRegister {
     pub fn set_sda_current_limiter(&mut self, sda_current_limiter: bool) {
         self.sda_current_limiter = sda_current_limiter;
     }
+
+    const FIELDS_MASK: u16 = 0x0007;
+
+    /// The non-reserved fields, in the order they are compared.
+    fn fields(&self) -> (bool, bool, bool) {
+        (
+            self.fast_mode_plus,
+            self.i2c_threshold_halved,
+            self.sda_current_limiter,
+        )
+    }
+}
+
+impl PartialEq for I2cRegister {
+    /// This method only compares non-reserved bits between two registers.
+    fn eq(&self, other: &Self) -> bool {
+        self.fields() == other.fields()
+    }
+}
+
+impl Eq for I2cRegister {}
+
+impl PartialOrd for I2cRegister {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for I2cRegister {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.fields().cmp(&other.fields())
+    }
 }
 
 impl Default for I2cRegister {
@@ -476,6 +512,7 @@ impl Default for I2cRegister {
             fast_mode_plus: true,
             i2c_threshold_halved: false,
             sda_current_limiter: true,
+            reserved: 0,
         }
     }
 }
@@ -509,13 +546,14 @@ impl<'a> From<&'a [u8]> for I2cRegister {
             fast_mode_plus,
             i2c_threshold_halved,
             sda_current_limiter,
+            reserved: raw & !Self::FIELDS_MASK,
         }
     }
 }
 
 impl From<I2cRegister> for [u8; 2] {
     fn from(register: I2cRegister) -> Self {
-        let mut raw = 0u16;
+        let mut raw = register.reserved;
         // And here we translate back to "not disabled" land.
         if !register.fast_mode_plus {
             raw |= 0x0001;
-- 
2.43.0


From 14e03a6d4e7788578c1c81e54bd4dbff5cc71ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 11/11] fix: read the MLX90640 average sensitivity as an
 unsigned value

---
 mlx9064x/src/mlx90640/eeprom.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 0e695a6..58efb14 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -88,17 +88,19 @@ impl Mlx90640Calibration {
     /// sensitivity (alpha) arrays. The given buffer must be at the word containing the column, row
     /// and remainder scaling factors.
     /// The calculated array, the remainder scaling factor, and the value occupying the 4 bits
-    /// preceding the scaling factors are returned (in that order).
+    /// preceding the scaling factors are returned (in that order). The average offset is signed,
+    /// while the average sensitivity is unsigned, so `average` is used to read that word.
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
+        average: fn(&mut &[u8]) -> i32,
     ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
         // The scaled sums can be larger than 16 bits.
-        let offset_average = i32::from(data.get_i16());
-        let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
+        let average = average(data);
+        let mut pixel_calibration = [average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
         for row_chunks in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH * VALUES_PER_DATA_ROW)
@@ -262,10 +264,10 @@ impl Mlx90640Calibration {
         buf.advance(WORD_SIZE * 16);
         // alpha_PTAT and offset compensation correction scales
         let (offset_sums, offset_correction_remainder_scale, alpha_ptat) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+            Self::calculate_bulk_pixel_calibration(&mut buf, |data| i32::from(data.get_i16()));
         let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+            Self::calculate_bulk_pixel_calibration(&mut buf, |data| i32::from(data.get_u16()));
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
             alpha_pixels.into_iter().map(|alpha| alpha as f32).collect();
         // Safe to unwrap as the length of pixel arrays are *all* Mlx90640::NUM_PIXELS long.
-- 
2.43.0


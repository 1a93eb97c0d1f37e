From e4497cb239448e187612bec3dbcdaad530fa462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 1/8] fix: Drop the oldest blocks when reducing the maximum
 history

Queue::set_max_size() filled the history up to the new maximum with blocks of
zero energy, and did not remove anything if it held more than the new maximum,
after which it was not bounded at all anymore.
---
 src/history.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index de97a0e..87bb82b 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -179,9 +179,9 @@ impl Queue {
     }
 
     fn set_max_size(&mut self, max: usize) {
-        if self.queue.len() < max {
-            // FIXME: Use shrink() once stabilized
-            self.queue.resize(max, 0.0);
+        // Remove the oldest elements if there are more than allowed now
+        if self.queue.len() > max {
+            self.queue.drain(..self.queue.len() - max);
             self.queue.shrink_to_fit();
         }
         self.max = max;
-- 
2.43.0


From 8aa7da4a42727c884a2548d3c77f430a5f975394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 2/8] fix: Return an error for planar input with the wrong
 number of channels

It was only caught by assertions in the filter, i.e. caused a panic.
---
 src/ebur128.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index ff7b88c..93bd07b 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -568,6 +568,10 @@ impl EbuR128 {
         &mut self,
         mut src: S,
     ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         if src.frames() == 0 {
             return Ok(());
         }
@@ -660,8 +664,17 @@ impl EbuR128 {
         Ok(())
     }
 
-    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(&mut self, src: S) {
+    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(
+        &mut self,
+        src: S,
+    ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         self.filter.seed(src, &self.channel_map);
+
+        Ok(())
     }
 
     /// Add interleaved frames to be processed.
@@ -707,57 +720,49 @@ impl EbuR128 {
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i16(&mut self, frames: &[i16]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i32(&mut self, frames: &[i32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f32(&mut self, frames: &[f32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f64(&mut self, frames: &[f64]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i16(&mut self, frames: &[&[i16]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i32(&mut self, frames: &[&[i32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f32(&mut self, frames: &[&[f32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f64(&mut self, frames: &[&[f64]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Get global integrated loudness in LUFS.
-- 
2.43.0


From 1d67dff26118a429c9c385c52af25800371a04d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 3/8] fix: Reject unknown channel types in
 ebur128_set_channel()

Transmuting any other integer to the Channel enum is undefined behaviour.
---
 src/capi.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 34142a4..a83c8ee 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -76,6 +76,11 @@ pub unsafe extern "C" fn ebur128_set_channel(
     channel_number: u32,
     value: i32,
 ) -> i32 {
+    // Only values of the enum can be transmuted below
+    if value < ebur128::Channel::Unused as i32 || value > ebur128::Channel::Bm045 as i32 {
+        return ebur128::Error::InvalidChannelIndex.into();
+    }
+
     let s = &mut *state;
     let e = &mut *s.internal;
 
-- 
2.43.0


From f3ba61f277e01c31064893823d995f8f184f89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 4/8] fix: Do not truncate sample rates passed through the C
 API

E.g. 2^32 + 48000 was accepted as 48000 where unsigned long has 64 bits.
---
 src/capi.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index a83c8ee..c0bdf07 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -26,6 +26,10 @@ pub unsafe extern "C" fn ebur128_init(
     // Same values as our Mode enum
     mode: i32,
 ) -> *mut State {
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ptr::null_mut();
+    }
+
     let e = match ebur128::EbuR128::new(
         channels,
         samplerate as u32,
@@ -105,6 +109,10 @@ pub unsafe extern "C" fn ebur128_change_parameters(
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     let e = &mut *s.internal;
 
     match e.change_parameters(channels, samplerate as u32) {
-- 
2.43.0


From 274b00d36c33a92380f49ac2777dfbbf024571f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 5/8] fix: Report no change of window and history consistently
 in the C API

The requested value was compared before it is raised to the minimum, so that
e.g. setting a window of 100ms on a new state was reported as a change, and
an unlimited history was rejected even if that was the current value.
---
 src/capi.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index c0bdf07..090d95d 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -130,19 +130,22 @@ pub unsafe extern "C" fn ebur128_set_max_window(
     state: *mut State,
     window: std::os::raw::c_ulong,
 ) -> i32 {
-    if window > u32::MAX as std::os::raw::c_ulong {
-        return ebur128::Error::NoMem.into();
-    }
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_window() == window as usize {
+    let old_window = e.max_window();
+    if old_window == window as usize {
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if window > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     match e.set_max_window(window as u32) {
         Err(err) => err.into(),
+        // The value might have been raised to the minimum
+        Ok(_) if e.max_window() == old_window => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
@@ -152,19 +155,22 @@ pub unsafe extern "C" fn ebur128_set_max_history(
     state: *mut State,
     history: std::os::raw::c_ulong,
 ) -> i32 {
-    if history > u32::MAX as std::os::raw::c_ulong {
-        return ebur128::Error::NoMem.into();
-    }
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_history() == history as usize {
+    let old_history = e.max_history();
+    if old_history == history as usize {
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if history > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     match e.set_max_history(history as u32) {
         Err(err) => err.into(),
+        // The value might have been raised to the minimum
+        Ok(_) if e.max_history() == old_history => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
-- 
2.43.0


From 8c9c0084e46abce6dd371190ecded58f783dca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 6/8] fix: Handle NULL pointers for empty arrays in the C API

Creating a slice from a NULL pointer is undefined behaviour.
---
 src/capi.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 090d95d..c25562d 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -19,6 +19,15 @@ pub unsafe extern "C" fn ebur128_get_version(major: *mut i32, minor: *mut i32, p
     *patch = 6;
 }
 
+/// C allows passing NULL for empty arrays but Rust slices must never be NULL.
+unsafe fn slice_from_raw_parts<'a, T>(ptr: *const T, len: usize) -> &'a [T] {
+    if len == 0 {
+        &[]
+    } else {
+        std::slice::from_raw_parts(ptr, len)
+    }
+}
+
 #[no_mangle]
 pub unsafe extern "C" fn ebur128_init(
     channels: u32,
@@ -181,8 +190,6 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
     src: *const i16,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -191,7 +198,7 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i16(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i16(slice_from_raw_parts(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -203,8 +210,6 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
     src: *const i32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -213,7 +218,7 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i32(slice_from_raw_parts(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -225,8 +230,6 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
     src: *const f32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -235,7 +238,7 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f32(slice_from_raw_parts(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -247,8 +250,6 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
     src: *const f64,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -257,7 +258,7 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f64(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f64(slice_from_raw_parts(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -283,9 +284,7 @@ pub unsafe extern "C" fn ebur128_loudness_global_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_raw_parts(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_global_multiple(iter) {
@@ -367,9 +366,7 @@ pub unsafe extern "C" fn ebur128_loudness_range_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_raw_parts(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_range_multiple(iter) {
-- 
2.43.0


From 75f56f6d68df04271b8eaca156dfffae09cf9a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 7/8] fix: Make sure that the audio buffer can hold the block
 for low sample rates

At e.g. 16Hz the 400ms block consists of 8 frames but only 6 frames were
allocated, which caused a panic when adding frames. The same happened to the
3s block used for short-term loudness and the loudness range.
---
 src/ebur128.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index 93bd07b..b6bbf88 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -265,6 +265,15 @@ impl EbuR128 {
         let samples_in_100ms = (rate as usize + 5) / 10;
 
         let mut audio_data_frames = (rate as usize).checked_mul(window).ok_or(Error::NoMem)? / 1000;
+
+        // samples_in_100ms might have been rounded up: the 100ms blocks of the window have to fit
+        audio_data_frames = std::cmp::max(
+            audio_data_frames,
+            samples_in_100ms
+                .checked_mul(window / 100)
+                .ok_or(Error::NoMem)?,
+        );
+
         if audio_data_frames % samples_in_100ms != 0 {
             // round up to multiple of samples_in_100ms
             audio_data_frames = audio_data_frames
-- 
2.43.0


From d287b133f21d5b83bed985eb00bcd1681efdf657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 8/8] fix: Return an error if the audio buffer can't be
 allocated

vec! panics or aborts instead if the window is too big.
---
 src/ebur128.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index b6bbf88..e3d5860 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -282,15 +282,17 @@ impl EbuR128 {
                 - (audio_data_frames % samples_in_100ms);
         }
 
-        let audio_data = vec![
-            0.0;
-            audio_data_frames
-                .checked_mul(channels as usize)
-                .ok_or(Error::NoMem)?
-        ]
-        .into_boxed_slice();
+        let audio_data_len = audio_data_frames
+            .checked_mul(channels as usize)
+            .ok_or(Error::NoMem)?;
+
+        let mut audio_data = Vec::new();
+        audio_data
+            .try_reserve_exact(audio_data_len)
+            .map_err(|_| Error::NoMem)?;
+        audio_data.resize(audio_data_len, 0.0);
 
-        Ok(audio_data)
+        Ok(audio_data.into_boxed_slice())
     }
 
     /// Create a new instance with the given configuration.
-- 
2.43.0


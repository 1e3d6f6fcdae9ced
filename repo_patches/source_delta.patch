From a45ee5f651bff2b7684a7d382e80330ccad979a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 01/33] fix: Mono subtraction added its operands

---
 src/sample_format/mono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mono.rs b/src/sample_format/mono.rs
index a473592..83a0903 100644
--- a/src/sample_format/mono.rs
+++ b/src/sample_format/mono.rs
@@ -86,7 +86,7 @@ impl Sub<Mono> for Mono {
 
     fn sub(self, rhs: Mono) -> Self {
         Mono {
-            mono: self.mono + rhs.mono
+            mono: self.mono - rhs.mono
         }
     }
 }
-- 
2.43.0


From 24d3f5fdad874e303a5b0bd27eb79fad40b4cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 02/33] fix: Stereo::into_sample doubled samples spread by
 from_sample

---
 src/sample_format/stereo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index 65eb571..ebaebc9 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -50,7 +50,7 @@ impl SampleFormat for Stereo
     }
 
     fn into_sample(self) -> SampleT {
-        (self.left + self.right)/SampleT::sqrt(0.5)
+        (self.left + self.right)*SampleT::sqrt(0.5)
     }
 
     fn num_samples() -> usize {
-- 
2.43.0


From ac9fca792dbb06ffa6643b67c49c0d936392fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 03/33] fix: Stereo *= f64 narrowed its operand before
 multiplying, unlike Stereo * f64

---
 src/sample_format/stereo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index ebaebc9..e3712ea 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -192,8 +192,8 @@ impl std::ops::Mul<MathT> for Stereo {
 }
 impl std::ops::MulAssign<MathT> for Stereo {
     fn mul_assign(&mut self, rhs: MathT) {
-        self.left *= rhs as SampleT;
-        self.right *= rhs as SampleT;
+        self.left = (self.left as MathT * rhs) as SampleT;
+        self.right = (self.right as MathT * rhs) as SampleT;
     }
 }
 
-- 
2.43.0


From 05dbdadfa2f9bc0f8f9c16e0ffbbf53fa92c7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 04/33] fix: panning put the signal on the wrong side and
 silenced the left channel in the centre

---
 src/sample_format/stereo.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index e3712ea..d8c0568 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -65,14 +65,14 @@ impl SampleFormat for Stereo
 impl Panner<f32> for Stereo {
     fn to_sample_format(s: SampleT, g: f32) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
@@ -84,14 +84,14 @@ impl Panner<f32> for Stereo {
 impl Panner<f64> for Stereo {
     fn to_sample_format(s: SampleT, g: f64) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
-- 
2.43.0


From 5286239a2e963a81834378666ccfea2dac4b3748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 05/33] fix: 24-bit samples were decoded without sign extension

---
 src/sample_format/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index abd2375..7f86ca8 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -136,11 +136,12 @@ pub fn sample_to_i16_bytes(s: SampleT) -> [u8; 2] {
 
 /// Converts an i32 24-bit sample to a `SampleT`.
 pub fn sample_from_i24(v: i32) -> SampleT {
-    v as SampleT / ((1 << 23) as SampleT - 1.0)
+    // Only the lower 24 bits hold the sample, extend their sign.
+    ((v << 8) >> 8) as SampleT / ((1 << 23) as SampleT - 1.0)
 }
 /// Converts raw bytes to a `SampleT`.
 pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
-    (i32::from_le_bytes([v[0],v[1],v[2],0]) as SampleT) / ((1 << 23) as SampleT - 1.0)
+    sample_from_i24(i32::from_le_bytes([v[0],v[1],v[2],0]))
 }
 
 /// Converts a `SampleT` to an `i24`.
-- 
2.43.0


From cd9924827ede7b38f7b3f5732a1a6ddc71d83ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 06/33] fix: out-of-range samples wrapped around in 24-bit
 conversion instead of saturating

---
 src/sample_format/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index 7f86ca8..b572b0d 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -146,7 +146,7 @@ pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
 
 /// Converts a `SampleT` to an `i24`.
 pub fn sample_to_i24(s: SampleT) -> i32 {
-    (s * ((1<<23) as SampleT - 1.0)).round() as i32
+    ((s * ((1<<23) as SampleT - 1.0)).round() as i32).max(-(1<<23)).min((1<<23) - 1)
 }
 /// Converts a `SampleT` to raw little-endian bytes.
 pub fn sample_to_i24_bytes(s: SampleT) -> [u8; 3] {
-- 
2.43.0


From 02d8e43e550b5369748614d211891fdc66f82d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 07/33] fix: read_wav panicked on a header without channels

---
 src/utils/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6b6ea99..716c299 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -109,6 +109,10 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
 pub fn read_wav(s: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, Vec<SampleTrackT>)> {
     let (h, bd) = wav::read_wav(s)?;
 
+    if h.channel_count == 0 {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "No channels in header, aborting."));
+    }
+
     let mut tracks = Vec::new();
     for _ in 0..h.channel_count {
         tracks.push(SampleTrackT::new());
-- 
2.43.0


From 9ba4942b0f843d5d211a74e8b8ade3ce376b410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 08/33] fix: write_wav wrote a corrupt header when given more
 channels than the format allows

---
 src/utils/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 716c299..a610826 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -184,6 +184,10 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
         return Err(Error::new(ErrorKind::Other, "No channels given, aborting."));
     }
 
+    if tracks.len() * (bps as usize / 8) > u16::max_value() as usize {
+        return Err(Error::new(ErrorKind::Other, "Too many channels given, aborting."));
+    }
+
     let len = tracks[0].len();
 
     for t in &mut tracks {
-- 
2.43.0


From d23ce127f3532c65e05e6c5a5a14b5441b2bdc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 09/33] fix: samples_to_seconds multiplied by the sampling rate
 instead of dividing

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index a610826..96a70a0 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -43,7 +43,7 @@ pub fn clerp<T>(x:T, x1:T, x2:T, y1:T, y2:T) -> T
 
 /// Converts a given sample count to seconds.
 pub fn samples_to_seconds(s: usize) -> std::time::Duration {
-    std::time::Duration::from_secs_f64(s as f64 * SAMPLE_RATE as f64)
+    std::time::Duration::from_secs_f64(s as f64 / SAMPLE_RATE as f64)
 }
 
 /// Converts the given duration to samples, rounded to the nearest sample.
-- 
2.43.0


From 0b5659ac42024c2ef4d83a27521f37cf839c5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 10/33] fix: normalizing a silent or constant track produced
 NaN

---
 src/utils/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 96a70a0..fb2e3f6 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -81,7 +81,11 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
         }
     }
 
-    let factor = db_to_linear(db) as SampleT / max;
+    let factor = if max > 0.0 {
+        db_to_linear(db) as SampleT / max
+    } else {
+        0.0
+    };
 
     for s in t {
         *s = (*s - dc) * factor;
-- 
2.43.0


From f43eab885e84afcb6d82c61f80a90e4772e71ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 11/33] fix: cloning a Delay multiplied its length by the
 sampling rate

---
 src/modifiers/delay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifiers/delay.rs b/src/modifiers/delay.rs
index 70ff81d..8078dda 100644
--- a/src/modifiers/delay.rs
+++ b/src/modifiers/delay.rs
@@ -45,7 +45,7 @@ impl Clone for Delay {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
-- 
2.43.0


From 57e9ae9e1510a42ad33a5ab82d83619794a70e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 12/33] fix: cloning an Echo multiplied its delay by the
 sampling rate

---
 src/modifiers/echo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index cfba8e0..6c77e6a 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -43,7 +43,7 @@ impl Clone for Echo {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
-- 
2.43.0


From c3959f8c5309fe45c1315dbd4eea7a104d52048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 13/33] fix: Echo panicked when its delay was shorter than a
 sample

---
 src/modifiers/echo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index 6c77e6a..de8ff4b 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -17,7 +17,7 @@ impl Echo {
     /// [`Echo`]: struct.Echo.html
     pub fn new(d: Duration, g: MathT) -> Self{
         let mut v = VecDeque::new();
-        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize) {
+        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize).max(1) {
             v.push_back(SampleT::default());
         }
 
-- 
2.43.0


From 1e580a1676744c327282c3b566023aef20c90220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 14/33] fix: Triangle reported a negative frequency, and cloned
 into a falling wave, while falling

---
 src/generators/triangle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/generators/triangle.rs b/src/generators/triangle.rs
index ecc58d4..ccdced6 100644
--- a/src/generators/triangle.rs
+++ b/src/generators/triangle.rs
@@ -8,6 +8,7 @@ use super::*;
 pub struct Triangle {
     irate: MathT,
     inc: MathT,
+    dir: MathT,
 }
 
 impl FreqMod for Triangle {
@@ -15,6 +16,7 @@ impl FreqMod for Triangle {
         Triangle {
             irate: 4.0 * f * INV_SAMPLE_RATE,
             inc: 0.0,
+            dir: 1.0,
         }
     }
 
@@ -31,10 +33,10 @@ impl Generator for Triangle {
     fn process(&mut self) -> SampleT {
         let y = self.inc;
 
-        self.inc += self.irate;
+        self.inc += self.dir * self.irate;
 
         if self.inc >= 1.0 || self.inc <= -1.0 {
-            self.irate = -self.irate;
+            self.dir = -self.dir;
 
             self.inc = if self.inc >= 1.0 {
                 2.0 - self.inc
@@ -51,7 +53,8 @@ impl Clone for Triangle {
     fn clone(&self) -> Self {
         Triangle {
             irate: self.irate,
-            inc: 0.0
+            inc: 0.0,
+            dir: 1.0
         }
     }
 }
-- 
2.43.0


From 3af3b967aa7b39db646361f808377cf2c8cc75cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 15/33] fix: Sine skipped the last wavetable entry and indexed
 out of range above the sampling rate

---
 src/generators/sine.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/generators/sine.rs b/src/generators/sine.rs
index 06121c7..ccfa46c 100644
--- a/src/generators/sine.rs
+++ b/src/generators/sine.rs
@@ -48,20 +48,12 @@ impl Generator for Sine {
     fn process(&mut self) -> SampleT {
         let k = MathT::floor(self.ind);
         let g:MathT = self.ind - k;
-        let k1 = if k+1.0 >= WAVETABLE_SIZE as MathT {
-            0.0
-        } else {
-            k+1.0
-        } as usize;
-        let k = k as usize;
+        let k = k as usize % WAVETABLE_SIZE as usize;
+        let k1 = (k + 1) % WAVETABLE_SIZE as usize;
 
         let y = ((1.0-g)*WAVETABLE[k] + g*WAVETABLE[k1]) as SampleT;
 
-        self.ind += self.inc;
-
-        if self.ind >= (WAVETABLE_SIZE as MathT)-1.0 {
-            self.ind -= WAVETABLE_SIZE as MathT;
-        }
+        self.ind = (self.ind + self.inc).rem_euclid(WAVETABLE_SIZE as MathT);
 
         y
     }
-- 
2.43.0


From a17b141439e3476ed7c85409a024ee89a2df3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 16/33] fix: Generic panicked when its taps were not in
 ascending order

---
 src/modifiers/generic.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/modifiers/generic.rs b/src/modifiers/generic.rs
index 87d4e8d..4acadc8 100644
--- a/src/modifiers/generic.rs
+++ b/src/modifiers/generic.rs
@@ -29,16 +29,8 @@ pub struct Generic {
 impl Generic {
     /// Creates a new Generic filter from the given pole and zero parameters.
     pub fn new(zeros: Zeros, poles: Poles) -> Generic {
-        let z_back = if let Some(z) = zeros.back() {
-            z.0 + 1
-        } else {
-            0
-        };
-        let p_back = if let Some(p) = poles.back() {
-            p.0 + 1
-        } else {
-            0
-        };
+        let z_back = zeros.iter().map(|z| z.0 + 1).max().unwrap_or(0);
+        let p_back = poles.iter().map(|p| p.0 + 1).max().unwrap_or(0);
         Generic {
             zeros,
             poles,
-- 
2.43.0


From 53923e30876e7e90ddd4f4590c1266ff3b464ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 17/33] fix: ADSR output NaN when a zero-length stage had no
 level to cover

---
 src/modifiers/adsr.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index a94f6dd..b98476f 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -41,11 +41,13 @@ impl ADSR {
     /// * `r` - Release time.
     pub fn new(a:Duration,d:Duration,s:MathT,r:Duration) -> Self {
         let s = s.min(0.0);
+        // A stage lasts one sample at the least.
+        let samples = |t: Duration| (t.as_secs_f64() * SAMPLE_RATE as MathT).max(1.0);
         ADSR {
-            a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
-            d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
+            a: (1.0/samples(a)) as SampleT,
+            d: ((db_to_linear(s)-1.0)/samples(d)) as SampleT,
             s: db_to_linear(s) as SampleT,
-            r: ((-db_to_linear(s))/(r.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
+            r: ((-db_to_linear(s))/samples(r)) as SampleT,
             state: ADSRState::Attack,
             g: 0.0
         }
-- 
2.43.0


From 35ff2266fe0df7bb1b4ecc6d518a66ebeac7bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 18/33] fix: set_corner_frequencies disagreed with from_corners
 on the central frequency

---
 src/modifiers/bandpass.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifiers/bandpass.rs b/src/modifiers/bandpass.rs
index 3040ebe..16aaa69 100644
--- a/src/modifiers/bandpass.rs
+++ b/src/modifiers/bandpass.rs
@@ -106,7 +106,7 @@ impl BandPass {
 
     /// Sets the corner frequencies of the filter.
     pub fn set_corner_frequencies(&mut self, f: (MathT,MathT)) {
-        self.central_f = (f.0 * f.1).sqrt();
+        self.central_f = (f.0 * f.1).abs().sqrt();
         self.quality = self.central_f/(f.0-f.1).abs();
 
         self.reset();
-- 
2.43.0


From 1531be964c2a626c94447773fa2d8bd7e7514b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 19/33] fix: StandardChannel::process never produced a sample,
 and would have accumulated passes

---
 src/channels/standard_channel.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 0b0a1dd..4458064 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -29,12 +29,16 @@ impl<SF> StandardChannel<SF>
     /// 
     /// [`set_process_time`]: ../trait.Channel.html#tymethod.set_process_time
     pub fn new(gain: MathT) -> Self {
-        StandardChannel {
-            output: Vec::with_capacity((0.01 * SAMPLE_RATE as MathT) as usize),
+        let mut channel = StandardChannel {
+            output: Vec::new(),
             sounds: HashMap::new(),
             gain: gain as SampleT,
             id_counter: 0
-        }
+        };
+
+        channel.set_process_time(Duration::from_millis(10));
+
+        channel
     }
 
     fn get_id(&mut self) -> usize {
@@ -50,7 +54,8 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     where SF: SampleFormat
 {
     fn set_process_time(&mut self, d: Duration) {
-        self.output = Vec::with_capacity((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize);
+        self.output.clear();
+        self.output.resize_with((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize, SF::default);
     }
 
     fn get_output(&self) -> &Vec<SF> {
@@ -62,11 +67,13 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     }
 
     fn process(&mut self) {
-        self.output.resize_with(self.output.len(), SF::default);
-
         for sample in &mut self.output {
-            for mut sound in &mut self.sounds {
-                *sample += SF::from_sample(Arc::get_mut(&mut sound.1).unwrap().process(Default::default()));
+            *sample = SF::default();
+
+            for sound in self.sounds.values_mut() {
+                if let Some(sound) = Arc::get_mut(sound) {
+                    *sample += SF::from_sample(sound.process(Default::default()));
+                }
             }
 
             *sample *= self.gain;
-- 
2.43.0


From 7a7b5f2d0769ab05f070f5cc77240e699a730797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 20/33] fix: StandardChannel::remove_sound left the removed
 sound registered

---
 src/channels/standard_channel.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 4458064..5a5dbb0 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -87,6 +87,10 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     }
 
     fn remove_sound(&mut self, id: usize) {
-        self.sounds.remove(&id);
+        if let Some(mut sound) = self.sounds.remove(&id) {
+            if let Some(sound) = Arc::get_mut(&mut sound) {
+                sound.unregister();
+            }
+        }
     }
 }
-- 
2.43.0


From 08381d71077590b7cd72511e8ecb7336d4abbe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 21/33] fix: ComplexSound dropped blocks after joins and
 processed blocks before their inputs

---
 src/sounds/complex_sound.rs | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 312cd87..8433459 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -138,19 +138,16 @@ impl ComplexSound {
     fn process_order(&mut self) {
         self.process_order.clear();
 
-        self.process_order.extend(self.graph.externals(petgraph::Direction::Incoming));
-        let mut i = 0;
-        while i < self.process_order.len() {
-            let neighbors = self.graph.neighbors(self.process_order[i]);
-            self.process_order.extend(neighbors);
-
-            let mut j = 0;
-            while j < i {
-                Self::remove_dups(&mut self.process_order, j);
-                j += 1;
+        // Reverse post-order puts every block after the blocks feeding it.
+        let roots: Vec<_> = self.graph.externals(petgraph::Direction::Incoming)
+            .chain(self.graph.node_indices())
+            .collect();
+        let mut dfs = petgraph::visit::DfsPostOrder::empty(&self.graph);
+        for root in roots {
+            dfs.move_to(root);
+            while let Some(node) = dfs.next(&self.graph) {
+                self.process_order.push_front(node);
             }
-
-            i += 1;
         }
 
         let ig = self.input_gain;
@@ -161,21 +158,6 @@ impl ComplexSound {
         self.process_order.push_front(self.input_gain);
         self.process_order.push_back(self.output_gain);
     }
-
-    /// Removes duplicate [`GraphNode`]s from the process order to prevent parsing cycles
-    /// 
-    /// [`GraphNode`]: type.GraphNode.html
-    fn remove_dups(v: &mut ProcessOrder, whitelist: usize) {
-        let mut i = whitelist + 1;
-
-        while i < v.len() {
-            if v[i] == v[whitelist] {
-                v.remove(i);
-            } else {
-                i += 1;
-            }
-        }
-    }
 }
 
 impl Sound for ComplexSound {
-- 
2.43.0


From adcb65943277b8f1001b19200c1468fea0c85b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 22/33] fix: ComplexSound stored up its input until the first
 connection was added

---
 src/sounds/complex_sound.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 8433459..a13ef8f 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -66,7 +66,7 @@ impl ComplexSound {
             )
         );
 
-        ComplexSound {
+        let mut sound = ComplexSound {
             graph,
             process_order: ProcessOrder::new(),
             input_gain,
@@ -74,7 +74,11 @@ impl ComplexSound {
             id: None,
             is_muted: false,
             is_paused: false
-        }
+        };
+
+        sound.process_order();
+
+        sound
     }
 
     /// Returns the ['GraphNode'] containing the input gain [`Modifier`].
@@ -102,7 +106,11 @@ impl ComplexSound {
     /// [`add_connection]: struct.ComplexSound.html#method.add_connection
     /// [`remove_connection]: struct.ComplexSound.html#method.remove_connection
     pub fn add_block(&mut self, block: BlockSP) -> GraphNode {
-        self.graph.add_node(block)
+        let node = self.graph.add_node(block);
+
+        self.process_order();
+
+        node
     }
 
     /// Adds a new connection (edge) between the two given [`GraphNode`]s.
-- 
2.43.0


From ad2098c85ef29542bc5b3a470dc4031c5224c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 23/33] fix: MonoResampler left its loop, read outside its data
 and mis-interpolated at the loop end

---
 src/utils/mono_resampler.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 39b9759..8f65839 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -35,6 +35,7 @@ impl MonoResampler {
         if loop_end < loop_start {
             std::mem::swap(&mut loop_start, &mut loop_end);
         }
+        let loop_end = loop_end.min(data.len());
 
         MonoResampler {
             data,
@@ -58,27 +59,29 @@ impl MonoResampler {
 
     /// Calculates and returns the next sample.
     pub fn process(&mut self) -> SampleT {
-        if self.ind as usize >= self.data.len() && self.loop_end == 0 {
+        let i = self.ind as usize;
+
+        if i >= self.data.len() {
             return SampleT::default();
         }
 
-        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.data.len() && self.loop_end != 0 {
-            self.data[(self.ind - (self.loop_end - self.loop_start) as IndexT) as usize].into_sample()
-        } else if self.ind.trunc() as usize + 1 >= self.data.len() {
-            self.data[self.ind.trunc() as usize].into_sample()
+        let looping = self.loop_end > self.loop_start;
+        let next = if looping && i + 1 >= self.loop_end {
+            self.loop_start
         } else {
-            self.data[(self.ind + 1.0).trunc() as usize].into_sample()
+            i + 1
         };
 
-        let x1: SampleT = self.data[self.ind.trunc() as usize].into_sample();
-        let x2: SampleT = p1;
+        let x1: SampleT = self.data[i].into_sample();
+        let x2: SampleT = self.data.get(next).map_or(x1, |s| s.into_sample());
 
         let y = x1 + self.ind.fract() as SampleT * (x2 - x1);
 
         self.ind += self.inc * self.speed as SampleT;
 
-        if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
-            self.ind -= (self.loop_end - self.loop_start) as IndexT;
+        if looping && self.ind >= self.loop_end as IndexT {
+            self.ind = self.loop_start as IndexT +
+                (self.ind - self.loop_end as IndexT) % (self.loop_end - self.loop_start) as IndexT;
         }
 
         y
-- 
2.43.0


From 9c08bb8c517fc155d49fa5d6ffb60ff4f800fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 24/33] fix: MonoResampler stalled on long tracks because its
 position was single precision

---
 src/utils/mono_resampler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 8f65839..ffdc949 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -7,14 +7,14 @@ use super::*;
 use sample_format::{SampleFormat, MonoTrackT};
 
 /// Type used for fractional indexing.
-type IndexT = SampleT;
+type IndexT = MathT;
 
 /// Struct tracking all of the data required for resampling, with some extra
 /// features like playback speed and looping.
 pub struct MonoResampler {
     data: MonoTrackT,
     ind: IndexT,
-    inc: SampleT,
+    inc: IndexT,
     speed: MathT,
     loop_start: usize,
     loop_end: usize,
@@ -40,7 +40,7 @@ impl MonoResampler {
         MonoResampler {
             data,
             ind: 0.0,
-            inc: (source_sample_rate as MathT * INV_SAMPLE_RATE) as SampleT,
+            inc: source_sample_rate as MathT * INV_SAMPLE_RATE,
             speed: 1.0,
             loop_start,
             loop_end,
@@ -77,7 +77,7 @@ impl MonoResampler {
 
         let y = x1 + self.ind.fract() as SampleT * (x2 - x1);
 
-        self.ind += self.inc * self.speed as SampleT;
+        self.ind += self.inc * self.speed;
 
         if looping && self.ind >= self.loop_end as IndexT {
             self.ind = self.loop_start as IndexT +
-- 
2.43.0


From b6f09bee603a9f3111d9865a1a9e91c8a46065ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 25/33] fix: bin2str could silently truncate its output on a
 short write

---
 utility/bin2str/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utility/bin2str/src/main.rs b/utility/bin2str/src/main.rs
index 69edf81..cfe1340 100644
--- a/utility/bin2str/src/main.rs
+++ b/utility/bin2str/src/main.rs
@@ -57,7 +57,7 @@ fn main() -> std::io::Result<()> {
         binstr.push_str("\n];\n");
 
         let mut out_file = std::fs::File::create("output.rs")?;
-        out_file.write(binstr.as_bytes())?;
+        out_file.write_all(binstr.as_bytes())?;
     // }
 
     Ok(())
-- 
2.43.0


From a830af3c6c29111075fbbc9a0ae071a5dd4b7c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:24 +0000
Subject: [PATCH 26/33] fix: normalize takes the mean in f64 so a constant
 track becomes silence

---
 src/utils/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index fb2e3f6..419c297 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -65,13 +65,13 @@ pub fn db_to_linear(db: MathT) -> MathT {
 /// value.
 pub fn normalize(db: MathT, t: &mut SampleTrackT) {
     let y = t.clone();
-    let mut dc = 0.0;
+    let mut sum = 0.0;
 
     for s in &y {
-        dc += s;
+        sum += *s as MathT;
     }
 
-    dc /= y.len() as SampleT;
+    let dc = (sum / y.len() as MathT) as SampleT;
 
     let mut max = 0.0;
 
-- 
2.43.0


From 88433ea86a32dd57a509cb45a4a6dda8d66d86c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:21 +0000
Subject: [PATCH 27/33] fix: a channel's mix depended on a random iteration
 order

---
 src/channels/standard_channel.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 5a5dbb0..afd9495 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -3,7 +3,7 @@
 use super::*;
 
 use std::sync::Arc;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use crate::sample_format::SampleFormat;
 
 /// Standard implementation of the [`Channel`] trait.
@@ -14,7 +14,7 @@ pub struct StandardChannel<SF>
     where SF: SampleFormat
 {
     output: Vec<SF>,
-    sounds: HashMap<usize, SoundSP>,
+    sounds: BTreeMap<usize, SoundSP>,
     gain: SampleT,
     id_counter: usize
 }
@@ -31,7 +31,7 @@ impl<SF> StandardChannel<SF>
     pub fn new(gain: MathT) -> Self {
         let mut channel = StandardChannel {
             output: Vec::new(),
-            sounds: HashMap::new(),
+            sounds: BTreeMap::new(),
             gain: gain as SampleT,
             id_counter: 0
         };
-- 
2.43.0


From c1d67993b1713913d4ba8444f593a5f60e183d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 28/33] fix: run the low- and high-pass filters in double
 precision, single precision blows up below 45 Hz

---
 src/modifiers/highpass.rs | 83 ++++++++++++++++++++-------------------
 src/modifiers/lowpass.rs  | 20 +++++-----
 2 files changed, 52 insertions(+), 51 deletions(-)

diff --git a/src/modifiers/highpass.rs b/src/modifiers/highpass.rs
index 599ffcb..75f0b93 100644
--- a/src/modifiers/highpass.rs
+++ b/src/modifiers/highpass.rs
@@ -8,20 +8,20 @@ use super::*;
 /// High pass filter adapted from the 3rd Order Butterworth Low Pass Filter with
 /// resonance.
 pub struct HighPass {
-    a0: SampleT,
-    a1: SampleT,
-    a2: SampleT,
-    a3: SampleT,
-    b1: SampleT,
-    b2: SampleT,
-    b3: SampleT,
-
-    x1: SampleT,
-    x2: SampleT,
-    x3: SampleT,
-    y1: SampleT,
-    y2: SampleT,
-    y3: SampleT,
+    a0: MathT,
+    a1: MathT,
+    a2: MathT,
+    a3: MathT,
+    b1: MathT,
+    b2: MathT,
+    b3: MathT,
+
+    x1: MathT,
+    x2: MathT,
+    x3: MathT,
+    y1: MathT,
+    y2: MathT,
+    y3: MathT,
 
     fc: MathT,
     r: MathT
@@ -40,19 +40,19 @@ impl HighPass {
         let fc = fc.min(SAMPLE_RATE as MathT / 2.0);
         let r = r.min(1.0).max(0.0);
         let mut hp = HighPass {
-            a0: SampleT::default(),
-            a1: SampleT::default(),
-            a2: SampleT::default(),
-            a3: SampleT::default(),
-            b1: SampleT::default(),
-            b2: SampleT::default(),
-            b3: SampleT::default(),
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            a0: MathT::default(),
+            a1: MathT::default(),
+            a2: MathT::default(),
+            a3: MathT::default(),
+            b1: MathT::default(),
+            b2: MathT::default(),
+            b3: MathT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc,
             r,
         };
@@ -95,19 +95,20 @@ impl HighPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.a0 = ( 1.0/g) as SampleT;
-        self.a1 = (-3.0/g) as SampleT;
-        self.a2 = ( 3.0/g) as SampleT;
-        self.a3 = (-1.0/g) as SampleT;
+        self.a0 = 1.0/g;
+        self.a1 = -3.0/g;
+        self.a2 = 3.0/g;
+        self.a3 = -1.0/g;
 
-        self.b1 = ((k*t.powf(2.0) + 2.0*k*t + 3.0)/g) as SampleT;
-        self.b2 = ((-k*t - 3.0)/g) as SampleT;
-        self.b3 = (1.0/g) as SampleT;
+        self.b1 = (k*t.powf(2.0) + 2.0*k*t + 3.0)/g;
+        self.b2 = (-k*t - 3.0)/g;
+        self.b3 = 1.0/g;
     }
 }
 
 impl Modifier for HighPass {
     fn process(&mut self, x: SampleT) -> SampleT {
+        let x = x as MathT;
         let y = self.a0*x + self.a1*self.x1 + self.a2*self.x2 + self.a3*self.x3 +
             self.b1*self.y1 + self.b2*self.y2 + self.b3*self.y3;
 
@@ -118,7 +119,7 @@ impl Modifier for HighPass {
         self.y2 = self.y1;
         self.y1 = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -132,12 +133,12 @@ impl Clone for HighPass {
             b1: self.b1,
             b2: self.b2,
             b3: self.b3,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc: self.fc,
             r: self.r,
         }
diff --git a/src/modifiers/lowpass.rs b/src/modifiers/lowpass.rs
index 3810279..44cf4f8 100644
--- a/src/modifiers/lowpass.rs
+++ b/src/modifiers/lowpass.rs
@@ -9,8 +9,8 @@ use super::*;
 pub struct LowPass {
     fc: MathT,
     r: MathT,
-    coeff: [SampleT; 4],
-    outs: [SampleT; 3]
+    coeff: [MathT; 4],
+    outs: [MathT; 3]
 }
 
 impl LowPass {
@@ -30,7 +30,7 @@ impl LowPass {
             fc,
             r,
             coeff: [0.0; 4],
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         };
 
         lp.reset();
@@ -71,16 +71,16 @@ impl LowPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.coeff[0] = (t.powf(3.0) / g) as SampleT;
-        self.coeff[1] = ((k*t.powf(2.0) + 2.0*k*t + 3.0) / g) as SampleT;
-        self.coeff[2] = ((-k*t - 3.0) / g) as SampleT;
-        self.coeff[3] = (1.0 / g) as SampleT;
+        self.coeff[0] = t.powf(3.0) / g;
+        self.coeff[1] = (k*t.powf(2.0) + 2.0*k*t + 3.0) / g;
+        self.coeff[2] = (-k*t - 3.0) / g;
+        self.coeff[3] = 1.0 / g;
     }
 }
 
 impl Modifier for LowPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = self.coeff[0]*x +
+        let y = self.coeff[0]*x as MathT +
                 self.coeff[1]*self.outs[0] +
                 self.coeff[2]*self.outs[1] +
                 self.coeff[3]*self.outs[2];
@@ -89,7 +89,7 @@ impl Modifier for LowPass {
         self.outs[1] = self.outs[0];
         self.outs[0] = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -99,7 +99,7 @@ impl Clone for LowPass {
             fc: self.fc,
             r: self.r,
             coeff: self.coeff,
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         }
     }
 }
-- 
2.43.0


From bf1c280ba785e0b9754e57eb49fc5617ea068ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 29/33] fix: keep the ADSR gain in double precision, long
 stages ran at the wrong rate or never ended

---
 src/modifiers/adsr.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index b98476f..ea4f0dd 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -22,12 +22,12 @@ pub enum ADSRState {
 /// 
 /// Creates a simple envelope for the given signal.
 pub struct ADSR {
-    a:SampleT,
-    d:SampleT,
-    s:SampleT,
-    r:SampleT,
+    a:MathT,
+    d:MathT,
+    s:MathT,
+    r:MathT,
     state:ADSRState,
-    g:SampleT,
+    g:MathT,
 }
 
 impl ADSR {
@@ -44,10 +44,10 @@ impl ADSR {
         // A stage lasts one sample at the least.
         let samples = |t: Duration| (t.as_secs_f64() * SAMPLE_RATE as MathT).max(1.0);
         ADSR {
-            a: (1.0/samples(a)) as SampleT,
-            d: ((db_to_linear(s)-1.0)/samples(d)) as SampleT,
-            s: db_to_linear(s) as SampleT,
-            r: ((-db_to_linear(s))/samples(r)) as SampleT,
+            a: 1.0/samples(a),
+            d: (db_to_linear(s)-1.0)/samples(d),
+            s: db_to_linear(s),
+            r: (-db_to_linear(s))/samples(r),
             state: ADSRState::Attack,
             g: 0.0
         }
@@ -88,7 +88,7 @@ impl Modifier for ADSR {
             ADSRState::Stopped => return SampleT::default(),
         }
 
-        x * self.g
+        (x as MathT * self.g) as SampleT
     }
 }
 
-- 
2.43.0


From e75ace096060cf68821050b6614a95816415a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:41 +0000
Subject: [PATCH 30/33] fix: count the samples of an echo or a processing pass
 in integers, the rounded product could fall one short

---
 src/channels/standard_channel.rs | 2 +-
 src/modifiers/echo.rs            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index afd9495..cf0a3cc 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -55,7 +55,7 @@ impl<SF> Channel<SF> for StandardChannel<SF>
 {
     fn set_process_time(&mut self, d: Duration) {
         self.output.clear();
-        self.output.resize_with((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize, SF::default);
+        self.output.resize_with((d.as_nanos() * SAMPLE_RATE as u128 / 1_000_000_000) as usize, SF::default);
     }
 
     fn get_output(&self) -> &Vec<SF> {
diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index de8ff4b..a92174a 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -17,7 +17,7 @@ impl Echo {
     /// [`Echo`]: struct.Echo.html
     pub fn new(d: Duration, g: MathT) -> Self{
         let mut v = VecDeque::new();
-        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize).max(1) {
+        for _ in 0..((d.as_nanos() * SAMPLE_RATE as u128 / 1_000_000_000) as usize).max(1) {
             v.push_back(SampleT::default());
         }
 
-- 
2.43.0


From 4c5f425b7a25995a908606ed01d652cb1e410585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:08 +0000
Subject: [PATCH 31/33] fix: keep the band-pass feedback in double precision,
 below 2 Hz a constant came out a hundredfold instead of being blocked

---
 src/modifiers/bandpass.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/modifiers/bandpass.rs b/src/modifiers/bandpass.rs
index 16aaa69..56d07e5 100644
--- a/src/modifiers/bandpass.rs
+++ b/src/modifiers/bandpass.rs
@@ -11,8 +11,8 @@ pub struct BandPass {
     b2: MathT,
     x1: SampleT,
     x2: SampleT,
-    y1: SampleT,
-    y2: SampleT,
+    y1: MathT,
+    y2: MathT,
 }
 
 impl BandPass {
@@ -30,8 +30,8 @@ impl BandPass {
             b2: 0.0,
             x1: SampleT::default(),
             x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         };
 
         bp.reset();
@@ -49,8 +49,8 @@ impl BandPass {
             b2: 0.0,
             x1: SampleT::default(),
             x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         };
 
         bp.reset();
@@ -132,16 +132,16 @@ impl BandPass {
 
 impl Modifier for BandPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = (self.a0 * (x - self.x2) as MathT +
-            self.b1 * self.y1 as MathT - 
-            self.b2 * self.y2 as MathT) as SampleT;
+        let y = self.a0 * (x - self.x2) as MathT +
+            self.b1 * self.y1 - 
+            self.b2 * self.y2;
 
         self.y2 = self.y1;
         self.y1 = y;
         self.x2 = self.x1;
         self.x1 = x;
 
-        y
+        y as SampleT
     }
 }
 
@@ -162,8 +162,8 @@ impl Clone for BandPass {
             b2: self.b2,
             x1: SampleT::default(),
             x2: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
         }
     }
 }
-- 
2.43.0


From b13e22892c484539dd521c1c7025d30d86bc7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:24 +0000
Subject: [PATCH 32/33] fix: run the envelope follower in double precision,
 slow settings never reached the level they follow

---
 src/modifiers/envelope.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/modifiers/envelope.rs b/src/modifiers/envelope.rs
index c7f92b8..ef50101 100644
--- a/src/modifiers/envelope.rs
+++ b/src/modifiers/envelope.rs
@@ -5,13 +5,13 @@ use super::*;
 /// Envelope Follower filter. I don't remember my lectures well enough to write
 /// a detailed description.
 pub struct Envelope {
-    au: SampleT,
-    bu: SampleT,
-    ad: SampleT,
-    bd: SampleT,
+    au: MathT,
+    bu: MathT,
+    ad: MathT,
+    bd: MathT,
 
     x1: SampleT,
-    y1: SampleT,
+    y1: MathT,
 }
 
 impl Envelope {
@@ -20,8 +20,8 @@ impl Envelope {
     /// 
     /// [`Envelope`]: struct.Envelope.html
     pub fn new(lower: SampleT, upper: SampleT) -> Envelope{
-        let theta_u = (std::f32::consts::PI * upper * INV_SAMPLE_RATE as SampleT).tan();
-        let theta_d = (std::f32::consts::PI * lower * INV_SAMPLE_RATE as SampleT).tan();
+        let theta_u = (std::f64::consts::PI * upper as MathT * INV_SAMPLE_RATE).tan();
+        let theta_d = (std::f64::consts::PI * lower as MathT * INV_SAMPLE_RATE).tan();
 
         Envelope {
             au: theta_u / (1.0 + theta_u),
@@ -30,23 +30,24 @@ impl Envelope {
             bd: (1.0 - theta_d) / (1.0 + theta_d),
 
             x1: SampleT::default(),
-            y1: SampleT::default(),
+            y1: MathT::default(),
         }
     }
 }
 
 impl Modifier for Envelope {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = if x.abs() > self.y1 {
-            self.au * (x.abs() + self.x1.abs()) + self.bu * self.y1
+        let (a, a1) = (x.abs() as MathT, self.x1.abs() as MathT);
+        let y = if a > self.y1 {
+            self.au * (a + a1) + self.bu * self.y1
         } else {
-            self.ad * (x.abs() + self.x1.abs()) + self.bd * self.y1
+            self.ad * (a + a1) + self.bd * self.y1
         };
 
         self.y1 = y;
         self.x1 = x;
 
-        y
+        y as SampleT
     }
 }
 
-- 
2.43.0


From 7167343d5539f597f0445d74a420f1752eea623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:17 +0000
Subject: [PATCH 33/33] fix: write_wav loses no bytes when the destination
 takes fewer than offered

---
 src/utils/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 419c297..e758261 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -209,6 +209,10 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
         }
     }
 
+    // The encoder ignores how much of its data a destination takes, so the
+    // file is encoded in memory first and handed over whole.
+    let mut encoded = Vec::new();
+
     match bps {
         8 => {
             let mut v = Vec::new();
@@ -222,7 +226,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Eight(v),
-                d
+                &mut encoded
             )?;
         },
         16 => {
@@ -237,7 +241,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Sixteen(v),
-                d
+                &mut encoded
             )?;
         },
         24 => {
@@ -252,11 +256,11 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::TwentyFour(v),
-                d
+                &mut encoded
             )?;
         },
         _ => return Err(Error::new(ErrorKind::Other, "Unsupported bit depth, aborting.")),
     }
 
-    Ok(())
+    d.write_all(&encoded)
 }
-- 
2.43.0


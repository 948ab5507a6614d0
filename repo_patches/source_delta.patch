From 3e4c4130e86917ca40162d68c14e3a2e009481fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:03 +0000
Subject: [PATCH 01/32] fix: reset Reverb predelay allpasses and set their
 sample rate

---
 src/reverb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index d3e2545..314bce9 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -217,6 +217,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     type Outputs = U2;
 
     fn reset(&mut self) {
+        for x in self.pre.iter_mut() {
+            x.reset();
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.reset();
@@ -232,6 +235,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        for x in self.pre.iter_mut() {
+            x.set_sample_rate(sample_rate);
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.set_sample_rate(sample_rate);
-- 
2.43.0


From c01ef5b0777aa43fac71f12b4ad2287ce8ecaca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:03 +0000
Subject: [PATCH 02/32] fix: preallocate the loop filters of Reverb

---
 src/reverb.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index 314bce9..df895d2 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -282,4 +282,11 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
         Routing::Arbitrary(0.0).route(input, 2)
     }
+
+    fn allocate(&mut self) {
+        for block in self.block.iter_mut() {
+            block.filter0.allocate();
+            block.filter1.allocate();
+        }
+    }
 }
-- 
2.43.0


From 71218638fa1e5c1bc95094afad164e5c2d48a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:03 +0000
Subject: [PATCH 03/32] fix: SettingListener applies received settings to the
 contained node

---
 src/setting.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/setting.rs b/src/setting.rs
index 3b1770b..b055210 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -306,6 +306,10 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.x.process(size, input, output);
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
-- 
2.43.0


From ab6717ec6045402c5222f5e8d8104728e8c6cd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:03 +0000
Subject: [PATCH 04/32] fix: SettingListener preallocates the contained node

---
 src/setting.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/setting.rs b/src/setting.rs
index b055210..88a2fe1 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -318,4 +318,8 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.receive_settings();
         self.x.route(input, frequency)
     }
+
+    fn allocate(&mut self) {
+        self.x.allocate();
+    }
 }
-- 
2.43.0


From fbc9bdd7d04e449d1ff9737151cc607282cac921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:03 +0000
Subject: [PATCH 05/32] fix: Feedback2 preallocates its feedback processing
 node

---
 src/feedback.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feedback.rs b/src/feedback.rs
index f24ad25..de104df 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -267,6 +267,7 @@ where
 
     fn allocate(&mut self) {
         self.x.allocate();
+        self.y.allocate();
     }
 }
 
-- 
2.43.0


From 91a843f0873e408df97dba0ff0f1bbfc7cd1bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:41 +0000
Subject: [PATCH 06/32] fix: DummyUnit clears the whole block

---
 src/audiounit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audiounit.rs b/src/audiounit.rs
index 43c5fe0..b33ae3c 100644
--- a/src/audiounit.rs
+++ b/src/audiounit.rs
@@ -675,7 +675,7 @@ impl AudioUnit for DummyUnit {
 
     fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
         for channel in 0..self.outputs {
-            output.channel_f32_mut(channel)[0..simd_items(size)].fill(0.0);
+            output.channel_mut(channel)[0..simd_items(size)].fill(F32x::ZERO);
         }
     }
 
-- 
2.43.0


From db98d94ecfd9820d729645bbb067699c696a1569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:42 +0000
Subject: [PATCH 07/32] fix: U90 is 90

---
 src/hacker.rs   | 2 +-
 src/hacker32.rs | 2 +-
 src/prelude.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hacker.rs b/src/hacker.rs
index eb30894..bd5bd75 100644
--- a/src/hacker.rs
+++ b/src/hacker.rs
@@ -135,7 +135,7 @@ pub type U86 = numeric_array::typenum::U86;
 pub type U87 = numeric_array::typenum::U87;
 pub type U88 = numeric_array::typenum::U88;
 pub type U89 = numeric_array::typenum::U89;
-pub type U90 = numeric_array::typenum::U80;
+pub type U90 = numeric_array::typenum::U90;
 pub type U91 = numeric_array::typenum::U91;
 pub type U92 = numeric_array::typenum::U92;
 pub type U93 = numeric_array::typenum::U93;
diff --git a/src/hacker32.rs b/src/hacker32.rs
index 5e2dd2b..bdf24bb 100644
--- a/src/hacker32.rs
+++ b/src/hacker32.rs
@@ -135,7 +135,7 @@ pub type U86 = numeric_array::typenum::U86;
 pub type U87 = numeric_array::typenum::U87;
 pub type U88 = numeric_array::typenum::U88;
 pub type U89 = numeric_array::typenum::U89;
-pub type U90 = numeric_array::typenum::U80;
+pub type U90 = numeric_array::typenum::U90;
 pub type U91 = numeric_array::typenum::U91;
 pub type U92 = numeric_array::typenum::U92;
 pub type U93 = numeric_array::typenum::U93;
diff --git a/src/prelude.rs b/src/prelude.rs
index c76eb49..45e4bee 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -134,7 +134,7 @@ pub type U86 = numeric_array::typenum::U86;
 pub type U87 = numeric_array::typenum::U87;
 pub type U88 = numeric_array::typenum::U88;
 pub type U89 = numeric_array::typenum::U89;
-pub type U90 = numeric_array::typenum::U80;
+pub type U90 = numeric_array::typenum::U90;
 pub type U91 = numeric_array::typenum::U91;
 pub type U92 = numeric_array::typenum::U92;
 pub type U93 = numeric_array::typenum::U93;
-- 
2.43.0


From 8759ab06eba628683f2ad1afc1500eb9dd25c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:42 +0000
Subject: [PATCH 08/32] fix: Granular preallocates its sequencer

---
 src/granular.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/granular.rs b/src/granular.rs
index c16492c..248daf7 100644
--- a/src/granular.rs
+++ b/src/granular.rs
@@ -231,4 +231,8 @@ impl<
     fn footprint(&self) -> usize {
         core::mem::size_of::<Self>()
     }
+
+    fn allocate(&mut self) {
+        self.sequencer.allocate();
+    }
 }
-- 
2.43.0


From 1230bcb20468faf75467a62b801294f2434f7e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:42 +0000
Subject: [PATCH 09/32] fix: Net forwards sample rate to units that are waiting
 to be faded in

---
 src/net.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 5fe667c..8ca0989 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1318,12 +1318,24 @@ impl AudioUnit for Net {
             self.sample_rate = sample_rate;
             for vertex in &mut self.vertex {
                 vertex.unit.set_sample_rate(sample_rate as f64);
+                // Units waiting to be faded in must follow the sample rate, too.
+                if let Some(next) = vertex.next.unit.as_deref_mut() {
+                    next.set_sample_rate(sample_rate as f64);
+                }
+                if let Some(latest) = vertex.latest.unit.as_deref_mut() {
+                    latest.set_sample_rate(sample_rate as f64);
+                }
                 // Sample rate change counts as a change
                 // to be sent to the backend because
                 // we cannot change sample rate in the backend
                 // - it may allocate or do something else inappropriate.
                 vertex.changed = self.revision;
             }
+            for edit in self.edit_queue.iter_mut() {
+                if let Some(unit) = edit.unit.as_deref_mut() {
+                    unit.set_sample_rate(sample_rate as f64);
+                }
+            }
             // Take the opportunity to unload some calculations.
             if !self.is_ordered() {
                 self.determine_order();
-- 
2.43.0


From 42aa5b7eb58131883004384b96ca7e6256d8eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:42 +0000
Subject: [PATCH 10/32] fix: Net resets units that are waiting to be faded in

---
 src/net.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 8ca0989..6d87477 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1346,12 +1346,24 @@ impl AudioUnit for Net {
     fn reset(&mut self) {
         for vertex in &mut self.vertex {
             vertex.unit.reset();
+            // Units waiting to be faded in are reset as well.
+            if let Some(next) = vertex.next.unit.as_deref_mut() {
+                next.reset();
+            }
+            if let Some(latest) = vertex.latest.unit.as_deref_mut() {
+                latest.reset();
+            }
             // Reseting a unit counts as a change
             // to be sent to the backend because
             // we cannot reset in the backend
             // - it may allocate or do something else inappropriate.
             vertex.changed = self.revision;
         }
+        for edit in self.edit_queue.iter_mut() {
+            if let Some(unit) = edit.unit.as_deref_mut() {
+                unit.reset();
+            }
+        }
         // Take the opportunity to unload some calculations.
         if !self.is_ordered() {
             self.determine_order();
-- 
2.43.0


From 0a5fa35bd5be846bfb1a5e0d7b6daa6034f39bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:12 +0000
Subject: [PATCH 11/32] fix: feedback, resampling and backend wrappers forward
 settings to the contained node

---
 src/feedback.rs   | 9 +++++++++
 src/oversample.rs | 5 +++++
 src/realnet.rs    | 5 +++++
 src/resample.rs   | 5 +++++
 4 files changed, 24 insertions(+)

diff --git a/src/feedback.rs b/src/feedback.rs
index de104df..31bb683 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -4,6 +4,7 @@ use super::audionode::*;
 use super::audiounit::*;
 use super::buffer::*;
 use super::math::*;
+use super::setting::*;
 use super::signal::*;
 use super::*;
 use core::marker::PhantomData;
@@ -149,6 +150,10 @@ where
         Routing::Arbitrary(0.0).route(input, self.outputs())
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
@@ -426,6 +431,10 @@ impl AudioUnit for FeedbackUnit {
         ID
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(self.get_id()))
     }
diff --git a/src/oversample.rs b/src/oversample.rs
index 3cf7f3a..bd63098 100644
--- a/src/oversample.rs
+++ b/src/oversample.rs
@@ -2,6 +2,7 @@
 
 use super::audionode::*;
 use super::math::*;
+use super::setting::*;
 use super::signal::*;
 use super::*;
 use numeric_array::typenum::*;
@@ -283,6 +284,10 @@ where
         self.x.route(input, frequency)
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
diff --git a/src/realnet.rs b/src/realnet.rs
index df663de..bd83312 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -140,6 +140,11 @@ impl AudioUnit for NetBackend {
         self.net.get_id()
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.handle_messages();
+        self.net.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.handle_messages();
         self.net.ping(probe, hash)
diff --git a/src/resample.rs b/src/resample.rs
index e9832cc..6fdf194 100644
--- a/src/resample.rs
+++ b/src/resample.rs
@@ -2,6 +2,7 @@
 
 use super::audionode::*;
 use super::math::*;
+use super::setting::*;
 use super::signal::*;
 use super::*;
 use numeric_array::typenum::*;
@@ -99,6 +100,10 @@ where
         super::signal::Routing::Generator(0.0).route(input, self.outputs())
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
-- 
2.43.0


From 40b18c45751f929c3dd1166e8f0985ee09fb2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:38 +0000
Subject: [PATCH 12/32] fix: NetBackend adopts pending commits before resetting
 or changing sample rate

---
 src/realnet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/realnet.rs b/src/realnet.rs
index bd83312..c08fe1e 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -117,13 +117,13 @@ impl AudioUnit for NetBackend {
     }
 
     fn reset(&mut self) {
-        self.net.reset();
         self.handle_messages();
+        self.net.reset();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-        self.net.set_sample_rate(sample_rate);
         self.handle_messages();
+        self.net.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &[f32], output: &mut [f32]) {
-- 
2.43.0


From fda999111143d886fc2843bdd4c9546f508b512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:53 +0000
Subject: [PATCH 13/32] fix: SlotBackend seeds all nodes of the contained units

---
 src/slot.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/slot.rs b/src/slot.rs
index d061459..ef45be8 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -291,12 +291,12 @@ impl AudioUnit for SlotBackend {
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         if !probe {
-            self.current.set_hash(hash.state());
+            self.current.ping(probe, hash.clone());
             if let Some(next) = self.next.as_deref_mut() {
-                next.set_hash(hash.state());
+                next.ping(probe, hash.clone());
             }
             if let Some(latest) = self.latest.as_deref_mut() {
-                latest.set_hash(hash.state());
+                latest.ping(probe, hash.clone());
             }
         }
         hash.hash(self.get_id())
-- 
2.43.0


From ae6a6d13b50079323312276c6e016ac6f944f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:53 +0000
Subject: [PATCH 14/32] fix: Reverb passes the hash on to its loop filters

---
 src/reverb.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index df895d2..22dd6b0 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -283,6 +283,15 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
         Routing::Arbitrary(0.0).route(input, 2)
     }
 
+    fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
+        let mut hash = hash.hash(Self::ID);
+        for block in self.block.iter_mut() {
+            hash = block.filter0.ping(probe, hash);
+            hash = block.filter1.ping(probe, hash);
+        }
+        hash
+    }
+
     fn allocate(&mut self) {
         for block in self.block.iter_mut() {
             block.filter0.allocate();
-- 
2.43.0


From c87ea4994d441b9d0ba73057179b612fc86499bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:31 +0000
Subject: [PATCH 15/32] fix: TapLinear and Chain have IDs of their own

---
 src/audionode.rs | 2 +-
 src/delay.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/audionode.rs b/src/audionode.rs
index c02518e..2213ef3 100644
--- a/src/audionode.rs
+++ b/src/audionode.rs
@@ -2384,7 +2384,7 @@ where
     N: Size<f32> + Size<X>,
     X: AudioNode,
 {
-    const ID: u64 = 32;
+    const ID: u64 = 100;
     type Inputs = X::Inputs;
     type Outputs = X::Outputs;
 
diff --git a/src/delay.rs b/src/delay.rs
index 8bb1f8c..6cba1ab 100644
--- a/src/delay.rs
+++ b/src/delay.rs
@@ -424,7 +424,7 @@ where
     N: Size<f32> + Add<U1>,
     <N as Add<U1>>::Output: Size<f32>,
 {
-    const ID: u64 = 50;
+    const ID: u64 = 99;
     type Inputs = Sum<N, U1>;
     type Outputs = U1;
 
-- 
2.43.0


From b51f593371bef186d34b44f3d2c52fa894034f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:19 +0000
Subject: [PATCH 16/32] fix: envelopes update the slope of the current segment
 when the sample rate changes

---
 src/envelope.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 5d2366a..4a9ce34 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -123,6 +123,12 @@ where
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.sample_duration = convert(1.0 / sample_rate);
+        if self.t_1 > self.t_0 {
+            // Update the slope of the current segment.
+            let samples = (self.t_1 - self.t_0) / self.sample_duration;
+            self.value_d =
+                Frame::generate(|i| (self.value_1[i] - self.value_0[i]) / samples.to_f32());
+        }
     }
 
     #[inline]
@@ -299,6 +305,12 @@ where
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.sample_duration = convert(1.0 / sample_rate);
+        if self.t_1 > self.t_0 {
+            // Update the slope of the current segment.
+            let samples = (self.t_1 - self.t_0) / self.sample_duration;
+            self.value_d =
+                Frame::generate(|i| (self.value_1[i] - self.value_0[i]) / samples.to_f32());
+        }
     }
 
     #[inline]
-- 
2.43.0


From ccc01f9ec3d1378a3459f4792d3af457b040a44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:48 +0000
Subject: [PATCH 17/32] fix: Limiter::reset resets the follower

---
 src/dynamics.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index f30f263..4a0fce9 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -180,6 +180,7 @@ where
     type Outputs = N;
 
     fn reset(&mut self) {
+        self.follower.reset();
         self.set_sample_rate(self.sample_rate);
     }
 
-- 
2.43.0


From b5bfc3815d3d821ccde643be33c046ee7177e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:48 +0000
Subject: [PATCH 18/32] fix: Limiter::allocate reserves room for the whole
 lookahead buffer

---
 src/dynamics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 4a0fce9..97664da 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -233,7 +233,7 @@ where
     fn allocate(&mut self) {
         if self.buffer.capacity() < self.reducer.length() {
             self.buffer
-                .reserve(self.reducer.length() - self.buffer.capacity());
+                .reserve(self.reducer.length() - self.buffer.len());
         }
     }
 }
-- 
2.43.0


From 4bccd91f227db067ca5a8e85bbbad0b267adcd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:48 +0000
Subject: [PATCH 19/32] fix: a new Adaptive shape starts from the same level as
 after a reset

---
 src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 6a349c4..1f52e33 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -178,7 +178,7 @@ impl<S: Shape> Adaptive<S> {
             inner,
             timescale,
             smoothing: 0.0,
-            state: 0.0,
+            state: 1.0e-3,
         };
         adaptive.set_sample_rate(DEFAULT_SR);
         adaptive
-- 
2.43.0


From 975500cd2ac6c7526e7edbd83082570d813ff54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:48 +0000
Subject: [PATCH 20/32] fix: adsr_live keeps its state per instance and starts
 over after a reset

---
 src/adsr.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/adsr.rs b/src/adsr.rs
index 8cec74d..206e024 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -15,7 +15,7 @@
 //! connected MIDI input device it finds, and play the corresponding pitches with the volume moderated by
 //! an `adsr_live()` envelope.
 
-use super::prelude::{clamp01, delerp, envelope2, lerp, shared, var, An, EnvelopeIn, Frame, U1};
+use super::prelude::{clamp01, delerp, envelope2, lerp, An, EnvelopeIn, Frame, U1};
 use super::Real;
 
 pub fn adsr_live(
@@ -26,27 +26,25 @@ pub fn adsr_live(
 ) -> An<EnvelopeIn<f32, impl FnMut(f32, &Frame<f32, U1>) -> f32 + Clone, U1, f32>> {
     let neg1 = -1.0;
     let zero = 0.0;
-    let a = shared(zero);
-    let b = shared(neg1);
-    let attack_start = var(&a);
-    let release_start = var(&b);
+    let mut attack_start = zero;
+    let mut release_start = neg1;
     envelope2(move |time, control| {
-        if release_start.value() >= zero && control > zero {
-            attack_start.set_value(time);
-            release_start.set_value(neg1);
-        } else if release_start.value() < zero && control <= zero {
-            release_start.set_value(time);
+        if time == zero {
+            // The envelope was just created or reset.
+            attack_start = zero;
+            release_start = neg1;
         }
-        let ads_value = ads(attack, decay, sustain, time - attack_start.value());
-        if release_start.value() < zero {
+        if release_start >= zero && control > zero {
+            attack_start = time;
+            release_start = neg1;
+        } else if release_start < zero && control <= zero {
+            release_start = time;
+        }
+        let ads_value = ads(attack, decay, sustain, time - attack_start);
+        if release_start < zero {
             ads_value
         } else {
-            ads_value
-                * clamp01(delerp(
-                    release_start.value() + release,
-                    release_start.value(),
-                    time,
-                ))
+            ads_value * clamp01(delerp(release_start + release, release_start, time))
         }
     })
 }
-- 
2.43.0


From 01fed469a6cebdc6e4f4caa94547f9bbae3d9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:02 +0000
Subject: [PATCH 21/32] fix: nonlinear biquads pass the sample rate on to their
 shapes

---
 src/biquad.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/biquad.rs b/src/biquad.rs
index 11929b1..a99b010 100644
--- a/src/biquad.rs
+++ b/src/biquad.rs
@@ -533,6 +533,7 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FbBiquad<F, M, S> {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        self.shape.set_sample_rate(sample_rate);
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
     }
@@ -676,6 +677,7 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FixedFbBiquad<F, M, S> {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        self.shape.set_sample_rate(sample_rate);
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
     }
@@ -743,6 +745,8 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for DirtyBiquad<F, M, S> {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        self.shape1.set_sample_rate(sample_rate);
+        self.shape2.set_sample_rate(sample_rate);
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
     }
@@ -896,6 +900,8 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FixedDirtyBiquad<F, M, S
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        self.shape1.set_sample_rate(sample_rate);
+        self.shape2.set_sample_rate(sample_rate);
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
     }
-- 
2.43.0


From deebc8b9c04adb98be8961f9a1cccba330f82781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:47 +0000
Subject: [PATCH 22/32] fix: graph backend adopts every committed version in
 order

---
 src/net.rs     | 13 -------------
 src/realnet.rs | 43 +++++++++++++++----------------------------
 2 files changed, 15 insertions(+), 41 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 6d87477..ebd57be 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1288,19 +1288,6 @@ impl Net {
         }
         self.edit_queue.clear();
     }
-
-    /// Apply all edits from another network into this network.
-    pub(crate) fn apply_foreign_edits(
-        &mut self,
-        source: &mut Net,
-        sender: &Option<Sender<NetReturn>>,
-    ) {
-        for edit in source.edit_queue.iter_mut() {
-            if let Some(index) = self.node_index.get(&edit.id) {
-                self.vertex[*index].enqueue(edit, sender);
-            }
-        }
-    }
 }
 
 impl AudioUnit for Net {
diff --git a/src/realnet.rs b/src/realnet.rs
index c08fe1e..1484119 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -61,25 +61,26 @@ impl NetBackend {
 
     /// Handle changes made to the backend.
     fn handle_messages(&mut self) {
-        let mut latest_net: Option<Net> = None;
         #[allow(clippy::while_let_loop)]
         loop {
             match self.receiver.try_recv() {
                 Ok(message) => {
                     match message {
-                        NetMessage::Net(net) => {
-                            if let Some(mut net) = latest_net {
-                                // This is not the latest network, send it back immediately for deallocation.
-                                self.net.apply_foreign_edits(&mut net, &self.sender);
-                                if self
-                                    .sender
-                                    .as_ref()
-                                    .unwrap()
-                                    .try_send(NetReturn::Net(net))
-                                    .is_ok()
-                                {}
-                            }
-                            latest_net = Some(net);
+                        NetMessage::Net(mut net) => {
+                            // Adopt each version in order, so that no edit is lost and
+                            // later settings apply to it.
+                            // Migrate existing nodes to the new network.
+                            self.net.migrate(&mut net);
+                            core::mem::swap(&mut net, &mut self.net);
+                            self.net.apply_edits(&self.sender);
+                            // Send the previous network back for deallocation.
+                            if self
+                                .sender
+                                .as_ref()
+                                .unwrap()
+                                .try_send(NetReturn::Net(net))
+                                .is_ok()
+                            {}
                         }
                         NetMessage::Setting(setting) => {
                             self.net.set(setting);
@@ -90,20 +91,6 @@ impl NetBackend {
                 _ => break,
             }
         }
-        if let Some(mut net) = latest_net {
-            // Migrate existing nodes to the new network.
-            self.net.migrate(&mut net);
-            core::mem::swap(&mut net, &mut self.net);
-            self.net.apply_edits(&self.sender);
-            // Send the previous network back for deallocation.
-            if self
-                .sender
-                .as_ref()
-                .unwrap()
-                .try_send(NetReturn::Net(net))
-                .is_ok()
-            {}
-        }
     }
 }
 
-- 
2.43.0


From cb68f9dedca5316fa81bb86c1a2e5bc0e7a87816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:19 +0000
Subject: [PATCH 23/32] fix: resonator starts with the same Q in every
 environment

---
 src/hacker.rs   | 2 +-
 src/hacker32.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hacker.rs b/src/hacker.rs
index bd5bd75..973d610 100644
--- a/src/hacker.rs
+++ b/src/hacker.rs
@@ -516,7 +516,7 @@ pub fn highpole_hz(cutoff: f32) -> An<Highpole<f64, U1>> {
 /// (noise() | dc((440.0, 5.0))) >> resonator();
 /// ```
 pub fn resonator() -> An<Resonator<f64, U3>> {
-    An(Resonator::new(440.0, 110.0))
+    An(Resonator::new(440.0, 1.0))
 }
 
 /// Constant-gain bandpass resonator with fixed `center` frequency (Hz) and `bandwidth` (Hz).
diff --git a/src/hacker32.rs b/src/hacker32.rs
index bdf24bb..db88142 100644
--- a/src/hacker32.rs
+++ b/src/hacker32.rs
@@ -516,7 +516,7 @@ pub fn highpole_hz(cutoff: f32) -> An<Highpole<f32, U1>> {
 /// (noise() | dc((440.0, 5.0))) >> resonator();
 /// ```
 pub fn resonator() -> An<Resonator<f32, U3>> {
-    An(Resonator::new(440.0, 110.0))
+    An(Resonator::new(440.0, 1.0))
 }
 
 /// Constant-gain bandpass resonator with fixed `center` frequency (Hz) and `bandwidth` (Hz).
-- 
2.43.0


From 9b73ad172e86ba51cf867259414c8e9a33ae1f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:28 +0000
Subject: [PATCH 24/32] fix: linking past a removed node never connects a node
 to itself

---
 src/net.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/net.rs b/src/net.rs
index ebd57be..4f71e7d 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -400,7 +400,11 @@ impl Net {
                 if let Port::Local(index, port) = self.vertex[vertex].source[channel].source {
                     if index == node_index {
                         self.vertex[vertex].source[channel].source = if link {
-                            self.vertex[node_index].source[port].source
+                            match self.vertex[node_index].source[port].source {
+                                // Self connections are prohibited.
+                                Port::Local(source, _) if source == vertex => Port::Zero,
+                                source => source,
+                            }
                         } else {
                             Port::Zero
                         };
-- 
2.43.0


From 13c108b1b313987d6c1c63b162f601e77b70693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:58 +0000
Subject: [PATCH 25/32] fix: set_gain of bell and shelf filters takes effect at
 once

---
 src/svf.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/svf.rs b/src/svf.rs
index 77f5f9e..29d8989 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -593,6 +593,10 @@ impl<F: Real> SvfMode<F> for BellMode<F> {
         *coefs = SvfCoefs::bell(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
@@ -647,6 +651,10 @@ impl<F: Real> SvfMode<F> for LowshelfMode<F> {
         *coefs = SvfCoefs::lowshelf(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
@@ -704,6 +712,10 @@ impl<F: Real> SvfMode<F> for HighshelfMode<F> {
         *coefs = SvfCoefs::highshelf(params.sample_rate, params.cutoff, params.q, params.gain);
     }
     #[inline]
+    fn update_gain(&mut self, params: &SvfParams<F>, coefs: &mut SvfCoefs<F>) {
+        self.update(params, coefs);
+    }
+    #[inline]
     fn update_inputs(
         &mut self,
         input: &Frame<f32, Self::Inputs>,
-- 
2.43.0


From cee36e57ad5c289008ac2b8e9e17059c400b02ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:12 +0000
Subject: [PATCH 26/32] fix: tie channel slices of BufferMut to the borrow of
 the view

channel_f32 and channel_f32_mut returned slices with the lifetime of the
underlying buffer, so two live mutable slices of one channel could be
obtained from safe code.
---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index c9e5095..0dd81d3 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -62,7 +62,7 @@ impl<'a> BufferMut<'a> {
 
     /// Get channel as a scalar slice.
     #[inline]
-    pub fn channel_f32(&self, channel: usize) -> &'a [f32] {
+    pub fn channel_f32(&self, channel: usize) -> &[f32] {
         debug_assert!(channel < self.channels());
         let data = self.channel(channel).as_ptr() as *const f32;
         // Safety: we know each channel contains exactly `MAX_BUFFER_SIZE` samples.
@@ -71,7 +71,7 @@ impl<'a> BufferMut<'a> {
 
     /// Get channel as a mutable scalar slice.
     #[inline]
-    pub fn channel_f32_mut(&mut self, channel: usize) -> &'a mut [f32] {
+    pub fn channel_f32_mut(&mut self, channel: usize) -> &mut [f32] {
         debug_assert!(channel < self.channels());
         let data = self.channel_mut(channel).as_mut_ptr() as *mut f32;
         // Safety: we know each channel contains exactly `MAX_BUFFER_SIZE` samples.
-- 
2.43.0


From 6df303e5163c34bcf0103d0d8d73f7c00a470a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:12 +0000
Subject: [PATCH 27/32] fix: refuse connections to ports that do not exist in
 Net

connect, connect_input, connect_output and pass_through stored source ports
unchecked; rendering then panicked or read the wrong channel later.
---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 4f71e7d..c1f8ec7 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -539,6 +539,7 @@ impl Net {
         assert!(source != target);
         let source_index = self.node_index[&source];
         let target_index = self.node_index[&target];
+        assert!(source_port < self.vertex[source_index].outputs());
         self.connect_index(source_index, source_port, target_index, target_port);
     }
 
@@ -595,6 +596,7 @@ impl Net {
         target_port: PortIndex,
     ) {
         let target_index = self.node_index[&target];
+        assert!(global_input < self.inputs());
         self.connect_input_index(global_input, target_index, target_port);
     }
 
@@ -651,6 +653,7 @@ impl Net {
         global_output: PortIndex,
     ) {
         let source_index = self.node_index[&source];
+        assert!(source_port < self.vertex[source_index].outputs());
         self.connect_output_index(source_index, source_port, global_output);
     }
 
@@ -716,6 +719,7 @@ impl Net {
     /// net.check();
     /// ```
     pub fn pass_through(&mut self, input: PortIndex, output: PortIndex) {
+        assert!(input < self.inputs());
         self.output_edge[output] = edge(Port::Global(input), Port::Global(output));
         self.invalidate_order();
     }
-- 
2.43.0


From 1c923f72aa7194ae8a8a139526c730ec4a826480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:31 +0000
Subject: [PATCH 28/32] fix: Thru without inputs runs its node in block
 rendering

---
 src/audionode.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/audionode.rs b/src/audionode.rs
index 2213ef3..cdc7a15 100644
--- a/src/audionode.rs
+++ b/src/audionode.rs
@@ -1788,10 +1788,6 @@ impl<X: AudioNode> AudioNode for Thru<X> {
         })
     }
     fn process(&mut self, size: usize, input: &BufferRef, output: &mut BufferMut) {
-        if X::Inputs::USIZE == 0 {
-            // This is an empty node.
-            return;
-        }
         if X::Inputs::USIZE < X::Outputs::USIZE {
             // An intermediate buffer is only used in this "degenerate" case where
             // we are not passing through inputs - we are cutting out some of them.
-- 
2.43.0


From 5f596abb77351f4ccb663c0c1b82ff7d53aa081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:47 +0000
Subject: [PATCH 29/32] fix: wavetable reads convert the phase with a checked
 conversion

---
 src/shared.rs    | 9 +++------
 src/wavetable.rs | 3 +--
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/shared.rs b/src/shared.rs
index ac60ec5..907147d 100644
--- a/src/shared.rs
+++ b/src/shared.rs
@@ -281,8 +281,7 @@ impl AtomicTable {
     #[inline]
     pub fn read_cubic(&self, phase: f32) -> f32 {
         let p = self.table.len() as f32 * phase;
-        // Safety: we know phase is in 0...1.
-        let i1 = unsafe { f32::to_int_unchecked::<usize>(p) };
+        let i1 = p as usize;
         let w = p - i1 as f32;
         let mask = self.table.len() - 1;
         let i0 = i1.wrapping_sub(1) & mask;
@@ -295,8 +294,7 @@ impl AtomicTable {
     #[inline]
     pub fn read_linear(&self, phase: f32) -> f32 {
         let p = self.table.len() as f32 * phase;
-        // Safety: we know phase is in 0...1.
-        let i0 = unsafe { f32::to_int_unchecked::<usize>(p) };
+        let i0 = p as usize;
         let w = p - i0 as f32;
         let mask = self.table.len() - 1;
         let i0 = i0 & mask;
@@ -307,8 +305,7 @@ impl AtomicTable {
     #[inline]
     pub fn read_nearest(&self, phase: f32) -> f32 {
         let p = self.table.len() as f32 * phase;
-        // Safety: we know phase is in 0...1.
-        let i = unsafe { f32::to_int_unchecked::<usize>(p) };
+        let i = p as usize;
         let mask = self.table.len() - 1;
         self.at(i & mask)
     }
diff --git a/src/wavetable.rs b/src/wavetable.rs
index 03c78a2..1858715 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -154,8 +154,7 @@ impl Wavetable {
     pub fn at(&self, i: usize, phase: f32) -> f32 {
         let table: &Vec<f32> = &self.table[i].1;
         let p = table.len() as f32 * phase;
-        // Safety: we know phase is in 0...1.
-        let i1 = unsafe { f32::to_int_unchecked::<usize>(p) };
+        let i1 = p as usize;
         let w = p - i1 as f32;
         let mask = table.len() - 1;
         let i0 = i1.wrapping_sub(1) & mask;
-- 
2.43.0


From 0ae5b6b1898fc07fe1ac69bbf9af745dcbe595e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:28 +0000
Subject: [PATCH 30/32] fix: stacked and reduced nodes route only the first
 node's own inputs to it

---
 src/audionode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/audionode.rs b/src/audionode.rs
index cdc7a15..fe33894 100644
--- a/src/audionode.rs
+++ b/src/audionode.rs
@@ -2059,7 +2059,7 @@ where
         if self.x.is_empty() {
             return SignalFrame::new(self.outputs());
         }
-        let mut output = self.x[0].route(input, frequency);
+        let mut output = self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         output.resize(self.outputs());
         for i in 1..N::USIZE {
             let output_i = self.x[i].route(
@@ -2198,7 +2198,7 @@ where
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-        let mut output = self.x[0].route(input, frequency);
+        let mut output = self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         for j in 1..self.x.len() {
             let output_j = self.x[j].route(
                 &SignalFrame::copy(input, j * X::Inputs::USIZE, X::Inputs::USIZE),
-- 
2.43.0


From c012ea6febc8f1f88f14b27f8a16232995e87f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:31 +0000
Subject: [PATCH 31/32] fix: response of the morphing filter scales the dry
 signal with its own response

---
 src/svf.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/svf.rs b/src/svf.rs
index 29d8989..7c03c3f 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -1123,12 +1123,16 @@ impl<F: Real> AudioNode for Morph<F> {
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
+        let morph = self.morph.to_f64();
         let mut output = self.filter.route(input, frequency);
         output.set(
             0,
-            output.at(0).filter(0.0, |r| {
-                (r + Complex64::new(self.morph.to_f64(), 0.0)) * 0.5
-            }),
+            output.at(0).combine_linear(
+                input.at(0),
+                0.0,
+                |x, y| (x + y * morph) * 0.5,
+                |x, y| (x + y * morph) * 0.5,
+            ),
         );
         output
     }
-- 
2.43.0


From e22b813e16eeb045423b78c5eef2c1aa25de1551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:31 +0000
Subject: [PATCH 32/32] fix: arbitrary routing adds its latency once

---
 src/signal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/signal.rs b/src/signal.rs
index 5f6346f..e45bb43 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -181,11 +181,11 @@ impl Routing {
         }
         match self {
             Routing::Arbitrary(latency) => {
-                let mut combo = input.at(0).distort(*latency);
+                let mut combo = input.at(0).distort(0.0);
                 for i in 1..input.len() {
-                    combo = combo.combine_nonlinear(input.at(i), *latency);
+                    combo = combo.combine_nonlinear(input.at(i), 0.0);
                 }
-                output.fill(combo);
+                output.fill(combo.distort(*latency));
             }
             Routing::Split => {
                 for i in 0..outputs {
-- 
2.43.0


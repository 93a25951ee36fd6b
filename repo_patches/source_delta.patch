From 83596e3d59973add0fe58ed5bc60821ef5998ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 01/36] verif hook: re-export internal types under
 cfg(uflow_verif)

---
 src/frame/serial/mod.rs    |  2 ++
 src/half_connection/mod.rs |  6 ++++++
 src/lib.rs                 | 11 +++++++++++
 3 files changed, 19 insertions(+)

diff --git a/src/frame/serial/mod.rs b/src/frame/serial/mod.rs
index 255772e..0a93aa6 100644
--- a/src/frame/serial/mod.rs
+++ b/src/frame/serial/mod.rs
@@ -7,6 +7,8 @@ mod crc;
 
 pub use build::DataFrameBuilder;
 pub use build::AckFrameBuilder;
+#[cfg(uflow_verif)]
+pub use crc::compute as crc_compute;
 
 const FRAME_HEADER_SIZE: usize = 1;
 const FRAME_CRC_SIZE: usize = 4;
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index bb0a90a..fed5058 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -17,6 +17,12 @@ mod reorder_buffer;
 mod resend_queue;
 mod send_rate;
 
+#[cfg(uflow_verif)]
+pub mod verif {
+    pub use super::loss_rate::LossIntervalQueue;
+    pub use super::send_rate::{FeedbackData, SendRateComp};
+}
+
 #[cfg(test)]
 mod packet_tests;
 
diff --git a/src/lib.rs b/src/lib.rs
index eea23e7..df67c16 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 //! `uflow` is a non-blocking, connection-based layer over UDP that provides an ordered and
 //! drop-tolerant packet streaming interface for real-time applications (e.g. games). It manages
@@ -271,6 +272,16 @@ pub mod server;
 /// Client-related connection objects and parameters.
 pub mod client;
 
+/// Access to internal types for an external verification harness (`--cfg uflow_verif`).
+#[cfg(uflow_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    pub use crate::frame::*;
+    pub use crate::frame::serial::{Serialize, crc_compute};
+    pub use crate::half_connection::{Config, FrameSink, HalfConnection, PacketSink};
+    pub use crate::half_connection::verif::*;
+}
+
 /// The current protocol version ID.
 pub const PROTOCOL_VERSION: u8 = 3;
 
-- 
2.43.0


From 61a2869fe7906d4f914d5ba183f925598f524a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 02/36] fix: give reassembled packets a heap block of their own
 size

---
 .../packet_receiver/assembly_window/fragment_buffer.rs    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
index 9fb08af..4b6a79c 100644
--- a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
+++ b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
@@ -44,11 +44,11 @@ impl FragmentBuffer {
         }
     }
 
-    pub fn finalize(mut self) -> Box<[u8]> {
+    pub fn finalize(self) -> Box<[u8]> {
         debug_assert!(self.total_size <= self.buffer.len());
-        let ptr = self.buffer.as_mut_ptr();
-        std::mem::forget(self.buffer);
-        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(ptr, self.total_size)) }
+        let mut data = self.buffer.into_vec();
+        data.truncate(self.total_size);
+        data.into_boxed_slice()
     }
 
     pub fn is_finished(&self) -> bool {
-- 
2.43.0


From f4f046a8efe88422c5aa53d80fc8f5356d792a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 03/36] fix: idle sender without feedback may reach repeated
 nofeedback expirations

---
 src/half_connection/send_rate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1c6e58e..1eff4f3 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -328,9 +328,10 @@ impl SendRateComp {
                         // Halve send rate every RTO, subject to minimum
                         self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
                     }
+                } else if self.nofeedback_idle {
+                    // Nothing has been sent since the timer was last set, do nothing
                 } else {
                     // In slow start, but no feedback has been received.
-                    debug_assert!(self.nofeedback_idle == false);
 
                     // Halve send rate every RTO, subject to minimum
                     self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
-- 
2.43.0


From 4f41fb73eb1a0ba8826301909f87d52815d6217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 04/36] fix: carry fractional bytes of the flush allocation
 between steps

---
 src/half_connection/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index fed5058..587467c 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -80,6 +80,7 @@ pub struct HalfConnection {
     sync_timeout_base_ms: u64,
 
     flush_alloc: isize,
+    flush_alloc_rem: f64,
     flush_id: u32,
 
     sync_reply: bool,
@@ -108,6 +109,7 @@ impl HalfConnection {
             sync_timeout_base_ms: 0,
 
             flush_alloc: 0,
+            flush_alloc_rem: 0.0,
             flush_id: 0,
 
             sync_reply: false,
@@ -209,7 +211,13 @@ impl HalfConnection {
             let rtt_s = self.send_rate_comp.rtt_s();
 
             let delta_time = (now - time_last_flushed).as_secs_f64();
-            let new_bytes = (send_rate * delta_time).round() as isize;
+
+            // Carry fractional bytes over to the next step, so that low send rates accumulate no
+            // matter how often steps occur
+            let new_bytes_exact = send_rate * delta_time + self.flush_alloc_rem;
+            let new_bytes = new_bytes_exact.floor() as isize;
+            self.flush_alloc_rem = new_bytes_exact.fract();
+
             let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)).round() as isize;
 
             self.flush_alloc = self.flush_alloc.saturating_add(new_bytes).min(alloc_max);
-- 
2.43.0


From 565e6a14f23c363e5c5ef94efe4f948b1277e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 05/36] fix: bound the search for the initial loss event rate

---
 src/half_connection/send_rate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1eff4f3..b3408c3 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -28,12 +28,16 @@ fn eval_tcp_throughput(rtt: f64, p: f64) -> u32 {
 }
 
 fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
+    const MAX_BISECTIONS: u32 = 64;
+
     let delta = (target_rate_bps as f64 * 0.05) as u32;
 
     let mut a = 0.0;
     let mut b = 1.0;
 
-    loop {
+    // The target rate may not be attainable to within delta for any p (e.g. if it is smaller than the
+    // throughput at p = 1, or too small to be resolved), so the number of bisections is limited
+    for _ in 0 .. MAX_BISECTIONS {
         let c = (b + a)/2.0;
 
         let rate = eval_tcp_throughput(rtt, c);
@@ -56,6 +60,8 @@ fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
             return c;
         }
     }
+
+    return (b + a)/2.0;
 }
 
 #[derive(Debug,PartialEq)]
-- 
2.43.0


From 3aa6134462df74d4cbc767424df86c15a0123de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 06/36] fix: keep frame data for one RTO so that a lasting RTT
 increase is noticed

---
 src/half_connection/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 587467c..44aff1b 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -182,8 +182,10 @@ impl HalfConnection {
         self.rtt_ms = rtt_ms;
         self.rto_ms = rto_ms;
 
-        // Forget old frame data
-        self.frame_queue.forget_frames(now_ms.saturating_sub(rtt_ms*4), self.send_rate_comp.rtt_ms());
+        // Forget old frame data. The RTO is never less than four round trips, and increases as the
+        // nofeedback timer reduces the send rate. Thus acknowledgements will eventually be accepted
+        // (and the RTT estimate corrected) if the actual RTT exceeds the estimated RTT.
+        self.frame_queue.forget_frames(now_ms.saturating_sub(rto_ms), self.send_rate_comp.rtt_ms());
 
         // Fill flush allocation
         self.fill_flush_alloc(now);
-- 
2.43.0


From 71cd399cc861f26261e9ca0f7fde2541536f29ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 07/36] fix: drop TimeSensitive packets which became stale
 before their first fragment was sent

---
 src/half_connection/mod.rs           |  7 ++++++
 src/half_connection/packet_sender.rs | 33 +++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 44aff1b..1893be7 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -398,6 +398,13 @@ impl HalfConnection {
             }
         }
 
+        if let Some(entry) = self.pending_queue.front() {
+            // A packet of which no fragment has been sent may have become stale in the meantime
+            if entry.fragment_ref.fragment_id == 0 && self.packet_sender.discard_stale(flush_id) {
+                self.pending_queue.clear();
+            }
+        }
+
         loop {
             if self.pending_queue.is_empty() {
                 if let Some((packet_rc, resend)) = self.packet_sender.emit_packet(flush_id) {
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index b8eec8c..e6c6aa9 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -28,6 +28,8 @@ struct WindowEntry {
     alloc_size: usize,
     // Channel this packet was sent on
     channel_id: u8,
+    // Flush ID of a time-sensitive packet
+    time_sensitive_id: Option<u32>,
 }
 
 struct Channel {
@@ -209,7 +211,8 @@ impl PacketSender {
             self.window[window_idx] = Some(WindowEntry {
                 packet: pending_packet,
                 alloc_size: packet_alloc_size,
-                channel_id: packet.channel_id
+                channel_id: packet.channel_id,
+                time_sensitive_id: if packet.mode == SendMode::TimeSensitive { Some(packet.flush_id) } else { None },
             });
 
             self.next_id = packet_id::add(self.next_id, 1);
@@ -237,6 +240,34 @@ impl PacketSender {
         return None;
     }
 
+    // Withdraws the most recently emitted packet if it is a time-sensitive packet which has become
+    // stale. May only be called if no part of that packet has been sent. Returns true if the packet
+    // was discarded.
+    pub fn discard_stale(&mut self, flush_id: u32) -> bool {
+        if self.next_id == self.base_id {
+            return false;
+        }
+
+        let last_id = packet_id::sub(self.next_id, 1);
+        let window_idx = window_index!(self, last_id);
+
+        if let Some(ref entry) = self.window[window_idx] {
+            if entry.time_sensitive_id.map_or(true, |id| id == flush_id) {
+                return false;
+            }
+
+            self.alloc -= entry.alloc_size;
+            self.total_size -= entry.packet.borrow().size();
+
+            self.window[window_idx] = None;
+            self.next_id = last_id;
+
+            return true;
+        }
+
+        return false;
+    }
+
     // Responds to a receive window acknowledgement. All packet data beyond the new receive window
     // is forgotten, thereby freeing transfer window & allocation space for new packets.
     pub fn acknowledge(&mut self, receiver_base_id: u32) {
-- 
2.43.0


From ff75dd920b4b8b121d922b9518bf138df5bd6c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 08/36] verif hook: expose FrameQueue, the allowed send rate
 and the loss event rate under cfg(uflow_verif)

---
 src/half_connection/frame_queue.rs |  5 +++++
 src/half_connection/mod.rs         | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index e1a696d..82fe9ba 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -272,6 +272,11 @@ impl FrameQueue {
         self.feedback_gen.get_feedback(now_ms)
     }
 
+    #[cfg(uflow_verif)]
+    pub fn verif_loss_rate(&self) -> f64 {
+        self.feedback_gen.loss_intervals.compute_loss_rate()
+    }
+
     pub fn reset_loss_rate(&mut self, new_loss_rate: f64) {
         self.feedback_gen.reset_loss_rate(new_loss_rate);
     }
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 1893be7..b14534e 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -19,6 +19,7 @@ mod send_rate;
 
 #[cfg(uflow_verif)]
 pub mod verif {
+    pub use super::frame_queue::FrameQueue;
     pub use super::loss_rate::LossIntervalQueue;
     pub use super::send_rate::{FeedbackData, SendRateComp};
 }
@@ -125,6 +126,18 @@ impl HalfConnection {
         self.packet_sender.total_size()
     }
 
+    /// Allowed send rate (X)
+    #[cfg(uflow_verif)]
+    pub fn verif_send_rate(&self) -> f64 {
+        self.send_rate_comp.send_rate()
+    }
+
+    /// Current loss event rate (p)
+    #[cfg(uflow_verif)]
+    pub fn verif_loss_rate(&self) -> f64 {
+        self.frame_queue.verif_loss_rate()
+    }
+
     pub fn is_send_pending(&self) -> bool {
         self.packet_sender.pending_count() != 0 || self.pending_queue.len() != 0 || self.resend_queue.len() != 0
     }
-- 
2.43.0


From ff0ea824441b400e3e17b5a7d52b69494a042b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 09/36] fix: keep the latest receive rate when the round trip
 time is zero

---
 src/half_connection/recv_rate_set.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/recv_rate_set.rs b/src/half_connection/recv_rate_set.rs
index 51fb05b..9102139 100644
--- a/src/half_connection/recv_rate_set.rs
+++ b/src/half_connection/recv_rate_set.rs
@@ -53,14 +53,15 @@ impl RecvRateSet {
     }
 
     pub fn rate_limited_update(&mut self, now_ms: u64, recv_rate: u32, rtt_ms: u64) -> u32 {
+        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
+
+        // The current value is kept even if the round trip time is less than one millisecond
         self.entries.push(RecvEntry {
             value: recv_rate,
             timestamp_ms: now_ms,
             is_initial: false
         });
 
-        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
-
         return self.max();
     }
 
-- 
2.43.0


From 5109e548d64e518761a5614f84a90da3f00df4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 10/36] fix: ignore ack groups which acknowledge no further
 frame

---
 src/half_connection/frame_queue.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index 82fe9ba..fd9a855 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -287,6 +287,7 @@ impl FrameQueue {
         let mut last_send_time_ms = 0;
         let mut total_ack_size = 0;
         let mut rate_limited = false;
+        let mut newly_acked = false;
 
         let mut bitfield_size = 0;
         for i in (0 .. 32).rev() {
@@ -331,6 +332,7 @@ impl FrameQueue {
                 // Receiver has received this packet
                 if sent_frame.acked == false {
                     sent_frame.acked = true;
+                    newly_acked = true;
 
                     // Mark each fragment acknowledged and clear the list
                     let fragment_refs = std::mem::take(&mut sent_frame.fragment_refs);
@@ -355,8 +357,10 @@ impl FrameQueue {
             }
         }
 
-        // Add to pending feedback data
-        self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
+        // Add to pending feedback data, unless this merely repeats previous acknowledgements
+        if newly_acked {
+            self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
+        }
     }
 
     pub fn can_advance_transfer_window(&mut self, new_base_id: u32) -> bool {
-- 
2.43.0


From e8474df5dfca78d9c0f454302aaadaf5c4c29f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 11/36] fix: avoid overflow when doubling very large send rates

---
 src/half_connection/send_rate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index b3408c3..d666ec4 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -258,7 +258,7 @@ impl SendRateComp {
                         // Continue slow start doubling, see section 4.3, step 5
                         if now_ms - time_last_doubled_ms >= rtt_ms {
                             state.time_last_doubled_ms = Some(now_ms);
-                            self.send_rate = (2*self.send_rate).min(recv_limit).max(initial_rate);
+                            self.send_rate = self.send_rate.saturating_mul(2).min(recv_limit).max(initial_rate);
                             //println!("SS: doubling: new send rate: {} (limit {}, rl: {}, li: {})",
                             //    self.send_rate, recv_limit, rate_limited, loss_increase);
                         }
@@ -328,7 +328,7 @@ impl SendRateComp {
                     // Recomputing this term on the fly allows for some adaptation as RTT fluctuates
                     let recover_rate = compute_initial_send_rate(rtt_s);
 
-                    if self.nofeedback_idle && self.send_rate < 2*recover_rate {
+                    if self.nofeedback_idle && self.send_rate < recover_rate.saturating_mul(2) {
                         // Do nothing, this is acceptable
                     } else {
                         // Halve send rate every RTO, subject to minimum
-- 
2.43.0


From e86235cba20e75d7aa5e0cae10b272b1c657a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 12/36] fix: keep the send rate within its bounds when the
 nofeedback timer expires

---
 src/half_connection/send_rate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index d666ec4..6890e55 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -355,7 +355,8 @@ impl SendRateComp {
                     let current_limit = state.send_rate_tcp.min(recv_rate.saturating_mul(2));
                     let new_limit = (current_limit/2).max(MINIMUM_RATE);
                     self.recv_rate_set.reset(now_ms, new_limit/2);
-                    self.send_rate = state.send_rate_tcp.min(new_limit);
+                    // The limit may exceed the current rate if that is capped by the maximum send rate
+                    self.send_rate = state.send_rate_tcp.min(new_limit).max(MINIMUM_RATE).min(self.send_rate);
                 }
             }
             _ => panic!()
-- 
2.43.0


From 5c476a19043ef598940cd13d58dfabb854d4abbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 13/36] fix: never go by a maximum send rate below the minimum
 rate

---
 src/half_connection/send_rate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 6890e55..1031a06 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -123,6 +123,9 @@ fn compute_initial_loss_send_rate(rtt_s: f64) -> u32 {
 
 impl SendRateComp {
     pub fn new(max_send_rate: u32) -> Self {
+        // A rate of zero (which the remote host may request) would stop the nofeedback timer
+        let max_send_rate = max_send_rate.max(MINIMUM_RATE);
+
         Self {
             prev_loss_rate: 0.0,
 
@@ -130,7 +133,7 @@ impl SendRateComp {
             nofeedback_idle: false,
 
             mode: SendRateMode::AwaitSend,
-            send_rate: MSS as u32,
+            send_rate: (MSS as u32).min(max_send_rate),
             max_send_rate: max_send_rate,
 
             recv_rate_set: recv_rate_set::RecvRateSet::new(),
-- 
2.43.0


From 39bdf365922505d6c3ef2eea6b18493adfb1f13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 14/36] fix: skip acknowledged or forgotten fragments of the
 pending queue instead of spinning on them

---
 src/half_connection/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index b14534e..4230ecd 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -439,7 +439,7 @@ impl HalfConnection {
                     let packet_ref = packet_rc.borrow();
 
                     if packet_ref.fragment_acknowledged(entry.fragment_ref.fragment_id) {
-                        self.resend_queue.pop();
+                        self.pending_queue.pop_front();
                         continue;
                     }
 
@@ -456,7 +456,7 @@ impl HalfConnection {
                         self.resend_queue.push(resend_queue::Entry::new(entry.fragment_ref, now_ms + rtt_ms, 1));
                     }
                 } else {
-                    self.resend_queue.pop();
+                    self.pending_queue.pop_front();
                     continue;
                 }
             }
-- 
2.43.0


From 5ea5409ba49a2dad602c15a43c41bdcea97db4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 15/36] fix: skip packets which exceeded the receive allocation
 instead of panicking

---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 367efaf..6b133f6 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -334,7 +334,10 @@ impl PacketReceiver {
                     let channel_delta = packet_id::sub(sequence_id, channel_base_id);
 
                     if channel_parent_lead == 0 || channel_parent_lead > channel_delta {
-                        sink.send(self.data_entries[window_idx].data.take().unwrap());
+                        // A packet which exceeded the receive allocation carries no data
+                        if let Some(data) = self.data_entries[window_idx].data.take() {
+                            sink.send(data);
+                        }
 
                         self.data_flags[flags_index] &= !flag_bit;
 
-- 
2.43.0


From ecd732271eaec5cdbc75137096da7106aa6d1869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 16/36] fix: ignore packet window positions which are not valid
 packet IDs

---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 src/half_connection/packet_sender.rs       | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 6b133f6..3217a2c 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -409,7 +409,10 @@ impl PacketReceiver {
     // comes first. Any incomplete or dropped packets are skipped, and as a result, the sender must
     // ensure that all reliable packets have been received in full prior to issuing the request.
     pub fn resynchronize(&mut self, sender_next_id: u32) {
-        debug_assert!(packet_id::is_valid(sender_next_id));
+        if !packet_id::is_valid(sender_next_id) {
+            // Sync frame has invalid contents
+            return;
+        }
 
         let base_id = self.base_id;
         let sender_delta = packet_id::sub(sender_next_id, base_id);
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index e6c6aa9..1b94c02 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -271,6 +271,11 @@ impl PacketSender {
     // Responds to a receive window acknowledgement. All packet data beyond the new receive window
     // is forgotten, thereby freeing transfer window & allocation space for new packets.
     pub fn acknowledge(&mut self, receiver_base_id: u32) {
+        if !packet_id::is_valid(receiver_base_id) {
+            // Ack frame has invalid contents
+            return;
+        }
+
         let receiver_delta = packet_id::sub(receiver_base_id, self.base_id);
         let span = packet_id::sub(self.next_id, self.base_id);
 
-- 
2.43.0


From d1fe951d55b2086023a4b91688479e3559bfa1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 17/36] fix: do not advance the receive window past undelivered
 packets

---
 src/half_connection/packet_receiver/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 3217a2c..b198619 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -385,11 +385,16 @@ impl PacketReceiver {
                     let window_parent_lead = window_entry.window_parent_lead as u32;
                     let window_delta = packet_id::sub(sequence_id, new_base_id);
 
+                    if self.data_flags[flags_index] & flag_bit != 0 {
+                        // Contradictory parent leads may leave a packet undelivered for now. It
+                        // must not be forgotten along with its allocation.
+                        break;
+                    }
+
                     if window_parent_lead == 0 || window_parent_lead > window_delta {
                         // println!("Forget sequence ID {}", sequence_id);
                         new_base_id = next_id;
                         // Window advancement implies that this packet has been delivered
-                        debug_assert!(self.data_flags[flags_index] & flag_bit == 0);
                         debug_assert!(self.data_entries[window_idx].data.is_none());
                     } else {
                         // Cease to consider advancing the window
-- 
2.43.0


From 27159a2119fb95881f3c3d0142d96103dbe5e571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 18/36] fix: keep the initial send rate above the minimum rate
 when the RTT is very long

---
 src/half_connection/send_rate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1031a06..eddd88d 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -114,7 +114,7 @@ pub struct SendRateComp {
 }
 
 fn compute_initial_send_rate(rtt_s: f64) -> u32 {
-    (INITIAL_TCP_WINDOW as f64 / rtt_s) as u32
+    ((INITIAL_TCP_WINDOW as f64 / rtt_s) as u32).max(MINIMUM_RATE)
 }
 
 fn compute_initial_loss_send_rate(rtt_s: f64) -> u32 {
-- 
2.43.0


From fef94f43dd708a632c786f541e528ace33d84215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 19/36] fix: resolve very small initial loss rates

---
 src/half_connection/send_rate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index eddd88d..5496211 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -28,7 +28,7 @@ fn eval_tcp_throughput(rtt: f64, p: f64) -> u32 {
 }
 
 fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
-    const MAX_BISECTIONS: u32 = 64;
+    const MAX_BISECTIONS: u32 = 256;
 
     let delta = (target_rate_bps as f64 * 0.05) as u32;
 
-- 
2.43.0


From 37a4a6d5cbfbb1319a1315a7f32d476f37eef6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 20/36] fix: bound the number of acknowledgements which await
 transmission

---
 src/half_connection/frame_ack_queue.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/half_connection/frame_ack_queue.rs b/src/half_connection/frame_ack_queue.rs
index 567362d..5b2600e 100644
--- a/src/half_connection/frame_ack_queue.rs
+++ b/src/half_connection/frame_ack_queue.rs
@@ -32,6 +32,7 @@ impl ReceiveWindow {
 
 pub struct FrameAckQueue {
     entries: std::collections::VecDeque<frame::AckGroup>,
+    max_entries: usize,
     receive_window: ReceiveWindow,
 }
 
@@ -39,6 +40,7 @@ impl FrameAckQueue {
     pub fn new(size: u32, base_id: u32) -> Self {
         Self {
             entries: std::collections::VecDeque::new(),
+            max_entries: 2*size as usize,
             receive_window: ReceiveWindow::new(base_id, size),
         }
     }
@@ -67,6 +69,11 @@ impl FrameAckQueue {
                         last_entry.nonce ^= nonce;
                     }
                 } else {
+                    // Older frames have long left the sender's transfer window
+                    if self.entries.len() >= self.max_entries {
+                        self.entries.pop_front();
+                    }
+
                     self.entries.push_back(frame::AckGroup {
                         base_id: frame_id,
                         bitfield: 0x00000001,
-- 
2.43.0


From 7426d8a2d7f5abf88529faf61daaaeee8076bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:34 +0000
Subject: [PATCH 21/36] fix: bound the bytes which accumulate between a step
 and a later flush

---
 src/half_connection/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 4230ecd..e9997c8 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -216,6 +216,10 @@ impl HalfConnection {
     }
 
     pub fn flush(&mut self, sink: &mut impl FrameSink) {
+        // Bytes which accumulate between a step and the flush which follows it must not exceed the
+        // maximum flush allocation either
+        self.fill_flush_alloc(time::Instant::now());
+
         // Send as many frames as possible
         self.emit_frames(self.now_ms, self.rtt_ms, self.rto_ms, self.flush_id, sink);
     }
-- 
2.43.0


From 4dee6c07968bfffb75445e1cc0ed0732fce73b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 22/36] fix: refuse handshakes which would exceed either
 connection limit

---
 src/server/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index f78eb2b..c4c68af 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -224,6 +224,16 @@ impl Server {
         (now - self.time_base).as_millis() as u64
     }
 
+    fn active_or_pending_count(&self) -> usize {
+        self.clients
+            .values()
+            .filter(|client| match client.borrow().state {
+                remote_client::State::Pending(_) | remote_client::State::Active(_) => true,
+                _ => false,
+            })
+            .count()
+    }
+
     fn handle_handshake_syn(
         &mut self,
         client_addr: net::SocketAddr,
@@ -251,8 +261,10 @@ impl Server {
             return;
         }
 
+        // Connections which are being established count towards the active limit, so that
+        // overlapping handshakes may not exceed it
         if self.clients.len() >= self.config.max_total_connections
-            && self.active_clients.len() >= self.config.max_active_connections
+            || self.active_or_pending_count() >= self.config.max_active_connections
         {
             // No room in the inn
             let reply = frame::Frame::HandshakeErrorFrame(frame::HandshakeErrorFrame {
-- 
2.43.0


From 7c73fa1fda04af71a91171af1fdd30d020a702cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 23/36] fix: count the active timeout of a client from the time
 it connected

---
 src/client/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 2b6acb0..90d5924 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -391,7 +391,7 @@ impl Client {
         (now - self.time_base).as_millis() as u64
     }
 
-    fn handle_handshake_syn_ack(&mut self, frame: frame::HandshakeSynAckFrame) {
+    fn handle_handshake_syn_ack(&mut self, now_ms: u64, frame: frame::HandshakeSynAckFrame) {
         match self.state {
             State::Pending(ref mut state) => {
                 // If the server responds to our SYN with a matching SYN+ACK, it has already
@@ -449,7 +449,7 @@ impl Client {
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
                         half_connection,
-                        timeout_time_ms: self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
                         disconnect_signal: None,
                     });
                 }
@@ -589,7 +589,7 @@ impl Client {
             frame::Frame::HandshakeSynFrame(_) => (),
             frame::Frame::HandshakeAckFrame(_) => (),
             frame::Frame::HandshakeSynAckFrame(frame) => {
-                self.handle_handshake_syn_ack(frame);
+                self.handle_handshake_syn_ack(now_ms, frame);
             },
             frame::Frame::HandshakeErrorFrame(frame) => {
                 self.handle_handshake_error(frame);
-- 
2.43.0


From fcf4047383f198b2a0a8e1b4ec2762629469b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 24/36] fix: acknowledge only those SYN+ACKs which belong to
 the connection

---
 src/client/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 90d5924..5d4d43a 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -112,6 +112,7 @@ struct PendingState {
 
 struct ActiveState {
     local_nonce: u32,
+    remote_nonce: u32,
     half_connection: half_connection::HalfConnection,
     timeout_time_ms: u64,
     disconnect_signal: Option<DisconnectMode>,
@@ -448,6 +449,7 @@ impl Client {
 
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
+                        remote_nonce: frame.nonce,
                         half_connection,
                         timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
                         disconnect_signal: None,
@@ -456,11 +458,11 @@ impl Client {
             }
             State::Active(ref state) => {
                 // A matching SYN+ACK has already been received, so acknowledge this one assuming
-                // the nonce ack matches ours (and ignore it otherwise). This case is only
-                // encountered when our initial ACK was dropped - all that matters is that the
-                // server receives an ACK.
+                // it is the same (and ignore it otherwise). This case is only encountered when our
+                // initial ACK was dropped - all that matters is that the server receives an ACK. A
+                // SYN+ACK with a different nonce does not belong to this connection.
 
-                if frame.nonce_ack == state.local_nonce {
+                if frame.nonce_ack == state.local_nonce && frame.nonce == state.remote_nonce {
                     let reply = frame::Frame::HandshakeAckFrame(frame::HandshakeAckFrame {
                         nonce_ack: frame.nonce,
                     });
-- 
2.43.0


From ec6129891c037b6694d9a548ce463afb21ce1194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 25/36] fix: let the client refuse servers with incompatible
 limits

---
 src/client/mod.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 5d4d43a..c7e290d 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -396,15 +396,26 @@ impl Client {
         match self.state {
             State::Pending(ref mut state) => {
                 // If the server responds to our SYN with a matching SYN+ACK, it has already
-                // validated the connection parameters, so initialize an active connection. Since
-                // it is trivial for either party to intentionally stall a connection, there is no
-                // need for the client to double check the protocol version or connection
-                // parameters.
+                // validated the protocol version and the connection parameters. An altogether
+                // incompatible server may not have, and packets which exceed the receiver's
+                // allocation limit cannot be sent, so double check the latter, and initialize an
+                // active connection if they are compatible.
                 //
                 // Otherwise, if the nonce does not match, a duplicated SYN+ACK from a previous
                 // handshake must have been received. Ignore that.
 
                 if frame.nonce_ack == state.local_nonce {
+                    let endpoint_config = &self.config.endpoint_config;
+
+                    if (frame.max_receive_alloc as usize) < endpoint_config.max_packet_size
+                        || (frame.max_packet_size as usize) > endpoint_config.max_receive_alloc
+                    {
+                        // This connection may stall
+                        self.events_out.push(Event::Error(ErrorType::Config));
+                        self.state = State::Fin;
+                        return;
+                    }
+
                     let reply = frame::Frame::HandshakeAckFrame(frame::HandshakeAckFrame {
                         nonce_ack: frame.nonce,
                     });
-- 
2.43.0


From b88676ae26ed4fc92abb75764bf9ea02c5d6c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 26/36] fix: count repeated handshake frames of an established
 connection as a sign of life

---
 src/client/mod.rs           | 4 +++-
 src/server/mod.rs           | 8 ++++++++
 src/server/remote_client.rs | 1 +
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index c7e290d..7875b34 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -467,7 +467,7 @@ impl Client {
                     });
                 }
             }
-            State::Active(ref state) => {
+            State::Active(ref mut state) => {
                 // A matching SYN+ACK has already been received, so acknowledge this one assuming
                 // it is the same (and ignore it otherwise). This case is only encountered when our
                 // initial ACK was dropped - all that matters is that the server receives an ACK. A
@@ -478,6 +478,8 @@ impl Client {
                         nonce_ack: frame.nonce,
                     });
                     let _ = self.socket.send(&reply.write());
+
+                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
                 }
             }
             _ => (),
diff --git a/src/server/mod.rs b/src/server/mod.rs
index c4c68af..a2ee87b 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -400,9 +400,11 @@ impl Server {
                             },
                         };
 
+                        let local_nonce = state.local_nonce;
                         let half_connection = half_connection::HalfConnection::new(config);
 
                         client.state = remote_client::State::Active(remote_client::ActiveState {
+                            local_nonce,
                             half_connection,
                             timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
                             disconnect_signal: None,
@@ -414,6 +416,12 @@ impl Server {
                         self.events_out.push(Event::Connect(client_addr));
                     }
                 }
+                remote_client::State::Active(ref mut state) => {
+                    // The connection has already been established, but this is a sign of life
+                    if handshake.nonce_ack == state.local_nonce {
+                        state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    }
+                }
                 _ => (),
             }
         }
diff --git a/src/server/remote_client.rs b/src/server/remote_client.rs
index 301611b..205cf54 100644
--- a/src/server/remote_client.rs
+++ b/src/server/remote_client.rs
@@ -18,6 +18,7 @@ pub (super) struct PendingState {
 }
 
 pub (super) struct ActiveState {
+    pub local_nonce: u32,
     pub half_connection: HalfConnection,
     pub timeout_time_ms: u64,
     pub disconnect_signal: Option<DisconnectMode>,
-- 
2.43.0


From 5ee1e450814e98ef921b959a2989c1daa1aaa61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 27/36] fix: include the packets which await the connection in
 Client::send_buffer_size()

---
 src/client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 7875b34..fb5b14a 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -382,6 +382,7 @@ impl Client {
     /// they would not be sent.
     pub fn send_buffer_size(&self) -> usize {
         match self.state {
+            State::Pending(ref state) => state.initial_sends.iter().map(|send| send.data.len()).sum(),
             State::Active(ref state) => state.half_connection.send_buffer_size(),
             _ => 0,
         }
-- 
2.43.0


From 4ab2f2f23c6141626c7526888eb87fee4f154975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 28/36] fix: do not limit the rate by an unknown receive rate
 when the first feedback indicates loss

---
 src/half_connection/send_rate.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 5496211..c00945f 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -229,12 +229,15 @@ impl SendRateComp {
                     // Nonzero loss, initialize loss history according to loss rate and enter
                     // throughput equation phase, see section 6.3.1
 
-                    let send_rate_target = if state.time_last_doubled_ms.is_none() {
-                        // First feedback indicates loss
-                        compute_initial_loss_send_rate(rtt_s)
+                    let (send_rate_target, recv_limit) = if state.time_last_doubled_ms.is_none() {
+                        // First feedback indicates loss. There is no preceding feedback by which
+                        // the receive rate could have been measured, so it cannot be a limit.
+                        let send_rate_target = compute_initial_loss_send_rate(rtt_s).max(MINIMUM_RATE);
+                        self.recv_rate_set.reset(now_ms, send_rate_target);
+                        (send_rate_target, send_rate_target)
                     } else {
                         // Because this is sender-side TFRC, no X_target approximation is necessary
-                        self.send_rate/2
+                        (self.send_rate/2, recv_limit)
                     };
 
                     let initial_p = eval_tcp_throughput_inv(rtt_s, send_rate_target);
-- 
2.43.0


From 78fc959eb8988dd4b03b4df8ab722f7b2c49f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 29/36] fix: leave idle time out of the receive rate

---
 src/half_connection/frame_queue.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index fd9a855..2489d73 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -88,6 +88,7 @@ fn ms_to_s(v_s: u64) -> f64 {
 }
 
 struct AckData {
+    first_send_time_ms: u64,
     last_send_time_ms: u64,
     total_ack_size: usize,
     rate_limited: bool,
@@ -128,7 +129,9 @@ impl FeedbackGen {
             let rtt_ms = now_ms - ack_data.last_send_time_ms;
 
             let receive_rate = if let Some(last_feedback_ms) = self.last_feedback_ms {
-                let delta_time_s = ms_to_s(now_ms - last_feedback_ms);
+                // Time during which the sender was idle does not count
+                let begin_ms = last_feedback_ms.max(ack_data.first_send_time_ms);
+                let delta_time_s = ms_to_s((now_ms - begin_ms).max(1));
                 (ack_data.total_ack_size as f64 / delta_time_s).clamp(0.0, u32::MAX as f64) as u32
             } else {
                 0
@@ -148,6 +151,7 @@ impl FeedbackGen {
 
     fn put_ack_data(&mut self, ack_data: AckData) {
         if let Some(ref mut feedback_data) = self.ack_data {
+            feedback_data.first_send_time_ms = feedback_data.first_send_time_ms.min(ack_data.first_send_time_ms);
             feedback_data.last_send_time_ms = feedback_data.last_send_time_ms.max(ack_data.last_send_time_ms);
             feedback_data.total_ack_size += ack_data.total_ack_size;
             feedback_data.rate_limited |= ack_data.rate_limited;
@@ -284,6 +288,7 @@ impl FrameQueue {
     pub fn acknowledge_group(&mut self, ack: frame::AckGroup, rtt_ms: Option<u64>) {
         let mut true_nonce = false;
 
+        let mut first_send_time_ms = u64::MAX;
         let mut last_send_time_ms = 0;
         let mut total_ack_size = 0;
         let mut rate_limited = false;
@@ -345,7 +350,8 @@ impl FrameQueue {
                         }
                     }
 
-                    // Mark send time of latest included packet
+                    // Mark send times of earliest and latest included packet
+                    first_send_time_ms = first_send_time_ms.min(sent_frame.send_time_ms);
                     last_send_time_ms = last_send_time_ms.max(sent_frame.send_time_ms);
 
                     // Add to total ack size
@@ -359,7 +365,7 @@ impl FrameQueue {
 
         // Add to pending feedback data, unless this merely repeats previous acknowledgements
         if newly_acked {
-            self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
+            self.feedback_gen.put_ack_data(AckData { first_send_time_ms, last_send_time_ms, total_ack_size, rate_limited });
         }
     }
 
-- 
2.43.0


From ff0528680692b46495825f713cb1d62112506daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 30/36] fix: keep connections alive at very low send rates

---
 src/half_connection/mod.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index e9997c8..4702d06 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -78,6 +78,7 @@ pub struct HalfConnection {
 
     time_base: time::Instant,
     time_last_flushed: Option<time::Instant>,
+    time_last_emitted: Option<time::Instant>,
     sync_timeout_base_ms: u64,
 
     flush_alloc: isize,
@@ -107,6 +108,7 @@ impl HalfConnection {
 
             time_base: time::Instant::now(),
             time_last_flushed: None,
+            time_last_emitted: None,
             sync_timeout_base_ms: 0,
 
             flush_alloc: 0,
@@ -247,6 +249,16 @@ impl HalfConnection {
         self.time_last_flushed = Some(now);
     }
 
+    // Returns the flush allocation for frames other than data frames. At very low send rates, a single
+    // data frame may use up the allocation for as much as a minute. Frames which keep the connection
+    // alive are still sent from time to time, and are accounted for.
+    fn control_alloc(&self) -> isize {
+        match (self.time_last_flushed, self.time_last_emitted) {
+            (Some(now), Some(time)) if (now - time).as_millis() as u64 >= MIN_SYNC_TIMEOUT_MS => self.flush_alloc.max(0),
+            _ => self.flush_alloc,
+        }
+    }
+
     fn emit_frames(&mut self, now_ms: u64, rtt_ms: u64, rto_ms: u64, flush_id: u32, sink: &mut impl FrameSink) {
         match self.emit_ack_frames(sink) {
             Err(_) => return,
@@ -266,7 +278,9 @@ impl HalfConnection {
 
     fn emit_sync_frame(&mut self, now_ms: u64, rto_ms: u64, sink: &mut impl FrameSink) -> Result<(),()> {
         let elapsed_ms = now_ms - self.sync_timeout_base_ms;
-        let sync_timeout_ms = rto_ms.max(MIN_SYNC_TIMEOUT_MS);
+        // The RTO exceeds any reasonable active timeout at very low send rates, which must not prevent
+        // the connection from being kept alive
+        let sync_timeout_ms = rto_ms.min(self.sync_keepalive_interval_ms.unwrap_or(u64::MAX)).max(MIN_SYNC_TIMEOUT_MS);
 
         if elapsed_ms >= sync_timeout_ms {
             // A sync frame contains a frame ID any time the frame queue contains unacknowledged
@@ -298,7 +312,7 @@ impl HalfConnection {
             // If neither a frame ID nor a packet ID would be sent, send a sync frame anyway to
             // generate an ack and keep the connection alive. The user-specified keeaplive interval
             // is considered in this case, but the rate at which keepalive frames are sent will
-            // still be restricted by TFRC's RTO computation and by MIN_SYNC_TIMEOUT_MS.
+            // still be restricted by MIN_SYNC_TIMEOUT_MS.
             if next_frame_id.is_none() && next_packet_id.is_none() {
                 if let Some(keepalive_interval_ms) = self.sync_keepalive_interval_ms {
                     if elapsed_ms < keepalive_interval_ms {
@@ -309,7 +323,7 @@ impl HalfConnection {
                 }
             }
 
-            if self.flush_alloc < 0 {
+            if self.control_alloc() < 0 {
                 return Err(());
             }
 
@@ -321,13 +335,14 @@ impl HalfConnection {
             sink.send(&frame_bytes);
             self.flush_alloc -= frame_bytes.len() as isize;
             self.sync_timeout_base_ms = now_ms;
+            self.time_last_emitted = self.time_last_flushed;
         }
 
         return Ok(());
     }
 
     fn emit_ack_frames(&mut self, sink: &mut impl FrameSink) -> Result<(),()> {
-        let flush_alloc_init = self.flush_alloc;
+        let flush_alloc_init = self.control_alloc();
         let sync_reply_init = self.sync_reply;
 
         let frame_window_base_id = self.frame_ack_queue.base_id();
@@ -335,10 +350,13 @@ impl HalfConnection {
 
         let ref mut flush_alloc = self.flush_alloc;
         let ref mut sync_reply = self.sync_reply;
+        let ref mut time_last_emitted = self.time_last_emitted;
+        let time_last_flushed = self.time_last_flushed;
 
         let emit_cb = |frame_bytes: Box<[u8]>| {
             sink.send(&frame_bytes);
             *flush_alloc -= frame_bytes.len() as isize;
+            *time_last_emitted = time_last_flushed;
             *sync_reply = false;
         };
 
@@ -371,12 +389,15 @@ impl HalfConnection {
         let ref mut send_rate_comp = self.send_rate_comp;
         let ref mut flush_alloc = self.flush_alloc;
         let ref mut sync_timeout_base_ms = self.sync_timeout_base_ms;
+        let ref mut time_last_emitted = self.time_last_emitted;
+        let time_last_flushed = self.time_last_flushed;
 
         let emit_cb = |frame_bytes: Box<[u8]>| {
             sink.send(&frame_bytes);
             send_rate_comp.notify_frame_sent(now_ms);
             *flush_alloc -= frame_bytes.len() as isize;
             *sync_timeout_base_ms = now_ms;
+            *time_last_emitted = time_last_flushed;
         };
 
         let mut dfe = emit::DataFrameEmitter::new(now_ms, &mut self.frame_queue, flush_alloc_init, emit_cb);
-- 
2.43.0


From e20cbf7feca44067190c4bbaa870e91c152b1207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 31/36] fix: do not let acknowledgements starve data

---
 src/half_connection/mod.rs | 44 ++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 4702d06..2e76393 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -85,6 +85,9 @@ pub struct HalfConnection {
     flush_alloc_rem: f64,
     flush_id: u32,
 
+    // Set when acknowledgements have used up the flush allocation, leaving none for data
+    data_first: bool,
+
     sync_reply: bool,
     sync_keepalive_interval_ms: Option<u64>,
 }
@@ -115,6 +118,8 @@ impl HalfConnection {
             flush_alloc_rem: 0.0,
             flush_id: 0,
 
+            data_first: false,
+
             sync_reply: false,
             sync_keepalive_interval_ms: config.keepalive_interval_ms,
         }
@@ -260,22 +265,39 @@ impl HalfConnection {
     }
 
     fn emit_frames(&mut self, now_ms: u64, rtt_ms: u64, rto_ms: u64, flush_id: u32, sink: &mut impl FrameSink) {
-        match self.emit_ack_frames(sink) {
-            Err(_) => return,
-            Ok(_) => (),
-        }
+        let flush_alloc_init = self.flush_alloc;
 
-        match self.emit_data_frames(now_ms, rtt_ms, flush_id, sink) {
-            Err(_) => return,
-            Ok(_) => (),
-        }
+        if self.data_first {
+            // Acknowledgements have to wait until something else has been sent
+            let result = self.emit_data_and_sync_frames(now_ms, rtt_ms, rto_ms, flush_id, sink);
+
+            if result.is_ok() || self.flush_alloc != flush_alloc_init {
+                self.data_first = false;
+            }
 
-        match self.emit_sync_frame(now_ms, rto_ms, sink) {
-            Err(_) => return,
-            Ok(_) => (),
+            let _ = self.emit_ack_frames(sink);
+        } else {
+            let mut result = self.emit_ack_frames(sink);
+
+            let flush_alloc_acked = self.flush_alloc;
+
+            if result.is_ok() {
+                result = self.emit_data_and_sync_frames(now_ms, rtt_ms, rto_ms, flush_id, sink);
+            }
+
+            // A peer which sends without pause could otherwise prevent this half from ever sending
+            // anything but acknowledgements
+            if result.is_err() && flush_alloc_acked != flush_alloc_init && self.flush_alloc == flush_alloc_acked {
+                self.data_first = true;
+            }
         }
     }
 
+    fn emit_data_and_sync_frames(&mut self, now_ms: u64, rtt_ms: u64, rto_ms: u64, flush_id: u32, sink: &mut impl FrameSink) -> Result<(),()> {
+        self.emit_data_frames(now_ms, rtt_ms, flush_id, sink)?;
+        self.emit_sync_frame(now_ms, rto_ms, sink)
+    }
+
     fn emit_sync_frame(&mut self, now_ms: u64, rto_ms: u64, sink: &mut impl FrameSink) -> Result<(),()> {
         let elapsed_ms = now_ms - self.sync_timeout_base_ms;
         // The RTO exceeds any reasonable active timeout at very low send rates, which must not prevent
-- 
2.43.0


From cd2aa12933955de6fc85fa33f460c72aec932b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 32/36] fix: let send rates which exceed 32 bits saturate

---
 src/client/mod.rs | 2 +-
 src/server/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index fb5b14a..3e6630d 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -437,7 +437,7 @@ impl Client {
                         tx_packet_base_id: state.local_nonce & packet_id::MASK,
                         rx_packet_base_id: frame.nonce & packet_id::MASK,
 
-                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(frame.max_receive_rate),
+                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(frame.max_receive_rate),
 
                         tx_alloc_limit: frame.max_receive_alloc as usize,
                         rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
diff --git a/src/server/mod.rs b/src/server/mod.rs
index a2ee87b..ddeb9ab 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -388,7 +388,7 @@ impl Server {
                             tx_packet_base_id: state.local_nonce & packet_id::MASK,
                             rx_packet_base_id: state.remote_nonce & packet_id::MASK,
 
-                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(state.remote_max_receive_rate),
+                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(state.remote_max_receive_rate),
 
                             tx_alloc_limit: state.remote_max_receive_alloc as usize,
                             rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
-- 
2.43.0


From 9a9c297646833eb0a07a41a77c3c9341c160eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 33/36] fix: let very long active timeouts saturate

---
 src/client/mod.rs | 10 +++++-----
 src/server/mod.rs | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 3e6630d..a781e26 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -463,7 +463,7 @@ impl Client {
                         local_nonce: state.local_nonce,
                         remote_nonce: frame.nonce,
                         half_connection,
-                        timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
                     });
                 }
@@ -480,7 +480,7 @@ impl Client {
                     });
                     let _ = self.socket.send(&reply.write());
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
             }
             _ => (),
@@ -574,7 +574,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_data_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -584,7 +584,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_sync_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -594,7 +594,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_ack_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index ddeb9ab..55b3013 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -406,7 +406,7 @@ impl Server {
                         client.state = remote_client::State::Active(remote_client::ActiveState {
                             local_nonce,
                             half_connection,
-                            timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                            timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                             disconnect_signal: None,
                         });
 
@@ -419,7 +419,7 @@ impl Server {
                 remote_client::State::Active(ref mut state) => {
                     // The connection has already been established, but this is a sign of life
                     if handshake.nonce_ack == state.local_nonce {
-                        state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                        state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                     }
                 }
                 _ => (),
@@ -524,7 +524,7 @@ impl Server {
                         .half_connection
                         .handle_data_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -546,7 +546,7 @@ impl Server {
                         .half_connection
                         .handle_ack_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -568,7 +568,7 @@ impl Server {
                         .half_connection
                         .handle_sync_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
-- 
2.43.0


From 9ab97abea46f15db5202a2e257bbf55c080abb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 34/36] fix: let the rounding of very large allocation limits
 saturate

---
 src/half_connection/packet_receiver/assembly_window/mod.rs | 2 +-
 src/half_connection/packet_sender.rs                       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/mod.rs b/src/half_connection/packet_receiver/assembly_window/mod.rs
index 833b0f2..b69cdb1 100644
--- a/src/half_connection/packet_receiver/assembly_window/mod.rs
+++ b/src/half_connection/packet_receiver/assembly_window/mod.rs
@@ -70,7 +70,7 @@ impl AssemblyWindow {
     pub fn new(max_alloc: usize) -> Self {
         let window: Vec<WindowEntry> = (0 .. MAX_PACKET_WINDOW_SIZE).map(|_| WindowEntry::Open).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             window: window.into_boxed_slice(),
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index 1b94c02..f209123 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -99,7 +99,7 @@ impl PacketSender {
 
         let channels: Vec<Channel> = (0 .. CHANNEL_COUNT).map(|_| Channel::new()).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             packet_send_queue: VecDeque::new(),
-- 
2.43.0


From ecbc2dd77ac53ec78220b5ff97a492ddcc4345a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 35/36] fix: document the lower bound of the keepalive interval
 as it is

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index df67c16..70b2960 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -375,8 +375,7 @@ pub struct EndpointConfig {
 
     /// The interval in milliseconds at which keepalive frames are sent.
     ///
-    /// *Note*: Keepalive frames will not be sent faster than the connection RTO (computed
-    /// according to TFRC) or 2s, whichever is longer.
+    /// *Note*: Keepalive frames will not be sent faster than once every 2s.
     pub keepalive_interval_ms: u64,
 
     /// Time in milliseconds after which an active connection will terminate if no frames have been
-- 
2.43.0


From 5c0ca65eb9ccc3a297572e888442e5b5052fc0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 36/36] fix: keep connections alive while data waits for
 bandwidth

---
 src/half_connection/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 2e76393..fe489d6 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -291,6 +291,10 @@ impl HalfConnection {
                 self.data_first = true;
             }
         }
+
+        // Data which has yet to wait for bandwidth must not prevent the connection from being kept
+        // alive (this has no effect if a sync frame has been sent, or was not due, above)
+        let _ = self.emit_sync_frame(now_ms, rto_ms, sink);
     }
 
     fn emit_data_and_sync_frames(&mut self, now_ms: u64, rtt_ms: u64, rto_ms: u64, flush_id: u32, sink: &mut impl FrameSink) -> Result<(),()> {
-- 
2.43.0


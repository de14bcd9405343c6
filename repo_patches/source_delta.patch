From 33aed443432c7d460a09e77829634bf8bfcefea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:13 +0000
Subject: [PATCH 01/37] fix: CellDir::path_from_to returned an empty path for
 distant cells

The search started with a minimum squared distance of 99999.0, so no step
was ever taken if the target was more than ~316 tiles away, which happens
inside the 256x256 cells a patch can address.
---
 src/cell_dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cell_dir.rs b/src/cell_dir.rs
index f667ff5..7851f97 100644
--- a/src/cell_dir.rs
+++ b/src/cell_dir.rs
@@ -82,7 +82,7 @@ impl CellDir {
             //d// println!("ITER START: A={:?} B={:?}", a, b);
             defensive_max -= 1;
 
-            let mut min_distance = 99999.0;
+            let mut min_distance = f32::INFINITY;
             let mut min_dir = CellDir::C;
             let mut min_new_a = a;
 
@@ -105,7 +105,7 @@ impl CellDir {
                 }
             }
 
-            if min_distance < 99999.0 {
+            if min_distance < f32::INFINITY {
                 //d// println!("A={:?} => {:?} DIR={:?} B={:?}", a, min_new_a, min_dir, b);
                 a = min_new_a;
                 path.push(min_dir);
-- 
2.43.0


From af07b52a3d583a8e8abf8d5c82fd99f7a47b59ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:44 +0000
Subject: [PATCH 02/37] verif: hex grid contracts and spec functions
 (cfg(kani)/cfg(hexo_verif) only)

---
 src/cell_dir.rs | 24 ++++++++++++++++++++++
 src/lib.rs      |  2 ++
 src/verif.rs    | 53 +++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 79 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/cell_dir.rs b/src/cell_dir.rs
index 7851f97..ec4d283 100644
--- a/src/cell_dir.rs
+++ b/src/cell_dir.rs
@@ -3,6 +3,7 @@
 // See README.md and COPYING for details.
 
 #[derive(Debug, Clone, Copy, PartialEq, PartialOrd, Eq, Ord)]
+#[cfg_attr(kani, derive(kani::Arbitrary))]
 pub enum CellDir {
     TR,
     BR,
@@ -15,6 +16,7 @@ pub enum CellDir {
 }
 
 impl CellDir {
+    #[cfg_attr(kani, kani::ensures(|r: &Self| if edge < 6 { r.as_edge() == edge } else { *r == CellDir::C }))]
     pub fn from(edge: u8) -> Self {
         match edge {
             0 => CellDir::TR,
@@ -27,6 +29,10 @@ impl CellDir {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r: &Self| *self == CellDir::C || {
+        let (a, b) = (crate::verif::hex::dir_vec(*self), crate::verif::hex::dir_vec(*r));
+        a.0 == -b.0 && a.1 == -b.1
+    }))]
     pub fn flip(&self) -> Self {
         match self {
             CellDir::TR => CellDir::BL,
@@ -39,12 +45,14 @@ impl CellDir {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r: &bool| *r == crate::verif::hex::flows_out(*self)))]
     #[inline]
     pub fn is_output(&self) -> bool {
         let e = self.as_edge();
         e <= 2
     }
 
+    #[cfg_attr(kani, kani::ensures(|r: &bool| *r == !crate::verif::hex::flows_out(*self)))]
     #[inline]
     pub fn is_input(&self) -> bool {
         !self.is_output()
@@ -122,6 +130,11 @@ impl CellDir {
         path
     }
 
+    #[cfg_attr(kani, kani::requires(crate::verif::hex::valid_pos(pos)))]
+    #[cfg_attr(kani, kani::ensures(|r: &Option<(usize, usize)>| match *r {
+        Some(q) => crate::verif::hex::is_behind(pos, *self, q),
+        None => !crate::verif::hex::exists_behind(pos, *self),
+    }))]
     pub fn offs_pos(&self, pos: (usize, usize)) -> Option<(usize, usize)> {
         let offs = self.as_offs(pos.0);
 
@@ -134,6 +147,11 @@ impl CellDir {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r: &(i32, i32)| {
+        let d = crate::verif::hex::dir_vec(*self);
+        let odd = (x % 2) as i128;
+        r.0 as i128 == d.0 && 2 * r.1 as i128 + (odd + d.0).rem_euclid(2) - odd == d.1
+    }))]
     pub fn as_offs(&self, x: usize) -> (i32, i32) {
         let even = x % 2 == 0;
         match self {
@@ -156,6 +174,12 @@ impl CellDir {
     /// If it returns 0 they are not adjacent,
     /// if it returns 1 the data flow direction is pos_a => pos_b
     /// if it returns -1 the data flow direction is pos_b => pos_a
+    #[cfg_attr(kani, kani::requires(crate::verif::hex::valid_pos(pos_a)))]
+    #[cfg_attr(kani, kani::requires(crate::verif::hex::valid_pos(pos_b)))]
+    #[cfg_attr(kani, kani::ensures(|r: &Option<CellDir>| match *r {
+        Some(d) => d != CellDir::C && crate::verif::hex::is_behind(pos_a, d, pos_b),
+        None => (0..6).all(|e| !crate::verif::hex::is_behind(pos_a, CellDir::from(e), pos_b)),
+    }))]
     pub fn are_adjacent(pos_a: (usize, usize), pos_b: (usize, usize)) -> Option<CellDir> {
         let ipos_a = (pos_a.0 as i32, pos_a.1 as i32);
         let ipos_b = (pos_b.0 as i32, pos_b.1 as i32);
diff --git a/src/lib.rs b/src/lib.rs
index f2c2d2e..eface84 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -365,6 +365,8 @@ pub mod scope_handle;
 pub mod shared_feedback;
 pub mod synth_constructor;
 mod util;
+#[cfg(any(kani, hexo_verif))]
+pub mod verif;
 pub mod wblockdsp;
 
 pub use cell_dir::CellDir;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..f4a6985
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,53 @@
+// This file is a part of HexoDSP. Released under GPL-3.0-or-later.
+// See README.md and COPYING for details.
+
+//! Specification functions and test hooks for the contract based verification.
+//! Only compiled with `--cfg hexo_verif` or by the Kani verifier (`cfg(kani)`).
+//! Nothing in here is reachable from a normal build.
+
+/// Mathematical model of the hexagonal grid, used by the contracts in [crate::cell_dir].
+pub mod hex {
+    use crate::CellDir;
+
+    /// Center of a hex tile in doubled vertical coordinates: columns are one unit apart,
+    /// rows two units, and the odd columns are half a tile lower than the even ones.
+    pub fn center(pos: (usize, usize)) -> (i128, i128) {
+        (pos.0 as i128, 2 * pos.1 as i128 + (pos.0 % 2) as i128)
+    }
+
+    /// The direction in which the edge `dir` points, in the same coordinates.
+    pub fn dir_vec(dir: CellDir) -> (i128, i128) {
+        match dir {
+            CellDir::TR => (1, -1),
+            CellDir::BR => (1, 1),
+            CellDir::B => (0, 2),
+            CellDir::BL => (-1, 1),
+            CellDir::TL => (-1, -1),
+            CellDir::T => (0, -2),
+            CellDir::C => (0, 0),
+        }
+    }
+
+    /// Is `b` the tile that lies behind the edge `dir` of `a`?
+    pub fn is_behind(a: (usize, usize), dir: CellDir, b: (usize, usize)) -> bool {
+        let (ca, cb, d) = (center(a), center(b), dir_vec(dir));
+        cb.0 - ca.0 == d.0 && cb.1 - ca.1 == d.1
+    }
+
+    /// Is there a tile with non negative coordinates behind the edge `dir` of `a`?
+    pub fn exists_behind(a: (usize, usize), dir: CellDir) -> bool {
+        let (ca, d) = (center(a), dir_vec(dir));
+        let c = (ca.0 + d.0, ca.1 + d.1);
+        c.0 >= 0 && c.1 - (c.0 & 1) >= 0
+    }
+
+    /// Does data flow out of a cell through that edge?
+    pub fn flows_out(dir: CellDir) -> bool {
+        matches!(dir, CellDir::TR | CellDir::BR | CellDir::B)
+    }
+
+    /// The positions the machine arithmetic of the geometry functions covers.
+    pub fn valid_pos(p: (usize, usize)) -> bool {
+        p.0 < i32::MAX as usize && p.1 < i32::MAX as usize
+    }
+}
-- 
2.43.0


From fdc86de28f31d96af8d6302bee6e1201afca64d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:43 +0000
Subject: [PATCH 03/37] fix: NodeInstance::mod_in_local2global panicked for
 input index MAX_DSP_NODE_INPUTS

---
 src/nodes/node_conf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index b25fffa..fd9b46f 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -87,7 +87,7 @@ impl NodeInstance {
     }
 
     pub fn mod_in_local2global(&self, idx: u8) -> Option<usize> {
-        if (idx as usize) > self.in2mod_map.len() {
+        if (idx as usize) >= self.in2mod_map.len() {
             return None;
         }
         self.in2mod_map[idx as usize]
-- 
2.43.0


From 07ee68a553230af257ef53d278fb32931b03c54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:43 +0000
Subject: [PATCH 04/37] fix: NodeGraphOrdering panicked for nodes with more
 than 64 distinct targets

---
 src/nodes/node_graph_ordering.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/nodes/node_graph_ordering.rs b/src/nodes/node_graph_ordering.rs
index a247bd8..65dec90 100644
--- a/src/nodes/node_graph_ordering.rs
+++ b/src/nodes/node_graph_ordering.rs
@@ -6,39 +6,32 @@ use crate::dsp::NodeId;
 use std::collections::HashMap;
 use std::collections::HashSet;
 
-pub const MAX_NODE_EDGES: usize = 64;
-pub const UNUSED_NODE_EDGE: usize = 999999;
-
-#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 struct Node {
     /// The [NodeId] of this node.
     node_id: NodeId,
     /// The output edges of this node.
-    edges: [usize; MAX_NODE_EDGES],
-    /// The first unused index in the `edges` array.
-    unused_idx: usize,
+    edges: Vec<usize>,
 }
 
 impl Node {
     pub fn new() -> Self {
-        Self { node_id: NodeId::Nop, edges: [UNUSED_NODE_EDGE; MAX_NODE_EDGES], unused_idx: 0 }
+        Self { node_id: NodeId::Nop, edges: vec![] }
     }
 
     pub fn clear(&mut self) {
         self.node_id = NodeId::Nop;
-        self.edges = [UNUSED_NODE_EDGE; MAX_NODE_EDGES];
-        self.unused_idx = 0;
+        self.edges.clear();
     }
 
     pub fn add_edge(&mut self, node_index: usize) {
-        for ni in self.edges.iter().take(self.unused_idx) {
+        for ni in self.edges.iter() {
             if *ni == node_index {
                 return;
             }
         }
 
-        self.edges[self.unused_idx] = node_index;
-        self.unused_idx += 1;
+        self.edges.push(node_index);
     }
 }
 
@@ -122,7 +115,7 @@ impl NodeGraphOrdering {
             }
 
             if let Some(node) = self.get_node(node_id) {
-                for node_idx in node.edges.iter().take(node.unused_idx) {
+                for node_idx in node.edges.iter() {
                     node_stack.push(self.nodes[*node_idx].node_id);
                 }
             }
@@ -145,7 +138,7 @@ impl NodeGraphOrdering {
 
         // Calculate the number of inputs for each node:
         for node in self.nodes.iter().take(self.node_count) {
-            for out_node_idx in node.edges.iter().take(node.unused_idx) {
+            for out_node_idx in node.edges.iter() {
                 self.in_degree[*out_node_idx] += 1;
             }
         }
@@ -169,7 +162,7 @@ impl NodeGraphOrdering {
             out.push(node.node_id);
 
             // Push the nodes we output to, to the end of the dequeue:
-            for neigh_node_idx in node.edges.iter().take(node.unused_idx) {
+            for neigh_node_idx in node.edges.iter() {
                 // by reducing the input count of the to be visited node:
                 self.in_degree[*neigh_node_idx] -= 1;
 
-- 
2.43.0


From 129dcc6b1c68d97620a6e2766c2fda763542ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:45 +0000
Subject: [PATCH 05/37] fix: SharedFeedback delay depended on the FbWr/FbRd
 order and lost the first sample

---
 src/shared_feedback.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/shared_feedback.rs b/src/shared_feedback.rs
index 4ee55d8..bdab1df 100644
--- a/src/shared_feedback.rs
+++ b/src/shared_feedback.rs
@@ -52,17 +52,12 @@ impl SharedFeedback {
 pub struct SharedFeedbackWriter {
     buffer: Arc<Vec<AtomicFloat>>,
     write_ptr: usize,
-    delay_sample_count: usize,
 }
 
 impl SharedFeedbackWriter {
     pub fn new(sfb: &SharedFeedback) -> Self {
         let buffer = sfb.buffer.clone();
-        Self {
-            buffer,
-            delay_sample_count: sfb.delay_sample_count,
-            write_ptr: sfb.delay_sample_count,
-        }
+        Self { buffer, write_ptr: sfb.delay_sample_count }
     }
 
     /// Write the next sample in to the feedback buffer.
@@ -73,7 +68,7 @@ impl SharedFeedbackWriter {
     /// `FbRd` DSP node reading from that buffer.
     pub fn write(&mut self, s: f32) {
         self.buffer[self.write_ptr].set(s);
-        self.write_ptr = (self.write_ptr + 1) % self.delay_sample_count;
+        self.write_ptr = (self.write_ptr + 1) % self.buffer.len();
     }
 }
 
@@ -88,12 +83,11 @@ impl SharedFeedbackWriter {
 pub struct SharedFeedbackReader {
     buffer: Arc<Vec<AtomicFloat>>,
     read_ptr: usize,
-    delay_sample_count: usize,
 }
 
 impl SharedFeedbackReader {
     pub fn new(sfb: &SharedFeedback) -> Self {
-        Self { buffer: sfb.buffer.clone(), delay_sample_count: sfb.delay_sample_count, read_ptr: 0 }
+        Self { buffer: sfb.buffer.clone(), read_ptr: 0 }
     }
 
     /// Read the next sample from the buffer. Wraps around after some internal buffer
@@ -101,7 +95,7 @@ impl SharedFeedbackReader {
     /// to do it's functionality.
     pub fn read(&mut self) -> f32 {
         let ret = self.buffer[self.read_ptr].get();
-        self.read_ptr = (self.read_ptr + 1) % self.delay_sample_count;
+        self.read_ptr = (self.read_ptr + 1) % self.buffer.len();
         ret
     }
 }
-- 
2.43.0


From 07f98d1283a06ded8fbc54b4512cd0b4d60a7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:45 +0000
Subject: [PATCH 06/37] fix: parameter updates were dropped if all smoothers
 were in use

---
 src/nodes/node_exec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index bd5d5aa..9a5f60a 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -403,6 +403,11 @@ impl NodeExecutor {
             sm.1.set(prog.params[input_idx], value);
             //d// println!("SET SMOOTHER {} {:6.3} (old = {:6.3})",
             //d//          input_idx, value, prog.params[input_idx]);
+        } else {
+            // All smoothers are busy: set the value without smoothing,
+            // the parameter update must not get lost.
+            prog.params[input_idx] = value;
+            self.target_refresh.push((input_idx, value));
         }
     }
 
-- 
2.43.0


From 6fa96dc0a70e043e6b65146ac40206b18f8f4821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:45 +0000
Subject: [PATCH 07/37] fix: smoothers of a cleared graph kept writing into the
 next graph

---
 src/nodes/node_exec.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 9a5f60a..65afc19 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -206,6 +206,13 @@ impl NodeExecutor {
                 GraphMessage::Clear { prog } => {
                     self.exec_ctx.clear();
 
+                    // The parameter indices of the running smoothers belong
+                    // to the old graph:
+                    for (_idx, smoother) in self.smoothers.iter_mut() {
+                        smoother.stop();
+                    }
+                    self.target_refresh.clear();
+
                     self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];
 
                     log(|w| {
-- 
2.43.0


From 504c11c14f1a44dd7f6c36e91fb2188f33cf5c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:45 +0000
Subject: [PATCH 08/37] fix: injected MIDI events were delivered in reverse
 order

---
 src/nodes/node_exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 65afc19..2e22ae7 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -339,7 +339,7 @@ impl NodeExecutor {
         self.exec_ctx.midi_ccs.clear();
 
         if self.injected_midi.len() > 0 {
-            for ev in self.injected_midi.iter().rev() {
+            for ev in self.injected_midi.iter() {
                 let ev = HxTimedEvent::new_timed(0, *ev);
                 if ev.is_cc() {
                     self.exec_ctx.midi_ccs.push(ev);
-- 
2.43.0


From 4744e60eeab60445187ddb5d172d497ae81db3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:45 +0000
Subject: [PATCH 09/37] fix: EventWindowing underflowed for events before the
 current block

---
 src/nodes/midi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nodes/midi.rs b/src/nodes/midi.rs
index eef2e10..be34333 100644
--- a/src/nodes/midi.rs
+++ b/src/nodes/midi.rs
@@ -93,7 +93,10 @@ impl EventWindowing {
     ) -> Option<HxTimedEvent> {
         if let Some(event) = self.event.take() {
             if event.timing < (to_time + block_size) {
-                return Some(HxTimedEvent { timing: event.timing - to_time, kind: event.kind });
+                return Some(HxTimedEvent {
+                    timing: event.timing.saturating_sub(to_time),
+                    kind: event.kind,
+                });
             } else {
                 self.event = Some(event);
             }
-- 
2.43.0


From ed51f32796be0b8fa75757dc78d044f68fbc9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:18 +0000
Subject: [PATCH 10/37] fix: AtomUpdate for atoms of a not yet uploaded program
 panicked in the audio thread

---
 src/nodes/node_exec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 2e22ae7..64bdd2d 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -293,9 +293,11 @@ impl NodeExecutor {
                 }
                 GraphMessage::AtomUpdate { at_idx, value } => {
                     let prog = &mut self.prog;
-                    let garbage = std::mem::replace(&mut prog.atoms[at_idx], value);
+                    if at_idx < prog.atoms.len() {
+                        let garbage = std::mem::replace(&mut prog.atoms[at_idx], value);
 
-                    let _ = self.shared.graph_drop_prod.push(DropMsg::Atom { atom: garbage });
+                        let _ = self.shared.graph_drop_prod.push(DropMsg::Atom { atom: garbage });
+                    }
                 }
                 GraphMessage::ParamUpdate { input_idx, value } => {
                     self.set_param(input_idx, value);
-- 
2.43.0


From 46279b3571ff2eb2f1e6920ed89b4602315432fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:18 +0000
Subject: [PATCH 11/37] fix: set parameters directly if all smoothers are in
 use (follow up, no allocation)

---
 src/nodes/node_exec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 64bdd2d..7489d5a 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -416,7 +416,8 @@ impl NodeExecutor {
             // All smoothers are busy: set the value without smoothing,
             // the parameter update must not get lost.
             prog.params[input_idx] = value;
-            self.target_refresh.push((input_idx, value));
+            prog.inp[input_idx].fill(value);
+            self.target_refresh.retain(|r| r.0 != input_idx);
         }
     }
 
-- 
2.43.0


From 441ae5651194139495dd898c460c5d5e88cf7dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:18 +0000
Subject: [PATCH 12/37] fix: monitoring nodes outside the current program read
 invalid buffers

---
 src/nodes/node_conf.rs |  2 ++
 src/nodes/node_exec.rs | 13 ++++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index fd9b46f..9cbd40d 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -689,6 +689,8 @@ impl NodeConfigurator {
                 i += 1;
             }
 
+            // The output signals are always in the second half:
+            i = MON_SIG_CNT / 2;
             for out_idx in outputs.iter().take(MON_SIG_CNT / 2) {
                 if let Some(out_idx) = out_idx {
                     if let Some(global_idx) = node_instance.out_local2global(*out_idx) {
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 7489d5a..d0add8a 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -508,12 +508,15 @@ impl NodeExecutor {
                 continue;
             }
 
+            // The monitored node might not be part of the current program:
+            let buf = if i > 2 { prog.out.get(*idx) } else { prog.cur_inp.get(*idx) };
+            let buf = match buf {
+                Some(buf) if !buf.is_null() => buf,
+                _ => continue,
+            };
+
             if let Some(mut mon) = self.shared.monitor_backend.get_unused_mon_buf() {
-                if i > 2 {
-                    mon.feed(i, ctx.nframes(), &prog.out[*idx]);
-                } else {
-                    mon.feed(i, ctx.nframes(), &prog.cur_inp[*idx]);
-                }
+                mon.feed(i, ctx.nframes(), buf);
 
                 self.shared.monitor_backend.send_mon_buf(mon);
             }
-- 
2.43.0


From 4f5ef5f59a3b835101544e56af939da3cfabeb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:48 +0000
Subject: [PATCH 13/37] fix: loading oversized pattern data panicked, stale
 cell strings after loading

---
 src/dsp/tracker/pattern.rs | 7 ++++---
 src/matrix_repr.rs         | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 4783f09..91dc90d 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -95,13 +95,14 @@ impl PatternData {
             self.modified_col(i);
         }
 
-        for (row_idx, row) in repr.data.iter().enumerate() {
-            for (col_idx, cell) in row.iter().enumerate() {
+        for (row_idx, row) in repr.data.iter().enumerate().take(MAX_PATTERN_LEN) {
+            for (col_idx, cell) in row.iter().enumerate().take(MAX_COLS) {
                 self.data[row_idx][col_idx] = if *cell < 0 { None } else { Some(*cell as u16) };
+                self.strings[row_idx][col_idx] = None;
             }
         }
 
-        self.rows = repr.rows;
+        self.rows = repr.rows.min(self.data.len());
         self.edit_step = repr.edit_step;
         self.cursor = repr.cursor;
         self.generation += 1;
diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index c6146f8..efcf70d 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -151,7 +151,7 @@ impl PatternRepr {
 
         let cts = &v["col_types"];
         if let Value::Array(cts) = cts {
-            for (i, ct) in cts.iter().enumerate() {
+            for (i, ct) in cts.iter().enumerate().take(MAX_COLS) {
                 col_types[i] = ct.as_i64().unwrap_or(0) as u8;
             }
         }
@@ -159,9 +159,9 @@ impl PatternRepr {
         let mut data = vec![vec![-1; MAX_COLS]; MAX_PATTERN_LEN];
         let dt = &v["data"];
         if let Value::Array(dt) = dt {
-            for (row_idx, row) in dt.iter().enumerate() {
+            for (row_idx, row) in dt.iter().enumerate().take(MAX_PATTERN_LEN) {
                 if let Value::Array(row) = row {
-                    for (col_idx, c) in row.iter().enumerate() {
+                    for (col_idx, c) in row.iter().enumerate().take(MAX_COLS) {
                         data[row_idx][col_idx] = c.as_i64().unwrap_or(-1) as i32;
                     }
                 }
-- 
2.43.0


From 2b162a24537ab6811ff8a7d4a19c9ecac1dfc5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:48 +0000
Subject: [PATCH 14/37] fix: PatternData::set_rows left stale output data in
 columns other than the first

---
 src/dsp/tracker/pattern.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 91dc90d..5eb4bc6 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -358,7 +358,10 @@ impl UIPatternModel for PatternData {
 
     fn set_rows(&mut self, rows: usize) {
         self.rows = rows.min(self.data.len());
-        self.modified_col(0); // modify any col, so we send an update.
+        // The output data of all columns depends on the row count:
+        for col in 0..MAX_COLS {
+            self.modified_col(col);
+        }
         self.generation += 1;
     }
 
-- 
2.43.0


From 94ac08a249764d8e8b5e213be78cd7b81fe4bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:48 +0000
Subject: [PATCH 15/37] fix: UIPatternModel::change_value overflowed for large
 values or offsets

---
 src/dsp/tracker/pattern.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 5eb4bc6..705bedb 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -232,8 +232,8 @@ impl PatternData {
 
 impl dyn UIPatternModel {
     pub fn change_value(&mut self, row: usize, col: usize, offs: i16) {
-        let val = self.get_cell_value(row, col) as i16;
-        let val = (val + offs).max(0).min(0xfff);
+        let val = self.get_cell_value(row, col) as i32;
+        let val = (val + offs as i32).max(0).min(0xfff);
         self.set_cell_value(row, col, val as u16);
     }
 }
-- 
2.43.0


From fd3bf170ddcfbade28bac6549bcf0ffd91b9c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:48 +0000
Subject: [PATCH 16/37] fix: tracker column updates were lost if the update
 ring buffer was full

---
 src/dsp/tracker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index ea8c745..c74b283 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -87,6 +87,11 @@ impl Tracker {
     }
 
     pub fn send_one_update(&mut self) -> bool {
+        // Keep the columns marked as modified until there is space for the update:
+        if self.data_prod.is_full() {
+            return false;
+        }
+
         let mut data = self.data.lock().unwrap();
 
         for col in 0..MAX_COLS {
-- 
2.43.0


From 92f587ea5143500c9cf2427ef9827b32eea0d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:23 +0000
Subject: [PATCH 17/37] verif: contracts on node port layout and connection
 flags (cfg(kani)/cfg(hexo_verif) only)

---
 src/nodes/node_conf.rs | 12 ++++++++++++
 src/nodes/node_prog.rs | 14 ++++++++++++++
 src/verif.rs           | 10 ++++++++++
 3 files changed, 36 insertions(+)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index 9cbd40d..4950fca 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -86,6 +86,8 @@ impl NodeInstance {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r: &Option<usize>|
+        *r == if (idx as usize) < MAX_DSP_NODE_INPUTS { self.in2mod_map[idx as usize] } else { None }))]
     pub fn mod_in_local2global(&self, idx: u8) -> Option<usize> {
         if (idx as usize) >= self.in2mod_map.len() {
             return None;
@@ -93,6 +95,11 @@ impl NodeInstance {
         self.in2mod_map[idx as usize]
     }
 
+    #[cfg_attr(kani, kani::requires(self.in_start <= self.in_end && self.in_end <= usize::MAX - 256))]
+    #[cfg_attr(kani, kani::ensures(|r: &Option<usize>| match r {
+        Some(g) => *g >= self.in_start && *g < self.in_end && *g - self.in_start == idx as usize,
+        None => idx as usize >= self.in_end - self.in_start,
+    }))]
     pub fn in_local2global(&self, idx: u8) -> Option<usize> {
         let idx = self.in_start + idx as usize;
         if idx < self.in_end {
@@ -102,6 +109,11 @@ impl NodeInstance {
         }
     }
 
+    #[cfg_attr(kani, kani::requires(self.out_start <= self.out_end && self.out_end <= usize::MAX - 256))]
+    #[cfg_attr(kani, kani::ensures(|r: &Option<usize>| match r {
+        Some(g) => *g >= self.out_start && *g < self.out_end && *g - self.out_start == idx as usize,
+        None => idx as usize >= self.out_end - self.out_start,
+    }))]
     pub fn out_local2global(&self, idx: u8) -> Option<usize> {
         let idx = self.out_start + idx as usize;
         if idx < self.out_end {
diff --git a/src/nodes/node_prog.rs b/src/nodes/node_prog.rs
index 2759526..5c9ec2d 100644
--- a/src/nodes/node_prog.rs
+++ b/src/nodes/node_prog.rs
@@ -94,10 +94,17 @@ pub struct NodeOp {
 }
 
 impl NodeOp {
+    #[cfg_attr(kani, kani::ensures(|r: &bool|
+        *r == (self.in_idxlen.0 <= idx && idx < self.in_idxlen.1)))]
     pub fn in_idx_belongs_to_nodeop(&self, idx: usize) -> bool {
         idx >= self.in_idxlen.0 && idx < self.in_idxlen.1
     }
 
+    #[cfg_attr(kani, kani::requires(self.in_idxlen.0 <= self.in_idxlen.1
+        && self.in_idxlen.1 - self.in_idxlen.0 <= 64))]
+    #[cfg_attr(kani, kani::modifies(&self.in_connected))]
+    #[cfg_attr(kani, kani::ensures(|_| self.in_connected == old(self.in_connected)
+        | crate::verif::conn_bit(self.in_idxlen, global_idx)))]
     pub fn set_in_idx_connected_flag(&mut self, global_idx: usize) {
         if !self.in_idx_belongs_to_nodeop(global_idx) {
             return;
@@ -107,10 +114,17 @@ impl NodeOp {
         self.in_connected |= 0x1 << local_idx;
     }
 
+    #[cfg_attr(kani, kani::ensures(|r: &bool|
+        *r == (self.out_idxlen.0 <= idx && idx < self.out_idxlen.1)))]
     pub fn out_idx_belongs_to_nodeop(&self, idx: usize) -> bool {
         idx >= self.out_idxlen.0 && idx < self.out_idxlen.1
     }
 
+    #[cfg_attr(kani, kani::requires(self.out_idxlen.0 <= self.out_idxlen.1
+        && self.out_idxlen.1 - self.out_idxlen.0 <= 64))]
+    #[cfg_attr(kani, kani::modifies(&self.out_connected))]
+    #[cfg_attr(kani, kani::ensures(|_| self.out_connected == old(self.out_connected)
+        | crate::verif::conn_bit(self.out_idxlen, global_idx)))]
     pub fn set_out_idx_connected_flag(&mut self, global_idx: usize) {
         if !self.out_idx_belongs_to_nodeop(global_idx) {
             return;
diff --git a/src/verif.rs b/src/verif.rs
index f4a6985..b5fe444 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -51,3 +51,13 @@ pub mod hex {
         p.0 < i32::MAX as usize && p.1 < i32::MAX as usize
     }
 }
+
+/// Bit of a global port index in the connected mask of the node that owns the ports
+/// `range.0..range.1`; no bit if the port belongs to some other node.
+pub fn conn_bit(range: (usize, usize), global_idx: usize) -> u64 {
+    if global_idx < range.0 || global_idx >= range.1 || global_idx - range.0 >= 64 {
+        0
+    } else {
+        1u64 << (global_idx - range.0)
+    }
+}
-- 
2.43.0


From c4579b4d9f2fcf11bfdc84dc55f000ce99dd6ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:44 +0000
Subject: [PATCH 18/37] verif: contracts on the MIDI event windowing
 (cfg(kani)/cfg(hexo_verif) only)

---
 src/nodes/midi.rs      | 48 ++++++++++++++++++++++++++++++++++++++++++
 src/nodes/node_exec.rs |  5 +++++
 src/verif.rs           |  8 +++++++
 3 files changed, 61 insertions(+)

diff --git a/src/nodes/midi.rs b/src/nodes/midi.rs
index be34333..c33d657 100644
--- a/src/nodes/midi.rs
+++ b/src/nodes/midi.rs
@@ -66,6 +66,25 @@ pub enum HxMidiEvent {
     CC { channel: u8, cc: u8, value: f32 },
 }
 
+#[cfg(any(kani, hexo_verif))]
+impl HxMidiEvent {
+    /// Identifies an event for the contracts.
+    pub fn verif_bits(&self) -> (u8, u8, u8, u32) {
+        match self {
+            HxMidiEvent::NoteOn { channel, note, vel } => (0, *channel, *note, vel.to_bits()),
+            HxMidiEvent::NoteOff { channel, note } => (1, *channel, *note, 0),
+            HxMidiEvent::CC { channel, cc, value } => (2, *channel, *cc, value.to_bits()),
+        }
+    }
+}
+
+#[cfg(any(kani, hexo_verif))]
+impl HxTimedEvent {
+    pub fn verif_timing(&self) -> usize {
+        self.timing
+    }
+}
+
 pub struct EventWindowing {
     pub event: Option<HxTimedEvent>,
 }
@@ -76,16 +95,45 @@ impl EventWindowing {
     }
 
     #[inline]
+    #[cfg_attr(kani, kani::ensures(|r| *r == self.event.is_none()))]
     pub fn feed_me(&self) -> bool {
         self.event.is_none()
     }
 
     #[inline]
+    #[cfg_attr(kani, kani::requires(self.event.is_none()))]
+    #[cfg_attr(kani, kani::modifies(&self.event))]
+    #[cfg_attr(kani, kani::ensures(|_| match self.event {
+        Some(e) => e.timing == event.timing && e.kind.verif_bits() == event.kind.verif_bits(),
+        None => false,
+    }))]
     pub fn feed(&mut self, event: HxTimedEvent) {
         self.event = Some(event);
     }
 
     #[inline]
+    #[cfg_attr(kani, kani::requires(block_size <= usize::MAX - to_time))]
+    #[cfg_attr(kani, kani::modifies(&self.event))]
+    // delivered, if (and only if) it lies before the end of the window ...
+    #[cfg_attr(kani, kani::ensures(|r| r.is_some() == match old(self.event) {
+        Some(e) => e.timing < to_time + block_size,
+        None => false,
+    }))]
+    // ... with the frame relative to the start of the window ...
+    #[cfg_attr(kani, kani::ensures(|r| match (r, old(self.event)) {
+        (Some(d), Some(e)) => d.kind.verif_bits() == e.kind.verif_bits()
+            && d.timing == if e.timing > to_time { e.timing - to_time } else { 0 },
+        (Some(_), None) => false,
+        _ => true,
+    }))]
+    // ... and never lost or duplicated.
+    #[cfg_attr(kani, kani::ensures(|r| match (self.event, old(self.event)) {
+        (Some(n), Some(e)) => r.is_none() && n.timing == e.timing
+            && n.kind.verif_bits() == e.kind.verif_bits(),
+        (None, Some(_)) => r.is_some(),
+        (None, None) => true,
+        (Some(_), None) => false,
+    }))]
     pub fn next_event_in_range(
         &mut self,
         to_time: usize,
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index d0add8a..aaa9785 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -372,6 +372,11 @@ impl NodeExecutor {
         }
     }
 
+    #[cfg(any(kani, hexo_verif))]
+    pub fn verif_midi(&self) -> (&[HxTimedEvent], &[HxTimedEvent]) {
+        (&self.exec_ctx.midi_notes[..], &self.exec_ctx.midi_ccs[..])
+    }
+
     #[inline]
     pub fn get_prog(&self) -> &NodeProg {
         &self.prog
diff --git a/src/verif.rs b/src/verif.rs
index b5fe444..70af841 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -61,3 +61,11 @@ pub fn conn_bit(range: (usize, usize), global_idx: usize) -> u64 {
         1u64 << (global_idx - range.0)
     }
 }
+
+/// The note and CC events the nodes see in the current block.
+#[cfg(not(kani))]
+pub fn exec_midi(
+    exec: &crate::nodes::NodeExecutor,
+) -> (&[crate::nodes::HxTimedEvent], &[crate::nodes::HxTimedEvent]) {
+    exec.verif_midi()
+}
-- 
2.43.0


From c01a113140b71345276227aa023291af9ce4d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:45 +0000
Subject: [PATCH 19/37] verif: contracts on monitors, visual filters, feedback
 buffers, scope (cfg(kani)/cfg(hexo_verif) only)

---
 src/monitor.rs                      | 65 +++++++++++++++++++++++++++++
 src/nodes/mod.rs                    |  3 ++
 src/nodes/visual_sampling_filter.rs | 16 +++++++
 src/shared_feedback.rs              | 38 +++++++++++++++++
 src/verif.rs                        | 31 ++++++++++++++
 5 files changed, 153 insertions(+)

diff --git a/src/monitor.rs b/src/monitor.rs
index 52e7f06..18f11e1 100644
--- a/src/monitor.rs
+++ b/src/monitor.rs
@@ -168,6 +168,14 @@ impl MinMaxMonitorSamples {
     }
 
     /// Gets the sample at the offset relative to the start of the min_max_slice.
+    #[cfg_attr(kani, kani::requires(self.buf_ptr < MONITOR_MINMAX_SAMPLES))]
+    #[cfg_attr(kani, kani::requires(offs < MONITOR_MINMAX_SAMPLES))]
+    #[cfg_attr(kani, kani::ensures(|r| std::ptr::eq(*r,
+        &self.samples[if offs < MONITOR_MINMAX_SAMPLES - self.buf_ptr {
+            self.buf_ptr + offs
+        } else {
+            offs - (MONITOR_MINMAX_SAMPLES - self.buf_ptr)
+        }])))]
     pub fn at(&self, offs: usize) -> &(f32, f32) {
         let idx = (self.buf_ptr + offs) % self.samples.len();
         &self.samples[idx]
@@ -416,12 +424,28 @@ impl MonitorBuf {
         })
     }
 
+    #[cfg_attr(kani, kani::modifies(&self.len))]
+    #[cfg_attr(kani, kani::modifies(&self.read_idx))]
+    #[cfg_attr(kani, kani::ensures(|_| self.len == [0; MON_SIG_CNT] && self.read_idx == [0; MON_SIG_CNT]))]
     pub fn reset(&mut self) {
         self.len = [0; MON_SIG_CNT];
         self.read_idx = [0; MON_SIG_CNT];
     }
 
     #[inline(always)]
+    #[cfg_attr(kani, kani::requires(idx < MON_SIG_CNT && self.len[idx] <= MAX_BLOCK_SIZE))]
+    #[cfg_attr(kani, kani::modifies(&self.read_idx))]
+    #[cfg_attr(kani, kani::ensures(|r| r.is_some() == (old(self.read_idx)[idx] < self.len[idx])))]
+    #[cfg_attr(kani, kani::ensures(|r| match r {
+        Some(v) => v.to_bits()
+            == self.sig_blocks[idx * MAX_BLOCK_SIZE + old(self.read_idx)[idx]].to_bits(),
+        None => true,
+    }))]
+    #[cfg_attr(kani, kani::ensures(|r| {
+        let mut want = old(self.read_idx);
+        want[idx] += r.is_some() as usize;
+        self.read_idx == want
+    }))]
     pub fn next_sample_for_signal(&mut self, idx: usize) -> Option<f32> {
         let rd_idx = self.read_idx[idx];
         if rd_idx >= self.len[idx] {
@@ -445,6 +469,47 @@ impl MonitorBuf {
     }
 }
 
+#[cfg(any(kani, hexo_verif))]
+impl MonitorBuf {
+    /// An arbitrary state for the contracts.
+    pub fn verif_new(
+        sig_blocks: [f32; MON_SIG_CNT * MAX_BLOCK_SIZE],
+        len: [usize; MON_SIG_CNT],
+        read_idx: [usize; MON_SIG_CNT],
+    ) -> Self {
+        Self { sig_blocks, len, read_idx }
+    }
+}
+
+#[cfg(any(kani, hexo_verif))]
+impl MonitorMinMax {
+    pub fn verif_new(sig_idx: usize, buf_write_ptr: usize, cur_min_max: (f32, f32, usize)) -> Self {
+        Self { buf_write_ptr, cur_min_max, ..Self::new(sig_idx) }
+    }
+    pub fn verif_state(&self) -> (&[(f32, f32)], usize, (f32, f32, usize)) {
+        (&self.buf[..], self.buf_write_ptr, self.cur_min_max)
+    }
+}
+
+#[cfg(any(kani, hexo_verif))]
+impl MinMaxMonitorSamples {
+    pub fn verif_new(samples: [(f32, f32); MONITOR_MINMAX_SAMPLES], buf_ptr: usize) -> Self {
+        Self { samples, buf_ptr }
+    }
+}
+
+/// Backend and processor without the thread in between.
+#[cfg(any(kani, hexo_verif))]
+pub fn verif_monitor_pair(count: usize) -> (MonitorBackend, MonitorProcessor) {
+    let (rb_mon_prod, rb_mon_con) = RingBuffer::new(count).split();
+    let (rb_recycle_prod, rb_recycle_con) = RingBuffer::new(count).split();
+    let unused_monitor_buffers = (0..count).map(|_| MonitorBuf::alloc()).collect();
+    (
+        MonitorBackend { rb_mon_prod, rb_recycle_con, unused_monitor_buffers },
+        MonitorProcessor::new(rb_mon_con, rb_recycle_prod),
+    )
+}
+
 /// Pointer type for the [MonitorBuf]
 pub type MonitorBufPtr = Box<MonitorBuf>;
 
diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 4e147e6..49a34cb 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -2,7 +2,10 @@
 // This file is a part of HexoDSP. Released under GPL-3.0-or-later.
 // See README.md and COPYING for details.
 
+#[cfg(not(kani))]
 pub const SCOPE_SAMPLES: usize = 512;
+#[cfg(kani)]
+pub const SCOPE_SAMPLES: usize = 8;
 pub const MAX_DSP_NODE_INPUTS: usize = 32;
 pub const MAX_SMOOTHERS: usize = 36 + 4; // 6 * 6 modulator inputs + 4 UI Knobs
 pub const MAX_INJ_MIDI_EVENTS: usize = 64;
diff --git a/src/nodes/visual_sampling_filter.rs b/src/nodes/visual_sampling_filter.rs
index f394620..2994337 100644
--- a/src/nodes/visual_sampling_filter.rs
+++ b/src/nodes/visual_sampling_filter.rs
@@ -91,3 +91,19 @@ impl VisualSamplingFilter {
         self.last_output
     }
 }
+
+#[cfg(any(kani, hexo_verif))]
+impl VisualSamplingFilter {
+    /// An arbitrary state for the contracts.
+    pub fn verif_new(
+        recalc_state: bool,
+        write_ptr: usize,
+        sample_buffer: [f32; VALUE_SAMPLING_FILTER_SIZE],
+        last_output: (f32, f32),
+    ) -> Self {
+        Self { recalc_state, write_ptr, sample_buffer, last_output }
+    }
+    pub fn verif_state(&self) -> (bool, usize, [f32; VALUE_SAMPLING_FILTER_SIZE], (f32, f32)) {
+        (self.recalc_state, self.write_ptr, self.sample_buffer, self.last_output)
+    }
+}
diff --git a/src/shared_feedback.rs b/src/shared_feedback.rs
index bdab1df..cbd9993 100644
--- a/src/shared_feedback.rs
+++ b/src/shared_feedback.rs
@@ -66,6 +66,12 @@ impl SharedFeedbackWriter {
     /// or produce any meaningful results. The goal is really, that one `FbWr` DSP node
     /// on the audio thread writing the buffer per buffer iteration. And then one or more
     /// `FbRd` DSP node reading from that buffer.
+    #[cfg_attr(kani, kani::requires(self.write_ptr < self.buffer.len()))]
+    #[cfg_attr(kani, kani::modifies(&self.write_ptr))]
+    #[cfg_attr(kani, kani::modifies(&self.buffer[self.write_ptr]))]
+    #[cfg_attr(kani, kani::ensures(|_| self.buffer[old(self.write_ptr)].get().to_bits() == s.to_bits()))]
+    #[cfg_attr(kani, kani::ensures(|_| self.write_ptr
+        == if old(self.write_ptr) + 1 == self.buffer.len() { 0 } else { old(self.write_ptr) + 1 }))]
     pub fn write(&mut self, s: f32) {
         self.buffer[self.write_ptr].set(s);
         self.write_ptr = (self.write_ptr + 1) % self.buffer.len();
@@ -93,9 +99,41 @@ impl SharedFeedbackReader {
     /// Read the next sample from the buffer. Wraps around after some internal buffer
     /// size (that is consistent with the [SharedFeedback] buffer size). Used by `FbRd` DSP node
     /// to do it's functionality.
+    #[cfg_attr(kani, kani::requires(self.read_ptr < self.buffer.len()))]
+    #[cfg_attr(kani, kani::modifies(&self.read_ptr))]
+    #[cfg_attr(kani, kani::ensures(|r| r.to_bits() == self.buffer[old(self.read_ptr)].get().to_bits()))]
+    #[cfg_attr(kani, kani::ensures(|_| self.read_ptr
+        == if old(self.read_ptr) + 1 == self.buffer.len() { 0 } else { old(self.read_ptr) + 1 }))]
     pub fn read(&mut self) -> f32 {
         let ret = self.buffer[self.read_ptr].get();
         self.read_ptr = (self.read_ptr + 1) % self.buffer.len();
         ret
     }
 }
+
+#[cfg(any(kani, hexo_verif))]
+impl SharedFeedback {
+    /// A buffer with the given delay, for the contracts.
+    pub fn verif_with_delay(delay_sample_count: usize) -> Self {
+        let mut buf = vec![];
+        buf.resize_with(3 * delay_sample_count, || AtomicFloat::new(0.0));
+        Self { buffer: Arc::new(buf), delay_sample_count }
+    }
+    pub fn verif_dims(&self) -> (usize, usize) {
+        (self.delay_sample_count, self.buffer.len())
+    }
+}
+
+#[cfg(any(kani, hexo_verif))]
+impl SharedFeedbackWriter {
+    pub fn verif_at(sfb: &SharedFeedback, write_ptr: usize) -> Self {
+        Self { buffer: sfb.buffer.clone(), write_ptr }
+    }
+}
+
+#[cfg(any(kani, hexo_verif))]
+impl SharedFeedbackReader {
+    pub fn verif_at(sfb: &SharedFeedback, read_ptr: usize) -> Self {
+        Self { buffer: sfb.buffer.clone(), read_ptr }
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
index 70af841..aab8632 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -69,3 +69,34 @@ pub fn exec_midi(
 ) -> (&[crate::nodes::HxTimedEvent], &[crate::nodes::HxTimedEvent]) {
     exec.verif_midi()
 }
+
+/// Bitwise equality.
+pub fn same_pair(a: (f32, f32), b: (f32, f32)) -> bool {
+    a.0.to_bits() == b.0.to_bits() && a.1.to_bits() == b.1.to_bits()
+}
+
+/// Bitwise equality.
+pub fn same_samples(a: &[f32; 10], b: &[f32; 10]) -> bool {
+    let mut ok = true;
+    let mut i = 0;
+    while i < 10 {
+        ok &= a[i].to_bits() == b[i].to_bits();
+        i += 1;
+    }
+    ok
+}
+
+/// `r.0` is the magnitude of the most negative, `r.1` the most positive value of the window.
+pub fn is_extent_of(r: (f32, f32), window: &[f32; 10]) -> bool {
+    let (mut bound, mut hit0, mut hit1) = (true, r.0 == 0.0, r.1 == 0.0);
+    let mut i = 0;
+    while i < 10 {
+        let v = window[i];
+        bound &= !(v < 0.0) || -v <= r.0;
+        bound &= !(v >= 0.0) || v <= r.1;
+        hit0 |= v < 0.0 && -v == r.0;
+        hit1 |= v >= 0.0 && v == r.1;
+        i += 1;
+    }
+    bound && hit0 && hit1 && r.0 >= 0.0 && r.1 >= 0.0
+}
-- 
2.43.0


From 4b1e223915346bb17b7bb0c844b192b23b5db7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:37 +0000
Subject: [PATCH 20/37] fix: MatrixCellChain set parameters on the wrong node
 instance

Parameters of a chain link were set on instance 0 of the node type, even if
the cell was placed with another (unused) instance.
---
 src/chain_builder.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 959618b..3b81da7 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -248,6 +248,7 @@ impl MatrixCellChain {
         }
 
         let mut last_unused = HashMap::new();
+        let mut params = vec![];
 
         let mut pos = (at_x, at_y);
 
@@ -272,15 +273,20 @@ impl MatrixCellChain {
 
             matrix.place(x, y, cell);
 
+            // The parameters belong to the node instance that was actually placed:
+            for (pid, at) in link.params.iter() {
+                if let Some(pid) = node_id.inp_param(pid.name()) {
+                    params.push((pid, at.clone()));
+                }
+            }
+
             let offs = link.dir.as_offs(pos.0);
             pos.0 = (pos.0 as i32 + offs.0) as usize;
             pos.1 = (pos.1 as i32 + offs.1) as usize;
         }
 
-        for link in self.chain.iter() {
-            for (pid, at) in link.params.iter() {
-                matrix.set_param(*pid, at.clone());
-            }
+        for (pid, at) in params {
+            matrix.set_param(pid, at);
         }
 
         Ok(())
-- 
2.43.0


From 8a65990a09639956c682db8a5283ebcbcdaadc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:37 +0000
Subject: [PATCH 21/37] fix: used inputs were stale after a rejected matrix
 change was rolled back

---
 src/matrix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9bd7215..aabcb53 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -671,6 +671,9 @@ impl Matrix {
     pub fn restore_matrix(&mut self) {
         if let Some(matrix) = self.saved_matrix.take() {
             self.matrix = matrix;
+            // The edges and used inputs still belong to the discarded changes
+            // if [Matrix::check] was called in between:
+            self.update_graph_ordering_and_edges();
         }
     }
 
-- 
2.43.0


From bb6f519555374dd1db0122214bcc177d732de85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:37 +0000
Subject: [PATCH 22/37] verif: contracts on matrix cells and grid
 (cfg(kani)/cfg(hexo_verif) only)

---
 src/matrix.rs | 30 ++++++++++++++++++++++++++++++
 src/verif.rs  | 13 +++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index aabcb53..1b0788c 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -178,6 +178,14 @@ impl Cell {
         (self.x as usize, self.y as usize)
     }
 
+    #[cfg_attr(kani, kani::requires(self.x < 255 && self.y < 255))]
+    #[cfg_attr(kani, kani::modifies(self))]
+    #[cfg_attr(kani, kani::ensures(|r| if *r {
+        crate::verif::hex::is_behind(old(*self).pos(), dir, self.pos())
+    } else {
+        self.pos() == old(*self).pos() && !crate::verif::hex::exists_behind(self.pos(), dir)
+    }))]
+    #[cfg_attr(kani, kani::ensures(|_| old(*self).with_pos_of(*self) == *self))]
     pub fn offs_dir(&mut self, dir: CellDir) -> bool {
         if let Some(new_pos) = dir.offs_pos((self.x as usize, self.y as usize)) {
             self.x = new_pos.0 as u8;
@@ -188,6 +196,7 @@ impl Cell {
         }
     }
 
+    #[cfg_attr(kani, kani::ensures(|r| *r == self.local_port_idx(dir).is_some()))]
     pub fn has_dir_set(&self, dir: CellDir) -> bool {
         match dir {
             CellDir::TR => self.out1.is_some(),
@@ -212,6 +221,9 @@ impl Cell {
         }
     }
 
+    #[cfg_attr(kani, kani::modifies(self))]
+    #[cfg_attr(kani, kani::ensures(|_| crate::verif::same_but(&old(*self), self, |d|
+        if d == dir || dir == CellDir::C { None } else { old(*self).local_port_idx(d) })))]
     pub fn clear_io_dir(&mut self, dir: CellDir) {
         match dir {
             CellDir::TR => {
@@ -243,6 +255,9 @@ impl Cell {
         }
     }
 
+    #[cfg_attr(kani, kani::modifies(self))]
+    #[cfg_attr(kani, kani::ensures(|_| crate::verif::same_but(&old(*self), self, |d|
+        if d == dir { Some(idx as u8) } else { old(*self).local_port_idx(d) })))]
     pub fn set_io_dir(&mut self, dir: CellDir, idx: usize) {
         match dir {
             CellDir::TR => {
@@ -1537,6 +1552,21 @@ impl Matrix {
     }
 }
 
+#[cfg(kani)]
+impl Matrix {
+    /// Only the grid of a matrix, for the contracts: the other fields must not be used.
+    pub fn verif_grid(w: usize, h: usize, cells: Vec<Cell>) -> std::mem::MaybeUninit<Matrix> {
+        let mut m = std::mem::MaybeUninit::<Matrix>::uninit();
+        unsafe {
+            let p = m.as_mut_ptr();
+            std::ptr::addr_of_mut!((*p).matrix).write(cells);
+            std::ptr::addr_of_mut!((*p).w).write(w);
+            std::ptr::addr_of_mut!((*p).h).write(h);
+        }
+        m
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/verif.rs b/src/verif.rs
index aab8632..4caf723 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -100,3 +100,16 @@ pub fn is_extent_of(r: (f32, f32), window: &[f32; 10]) -> bool {
     }
     bound && hit0 && hit1 && r.0 >= 0.0 && r.1 >= 0.0
 }
+
+/// `b` is the cell `a` with the ports given by `port`.
+pub fn same_but<F: Fn(crate::CellDir) -> Option<u8>>(a: &crate::Cell, b: &crate::Cell, port: F) -> bool {
+    use crate::CellDir::*;
+    a.node_id() == b.node_id()
+        && a.pos() == b.pos()
+        && b.local_port_idx(TR) == port(TR)
+        && b.local_port_idx(BR) == port(BR)
+        && b.local_port_idx(B) == port(B)
+        && b.local_port_idx(BL) == port(BL)
+        && b.local_port_idx(TL) == port(TL)
+        && b.local_port_idx(T) == port(T)
+}
-- 
2.43.0


From a0b39f33df2987d7f5c773dd4ba41b5abe9893e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:28 +0000
Subject: [PATCH 23/37] fix: parameter ramps jumped if the graph was synced
 while they were running

---
 src/nodes/node_exec.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index aaa9785..b471617 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -279,6 +279,15 @@ impl NodeExecutor {
                         self.prog.swap_previous_outputs(&mut prev_prog);
                     }
 
+                    // The running smoothers continue in the new program. If they get a
+                    // new target they have to start at the value they reached so far, and
+                    // not at the value they are on their way to:
+                    for (idx, _smoother) in self.smoothers.iter().filter(|s| !s.1.is_done()) {
+                        if *idx < self.prog.params.len() && *idx < prev_prog.params.len() {
+                            self.prog.params[*idx] = prev_prog.params[*idx];
+                        }
+                    }
+
                     self.prog.assign_outputs();
 
                     let _ = self.shared.graph_drop_prod.push(DropMsg::Prog { prog: prev_prog });
-- 
2.43.0


From 845ef06e2f0c998ea0afdec47267ecc85db24de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:28 +0000
Subject: [PATCH 24/37] verif: contracts on the parameter smoother
 (cfg(kani)/cfg(hexo_verif) only)

---
 src/util.rs  | 32 ++++++++++++++++++++++++++++++++
 src/verif.rs |  2 ++
 2 files changed, 34 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 63014d5..10bd899 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -14,6 +14,18 @@ pub struct Smoother {
 }
 
 impl Smoother {
+    /// A smoother in any state.
+    #[cfg(any(kani, hexo_verif))]
+    pub fn verif_new(slope_samples: usize, v: [f32; 3], count: usize, done: bool) -> Self {
+        Self { slope_samples, value: v[0], inc: v[1], target: v[2], count, done }
+    }
+
+    /// (value, increment, target, remaining samples)
+    #[cfg(any(kani, hexo_verif))]
+    pub fn verif_state(&self) -> (f32, f32, f32, usize) {
+        (self.value, self.inc, self.target, self.count)
+    }
+
     pub fn new() -> Self {
         Self { slope_samples: 0, value: 0.0, inc: 0.0, count: 0, target: 0.0, done: true }
     }
@@ -34,6 +46,14 @@ impl Smoother {
     }
 
     #[inline]
+    #[cfg_attr(kani, kani::modifies(self))]
+    #[cfg_attr(kani, kani::ensures(|_r: &()| {
+        !self.done
+            && self.count == old(self.slope_samples)
+            && self.slope_samples == old(self.slope_samples)
+            && self.value.to_bits() == current.to_bits()
+            && self.target.to_bits() == target.to_bits()
+    }))]
     pub fn set(&mut self, current: f32, target: f32) {
         self.value = current;
         self.count = self.slope_samples;
@@ -53,6 +73,18 @@ impl Smoother {
     }
 
     #[inline]
+    #[cfg_attr(kani, kani::modifies(self))]
+    #[cfg_attr(kani, kani::ensures(|r: &f32| {
+        self.slope_samples == old(self.slope_samples)
+            && self.target.to_bits() == old(self.target).to_bits()
+            && if old(self.count) == 0 {
+                self.done && self.count == 0 && r.to_bits() == self.target.to_bits()
+            } else {
+                self.done == old(self.done)
+                    && self.count == old(self.count) - 1
+                    && r.to_bits() == self.value.to_bits()
+            }
+    }))]
     pub fn next(&mut self) -> f32 {
         //d// println!("NEXT: count={}, value={:6.3} inc={:6.4}",
         //d//          self.count,
diff --git a/src/verif.rs b/src/verif.rs
index 4caf723..6f3bfa9 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -70,6 +70,8 @@ pub fn exec_midi(
     exec.verif_midi()
 }
 
+pub use crate::util::Smoother;
+
 /// Bitwise equality.
 pub fn same_pair(a: (f32, f32), b: (f32, f32)) -> bool {
     a.0.to_bits() == b.0.to_bits() && a.1.to_bits() == b.1.to_bits()
-- 
2.43.0


From 3ff21e1f7b764f4f88fe9f641f462b800c306f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:39 +0000
Subject: [PATCH 25/37] fix: a new tracker backend did not receive the existing
 pattern data

---
 src/dsp/tracker/mod.rs     |  2 ++
 src/dsp/tracker/pattern.rs | 11 ++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index c74b283..7651327 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -122,6 +122,8 @@ impl Tracker {
             self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));
             self.data_prod = prod;
             self.seq_cons = Some(con);
+            // The new backend does not know the contents of the pattern yet:
+            self.data.lock().unwrap().modified_all_cols();
         }
 
         let seq = self.seq.take().unwrap();
diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 705bedb..4a4b19b 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -118,6 +118,13 @@ impl PatternData {
         }
     }
 
+    /// Marks all columns as modified, so that they are sent to the backend (again).
+    pub(crate) fn modified_all_cols(&mut self) {
+        for col in 0..MAX_COLS {
+            self.modified_col(col);
+        }
+    }
+
     pub fn col_is_modified_reset(&mut self, col: usize) -> bool {
         if self.dirty_col.get(col).copied().unwrap_or(false) {
             self.dirty_col[col] = false;
@@ -359,9 +366,7 @@ impl UIPatternModel for PatternData {
     fn set_rows(&mut self, rows: usize) {
         self.rows = rows.min(self.data.len());
         // The output data of all columns depends on the row count:
-        for col in 0..MAX_COLS {
-            self.modified_col(col);
-        }
+        self.modified_all_cols();
         self.generation += 1;
     }
 
-- 
2.43.0


From 069f48888986eaaac73efd2d32cd89d4edcb5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:39 +0000
Subject: [PATCH 26/37] verif: tracker pattern accessors, small patterns under
 cfg(kani) (cfg(kani)/cfg(hexo_verif) only)

---
 src/dsp/tracker/mod.rs     |  6 ++++++
 src/dsp/tracker/pattern.rs | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index 7651327..e70a0f1 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -9,8 +9,14 @@ use ringbuf::{Consumer, Producer, RingBuffer};
 
 use std::sync::{Arc, Mutex};
 
+#[cfg(not(kani))]
 pub const MAX_COLS: usize = 6;
+#[cfg(kani)]
+pub const MAX_COLS: usize = 2;
+#[cfg(not(kani))]
 pub const MAX_PATTERN_LEN: usize = 256;
+#[cfg(kani)]
+pub const MAX_PATTERN_LEN: usize = 4;
 pub const MAX_RINGBUF_SIZE: usize = 64;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 4a4b19b..48f8571 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -237,6 +237,17 @@ impl PatternData {
     }
 }
 
+#[cfg(any(kani, hexo_verif))]
+impl PatternData {
+    /// Content of a cell, without the display string.
+    pub fn verif_cell(&self, row: usize, col: usize) -> Option<u16> {
+        self.data[row][col]
+    }
+    pub fn verif_dirty(&self, col: usize) -> bool {
+        self.dirty_col[col]
+    }
+}
+
 impl dyn UIPatternModel {
     pub fn change_value(&mut self, row: usize, col: usize, offs: i16) {
         let val = self.get_cell_value(row, col) as i32;
-- 
2.43.0


From cee85d39d6c7aa72c755bf9629e2c178e5c0815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:17 +0000
Subject: [PATCH 27/37] fix: moving or cloning a block into an unknown area
 does not lose the block

---
 src/wblockdsp/language.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 2efe7fe..a52c50a 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1543,6 +1543,10 @@ impl BlockFun {
             return Err(BlockDSPError::UnknownArea(id));
         };
 
+        if self.areas.get(id2).is_none() {
+            return Err(BlockDSPError::UnknownArea(id2));
+        }
+
         self.create_areas_for_block(block.as_mut());
 
         // check if the user grabbed at a different row than the top row:
@@ -1682,6 +1686,10 @@ impl BlockFun {
             return Err(BlockDSPError::CircularAction(id, id2));
         }
 
+        if self.areas.get(id2).is_none() {
+            return Err(BlockDSPError::UnknownArea(id2));
+        }
+
         let (block, xo, yo) = if let Some(area) = self.areas.get_mut(id) {
             area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?
         } else {
-- 
2.43.0


From d08e976b46759f38db1be405e2ea47df84acd752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:17 +0000
Subject: [PATCH 28/37] fix: a new code engine backend receives the code of its
 block function

---
 src/global.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/global.rs b/src/global.rs
index fe5c76f..dd7db0f 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -164,6 +164,10 @@ impl NodeGlobalData {
     /// to the previously returned [CodeEngineBackend].
     #[cfg(feature = "synfx-dsp-jit")]
     pub fn get_code_engine_backend(&mut self, index: usize) -> CodeEngineBackend {
+        // The new backend has no code yet, the next check_code has to send it:
+        if let Some((generation, _)) = self.block_functions.get_mut(&index) {
+            *generation = 0;
+        }
         self.get_code_engine(index).get_backend()
     }
 
-- 
2.43.0


From ff54366eed4c4f07c410b2f676ea9ff4013ffc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:17 +0000
Subject: [PATCH 29/37] fix: a pattern with only a changed row count is saved
 with the patch

---
 src/dsp/tracker/pattern.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 48f8571..4af45a1 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -38,6 +38,10 @@ impl PatternData {
 
 impl PatternData {
     pub fn is_unset(&self) -> bool {
+        if self.rows != self.data.len() {
+            return false;
+        }
+
         for ct in self.col_types.iter() {
             if *ct != PatternColType::Value {
                 return false;
-- 
2.43.0


From 80883330351a1bf648d489e04ca5d7404e0966c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:17 +0000
Subject: [PATCH 30/37] fix: loading a patch resets patterns and block
 functions of the previous patch

---
 src/matrix.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 1b0788c..002363f 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -2,7 +2,7 @@
 // This file is a part of HexoDSP. Released under GPL-3.0-or-later.
 // See README.md and COPYING for details.
 
-use crate::dsp::tracker::PatternData;
+use crate::dsp::tracker::{PatternData, MAX_PATTERN_LEN};
 use crate::dsp::{NodeId, NodeInfo, ParamId, SAtom};
 use crate::matrix_repr::*;
 pub use crate::monitor::MON_SIG_CNT;
@@ -943,20 +943,41 @@ impl Matrix {
             self.place(cell.x as usize, cell.y as usize, cell);
         }
 
-        for (tracker_id, pat) in repr.patterns.iter().enumerate() {
-            if let Some(pat) = pat {
+        // Patterns and block functions, that are not in the representation, are reset,
+        // so nothing of the previously loaded patch remains:
+        let mut tracker_id = 0;
+        while tracker_id < repr.patterns.len().max(128) || self.has_tracker(tracker_id) {
+            let pat = repr.patterns.get(tracker_id).and_then(|pat| pat.as_ref());
+            if pat.is_some() || self.has_tracker(tracker_id) {
                 if let Some(pd) = self.get_pattern_data(tracker_id) {
-                    pd.lock().unwrap().from_repr(pat);
+                    let mut pd = pd.lock().unwrap();
+                    if let Some(pat) = pat {
+                        pd.from_repr(pat);
+                    } else if !pd.is_unset() {
+                        pd.from_repr(&PatternData::new(MAX_PATTERN_LEN).to_repr());
+                    }
                 }
             }
+
+            tracker_id += 1;
         }
 
-        for (bf_id, block_fun) in repr.block_funs.iter().enumerate() {
-            if let Some(block_fun) = block_fun {
+        let mut bf_id = 0;
+        while bf_id < repr.block_funs.len().max(32) || self.has_code_engine(bf_id) {
+            let block_fun = repr.block_funs.get(bf_id).and_then(|bf| bf.as_ref());
+            if block_fun.is_some() || self.has_code_engine(bf_id) {
                 if let Some(bf) = self.get_block_function(bf_id) {
-                    bf.lock().unwrap().load_snapshot(block_fun);
+                    let mut bf = bf.lock().unwrap();
+                    if let Some(block_fun) = block_fun {
+                        bf.load_snapshot(block_fun);
+                    } else if !bf.is_unset() {
+                        let empty = BlockFun::new(bf.block_language()).save_snapshot();
+                        bf.load_snapshot(&empty);
+                    }
                 }
             }
+
+            bf_id += 1;
         }
 
         let ret = self.sync();
-- 
2.43.0


From ecf533abe3ca7edc8232a95bede2c69674c75e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:17 +0000
Subject: [PATCH 31/37] fix: cells of a patch that lie outside the matrix are
 not wrapped into it

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 002363f..4c76cb3 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -940,7 +940,7 @@ impl Matrix {
 
         for cell_repr in repr.cells.iter() {
             let cell = Cell::from_repr(cell_repr);
-            self.place(cell.x as usize, cell.y as usize, cell);
+            self.place(cell_repr.x, cell_repr.y, cell);
         }
 
         // Patterns and block functions, that are not in the representation, are reset,
-- 
2.43.0


From 6b6059f83e6c3b597150dbbe4cb8f64154bab125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:17 +0000
Subject: [PATCH 32/37] fix: shifting a port of a row that the block does not
 have is ignored

---
 src/wblockdsp/language.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index a52c50a..e6a0d60 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -120,6 +120,10 @@ impl Block {
             v.resize(self.rows, None);
         }
 
+        if idx >= v.len() {
+            return;
+        }
+
         let idx_from = idx;
         let idx_to = (idx + 1) % v.len();
         let elem = v.remove(idx_from);
-- 
2.43.0


From 7814364466fe0abdf1716f8cdc276b767975047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:37 +0000
Subject: [PATCH 33/37] fix: MatrixCellChain reused node instances that are in
 use already

---
 src/chain_builder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 3b81da7..3ad2d01 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -260,14 +260,15 @@ impl MatrixCellChain {
             let node_id = cell.node_id();
             let node_name = node_id.name();
 
+            // Start looking behind the instance that was placed last by this chain,
+            // and skip the instances that are in use already:
             let node_id = if let Some(i) = last_unused.get(node_name).cloned() {
-                last_unused.insert(node_name.to_string(), i + 1);
                 node_id.to_instance(i + 1)
             } else {
-                let node_id = matrix.get_unused_instance_node_id(node_id);
-                last_unused.insert(node_name.to_string(), node_id.instance());
                 node_id
             };
+            let node_id = matrix.get_unused_instance_node_id(node_id);
+            last_unused.insert(node_name.to_string(), node_id.instance());
 
             cell.set_node_id_keep_ios(node_id);
 
-- 
2.43.0


From bf7180e664332f161538ab76650438aa8f090491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:37 +0000
Subject: [PATCH 34/37] fix: signal monitor showed a wrong minimum or maximum
 for signals beyond +-100

---
 src/monitor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/monitor.rs b/src/monitor.rs
index 18f11e1..93f672a 100644
--- a/src/monitor.rs
+++ b/src/monitor.rs
@@ -113,7 +113,7 @@ impl MonitorMinMax {
             sig_idx,
             buf: [(0.0, 0.0); MONITOR_MINMAX_SAMPLES],
             buf_write_ptr: 0,
-            cur_min_max: (100.0, -100.0, 0),
+            cur_min_max: (std::f32::INFINITY, std::f32::NEG_INFINITY, 0),
         }
     }
 
@@ -133,8 +133,8 @@ impl MonitorMinMax {
 
                 self.buf_write_ptr = (self.buf_write_ptr + 1) % self.buf.len();
 
-                self.cur_min_max.0 = 100.0;
-                self.cur_min_max.1 = -100.0;
+                self.cur_min_max.0 = std::f32::INFINITY;
+                self.cur_min_max.1 = std::f32::NEG_INFINITY;
                 self.cur_min_max.2 = 0;
             }
         }
-- 
2.43.0


From 19fb82810eb8d13575d4fbe4f7648e793cda26e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:37 +0000
Subject: [PATCH 35/37] fix: monitoring a node that does not exist kept showing
 the previous node

---
 src/nodes/node_conf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index 4950fca..cf12482 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -712,9 +712,10 @@ impl NodeConfigurator {
 
                 i += 1;
             }
-
-            let _ = self.shared.graph_update_prod.push(GraphMessage::SetMonitor { bufs });
         }
+
+        // A node that does not exist shows nothing:
+        let _ = self.shared.graph_update_prod.push(GraphMessage::SetMonitor { bufs });
     }
 
     pub fn get_node_global(&self) -> NodeGlobalRef {
-- 
2.43.0


From 6cfc76fb6a243defbd20acfb105b9cfbb0fec5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:27 +0000
Subject: [PATCH 36/37] fix: sampler with declick panicked (subtract overflow)
 when the playback went past the end

---
 src/dsp/node_sampl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 0293add..ef3f07e 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -241,7 +241,8 @@ impl Sampl {
 
                 // next_sample mutates self.phase, so we need the current phase
                 // that is used for looking up the sample from the audio data.
-                let sample_idx = self.phase.floor() as usize;
+                // The phase can be past the end here, next_sample wraps it around.
+                let sample_idx = self.phase.floor() as usize % sample_slice.len().max(1);
 
                 let mut s =
                     self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse);
-- 
2.43.0


From cd5c707c76908cab69ff7f269cdcca668678b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 37/37] fix: a note on after a note off in the same frame lost
 its gate

---
 src/dsp/node_midip.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsp/node_midip.rs b/src/dsp/node_midip.rs
index 6dbe1c3..161cc5c 100644
--- a/src/dsp/node_midip.rs
+++ b/src/dsp/node_midip.rs
@@ -146,6 +146,10 @@ impl DspNode for MidiP {
                             self.cur_gate = 0;
                         } else {
                             self.cur_gate = 1;
+                            // A note off before in this frame does not end the new note.
+                            if self.next_gate < 0 {
+                                self.next_gate = 0;
+                            }
                         }
                         self.trig_sig.trigger();
                         self.gate_sig.trigger();
-- 
2.43.0


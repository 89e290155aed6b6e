From e16c725601c80a657a31d7d328f44425dc8b28ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:51 +0000
Subject: [PATCH 01/53] fix: stop running parameter smoothers when the graph is
 cleared

A smoother that was still running when Matrix::clear() arrived on the audio
thread kept writing to its old input index: out of bounds (panic in the audio
callback) or into an unrelated parameter of the next patch.
---
 src/nodes/node_exec.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index bd5d5aa..bf5a57b 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -206,6 +206,13 @@ impl NodeExecutor {
                 GraphMessage::Clear { prog } => {
                     self.exec_ctx.clear();
 
+                    // The smoothers refer to input indices of the old program,
+                    // don't let them write into the new one:
+                    for (_, smoother) in self.smoothers.iter_mut() {
+                        smoother.stop();
+                    }
+                    self.target_refresh.clear();
+
                     self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];
 
                     log(|w| {
-- 
2.43.0


From d584713504e184065c4b4c4b6d95959c79939647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:26 +0000
Subject: [PATCH 02/53] fix: do not lose a parameter change when all smoothers
 are busy

With more than MAX_SMOOTHERS parameters changing within the smoothing time the
update was dropped silently and the DSP graph kept the old value forever.
---
 src/nodes/node_exec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index bf5a57b..954b3c3 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -410,6 +410,11 @@ impl NodeExecutor {
             sm.1.set(prog.params[input_idx], value);
             //d// println!("SET SMOOTHER {} {:6.3} (old = {:6.3})",
             //d//          input_idx, value, prog.params[input_idx]);
+        } else {
+            // All smoothers are busy: apply the value without smoothing, instead of losing it.
+            prog.params[input_idx] = value;
+            prog.inp[input_idx].fill(value);
+            self.target_refresh.retain(|(idx, _)| *idx != input_idx);
         }
     }
 
-- 
2.43.0


From ad72221fd3e13d0f78f697bb21ce8a165b34a004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:55 +0000
Subject: [PATCH 03/53] fix: keep the current value of a ramping parameter when
 a new graph arrives

The new program brought the end value of the ramp as current value, the next
change of that parameter then started with a jump instead of a smooth ramp.
---
 src/nodes/node_prog.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nodes/node_prog.rs b/src/nodes/node_prog.rs
index 2759526..f392a01 100644
--- a/src/nodes/node_prog.rs
+++ b/src/nodes/node_prog.rs
@@ -351,6 +351,12 @@ impl NodeProg {
         for (old_inp_pb, new_inp_pb) in prev_prog.inp.iter_mut().zip(self.inp.iter_mut()) {
             std::mem::swap(old_inp_pb, new_inp_pb);
         }
+
+        // The current values of (possibly still smoothed) parameters belong to the
+        // input buffers. The new program contains the values at the end of the ramp.
+        for (old_param, new_param) in prev_prog.params.iter().zip(self.params.iter_mut()) {
+            *new_param = *old_param;
+        }
     }
 
     pub fn unlock_buffers(&mut self) {
-- 
2.43.0


From 725a771c71ded1f0ec01a1b43c03919c061401a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:48 +0000
Subject: [PATCH 04/53] fix: do not lose graph updates when the audio thread
 stalls

If the audio thread did not drain the graph update ring buffer for a while, all
further messages were dropped silently: parameter changes, graph uploads and
clears never arrived, and a later message that referred to a lost graph could
make the audio thread panic. They are now kept back and sent later.
---
 src/nodes/mod.rs       | 22 +++++++++++++++++
 src/nodes/node_conf.rs | 54 +++++++++++++++++++++++++++++-------------
 2 files changed, 60 insertions(+), 16 deletions(-)

diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 4e147e6..8407066 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -73,6 +73,28 @@ pub enum GraphMessage {
     },
 }
 
+impl GraphMessage {
+    /// Returns true if this message, when not delivered yet, has no effect anymore
+    /// if `newer` is delivered.
+    pub(crate) fn is_superseded_by(&self, newer: &GraphMessage) -> bool {
+        use GraphMessage::*;
+
+        match (self, newer) {
+            (InjectMidi { .. }, _) => false,
+            (_, Clear { .. }) => true,
+            (NewProg { copy_old_out, .. }, NewProg { copy_old_out: new_copy, .. }) => {
+                *copy_old_out || !*new_copy
+            }
+            (AtomUpdate { .. } | ModamtUpdate { .. } | SetMonitor { .. }, NewProg { .. }) => true,
+            (AtomUpdate { at_idx: a, .. }, AtomUpdate { at_idx: b, .. }) => a == b,
+            (ParamUpdate { input_idx: a, .. }, ParamUpdate { input_idx: b, .. }) => a == b,
+            (ModamtUpdate { mod_idx: a, .. }, ModamtUpdate { mod_idx: b, .. }) => a == b,
+            (SetMonitor { .. }, SetMonitor { .. }) => true,
+            _ => false,
+        }
+    }
+}
+
 /// Message from the DSP graph/backend to the frontend. Such as MIDI events
 /// for MIDI learn for instance.
 pub enum GraphEvent {
diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index b25fffa..d264ef2 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -13,7 +13,7 @@ use crate::SampleLibrary;
 use crate::{NodeGlobalData, NodeGlobalRef};
 
 use ringbuf::{Consumer, Producer, RingBuffer};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::sync::Arc;
 
 use synfx_dsp::AtomicFloat;
@@ -255,6 +255,9 @@ pub(crate) struct SharedNodeConf {
     pub(crate) node_ctx_values: Vec<Arc<AtomicFloat>>,
     /// For updating the NodeExecutor with graph updates.
     pub(crate) graph_update_prod: Producer<GraphMessage>,
+    /// Messages that did not fit into the ring buffer yet, because the audio thread
+    /// did not process graph updates for a while.
+    pub(crate) unsent_updates: VecDeque<GraphMessage>,
     /// For receiving events from the DSP graph.
     pub(crate) graph_event_cons: Consumer<GraphEvent>,
     /// For receiving monitor data from the backend thread.
@@ -297,6 +300,7 @@ impl SharedNodeConf {
             Self {
                 node_ctx_values,
                 graph_update_prod: rb_graph_prod,
+                unsent_updates: VecDeque::new(),
                 graph_event_cons: rb_ev_con,
                 monitor,
                 drop_thread,
@@ -312,6 +316,31 @@ impl SharedNodeConf {
             },
         )
     }
+
+    /// Sends a message to the audio thread. If the ring buffer is full the message is kept
+    /// back until there is room again, so that no update gets lost.
+    pub(crate) fn send_update(&mut self, msg: GraphMessage) {
+        self.flush_updates();
+
+        if self.unsent_updates.is_empty() {
+            if let Err(msg) = self.graph_update_prod.push(msg) {
+                self.unsent_updates.push_back(msg);
+            }
+        } else {
+            self.unsent_updates.retain(|old| !old.is_superseded_by(&msg));
+            self.unsent_updates.push_back(msg);
+        }
+    }
+
+    /// Sends messages which were kept back by [SharedNodeConf::send_update].
+    pub(crate) fn flush_updates(&mut self) {
+        while let Some(msg) = self.unsent_updates.pop_front() {
+            if let Err(msg) = self.graph_update_prod.push(msg) {
+                self.unsent_updates.push_front(msg);
+                break;
+            }
+        }
+    }
 }
 
 impl NodeConfigurator {
@@ -436,10 +465,7 @@ impl NodeConfigurator {
                 self.param_modamt.insert(param, v);
 
                 if let Some(mod_idx) = mod_idx {
-                    let _ = self
-                        .shared
-                        .graph_update_prod
-                        .push(GraphMessage::ModamtUpdate { mod_idx, modamt });
+                    self.shared.send_update(GraphMessage::ModamtUpdate { mod_idx, modamt });
                 }
 
                 false
@@ -492,10 +518,7 @@ impl NodeConfigurator {
                 nparam.value = at.clone();
 
                 let at_idx = nparam.at_idx;
-                let _ = self
-                    .shared
-                    .graph_update_prod
-                    .push(GraphMessage::AtomUpdate { at_idx, value: at });
+                self.shared.send_update(GraphMessage::AtomUpdate { at_idx, value: at });
             }
         } else {
             self.param_values.insert(param, at.f());
@@ -505,10 +528,7 @@ impl NodeConfigurator {
                 nparam.value = value;
 
                 let input_idx = nparam.input_idx;
-                let _ = self
-                    .shared
-                    .graph_update_prod
-                    .push(GraphMessage::ParamUpdate { input_idx, value });
+                self.shared.send_update(GraphMessage::ParamUpdate { input_idx, value });
             }
         }
     }
@@ -606,6 +626,7 @@ impl NodeConfigurator {
     /// See also [NodeConfigurator::filtered_led_for]
     /// and [NodeConfigurator::filtered_out_fb_for].
     pub fn update_filters(&mut self) {
+        self.shared.flush_updates();
         self.update_output_feedback();
         self.feedback_filter.trigger_recalc();
     }
@@ -699,7 +720,7 @@ impl NodeConfigurator {
                 i += 1;
             }
 
-            let _ = self.shared.graph_update_prod.push(GraphMessage::SetMonitor { bufs });
+            self.shared.send_update(GraphMessage::SetMonitor { bufs });
         }
     }
 
@@ -716,7 +737,7 @@ impl NodeConfigurator {
         self.atoms.clear();
         self.atom_values.clear();
 
-        let _ = self.shared.graph_update_prod.push(GraphMessage::Clear { prog: NodeProg::empty() });
+        self.shared.send_update(GraphMessage::Clear { prog: NodeProg::empty() });
     }
 
     pub fn create_node(&mut self, ni: NodeId) -> Option<(&NodeInfo, u8)> {
@@ -968,7 +989,7 @@ impl NodeConfigurator {
 
         self.output_fb_cons = prog.take_feedback_consumer();
 
-        let _ = self.shared.graph_update_prod.push(GraphMessage::NewProg { prog, copy_old_out });
+        self.shared.send_update(GraphMessage::NewProg { prog, copy_old_out });
     }
 
     /// Retrieves the feedback value for a specific output port of the
@@ -1015,6 +1036,7 @@ impl NodeConfigurator {
 
     /// Returns the next [GraphEvent] from the DSP/audio/backend thread.
     pub fn next_event(&mut self) -> Option<GraphEvent> {
+        self.shared.flush_updates();
         self.shared.graph_event_cons.pop()
     }
 }
-- 
2.43.0


From b09fe3875a49713ba54468db26710e3b35ebdbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:48 +0000
Subject: [PATCH 05/53] fix: restore the assigned inputs too when a matrix
 change is rolled back

Matrix::check() recomputes the edges and assigned inputs for the tried
matrix. After restore_matrix() Matrix::param_input_is_used() kept
answering for the refused matrix.
---
 src/matrix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9bd7215..e0ca822 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -671,6 +671,9 @@ impl Matrix {
     pub fn restore_matrix(&mut self) {
         if let Some(matrix) = self.saved_matrix.take() {
             self.matrix = matrix;
+            // The refused matrix was maybe already checked, make sure to
+            // forget about it's edges and assigned inputs again:
+            self.update_graph_ordering_and_edges();
         }
     }
 
-- 
2.43.0


From 699d6ebea569fb2aeda8f1ff454a49bd831d7002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:23 +0000
Subject: [PATCH 06/53] fix: write the patch data to disk before it replaces
 the old patch file

---
 src/matrix_repr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index c6146f8..4af746e 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -314,6 +314,9 @@ impl MatrixRepr {
         let mut file =
             OpenOptions::new().create(true).write(true).truncate(true).open(&tmp_filepath)?;
         file.write_all(ser.as_bytes())?;
+        // The data needs to be on the disk before the old file is replaced,
+        // otherwise a power loss can leave an empty or incomplete patch behind.
+        file.sync_all()?;
         std::fs::rename(&tmp_filepath, &filepath)?;
 
         Ok(())
-- 
2.43.0


From b658a66e0ff3c2568b6ed01e0f83fc8a33f983c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:23 +0000
Subject: [PATCH 07/53] fix: save and load micro samples of any length

---
 src/matrix_repr.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index 4af746e..1c4c844 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -258,17 +258,19 @@ fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
             }
         }
         "ms" => {
-            let mut buf: [f32; 8] = [0.0; 8];
-
-            for i in 0..8 {
-                if let Some(v) = v[i + 1].as_f64() {
-                    buf[i] = v as f32;
-                } else {
-                    return Err(MatrixDeserError::InvalidAtom(v.to_string()));
+            let mut buf: Vec<f32> = vec![];
+
+            if let Value::Array(samples) = v {
+                for s in samples.iter().skip(1) {
+                    if let Some(s) = s.as_f64() {
+                        buf.push(s as f32);
+                    } else {
+                        return Err(MatrixDeserError::InvalidAtom(v.to_string()));
+                    }
                 }
             }
 
-            Ok(SAtom::micro(&buf))
+            Ok(SAtom::micro(&buf[..]))
         }
         _ => Err(MatrixDeserError::InvalidAtom(v.to_string())),
     }
@@ -276,7 +278,11 @@ fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
 
 fn serialize_atom(atom: &SAtom) -> Value {
     match atom {
-        SAtom::MicroSample(s) => json!(["ms", s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7],]),
+        SAtom::MicroSample(s) => {
+            let mut v = vec![json!("ms")];
+            v.extend(s.iter().map(|s| json!(s)));
+            Value::Array(v)
+        }
         SAtom::Str(s) => json!(["s", s]),
         SAtom::AudioSample((s, _)) => json!(["as", s]),
         SAtom::Setting(i) => json!(["i", i]),
-- 
2.43.0


From 9ac3f2dc274e514e04aa2733a46198c717d60d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:36 +0000
Subject: [PATCH 08/53] fix: do not panic on patterns with too many rows or
 columns in a patch file

---
 src/dsp/tracker/pattern.rs | 2 +-
 src/matrix_repr.rs         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 4783f09..69048b5 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -101,7 +101,7 @@ impl PatternData {
             }
         }
 
-        self.rows = repr.rows;
+        self.rows = repr.rows.min(self.data.len());
         self.edit_step = repr.edit_step;
         self.cursor = repr.cursor;
         self.generation += 1;
diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index 1c4c844..7ba8368 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -151,7 +151,7 @@ impl PatternRepr {
 
         let cts = &v["col_types"];
         if let Value::Array(cts) = cts {
-            for (i, ct) in cts.iter().enumerate() {
+            for (i, ct) in cts.iter().enumerate().take(MAX_COLS) {
                 col_types[i] = ct.as_i64().unwrap_or(0) as u8;
             }
         }
@@ -159,9 +159,9 @@ impl PatternRepr {
         let mut data = vec![vec![-1; MAX_COLS]; MAX_PATTERN_LEN];
         let dt = &v["data"];
         if let Value::Array(dt) = dt {
-            for (row_idx, row) in dt.iter().enumerate() {
+            for (row_idx, row) in dt.iter().enumerate().take(MAX_PATTERN_LEN) {
                 if let Value::Array(row) = row {
-                    for (col_idx, c) in row.iter().enumerate() {
+                    for (col_idx, c) in row.iter().enumerate().take(MAX_COLS) {
                         data[row_idx][col_idx] = c.as_i64().unwrap_or(-1) as i32;
                     }
                 }
-- 
2.43.0


From 46e9c35f8b957dddefc7c7538d607ec988700e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:36 +0000
Subject: [PATCH 09/53] fix: show the loaded pattern instead of cached cells of
 the previous one

---
 src/dsp/tracker/pattern.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 69048b5..1fda76c 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -98,6 +98,7 @@ impl PatternData {
         for (row_idx, row) in repr.data.iter().enumerate() {
             for (col_idx, cell) in row.iter().enumerate() {
                 self.data[row_idx][col_idx] = if *cell < 0 { None } else { Some(*cell as u16) };
+                self.strings[row_idx][col_idx] = None;
             }
         }
 
-- 
2.43.0


From a514024974ba83bd3d374e819e212dafd290f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:06 +0000
Subject: [PATCH 10/53] fix: do not keep patterns and block functions of the
 previous patch when loading

---
 src/matrix.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index e0ca822..1e57520 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -2,7 +2,7 @@
 // This file is a part of HexoDSP. Released under GPL-3.0-or-later.
 // See README.md and COPYING for details.
 
-use crate::dsp::tracker::PatternData;
+use crate::dsp::tracker::{PatternData, MAX_PATTERN_LEN};
 use crate::dsp::{NodeId, NodeInfo, ParamId, SAtom};
 use crate::matrix_repr::*;
 pub use crate::monitor::MON_SIG_CNT;
@@ -928,20 +928,40 @@ impl Matrix {
             self.place(cell.x as usize, cell.y as usize, cell);
         }
 
-        for (tracker_id, pat) in repr.patterns.iter().enumerate() {
-            if let Some(pat) = pat {
+        // Patterns and block functions that are not part of the loaded patch
+        // are reset, otherwise the ones of the previous patch would stay.
+        let empty_pattern = PatternData::new(MAX_PATTERN_LEN).to_repr();
+        let mut tracker_id = 0;
+        while tracker_id < repr.patterns.len().max(128) || self.has_tracker(tracker_id) {
+            let pat = repr.patterns.get(tracker_id).and_then(|pat| pat.as_ref());
+
+            if pat.is_some() || self.has_tracker(tracker_id) {
                 if let Some(pd) = self.get_pattern_data(tracker_id) {
-                    pd.lock().unwrap().from_repr(pat);
+                    pd.lock().unwrap().from_repr(pat.unwrap_or(&empty_pattern));
                 }
             }
+
+            tracker_id += 1;
         }
 
-        for (bf_id, block_fun) in repr.block_funs.iter().enumerate() {
-            if let Some(block_fun) = block_fun {
+        let mut bf_id = 0;
+        while bf_id < repr.block_funs.len().max(32) || self.has_code_engine(bf_id) {
+            let block_fun = repr.block_funs.get(bf_id).and_then(|bf| bf.as_ref());
+
+            if block_fun.is_some() || self.has_code_engine(bf_id) {
                 if let Some(bf) = self.get_block_function(bf_id) {
-                    bf.lock().unwrap().load_snapshot(block_fun);
+                    let mut bf = bf.lock().unwrap();
+
+                    if let Some(block_fun) = block_fun {
+                        bf.load_snapshot(block_fun);
+                    } else if !bf.is_unset() {
+                        let empty = BlockFun::new(bf.block_language()).save_snapshot();
+                        bf.load_snapshot(&empty);
+                    }
                 }
             }
+
+            bf_id += 1;
         }
 
         let ret = self.sync();
-- 
2.43.0


From 082e6072ad4b5aa6367ad77ddba5d63b22c18117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 11/53] fix: ignore impossible areas and sizes of block
 functions in a patch file

---
 src/wblockdsp/language.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 2efe7fe..fcc565d 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -31,6 +31,9 @@ pub trait BlockCodeView {
     fn generation(&self) -> u64;
 }
 
+/// Limit for block positions and sizes that are read from a file.
+const MAX_DESER_COORD: i64 = 0xFFFF;
+
 #[derive(Debug, Clone)]
 pub struct BlockIDGenerator {
     counter: Rc<RefCell<usize>>,
@@ -240,7 +243,7 @@ impl Block {
 
         Ok(Box::new(Block {
             id: v["id"].as_i64().unwrap_or(0) as usize,
-            rows: v["rows"].as_i64().unwrap_or(0) as usize,
+            rows: v["rows"].as_i64().unwrap_or(0).max(0).min(MAX_DESER_COORD) as usize,
             contains: (
                 if v["contains"][0].is_i64() {
                     Some(v["contains"][0].as_i64().unwrap_or(0) as usize)
@@ -926,15 +929,15 @@ impl BlockArea {
         let blks = &v["blocks"];
         if let Value::Array(blks) = blks {
             for b in blks.iter() {
-                let x = b["x"].as_i64().unwrap_or(0);
-                let y = b["y"].as_i64().unwrap_or(0);
+                let x = b["x"].as_i64().unwrap_or(0).max(-MAX_DESER_COORD).min(MAX_DESER_COORD);
+                let y = b["y"].as_i64().unwrap_or(0).max(-MAX_DESER_COORD).min(MAX_DESER_COORD);
                 blocks.insert((x, y), Block::deserialize(&b["block"])?);
             }
         }
 
         let size = (
-            v["size"][0].as_i64().unwrap_or(0) as usize,
-            v["size"][1].as_i64().unwrap_or(0) as usize,
+            v["size"][0].as_i64().unwrap_or(0).max(0).min(MAX_DESER_COORD) as usize,
+            v["size"][1].as_i64().unwrap_or(0).max(0).min(MAX_DESER_COORD) as usize,
         );
         let auto_shrink = v["auto_shrink"].as_bool().unwrap_or(true);
         let header = v["header"].as_str().unwrap_or("").to_string();
@@ -1145,9 +1148,29 @@ impl BlockFunSnapshot {
             }
         }
 
+        // There is always a root area, and every other area is contained in
+        // at most one block. Anything else can only be a damaged file.
+        if a.is_empty() {
+            a.push(Box::new(BlockArea::new(16, 16)));
+        }
+
+        let mut is_contained = vec![false; a.len()];
+        is_contained[0] = true;
+
+        for area in a.iter_mut() {
+            for block in area.blocks.values_mut() {
+                for sub_area in [&mut block.contains.0, &mut block.contains.1] {
+                    match sub_area.map(|id| is_contained.get_mut(id)) {
+                        Some(Some(is_contained)) if !*is_contained => *is_contained = true,
+                        _ => *sub_area = None,
+                    }
+                }
+            }
+        }
+
         Ok(BlockFunSnapshot {
             areas: a,
-            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0) as usize,
+            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0).max(0) as usize,
         })
     }
 }
-- 
2.43.0


From 48f9634a8c09de32c034de1678ff5f57eacf728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:58 +0000
Subject: [PATCH 12/53] fix: keep the nodes of graphs with more than 256 nodes
 apart

---
 src/nodes/node_conf.rs | 17 +++++++++++++----
 src/nodes/node_exec.rs |  2 +-
 src/nodes/node_prog.rs |  2 +-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index d264ef2..0ee3332 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -74,7 +74,7 @@ impl NodeInstance {
 
     pub fn as_op(&self) -> NodeOp {
         NodeOp {
-            idx: self.prog_idx as u8,
+            idx: self.prog_idx,
             node: self.node.clone(),
             out_idxlen: (self.out_start, self.out_end),
             in_idxlen: (self.in_start, self.in_end),
@@ -286,8 +286,9 @@ impl SharedNodeConf {
         let (monitor_backend, monitor) = new_monitor_processor();
 
         let mut node_ctx_values = Vec::new();
+        // The last two values are shared by all the nodes that don't have their own ones.
         node_ctx_values
-            .resize_with(NODE_COMMUNICATION_BUFFER_SIZE, || Arc::new(AtomicFloat::new(0.0)));
+            .resize_with(NODE_COMMUNICATION_BUFFER_SIZE + 2, || Arc::new(AtomicFloat::new(0.0)));
 
         let mut exec_node_ctx_vals = Vec::new();
         for ctx_val in node_ctx_values.iter() {
@@ -592,13 +593,21 @@ impl NodeConfigurator {
         }
     }
 
+    fn node_ctx_value(&self, ctx_idx: usize) -> f32 {
+        if ctx_idx < NODE_COMMUNICATION_BUFFER_SIZE {
+            self.shared.node_ctx_values[ctx_idx].get()
+        } else {
+            0.0
+        }
+    }
+
     /// Returns the current phase value of the given node.
     ///
     /// It usually returns something like the position of a sequencer
     /// or the phase of an oscillator.
     pub fn phase_value_for(&self, ni: &NodeId) -> f32 {
         if let Some(idx) = self.unique_index_for(ni) {
-            self.shared.node_ctx_values[(idx * 2) + 1].get()
+            self.node_ctx_value((idx * 2) + 1)
         } else {
             0.0
         }
@@ -611,7 +620,7 @@ impl NodeConfigurator {
     /// of the primary signal output.
     pub fn led_value_for(&self, ni: &NodeId) -> f32 {
         if let Some(idx) = self.unique_index_for(ni) {
-            self.shared.node_ctx_values[idx * 2].get()
+            self.node_ctx_value(idx * 2)
         } else {
             0.0
         }
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 954b3c3..ad12976 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -468,7 +468,7 @@ impl NodeExecutor {
             let inp = op.in_idxlen;
             let at = op.at_idxlen;
             let md = op.mod_idxlen;
-            let ctx_idx = op.idx as usize * 2;
+            let ctx_idx = (op.idx * 2).min(ctx_vals.len() - 2);
 
             for modop in prog.modops[md.0..md.1].iter_mut() {
                 modop.process(nframes);
diff --git a/src/nodes/node_prog.rs b/src/nodes/node_prog.rs
index f392a01..20b1aa3 100644
--- a/src/nodes/node_prog.rs
+++ b/src/nodes/node_prog.rs
@@ -70,7 +70,7 @@ impl ModOp {
 #[derive(Debug, Clone)]
 pub struct NodeOp {
     /// Stores the index of the node
-    pub idx: u8,
+    pub idx: usize,
     /// Stores the reference to the node.
     pub node: Node,
     /// Output index and length of the node:
-- 
2.43.0


From e3771aabdfa7fefce4fa75dc9d31bbd8631fa073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:06 +0000
Subject: [PATCH 13/53] fix: keep settings loaded from a patch file in their
 valid range

---
 src/nodes/node_conf.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index 0ee3332..16aaa11 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -571,7 +571,15 @@ impl NodeConfigurator {
         }
 
         for (param_id, val) in atoms.iter() {
-            self.set_param(*param_id, val.clone());
+            // The nodes rely on their settings to be in the valid range.
+            let val = match (val, param_id.setting_min_max()) {
+                (SAtom::Setting(s), Some((min, max))) if min < max => {
+                    SAtom::setting((*s).max(min).min(max))
+                }
+                _ => val.clone(),
+            };
+
+            self.set_param(*param_id, val);
         }
     }
 
-- 
2.43.0


From ecbf04c372523a3bc10bbd7a3bed54728a558489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:06 +0000
Subject: [PATCH 14/53] fix: do not panic on an invalid input port index

---
 src/nodes/node_conf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index 16aaa11..c7fcc5d 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -87,7 +87,7 @@ impl NodeInstance {
     }
 
     pub fn mod_in_local2global(&self, idx: u8) -> Option<usize> {
-        if (idx as usize) > self.in2mod_map.len() {
+        if (idx as usize) >= self.in2mod_map.len() {
             return None;
         }
         self.in2mod_map[idx as usize]
-- 
2.43.0


From 28421e014adc1e176a1308558b8010b268e44809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:39 +0000
Subject: [PATCH 15/53] fix: send all columns of a pattern when its length
 changes

---
 src/dsp/tracker/pattern.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 1fda76c..23269c2 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -118,6 +118,11 @@ impl PatternData {
         }
     }
 
+    /// Marks all columns as modified, so that they are going to be sent to the backend.
+    pub fn modified_all_cols(&mut self) {
+        self.dirty_col = [true; MAX_COLS];
+    }
+
     pub fn col_is_modified_reset(&mut self, col: usize) -> bool {
         if self.dirty_col.get(col).copied().unwrap_or(false) {
             self.dirty_col[col] = false;
@@ -358,7 +363,9 @@ impl UIPatternModel for PatternData {
 
     fn set_rows(&mut self, rows: usize) {
         self.rows = rows.min(self.data.len());
-        self.modified_col(0); // modify any col, so we send an update.
+        // The interpolated values of the columns depend on the pattern length, and
+        // at least one of them needs to be sent for the new length to arrive.
+        self.modified_all_cols();
         self.generation += 1;
     }
 
-- 
2.43.0


From 5dbc23a34ba92cc9efc8c4dcec43a0b78129e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:24 +0000
Subject: [PATCH 16/53] fix: do not lose pattern changes when the queue to the
 tracker backend is full

---
 src/dsp/tracker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index ea8c745..c750ec1 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -87,6 +87,11 @@ impl Tracker {
     }
 
     pub fn send_one_update(&mut self) -> bool {
+        if self.data_prod.is_full() {
+            // Try again later, the modified columns stay marked.
+            return false;
+        }
+
         let mut data = self.data.lock().unwrap();
 
         for col in 0..MAX_COLS {
-- 
2.43.0


From e9657304ca66c2e512078f56d405de630a6328a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:32 +0000
Subject: [PATCH 17/53] fix: send the pattern to a tracker node that was
 created again

---
 src/dsp/tracker/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index c750ec1..18484fd 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -122,6 +122,9 @@ impl Tracker {
             self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));
             self.data_prod = prod;
             self.seq_cons = Some(con);
+
+            // The new backend does not know the pattern yet:
+            self.data.lock().unwrap().modified_all_cols();
         }
 
         let seq = self.seq.take().unwrap();
-- 
2.43.0


From b51cd642452bd526d6afe2212125fe48f8af0416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:59 +0000
Subject: [PATCH 18/53] fix: do not panic in the sampler when the position is
 past the end of the sample

---
 src/dsp/node_sampl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 0293add..495b9a8 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -241,7 +241,9 @@ impl Sampl {
 
                 // next_sample mutates self.phase, so we need the current phase
                 // that is used for looking up the sample from the audio data.
-                let sample_idx = self.phase.floor() as usize;
+                // The phase might be past the end, if it was just advanced there or if the
+                // sample or the played part of it became shorter.
+                let sample_idx = self.phase.floor() as usize % sample_slice.len().max(1);
 
                 let mut s =
                     self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse);
-- 
2.43.0


From cbbf96edce09da687abd258c3b3247dc1b356648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:27 +0000
Subject: [PATCH 19/53] fix: do not hang in the sine oscillator on huge phase
 modulation

---
 src/dsp/node_sin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_sin.rs b/src/dsp/node_sin.rs
index 7290892..d9fe8c6 100644
--- a/src/dsp/node_sin.rs
+++ b/src/dsp/node_sin.rs
@@ -99,8 +99,8 @@ impl DspNode for Sin {
             let freq = denorm_offs::Sin::freq(freq, det.read(frame), frame);
 
             let mut phase = self.phase + denorm::Sin::pm(pm, frame);
-            while phase < 0.0 {
-                phase += 1.0
+            if phase < 0.0 {
+                phase -= phase.floor();
             }
             last_val = fast_sin(phase.fract() * TWOPI);
             o.write(frame, last_val);
-- 
2.43.0


From 4626c988c7788f5f2116b0449f7edb8cf4ffe952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:28 +0000
Subject: [PATCH 20/53] fix: do not allocate, panic or cut messages in the
 thread logger

---
 src/log.rs | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index 8f5bfd7..746a892 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -48,7 +48,9 @@ pub fn log<F: Fn(&mut std::io::BufWriter<&mut [u8]>)>(f: F) {
 const MAX_LOG_BUFFER: usize = 4096;
 
 pub struct LogReceiver {
-    consumers: Vec<(&'static str, Consumer<u8>)>,
+    /// Name of the logging thread, it's message queue and the part of
+    /// a message that was received so far.
+    consumers: Vec<(&'static str, Consumer<u8>, Vec<u8>)>,
 }
 
 impl LogReceiver {
@@ -57,17 +59,13 @@ impl LogReceiver {
     }
 
     pub fn retrieve_messages<F: FnMut(&str, &str)>(&mut self, mut f: F) {
-        for (name, consumer) in self.consumers.iter_mut() {
-            let mut buf = [0; 1024];
-            let mut oi = 0;
-
+        for (name, consumer, buf) in self.consumers.iter_mut() {
             while let Some(byte) = consumer.pop() {
-                if oi >= buf.len() || byte == 0xFF {
-                    f(name, std::str::from_utf8(&buf[0..oi]).unwrap());
-                    oi = 0;
+                if byte == 0xFF {
+                    f(name, &String::from_utf8_lossy(buf));
+                    buf.clear();
                 } else {
-                    buf[oi] = byte;
-                    oi += 1;
+                    buf.push(byte);
                 }
             }
         }
@@ -77,7 +75,7 @@ impl LogReceiver {
         let rb = RingBuffer::new(MAX_LOG_BUFFER);
         let (producer, con) = rb.split();
 
-        self.consumers.push((name, con));
+        self.consumers.push((name, con, vec![]));
         Log { producer, buf: [0; 512] }
     }
 
@@ -97,24 +95,34 @@ pub struct Log {
 
 impl Log {
     pub fn log_buf(&mut self, data: &[u8]) {
-        self.producer.push_slice(data);
-        let _ = self.producer.push(0xFF);
+        // Either the complete message is logged or nothing at all:
+        if self.producer.remaining() > data.len() {
+            self.producer.push_slice(data);
+            let _ = self.producer.push(0xFF);
+        }
     }
 
     pub fn log<F: Fn(&mut std::io::BufWriter<&mut [u8]>)>(&mut self, f: F) {
-        self.buf.fill(0xFF);
+        let buf_len = self.buf.len();
 
         let len = {
-            let mut bw = std::io::BufWriter::new(&mut self.buf[..]);
+            // The capacity of 0 prevents an allocation on the (audio) thread
+            // and makes the BufWriter directly write into the buffer:
+            let mut bw = std::io::BufWriter::with_capacity(0, &mut self.buf[..]);
             f(&mut bw);
-            bw.buffer().len()
+            buf_len - bw.get_ref().len()
+        };
+
+        // Don't cut a character in half if the message was too long:
+        let len = match std::str::from_utf8(&self.buf[0..len]) {
+            Ok(_) => len,
+            Err(e) if e.error_len().is_none() => e.valid_up_to(),
+            Err(_) => len,
         };
 
-        if len < (self.buf.len() - 1) {
-            // include one 0xFF!
-            self.producer.push_slice(&self.buf[0..len + 1]);
-        } else {
+        if self.producer.remaining() > len {
             self.producer.push_slice(&self.buf[0..len]);
+            let _ = self.producer.push(0xFF);
         }
     }
 }
-- 
2.43.0


From d5718728a72db3bcf8d3d1df50353667836f42b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:14 +0000
Subject: [PATCH 21/53] fix: do not print to stdout from the audio thread in
 the tracker node

---
 src/dsp/node_tseq.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dsp/node_tseq.rs b/src/dsp/node_tseq.rs
index f362c41..5a2f3cd 100644
--- a/src/dsp/node_tseq.rs
+++ b/src/dsp/node_tseq.rs
@@ -218,7 +218,6 @@ impl DspNode for TSeq {
         for (frame, phase_out) in phase_out.iter_mut().enumerate().take(ctx.nframes()) {
             if time.trigger.check_trigger(denorm::TSeq::trig(trig, frame)) {
                 time.clock.sync();
-                println!("CLOCK SYNC");
             }
 
             let phase = match cmode {
-- 
2.43.0


From bbb14ee73e43556be68d49201575fa259ab1fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:23 +0000
Subject: [PATCH 22/53] fix: do not free memory on the audio thread when the
 drop thread is late

---
 src/nodes/node_exec.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index ad12976..a7996f8 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -6,7 +6,7 @@ use super::{
     DropMsg, EventWindowing, GraphEvent, GraphMessage, HxMidiEvent, HxTimedEvent, NodeProg,
     MAX_INJ_MIDI_EVENTS, MAX_SMOOTHERS, UNUSED_MONITOR_IDX,
 };
-use crate::dsp::{Node, NodeContext, MAX_BLOCK_SIZE};
+use crate::dsp::{Node, NodeContext, SAtom, MAX_BLOCK_SIZE};
 use crate::monitor::{MonitorBackend, MON_SIG_CNT};
 use crate::util::Smoother;
 use synfx_dsp::AtomicFloat;
@@ -201,7 +201,19 @@ impl NodeExecutor {
 
     #[inline]
     pub fn process_graph_updates(&mut self) {
-        while let Some(upd) = self.shared.graph_update_con.pop() {
+        loop {
+            // If the queue to the drop thread is full, we would have to free
+            // memory here on the audio thread. Leave the updates in their
+            // queue until the drop thread caught up.
+            if self.shared.graph_drop_prod.is_full() {
+                break;
+            }
+
+            let upd = match self.shared.graph_update_con.pop() {
+                Some(upd) => upd,
+                None => break,
+            };
+
             match upd {
                 GraphMessage::Clear { prog } => {
                     self.exec_ctx.clear();
@@ -295,7 +307,10 @@ impl NodeExecutor {
                     let prog = &mut self.prog;
                     let garbage = std::mem::replace(&mut prog.atoms[at_idx], value);
 
-                    let _ = self.shared.graph_drop_prod.push(DropMsg::Atom { atom: garbage });
+                    // These don't own any memory and don't need the drop thread:
+                    if !matches!(garbage, SAtom::Param(_) | SAtom::Setting(_)) {
+                        let _ = self.shared.graph_drop_prod.push(DropMsg::Atom { atom: garbage });
+                    }
                 }
                 GraphMessage::ParamUpdate { input_idx, value } => {
                     self.set_param(input_idx, value);
-- 
2.43.0


From da48e36641a0c820b79bbc7455f1763e0205f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:01 +0000
Subject: [PATCH 23/53] fix: do not panic when a node is connected to more than
 64 other nodes

---
 src/nodes/node_graph_ordering.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/nodes/node_graph_ordering.rs b/src/nodes/node_graph_ordering.rs
index a247bd8..1ba4500 100644
--- a/src/nodes/node_graph_ordering.rs
+++ b/src/nodes/node_graph_ordering.rs
@@ -6,39 +6,30 @@ use crate::dsp::NodeId;
 use std::collections::HashMap;
 use std::collections::HashSet;
 
-pub const MAX_NODE_EDGES: usize = 64;
-pub const UNUSED_NODE_EDGE: usize = 999999;
-
-#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 struct Node {
     /// The [NodeId] of this node.
     node_id: NodeId,
     /// The output edges of this node.
-    edges: [usize; MAX_NODE_EDGES],
-    /// The first unused index in the `edges` array.
-    unused_idx: usize,
+    edges: Vec<usize>,
 }
 
 impl Node {
     pub fn new() -> Self {
-        Self { node_id: NodeId::Nop, edges: [UNUSED_NODE_EDGE; MAX_NODE_EDGES], unused_idx: 0 }
+        Self { node_id: NodeId::Nop, edges: vec![] }
     }
 
     pub fn clear(&mut self) {
         self.node_id = NodeId::Nop;
-        self.edges = [UNUSED_NODE_EDGE; MAX_NODE_EDGES];
-        self.unused_idx = 0;
+        self.edges.clear();
     }
 
     pub fn add_edge(&mut self, node_index: usize) {
-        for ni in self.edges.iter().take(self.unused_idx) {
-            if *ni == node_index {
-                return;
-            }
+        if self.edges.contains(&node_index) {
+            return;
         }
 
-        self.edges[self.unused_idx] = node_index;
-        self.unused_idx += 1;
+        self.edges.push(node_index);
     }
 }
 
@@ -122,7 +113,7 @@ impl NodeGraphOrdering {
             }
 
             if let Some(node) = self.get_node(node_id) {
-                for node_idx in node.edges.iter().take(node.unused_idx) {
+                for node_idx in node.edges.iter() {
                     node_stack.push(self.nodes[*node_idx].node_id);
                 }
             }
@@ -145,7 +136,7 @@ impl NodeGraphOrdering {
 
         // Calculate the number of inputs for each node:
         for node in self.nodes.iter().take(self.node_count) {
-            for out_node_idx in node.edges.iter().take(node.unused_idx) {
+            for out_node_idx in node.edges.iter() {
                 self.in_degree[*out_node_idx] += 1;
             }
         }
@@ -169,7 +160,7 @@ impl NodeGraphOrdering {
             out.push(node.node_id);
 
             // Push the nodes we output to, to the end of the dequeue:
-            for neigh_node_idx in node.edges.iter().take(node.unused_idx) {
+            for neigh_node_idx in node.edges.iter() {
                 // by reducing the input count of the to be visited node:
                 self.in_degree[*neigh_node_idx] -= 1;
 
-- 
2.43.0


From bae00db47f9ef3501319de9ce1b4c6fe54b58519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:29 +0000
Subject: [PATCH 24/53] fix: do not crash when a node is monitored that is not
 part of the running graph

---
 src/nodes/node_exec.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index a7996f8..edfd918 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -520,12 +520,16 @@ impl NodeExecutor {
                 continue;
             }
 
+            // The monitored node might not be part of the current program (yet),
+            // then there is no buffer (assigned) that could be monitored:
+            let buf = if i > 2 { prog.out.get(*idx) } else { prog.cur_inp.get(*idx) };
+            let buf = match buf {
+                Some(buf) if !buf.is_null() => buf,
+                _ => continue,
+            };
+
             if let Some(mut mon) = self.shared.monitor_backend.get_unused_mon_buf() {
-                if i > 2 {
-                    mon.feed(i, ctx.nframes(), &prog.out[*idx]);
-                } else {
-                    mon.feed(i, ctx.nframes(), &prog.cur_inp[*idx]);
-                }
+                mon.feed(i, ctx.nframes(), buf);
 
                 self.shared.monitor_backend.send_mon_buf(mon);
             }
-- 
2.43.0


From c82d70d3b57c0409243b4d1aea278364602e44b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:45 +0000
Subject: [PATCH 25/53] fix: do not panic in the map node when its limits are
 modulated with NaN

---
 src/dsp/node_map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_map.rs b/src/dsp/node_map.rs
index 55db70a..daea605 100644
--- a/src/dsp/node_map.rs
+++ b/src/dsp/node_map.rs
@@ -144,7 +144,8 @@ impl DspNode for Map {
                 last_val = x;
                 let s = min + (max - min) * x;
 
-                out.write(frame, if min < max { s.clamp(min, max) } else { s.clamp(max, min) });
+                // XXX: f32::clamp() would panic if min or max is NaN (modulation inputs!).
+                out.write(frame, if min < max { s.max(min).min(max) } else { s.max(max).min(min) });
             }
         }
 
-- 
2.43.0


From e41825e11ed21742fd22ff6c5d4d7204995949e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:24 +0000
Subject: [PATCH 26/53] fix: limit the cutoff frequency of the FVaFilt to the
 nyquist frequency

---
 src/dsp/node_fvafilt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_fvafilt.rs b/src/dsp/node_fvafilt.rs
index 56d355f..bbd3924 100644
--- a/src/dsp/node_fvafilt.rs
+++ b/src/dsp/node_fvafilt.rs
@@ -170,8 +170,12 @@ macro_rules! on_param_change {
      $on_change: block) => {
         unsafe {
             let params = Arc::get_mut_unchecked(&mut $self.params);
+            // The solver of the ladder filter does not converge (and never finishes)
+            // if the cutoff frequency gets too close to half of the (oversampled)
+            // sample rate. So we limit it to the original nyquist frequency:
+            let max_freq = (params.sample_rate * 0.25).min(20000.0);
             let new_params = (
-                denorm::FVaFilt::freq($freq, $frame).clamp(1.0, 20000.0),
+                denorm::FVaFilt::freq($freq, $frame).max(1.0).min(max_freq),
                 denorm::FVaFilt::res($res, $frame).clamp(0.0, 1.0),
                 denorm::FVaFilt::drive($drive, $frame).max(0.0),
                 $ftype,
-- 
2.43.0


From b2567a4332a8c0108ecfc55b2181be73b8767edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:26 +0000
Subject: [PATCH 27/53] fix: do not panic in the random walk node when its
 limits are modulated with NaN

---
 src/dsp/node_rndwk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_rndwk.rs b/src/dsp/node_rndwk.rs
index 2ec9425..2148fb4 100644
--- a/src/dsp/node_rndwk.rs
+++ b/src/dsp/node_rndwk.rs
@@ -123,7 +123,8 @@ impl DspNode for RndWk {
 
                 // println!("{:8.6} {:8.6} {:8.6}", min, max, target);
                 // clamp target into a range we can reflect
-                target = target.clamp(min - (delta * 0.99), max + (delta * 0.99));
+                // XXX: f32::clamp() would panic if min or max is NaN (modulation inputs!).
+                target = target.max(min - (delta * 0.99)).min(max + (delta * 0.99));
                 // reflect back the overshoots:
                 if target > max {
                     target = max - (max - target).abs();
-- 
2.43.0


From d6f2b07b5df7a2dfcdf3248d4c2f73aa51e0da55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 28/53] fix: play injected MIDI events in the order they were
 injected

---
 src/nodes/node_exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index edfd918..457237c 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -354,7 +354,7 @@ impl NodeExecutor {
         self.exec_ctx.midi_ccs.clear();
 
         if self.injected_midi.len() > 0 {
-            for ev in self.injected_midi.iter().rev() {
+            for ev in self.injected_midi.iter() {
                 let ev = HxTimedEvent::new_timed(0, *ev);
                 if ev.is_cc() {
                     self.exec_ctx.midi_ccs.push(ev);
-- 
2.43.0


From 7a6dec8c5cf996a53ac16c4f8dfd5b03ffaf2bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 29/53] fix: slew time of the MidiCC node was wrong for sample
 rates other than 44100 Hz

---
 src/dsp/node_midicc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index d80da81..ec8e1ed 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -73,7 +73,11 @@ If you need different ~~slew~~ values for the CCs, I recommend creating other
 }
 
 impl DspNode for MidiCC {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.slew_cc1.set_sample_rate(srate);
+        self.slew_cc2.set_sample_rate(srate);
+        self.slew_cc3.set_sample_rate(srate);
+    }
     fn reset(&mut self) {}
 
     #[inline]
-- 
2.43.0


From 028cd6f218165b9db8db9bec7d4cb16daf0198a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 30/53] fix: deliver MIDI events that did not fit into their
 block in the next one

---
 src/nodes/midi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nodes/midi.rs b/src/nodes/midi.rs
index eef2e10..df9d02f 100644
--- a/src/nodes/midi.rs
+++ b/src/nodes/midi.rs
@@ -93,7 +93,10 @@ impl EventWindowing {
     ) -> Option<HxTimedEvent> {
         if let Some(event) = self.event.take() {
             if event.timing < (to_time + block_size) {
-                return Some(HxTimedEvent { timing: event.timing - to_time, kind: event.kind });
+                // An event that could not be delivered in its own block, because too many
+                // events arrived there, is delivered at the beginning of the next one:
+                let timing = event.timing.saturating_sub(to_time);
+                return Some(HxTimedEvent { timing, kind: event.kind });
             } else {
                 self.event = Some(event);
             }
-- 
2.43.0


From 2e8fbf1183566b38213afafc1ab5faece4eeae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 31/53] fix: do not lose injected MIDI events when the audio
 thread stalls

---
 src/nodes/node_conf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index c7fcc5d..2417880 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -1048,7 +1048,7 @@ impl NodeConfigurator {
     /// back to the GUI thread the standard way. This is mostly used for automated testing.
     /// And maybe some day for some kind of remote control script from WLambda?
     pub fn inject_midi_event(&mut self, midi_ev: HxMidiEvent) {
-        let _ = self.shared.graph_update_prod.push(GraphMessage::InjectMidi { midi_ev });
+        self.shared.send_update(GraphMessage::InjectMidi { midi_ev });
     }
 
     /// Returns the next [GraphEvent] from the DSP/audio/backend thread.
-- 
2.43.0


From 6a6ea4c2419182f9e1a72316ecb03eebfb41ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:01 +0000
Subject: [PATCH 32/53] fix: send pattern columns in the encoding of their type
 also while the pattern has no rows

---
 src/dsp/tracker/pattern.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 23269c2..de3844d 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -140,11 +140,11 @@ impl PatternData {
     pub fn sync_out_data(&mut self, col: usize) {
         let out_col = &mut self.out_data[col];
 
-        if self.rows == 0 {
-            return;
-        }
-
         match self.col_types[col] {
+            PatternColType::Value if self.rows == 0 => {
+                // There is nothing to interpolate.
+                out_col.fill((0.0, 0));
+            }
             PatternColType::Value => {
                 let mut start_value = 0.0;
                 let mut start_idx = 0;
-- 
2.43.0


From 3d98cd900d1568ca535e258a4f3f25488b78dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:13 +0000
Subject: [PATCH 33/53] fix: do not play outdated pattern columns when a
 sequencer node is created

---
 src/dsp/tracker/mod.rs | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index 18484fd..5155ccf 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -37,8 +37,6 @@ pub enum PatternUpdateMsg {
 pub struct Tracker {
     data: Arc<Mutex<PatternData>>,
     data_prod: Producer<PatternUpdateMsg>,
-    seq: Option<PatternSequencer>,
-    seq_cons: Option<Consumer<PatternUpdateMsg>>,
 }
 
 impl Clone for Tracker {
@@ -72,14 +70,9 @@ impl Default for Tracker {
 impl Tracker {
     pub fn new() -> Self {
         let rb = RingBuffer::new(MAX_RINGBUF_SIZE);
-        let (prod, con) = rb.split();
+        let (prod, _con) = rb.split();
 
-        Self {
-            data: Arc::new(Mutex::new(PatternData::new(MAX_PATTERN_LEN))),
-            data_prod: prod,
-            seq: Some(PatternSequencer::new(MAX_PATTERN_LEN)),
-            seq_cons: Some(con),
-        }
+        Self { data: Arc::new(Mutex::new(PatternData::new(MAX_PATTERN_LEN))), data_prod: prod }
     }
 
     pub fn data(&self) -> Arc<Mutex<PatternData>> {
@@ -115,22 +108,20 @@ impl Tracker {
     }
 
     pub fn get_backend(&mut self) -> TrackerBackend {
-        if self.seq.is_none() {
-            let rb = RingBuffer::new(MAX_RINGBUF_SIZE);
-            let (prod, con) = rb.split();
+        // A new backend starts with a new ring buffer, because the old one might contain
+        // outdated columns that were sent when there was no backend to receive them.
+        let rb = RingBuffer::new(MAX_RINGBUF_SIZE);
+        let (prod, seq_cons) = rb.split();
+        self.data_prod = prod;
 
-            self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));
-            self.data_prod = prod;
-            self.seq_cons = Some(con);
+        // The new backend does not know the pattern yet:
+        self.data.lock().unwrap().modified_all_cols();
 
-            // The new backend does not know the pattern yet:
-            self.data.lock().unwrap().modified_all_cols();
+        TrackerBackend {
+            seq: PatternSequencer::new(MAX_PATTERN_LEN),
+            seq_cons,
+            col_types: [PatternColType::Value; MAX_COLS],
         }
-
-        let seq = self.seq.take().unwrap();
-        let seq_cons = self.seq_cons.take().unwrap();
-
-        TrackerBackend { seq, seq_cons, col_types: [PatternColType::Value; MAX_COLS] }
     }
 }
 
-- 
2.43.0


From ac7d81b3fdb1eb782a3b6b874912809af6e58bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:13 +0000
Subject: [PATCH 34/53] fix: set the current sample rate on nodes that were not
 part of the program when it changed

---
 src/dsp/mod.rs         | 23 ++++++++++++++++++++---
 src/nodes/node_exec.rs |  6 ++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 18c4d7a..318fa2b 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -2701,7 +2701,7 @@ node_list! {make_node_info_enum}
 /// 4. Upon update of the [crate::nodes::NodeProg] on the DSP thread it is disposed
 /// by being sent to the drop thread.
 #[derive(Clone)]
-pub struct Node(pub Arc<SyncUnsafeCell<dyn DspNode>>, NodeId);
+pub struct Node(pub Arc<SyncUnsafeCell<dyn DspNode>>, NodeId, Arc<AtomicFloat>);
 
 impl Node {
     pub fn id(&self) -> NodeId {
@@ -2713,6 +2713,15 @@ impl Node {
         unsafe {
             (*self.0.get()).set_sample_rate(srate);
         }
+        self.2.set(srate);
+    }
+
+    /// Sets the sample rate, unless this node already operates at that sample rate.
+    #[inline]
+    pub fn update_sample_rate(&self, srate: f32) {
+        if self.2.get() != srate {
+            self.set_sample_rate(srate);
+        }
     }
 
     #[inline]
@@ -2748,7 +2757,11 @@ pub struct NopNode();
 
 impl NopNode {
     pub fn new_node() -> Node {
-        Node(Arc::new(SyncUnsafeCell::new(Self {})), NodeId::Nop)
+        Node(
+            Arc::new(SyncUnsafeCell::new(Self {})),
+            NodeId::Nop,
+            Arc::new(AtomicFloat::new(0.0)),
+        )
     }
 }
 
@@ -2785,7 +2798,11 @@ pub fn node_factory(node_id: NodeId, node_global: &NodeGlobalRef) -> Option<(Nod
         ) => {
             match node_id {
                 $(NodeId::$variant(_) => Some((
-                    Node(Arc::new(SyncUnsafeCell::new($variant::new(&node_id, node_global))), node_id),
+                    Node(
+                        Arc::new(SyncUnsafeCell::new($variant::new(&node_id, node_global))),
+                        node_id,
+                        Arc::new(AtomicFloat::new(0.0)),
+                    ),
                     NodeInfo::from_node_id(node_id),
                 )),)+
                 _ => None,
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 457237c..1b5c399 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -243,6 +243,12 @@ impl NodeExecutor {
 
                     self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];
 
+                    // The sample rate might have changed since the nodes were created
+                    // or since they were last part of the program:
+                    for op in self.prog.prog.iter() {
+                        op.node.update_sample_rate(self.sample_rate);
+                    }
+
                     // XXX: Copying from the old vector works, because we only
                     //      append nodes to the _end_ of the node instance vector.
                     //      If we do a garbage collection, we can't do this.
-- 
2.43.0


From d1ccde16137836619cb42ba1748cbd806180f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:13 +0000
Subject: [PATCH 35/53] fix: make the delay between FbWr and FbRd 3.14ms for
 all sample rates and graphs

---
 src/dsp/node_fbwr_fbrd.rs | 13 ++++--
 src/global.rs             |  8 +++-
 src/nodes/node_conf.rs    |  4 ++
 src/nodes/node_exec.rs    |  7 ++-
 src/shared_feedback.rs    | 94 +++++++++++++++++++++++++++++----------
 5 files changed, 97 insertions(+), 29 deletions(-)

diff --git a/src/dsp/node_fbwr_fbrd.rs b/src/dsp/node_fbwr_fbrd.rs
index 00733b7..afb7c69 100644
--- a/src/dsp/node_fbwr_fbrd.rs
+++ b/src/dsp/node_fbwr_fbrd.rs
@@ -62,7 +62,7 @@ impl DspNode for FbWr {
     fn process(
         &mut self,
         ctx: &mut dyn NodeAudioContext,
-        _ectx: &mut NodeExecContext,
+        ectx: &mut NodeExecContext,
         _nctx: &NodeContext,
         _atoms: &[SAtom],
         inputs: &[ProcBuf],
@@ -73,6 +73,8 @@ impl DspNode for FbWr {
 
         let inp = inp::FbWr::inp(inputs);
 
+        self.fb_wr.seek(ectx.frame_time);
+
         for frame in 0..ctx.nframes() {
             self.fb_wr.write(inp.read(frame));
         }
@@ -133,14 +135,17 @@ volume of the feedback.
 }
 
 impl DspNode for FbRd {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.fb_rd.set_sample_rate(srate);
+    }
+
     fn reset(&mut self) {}
 
     #[inline]
     fn process(
         &mut self,
         ctx: &mut dyn NodeAudioContext,
-        _ectx: &mut NodeExecContext,
+        ectx: &mut NodeExecContext,
         _nctx: &NodeContext,
         _atoms: &[SAtom],
         inputs: &[ProcBuf],
@@ -152,6 +157,8 @@ impl DspNode for FbRd {
         let vol = inp::FbRd::vol(inputs);
         let sig = out::FbRd::sig(outputs);
 
+        self.fb_rd.seek(ectx.frame_time);
+
         let mut last_val = 0.0;
         for frame in 0..ctx.nframes() {
             last_val = self.fb_rd.read();
diff --git a/src/global.rs b/src/global.rs
index fe5c76f..da6447e 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -72,7 +72,7 @@ impl NodeGlobalData {
 
     pub fn get_shared_feedback(&mut self, instance: usize) -> &mut SharedFeedback {
         if !self.feedback.contains_key(&instance) {
-            // FIXME: Sample rate needs to be determined properly!
+            // The SharedFeedbackReader is told the actual sample rate by the `FbRd` node.
             let new_shared_feedback = SharedFeedback::new(44100.0);
             self.feedback.insert(instance, new_shared_feedback);
         }
@@ -80,6 +80,12 @@ impl NodeGlobalData {
         self.feedback.get_mut(&instance).unwrap()
     }
 
+    /// Detaches the feedback buffers from the existing nodes. Nodes that are created
+    /// afterwards start with new and silent feedback buffers.
+    pub fn clear_feedback(&mut self) {
+        self.feedback.clear();
+    }
+
     pub fn get_feedback_reader(&mut self, instance: usize) -> Box<SharedFeedbackReader> {
         return Box::new(SharedFeedbackReader::new(self.get_shared_feedback(instance)));
     }
diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index 2417880..23b393a 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -754,6 +754,10 @@ impl NodeConfigurator {
         self.atoms.clear();
         self.atom_values.clear();
 
+        if let Ok(mut node_global) = self.node_global.lock() {
+            node_global.clear_feedback();
+        }
+
         self.shared.send_update(GraphMessage::Clear { prog: NodeProg::empty() });
     }
 
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 1b5c399..e45c3e5 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -160,13 +160,16 @@ pub struct NodeExecContext {
     /// Handle to the external parameters, external meaning parameters that come in via eg. the
     /// plugin API or are provided elsewhere on the audio thread.
     pub ext_param: Option<Arc<dyn ExternalParams>>,
+    /// The time (in frames) of the first frame in the current buffer period. Counted from
+    /// the construction of the [NodeExecutor].
+    pub frame_time: u64,
 }
 
 impl NodeExecContext {
     fn new() -> Self {
         let midi_notes = Vec::with_capacity(MAX_MIDI_NOTES_PER_BLOCK);
         let midi_ccs = Vec::with_capacity(MAX_MIDI_CC_PER_BLOCK);
-        Self { midi_notes, midi_ccs, ext_param: None }
+        Self { midi_notes, midi_ccs, ext_param: None, frame_time: 0 }
     }
 
     fn set_sample_rate(&mut self, _srate: f32) {}
@@ -517,6 +520,8 @@ impl NodeExecutor {
 
         prog.out_feedback.publish();
 
+        exec_ctx.frame_time += nframes as u64;
+
         self.shared.monitor_backend.check_recycle();
 
         // let ta = std::time::Instant::now();
diff --git a/src/shared_feedback.rs b/src/shared_feedback.rs
index 4ee55d8..73e325b 100644
--- a/src/shared_feedback.rs
+++ b/src/shared_feedback.rs
@@ -8,37 +8,50 @@
 //! See also [crate::NodeGlobalData] which provides the [SharedFeedback] to the nodes.
 
 use crate::dsp::MAX_BLOCK_SIZE;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use synfx_dsp::AtomicFloat;
 
 pub const FB_DELAY_LENGTH_MS: f32 = 3.14;
 
+/// Length of the feedback buffers in samples. This is enough for the delay at any sample rate
+/// up to 1.2MHz, and the currently processed block.
+const FB_BUFFER_LENGTH: usize = 4096;
+
+fn calc_delay_sample_count(sample_rate: f32) -> usize {
+    let delay_sample_count = ((sample_rate * FB_DELAY_LENGTH_MS) / 1000.0) as usize;
+
+    // Ensure we got at least MAX_BLOCK_SIZE though!
+    delay_sample_count.clamp(MAX_BLOCK_SIZE, FB_BUFFER_LENGTH - MAX_BLOCK_SIZE)
+}
+
 /// The SharedFeedback is a feedback delay buffer for the `FbWr` and `FbRd` nodes.
 ///
 /// They have a fixed delay of 3.14ms, which should be equal for all sample rates above 42kHz.
 /// Below that the delay might be longer to accomodate the [crate::dsp::MAX_BLOCK_SIZE].
 ///
+/// The position of a sample in the buffer is defined by the time (in samples) it was written,
+/// see also [SharedFeedbackWriter::seek] and [SharedFeedbackReader::seek].
+///
 /// See also [crate::NodeGlobalData] which provides the [SharedFeedback] to the DSP nodes.
 #[derive(Debug, Clone)]
 pub struct SharedFeedback {
     buffer: Arc<Vec<AtomicFloat>>,
+    /// The time right after the last written sample.
+    end_time: Arc<AtomicU64>,
     delay_sample_count: usize,
 }
 
 impl SharedFeedback {
     pub fn new(sample_rate: f32) -> Self {
         let mut buf = vec![];
-        let delay_sample_count = ((sample_rate * FB_DELAY_LENGTH_MS) / 1000.0) as usize;
-
-        // Ensure we got at least MAX_BLOCK_SIZE though!
-        let delay_sample_count = delay_sample_count.max(MAX_BLOCK_SIZE);
-
-        // Multiply by 3, to make ample space for the FB_DELAY_LENGTH_MS,
-        // probably 2*delay_sample_count would be fine too,
-        // but I'm anxious about off by one bugs :-)
-        buf.resize_with(3 * delay_sample_count, || AtomicFloat::new(0.0));
+        buf.resize_with(FB_BUFFER_LENGTH, || AtomicFloat::new(0.0));
 
-        Self { buffer: Arc::new(buf), delay_sample_count }
+        Self {
+            buffer: Arc::new(buf),
+            end_time: Arc::new(AtomicU64::new(0)),
+            delay_sample_count: calc_delay_sample_count(sample_rate),
+        }
     }
 }
 
@@ -51,18 +64,26 @@ impl SharedFeedback {
 #[derive(Debug, Clone)]
 pub struct SharedFeedbackWriter {
     buffer: Arc<Vec<AtomicFloat>>,
-    write_ptr: usize,
-    delay_sample_count: usize,
+    end_time: Arc<AtomicU64>,
+    time: u64,
 }
 
 impl SharedFeedbackWriter {
     pub fn new(sfb: &SharedFeedback) -> Self {
-        let buffer = sfb.buffer.clone();
-        Self {
-            buffer,
-            delay_sample_count: sfb.delay_sample_count,
-            write_ptr: sfb.delay_sample_count,
+        Self { buffer: sfb.buffer.clone(), end_time: sfb.end_time.clone(), time: 0 }
+    }
+
+    /// Sets the time (in samples) of the next sample that is written.
+    /// Anything that was not written up to that time is silence.
+    pub fn seek(&mut self, time: u64) {
+        let end_time = self.end_time.load(Ordering::Relaxed);
+        let start = end_time.max(time.saturating_sub(self.buffer.len() as u64));
+
+        for t in start..time {
+            self.buffer[t as usize % self.buffer.len()].set(0.0);
         }
+
+        self.time = time;
     }
 
     /// Write the next sample in to the feedback buffer.
@@ -72,8 +93,9 @@ impl SharedFeedbackWriter {
     /// on the audio thread writing the buffer per buffer iteration. And then one or more
     /// `FbRd` DSP node reading from that buffer.
     pub fn write(&mut self, s: f32) {
-        self.buffer[self.write_ptr].set(s);
-        self.write_ptr = (self.write_ptr + 1) % self.delay_sample_count;
+        self.buffer[self.time as usize % self.buffer.len()].set(s);
+        self.time += 1;
+        self.end_time.store(self.time, Ordering::Relaxed);
     }
 }
 
@@ -87,21 +109,45 @@ impl SharedFeedbackWriter {
 #[derive(Debug, Clone)]
 pub struct SharedFeedbackReader {
     buffer: Arc<Vec<AtomicFloat>>,
-    read_ptr: usize,
+    end_time: Arc<AtomicU64>,
+    time: u64,
     delay_sample_count: usize,
 }
 
 impl SharedFeedbackReader {
     pub fn new(sfb: &SharedFeedback) -> Self {
-        Self { buffer: sfb.buffer.clone(), delay_sample_count: sfb.delay_sample_count, read_ptr: 0 }
+        Self {
+            buffer: sfb.buffer.clone(),
+            end_time: sfb.end_time.clone(),
+            time: 0,
+            delay_sample_count: sfb.delay_sample_count,
+        }
+    }
+
+    /// Sets the sample rate, which determines the length of the delay in samples.
+    pub fn set_sample_rate(&mut self, sample_rate: f32) {
+        self.delay_sample_count = calc_delay_sample_count(sample_rate);
+    }
+
+    /// Sets the time (in samples) of the next sample that is read. What is read then is the sample
+    /// that was written 3.14ms before that time.
+    pub fn seek(&mut self, time: u64) {
+        self.time = time;
     }
 
     /// Read the next sample from the buffer. Wraps around after some internal buffer
     /// size (that is consistent with the [SharedFeedback] buffer size). Used by `FbRd` DSP node
     /// to do it's functionality.
     pub fn read(&mut self) -> f32 {
-        let ret = self.buffer[self.read_ptr].get();
-        self.read_ptr = (self.read_ptr + 1) % self.delay_sample_count;
-        ret
+        let time = self.time;
+        self.time += 1;
+
+        match time.checked_sub(self.delay_sample_count as u64) {
+            Some(time) if time < self.end_time.load(Ordering::Relaxed) => {
+                self.buffer[time as usize % self.buffer.len()].get()
+            }
+            // There was nothing written yet (or not anymore):
+            _ => 0.0,
+        }
     }
 }
-- 
2.43.0


From 93ed326d2c7e72c1d9053104d67e9bbb3b97c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:14 +0000
Subject: [PATCH 36/53] =?UTF-8?q?fix:=20compile=20the=20=CF=80=20and=202?=
 =?UTF-8?q?=CF=80=20blocks=20and=20the=20srate=20and=20israte=20variables?=
 =?UTF-8?q?=20of=20the=20block=20language?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/wblockdsp/compiler.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index e431724..6f732bc 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -410,10 +410,16 @@ impl Block2JITCompiler {
                 let e = self.bjit2jit(&expr)?;
                 Ok(assign(var, e))
             }
-            BlkASTNode::Get { var: varname, .. } => Ok(var(varname)),
+            BlkASTNode::Get { var: varname, .. } => match &varname[..] {
+                "srate" => Ok(var("$srate")),
+                "israte" => Ok(var("$israte")),
+                _ => Ok(var(varname)),
+            },
             BlkASTNode::Node { id, typ, childs, .. } => match &typ[..] {
                 "if" => Err(BlkJITCompileError::UnknownError),
                 "zero" => Ok(literal(0.0)),
+                "π" => Ok(var("PI")),
+                "2π" => Ok(var("TAU")),
                 _ => {
                     if *id == 0 {
                         return Err(BlkJITCompileError::NodeWithoutID(typ.to_string()));
-- 
2.43.0


From 21835966693f6b57e6cdad4d3e4c4f6b7e220ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:14 +0000
Subject: [PATCH 37/53] fix: assign the outputs of a block before they are read
 by a block with shifted inputs

---
 src/wblockdsp/compiler.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index 6f732bc..8abcddf 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -313,8 +313,20 @@ impl Block2JITCompiler {
             optype => {
                 let mut childs = vec![];
 
-                let mut i = 0;
-                while let Some((inp, out, child)) = node.nth_child(i) {
+                // Translate the named inputs in the order of the BlockLanguage. They are
+                // evaluated in that order, and the first use of a block with multiple
+                // outputs has to assign its temporary variables.
+                let mut inputs = vec![];
+                while let Some(child) = node.nth_child(inputs.len()) {
+                    inputs.push(child);
+                }
+                if let Some(names) = self.lang.borrow().get_type_inputs(optype) {
+                    inputs.sort_by_key(|(inp, _, _)| {
+                        names.iter().position(|n| n.as_deref() == Some(&inp[..]))
+                    });
+                }
+
+                for (inp, out, child) in inputs {
                     let out = if out.len() > 0 { Some(out) } else { None };
 
                     let child = self.trans2bjit(&child, out)?;
@@ -323,12 +335,8 @@ impl Block2JITCompiler {
                     } else {
                         childs.push((None, child));
                     }
-                    i += 1;
                 }
 
-                // TODO: Reorder the childs/arguments according to the input
-                //       order in the BlockLanguage
-
                 let cnt = self.lang.borrow().type_output_count(optype);
                 if cnt > 1 {
                     let mut area = vec![];
-- 
2.43.0


From cd69dfffcc9c0bb50ec3bcc5a8a53dcd4567ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:14 +0000
Subject: [PATCH 38/53] fix: do not lose a block when it is moved to an unknown
 area

---
 src/wblockdsp/language.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index fcc565d..b409754 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1705,6 +1705,10 @@ impl BlockFun {
             return Err(BlockDSPError::CircularAction(id, id2));
         }
 
+        if id2 >= self.areas.len() {
+            return Err(BlockDSPError::UnknownArea(id2));
+        }
+
         let (block, xo, yo) = if let Some(area) = self.areas.get_mut(id) {
             area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?
         } else {
-- 
2.43.0


From 8af08c5975035623ec28c9529bf824f4661f52a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:05 +0000
Subject: [PATCH 39/53] fix: send the code to a new Code node and start it
 without the state of older blocks

---
 src/global.rs             | 17 +++++++++++++----
 src/wblockdsp/compiler.rs | 30 ++++++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/global.rs b/src/global.rs
index da6447e..b3cc2bf 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -38,8 +38,10 @@ pub struct NodeGlobalData {
     /// Holds the block functions that are JIT compiled to DSP code
     /// for the `Code` nodes. The code is then sent via the [CodeEngine]
     /// in [NodeConfigurator::check_block_function].
+    /// Next to the block function the most recently compiled generation of it is stored and
+    /// the epoch of it's DSP state, which changes with every new `Code` node.
     #[cfg(feature = "synfx-dsp-jit")]
-    block_functions: HashMap<usize, (u64, Arc<Mutex<BlockFun>>)>,
+    block_functions: HashMap<usize, (u64, u64, Arc<Mutex<BlockFun>>)>,
     /// Holds the communication handles to send [crate::dsp::DynamicNode1x1] instances
     /// to their corresponding `Rust1x1` DSP nodes.
     dyn_nodes1x1: HashMap<usize, DynNodeHandle<Box<dyn DynamicNode1x1>>>,
@@ -170,6 +172,12 @@ impl NodeGlobalData {
     /// to the previously returned [CodeEngineBackend].
     #[cfg(feature = "synfx-dsp-jit")]
     pub fn get_code_engine_backend(&mut self, index: usize) -> CodeEngineBackend {
+        // The new backend does not know the code yet and starts with fresh state:
+        if let Some((generation, epoch, _)) = self.block_functions.get_mut(&index) {
+            *generation = 0;
+            *epoch += 1;
+        }
+
         self.get_code_engine(index).get_backend()
     }
 
@@ -184,10 +192,10 @@ impl NodeGlobalData {
 
             if !self.block_functions.contains_key(&id) {
                 self.block_functions
-                    .insert(id, (0, Arc::new(Mutex::new(BlockFun::new(lang.clone())))));
+                    .insert(id, (0, 0, Arc::new(Mutex::new(BlockFun::new(lang.clone())))));
             }
 
-            self.block_functions.get(&id).map(|pair| pair.1.clone())
+            self.block_functions.get(&id).map(|entry| entry.2.clone())
         }
 
         #[cfg(not(feature = "synfx-dsp-jit"))]
@@ -204,11 +212,12 @@ impl NodeGlobalData {
         if self.has_code_engine(id) {
             self.get_code_engine(id).query_returns();
 
-            if let Some((generation, block_fun)) = self.block_functions.get_mut(&id) {
+            if let Some((generation, epoch, block_fun)) = self.block_functions.get_mut(&id) {
                 if let Ok(block_fun) = block_fun.lock() {
                     if *generation != block_fun.generation() {
                         *generation = block_fun.generation();
                         let mut compiler = Block2JITCompiler::new(block_fun.block_language());
+                        compiler.set_state_epoch(*epoch);
                         let ast = compiler.compile(&block_fun)?;
 
                         if let Some(cod) = self.code_engines.get_mut(&id) {
diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index 8abcddf..efc21b9 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -206,6 +206,8 @@ pub struct Block2JITCompiler {
     idout_var_map: HashMap<String, String>,
     lang: Rc<RefCell<BlockLanguage>>,
     tmpvar_counter: usize,
+    #[cfg(feature = "synfx-dsp-jit")]
+    state_epoch: u64,
 }
 
 #[cfg(not(feature = "synfx-dsp-jit"))]
@@ -215,7 +217,31 @@ pub enum ASTNode {
 
 impl Block2JITCompiler {
     pub fn new(lang: Rc<RefCell<BlockLanguage>>) -> Self {
-        Self { idout_var_map: HashMap::new(), lang, tmpvar_counter: 0 }
+        Self {
+            idout_var_map: HashMap::new(),
+            lang,
+            tmpvar_counter: 0,
+            #[cfg(feature = "synfx-dsp-jit")]
+            state_epoch: 0,
+        }
+    }
+
+    /// Sets the epoch of the DSP state of the blocks. A block keeps its DSP state over
+    /// recompilations with the same epoch, and starts with a new state in a different epoch.
+    #[cfg(feature = "synfx-dsp-jit")]
+    pub fn set_state_epoch(&mut self, epoch: u64) {
+        self.state_epoch = epoch;
+    }
+
+    /// Returns the unique ID of the DSP state of a block. The type of the block is included,
+    /// because a block ID might be reused for a different block after
+    /// [BlockFun::load_snapshot], and the type of a DSP state must not change.
+    #[cfg(feature = "synfx-dsp-jit")]
+    fn state_uid(&self, id: usize, typ: &str) -> u64 {
+        use std::hash::{Hash, Hasher};
+        let mut hasher = std::collections::hash_map::DefaultHasher::new();
+        (self.state_epoch, id, typ).hash(&mut hasher);
+        hasher.finish()
     }
 
     pub fn next_tmpvar_name(&mut self, extra: &str) -> String {
@@ -502,7 +528,7 @@ impl Block2JITCompiler {
                                 _ => Err(BlkJITCompileError::UnknownType(typ.to_string())),
                             }
                         }
-                        _ => Ok(call(typ, *id as u64, &args[..])),
+                        _ => Ok(call(typ, self.state_uid(*id, typ), &args[..])),
                     }
                 }
             },
-- 
2.43.0


From 3d7bcb5bd1feef9b18a348dec2a96e1eb79d75c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:47 +0000
Subject: [PATCH 40/53] fix: tell the dynamic nodes of Rust1x1 the sample rate
 and when they are reset

---
 src/dsp/node_rust.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/dsp/node_rust.rs b/src/dsp/node_rust.rs
index c7db024..536bb7b 100644
--- a/src/dsp/node_rust.rs
+++ b/src/dsp/node_rust.rs
@@ -120,6 +120,14 @@ where
         self.output.update();
         self.output.output_buffer()
     }
+
+    /// Like [DynNodeBuffer::access], but also returns whether this is the first access
+    /// of the most recently written value.
+    #[inline]
+    pub fn access_updated(&mut self) -> (&mut T, bool) {
+        let updated = self.output.update();
+        (self.output.output_buffer(), updated)
+    }
 }
 
 pub struct DynNodeHandle<T: Send + Default> {
@@ -167,6 +175,7 @@ impl std::fmt::Debug for Rust1x1 {
 /// A native Rust code node that uses trait objects for dispatch
 pub struct Rust1x1 {
     buffer: DynNodeBuffer<Box<dyn DynamicNode1x1>>,
+    srate: f32,
 }
 
 impl Rust1x1 {
@@ -177,7 +186,7 @@ impl Rust1x1 {
             let mut handle = DynNodeHandle::<Box<dyn DynamicNode1x1>>::new();
             handle.get_output_buffer()
         };
-        Self { buffer }
+        Self { buffer, srate: 44100.0 }
     }
 
     pub const inp: &'static str =
@@ -213,9 +222,14 @@ See also [crate::SynthConstructor] and [crate::DynamicNode1x1].
 }
 
 impl DspNode for Rust1x1 {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.srate = srate;
+        self.buffer.access().set_sample_rate(srate);
+    }
 
-    fn reset(&mut self) {}
+    fn reset(&mut self) {
+        self.buffer.access().reset();
+    }
 
     #[inline]
     fn process(
@@ -243,7 +257,12 @@ impl DspNode for Rust1x1 {
             phase_value: ctx_vals[1].clone(),
         };
 
-        self.buffer.access().process(
+        let (node, is_new) = self.buffer.access_updated();
+        if is_new {
+            node.set_sample_rate(self.srate);
+        }
+
+        node.process(
             inp.slice(ctx.nframes()),
             out.slice_mut(ctx.nframes()),
             &n1x1ctx,
-- 
2.43.0


From 408e102597ab1d32c3f0ac1f6a70ab3068e27362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 41/53] fix: stop monitoring when a cell without a node is
 monitored

---
 src/nodes/node_conf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index 23b393a..aa9482d 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -736,9 +736,11 @@ impl NodeConfigurator {
 
                 i += 1;
             }
-
-            self.shared.send_update(GraphMessage::SetMonitor { bufs });
         }
+
+        // Also sent for a node that does not exist, the signals that were
+        // monitored before must not be shown for it:
+        self.shared.send_update(GraphMessage::SetMonitor { bufs });
     }
 
     pub fn get_node_global(&self) -> NodeGlobalRef {
-- 
2.43.0


From 31820e3576556037f9244e70610e9d32969324fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:46 +0000
Subject: [PATCH 42/53] fix: keep the monitored position when the cell there is
 empty

---
 src/matrix.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 1e57520..98d3746 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1047,7 +1047,9 @@ impl Matrix {
     /// monitor the newly moved cell anyways.
     fn remonitor_cell(&mut self) {
         let m = self.monitored_cell();
-        if let Some(cell) = self.get(m.x as usize, m.y as usize).copied() {
+        // An empty cell might not store it's position, then `get` would
+        // make us monitor some other cell from now on:
+        if let Some(cell) = self.get_copy(m.x as usize, m.y as usize) {
             self.monitor_cell(cell);
         }
     }
-- 
2.43.0


From ebda911b6421f17e302b8ffcbf1ba874eabdf96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:36 +0000
Subject: [PATCH 43/53] fix: recalculate filtered LED and output values that
 are not asked for in each frame

---
 src/nodes/feedback_filter.rs | 49 +++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/nodes/feedback_filter.rs b/src/nodes/feedback_filter.rs
index c97ff45..d01a9bc 100644
--- a/src/nodes/feedback_filter.rs
+++ b/src/nodes/feedback_filter.rs
@@ -8,37 +8,62 @@ use crate::dsp::NodeId;
 use std::collections::HashMap;
 
 pub struct FeedbackFilter {
-    led_filters: HashMap<NodeId, VisualSamplingFilter>,
-    out_filters: HashMap<(NodeId, u8), VisualSamplingFilter>,
+    led_filters: HashMap<NodeId, FilterEntry>,
+    out_filters: HashMap<(NodeId, u8), FilterEntry>,
+    /// Counts the calls to [FeedbackFilter::trigger_recalc].
+    generation: u64,
+}
+
+/// A filter and the state it needs to find out if it was already
+/// recalculated since the most recent [FeedbackFilter::trigger_recalc].
+/// The filters might not be retrieved in each frame.
+struct FilterEntry {
+    filter: VisualSamplingFilter,
     recalc_state: bool,
+    generation: Option<u64>,
+}
+
+impl FilterEntry {
+    fn new() -> Self {
+        Self { filter: VisualSamplingFilter::new(), recalc_state: false, generation: None }
+    }
+
+    fn get(&mut self, generation: u64, sample: f32) -> (f32, f32) {
+        if self.generation != Some(generation) {
+            self.generation = Some(generation);
+            self.recalc_state = !self.recalc_state;
+        }
+
+        self.filter.get(self.recalc_state, sample)
+    }
 }
 
 impl FeedbackFilter {
     pub fn new() -> Self {
-        Self { led_filters: HashMap::new(), out_filters: HashMap::new(), recalc_state: true }
+        Self { led_filters: HashMap::new(), out_filters: HashMap::new(), generation: 0 }
     }
 
-    fn get_out_filter_for_node(&mut self, node_id: &NodeId, out: u8) -> &mut VisualSamplingFilter {
-        self.out_filters.entry((*node_id, out)).or_insert_with(|| VisualSamplingFilter::new())
+    fn get_out_filter_for_node(&mut self, node_id: &NodeId, out: u8) -> &mut FilterEntry {
+        self.out_filters.entry((*node_id, out)).or_insert_with(FilterEntry::new)
     }
 
-    fn get_led_filter_for_node(&mut self, node_id: &NodeId) -> &mut VisualSamplingFilter {
-        self.led_filters.entry(*node_id).or_insert_with(|| VisualSamplingFilter::new())
+    fn get_led_filter_for_node(&mut self, node_id: &NodeId) -> &mut FilterEntry {
+        self.led_filters.entry(*node_id).or_insert_with(FilterEntry::new)
     }
 
     pub fn trigger_recalc(&mut self) {
-        self.recalc_state = !self.recalc_state;
+        self.generation = self.generation.wrapping_add(1);
     }
 
     pub fn get_led(&mut self, node_id: &NodeId, sample: f32) -> (f32, f32) {
-        let recalc_state = self.recalc_state;
+        let generation = self.generation;
         let filter = self.get_led_filter_for_node(node_id);
-        filter.get(recalc_state, sample)
+        filter.get(generation, sample)
     }
 
     pub fn get_out(&mut self, node_id: &NodeId, out: u8, sample: f32) -> (f32, f32) {
-        let recalc_state = self.recalc_state;
+        let generation = self.generation;
         let filter = self.get_out_filter_for_node(node_id, out);
-        filter.get(recalc_state, sample)
+        filter.get(generation, sample)
     }
 }
-- 
2.43.0


From 916aa1ca9ef397708bcaad609e1043a84f187533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:50 +0000
Subject: [PATCH 44/53] fix: load integer samples at full scale, independent of
 the number of bits

---
 src/sample_lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sample_lib.rs b/src/sample_lib.rs
index 92c10e1..36ef3a4 100644
--- a/src/sample_lib.rs
+++ b/src/sample_lib.rs
@@ -62,9 +62,12 @@ impl SampleLibrary {
             }
             // http://blog.bjornroche.com/2009/12/int-float-int-its-jungle-out-there.html
             hound::SampleFormat::Int => {
-                for s in rd.samples::<i16>().step_by(channels).take(max_sample_count) {
+                // Full scale depends on the sample format, eg. 0x8000 for 16 bits:
+                let full_scale = (1_u64 << (rd.spec().bits_per_sample.clamp(1, 32) - 1)) as f32;
+
+                for s in rd.samples::<i32>().step_by(channels).take(max_sample_count) {
                     let s = s?;
-                    let s = s as f32 / (0x8000 as f32);
+                    let s = s as f32 / full_scale;
                     v.push(s);
                 }
             }
-- 
2.43.0


From 1c8bc3bf0ba119fecdbc0e13291ce3d33adb7ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 45/53] fix: do not miss errors in the unused channels of a
 sample file

---
 src/sample_lib.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/sample_lib.rs b/src/sample_lib.rs
index 36ef3a4..17c9737 100644
--- a/src/sample_lib.rs
+++ b/src/sample_lib.rs
@@ -52,12 +52,18 @@ impl SampleLibrary {
 
         let mut v = vec![rd.spec().sample_rate as f32];
 
-        let max_sample_count = self.max_length_s * rd.spec().sample_rate as usize;
+        let max_sample_count = self.max_length_s * rd.spec().sample_rate as usize * channels;
+
+        // All the channels are read, because an error in one of those that are not
+        // used must not be missed: the samples after it would be out of place.
 
         match rd.spec().sample_format {
             hound::SampleFormat::Float => {
-                for s in rd.samples::<f32>().step_by(channels).take(max_sample_count) {
-                    v.push(s?);
+                for (i, s) in rd.samples::<f32>().take(max_sample_count).enumerate() {
+                    let s = s?;
+                    if i % channels == 0 {
+                        v.push(s);
+                    }
                 }
             }
             // http://blog.bjornroche.com/2009/12/int-float-int-its-jungle-out-there.html
@@ -65,10 +71,11 @@ impl SampleLibrary {
                 // Full scale depends on the sample format, eg. 0x8000 for 16 bits:
                 let full_scale = (1_u64 << (rd.spec().bits_per_sample.clamp(1, 32) - 1)) as f32;
 
-                for s in rd.samples::<i32>().step_by(channels).take(max_sample_count) {
+                for (i, s) in rd.samples::<i32>().take(max_sample_count).enumerate() {
                     let s = s?;
-                    let s = s as f32 / full_scale;
-                    v.push(s);
+                    if i % channels == 0 {
+                        v.push(s as f32 / full_scale);
+                    }
                 }
             }
         };
-- 
2.43.0


From 94f6790accf7c2e9c46ea42d964ac0c0985dacd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:32 +0000
Subject: [PATCH 46/53] fix: do not show a zero in the first point of a new
 scope

---
 src/dsp/node_scope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_scope.rs b/src/dsp/node_scope.rs
index ef4b738..a4bfc38 100644
--- a/src/dsp/node_scope.rs
+++ b/src/dsp/node_scope.rs
@@ -54,7 +54,7 @@ impl Scope {
             idx: 0,
             srate_ms: 44.1,
             frame_time: 0.0,
-            cur_mm: Box::new([(0.0, 0.0); 3]),
+            cur_mm: Box::new([(-99999.0, 99999.0); 3]),
             trig: CustomTrigger::new(0.0, 0.0001),
         }
     }
-- 
2.43.0


From df5d8e7a9b58041f4ffd71086bbe04dc69af13fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:21 +0000
Subject: [PATCH 47/53] fix: do not use occupied nodes or set their parameters
 when a chain is placed

---
 src/chain_builder.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 959618b..0c218d9 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -250,6 +250,7 @@ impl MatrixCellChain {
         let mut last_unused = HashMap::new();
 
         let mut pos = (at_x, at_y);
+        let mut params = vec![];
 
         for link in self.chain.iter() {
             let (x, y) = pos;
@@ -260,27 +261,30 @@ impl MatrixCellChain {
             let node_name = node_id.name();
 
             let node_id = if let Some(i) = last_unused.get(node_name).cloned() {
-                last_unused.insert(node_name.to_string(), i + 1);
-                node_id.to_instance(i + 1)
+                matrix.get_unused_instance_node_id(node_id.to_instance(i + 1))
             } else {
-                let node_id = matrix.get_unused_instance_node_id(node_id);
-                last_unused.insert(node_name.to_string(), node_id.instance());
-                node_id
+                matrix.get_unused_instance_node_id(node_id)
             };
+            last_unused.insert(node_name.to_string(), node_id.instance());
 
             cell.set_node_id_keep_ios(node_id);
 
             matrix.place(x, y, cell);
 
+            // The parameters were assigned before the instance of the node was known:
+            for (pid, at) in link.params.iter() {
+                if let Some(pid) = node_id.inp_param(pid.name()) {
+                    params.push((pid, at));
+                }
+            }
+
             let offs = link.dir.as_offs(pos.0);
             pos.0 = (pos.0 as i32 + offs.0) as usize;
             pos.1 = (pos.1 as i32 + offs.1) as usize;
         }
 
-        for link in self.chain.iter() {
-            for (pid, at) in link.params.iter() {
-                matrix.set_param(*pid, at.clone());
-            }
+        for (pid, at) in params {
+            matrix.set_param(pid, at.clone());
         }
 
         Ok(())
-- 
2.43.0


From 37e6548848be7065715fe9242f7f64d097598bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:21 +0000
Subject: [PATCH 48/53] fix: report mistakes in a chain instead of panicking
 when its parameters are set

---
 src/chain_builder.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 0c218d9..babb445 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -109,6 +109,11 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_denorm(&mut self, param: &str, denorm: f32) -> &mut Self {
+        if self.error.is_some() {
+            // The node to be set is maybe missing, [MatrixCellChain::place] will return the error.
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
@@ -126,6 +131,11 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_norm(&mut self, param: &str, norm: f32) -> &mut Self {
+        if self.error.is_some() {
+            // The node to be set is maybe missing, [MatrixCellChain::place] will return the error.
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
@@ -143,6 +153,11 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_atom(&mut self, param: &str, at: SAtom) -> &mut Self {
+        if self.error.is_some() {
+            // The node to be set is maybe missing, [MatrixCellChain::place] will return the error.
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
@@ -243,8 +258,8 @@ impl MatrixCellChain {
         at_x: usize,
         at_y: usize,
     ) -> Result<(), ChainError> {
-        if let Some(err) = self.error.take() {
-            return Err(err);
+        if let Some(err) = &self.error {
+            return Err(err.clone());
         }
 
         let mut last_unused = HashMap::new();
-- 
2.43.0


From e6dd1fa3a3bdb803aeae64b09349a89c62bc1810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:11 +0000
Subject: [PATCH 49/53] fix: upload the new graph when update_params finds
 changed connections

---
 src/synth_constructor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/synth_constructor.rs b/src/synth_constructor.rs
index f2770a2..e48fc4c 100644
--- a/src/synth_constructor.rs
+++ b/src/synth_constructor.rs
@@ -71,6 +71,10 @@ impl NodeConfig {
         self.edges.insert(param_name.to_string(), (node_id, output.to_string()));
     }
 
+    pub fn has_edge(&self, param_name: &str, node_id: NodeId, output: &str) -> bool {
+        self.edges.get(param_name).map_or(false, |(id, out)| *id == node_id && out == output)
+    }
+
     pub fn set_param(&mut self, param_name: &str, value: SAtom, modamt: Option<f32>) {
         self.params.insert(param_name.to_string(), (value, modamt));
     }
@@ -162,6 +166,8 @@ impl SynthConstructor {
                         if !only_update_params {
                             node_config.set_edge(param, id, out);
                             need_rebuild = true;
+                        } else if !node_config.has_edge(param, id, out) {
+                            need_rebuild = true;
                         }
                         walk_afterwads.push(node.clone());
                     }
-- 
2.43.0


From b857f7771f702e1334b80392230a1c19629e3fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:07 +0000
Subject: [PATCH 50/53] fix: do not recurse endlessly over graphs with shared
 or cyclic nodes in the SynthConstructor

---
 src/synth_constructor.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/synth_constructor.rs b/src/synth_constructor.rs
index e48fc4c..51537ca 100644
--- a/src/synth_constructor.rs
+++ b/src/synth_constructor.rs
@@ -39,7 +39,9 @@ See also [SynthConstructor::new] and [crate::build].
 use crate::build::*;
 use crate::nodes::{new_node_engine, NodeGraphOrdering};
 use crate::{NodeConfigurator, NodeExecutor, NodeId, SAtom};
-use std::collections::HashMap;
+use std::cell::RefCell;
+use std::collections::{HashMap, HashSet};
+use std::rc::Rc;
 
 /// Returned by [SynthConstructor] if some error occured while updating the graph
 /// or changing paramters.
@@ -123,9 +125,15 @@ impl SynthConstructor {
         &mut self,
         node: &ConstructorNode,
         only_update_params: bool,
+        visited: &mut HashSet<*const RefCell<Vec<ConstructorOp>>>,
     ) -> Result<bool, SynthError> {
         let mut need_rebuild = false;
 
+        // Nodes might be reachable by many ways, or even from themselves.
+        if !visited.insert(Rc::as_ptr(&node.ops)) {
+            return Ok(false);
+        }
+
         let node_id = node.node_id;
 
         if !self.nodes.contains_key(&node_id) {
@@ -180,7 +188,7 @@ impl SynthConstructor {
         }
 
         for node in walk_afterwads.iter() {
-            if self.walk_upload(&node, only_update_params)? {
+            if self.walk_upload(&node, only_update_params, visited)? {
                 need_rebuild = true;
             }
         }
@@ -246,7 +254,7 @@ impl SynthConstructor {
     pub fn update_params(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<bool, SynthError> {
         let built_node = node.build();
 
-        if self.walk_upload(&built_node, true)? {
+        if self.walk_upload(&built_node, true, &mut HashSet::new())? {
             self.upload(node)?;
             Ok(true)
         } else {
@@ -304,7 +312,7 @@ impl SynthConstructor {
 
     pub fn upload(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<(), SynthError> {
         let node = node.build();
-        self.walk_upload(&node, false)?;
+        self.walk_upload(&node, false, &mut HashSet::new())?;
 
         self.graph_ordering.clear();
 
-- 
2.43.0


From 2e3dab9accbf9a8debe64131cffb92832097379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:02 +0000
Subject: [PATCH 51/53] fix: do not show samples of an earlier recording in a
 scope whose time range grows

---
 src/dsp/node_scope.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsp/node_scope.rs b/src/dsp/node_scope.rs
index a4bfc38..6a6549a 100644
--- a/src/dsp/node_scope.rs
+++ b/src/dsp/node_scope.rs
@@ -172,6 +172,10 @@ impl DspNode for Scope {
         if samples_per_block < 1.0 {
             let copy_count = ((1.0 / samples_per_block) as usize).min(SCOPE_SAMPLES);
 
+            // No point is collected over multiple samples here:
+            self.frame_time = 0.0;
+            *self.cur_mm = [(-99999.0, 99999.0); 3];
+
             for frame in 0..ctx.nframes() {
                 if self.idx < SCOPE_SAMPLES {
                     for (i, input) in input_bufs.iter().enumerate() {
-- 
2.43.0


From a2d7c924abc0a43ef8495cc3489bbfadbf063e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:42 +0000
Subject: [PATCH 52/53] fix: tell the observer about modulation amounts that
 are changed without a rebuild

---
 src/matrix.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 98d3746..c55cb9b 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1097,6 +1097,11 @@ impl Matrix {
             ret
         } else {
             self.gen_counter += 1;
+
+            if let Some(obs) = &self.observer {
+                obs.update_param(&param);
+            }
+
             Ok(())
         }
     }
-- 
2.43.0


From 952d2088e9213e989cae1209e2dc27db4f604ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 53/53] fix: keep the code engines alive as long as the
 executor runs their code

The Matrix could be dropped while the audio thread still ran the JIT compiled
code of a Code node, which then accessed freed memory.
---
 src/global.rs          | 8 ++++++++
 src/nodes/mod.rs       | 2 +-
 src/nodes/node_exec.rs | 9 ++++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/global.rs b/src/global.rs
index b3cc2bf..7a2fdae 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -14,6 +14,14 @@ use synfx_dsp_jit::engine::{CodeEngine, CodeEngineBackend};
 /// Reference to a [crate::NodeGlobalData] instance.
 pub type NodeGlobalRef = Arc<Mutex<NodeGlobalData>>;
 
+/// Keeps the [NodeGlobalData] alive until the [crate::NodeExecutor] is gone, because the
+/// JIT compiled code of the `Code` nodes refers to memory of the [CodeEngine].
+pub(crate) struct NodeGlobalKeepAlive(#[allow(dead_code)] pub(crate) NodeGlobalRef);
+
+// The data is never accessed through this handle, it's only dropped along with it.
+// See also the Send implementation of the [crate::Matrix].
+unsafe impl Send for NodeGlobalKeepAlive {}
+
 /// This structure holds any global state that may be shared among
 /// [crate::dsp::DspNode] instances.
 ///
diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 8407066..c4fbd97 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -107,7 +107,7 @@ pub const UNUSED_MONITOR_IDX: usize = 99999;
 /// by ring buffers.
 pub fn new_node_engine() -> (NodeConfigurator, NodeExecutor) {
     let (nc, shared_exec) = NodeConfigurator::new();
-    let ne = NodeExecutor::new(shared_exec);
+    let ne = NodeExecutor::new(shared_exec, nc.get_node_global());
 
     // XXX: This is one of the earliest and most consistent points
     //      in runtime to do this kind of initialization:
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index e45c3e5..3a20ae1 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -7,6 +7,7 @@ use super::{
     MAX_INJ_MIDI_EVENTS, MAX_SMOOTHERS, UNUSED_MONITOR_IDX,
 };
 use crate::dsp::{Node, NodeContext, SAtom, MAX_BLOCK_SIZE};
+use crate::global::{NodeGlobalKeepAlive, NodeGlobalRef};
 use crate::monitor::{MonitorBackend, MON_SIG_CNT};
 use crate::util::Smoother;
 use synfx_dsp::AtomicFloat;
@@ -64,6 +65,11 @@ pub struct NodeExecutor {
 
     /// A flag to remember if we already initialized the logger on the audio thread.
     dsp_log_init: bool,
+
+    /// The executed nodes refer to the global data. This is the last field, it has
+    /// to be dropped after the nodes.
+    #[allow(dead_code)]
+    node_global: NodeGlobalKeepAlive,
 }
 
 /// Contains anything that connects the [NodeExecutor] with the frontend part.
@@ -178,7 +184,7 @@ impl NodeExecContext {
 }
 
 impl NodeExecutor {
-    pub(crate) fn new(shared: SharedNodeExec) -> Self {
+    pub(crate) fn new(shared: SharedNodeExec, node_global: NodeGlobalRef) -> Self {
         let mut smoothers = Vec::new();
         smoothers.resize_with(MAX_SMOOTHERS, || (0, Smoother::new()));
 
@@ -195,6 +201,7 @@ impl NodeExecutor {
             dsp_log_init: false,
             injected_midi,
             shared,
+            node_global: NodeGlobalKeepAlive(node_global),
         }
     }
 
-- 
2.43.0


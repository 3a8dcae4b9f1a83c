From b174b2e74f8a7735a55dc8f1e7f9e111cd247bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:31 +0000
Subject: [PATCH 01/90] fix: match old and new nodes of a chain one to one and
 in order when updating

Reordered or repeated nodes were matched by value only, so a chain whose
nodes were swapped kept playing in the old order and repeated nodes were
not added or removed.
---
 rs/main/src/lib.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 8562a3c..f874367 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -210,6 +210,35 @@ impl<const N: usize> Engine<N> {
             Ok(())
         }
 
+        // the nodes that stay: the longest run of equal nodes that appears in the same order in
+        // both chains, as (position in the old chain, position in the new chain)
+        fn kept_nodes(old: &[Component], new: &[Component]) -> Vec<(usize, usize)> {
+            let mut len = vec![vec![0; new.len() + 1]; old.len() + 1];
+            for (i, old_comp) in old.iter().enumerate().rev() {
+                for (j, new_comp) in new.iter().enumerate().rev() {
+                    len[i][j] = if old_comp == new_comp {
+                        len[i + 1][j + 1] + 1
+                    } else {
+                        len[i + 1][j].max(len[i][j + 1])
+                    };
+                }
+            }
+            let (mut i, mut j) = (0, 0);
+            let mut kept = vec![];
+            while i < old.len() && j < new.len() {
+                if old[i] == new[j] {
+                    kept.push((i, j));
+                    i += 1;
+                    j += 1;
+                } else if len[i + 1][j] >= len[i][j + 1] {
+                    i += 1;
+                } else {
+                    j += 1;
+                }
+            }
+            kept
+        }
+
         if let Some(ref old_ast) = self.ast {
             for (chain_name, new_chain) in &new_ast.get().nodes {
                 let Some(old_chain) = old_ast.get().nodes.get(chain_name) else {
@@ -229,11 +258,12 @@ impl<const N: usize> Engine<N> {
 
                 // we gotta go through every node which exists in the old chain and check if it
                 // exists in the new one.
-                for (old_idx, old_comp) in old_chain.iter().enumerate() {
+                let kept = kept_nodes(old_chain, new_chain);
+                for old_idx in 0..old_chain.len() {
                     match new_chain
                         .iter()
                         .enumerate()
-                        .find(|(_, comp)| old_comp == *comp)
+                        .find(|(idx, _)| kept.contains(&(old_idx, *idx)))
                     {
                         // If it exists in the new chain, then we have to update it
                         Some((idx, new_comp)) => {
@@ -265,7 +295,7 @@ impl<const N: usize> Engine<N> {
                     new_chain
                         .iter()
                         .enumerate()
-                        .filter(|(_, comp)| !old_chain.iter().any(|old_comp| old_comp == *comp)),
+                        .filter(|(idx, _)| !kept.iter().any(|(_, new_idx)| new_idx == idx)),
                     &mut graph_diff,
                     &self.samples_dict,
                     self.sr,
-- 
2.43.0


From 0e1a96babecccae5cb33e1fe3bd335a7421b580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:50 +0000
Subject: [PATCH 02/90] fix: forget the old input order of every node when
 edges are rebuilt

Nodes without references kept the indices of all their earlier
predecessors, so the list grew with every update and a node that became
the first of its chain still counted on an input that was gone.
---
 rs/main/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index f874367..c8173bf 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -529,6 +529,8 @@ impl<const N: usize> Engine<N> {
         };
 
         self.context.graph.clear_edges();
+        // the edges are rebuilt below, so every node learns its inputs again
+        self.context.send_msg_to_all(Message::ResetOrder);
         // println!("self.index_info in handle_connection{:?}", self.index_info);
         // println!("self.refpairlist in handle_connection {:?}", self.refpairlist);
 
-- 
2.43.0


From 7d9865aeac5514392f50047796988fc999f08278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:50 +0000
Subject: [PATCH 03/90] fix: silence a kept node that loses its input in an
 update

Shortening "imp 100 >> mul 0.5" to "mul 0.5" went on repeating the last
block the multiplication had produced.
---
 rs/main/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index c8173bf..9f92b2a 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -29,6 +29,7 @@ struct GraphDiff<'engine, const N: usize> {
     refpairlist: Vec<(Vec<String>, &'engine str, usize)>,
     node_add_list: VecDeque<(&'engine str, usize, GlicolNodeData<N>)>,
     idx_to_remove: Vec<NodeIndex>,
+    idx_to_silence: Vec<NodeIndex>,
 }
 
 pub struct Engine<const N: usize> {
@@ -267,6 +268,12 @@ impl<const N: usize> Engine<N> {
                     {
                         // If it exists in the new chain, then we have to update it
                         Some((idx, new_comp)) => {
+                            if idx == 0 && old_idx > 0 {
+                                // it has lost its input, so it should not repeat the last block
+                                graph_diff
+                                    .idx_to_silence
+                                    .push(self.index_info[*chain_name][old_idx]);
+                            }
                             // the paras can be the same
                             // but if the paras are refs, the source chain of refs can change
                             // e.g. the main chain is o: constsig 42 >> mul ~a
@@ -524,6 +531,11 @@ impl<const N: usize> Engine<N> {
                 for id in &graph_diff.idx_to_remove {
                     self.context.graph.remove_node(*id);
                 }
+                for id in &graph_diff.idx_to_silence {
+                    for buffer in &mut self.context.graph[*id].buffers {
+                        buffer.silence();
+                    }
+                }
             }
             Err(e) => return Err(self.clean_up(e)),
         };
-- 
2.43.0


From 67cb617a797299c5532c28a5c96fbd64499d5aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:50 +0000
Subject: [PATCH 04/90] fix: restore the live input chain on reset

After reset() the name "~input" was unknown and a block with live input
panicked.
---
 rs/main/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 9f92b2a..5513c2f 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -150,7 +150,9 @@ impl<const N: usize> Engine<N> {
         self.context.reset();
         self.ast = None;
         self.index_info.clear();
-        self.index_info_backup.clear();
+        self.index_info
+            .insert("~input".to_string(), vec![self.context.add_stereo_node(Pass {})]);
+        self.index_info_backup.clone_from(&self.index_info);
         self.temp_node_index.clear();
         self.samples_dict.clear();
         self.bpm = 120.;
-- 
2.43.0


From b7937038136c458bd0bb437d2f993bc56a821b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:50 +0000
Subject: [PATCH 05/90] fix: ignore messages to a position behind the end of a
 chain

They panicked with an index out of bounds.
---
 rs/main/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 5513c2f..8318a58 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -88,7 +88,11 @@ impl<const N: usize> Engine<N> {
 
             let chain_pos = chain_pos.parse::<usize>().unwrap_or_default();
             let param_pos = param_pos.parse::<u8>().unwrap_or_default();
-            if self.index_info.contains_key(chain_name) {
+            if self
+                .index_info
+                .get(chain_name)
+                .map_or(false, |chain| chain_pos < chain.len())
+            {
                 match value.parse::<f32>() {
                     // todo: check the name and pos
                     Ok(v) => self.context.graph[self.index_info[chain_name][chain_pos]]
-- 
2.43.0


From 1a9aa51e1089007e4491840fdc8892f398185634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:50 +0000
Subject: [PATCH 06/90] fix: accept live input when the program has its own
 ~input chain

Stereo input for a mono node and input after such a chain was removed
both panicked.
---
 rs/main/src/lib.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 8318a58..f8feff7 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -617,14 +617,11 @@ impl<const N: usize> Engine<N> {
 
     pub fn next_block(&mut self, buf: Vec<&[f32]>) -> &[Buffer<N>] {
         //  -> &Vec<Buffer<N>>
-        if !buf.is_empty() {
-            self.context.graph[self.index_info[&"~input".to_string()][0]].buffers[0]
-                .copy_from_slice(buf[0]);
-        }
-
-        if buf.len() > 1 {
-            self.context.graph[self.index_info[&"~input".to_string()][0]].buffers[1]
-                .copy_from_slice(buf[1]);
+        if let Some(chain) = self.index_info.get("~input") {
+            let buffers = &mut self.context.graph[chain[0]].buffers;
+            for (buffer, samples) in buffers.iter_mut().zip(buf) {
+                buffer.copy_from_slice(samples);
+            }
         }
 
         self.context
-- 
2.43.0


From 1402e9919187083684d87e02cc8d3f1075945c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 07/90] fix: take the speed of a sequence only from the node on
 its left

A referenced chain that happened to look like a speed node changed the
tempo, a removed speed node stayed in force, and any other node on the
left made references read the wrong chain. A sequence that referred to
itself panicked.
---
 rs/synth/src/node/sequencer/seq.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/sequencer/seq.rs b/rs/synth/src/node/sequencer/seq.rs
index a053f92..6447ecb 100644
--- a/rs/synth/src/node/sequencer/seq.rs
+++ b/rs/synth/src/node/sequencer/seq.rs
@@ -42,6 +42,7 @@ impl<const N: usize> Node<N> for Sequencer {
         // println!("seq inputs info {:?} ; self.input_order {:?}", inputs, self.input_order);
         match inputs.len() {
             0 => {
+                self.speed = 1.0; // there is no speed node (any more)
                 let bar_length = 240.0 / self.bpm as f64 * self.sr as f64 / self.speed as f64;
                 for out in &mut *output[0] {
                     *out = 0.0;
@@ -66,11 +67,15 @@ impl<const N: usize> Node<N> for Sequencer {
             }
             _ => {
                 // println!("{:?} {:?}", inputs, self.input_order);
-                let possible_speed = &inputs[&self.input_order[0]].buffers()[0];
-                let has_speed = possible_speed[0] > 0. && possible_speed[1] == 0.;
-
-                if has_speed {
-                    self.speed = possible_speed[0];
+                // the inputs are the node on the left, if there is one, and then the references
+                let has_left = self.input_order.len() > self.ref_order.len();
+                if !has_left {
+                    self.speed = 1.0;
+                } else if let Some(left) = inputs.get(&self.input_order[0]) {
+                    let possible_speed = &left.buffers()[0];
+                    if possible_speed[0] > 0. && possible_speed[1] == 0. {
+                        self.speed = possible_speed[0];
+                    }
                 }
 
                 let bar_length = 240.0 / self.bpm as f64 * self.sr as f64 / self.speed as f64;
@@ -84,9 +89,11 @@ impl<const N: usize> Node<N> for Sequencer {
                             let midi = match &event.1 {
                                 UsizeOrRef::Usize(value) => *value as f32,
                                 UsizeOrRef::Ref(s) => {
-                                    let source = &inputs
-                                        [&self.input_order[self.ref_order[s] + has_speed as usize]]; //panic?
-                                    source.buffers()[0][idx]
+                                    let pos = self.ref_order[s] + has_left as usize;
+                                    // a sequence that refers to itself has no such input
+                                    inputs
+                                        .get(&self.input_order[pos])
+                                        .map_or(0.0, |source| source.buffers()[0][idx])
                                 }
                             };
 
-- 
2.43.0


From 307ad43aafc8f4153764ddb86b1bd0f0384420fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 08/90] fix: a bar shorter than one sample no longer divides by
 zero in seq

---
 rs/synth/src/node/sequencer/seq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/sequencer/seq.rs b/rs/synth/src/node/sequencer/seq.rs
index 6447ecb..e0902b7 100644
--- a/rs/synth/src/node/sequencer/seq.rs
+++ b/rs/synth/src/node/sequencer/seq.rs
@@ -47,7 +47,7 @@ impl<const N: usize> Node<N> for Sequencer {
                 for out in &mut *output[0] {
                     *out = 0.0;
                     for event in &self.events {
-                        if (self.step % (bar_length as usize))
+                        if (self.step % (bar_length as usize).max(1))
                             == ((event.0 as f64 * bar_length) as usize)
                         {
                             let midi = match event.1 {
@@ -83,7 +83,7 @@ impl<const N: usize> Node<N> for Sequencer {
                     *out = 0.0;
 
                     for event in &self.events {
-                        if (self.step % (bar_length as usize))
+                        if (self.step % (bar_length as usize).max(1))
                             == ((event.0 as f64 * bar_length) as usize)
                         {
                             let midi = match &event.1 {
-- 
2.43.0


From 31844125397b827c41ec27e66706999c77ef0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 09/90] fix: make seq, choose, envperc and apfmsgain mono nodes

They only ever wrote their left channel, so as stereo nodes they muted
the right channel of everything they were multiplied with or played on.
---
 rs/main/src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index f1658a4..4505e02 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -222,7 +222,7 @@ pub fn makenode<const N: usize>(
                     nodes::NumberOrRef::Ref(_) => 0.0,
                 })
                 .gain(*gain)
-                .to_boxed_nodedata(2);
+                .to_boxed_nodedata(1);
 
             let mut reflist = vec![];
             if let nodes::NumberOrRef::Ref(s) = delay {
@@ -240,7 +240,7 @@ pub fn makenode<const N: usize>(
                 .sr(sr)
                 .attack(*attack)
                 .decay(*decay)
-                .to_boxed_nodedata(2),
+                .to_boxed_nodedata(1),
             vec![],
         ),
         Component::Adsr(nodes::Adsr {
@@ -373,12 +373,12 @@ pub fn makenode<const N: usize>(
                     .sr(sr)
                     .bpm(bpm)
                     .ref_order(order)
-                    .to_boxed_nodedata(2),
+                    .to_boxed_nodedata(1),
                 reflist,
             )
         }
         Component::Choose(nodes::Choose { choices }) => (
-            Choose::new(choices.clone(), seed as u64).to_boxed_nodedata(2),
+            Choose::new(choices.clone(), seed as u64).to_boxed_nodedata(1),
             vec![],
         ),
         Component::Mix(nodes::Mix { nodes }) => (
-- 
2.43.0


From e22091216caca636134321165b3eb6d1bca8249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 10/90] fix: arrange passes both channels of its sources

The right side stayed silent, and an arrangement that named itself
panicked.
---
 rs/synth/src/node/sequencer/arrange.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index 5d47e28..d1b671b 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -44,8 +44,16 @@ impl Arrange {
 impl<const N: usize> Node<N> for Arrange {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         let bar_length = 240.0 / self.bpm * self.sr as f32 / self.speed;
+        let mut play = |id: Option<&usize>, i: usize| {
+            if let Some(source) = id.and_then(|id| inputs.get(id)) {
+                for (chan, out) in output.iter_mut().enumerate() {
+                    // a mono source goes to both sides
+                    out[i] = source.buffers().get(chan).unwrap_or(&source.buffers()[0])[i];
+                }
+            }
+        };
         // calculate which bar we are and which input to pass to theoutput
-        for (i, out) in output[0].iter_mut().enumerate() {
+        for i in 0..N {
             let pos = self.step as f32 / bar_length;
             let mut bar_count = 0.0;
             for j in 0..(self.events.len() / 2) {
@@ -55,8 +63,7 @@ impl<const N: usize> Node<N> for Arrange {
 
                 bar_count += bar;
                 if pos < bar_count {
-                    let source = &inputs[&self.input_order[j]];
-                    *out = source.buffers()[0][i];
+                    play(self.input_order.get(j), i);
                     // match &self.events[j*2] {
                     //     GlicolPara::Reference(s) => {
                     //         let source = &inputs[&self.input_order[j]];
@@ -67,8 +74,7 @@ impl<const N: usize> Node<N> for Arrange {
                     break;
                 } else if j == self.events.len() / 2 - 1 {
                     self.step = 0;
-                    let source = &inputs[&self.input_order[0]];
-                    *out = source.buffers()[0][i];
+                    play(self.input_order.first(), i);
                     // match &self.events[0] {
                     //     GlicolPara::Reference(s) => {
                     //         let source = &inputs[&self.input_order[0]];
-- 
2.43.0


From c8f099f7747e83fcb871615eaeb47273bad296bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 11/90] fix: a message to arrange can change the length of a
 section

The position was subtracted from the wrong side and overflowed.
---
 rs/synth/src/node/sequencer/arrange.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index d1b671b..bdca806 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -91,6 +91,13 @@ impl<const N: usize> Node<N> for Arrange {
         match info {
             Message::SetToNumber(i, value) => {
                 self.step = 0;
+                if let Some(event) = self.events.get_mut(i as usize) {
+                    // the section lengths are at the odd positions
+                    if i % 2 == 1 {
+                        *event = NumberOrRef::Number(value);
+                    }
+                    return;
+                }
                 let to_push = i as usize - self.events.len();
 
                 self.events.reserve(to_push + 1);
-- 
2.43.0


From 181cf9cb0603565303a4999d521ec7351174af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 12/90] fix: arrange follows a change of tempo

---
 rs/synth/src/node/sequencer/arrange.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index bdca806..11fe24b 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -89,6 +89,7 @@ impl<const N: usize> Node<N> for Arrange {
     }
     fn send_msg(&mut self, info: Message) {
         match info {
+            Message::SetBPM(bpm) => self.bpm = bpm,
             Message::SetToNumber(i, value) => {
                 self.step = 0;
                 if let Some(event) = self.events.get_mut(i as usize) {
-- 
2.43.0


From c0376e569c41f8b8e244c73da097a1f4a5fd1cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 13/90] fix: psampler follows a change of tempo

---
 rs/synth/src/node/sampling/psampler.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index eb24ea2..452c0d3 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -137,6 +137,7 @@ impl<const N: usize> Node<N> for PSampler {
 
     fn send_msg(&mut self, info: Message) {
         match info {
+            Message::SetBPM(bpm) => self.cycle_dur = 60. / bpm * 4.,
             Message::SetSamplePattern(pattern, span, samples_dict) => {
                 self.playback.clear();
                 self.pattern = pattern;
-- 
2.43.0


From 5fb28c9f799a281813653db592d6e59fa537f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 14/90] fix: the cutoff pattern of lpf follows a change of
 tempo

---
 rs/synth/src/node/filter/rlpf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 8893e8c..51688d7 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -149,6 +149,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
 
     fn send_msg(&mut self, info: Message) {
         match info {
+            Message::SetBPM(bpm) => self.bpm = bpm,
             Message::SetPattern(p, span) => {
                 self.pattern = p;
                 self.span = span;
-- 
2.43.0


From 22db12c90bc9f384cb4092764c4e1942e58d4d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 15/90] fix: psynth uses the tempo and the written span

---
 rs/main/src/util.rs                      | 6 +++++-
 rs/synth/src/node/synth/pattern_synth.rs | 4 +---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 4505e02..259d258 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -114,7 +114,11 @@ pub fn makenode<const N: usize>(
                 .collect();
 
             (
-                PatternSynth::new(events).sr(sr).to_boxed_nodedata(1),
+                PatternSynth::new(events)
+                    .sr(sr)
+                    .cycle_dur(240. / bpm)
+                    .period_in_cycle(*span)
+                    .to_boxed_nodedata(1),
                 vec![],
             )
         }
diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index e234677..2c7839e 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -130,9 +130,7 @@ impl<const N: usize> Node<N> for PatternSynth {
     }
     fn send_msg(&mut self, info: Message) {
         match info {
-            // Message::SetBPM(bpm) => {
-            //     self.bpm = bpm
-            // },
+            Message::SetBPM(bpm) => self.cycle_dur = 240. / bpm,
             Message::SetToSymbol(0, s) => {
                 // panic!();
                 self.events.clear();
-- 
2.43.0


From fe11f5ecb801ac5b095f0ce411f4c548fb16f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:37 +0000
Subject: [PATCH 16/90] fix: interpolate between sample frames with the right
 weights

The nearer frame got the smaller weight, so a position just after a frame
played the next one.
---
 rs/synth/src/node/sampling/psampler.rs | 8 ++++----
 rs/synth/src/node/sampling/sampler.rs  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index 452c0d3..f6b46c0 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -82,8 +82,8 @@ impl<const N: usize> Node<N> for PSampler {
                                     let pos_index_float = x * ((sample.0.len() - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     sample.0[left as usize] * left_portion
                                         + sample.0[right as usize] * right_portion
@@ -107,8 +107,8 @@ impl<const N: usize> Node<N> for PSampler {
                                         x * (((sample.0.len() / sample.1) - 2) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     output[0][i] += sample.0[left as usize] * left_portion
                                         + sample.0[right as usize] * right_portion;
diff --git a/rs/synth/src/node/sampling/sampler.rs b/rs/synth/src/node/sampling/sampler.rs
index becf224..432664d 100644
--- a/rs/synth/src/node/sampling/sampler.rs
+++ b/rs/synth/src/node/sampling/sampler.rs
@@ -56,8 +56,8 @@ impl<const N: usize> Node<N> for Sampler {
                                         let pos_index_float = pos * (self.endindex as f32);
                                         let left = pos_index_float.floor();
                                         let right = pos_index_float.ceil();
-                                        let left_portion = pos_index_float - left;
-                                        let right_portion = 1. - left_portion;
+                                        let right_portion = pos_index_float - left;
+                                        let left_portion = 1. - right_portion;
 
                                         self.sample.0[left as usize] * left_portion
                                             + self.sample.0[right as usize] * right_portion
@@ -80,8 +80,8 @@ impl<const N: usize> Node<N> for Sampler {
                                     let pos_index_float = pos * ((self.len - 2) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     output[0][i] += self.sample.0[left as usize] * left_portion
                                         + self.sample.0[right as usize] * right_portion;
-- 
2.43.0


From 37654ddf10f2931e3ec68b11fa7408a525c619ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:37 +0000
Subject: [PATCH 17/90] fix: modulated delayms and apfmsgain read the right
 moment

The interpolation weights were swapped, so a whole number of samples came
out one sample late.
---
 rs/synth/src/node/delay/delayms.rs    | 4 ++--
 rs/synth/src/node/filter/apfmsgain.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index ed1ea93..119d67c 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -90,8 +90,8 @@ impl<const N: usize> Node<N> for DelayMs {
                         .zip(main_input.buffers());
 
                     for ((fixed, out_buf), main_buf) in iter {
-                        out_buf[i] = fixed.get(pos_int) * pos_frac
-                            + fixed.get(pos_int + 1) * (1. - pos_frac);
+                        out_buf[i] = fixed.get(pos_int) * (1. - pos_frac)
+                            + fixed.get(pos_int + 1) * pos_frac;
                         fixed.push(main_buf[i]);
                     }
                 }
diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 0443b2f..c4e9e10 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -82,10 +82,10 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
-                    let xdelay = self.bufx.get(pos_int) * pos_frac
-                        + self.bufx.get(pos_int + 1) * (1. - pos_frac);
-                    let ydelay = self.bufy.get(pos_int) * pos_frac
-                        + self.bufy.get(pos_int + 1) * (1. - pos_frac);
+                    let xdelay = self.bufx.get(pos_int) * (1. - pos_frac)
+                        + self.bufx.get(pos_int + 1) * pos_frac;
+                    let ydelay = self.bufy.get(pos_int) * (1. - pos_frac)
+                        + self.bufy.get(pos_int + 1) * pos_frac;
 
                     let yn = -self.gain * xn + xdelay + self.gain * ydelay;
 
-- 
2.43.0


From 7972db85e4368642ee689781e07bd1529f522d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:37 +0000
Subject: [PATCH 18/90] fix: play every frame of both channels of a stereo
 sample

The right channel was read one frame late and the last frame was cut off.
---
 rs/synth/src/node/sampling/psampler.rs | 6 +++---
 rs/synth/src/node/sampling/sampler.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index f6b46c0..4f7564e 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -104,7 +104,7 @@ impl<const N: usize> Node<N> for PSampler {
                                 }
                                 x if x > 0.0 && x < 1.0 => {
                                     let pos_index_float =
-                                        x * (((sample.0.len() / sample.1) - 2) as f32);
+                                        x * (((sample.0.len() / sample.1) - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
                                     let right_portion = pos_index_float - left;
@@ -114,9 +114,9 @@ impl<const N: usize> Node<N> for PSampler {
                                         + sample.0[right as usize] * right_portion;
 
                                     output[1][i] += sample.0
-                                        [left as usize + (sample.0.len() / sample.1) + 1]
+                                        [left as usize + (sample.0.len() / sample.1)]
                                         * left_portion
-                                        + sample.0[right as usize + (sample.0.len() / sample.1) + 1]
+                                        + sample.0[right as usize + (sample.0.len() / sample.1)]
                                             * right_portion
                                 }
                                 _ => {}
diff --git a/rs/synth/src/node/sampling/sampler.rs b/rs/synth/src/node/sampling/sampler.rs
index 432664d..e323e68 100644
--- a/rs/synth/src/node/sampling/sampler.rs
+++ b/rs/synth/src/node/sampling/sampler.rs
@@ -77,7 +77,7 @@ impl<const N: usize> Node<N> for Sampler {
                                 }
                                 // same comment here about match arms as above
                                 0.0..=1.0 => {
-                                    let pos_index_float = pos * ((self.len - 2) as f32);
+                                    let pos_index_float = pos * ((self.len - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
                                     let right_portion = pos_index_float - left;
@@ -86,9 +86,9 @@ impl<const N: usize> Node<N> for Sampler {
                                     output[0][i] += self.sample.0[left as usize] * left_portion
                                         + self.sample.0[right as usize] * right_portion;
 
-                                    output[1][i] += self.sample.0[left as usize + self.len + 1]
+                                    output[1][i] += self.sample.0[left as usize + self.len]
                                         * left_portion
-                                        + self.sample.0[right as usize + self.len + 1]
+                                        + self.sample.0[right as usize + self.len]
                                             * right_portion;
                                 }
                                 _ => {}
-- 
2.43.0


From 68a50303abe754b7abdb89e943ef9f6295f62e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:37 +0000
Subject: [PATCH 19/90] fix: onepole with a reference filters its input

Input and rate were swapped: the reference was filtered and the input
was taken as the rate.
---
 rs/synth/src/node/filter/onepole.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/filter/onepole.rs b/rs/synth/src/node/filter/onepole.rs
index 3209f70..2759021 100644
--- a/rs/synth/src/node/filter/onepole.rs
+++ b/rs/synth/src/node/filter/onepole.rs
@@ -48,9 +48,9 @@ impl<const N: usize> Node<N> for OnePole {
                     .zip(main_input.buffers()[0].iter())
                     .zip(ref_input.buffers()[0].iter())
                 {
-                    self.b = (-2.0 * std::f32::consts::PI * main_in).exp();
+                    self.b = (-2.0 * std::f32::consts::PI * ref_in).exp();
                     self.a = 1. - self.b;
-                    let y = ref_in * self.a + self.b * self.y1;
+                    let y = main_in * self.a + self.b * self.y1;
                     *out = y;
                     self.y1 = y;
                 }
-- 
2.43.0


From e6ffda22a6731883591e7064560f2c268ad8add4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:37 +0000
Subject: [PATCH 20/90] fix: adsr attacks from the current level when it is
 retriggered

The attack always started at zero and stopped below the top, which gave
a jump at both ends.
---
 rs/synth/src/node/envelope/adsr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/envelope/adsr.rs b/rs/synth/src/node/envelope/adsr.rs
index 57120fc..b96f06e 100644
--- a/rs/synth/src/node/envelope/adsr.rs
+++ b/rs/synth/src/node/envelope/adsr.rs
@@ -96,7 +96,8 @@ impl<const N: usize> Node<N> for Adsr {
                             } else {
                                 // attack from: lasty -> 1.0
                                 *out = self.pos as f32 / attack_len as f32
-                                    * (1.0 - self.state_change_y);
+                                    * (1.0 - self.state_change_y)
+                                    + self.state_change_y;
                             }
                         } else if self.pos > attack_len && self.pos <= attack_len + decay_len {
                             // decay phase
-- 
2.43.0


From 2e1096a5e9dc1c3a37d5222258dd953022fb54d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:37 +0000
Subject: [PATCH 21/90] fix: lpf and hpf take the current sample into account

x0 stayed zero, so the leading term of the difference equation was
missing.
---
 rs/synth/src/node/filter/rhpf.rs | 2 ++
 rs/synth/src/node/filter/rlpf.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/rs/synth/src/node/filter/rhpf.rs b/rs/synth/src/node/filter/rhpf.rs
index ec56e9d..6a77114 100644
--- a/rs/synth/src/node/filter/rhpf.rs
+++ b/rs/synth/src/node/filter/rhpf.rs
@@ -62,6 +62,7 @@ impl<const N: usize> Node<N> for ResonantHighPassFilter {
                 let b1 = -2.0 * gama;
                 let b2 = 2.0 * beta;
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
+                    self.x0 = *x0;
                     let y =
                         a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
@@ -87,6 +88,7 @@ impl<const N: usize> Node<N> for ResonantHighPassFilter {
                 let b2 = 2.0 * beta;
 
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
+                    self.x0 = *x0;
                     let y =
                         a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 51688d7..24f2a44 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -107,6 +107,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                     let b1 = -2.0 * gama;
                     let b2 = 2.0 * beta;
 
+                    self.x0 = *x0;
                     let y =
                         a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
 
@@ -133,6 +134,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                 let b2 = 2.0 * beta;
 
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
+                    self.x0 = *x0;
                     let y =
                         a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
-- 
2.43.0


From ca0a9c864ffbf03ebce10a76622d255ccb0e328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:37 +0000
Subject: [PATCH 22/90] fix: hpf uses the sample rate of the engine

---
 rs/main/src/util.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 259d258..2293e0a 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -210,6 +210,7 @@ pub fn makenode<const N: usize>(
                     nodes::NumberOrRef::Ref(_) => 100.0,
                 })
                 .q(*qvalue)
+                .sr(sr)
                 .to_boxed_nodedata(1);
 
             let mut reflist = vec![];
-- 
2.43.0


From 5a87cbd33d22044c2c4d3e271080bcb5cafbbea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:37 +0000
Subject: [PATCH 23/90] fix: msgsynth rises during the attack and falls during
 the decay

The two branches were swapped, so a note started at full level and grew
without bound.
---
 rs/synth/src/node/synth/msgsynth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/synth/msgsynth.rs b/rs/synth/src/node/synth/msgsynth.rs
index f351415..8a2eff2 100644
--- a/rs/synth/src/node/synth/msgsynth.rs
+++ b/rs/synth/src/node/synth/msgsynth.rs
@@ -106,14 +106,14 @@ impl<const N: usize> Node<N> for MsgSynth {
                     let pos = self.step - synth_info.0;
 
                     let amp = match pos.cmp(&attack_n) {
-                        Ordering::Greater | Ordering::Equal => {
+                        Ordering::Less | Ordering::Equal => {
                             if attack_n == 0 {
                                 0.0
                             } else {
                                 pos as f32 / (self.att * self.sr as f32)
                             }
                         }
-                        Ordering::Less => {
+                        Ordering::Greater => {
                             if decay_n == 0 {
                                 0.0
                             } else {
-- 
2.43.0


From f8d3456b11d0987d9b9ffa5f0d5f6bf12e3f211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 24/90] fix: list each reference of a sequence once

A sequence that was kept by an update was wired once per occurrence, so
from then on its notes read the wrong chains.
---
 rs/parser/src/nodes.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 44d94f8..0b291c9 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -155,13 +155,14 @@ impl<'ast> Component<'ast> {
             })
             | Self::Get(Get { reference: r }) => vec![r],
 
-            Self::Seq(Seq { events }) => events
-                .iter()
-                .flat_map(|(_, e)| match e {
-                    UsizeOrRef::Usize(_) => None,
-                    UsizeOrRef::Ref(r) => Some(*r),
-                })
-                .collect(),
+            // like the node itself, which has one input for each chain it refers to
+            Self::Seq(Seq { events }) => events.iter().fold(vec![], |mut refs, (_, e)| {
+                match e {
+                    UsizeOrRef::Ref(r) if !refs.contains(r) => refs.push(*r),
+                    _ => {}
+                }
+                refs
+            }),
             Self::Arrange(Arrange { events }) => events
                 .iter()
                 .flat_map(|e| match e {
-- 
2.43.0


From 08bd5463fa9853908bd6145252415f7ec85e34b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 25/90] fix: spread the groups of a sequence over one bar

The time of a group was its index instead of its share of the bar, so
only the first group was ever played.
---
 rs/parser/src/nodes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 0b291c9..ef4d40a 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -518,6 +518,7 @@ impl<'ast> Node<'ast> for Seq<'ast> {
         // to do, more than a symbol
         // should be an event that contains time and note
         let compounds = paras.into_inner();
+        let compounds_n = compounds.len();
 
         let events = compounds
             .enumerate()
@@ -535,7 +536,7 @@ impl<'ast> Node<'ast> for Seq<'ast> {
                             .next()
                             .ok_or_else(|| e_span.to_err_with_positives(positives))?;
 
-                        let time = relative_time_sub + i as f32;
+                        let time = (relative_time_sub + i as f32) / compounds_n as f32;
 
                         match_or_return_err!(e,
                             Rule::integer => {
-- 
2.43.0


From a0719d9b7c347e1846cc8b9fb381803c9a130834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 26/90] fix: keep the first and last character of eval code

Only meta and expr hand over their code with the backticks around it.
---
 rs/parser/src/nodes.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index ef4d40a..258d4ea 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -1114,8 +1114,12 @@ impl<'ast> Node<'ast> for CodeBlock<'ast> {
             .ok_or_else(|| span.as_end_span().to_err_with_positives([Rule::code]))?
             .as_str();
 
-        Ok(Self {
-            code: &s[1..s.len() - 1],
-        })
+        // the backticks are part of the code of meta and expr, but not of eval
+        let code = s
+            .strip_prefix('`')
+            .and_then(|code| code.strip_suffix('`'))
+            .unwrap_or(s);
+
+        Ok(Self { code })
     }
 }
-- 
2.43.0


From 8ddebfa91f6da289e3b9500266cf0ae73a88540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 27/90] fix: report an error for a points span that cannot be
 evaluated

---
 rs/parser/src/nodes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 258d4ea..1e8ae06 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -219,7 +219,11 @@ impl Node<'_> for Points {
                     let mut one = "1".to_owned();
                     let mut ns = fasteval::EmptyNamespace;
                     one.push_str(math_or_loop.as_str());
-                    node_span = fasteval::ez_eval(&one, &mut ns).unwrap() as f32;
+                    node_span = fasteval::ez_eval(&one, &mut ns).map_err(|_| {
+                        math_or_loop
+                            .as_end_span()
+                            .to_err_with_positives([Rule::math_expression])
+                    })? as f32;
                     if pairs.next().is_some() {
                         is_looping = true;
                     };
-- 
2.43.0


From d9c1d973a1c6dbe01364ddcafa4e74643220e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 28/90] fix: an empty list of points is silent instead of a
 panic

---
 rs/synth/src/node/signal/points.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index b2be374..d07a485 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -86,7 +86,7 @@ impl Points {
             })
             .collect::<Vec<_>>();
 
-        if point_list[0].0 != 0 {
+        if point_list.first().map_or(true, |point| point.0 != 0) {
             point_list.insert(0, (0, 0.0));
         }
 
-- 
2.43.0


From 7a1a607d8381862784f770147ca4ed6caaeca5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 29/90] fix: points interpolate between the points around the
 current position

The position of the first sample underflowed, the value after the last
point went back to the first segment, and in a loop every segment was
extrapolated from the wrong end.
---
 rs/synth/src/node/signal/points.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index d07a485..c97023b 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -109,7 +109,7 @@ impl<const N: usize> Node<N> for Points {
                 let pos = self.step;
                 let samples = &self.point_list;
 
-                let index = samples.iter().position(|s| pos <= s.0).map_or(0, |p| p - 1);
+                let index = samples.iter().rposition(|s| s.0 <= pos).unwrap_or(0);
 
                 // println!("index {} pos {} samples {:?}", index, pos, samples);
                 if index < samples.len() - 1 {
@@ -132,11 +132,10 @@ impl<const N: usize> Node<N> for Points {
                 let period = bar_dur;
                 let samples = &self.point_list;
 
-                let prev = samples.iter().enumerate().find(|(_, (s, _))| pos <= *s);
+                let index = samples.iter().rposition(|s| s.0 <= pos).unwrap_or(0);
 
-                let is_last = prev.is_none();
-                let (index, (prev_pos, prev_val)) =
-                    prev.unwrap_or_else(|| (samples.len() - 1, samples.last().unwrap()));
+                let is_last = index == samples.len() - 1;
+                let (prev_pos, prev_val) = &samples[index];
 
                 let (next_pos, next_val) = samples[(index + 1) % samples.len()];
 
-- 
2.43.0


From 2cb25ab3fec5fb92b28110c694e9cfe19565cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 30/90] fix: points without a written span use one bar

The parser marks a missing span with -1, which moved all points to the
start.
---
 rs/synth/src/node/signal/points.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index c97023b..c61ad75 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -39,6 +39,8 @@ impl Points {
     }
 
     pub fn span(self, span: f32) -> Self {
+        // without a written span the points are spread over one bar
+        let span = if span > 0. { span } else { 1. };
         Self { span, ..self }
     }
 
@@ -102,7 +104,7 @@ impl<const N: usize> Node<N> for Points {
             return;
         }
         let cycle_dur = 60. / self.bpm * 4.;
-        let bar_dur = (cycle_dur * self.span * self.sr as f32) as usize;
+        let bar_dur = ((cycle_dur * self.span * self.sr as f32) as usize).max(1);
 
         if !self.is_looping {
             for out in &mut *output[0] {
-- 
2.43.0


From 46811872eca3a21c9e5ba2d4985cc64300b6e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 31/90] fix: delayn delays both channels and accepts a delay of
 zero by message

The right channel of a stereo input was never written, and setting the
delay to zero panicked.
---
 rs/synth/src/node/delay/delayn.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rs/synth/src/node/delay/delayn.rs b/rs/synth/src/node/delay/delayn.rs
index f483daa..6175e91 100644
--- a/rs/synth/src/node/delay/delayn.rs
+++ b/rs/synth/src/node/delay/delayn.rs
@@ -6,6 +6,7 @@ type Fixed = ring_buffer::Fixed<Vec<f32>>;
 #[derive(Debug, Clone)]
 pub struct DelayN {
     buf: Fixed,
+    buf_right: Fixed,
     delay_n: usize,
     input_order: Vec<usize>,
 }
@@ -19,6 +20,7 @@ impl DelayN {
         };
         let buf = ring_buffer::Fixed::from(vec![0.0; init_n]);
         Self {
+            buf_right: buf.clone(),
             buf,
             delay_n,
             input_order: Vec::new(),
@@ -33,8 +35,10 @@ impl<const N: usize> Node<N> for DelayN {
             if self.delay_n != 0 {
                 for i in 0..N {
                     output[0][i] = self.buf.push(main_input.buffers()[0][i]);
-                    if main_input.buffers().len() == 1 && output.len() == 2 {
-                        output[1][i] = output[0][i];
+                    if output.len() == 2 {
+                        let right = main_input.buffers().get(1);
+                        let right = right.unwrap_or(&main_input.buffers()[0]);
+                        output[1][i] = self.buf_right.push(right[i]);
                     }
                 }
             } else {
@@ -62,8 +66,8 @@ impl<const N: usize> Node<N> for DelayN {
         match info {
             Message::SetToNumber(0, value) => {
                 self.delay_n = value as usize;
-                self.buf = Fixed::from(vec![0.0; self.delay_n]);
-                // buf2 = Fixed::from(vec![0.0; delay_n]);
+                self.buf = Fixed::from(vec![0.0; self.delay_n.max(1)]);
+                self.buf_right = self.buf.clone();
                 // self.buf.set_first(self.delay_n);
                 // self.buf2.set_first(delay_n);
             }
-- 
2.43.0


From 000d9f48071287d25e3fed2f549e37e00ccac1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 32/90] fix: delayms without an input is silent instead of a
 panic

---
 rs/synth/src/node/delay/delayms.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 119d67c..9629fe3 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -44,7 +44,9 @@ impl DelayMs {
 
 impl<const N: usize> Node<N> for DelayMs {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
-        let main_input = inputs.values().next().unwrap();
+        let Some(main_input) = inputs.values().next() else {
+            return;
+        };
         if !(1..=2).contains(&main_input.buffers().len()) {
             return;
         }
-- 
2.43.0


From 08ae02e0adb9e412bc5728726b676335c450899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 33/90] fix: delayms plays a mono input on both sides

The right channel stayed silent, and with a delay of zero it kept the
last block.
---
 rs/synth/src/node/delay/delayms.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 9629fe3..b0401dc 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -56,13 +56,17 @@ impl<const N: usize> Node<N> for DelayMs {
                 // no modulation
                 match self.delay_n {
                     // equal to a pass node
-                    0 => output[0].copy_from_slice(&main_input.buffers()[0]),
+                    0 => {
+                        for (out, main) in output.iter_mut().zip(main_input.buffers().iter().cycle()) {
+                            out.copy_from_slice(main);
+                        }
+                    }
                     _ => {
                         let iter = self
                             .buf
                             .iter_mut()
                             .zip(output.iter_mut())
-                            .zip(main_input.buffers());
+                            .zip(main_input.buffers().iter().cycle());
 
                         for ((fixed, out_buf), main_buf) in iter {
                             for (out, main) in out_buf.iter_mut().zip(main_buf.iter()) {
@@ -89,7 +93,7 @@ impl<const N: usize> Node<N> for DelayMs {
                         .buf
                         .iter_mut()
                         .zip(output.iter_mut())
-                        .zip(main_input.buffers());
+                        .zip(main_input.buffers().iter().cycle());
 
                     for ((fixed, out_buf), main_buf) in iter {
                         out_buf[i] = fixed.get(pos_int) * (1. - pos_frac)
-- 
2.43.0


From a583ff42e5e084fcfea540745fe2f5af15b89ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 34/90] fix: delayms can be set to a longer delay again after
 zero

A message with zero dropped the delay lines for good.
---
 rs/synth/src/node/delay/delayms.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index b0401dc..a78dd46 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -116,12 +116,8 @@ impl<const N: usize> Node<N> for DelayMs {
                 let delay_n = (value / 1000. * self.sr as f32) as usize;
                 self.delay_n = delay_n;
 
-                if delay_n == 0 {
-                    self.buf.clear();
-                } else {
-                    let chan = self.buf.len();
-                    self.buf = vec![Fixed::from(vec![0.0; delay_n]); chan];
-                };
+                let chan = self.buf.len();
+                self.buf = vec![Fixed::from(vec![0.0; delay_n.max(1)]); chan];
             }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
-- 
2.43.0


From a6062a0263d131eedaaf2bd5514e87dc73ac755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 35/90] fix: a very long modulated delay no longer hangs the
 engine

Adding the buffer length to a huge negative position never reached zero.
---
 rs/synth/src/node/delay/delayms.rs    | 6 ++----
 rs/synth/src/node/filter/apfmsgain.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index a78dd46..bab6fd7 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -82,10 +82,8 @@ impl<const N: usize> Node<N> for DelayMs {
 
                 let mod_buf = &mut ref_input.buffers();
                 for i in 0..N {
-                    let mut pos = -mod_buf[0][i] / 1000. * self.sr as f32;
-                    while pos < 0. {
-                        pos += self.buf[0].len() as f32;
-                    }
+                    let pos = -mod_buf[0][i] / 1000. * self.sr as f32;
+                    let pos = pos.rem_euclid(self.buf[0].len() as f32);
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index c4e9e10..24f08f3 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -75,10 +75,8 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
                     .zip(main_input.buffers()[0].iter())
                     .zip(ref_input.buffers()[0].iter())
                 {
-                    let mut pos = -mod_buf / 1000. * self.sr as f32;
-                    while pos < 0. {
-                        pos += self.bufx.len() as f32;
-                    }
+                    let pos = -mod_buf / 1000. * self.sr as f32;
+                    let pos = pos.rem_euclid(self.bufx.len() as f32);
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
-- 
2.43.0


From 49a019b1cea0cfb5678e6badb864a8bbabf508f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 36/90] fix: apfmsgain with a delay below one sample no longer
 panics

---
 rs/synth/src/node/filter/apfmsgain.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 24f08f3..ac7c1b5 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -34,6 +34,7 @@ impl AllPassFilterGain {
         } else {
             delay / 1000. * self.sr as f32
         } as usize;
+        let size = size.max(1);
         Self {
             bufx: ring_buffer::Fixed::from(vec![0.0; size]),
             bufy: ring_buffer::Fixed::from(vec![0.0; size]),
-- 
2.43.0


From 72c0c7c02ed4294b3cf93f92b19d410a9bf81585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 37/90] fix: pan without an input is silent instead of a panic

---
 rs/synth/src/node/effect/pan.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/effect/pan.rs b/rs/synth/src/node/effect/pan.rs
index 8bc11df..4a9573f 100644
--- a/rs/synth/src/node/effect/pan.rs
+++ b/rs/synth/src/node/effect/pan.rs
@@ -36,7 +36,7 @@ impl<const N: usize> Node<N> for Pan {
                 *left = left_gain * sample; // Left channel
                 *right = right_gain * sample; // Right channel
             }
-        } else {
+        } else if inputs.len() == 2 {
             let ref_input = &inputs[&self.input_order[1]]; // can panic if there is no id
             let main_input = &inputs[&self.input_order[0]]; // can panic if there is no id
 
-- 
2.43.0


From 5028277944617aa9417d40dc2a28328f1c894a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 38/90] fix: plate without an input is silent instead of a
 panic

---
 rs/synth/src/node/effect/plate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rs/synth/src/node/effect/plate.rs b/rs/synth/src/node/effect/plate.rs
index d63cab1..e97ca84 100644
--- a/rs/synth/src/node/effect/plate.rs
+++ b/rs/synth/src/node/effect/plate.rs
@@ -158,6 +158,9 @@ impl<const N: usize> Plate<N> {
 
 impl<const N: usize> Node<N> for Plate<N> {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
+        if inputs.is_empty() {
+            return;
+        }
         let main_input = inputs[&self.input_order[0]].buffers();
         self.context.graph[self.input].buffers[0] = main_input[0].clone();
         // self.context.graph[self.input].buffers[1] = main_input[1].clone();
-- 
2.43.0


From f64d60462b0145af674f2cc5101d48824dac83cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 39/90] fix: an impulse train faster than the sample rate no
 longer divides by zero

---
 rs/synth/src/node/signal/imp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/signal/imp.rs b/rs/synth/src/node/signal/imp.rs
index 1cbaa09..fd0ec68 100644
--- a/rs/synth/src/node/signal/imp.rs
+++ b/rs/synth/src/node/signal/imp.rs
@@ -25,7 +25,7 @@ impl Impulse {
         }
     }
     pub fn freq(self, freq: f32) -> Self {
-        let period = (self.sr as f32 / freq) as usize;
+        let period = ((self.sr as f32 / freq) as usize).max(1);
         Self { period, ..self }
     }
     pub fn sr(self, sr: usize) -> Self {
@@ -50,7 +50,9 @@ impl<const N: usize> Node<N> for Impulse {
 
     fn send_msg(&mut self, info: Message) {
         match info {
-            Message::SetToNumber(0, value) => self.period = (self.sr as f32 / value) as usize,
+            Message::SetToNumber(0, value) => {
+                self.period = ((self.sr as f32 / value) as usize).max(1)
+            }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             _ => {}
-- 
2.43.0


From a6ef11c3250b47c5122d1b7056cff2de7cf4858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 40/90] fix: patterns with a cycle shorter than one sample no
 longer divide by zero

---
 rs/synth/src/node/filter/rlpf.rs         | 2 +-
 rs/synth/src/node/sampling/psampler.rs   | 2 +-
 rs/synth/src/node/signal/constsig.rs     | 4 ++--
 rs/synth/src/node/synth/pattern_synth.rs | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 24f2a44..2933ee8 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -90,7 +90,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                 let main_input = inputs.values_mut().next().unwrap();
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     for event in &self.pattern {
-                        if (self.step % (bar_dur as usize))
+                        if (self.step % (bar_dur as usize).max(1))
                             == ((event.1 * cycle_dur * self.sr as f32) as usize)
                         {
                             self.cutoff = event.0
diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index 4f7564e..3dccf5f 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -55,7 +55,7 @@ impl<const N: usize> Node<N> for PSampler {
             // if input_buf[0][i] > 0.0 {
 
             for event in &self.pattern {
-                if (self.step % (bar_dur as usize))
+                if (self.step % (bar_dur as usize).max(1))
                     == ((event.1 * self.cycle_dur * self.sr as f32) as usize)
                 {
                     let pitch = 1.0;
diff --git a/rs/synth/src/node/signal/constsig.rs b/rs/synth/src/node/signal/constsig.rs
index 015d297..9b782bd 100644
--- a/rs/synth/src/node/signal/constsig.rs
+++ b/rs/synth/src/node/signal/constsig.rs
@@ -54,7 +54,7 @@ impl<const N: usize> Node<N> for ConstSig {
 
         for out in &mut *output[0] {
             for event in &self.events {
-                if (self.step % (bar_dur as usize))
+                if (self.step % (bar_dur as usize).max(1))
                     == ((event.1 * cycle_dur * self.sr as f32) as usize)
                 {
                     self.val = event.0
@@ -62,7 +62,7 @@ impl<const N: usize> Node<N> for ConstSig {
             }
 
             for event in &self.pattern {
-                if (self.step % (bar_dur as usize))
+                if (self.step % (bar_dur as usize).max(1))
                     == ((event.1 * cycle_dur * self.sr as f32) as usize)
                 {
                     self.val = event.0
diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index 2c7839e..9bb0063 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -63,7 +63,7 @@ impl<const N: usize> Node<N> for PatternSynth {
                 *out = 0.0;
 
                 for event in &self.events {
-                    if (self.step % (bar_length as usize))
+                    if (self.step % (bar_length as usize).max(1))
                         == ((event.0 * self.cycle_dur * self.sr as f32) as usize)
                     {
                         let midi = event.1;
-- 
2.43.0


From cc3966e3ba52796381108fd531a8916fc2980f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 41/90] fix: msgsynth ignores notes it cannot read

---
 rs/synth/src/node/synth/msgsynth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/synth/msgsynth.rs b/rs/synth/src/node/synth/msgsynth.rs
index 8a2eff2..abdb93d 100644
--- a/rs/synth/src/node/synth/msgsynth.rs
+++ b/rs/synth/src/node/synth/msgsynth.rs
@@ -161,9 +161,9 @@ impl<const N: usize> Node<N> for MsgSynth {
                         // estimate event_s "2.74343=>60"
                         // for event_s.split("=>");
                         if event_s.contains("=>") {
-                            let mut events = event_s.split("=>").map(|v| v.parse::<f32>().unwrap());
+                            let mut events = event_s.split("=>").map(|v| v.parse::<f32>());
 
-                            if let (Some(start), Some(end)) = (events.next(), events.next()) {
+                            if let (Some(Ok(start)), Some(Ok(end))) = (events.next(), events.next()) {
                                 let event_n = (start * self.sr as f32) as usize;
                                 self.events.push((event_n, end));
                             }
-- 
2.43.0


From 640a5394571f89c47bcee410e5a031595d9f3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 42/90] fix: msgsynth forgets the notes it has played

The list of notes grew with every message and was searched for every
sample.
---
 rs/synth/src/node/synth/msgsynth.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rs/synth/src/node/synth/msgsynth.rs b/rs/synth/src/node/synth/msgsynth.rs
index abdb93d..621c5e3 100644
--- a/rs/synth/src/node/synth/msgsynth.rs
+++ b/rs/synth/src/node/synth/msgsynth.rs
@@ -141,6 +141,9 @@ impl<const N: usize> Node<N> for MsgSynth {
             }
             self.step += 1;
         }
+        // what has been played will not be needed again
+        let step = self.step;
+        self.events.retain(|event| event.0 >= step);
     }
     fn send_msg(&mut self, info: Message) {
         match info {
-- 
2.43.0


From 2129975cb7c8fcd234f7cad606556754f4b1812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 43/90] fix: psynth ignores events it cannot read

---
 rs/main/src/util.rs                      | 6 +++---
 rs/synth/src/node/synth/pattern_synth.rs | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 2293e0a..3190ec9 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -103,13 +103,13 @@ pub fn makenode<const N: usize>(
             let pattern = symbol.replace('`', "");
             let events = pattern
                 .split(',')
-                .map(|event| {
+                .filter_map(|event| {
                     let mut result = event
                         .split(' ')
                         .filter(|x| !x.is_empty())
-                        .map(|x| x.replace(' ', "").parse::<f32>().unwrap());
+                        .map(|x| x.replace(' ', "").parse::<f32>().ok());
 
-                    (result.next().unwrap(), result.next().unwrap())
+                    Some((result.next()??, result.next()??))
                 })
                 .collect();
 
diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index 9bb0063..f287d5b 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -140,11 +140,12 @@ impl<const N: usize> Node<N> for PatternSynth {
                     let mut result = event
                         .split(' ')
                         .filter(|x| !x.is_empty())
-                        .map(|x| x.replace(' ', "").parse::<f32>().unwrap());
+                        .map(|x| x.replace(' ', "").parse::<f32>());
 
                     // println!("result {:?}", result);
-                    self.events
-                        .push((result.next().unwrap(), result.next().unwrap()));
+                    if let (Some(Ok(time)), Some(Ok(midi))) = (result.next(), result.next()) {
+                        self.events.push((time, midi));
+                    }
                 }
             }
             Message::SetRefOrder(ref_order) => {
-- 
2.43.0


From 4b6e96d8a017be42a3d84e7be6c9e6347a64fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 44/90] fix: eval code that cannot be evaluated is silent
 instead of a panic

This covers syntax errors, unknown variables, lines without an assignment
and a trailing semicolon.
---
 rs/synth/src/node/dynamic/eval.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/rs/synth/src/node/dynamic/eval.rs b/rs/synth/src/node/dynamic/eval.rs
index 617a6eb..769528c 100644
--- a/rs/synth/src/node/dynamic/eval.rs
+++ b/rs/synth/src/node/dynamic/eval.rs
@@ -69,19 +69,19 @@ impl<const N: usize> Eval<N> {
 
     fn apply_code(&mut self, code: &str) {
         let lines = code.split(';');
-        for line in lines {
+        for line in lines.filter(|line| !line.trim().is_empty()) {
             let mut slab = fasteval::Slab::new();
-            let mut assign = line.split(":=");
-            if line.contains(":=") {
-                self.var
-                    .push(assign.next().unwrap().replace([' ', '\t', '\n'], ""));
-            }
-            let compiled = self
-                .parser
-                .parse(assign.next().unwrap(), &mut slab.ps)
-                .unwrap()
-                .from(&slab.ps)
-                .compile(&slab.ps, &mut slab.cs);
+            // a line without a variable is stored under the empty name
+            let (var, expr) = line.split_once(":=").unwrap_or(("", line));
+            let Ok(parsed) = self.parser.parse(expr, &mut slab.ps) else {
+                // broken code is silent
+                self.var.clear();
+                self.slab.clear();
+                self.compiled.clear();
+                return;
+            };
+            let compiled = parsed.from(&slab.ps).compile(&slab.ps, &mut slab.cs);
+            self.var.push(var.replace([' ', '\t', '\n'], ""));
             self.slab.push(slab);
             self.compiled.push(compiled);
         }
@@ -90,6 +90,7 @@ impl<const N: usize> Eval<N> {
 
 impl<const N: usize> Node<N> for Eval<N> {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
+        output[0].silence();
         for i in 0..N {
             if !inputs.is_empty() {
                 self.map.insert(
@@ -104,10 +105,10 @@ impl<const N: usize> Node<N> for Eval<N> {
             for (j, ins) in self.compiled.iter().enumerate() {
                 // println!("i is {}", j);
                 if j < self.compiled.len() - 1 {
-                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap();
+                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap_or(0.0);
                     self.map.insert(self.var[j].clone(), v);
                 } else {
-                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap();
+                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap_or(0.0);
                     output[0][i] = v as f32;
                 }
             }
-- 
2.43.0


From c114f3a85c396aee25628da84ae7e8dbc1387a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 45/90] fix: refuse nodes the engine cannot play instead of a
 panic

reverb, expr, adc and bare events are accepted by the grammar, and trying
them in a live session ended it.
---
 rs/main/src/util.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 3190ec9..4dfc7f2 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -14,7 +14,7 @@ use glicol_synth::{
 
 use glicol_parser::{
     nodes::{self, Component, UsizeOrRef},
-    ToInnerOwned as _,
+    Rule, ToInnerOwned as _,
 };
 
 #[cfg(feature = "use-meta")]
@@ -44,7 +44,7 @@ pub fn makenode<const N: usize>(
         Component::PSampler(psampler) => {
             let mut samples_dict_selected = HashMap::new();
             let (pattern, span) = match psampler {
-                nodes::PSampler::Event(_) => panic!("An event inside PSampler is not yet supported; please file an issue if you encounter this"),
+                nodes::PSampler::Event(_) => return Err(unsupported(Rule::event)),
                 nodes::PSampler::Pattern(ref pat) => (&pat.event, pat.span)
             };
 
@@ -192,9 +192,7 @@ pub fn makenode<const N: usize>(
                         .sr(sr)
                         .to_boxed_nodedata(1)
                 }
-                nodes::Signal::Event(_) => {
-                    panic!("An event as a parameter to lpf is not currently supported")
-                }
+                nodes::Signal::Event(_) => return Err(unsupported(Rule::event)),
             };
             (data, reflist)
         }
@@ -407,15 +405,14 @@ pub fn makenode<const N: usize>(
                 reflist,
             )
         }
-        Component::Reverb(_) | Component::Expr(_) => {
-            panic!("{component:?} is currently not supported within the engine")
-        }
+        Component::Reverb(_) => return Err(unsupported(Rule::reverb)),
+        Component::Expr(_) => return Err(unsupported(Rule::expr)),
         #[cfg(not(feature = "use-samples"))]
         Component::Sp(_) | Component::PSampler(_) => {
             panic!("The `use-samples` feature is required to use the `sp` or `psampler` node")
         }
         #[cfg(not(feature = "bela"))]
-        Component::Adc(_) => panic!("The `bela` feature is required to use the `adc` node"),
+        Component::Adc(_) => return Err(unsupported(Rule::adc)),
         #[cfg(not(feature = "use-meta"))]
         Component::Meta(_) => panic!("The `use-meta` feature is required to use the `meta` node"),
         // "sendpass" => {
@@ -431,6 +428,17 @@ pub fn makenode<const N: usize>(
     Ok((nodedata, reflist))
 }
 
+/// The error for something that can be written but not (yet) played.
+fn unsupported(rule: Rule) -> EngineError {
+    EngineError::ParsingError(Box::new(pest::error::Error::new_from_pos(
+        pest::error::ErrorVariant::ParsingError {
+            positives: vec![],
+            negatives: vec![rule],
+        },
+        pest::Position::from_start(""),
+    )))
+}
+
 fn get_one_para_from_number_or_ref<const N: usize, T>(
     param: &nodes::NumberOrRef<&str>,
     channels: usize,
-- 
2.43.0


From 8b4987bd776e969264b2c20677a429f815e5b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 46/90] fix: do not register samples without a single frame

---
 rs/main/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index f8feff7..eadd908 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -146,6 +146,10 @@ impl<const N: usize> Engine<N> {
 
     #[cfg(feature = "use-samples")]
     pub fn add_sample(&mut self, name: &str, sample: &'static [f32], channels: usize, sr: usize) {
+        // without a complete frame there is nothing to play
+        if channels == 0 || sample.len() < channels {
+            return;
+        }
         self.samples_dict
             .insert(name.to_owned(), (sample, channels, sr));
     }
-- 
2.43.0


From 120674b43e48a669e6844dfa411fcdf96fa00a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 47/90] fix: spell the missing sample as it was written in the
 error text

---
 rs/main/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/main/src/error.rs b/rs/main/src/error.rs
index ff1257d..2cec439 100644
--- a/rs/main/src/error.rs
+++ b/rs/main/src/error.rs
@@ -29,7 +29,7 @@ impl std::fmt::Display for EngineError {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::ParsingError(err) => writeln!(f, "Parsing error: {err}"),
-            EngineError::NonExistSample(v) => writeln!(f, "There is no sample named {v}s"),
+            EngineError::NonExistSample(v) => writeln!(f, "There is no sample named {v}"),
             EngineError::NonExistReference(v) => writeln!(f, "There is no reference named {v}"),
         }
     }
-- 
2.43.0


From 5867c1a353d04902b4f18f740addc4a940a1be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:26 +0000
Subject: [PATCH 48/90] fix: samples can be added after a panic in the browser,
 like everything else

---
 rs/wasm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/wasm/src/lib.rs b/rs/wasm/src/lib.rs
index 2ce8723..d6b437b 100644
--- a/rs/wasm/src/lib.rs
+++ b/rs/wasm/src/lib.rs
@@ -30,7 +30,7 @@ pub fn process(size: usize) -> Vec<f32> {
 
 #[wasm_bindgen]
 pub fn add_sample(name: String, sample: Box<[f32]>, channels: usize, sr: usize) {
-    let mut engine = ENGINE.lock().unwrap();
+    let mut engine = get_engine();
     let leaked_sample = Box::leak(sample);
     engine.add_sample(&name, leaked_sample, channels, sr);
     // engine.update(code);
-- 
2.43.0


From 8d298691919e8bad9adb71128d7f3a44288f9713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:31 +0000
Subject: [PATCH 49/90] fix: keep the live input after a chain of the same name
 is removed

---
 rs/main/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index eadd908..c237eba 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -358,6 +358,13 @@ impl<const N: usize> Engine<N> {
             }
         };
 
+        // a chain named ~input may be gone now, but the live input is always there
+        if !self.index_info.contains_key("~input") {
+            let index = self.context.add_stereo_node(Pass {});
+            self.temp_node_index.push(index);
+            self.index_info.insert("~input".to_string(), vec![index]);
+        }
+
         // go through all the nodes that are
         while let Some((key, position_in_chain, nodedata)) = graph_diff.node_add_list.pop_front() {
             // TODO: save these id, if there is an error, remove these node
-- 
2.43.0


From 2d6000bcba9ab599a810db3d0f8f16b45879b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:40 +0000
Subject: [PATCH 50/90] fix: a message can change the delay of apfmsgain

---
 rs/synth/src/node/filter/apfmsgain.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index ac7c1b5..cf267f8 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -101,9 +101,9 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
         match info {
             Message::SetToNumber(pos, value) => match pos {
                 0 => {
-                    let delay_n = (value / 1000. * self.sr as f32) as usize;
-                    self.bufx.set_first(delay_n);
-                    self.bufy.set_first(delay_n);
+                    let delay_n = ((value / 1000. * self.sr as f32) as usize).max(1);
+                    self.bufx = ring_buffer::Fixed::from(vec![0.0; delay_n]);
+                    self.bufy = ring_buffer::Fixed::from(vec![0.0; delay_n]);
                 }
                 1 => self.gain = value,
                 _ => {}
-- 
2.43.0


From a138a6b7a25bae9d3ab9e7c4896ccb56c1592dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:25 +0000
Subject: [PATCH 51/90] fix: a mono sample in a pattern does not overwrite the
 right channel of the others

---
 rs/synth/src/node/sampling/psampler.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index 3dccf5f..d031ebe 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -75,7 +75,7 @@ impl<const N: usize> Node<N> for PSampler {
                     let sample = self.samples_dict[name];
                     match sample.1 {
                         1 => {
-                            output[0][i] += match pos {
+                            let value = match pos {
                                 x if x == 0.0 => sample.0[0],
                                 x if x == 1.0 => sample.0[sample.0.len() - 1],
                                 x if x > 0.0 && x < 1.0 => {
@@ -90,7 +90,8 @@ impl<const N: usize> Node<N> for PSampler {
                                 }
                                 _ => 0.0,
                             };
-                            output[1][i] = output[0][i];
+                            output[0][i] += value;
+                            output[1][i] += value;
                         }
                         2 => {
                             match pos {
-- 
2.43.0


From e2ef8358e30be98e45abd9a0ebd0a2c79cee4811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:25 +0000
Subject: [PATCH 52/90] fix: a pattern goes on when it meets a sample with more
 than two channels

---
 rs/synth/src/node/sampling/psampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index d031ebe..090305c 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -123,7 +123,7 @@ impl<const N: usize> Node<N> for PSampler {
                                 _ => {}
                             };
                         }
-                        _ => return,
+                        _ => {}
                     }
                 } else {
                     to_remove.push(count)
-- 
2.43.0


From 6dd503add0f80a0c048a8c5f68e8b35ec4815452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:24 +0000
Subject: [PATCH 53/90] fix: the spelling msg_synth is a node name and not a
 reference

---
 rs/parser/src/glicol.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/parser/src/glicol.pest b/rs/parser/src/glicol.pest
index 895543a..175fa42 100644
--- a/rs/parser/src/glicol.pest
+++ b/rs/parser/src/glicol.pest
@@ -109,7 +109,7 @@ integer = ${ ("+" | "-")? ~(ASCII_DIGIT)+ ~ !"." }
 WHITESPACE = _{" "|","|"|"|"\t"}
 ws = _{" "|","|"|"|"\t"|"\n"}
 
-node_name = ${"reverb"|"arrange"|"adsr"|"sig"|"psampler"|"synth"|"msgsynth"|"psynth"|"p_synth"|"pattern_synth"|
+node_name = ${"reverb"|"arrange"|"adsr"|"sig"|"psampler"|"synth"|"msgsynth"|"msg_synth"|"psynth"|"p_synth"|"pattern_synth"|
 "bd"|"sn"|"hh"|"squsynth"|"trisynth"|"seq"|"speed"|"choose"|"mul"|"add"|
 "linrange"|"apfdecay"|"delayn"|"delaymod"|"expr"|"eval"|
 "sin"|"squ"|"imp"|"envperc"|"sampler"|"noiz"|"lpf"|"plate"|"onepole"|
-- 
2.43.0


From db835866e0a222aa6f9da5508fa62214a1d84d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:24 +0000
Subject: [PATCH 54/90] fix: psynth without a written span uses one bar

---
 rs/parser/src/nodes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 1e8ae06..6746e7a 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -868,7 +868,7 @@ impl<'ast> Node<'ast> for PatternSynth<'ast> {
             .ok_or_else(|| end_span.to_err_with_positives([Rule::symbol]))?
             .as_str();
 
-        let span = pairs.next_parsed(end_span)?;
+        let span = pairs.next().map_or(Ok(1.), |r| r.try_to_parse())?;
         Ok(Self { symbol, span })
     }
 }
-- 
2.43.0


From 7797f9918ac5d4464ecdf9b036425847f110cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:43 +0000
Subject: [PATCH 55/90] fix: envperc with an enormous attack no longer
 overflows

---
 rs/synth/src/node/envelope/envperc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/envelope/envperc.rs b/rs/synth/src/node/envelope/envperc.rs
index 52f02fc..ff8e80f 100644
--- a/rs/synth/src/node/envelope/envperc.rs
+++ b/rs/synth/src/node/envelope/envperc.rs
@@ -47,7 +47,7 @@ impl<const N: usize> Node<N> for EnvPerc {
         if inputs.len() == 1 {
             let attack_len = (self.attack * self.sr as f32) as usize;
             let decay_len = (self.decay * self.sr as f32) as usize;
-            let dur = attack_len + decay_len;
+            let dur = attack_len.saturating_add(decay_len);
             let buf = &mut inputs[&self.input_order[0]].buffers();
 
             for (input, out) in buf[0].iter().zip(output[0].iter_mut()) {
-- 
2.43.0


From a687109de05cbd506c0df9ea65a599540a7e7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:43 +0000
Subject: [PATCH 56/90] fix: noise with the largest seed no longer overflows

---
 rs/synth/src/node/signal/noise.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/signal/noise.rs b/rs/synth/src/node/signal/noise.rs
index fc16335..e516a37 100644
--- a/rs/synth/src/node/signal/noise.rs
+++ b/rs/synth/src/node/signal/noise.rs
@@ -11,7 +11,8 @@ pub struct Noise {
 impl Noise {
     pub fn new(seed: usize) -> Self {
         Self {
-            sig: Box::new(signal::noise(seed as u64)),
+            // the generator counts up from the seed, so leave it some room
+            sig: Box::new(signal::noise(seed as u32 as u64)),
             input_order: Vec::new(),
         }
     }
@@ -25,7 +26,9 @@ impl<const N: usize> Node<N> for Noise {
     }
     fn send_msg(&mut self, info: Message) {
         match info {
-            Message::SetToNumber(0, value) => self.sig = Box::new(signal::noise(value as u64)),
+            Message::SetToNumber(0, value) => {
+                self.sig = Box::new(signal::noise(value as u32 as u64))
+            }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             _ => {}
-- 
2.43.0


From c348b9e54843d040d175b621b66d9b035368ca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:20 +0000
Subject: [PATCH 57/90] fix: choose with the largest seed no longer overflows

---
 rs/synth/src/node/sequencer/choose.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/sequencer/choose.rs b/rs/synth/src/node/sequencer/choose.rs
index 3c957e0..15c34f6 100644
--- a/rs/synth/src/node/sequencer/choose.rs
+++ b/rs/synth/src/node/sequencer/choose.rs
@@ -11,7 +11,8 @@ pub struct Choose {
 impl Choose {
     pub fn new(note_list: Vec<f32>, seed: u64) -> Self {
         Self {
-            sig: Box::new(signal::noise(seed)),
+            // the generator counts up from the seed, so leave it some room
+            sig: Box::new(signal::noise(seed as u32 as u64)),
             note_list,
             input_order: Vec::new(),
         }
-- 
2.43.0


From c250365a612d7b6f7ef4f1faed654179fa48da05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:47 +0000
Subject: [PATCH 58/90] fix: adsr with an enormous decay no longer overflows

---
 rs/synth/src/node/envelope/adsr.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/envelope/adsr.rs b/rs/synth/src/node/envelope/adsr.rs
index b96f06e..91cb5b0 100644
--- a/rs/synth/src/node/envelope/adsr.rs
+++ b/rs/synth/src/node/envelope/adsr.rs
@@ -67,6 +67,7 @@ impl<const N: usize> Node<N> for Adsr {
         if inputs.len() == 1 {
             let attack_len = (self.attack * self.sr as f32) as usize;
             let decay_len = (self.decay * self.sr as f32) as usize;
+            let dur = attack_len.saturating_add(decay_len);
             let release_len = (self.release * self.sr as f32) as usize;
 
             let buf = &mut inputs[&self.input_order[0]].buffers();
@@ -99,13 +100,13 @@ impl<const N: usize> Node<N> for Adsr {
                                     * (1.0 - self.state_change_y)
                                     + self.state_change_y;
                             }
-                        } else if self.pos > attack_len && self.pos <= attack_len + decay_len {
+                        } else if self.pos > attack_len && self.pos <= dur {
                             // decay phase
                             if decay_len == 0 {
                                 // special case
                                 *out = self.sustain;
                             } else {
-                                *out = (attack_len + decay_len - self.pos) as f32
+                                *out = (dur - self.pos) as f32
                                     / decay_len as f32
                                     * (1. - self.sustain)
                                     + self.sustain;
-- 
2.43.0


From c48d2e480082e4800c98751c6ed812c85a8c3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:55 +0000
Subject: [PATCH 59/90] fix: the ring buffer reports an empty ring as having
 nothing to read

---
 js/npm/ringbuf.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/ringbuf.js b/js/npm/ringbuf.js
index 38e040a..e87ca7a 100644
--- a/js/npm/ringbuf.js
+++ b/js/npm/ringbuf.js
@@ -162,7 +162,7 @@ export class RingBuffer {
     // private methods //
     // Number of elements available for reading, given a read and write pointer..
     _available_read(rd, wr) {
-    if (wr > rd) {
+    if (wr >= rd) {
         return wr - rd;
     } else {
         return wr + this._storage_capacity() - rd;
-- 
2.43.0


From 805fe15ec4034197a755f90d36f9dcaa295920dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:55 +0000
Subject: [PATCH 60/90] fix: the ring buffer pop leaves the rest of the
 caller's array alone

---
 js/npm/ringbuf.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/ringbuf.js b/js/npm/ringbuf.js
index e87ca7a..e06601b 100644
--- a/js/npm/ringbuf.js
+++ b/js/npm/ringbuf.js
@@ -115,7 +115,7 @@ export class RingBuffer {
     var wr = Atomics.load(this.write_ptr, 0);
     if (wr == rd) {return 0;}
     let to_read = Math.min(this._available_read(rd, wr), elements.length);
-    let first_part = Math.min(this._storage_capacity() - rd, elements.length);
+    let first_part = Math.min(this._storage_capacity() - rd, to_read);
     let second_part = to_read - first_part;
     this._copy(this.storage, rd, elements, 0, first_part);
     this._copy(this.storage, 0, elements, first_part, second_part);
-- 
2.43.0


From 85226f7974080ebe1ed47c8266e70d51ce932d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:55 +0000
Subject: [PATCH 61/90] fix: the ring buffer says full when it is full

---
 js/npm/ringbuf.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/ringbuf.js b/js/npm/ringbuf.js
index e06601b..4c63b1e 100644
--- a/js/npm/ringbuf.js
+++ b/js/npm/ringbuf.js
@@ -135,7 +135,7 @@ export class RingBuffer {
     var rd = Atomics.load(this.read_ptr, 0);
     var wr = Atomics.load(this.write_ptr, 0);
 
-    return (wr + 1) % this.capacity != rd;
+    return (wr + 1) % this.capacity == rd;
     }
     // The usable capacity for the ring buffer: the number of elements that can be
     // stored.
-- 
2.43.0


From 36ef6af1f5bc0d005680e948a1977bb394f68c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:17 +0000
Subject: [PATCH 62/90] fix: close the code block written by the psynth builder

---
 js/npm/nodechain.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/nodechain.js b/js/npm/nodechain.js
index 2abb9a4..952f0e6 100644
--- a/js/npm/nodechain.js
+++ b/js/npm/nodechain.js
@@ -49,7 +49,7 @@ export function seq(str) {
 
 export function psynth(str, span) {
   if (!isNaN(span)) {
-    return new NodeChain(`p_synth \`${str} ${span}`)
+    return new NodeChain(`p_synth \`${str}\` ${span}`)
   }
 }
 
-- 
2.43.0


From 6e89baabc140a162937d4d1916b168e353fe1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:34 +0000
Subject: [PATCH 63/90] fix: nodes that ignore their inputs forget the old
 inputs on every update

---
 rs/synth/src/node/compound/bd.rs       | 1 +
 rs/synth/src/node/compound/hh.rs       | 1 +
 rs/synth/src/node/compound/sawsynth.rs | 1 +
 rs/synth/src/node/compound/sn.rs       | 1 +
 rs/synth/src/node/compound/squsynth.rs | 1 +
 rs/synth/src/node/compound/trisynth.rs | 1 +
 rs/synth/src/node/signal/constsig.rs   | 1 +
 rs/synth/src/node/signal/imp.rs        | 1 +
 rs/synth/src/node/signal/noise.rs      | 1 +
 rs/synth/src/node/signal/points.rs     | 1 +
 10 files changed, 10 insertions(+)

diff --git a/rs/synth/src/node/compound/bd.rs b/rs/synth/src/node/compound/bd.rs
index 9c62790..f6374af 100644
--- a/rs/synth/src/node/compound/bd.rs
+++ b/rs/synth/src/node/compound/bd.rs
@@ -72,6 +72,7 @@ impl<const N: usize> Node<N> for Bd<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/hh.rs b/rs/synth/src/node/compound/hh.rs
index 5be4453..d06c852 100644
--- a/rs/synth/src/node/compound/hh.rs
+++ b/rs/synth/src/node/compound/hh.rs
@@ -65,6 +65,7 @@ impl<const N: usize> Node<N> for Hh<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/sawsynth.rs b/rs/synth/src/node/compound/sawsynth.rs
index f6a462c..769c45d 100644
--- a/rs/synth/src/node/compound/sawsynth.rs
+++ b/rs/synth/src/node/compound/sawsynth.rs
@@ -72,6 +72,7 @@ impl<const N: usize> Node<N> for SawSynth<N> {
             },
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/sn.rs b/rs/synth/src/node/compound/sn.rs
index 8bb0813..cb583fc 100644
--- a/rs/synth/src/node/compound/sn.rs
+++ b/rs/synth/src/node/compound/sn.rs
@@ -81,6 +81,7 @@ impl<const N: usize> Node<N> for Sn<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/squsynth.rs b/rs/synth/src/node/compound/squsynth.rs
index 3a2c767..82ab19a 100644
--- a/rs/synth/src/node/compound/squsynth.rs
+++ b/rs/synth/src/node/compound/squsynth.rs
@@ -60,6 +60,7 @@ impl<const N: usize> Node<N> for SquSynth<N> {
 
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/trisynth.rs b/rs/synth/src/node/compound/trisynth.rs
index 1392b33..5a015e8 100644
--- a/rs/synth/src/node/compound/trisynth.rs
+++ b/rs/synth/src/node/compound/trisynth.rs
@@ -60,6 +60,7 @@ impl<const N: usize> Node<N> for TriSynth<N> {
 
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/constsig.rs b/rs/synth/src/node/signal/constsig.rs
index 9b782bd..2d084e1 100644
--- a/rs/synth/src/node/signal/constsig.rs
+++ b/rs/synth/src/node/signal/constsig.rs
@@ -83,6 +83,7 @@ impl<const N: usize> Node<N> for ConstSig {
             Message::SetBPM(bpm) => self.bpm = bpm,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/imp.rs b/rs/synth/src/node/signal/imp.rs
index fd0ec68..b387e8f 100644
--- a/rs/synth/src/node/signal/imp.rs
+++ b/rs/synth/src/node/signal/imp.rs
@@ -55,6 +55,7 @@ impl<const N: usize> Node<N> for Impulse {
             }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/noise.rs b/rs/synth/src/node/signal/noise.rs
index e516a37..90296e8 100644
--- a/rs/synth/src/node/signal/noise.rs
+++ b/rs/synth/src/node/signal/noise.rs
@@ -31,6 +31,7 @@ impl<const N: usize> Node<N> for Noise {
             }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index c61ad75..604efcd 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -170,6 +170,7 @@ impl<const N: usize> Node<N> for Points {
             Message::SetBPM(bpm) => self.bpm = bpm,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
-- 
2.43.0


From 95c5734e97ec772bcf6e220dc723d4013db39302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:07 +0000
Subject: [PATCH 64/90] fix: pass messages on to a boxed node

A node wrapped in a Box was processed but never saw its messages, so it
did not know its inputs and could not be controlled.
---
 rs/synth/src/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/mod.rs b/rs/synth/src/node/mod.rs
index 2e59686..4c96b42 100644
--- a/rs/synth/src/node/mod.rs
+++ b/rs/synth/src/node/mod.rs
@@ -116,7 +116,9 @@ where
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         (**self).process(inputs, output)
     }
-    fn send_msg(&mut self, _info: crate::Message) {}
+    fn send_msg(&mut self, info: crate::Message) {
+        (**self).send_msg(info)
+    }
 }
 
 impl<const N: usize> Node<N> for dyn Fn(&HashMap<usize, Input<N>>, &mut [Buffer<N>]) {
-- 
2.43.0


From 8866813d320441e43bfa31b05b299f089e88476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:19 +0000
Subject: [PATCH 65/90] fix: forget the tags of a context when it is reset

They named nodes that no longer exist.
---
 rs/synth/src/context.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/synth/src/context.rs b/rs/synth/src/context.rs
index cfb72dd..4f11efa 100644
--- a/rs/synth/src/context.rs
+++ b/rs/synth/src/context.rs
@@ -123,6 +123,7 @@ impl<const N: usize> AudioContext<N> {
     pub fn reset(&mut self) {
         // self.graph.clear_edges();
         self.graph.clear();
+        self.tags.clear();
         self.destination = self.graph.add_node(NodeData::multi_chan_node(
             self.config.channels,
             BoxedNodeSend::<N>::new(Sum2),
-- 
2.43.0


From 4edfc58cd27a2067a0a027c181bffab40f806846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:19 +0000
Subject: [PATCH 66/90] fix: tell the nodes of a chain about their inputs in
 add_node_chain

The nodes were connected but not told the order of their inputs, so a node
that looks up its first input panicked in the next block.
---
 rs/synth/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/context.rs b/rs/synth/src/context.rs
index 4f11efa..c778397 100644
--- a/rs/synth/src/context.rs
+++ b/rs/synth/src/context.rs
@@ -239,7 +239,7 @@ impl<const N: usize> AudioContext<N> {
 
         let j = v
             .windows(2)
-            .map(|pair| self.graph.add_edge(pair[0], pair[1], ()))
+            .map(|pair| self.connect(pair[0], pair[1]))
             .collect();
 
         (v, j)
-- 
2.43.0


From 1fc8b84540bad2a3b2cfc2005a04136432125a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:19 +0000
Subject: [PATCH 67/90] fix: keep the rate of an impulse when the sample rate
 is set after it

---
 rs/synth/src/node/signal/imp.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/signal/imp.rs b/rs/synth/src/node/signal/imp.rs
index b387e8f..6773856 100644
--- a/rs/synth/src/node/signal/imp.rs
+++ b/rs/synth/src/node/signal/imp.rs
@@ -5,6 +5,7 @@ use hashbrown::HashMap;
 pub struct Impulse {
     clock: usize,
     period: usize,
+    freq: f32,
     sr: usize,
     input_order: Vec<usize>,
 }
@@ -20,16 +21,23 @@ impl Impulse {
         Self {
             clock: 0,
             period: 44100,
+            freq: 1.0,
             sr: 44100,
             input_order: Vec::new(),
         }
     }
     pub fn freq(self, freq: f32) -> Self {
         let period = ((self.sr as f32 / freq) as usize).max(1);
-        Self { period, ..self }
+        Self {
+            period,
+            freq,
+            ..self
+        }
     }
     pub fn sr(self, sr: usize) -> Self {
-        Self { sr, ..self }
+        // the period is in samples
+        let freq = self.freq;
+        Self { sr, ..self }.freq(freq)
     }
 }
 
-- 
2.43.0


From 47d78f4ca71a037acf812e59c97264f094f3eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:19 +0000
Subject: [PATCH 68/90] fix: keep the time of a delay when the sample rate is
 set after it

---
 rs/synth/src/node/delay/delayms.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index bab6fd7..2f20016 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -8,6 +8,7 @@ pub struct DelayMs {
     sr: usize,
     input_order: Vec<usize>,
     delay_n: usize,
+    delay_ms: f32,
 }
 
 impl Default for DelayMs {
@@ -21,6 +22,7 @@ impl DelayMs {
         Self {
             buf: vec![],
             delay_n: 1,
+            delay_ms: 0.0,
             sr: 44100,
             input_order: vec![],
         }
@@ -33,12 +35,15 @@ impl DelayMs {
         Self {
             buf,
             delay_n,
+            delay_ms: delay,
             ..self
         }
     }
 
     pub fn sr(self, sr: usize) -> Self {
-        Self { sr, ..self }
+        // the buffers are as long as the delay is in samples
+        let (delay, chan) = (self.delay_ms, self.buf.len() as u8);
+        Self { sr, ..self }.delay(delay, chan)
     }
 }
 
-- 
2.43.0


From 6a778f56a56616987bc211bfa32473e4f668ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:19 +0000
Subject: [PATCH 69/90] fix: keep the time of an all-pass filter when the
 sample rate is set after it

---
 rs/synth/src/node/filter/apfmsgain.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index cf267f8..479c73e 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -5,6 +5,7 @@ type Fixed = ring_buffer::Fixed<Vec<f32>>;
 
 pub struct AllPassFilterGain {
     gain: f32,
+    delay: Option<f32>,
     bufx: Fixed,
     bufy: Fixed,
     sr: usize,
@@ -21,6 +22,7 @@ impl AllPassFilterGain {
     pub fn new() -> Self {
         Self {
             gain: 0.5,
+            delay: None,
             sr: 44100,
             bufx: ring_buffer::Fixed::from(vec![0.0]),
             bufy: ring_buffer::Fixed::from(vec![0.0]),
@@ -38,6 +40,7 @@ impl AllPassFilterGain {
         Self {
             bufx: ring_buffer::Fixed::from(vec![0.0; size]),
             bufy: ring_buffer::Fixed::from(vec![0.0; size]),
+            delay: Some(delay),
             ..self
         }
     }
@@ -47,7 +50,13 @@ impl AllPassFilterGain {
     }
 
     pub fn sr(self, sr: usize) -> Self {
-        Self { sr, ..self }
+        // the buffers are as long as the delay is in samples
+        let delay = self.delay;
+        let node = Self { sr, ..self };
+        match delay {
+            Some(delay) => node.delay(delay),
+            None => node,
+        }
     }
 }
 
-- 
2.43.0


From 39df2d52c0dc50204638d2f3eb6562e099b5080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:29 +0000
Subject: [PATCH 70/90] fix: place the points of a curve by the tempo, rate and
 span it ends up with

Setting any of them after the points was ignored.
---
 rs/synth/src/node/signal/points.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index 604efcd..69520d4 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -12,6 +12,7 @@ pub struct Points {
     step: usize,
     _index: usize,
     is_looping: bool,
+    points: Vec<(TimeList, f32)>, // as written
     input_order: Vec<usize>,
 }
 
@@ -34,6 +35,7 @@ impl Points {
             step: 0,
             _index: 0,
             is_looping: false,
+            points: vec![],
             input_order: vec![],
         }
     }
@@ -41,7 +43,7 @@ impl Points {
     pub fn span(self, span: f32) -> Self {
         // without a written span the points are spread over one bar
         let span = if span > 0. { span } else { 1. };
-        Self { span, ..self }
+        Self { span, ..self }.place_points()
     }
 
     pub fn is_looping(self, is_looping: bool) -> Self {
@@ -49,19 +51,26 @@ impl Points {
     }
 
     pub fn bpm(self, bpm: f32) -> Self {
-        Self { bpm, ..self }
+        Self { bpm, ..self }.place_points()
     }
 
     pub fn sr(self, sr: usize) -> Self {
-        Self { sr, ..self }
+        Self { sr, ..self }.place_points()
     }
 
     pub fn points(self, points: Vec<(TimeList, f32)>) -> Self {
-        let bpm = self.bpm;
-        let sr = self.sr;
-        let span = self.span;
-        let point_list = self.make_point_list(points, bpm, sr, span);
-        Self { point_list, ..self }
+        Self { points, ..self }.place_points()
+    }
+
+    /// the places of the points depend on the tempo, the sample rate and the span
+    fn place_points(mut self) -> Self {
+        self.update_point_list();
+        self
+    }
+
+    fn update_point_list(&mut self) {
+        let points = self.points.clone();
+        self.point_list = self.make_point_list(points, self.bpm, self.sr, self.span);
     }
 
     fn make_point_list(
@@ -156,7 +165,8 @@ impl<const N: usize> Node<N> for Points {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetParam(0, GlicolPara::Points(time_list)) => {
-                self.point_list = self.make_point_list(time_list, self.bpm, self.sr, self.span);
+                self.points = time_list;
+                self.update_point_list();
                 self.step = 0;
             }
             Message::SetToNumber(1, num) => {
-- 
2.43.0


From 7c96af477028fa055a52f7e3e6f6742af1524626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:33 +0000
Subject: [PATCH 71/90] fix: let curves follow the tempo

The points stayed where they were at the old tempo while the length of a
round followed the new one, so a looping curve was cut off or stretched.
---
 rs/synth/src/node/signal/points.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index 69520d4..87348a5 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -171,13 +171,17 @@ impl<const N: usize> Node<N> for Points {
             }
             Message::SetToNumber(1, num) => {
                 self.span = num;
+                self.update_point_list();
                 self.step = 0;
             }
             Message::SetToBool(2, b) => {
                 self.is_looping = b;
                 self.step = 0;
             }
-            Message::SetBPM(bpm) => self.bpm = bpm,
+            Message::SetBPM(bpm) => {
+                self.bpm = bpm;
+                self.update_point_list();
+            }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => self.input_order.clear(),
-- 
2.43.0


From 0b378540ea1294081d6fb7c93389ced6c5d94e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:39 +0000
Subject: [PATCH 72/90] fix: show the error of a text given to run in the npm
 package

---
 js/npm/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index 5ba9611..45c7ba3 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -162,6 +162,7 @@ class Engine {
     }
     run(code) {
 
+      this.code = code
       this.audioContext.resume()
       if (isSharedArrayBufferSupported) {
         // console.log("isSharedArrayBufferSupported", isSharedArrayBufferSupported);
@@ -219,7 +220,6 @@ class Engine {
         code += obj[key].code + ";\n\n"
       }
       console.log(code)
-      this.code = code
       this.run(code)
     }
 
-- 
2.43.0


From d87a0b02c93b37e85d80ebdd5353e963f1c21188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:39 +0000
Subject: [PATCH 73/90] fix: show errors whose list of rules was cut off

---
 js/npm/index.js  | 2 +-
 js/src/glicol.js | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index 45c7ba3..bc3ff83 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -115,7 +115,7 @@ class Engine {
                   let line = parseInt(info.split("line[")[1].split("]")[0])
                   let col = parseInt(info.split("col[")[1].split("]")[0])
                   let positives = info.split("positives[")[1].split("]")[0].replace("EOI", "END OF INPUT").split(",").join(" ||")
-                  let negatives = info.split("negatives[")[1].split("]")[0].split(",").join(" or")
+                  let negatives = (info.split("negatives[")[1] ?? "").split("]")[0].split(",").join(" or")
                   console.log(`%cError at line ${line}`, "background: #3b82f6; color:white; font-weight: bold")
                   let errline = this.code.split("\n")[line-1];
                   let styleErrLine = errline.slice(0, col-1) + "%c %c" + errline.slice(col-1);
diff --git a/js/src/glicol.js b/js/src/glicol.js
index 6883d60..bad5b4e 100644
--- a/js/src/glicol.js
+++ b/js/src/glicol.js
@@ -91,7 +91,7 @@ window.loadModule = async () => {
           let line = parseInt(info.split("line[")[1].split("]")[0])
           let col = parseInt(info.split("col[")[1].split("]")[0])
           let positives = info.split("positives[")[1].split("]")[0].replace("EOI", "END OF INPUT").split(",").join(" ||")
-          let negatives = info.split("negatives[")[1].split("]")[0].split(",").join(" or")
+          let negatives = (info.split("negatives[")[1] ?? "").split("]")[0].split(",").join(" or")
           log(`%cError at line ${line}`, "background: #3b82f6; color:white; font-weight: bold")
           let errline = window.code.split("\n")[line-1];
           let styleErrLine = errline.slice(0, col-1) + "%c %c" + errline.slice(col-1);
-- 
2.43.0


From 5d1366cc382b2ed228e73d19ed0927cc4a1d4657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:39 +0000
Subject: [PATCH 74/90] fix: keep samples and their names when they come before
 the engine in the npm package

---
 js/npm/index.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index bc3ff83..e1744d9 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -94,7 +94,7 @@ class Engine {
                       sample: sample,
                       channels: buffer.numberOfChannels,
                       length: buffer.length,
-                      name: encoder.encode("\\"+ key.replace("-","_")),
+                      name: this.encoder.encode("\\"+ key),
                       sr: buffer.sampleRate
                     })
                   }
@@ -333,7 +333,8 @@ class Engine {
           .then(arrayBuffer => {
               this.audioContext.decodeAudioData(arrayBuffer, buffer => {
                   // log(new Int16Array(buffer.getChannelData(0).buffer))
-                  this.sampleBuffers[name] = buffer
+                  let key = name.replaceAll("-","_")
+                  this.sampleBuffers[key] = buffer
                   var sample;
                   if (buffer.numberOfChannels === 1) {
                     sample = buffer.getChannelData(0);
@@ -349,7 +350,7 @@ class Engine {
                     sample: sample,
                     channels: buffer.numberOfChannels,
                     length: buffer.length,
-                    name: this.encoder.encode("\\"+ name.replace("-","_")),
+                    name: this.encoder.encode("\\"+ key),
                     sr: buffer.sampleRate
                   })
               }, function(e){ console.log("Error with decoding audio data" + e.err + name); })
-- 
2.43.0


From b2b294441b93ff8f981e141d30f9aa8dd4ef5fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:39 +0000
Subject: [PATCH 75/90] fix: keep the names of samples when the page starts
 again

---
 js/src/glicol.js | 2 +-
 js/src/utils.js  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/js/src/glicol.js b/js/src/glicol.js
index bad5b4e..6d293a8 100644
--- a/js/src/glicol.js
+++ b/js/src/glicol.js
@@ -75,7 +75,7 @@ window.loadModule = async () => {
               type: "loadsample",
               sample: sample,
               channels: buffer.numberOfChannels,
-              name: "\\"+ key.replace("-","_"),
+              name: "\\"+ key,
               sr: buffer.sampleRate
             })
           }
diff --git a/js/src/utils.js b/js/src/utils.js
index 5080e41..f5cac81 100644
--- a/js/src/utils.js
+++ b/js/src/utils.js
@@ -155,7 +155,8 @@ window.loadSamples = async () => {
         .then(arrayBuffer => {
             window.actx.decodeAudioData(arrayBuffer, buffer => {
                 // log(new Int16Array(buffer.getChannelData(0).buffer))
-                window.sampleBuffers[name] = buffer
+                let key = name.replaceAll("-","_")
+                window.sampleBuffers[key] = buffer
                 var sample;
                 if (buffer.numberOfChannels === 1) {
                   sample = buffer.getChannelData(0);
@@ -171,7 +172,7 @@ window.loadSamples = async () => {
                   sample: sample,
                   channels: buffer.numberOfChannels,
                   length: buffer.length,
-                  name: "\\"+ name.replace("-","_"),
+                  name: "\\"+ key,
                   sr: buffer.sampleRate
                 })
             }, function(e){ log("Error with decoding audio data" + e.err + name); })
-- 
2.43.0


From 36af98fc38edfc0e47cb6becd1fdff65fdb15752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:39 +0000
Subject: [PATCH 76/90] fix: keep texts apart in the code queue of the npm
 package, also empty ones

---
 js/npm/glicol-engine.js | 11 +++++++----
 js/npm/index.js         |  7 +++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/js/npm/glicol-engine.js b/js/npm/glicol-engine.js
index 834b6be..9e4c8e5 100644
--- a/js/npm/glicol-engine.js
+++ b/js/npm/glicol-engine.js
@@ -125,10 +125,13 @@ class GlicolEngine extends AudioWorkletProcessor {
         if (this.useSAB) {
           let size = this._code_reader.dequeue(this._codeArray)
           if (size) {
-              let codeUint8ArrayPtr = this._wasm.exports.alloc_uint8array(size);
-              let codeUint8Array = new Uint8Array(this._wasm.exports.memory.buffer, codeUint8ArrayPtr, size);
-              codeUint8Array.set(this._codeArray.slice(0, size), "this._codeArray.slice(0, size)");
-              this._wasm.exports.update(codeUint8ArrayPtr, size)
+              // every text ends with a zero, and the latest one counts
+              let start = size > 1 ? this._codeArray.lastIndexOf(0, size - 2) + 1 : 0
+              let code = this._codeArray.slice(start, size - 1)
+              let codeUint8ArrayPtr = this._wasm.exports.alloc_uint8array(code.length);
+              let codeUint8Array = new Uint8Array(this._wasm.exports.memory.buffer, codeUint8ArrayPtr, code.length);
+              codeUint8Array.set(code);
+              this._wasm.exports.update(codeUint8ArrayPtr, code.length)
           }
           let size2 = this._param_reader.dequeue(this._paramArray)
           if (size2) {
diff --git a/js/npm/index.js b/js/npm/index.js
index e1744d9..1aebf68 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -166,8 +166,11 @@ class Engine {
       this.audioContext.resume()
       if (isSharedArrayBufferSupported) {
         // console.log("isSharedArrayBufferSupported", isSharedArrayBufferSupported);
-        if (this.codeWriter.available_write()) {
-          this.codeWriter.enqueue(this.encoder.encode(code))
+        let bytes = this.encoder.encode(code + "\0") // the zero ends the text
+        if (this.codeWriter.available_write() >= bytes.length) {
+          this.codeWriter.enqueue(bytes)
+        } else {
+          console.warn("The code does not fit the queue.")
         }
       } else {
         this.node.port.postMessage({
-- 
2.43.0


From df103bcbae2ac4da41dd9059e9b9524c1c37e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:39 +0000
Subject: [PATCH 77/90] fix: do not cut texts of more than 2048 bytes in the
 npm package

---
 js/npm/glicol-engine.js | 2 +-
 js/npm/index.js         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/npm/glicol-engine.js b/js/npm/glicol-engine.js
index 9e4c8e5..110b0c2 100644
--- a/js/npm/glicol-engine.js
+++ b/js/npm/glicol-engine.js
@@ -8,7 +8,7 @@ class GlicolEngine extends AudioWorkletProcessor {
     }
     constructor(options) {
         super(options)
-        this._codeArray = new Uint8Array(2048);
+        this._codeArray = new Uint8Array(65536);
         this._paramArray = new Uint8Array(2048);
         const isLiveCoding = options.processorOptions.isLiveCoding;
         // console.log("options.isLiveCoding", options.processorOptions.isLiveCoding);
diff --git a/js/npm/index.js b/js/npm/index.js
index 1aebf68..2c74ba4 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -44,7 +44,7 @@ class Engine {
             
             if (isSharedArrayBufferSupported) {
               
-              let sab = RingBuffer.getStorageForCapacity(2048, Uint8Array);
+              let sab = RingBuffer.getStorageForCapacity(65536, Uint8Array);
               let rb = new RingBuffer(sab, Uint8Array);
               this.codeWriter = new TextParameterWriter(rb);
   
-- 
2.43.0


From 0c0e384fb91902edaf07b138d55f87be58899580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:39 +0000
Subject: [PATCH 78/90] fix: do not cut messages that do not fit the queue of
 the npm package

---
 js/npm/index.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index 2c74ba4..91fd84d 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -185,8 +185,11 @@ class Engine {
       str = msg.slice(-1) === ";"? msg : msg+";" // todo: not robust
 
       if (isSharedArrayBufferSupported) {
-        if (this.paramWriter.available_write()) {
-          this.paramWriter.enqueue(this.encoder.encode(str))
+        let bytes = this.encoder.encode(str)
+        if (this.paramWriter.available_write() >= bytes.length) {
+          this.paramWriter.enqueue(bytes)
+        } else {
+          console.warn("The message does not fit the queue.")
         }
       } else {
         this.node.port.postMessage({
-- 
2.43.0


From 27df9af1325f7f3ba62dd48099e27ab368739b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:39 +0000
Subject: [PATCH 79/90] fix: take one input buffer in the npm package, and
 silence it without an input

---
 js/npm/glicol-engine.js | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/js/npm/glicol-engine.js b/js/npm/glicol-engine.js
index 110b0c2..9b36488 100644
--- a/js/npm/glicol-engine.js
+++ b/js/npm/glicol-engine.js
@@ -142,14 +142,18 @@ class GlicolEngine extends AudioWorkletProcessor {
           }
         }
 
-        if (inputs[0][0]) { // TODO: support stereo or multi-chan
+        if (!this._inPtr) {
             this._inPtr = this._wasm.exports.alloc(128)
-            this._inBuf = new Float32Array(
-                this._wasm.exports.memory.buffer,
-                this._inPtr,
-                128
-            )
+        }
+        this._inBuf = new Float32Array(
+            this._wasm.exports.memory.buffer,
+            this._inPtr,
+            128
+        )
+        if (inputs[0][0]) { // TODO: support stereo or multi-chan
             this._inBuf.set(inputs[0][0])
+        } else {
+            this._inBuf.fill(0)
         }
 
         this._wasm.exports.process(
-- 
2.43.0


From c0c799b85c72f34e15738deffdffafb45090e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:35 +0000
Subject: [PATCH 80/90] fix: show an error that arrives after another text was
 run

---
 js/npm/index.js  | 2 +-
 js/src/glicol.js | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index 91fd84d..099f693 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -117,7 +117,7 @@ class Engine {
                   let positives = info.split("positives[")[1].split("]")[0].replace("EOI", "END OF INPUT").split(",").join(" ||")
                   let negatives = (info.split("negatives[")[1] ?? "").split("]")[0].split(",").join(" or")
                   console.log(`%cError at line ${line}`, "background: #3b82f6; color:white; font-weight: bold")
-                  let errline = this.code.split("\n")[line-1];
+                  let errline = this.code.split("\n")[line-1] ?? "";
                   let styleErrLine = errline.slice(0, col-1) + "%c %c" + errline.slice(col-1);
                   console.log(styleErrLine, "font-weight: bold; background: #f472b6; color:white", "");
       
diff --git a/js/src/glicol.js b/js/src/glicol.js
index 6d293a8..a935ce7 100644
--- a/js/src/glicol.js
+++ b/js/src/glicol.js
@@ -93,7 +93,7 @@ window.loadModule = async () => {
           let positives = info.split("positives[")[1].split("]")[0].replace("EOI", "END OF INPUT").split(",").join(" ||")
           let negatives = (info.split("negatives[")[1] ?? "").split("]")[0].split(",").join(" or")
           log(`%cError at line ${line}`, "background: #3b82f6; color:white; font-weight: bold")
-          let errline = window.code.split("\n")[line-1];
+          let errline = window.code.split("\n")[line-1] ?? "";
           let styleErrLine = errline.slice(0, col-1) + "%c %c" + errline.slice(col-1);
           log(styleErrLine, "font-weight: bold; background: #f472b6; color:white", "");
 
-- 
2.43.0


From f78c4052e08905dc84f705e25934c9e4563f98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:11 +0000
Subject: [PATCH 81/90] fix: do not evaluate plain text that has a # in it

---
 js/src/glicol.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/glicol.js b/js/src/glicol.js
index a935ce7..84baf8e 100644
--- a/js/src/glicol.js
+++ b/js/src/glicol.js
@@ -121,7 +121,7 @@ window.run = async (codeRaw) => {
   let regex = /(##.*?#)/s
   let parse = codeRaw.split(regex).filter(Boolean)
   let code = parse.map(str => {
-      if (str.includes("#")) {
+      if (/^##.*#$/s.test(str)) {
         try {
           let result = str.includes('\\n') || str.includes(';') ?
           Function(`'use strict'; return ()=>{${str.replaceAll("#", "")}}`)()() :
-- 
2.43.0


From 1ea1b7b54c8f047b127031151fa4fd32ac493e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:26 +0000
Subject: [PATCH 82/90] fix: clear the frequency canvas when the page stops

---
 js/src/utils.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/utils.js b/js/src/utils.js
index f5cac81..f5f37d4 100644
--- a/js/src/utils.js
+++ b/js/src/utils.js
@@ -530,7 +530,7 @@ window.stop = async () => {
     // window.visualizeTimeDomainData({canvas: document.getElementById("visualizer"), analyserL: window.analyserL, analyserR: window.analyserR});
   }
   if ( document.getElementById("freqVisualizer")) {
-    const canvas = document.getElementById("visualizer")
+    const canvas = document.getElementById("freqVisualizer")
     const context = canvas.getContext('2d')
     context.fillStyle = window.visualizerBackground;
     context.clearRect(0, 0, canvas.width, canvas.height);
-- 
2.43.0


From 5840a0c22aeb0082f98dea8c36687a85be28e628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:48 +0000
Subject: [PATCH 83/90] fix: wait for the documentation before showing help

---
 js/src/glicol.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/glicol.js b/js/src/glicol.js
index 84baf8e..2957a06 100644
--- a/js/src/glicol.js
+++ b/js/src/glicol.js
@@ -8,7 +8,7 @@ fetch(source+`utils.js`).then(res=>res.text()).then( text => // ${window.version
   eval(text)
 )
 window.loadDocs = async () => {
-  fetch(source+'glicol-api.json')
+  await fetch(source+'glicol-api.json')
   .then(response => response.json())
   .then(data => window.docs = data)
 }
-- 
2.43.0


From bb35cd3be001767b5d6e224306a73cd3cc4c488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:47 +0000
Subject: [PATCH 84/90] fix: adc reads the input with its number, the first and
 the last one too

---
 rs/main/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index c237eba..ba0dd92 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -119,7 +119,8 @@ impl<const N: usize> Engine<N> {
             let index = self.context.add_mono_node(Pass {});
 
             // create a default track from adc1 ~ adc$chan
-            self.index_info.insert(format!("~adc{}", i), vec![index]);
+            self.index_info
+                .insert(format!("~adc{}", i + 1), vec![index]);
 
             // self.adc_nodes.push(index);
             // let source = self.graph.add_node(
@@ -139,7 +140,7 @@ impl<const N: usize> Engine<N> {
         _interleave: bool,
     ) {
         for c in 0..chan {
-            self.context.graph[self.index_info[&format!("~adc{}", c)][0]].buffers[0]
+            self.context.graph[self.index_info[&format!("~adc{}", c + 1)][0]].buffers[0]
                 .copy_from_slice(&buf[c * frame..(c + 1) * frame]);
         }
     }
-- 
2.43.0


From d8cd62dcd175f2694823911542f9536b9634f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:58 +0000
Subject: [PATCH 85/90] fix: keep the adc inputs when the next program is
 refused

---
 rs/main/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index ba0dd92..0802a5b 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -121,6 +121,8 @@ impl<const N: usize> Engine<N> {
             // create a default track from adc1 ~ adc$chan
             self.index_info
                 .insert(format!("~adc{}", i + 1), vec![index]);
+            self.index_info_backup
+                .insert(format!("~adc{}", i + 1), vec![index]);
 
             // self.adc_nodes.push(index);
             // let source = self.graph.add_node(
-- 
2.43.0


From cfb87faea7696e06a8fbfe9c4c9c8593cc998d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 86/90] fix: reconnect an adc that stays when the program is
 edited

---
 rs/main/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 0802a5b..782e72f 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -302,6 +302,15 @@ impl<const N: usize> Engine<N> {
                                     .refpairlist
                                     .push((owned_reflist, chain_name, idx));
                             }
+                            // an adc is a reference too, one that is not written
+                            #[cfg(feature = "bela")]
+                            if let Component::Adc(glicol_parser::nodes::Adc { port }) = new_comp {
+                                graph_diff.refpairlist.push((
+                                    vec![format!("~adc{}", port + 1)],
+                                    chain_name,
+                                    idx,
+                                ));
+                            }
                         }
                         // If it doesn't exist in the new chain,
                         None => graph_diff.node_remove_list.push((chain_name, old_idx)),
-- 
2.43.0


From 93cee9bb5c65597e4535c8f879cfe11d16e2d144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:00 +0000
Subject: [PATCH 87/90] fix: pan positions beyond the sides stay at the side
 instead of not-a-number

---
 rs/synth/src/node/effect/pan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/effect/pan.rs b/rs/synth/src/node/effect/pan.rs
index 4a9573f..0997ea5 100644
--- a/rs/synth/src/node/effect/pan.rs
+++ b/rs/synth/src/node/effect/pan.rs
@@ -23,7 +23,7 @@ impl<const N: usize> Node<N> for Pan {
             let main_input = inputs.values_mut().next().unwrap();
             let input_buffers = main_input.buffers();
 
-            let pan_norm = (self.pan_pos + 1.0) / 2.0; // Normalize pan position to 0.0 to 1.0
+            let pan_norm = ((self.pan_pos + 1.0) / 2.0).clamp(0.0, 1.0); // Normalize pan position to 0.0 to 1.0
             let left_gain = (1.0 - pan_norm).sqrt(); // Left channel gain
             let right_gain = pan_norm.sqrt(); // Right channel gain
 
@@ -47,7 +47,7 @@ impl<const N: usize> Node<N> for Pan {
             let outs = left[0].iter_mut().zip(right[0].iter_mut());
 
             for ((left, right), (mod_pan, main)) in outs.zip(ref_main) {
-                let pan_norm = (mod_pan + 1.0) / 2.0;
+                let pan_norm = ((mod_pan + 1.0) / 2.0).clamp(0.0, 1.0);
                 let left_gain = (1.0 - pan_norm).sqrt(); // Left channel gain
                 let right_gain = pan_norm.sqrt(); // Right channel gain
                 *left = left_gain * main; // Left channel
-- 
2.43.0


From a4d85fe038e9bb36b00c621992f3b28109e31edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:12 +0000
Subject: [PATCH 88/90] fix: loops through several chains no longer depend on
 the order of a hash table

Inside a feedback loop it matters which chain runs first, and this was the
order in which the chains happened to lie in a table whose hash is chosen at
build time. The chains are now connected in the order of their names.
---
 rs/main/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 782e72f..54a4ce7 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -575,6 +575,10 @@ impl<const N: usize> Engine<N> {
         // println!("self.index_info in handle_connection{:?}", self.index_info);
         // println!("self.refpairlist in handle_connection {:?}", self.refpairlist);
 
+        // inside a loop it matters who goes first, and the order of the table is left to chance
+        let mut chains = self.index_info.iter().collect::<Vec<_>>();
+        chains.sort_unstable();
+
         // now we have to go through and actually make the graph with all the connections we have
         let mut already_reset = std::collections::HashSet::new();
         for (reflist, name, new_idx) in &graph_diff.refpairlist {
@@ -592,7 +596,7 @@ impl<const N: usize> Engine<N> {
             for refname in reflist {
                 if refname.contains("..") {
                     // println!("look for {}", &refname.replace("..", ""));
-                    for (key, value) in self.index_info.iter() {
+                    for (key, value) in &chains {
                         if key.starts_with(&refname.replace("..", "")) {
                             self.context.connect(*value.last().unwrap(), index);
                         }
@@ -604,7 +608,7 @@ impl<const N: usize> Engine<N> {
             }
         }
 
-        for (key, chain) in &self.index_info {
+        for (key, chain) in chains {
             for window in chain.windows(2) {
                 // this is guaranteed to succeed as long as the argument to windows is 2
                 // TODO when array_windows is stabilized, change over to that
-- 
2.43.0


From 112791353ab17e7173a13245da3be58650a17ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:03:32 +0000
Subject: [PATCH 89/90] fix: oscillators keep their range at negative
 frequencies and above the sample rate

---
 rs/synth/src/node/oscillator/mod.rs     | 11 +++++++++++
 rs/synth/src/node/oscillator/saw_osc.rs |  7 ++-----
 rs/synth/src/node/oscillator/sin_osc.rs | 12 ++++--------
 rs/synth/src/node/oscillator/squ_osc.rs | 10 +++++-----
 rs/synth/src/node/oscillator/tri_osc.rs | 11 +++++------
 5 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/rs/synth/src/node/oscillator/mod.rs b/rs/synth/src/node/oscillator/mod.rs
index f6df2f2..6759b00 100644
--- a/rs/synth/src/node/oscillator/mod.rs
+++ b/rs/synth/src/node/oscillator/mod.rs
@@ -41,3 +41,14 @@ fn process_oscillation<const N: usize>(
         _ => {}
     }
 }
+
+/// A phase between 0 and 1, for frequencies of any sign and size
+fn wrap(phase: f32) -> f32 {
+    if phase > 1. {
+        phase - (phase.ceil() - 1.)
+    } else if phase < 0. {
+        phase - phase.floor()
+    } else {
+        phase
+    }
+}
diff --git a/rs/synth/src/node/oscillator/saw_osc.rs b/rs/synth/src/node/oscillator/saw_osc.rs
index c9970b6..bfa6611 100644
--- a/rs/synth/src/node/oscillator/saw_osc.rs
+++ b/rs/synth/src/node/oscillator/saw_osc.rs
@@ -1,7 +1,7 @@
 use crate::{Buffer, Input, Message, Node};
 use hashbrown::HashMap;
 
-use super::process_oscillation;
+use super::{process_oscillation, wrap};
 #[derive(Debug, Clone)]
 pub struct SawOsc {
     pub freq: f32,
@@ -48,10 +48,7 @@ impl<const N: usize> Node<N> for SawOsc {
             &mut self.inc,
             |out, freq| {
                 *out = self.phase * 2. - 1.;
-                self.phase += freq / self.sr as f32;
-                if self.phase > 1. {
-                    self.phase -= 1.
-                }
+                self.phase = wrap(self.phase + freq / self.sr as f32);
             },
         );
     }
diff --git a/rs/synth/src/node/oscillator/sin_osc.rs b/rs/synth/src/node/oscillator/sin_osc.rs
index 58c80d3..122474e 100644
--- a/rs/synth/src/node/oscillator/sin_osc.rs
+++ b/rs/synth/src/node/oscillator/sin_osc.rs
@@ -1,5 +1,7 @@
 use crate::{Buffer, Input, Message, Node};
 use hashbrown::HashMap;
+
+use super::wrap;
 #[derive(Debug, Clone)]
 pub struct SinOsc {
     pub freq: f32,
@@ -42,10 +44,7 @@ impl<const N: usize> Node<N> for SinOsc {
                     for buf in output.iter_mut() {
                         buf[i] = (self.phase * 2.0 * std::f32::consts::PI).sin();
                     }
-                    self.phase += self.freq / self.sr as f32;
-                    if self.phase > 1.0 {
-                        self.phase -= 1.0
-                    }
+                    self.phase = wrap(self.phase + self.freq / self.sr as f32);
                 }
             }
             1 => {
@@ -59,10 +58,7 @@ impl<const N: usize> Node<N> for SinOsc {
                         buf[i] = (self.phase * 2.0 * std::f32::consts::PI).sin();
                     }
 
-                    self.phase += mod_buf / self.sr as f32;
-                    if self.phase > 1.0 {
-                        self.phase -= 1.0
-                    }
+                    self.phase = wrap(self.phase + mod_buf / self.sr as f32);
                 }
             }
             _ => (),
diff --git a/rs/synth/src/node/oscillator/squ_osc.rs b/rs/synth/src/node/oscillator/squ_osc.rs
index d4d7005..ad15913 100644
--- a/rs/synth/src/node/oscillator/squ_osc.rs
+++ b/rs/synth/src/node/oscillator/squ_osc.rs
@@ -1,4 +1,7 @@
-use crate::{oscillator::process_oscillation, Buffer, Input, Message, Node};
+use crate::{
+    oscillator::{process_oscillation, wrap},
+    Buffer, Input, Message, Node,
+};
 use hashbrown::HashMap;
 #[derive(Debug, Clone)]
 pub struct SquOsc {
@@ -51,10 +54,7 @@ impl<const N: usize> Node<N> for SquOsc {
                     *out = -1.0;
                 }
 
-                self.phase += freq / self.sr as f32;
-                if self.phase > 1. {
-                    self.phase -= 1.
-                }
+                self.phase = wrap(self.phase + freq / self.sr as f32);
             },
         );
     }
diff --git a/rs/synth/src/node/oscillator/tri_osc.rs b/rs/synth/src/node/oscillator/tri_osc.rs
index 155d198..b12f358 100644
--- a/rs/synth/src/node/oscillator/tri_osc.rs
+++ b/rs/synth/src/node/oscillator/tri_osc.rs
@@ -1,4 +1,7 @@
-use crate::{oscillator::process_oscillation, Buffer, Input, Message, Node};
+use crate::{
+    oscillator::{process_oscillation, wrap},
+    Buffer, Input, Message, Node,
+};
 use hashbrown::HashMap;
 #[derive(Debug, Clone)]
 pub struct TriOsc {
@@ -48,11 +51,7 @@ impl<const N: usize> Node<N> for TriOsc {
                 let v = -1.0 + (self.phase * 2.);
 
                 *out = 2.0 * (v.abs() - 0.5);
-                self.phase += freq / self.sr as f32;
-
-                if self.phase > 1. {
-                    self.phase -= 1.
-                }
+                self.phase = wrap(self.phase + freq / self.sr as f32);
             },
         );
     }
-- 
2.43.0


From e706af7e176e6544bd29d1202d6941d74ea5036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:13:37 +0000
Subject: [PATCH 90/90] fix: a script that fails or returns too little is
 silent instead of repeating the last block

---
 rs/synth/src/node/dynamic/meta.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/synth/src/node/dynamic/meta.rs b/rs/synth/src/node/dynamic/meta.rs
index 1ca70ae..6187a24 100644
--- a/rs/synth/src/node/dynamic/meta.rs
+++ b/rs/synth/src/node/dynamic/meta.rs
@@ -107,6 +107,7 @@ impl<const N: usize> Node<N> for Meta<N> {
             // self.engine.optimize_ast();
         }
 
+        output[0].silence();
         match self
             .engine
             .eval_ast_with_scope::<Array>(&mut self.scope, &self.ast)
-- 
2.43.0


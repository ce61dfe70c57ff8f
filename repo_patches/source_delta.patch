From 41b459f6176f8f7efde8db583cb09396f0498efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 01/13] fix: count the ninth player's wins (winner mask was one
 bit too narrow)

---
 src/equity_calculator/simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 4448a14..4823a37 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1253,9 +1253,9 @@ impl Simulator {
         flush_possible: bool,
     ) {
         // evaulate hands
-        let mut winner_mask: u8 = 0;
+        let mut winner_mask: u16 = 0;
         let mut best_score: u16 = 0;
-        let mut player_mask: u8 = 1;
+        let mut player_mask: u16 = 1;
         let mut counter: usize = 0;
         let mut indexes: [usize; MAX_PLAYERS] = [0; MAX_PLAYERS];
 
-- 
2.43.0


From b47552c6d1e7d35f673e4a458b7aaaec8d4b9b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 02/13] fix: split ties without losing the remainder of the
 division

---
 src/equity_calculator/simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 4823a37..6d4b3e7 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1135,9 +1135,9 @@ impl Simulator {
                         }
                     } else {
                         results.ties[batch.player_ids[j]] +=
-                            (batch.wins_by_mask[i] / winner_count) as f64;
+                            batch.wins_by_mask[i] as f64 / winner_count as f64;
                         if batch.player_ids[j] == 0 {
-                            batch_equity += (batch.wins_by_mask[i] / winner_count) as f64;
+                            batch_equity += batch.wins_by_mask[i] as f64 / winner_count as f64;
                         }
                     }
                     actual_player_mask |= 1 << batch.player_ids[j];
-- 
2.43.0


From fcc50061eb5fe0bac726c9ada0e1503b0883da1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 03/13] fix: refuse invalid rank or suit characters when
 reading a card

---
 src/hand_range.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 4992e4c..7a1f9aa 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -461,6 +461,10 @@ pub fn card_from_chars<T: Iterator<Item = char>>(chars: &mut T) -> Result<u8, St
     let rank = char_to_rank(rank_char);
     let suit = char_to_suit(suit_char);
 
+    if rank == u8::MAX || suit == u8::MAX {
+        return Err("Invalid card".to_string());
+    }
+
     Ok(4 * rank + suit)
 }
 
-- 
2.43.0


From 1f33e266ffba06918d0f49e1613da8145845ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 04/13] fix: weights with many digits no longer overflow, @
 without digits leaves the weight alone

---
 src/hand_range.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 7a1f9aa..07126b6 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -217,17 +217,16 @@ impl HandRange {
 
     fn parse_weight(&self, i: &mut usize, weight: &mut u8) -> bool {
         let backtrack = *i;
-        let mut number = 0;
+        let mut number = 0u32;
         loop {
             let digit = self.char_vec[*i].to_digit(10);
             match digit {
                 Some(num) => {
-                    number *= 10;
-                    number += num;
+                    number = number.saturating_mul(10).saturating_add(num);
                     *i += 1;
                 }
                 None => {
-                    if number > 100 {
+                    if number > 100 || *i == backtrack {
                         *i = backtrack;
                         return false;
                     } else {
-- 
2.43.0


From e5baaf393c61c5df0d5247aa3ea32fbf2e91a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 05/13] fix: a dash between pairs covers them in whichever
 order its ends are written

---
 src/hand_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 07126b6..9ed96e9 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -337,7 +337,7 @@ impl HandRange {
 
     fn add_combos_dash(&mut self, rank1: u8, rank2: u8, rank3: u8, rank4: u8, suited: bool, offsuited: bool, weight: u8){
         if rank1 == rank2 {
-            for r in rank3..=rank1{
+            for r in rank3.min(rank1)..=rank3.max(rank1) {
                 self.add_combos(r, r, suited, offsuited, weight);
             }
         } else {
-- 
2.43.0


From d4208a7c3f004a88dfff82dea824ecc390eb98a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 06/13] fix: approx_equity progress stays within 0..100

---
 src/equity_calculator/simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 6d4b3e7..3f9461b 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1157,7 +1157,7 @@ impl Simulator {
                 .sqrt()
                 / results.batch_count;
 
-            let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0) as u8;
+            let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0).min(100.0) as u8;
             tx.send(progress).unwrap();
 
             // calc variance
-- 
2.43.0


From f61336b89d14a3fa2e861d1e96ec2296c98d5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 07/13] fix: approx_equity stops on a deviation over at least
 two batches that were sampled

---
 src/equity_calculator/simulator.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 3f9461b..629da73 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1149,19 +1149,22 @@ impl Simulator {
 
         results.eval_count += batch.eval_count;
         if !self.calc_exact {
-            results.batch_sum += batch_equity;
-            results.batch_sum2 += batch_equity * batch_equity;
-            results.batch_count += 1.0;
-            results.stdev = (1e-9 + results.batch_sum2
-                - results.batch_sum * results.batch_sum / results.batch_count)
-                .sqrt()
-                / results.batch_count;
+            // the last batch of a thread can be empty: it says nothing about the deviation
+            if batch.eval_count > 0 {
+                results.batch_sum += batch_equity;
+                results.batch_sum2 += batch_equity * batch_equity;
+                results.batch_count += 1.0;
+                results.stdev = (1e-9 + results.batch_sum2
+                    - results.batch_sum * results.batch_sum / results.batch_count)
+                    .sqrt()
+                    / results.batch_count;
+            }
 
             let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0).min(100.0) as u8;
             tx.send(progress).unwrap();
 
             // calc variance
-            if !finished && results.stdev < self.stdev_target {
+            if !finished && results.batch_count > 1.0 && results.stdev < self.stdev_target {
                 self.stopped.store(true, std::sync::atomic::Ordering::SeqCst);
             }
         } else {
-- 
2.43.0


From 4414cb49004e45842a4125ca97488d69c2fbf89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 08/13] fix: equities are zero instead of NaN when nothing was
 dealt

---
 src/equity_calculator/simulator.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 629da73..88a121c 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -309,8 +309,10 @@ impl SimulationResults {
             equity[i] += self.ties[i];
             equity_sum += equity[i];
         }
-        for e in &mut equity {
-            *e /= equity_sum;
+        if equity_sum > 0. {
+            for e in &mut equity {
+                *e /= equity_sum;
+            }
         }
         self.equities = equity;
     }
@@ -581,7 +583,9 @@ impl AddAssign for UnitResults {
         self.ties += other.ties;
         self.total += other.total;
         self.corrected_ties += other.corrected_ties;
-        self.equity = (self.wins as f64+self.corrected_ties)/self.total as f64;
+        if self.total > 0 {
+            self.equity = (self.wins as f64+self.corrected_ties)/self.total as f64;
+        }
     }
 }
 
-- 
2.43.0


From 0b3dc4eba4bd4fc5e1f96ec90da7bd1f90933256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 09/13] fix: the number of joint holdings no longer overflows

---
 src/equity_calculator/simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 88a121c..340a1d1 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -972,7 +972,7 @@ impl Simulator {
     fn get_preflop_combo_count(&self) -> u64 {
         let mut combo_count = 1u64;
         for c in &self.combined_ranges {
-            combo_count *= c.size() as u64;
+            combo_count = combo_count.saturating_mul(c.size() as u64);
         }
         combo_count
     }
-- 
2.43.0


From 64b6e2fa99f96409a8b4293d1ae8e11adfdf932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 10/13] fix: scale weights down so that the weight of a deal
 does not overflow

---
 src/equity_calculator/simulator.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 340a1d1..179b905 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -91,7 +91,7 @@ pub fn exact_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let combined_ranges = CombinedRange::from_ranges(&scale_weights(&hand_ranges));
     for cr in &combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -199,7 +199,7 @@ pub fn approx_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let mut combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let mut combined_ranges = CombinedRange::from_ranges(&scale_weights(&hand_ranges));
     for cr in &mut combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -253,6 +253,24 @@ pub fn approx_equity<F: Fn(u8)>(
     Ok(results)
 }
 
+/// Divides the weights of each range by their greatest common divisor.
+///
+/// Only their ratios matter, and the weight of a deal is the product of
+/// the weights of all players, which must not overflow.
+fn scale_weights(hand_ranges: &[HandRange]) -> Vec<HandRange> {
+    fn gcd(a: u8, b: u8) -> u8 {
+        if b == 0 { a } else { gcd(b, a % b) }
+    }
+    let mut scaled = hand_ranges.to_owned();
+    for range in &mut scaled {
+        let divisor = range.hands.iter().fold(0, |d, h| gcd(d, h.2));
+        if divisor > 1 {
+            range.hands.iter_mut().for_each(|h| h.2 /= divisor);
+        }
+    }
+    scaled
+}
+
 /// Stores total results of the simulation
 #[derive(Debug, Clone)]
 pub struct SimulationResults {
@@ -1344,7 +1362,7 @@ mod tests {
         hand_ranges
             .iter_mut()
             .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-        let mut combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+        let mut combined_ranges = CombinedRange::from_ranges(&scale_weights(&hand_ranges));
         for cr in &mut combined_ranges {
             if cr.size() == 0 {
                 assert!(false);
@@ -1371,7 +1389,7 @@ mod tests {
         hand_ranges
             .iter_mut()
             .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-        let mut combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+        let mut combined_ranges = CombinedRange::from_ranges(&scale_weights(&hand_ranges));
         for cr in &mut combined_ranges {
             if cr.size() == 0 {
                 assert!(false);
-- 
2.43.0


From 50c85778ba0913eb6a7aed27547142246f32e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:48 +0000
Subject: [PATCH 11/13] Verification hooks behind --cfg pokers_verif: deal
 observer, random walk with the caller's random numbers

---
 src/equity_calculator/mod.rs       |  2 ++
 src/equity_calculator/simulator.rs | 50 ++++++++++++++++++++++++++++++
 src/lib.rs                         |  2 ++
 3 files changed, 54 insertions(+)

diff --git a/src/equity_calculator/mod.rs b/src/equity_calculator/mod.rs
index 6216881..93389ae 100644
--- a/src/equity_calculator/mod.rs
+++ b/src/equity_calculator/mod.rs
@@ -3,3 +3,5 @@ mod simulator;
 
 pub use combined_range::CombinedRange;
 pub use simulator::{approx_equity, exact_equity, SimulationResults, UnitResults, SimulatorError};
+#[cfg(pokers_verif)]
+pub use simulator::verif;
diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 179b905..4eeef56 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1277,6 +1277,9 @@ impl Simulator {
         hand_results: &mut Vec<UnitResults>,
         flush_possible: bool,
     ) {
+        #[cfg(pokers_verif)]
+        verif::deal(&player_hands[0..self.n_players], weight, board, &lookup[0..self.n_players]);
+
         // evaulate hands
         let mut winner_mask: u16 = 0;
         let mut best_score: u16 = 0;
@@ -1349,6 +1352,53 @@ fn randomize_board<R: Rng>(
     }
 }
 
+/// Verification hooks, compiled only with `--cfg pokers_verif`
+#[cfg(pokers_verif)]
+pub mod verif {
+    use super::*;
+
+    unsafe extern "Rust" {
+        /// Defined by the verification harness: sees every deal before it is evaluated
+        fn pokers_verif_deal(player_hands: &[Hand], weight: u64, board: &Hand, lookup: &[usize]);
+    }
+
+    pub(super) fn deal(player_hands: &[Hand], weight: u64, board: &Hand, lookup: &[usize]) {
+        unsafe { pokers_verif_deal(player_hands, weight, board, lookup) }
+    }
+
+    /// What one worker of `approx_equity` does, with the random numbers of the caller
+    pub fn random_walk<R: Rng>(
+        hand_ranges: &[HandRange],
+        board_mask: u64,
+        dead_mask: u64,
+        stdev_target: f64,
+        cancel_token: Arc<AtomicBool>,
+        rng: &mut R,
+    ) -> Result<SimulationResults, SimulatorError> {
+        let mut hand_ranges = hand_ranges.to_owned();
+        hand_ranges
+            .iter_mut()
+            .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
+        let combined_ranges = CombinedRange::from_ranges(&scale_weights(&hand_ranges));
+        if combined_ranges.iter().any(|cr| cr.size() == 0) {
+            return Err(SimulatorError::ConflictingRanges);
+        }
+        let sim = Simulator::new(
+            hand_ranges,
+            combined_ranges,
+            board_mask,
+            dead_mask,
+            false,
+            stdev_target,
+            cancel_token,
+        );
+        let (tx, rx) = channel();
+        sim.sim_random_walk_monte_carlo(rng, tx);
+        for _ in rx.iter() {}
+        Ok(sim.results.into_inner().unwrap())
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index a3e461b..49214b1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -43,6 +43,8 @@
 //! let rank = final_score / 4096; // or final_score >> 12
 //! ```
 
+#![allow(unexpected_cfgs)]
+
 pub mod constants;
 pub mod hand_evaluator;
 pub mod hand_range;
-- 
2.43.0


From b61ec4e1a558c8f1a9b0f58a07c7b33bf1efc35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:39 +0000
Subject: [PATCH 12/13] Verification hook behind --cfg pokers_verif: size of
 the batches of enumerate_all

---
 src/equity_calculator/simulator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 4eeef56..b8832da 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -723,6 +723,8 @@ impl Simulator {
         loop {
             if enum_pos >= enum_end {
                 let batch_size = std::cmp::max(2000000 / postflop_combos, 1);
+                #[cfg(pokers_verif)]
+                let batch_size = verif::batch_size(batch_size);
                 let (p, e) = self.reserve_batch(batch_size);
                 enum_pos = p;
                 enum_end = e;
@@ -1360,12 +1362,18 @@ pub mod verif {
     unsafe extern "Rust" {
         /// Defined by the verification harness: sees every deal before it is evaluated
         fn pokers_verif_deal(player_hands: &[Hand], weight: u64, board: &Hand, lookup: &[usize]);
+        /// Defined by the verification harness: number of preflop holdings a worker takes at a time
+        fn pokers_verif_batch_size(n: u64) -> u64;
     }
 
     pub(super) fn deal(player_hands: &[Hand], weight: u64, board: &Hand, lookup: &[usize]) {
         unsafe { pokers_verif_deal(player_hands, weight, board, lookup) }
     }
 
+    pub(super) fn batch_size(n: u64) -> u64 {
+        unsafe { pokers_verif_batch_size(n) }
+    }
+
     /// What one worker of `approx_equity` does, with the random numbers of the caller
     pub fn random_walk<R: Rng>(
         hand_ranges: &[HandRange],
-- 
2.43.0


From e7a320c35780df2005b61c8a5f290cfc60184539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:57 +0000
Subject: [PATCH 13/13] fix: flag the wheel as nut straight when it is the best
 straight the board allows

---
 src/hand_evaluator/hand.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hand_evaluator/hand.rs b/src/hand_evaluator/hand.rs
index b8de861..6959da5 100644
--- a/src/hand_evaluator/hand.rs
+++ b/src/hand_evaluator/hand.rs
@@ -98,6 +98,10 @@ pub fn get_draw(hole_cards: Hand, board: Hand, rank: u8) -> u8 {
                 break;
             }
             mask >>= 1;
+            if mask == 0b1111 {
+                // The last straight is the wheel, whose ace is the highest bit.
+                mask |= 1 << 12;
+            }
         }
     }
     if rank < 5 {
-- 
2.43.0


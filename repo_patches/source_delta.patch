From 4f6292d89f0b42e84a43bf6e1cfdbb292c335f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:24 +0000
Subject: [PATCH 01/27] fix: new pool position starts at the current fee growth
 instead of zero

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index ef9d991..f8fe81a 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -427,13 +427,7 @@ impl<'a> Pool<'a> {
                 }
                 self.positions.insert(
                     key,
-                    PositionState::new(
-                        liq_delta,
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                    ),
+                    PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
                 );
             }
             Some(poz) => {
-- 
2.43.0


From 30661d8bc5994430fc2cad9287c0a405af6b294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 02/27] fix: average price guard of y swaps compares input per
 output with the starting price

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index f8fe81a..53547b4 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -1011,8 +1011,8 @@ impl<'a> Pool<'a> {
             panic!("cannot swap out more X than present in pool");
         }
         // avoid numerical noise due for very small trades relative to liquidity
-        if !done_dx.is_zero() && done_dy.is_zero() {
-            let avg_price = done_dy.add(fee_y).unwrap().div(done_dx);
+        if !done_dx.is_zero() {
+            let avg_price = done_dy.add(fee_y).unwrap().div(done_dx.neg());
             if avg_price.lt(start_rp.pow(2)).unwrap() {
                 panic!("pool cannot sell X at a lower avg price than starting price");
             }
-- 
2.43.0


From f1f6717dfdb0bd80fa57de33330eaf539374f88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 03/27] fix: tick decrements in swaps no longer wrap below tick
 zero

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 53547b4..7be9bfb 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -213,7 +213,14 @@ impl<'a> Pool<'a> {
         if left_to_right {
             self.set_glbl_tick(provided_tick);
         } else {
-            self.set_glbl_tick(self.tick_to_possible_tick(provided_tick - 1, left_to_right))
+            self.set_glbl_tick(
+                self.tick_to_possible_tick(
+                    provided_tick
+                        .checked_sub(1)
+                        .expect("cannot move below the lowest tick"),
+                    left_to_right,
+                ),
+            )
         }
 
         // adjust global liquidity
@@ -693,7 +700,7 @@ impl<'a> Pool<'a> {
             fee_x = dx.sub(dx_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick - 1);
+            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick.saturating_sub(1));
             // * this loop happens only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after 'log')
 
@@ -956,7 +963,7 @@ impl<'a> Pool<'a> {
             cross = false;
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
             // start seeking the goal from tick under current tick, that can be initialized
-            let seek_start = self.tick_to_possible_tick(self.glbl_tick() - 1, false);
+            let seek_start = self.tick_to_possible_tick(self.glbl_tick().saturating_sub(1), false);
             end_t = Pool::rp_to_tick_loop(end_rp, false, seek_start);
             // * this log is take only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after log)
-- 
2.43.0


From 19a9b67983a566e1190f0519464bbfcf6bb9c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:15 +0000
Subject: [PATCH 04/27] fix: oracle pricing of y changes with c=1 takes the
 logarithm of new over old root price

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs       | 4 ++--
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 0212fb2..dc534b1 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -332,10 +332,10 @@ pub trait PoolMath {
             panic!("root-prices should not be nil");
         }
         if c.to_compute_scale().eq(one).unwrap() {
-            // l * rp_oracle * (rp_old / rp_new).ln()
+            // l * rp_oracle * (rp_new / rp_old).ln()
             let ln_rp_old = rp_old.ln().unwrap();
             let ln_rp_new = rp_new.ln().unwrap();
-            let log_of_ratio = ln_rp_old.sub(ln_rp_new).unwrap();
+            let log_of_ratio = ln_rp_new.sub(ln_rp_old).unwrap();
 
             return l.mul(rp_oracle).mul(log_of_ratio);
         } else {
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index f7dc987..e21be1d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -152,7 +152,7 @@ pub trait PoolMath {
     fn dy_from_l_drp_hmm(l: f64, rp_old: f64, rp_new: f64, c: f64, rp_oracle: f64) -> f64 {
         // chg of reserve y based of chg of price with hmm adj
         if c == 1.0 {
-            l * rp_oracle * (rp_old / rp_new).ln()
+            l * rp_oracle * (rp_new / rp_old).ln()
         } else {
             let omc = 1.0 - c; // one minus c
             l * rp_oracle.powf(c) * (rp_new.powf(omc) - rp_old.powf(omc)) / omc
-- 
2.43.0


From faf2d6f4e79636dd75b78f22c14fb7ca0b8133f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 05/27] fix: new position of the float pool starts at the
 current fee growth instead of zero

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 4b13b2c..d5ea84e 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -373,8 +373,11 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
-                self.positions
-                    .insert(key, PositionState::new(liq_delta, 0.0, 0.0, 0.0, 0.0));
+                // only growth from now on counts towards the new position's fees
+                self.positions.insert(
+                    key,
+                    PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
+                );
             }
             Some(poz) => {
                 // get old value for feed from when position was last touched
-- 
2.43.0


From 6034802cb03616c5a6266d18c88821045dee0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 06/27] fix: float pool rejects empty and inverted ranges like
 the fixed-point pool

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index d5ea84e..29b132b 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -431,6 +431,10 @@ impl<'a> Pool<'a> {
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
         let upper_tick = self.rp_to_possible_tick(rpb, false);
+        assert!(
+            upper_tick > lower_tick,
+            "upper bound needs to be above lower bound"
+        );
         let rpa_used = Pool::tick_to_rp(lower_tick);
         let rpb_used = Pool::tick_to_rp(upper_tick);
         let rp_used = self.glbl_rp();
@@ -486,6 +490,10 @@ impl<'a> Pool<'a> {
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
         let upper_tick = self.rp_to_possible_tick(rpb, false);
+        assert!(
+            upper_tick > lower_tick,
+            "upper bound needs to be above lower bound"
+        );
         let rpa_used = Pool::tick_to_rp(lower_tick);
         let rpb_used = Pool::tick_to_rp(upper_tick);
 
-- 
2.43.0


From 1a04f5238f8ec0b739acb7e66eab72561ec2c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:40 +0000
Subject: [PATCH 07/27] fix: tick decrement of the float pool no longer wraps
 below tick zero

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 29b132b..3af01c5 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -180,7 +180,14 @@ impl<'a> Pool<'a> {
         if left_to_right {
             self.set_glbl_tick(provided_tick);
         } else {
-            self.set_glbl_tick(self.tick_to_possible_tick(provided_tick - 1, left_to_right))
+            self.set_glbl_tick(
+                self.tick_to_possible_tick(
+                    provided_tick
+                        .checked_sub(1)
+                        .expect("cannot move below the lowest tick"),
+                    left_to_right,
+                ),
+            )
         }
 
         // adjust global liquidity
-- 
2.43.0


From c279812a89dd97534101f0f67fa1cbf3b504ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:14 +0000
Subject: [PATCH 08/27] fix: upward tick search accepts a current tick that is
 not a multiple of the spacing

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 1 +
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 7be9bfb..d6875bc 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -249,6 +249,7 @@ impl<'a> Pool<'a> {
 
         // get to initializable tick. we use False here to round down
         let start_tick = self.tick_to_possible_tick(start_t, false);
+        let glbl_tick = self.tick_to_possible_tick(glbl_tick, false);
 
         if start_tick == glbl_tick {
             // we've already technically crossed this tick (left-to-right) i.e.
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 3af01c5..f9efd91 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -216,6 +216,7 @@ impl<'a> Pool<'a> {
 
         // get to initializable tick. we use False here to round down
         let start_tick = self.tick_to_possible_tick(start_t, false);
+        let glbl_tick = self.tick_to_possible_tick(glbl_tick, false);
 
         if start_tick == glbl_tick {
             // we've already technically crossed this tick (left-to-right) i.e.
-- 
2.43.0


From 199548396a1e8dc4e193537a53bf4291817e2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 09/27] fix: a swap ending inside a range keeps its tick
 between the current tick and the goal

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 10 ++++++++--
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index d6875bc..7095f03 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -701,7 +701,10 @@ impl<'a> Pool<'a> {
             fee_x = dx.sub(dx_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick.saturating_sub(1));
+            // rounding must not carry the tick past the goal (not crossed) or above the current tick
+            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick.saturating_sub(1))
+                .min(self.glbl_tick())
+                .max(goal_tick);
             // * this loop happens only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after 'log')
 
@@ -965,7 +968,10 @@ impl<'a> Pool<'a> {
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
             // start seeking the goal from tick under current tick, that can be initialized
             let seek_start = self.tick_to_possible_tick(self.glbl_tick().saturating_sub(1), false);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, seek_start);
+            // rounding must not carry the tick onto the goal (not crossed) or below the current tick
+            end_t = Pool::rp_to_tick_loop(end_rp, false, seek_start)
+                .max(self.glbl_tick())
+                .min(goal_tick.saturating_sub(1));
             // * this log is take only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after log)
 
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index f9efd91..0dc13ab 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -583,7 +583,10 @@ impl<'a> Pool<'a> {
             fee_x = dx - dx_max; // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            // rounding must not carry the tick past the goal (not crossed) or above the current tick
+            end_t = Pool::rp_to_tick(end_rp, false)
+                .min(self.glbl_tick())
+                .max(goal_tick);
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
@@ -822,7 +825,10 @@ impl<'a> Pool<'a> {
             fee_y = dy - dy_max; // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            // rounding must not carry the tick onto the goal (not crossed) or below the current tick
+            end_t = Pool::rp_to_tick(end_rp, false)
+                .max(self.glbl_tick())
+                .min(goal_tick.saturating_sub(1));
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From 0506dd953b53d4092677737f34da41c80f4c2a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 10/27] fix: float: a swap without oracle price is not adjusted
 when the first token is supplied

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 0dc13ab..6af7edc 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -599,8 +599,8 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dY and hmm_adj_Y
         let mut done_dy_cpmm = Pool::dy_from_l_drp(liq, start_rp, end_rp);
-        if self.c == 0.0 || rp_oracle >= start_rp {
-            // also when rP_oracle is None
+        if self.c == 0.0 || rp_oracle == 0.0 || rp_oracle >= start_rp {
+            // also when rP_oracle is None (zero)
             // in cases where no oracle or no hmm c=0, we cannot adjust so we fall back to amm
             // * when trade will make pool price diverge more from oracle,
             // * then we don't adjust (hmm adjust on convergence only)
-- 
2.43.0


From b0cd033289dea640e89258c49e81f16438c3aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 11/27] fix: comparisons treat a zero with a sign as zero

---
 programs/hmmcl-sandbox/src/decimal.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 8ee79bd..e3e2661 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -567,7 +567,7 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            Ok(self.value == other.value && self.negative == other.negative)
+            Ok(self.value == other.value && self.is_negative() == other.is_negative())
         }
     }
 
@@ -576,11 +576,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value > other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value < other.value)
@@ -593,11 +593,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value < other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value > other.value)
@@ -610,11 +610,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value <= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value >= other.value)
@@ -627,11 +627,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value >= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value <= other.value)
-- 
2.43.0


From f13e305881893ceb023d9b568aa1e22cc413ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 12/27] fix: rounding-up rescale keeps the sign of negative
 decimals

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index e3e2661..46bbe6b 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -145,13 +145,13 @@ impl Decimal {
             decimal.div_up(Self::new(
                 10u128.pow((self.scale.checked_sub(scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         } else {
             decimal.mul_up(Self::new(
                 10u128.pow((scale.checked_sub(self.scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         }
     }
-- 
2.43.0


From 8e4769248c109720c162f308b034609db80229a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 13/27] fix: whole-number powers of negative decimals have the
 right sign

---
 programs/hmmcl-sandbox/src/decimal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 46bbe6b..2219a2c 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -500,7 +500,7 @@ impl Pow<u128> for Decimal {
         let one = Decimal {
             value: self.denominator(),
             scale: self.scale,
-            negative: self.negative,
+            negative: false,
         };
 
         if exp == 0 {
-- 
2.43.0


From 36ceaad339f9ff481a96ce94717cfa5e35841f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 14/27] fix: square root rejects negative decimals

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 2219a2c..7cdf037 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -997,6 +997,10 @@ impl Sqrt<Decimal> for Decimal {
         let zero = Decimal::new(0, self.scale, false);
         let one = Decimal::from_u128(1).to_scale(self.scale);
 
+        if self.is_negative() {
+            return Err(ErrorCode::SignedDecimalsNotSupported.into());
+        }
+
         if self.value.lt(&0u128) || self.value.gt(&u128::MAX) {
             return Err(ErrorCode::ExceedsRange.into());
         }
-- 
2.43.0


From 6dee55ea4d784d397f96626ff2bb106ffd546911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 15/27] fix: natural logarithm rejects zero

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 7cdf037..b0468ab 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -937,6 +937,10 @@ impl Ln<Decimal> for Decimal {
             return Err(ErrorCode::SignedDecimalsNotSupported.into());
         }
 
+        if self.is_zero() {
+            return Err(ErrorCode::ExceedsRange.into());
+        }
+
         let scaled_out = self.to_compute_scale();
 
         let ln_2_decimal = Decimal::new(693_147_180_559u128, 12, false);
-- 
2.43.0


From 0a6cf65daf319ad8060c17bc534978b97cdd6529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 16/27] fix: powers of ten beyond 128 bits abort instead of
 wrapping

---
 programs/hmmcl-sandbox/src/decimal.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index b0468ab..efcf25a 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -125,11 +125,11 @@ impl Decimal {
         Self {
             value: if self.scale > scale {
                 self.value
-                    .checked_div(10u128.pow((self.scale.checked_sub(scale).unwrap()).into()))
+                    .checked_div(10u128.checked_pow((self.scale.checked_sub(scale).unwrap()).into()).expect("power of ten"))
                     .expect("scaled_down")
             } else {
                 self.value
-                    .checked_mul(10u128.pow((scale.checked_sub(self.scale).unwrap()).into()))
+                    .checked_mul(10u128.checked_pow((scale.checked_sub(self.scale).unwrap()).into()).expect("power of ten"))
                     .expect("scaled_up")
             },
             scale,
@@ -143,13 +143,13 @@ impl Decimal {
         let decimal = Self::new(self.value, scale, self.negative);
         if self.scale >= scale {
             decimal.div_up(Self::new(
-                10u128.pow((self.scale.checked_sub(scale).unwrap()).try_into().unwrap()),
+                10u128.checked_pow((self.scale.checked_sub(scale).unwrap()).try_into().unwrap()).expect("power of ten"),
                 0,
                 false,
             ))
         } else {
             decimal.mul_up(Self::new(
-                10u128.pow((scale.checked_sub(self.scale).unwrap()).try_into().unwrap()),
+                10u128.checked_pow((scale.checked_sub(self.scale).unwrap()).try_into().unwrap()).expect("power of ten"),
                 0,
                 false,
             ))
@@ -163,7 +163,7 @@ impl Decimal {
 
     /// Show the scale of a [Decimal] expressed as a power of 10.
     pub fn denominator(self) -> u128 {
-        10u128.pow(self.scale.into())
+        10u128.checked_pow(self.scale.into()).expect("power of ten")
     }
 
     /// Returns true if [Decimal] is positive and false if the number is zero or negative.
@@ -429,11 +429,11 @@ impl DivScale<Decimal> for Decimal {
             self.value
                 .checked_div(rhs.value)
                 .expect("checked_div")
-                .checked_div(10u128.pow(decimal_difference.try_into().unwrap()))
+                .checked_div(10u128.checked_pow(decimal_difference.try_into().unwrap()).expect("power of ten"))
                 .expect("checked_div")
         } else {
             self.value
-                .checked_mul(10u128.pow((-decimal_difference).try_into().unwrap()))
+                .checked_mul(10u128.checked_pow((-decimal_difference).try_into().unwrap()).expect("power of ten"))
                 .expect("checked_mul")
                 .checked_div(rhs.value)
                 .expect("checked_div")
-- 
2.43.0


From 7289f5b321e42beb65a3043f6d81d11594122805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 17/27] fix: conversion of a decimal to i32 no longer drops
 high bits

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index efcf25a..a0aae79 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -1,5 +1,6 @@
 use ndarray::{arr2, Array2};
 use std::convert::TryInto;
+use std::convert::TryFrom;
 use std::fmt;
 use std::iter::repeat;
 use std::ops::Neg;
@@ -554,7 +555,8 @@ impl Into<f64> for Decimal {
 impl Into<i32> for Decimal {
     fn into(self) -> i32 {
         let sign = if self.negative { -1i32 } else { 1i32 };
-        (self.value as i32)
+        i32::try_from(self.value)
+            .expect("signed integer")
             .checked_mul(sign)
             .expect("signed integer")
     }
-- 
2.43.0


From 2adc94e80a2083383cb6313966f9c1db35cd8c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 18/27] fix: parsing a decimal reports malformed or
 out-of-range text instead of aborting or corrupting it

---
 programs/hmmcl-sandbox/src/decimal.rs | 36 +++++++++++++++------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index a0aae79..5a08bba 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -210,7 +210,10 @@ impl Decimal {
             Some(loc) => {
                 // slice up to `loc` and 1 after to skip the 'e' char
                 let (base, exp) = (&s[..loc], &s[loc + 1..]);
-                (base, i64::from_str(exp).unwrap())
+                (
+                    base,
+                    i64::from_str(exp).map_err(|_| ErrorCode::ParseError)?,
+                )
             }
         };
 
@@ -252,24 +255,25 @@ impl Decimal {
             }
         };
 
-        let scale = (decimal_offset - exp).abs() as u8;
+        let digits = u128::from_str_radix(&digits, radix).map_err(|_| ErrorCode::ParseError)?;
 
         if exp.is_positive() {
-            Ok(Decimal::new(
-                Decimal::from_str(base.as_str())
-                    .expect("decimal of base")
-                    .to_scale(exp.abs() as u8)
-                    .value,
-                0,
-                negative,
-            )
-            .to_scale(exp.abs() as u8))
+            // keep as many decimal places as the exponent and the fraction ask for
+            let scale = u8::try_from(exp.max(decimal_offset))
+                .map_err(|_| ErrorCode::ExceedsPrecisionRange)?;
+            let shift = u32::try_from(exp - decimal_offset + i64::from(scale))
+                .map_err(|_| ErrorCode::ExceedsRange)?;
+            let value = 10u128
+                .checked_pow(shift)
+                .and_then(|factor| digits.checked_mul(factor))
+                .ok_or(ErrorCode::ExceedsRange)?;
+            Ok(Decimal::new(value, scale, negative))
         } else {
-            Ok(Decimal::new(
-                u128::from_str_radix(&digits, radix).unwrap(),
-                scale,
-                negative,
-            ))
+            let scale = decimal_offset
+                .checked_sub(exp)
+                .and_then(|scale| u8::try_from(scale).ok())
+                .ok_or(ErrorCode::ExceedsPrecisionRange)?;
+            Ok(Decimal::new(digits, scale, negative))
         }
     }
 }
-- 
2.43.0


From 16f4ebd7a290fe8ae201dcda50c68a9bf51874b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 19/27] fix: logarithm next to a power of two divides by the
 right power

---
 programs/hmmcl-sandbox/src/decimal.rs | 35 +++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 5a08bba..87ae6ef 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -935,6 +935,18 @@ impl BitLength<Decimal> for Decimal {
     }
 }
 
+/// Private function to return the power of two for an integer exponent at compute scale
+fn power_of_two(exponent: Decimal) -> Decimal {
+    let bits = u32::try_from(exponent.value).expect("exponent");
+    let power = Decimal::from_u128(2u128.checked_pow(bits).expect("power of two")).to_compute_scale();
+
+    if exponent.is_negative() {
+        Decimal::one().div(power)
+    } else {
+        power
+    }
+}
+
 /// Calculate the natural logarithm of a [Decimal] value. For full algorithm please refer to:
 // https://docs.google.com/spreadsheets/d/19mgYjGQlpsuaTk1zXujn-yCSdbAL25sP/edit?pli=1#gid=2070648638
 impl Ln<Decimal> for Decimal {
@@ -951,13 +963,22 @@ impl Ln<Decimal> for Decimal {
 
         let ln_2_decimal = Decimal::new(693_147_180_559u128, 12, false);
 
-        let bit_length_decimal = self.bit_length().expect("bit_length");
-
-        // TODO: calculate with higher compute scale when big_mul is implemented otherwise overflow
-        let max = Decimal::from_u64(2)
-            .to_scale(6)
-            .pow(bit_length_decimal.to_scale(6))
-            .to_compute_scale();
+        // The bit length is a floating point estimate, off by one next to a power of two:
+        // settle on the powers of two with max <= value < next
+        let bit = Decimal::from_u64(1);
+        let mut bit_length_decimal = self.bit_length().expect("bit_length");
+        let max = loop {
+            let max = power_of_two(bit_length_decimal);
+            let next = bit_length_decimal.add(bit)?;
+
+            if max.gt(scaled_out)? {
+                bit_length_decimal = bit_length_decimal.sub(bit)?;
+            } else if power_of_two(next).lte(scaled_out)? {
+                bit_length_decimal = next;
+            } else {
+                break max;
+            }
+        };
 
         let (s_0, t_0, lx_0) = log_table_value(scaled_out, max, 0);
         let (s_1, t_1, lx_1) = log_table_value(s_0, t_0, 1);
-- 
2.43.0


From dc96e57c611fd9fac0805965cd457121771fc52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 20/27] fix: conversion of a decimal to a float keeps the sign

---
 programs/hmmcl-sandbox/src/decimal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 87ae6ef..eee1310 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -551,7 +551,12 @@ impl Into<usize> for Decimal {
 /// Convert a [Decimal] into an unsigned 64-bit float.
 impl Into<f64> for Decimal {
     fn into(self) -> f64 {
-        self.value as f64 / self.denominator() as f64
+        let magnitude = self.value as f64 / self.denominator() as f64;
+        if self.is_negative() {
+            -magnitude
+        } else {
+            magnitude
+        }
     }
 }
 
-- 
2.43.0


From 3a7a4c984eabbd1c92c7d176fe312b6ac3bd6589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 21/27] fix: logarithm table entry for 1.000004

---
 programs/hmmcl-sandbox/src/decimal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index eee1310..5051d2b 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -792,7 +792,7 @@ fn log_table(row: usize, col: usize) -> u128 {
             3992021269,
             399920021,
             39999200,
-            3999991,
+            3999992,
             399999,
             39999,
             4000,
-- 
2.43.0


From ef5878a49a77f117314f740acb48b1cd18ca2b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 22/27] fix: parsing rejects a plus sign inside the digits

---
 programs/hmmcl-sandbox/src/decimal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 5051d2b..9eefb2c 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -255,6 +255,11 @@ impl Decimal {
             }
         };
 
+        // the integer parser would accept a plus sign in front of the digits
+        if digits.starts_with('+') {
+            return Err(ErrorCode::ParseError);
+        }
+
         let digits = u128::from_str_radix(&digits, radix).map_err(|_| ErrorCode::ParseError)?;
 
         if exp.is_positive() {
-- 
2.43.0


From 79971a76ce3493979387c0aa5d9a0265d202b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 23/27] fix: deposit and withdraw do not write back the stale
 copy of the current tick

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs  | 2 +-
 programs/hmmcl-sandbox/src/instructions/withdraw.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 3c6dbcc..84adf5a 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -66,7 +66,7 @@ pub struct Deposit<'info> {
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
     #[account(
-        mut,
+        // not mut: it may be one of the range's ticks, and writing this copy back would undo their update
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
diff --git a/programs/hmmcl-sandbox/src/instructions/withdraw.rs b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
index 4af12c6..d0813dd 100644
--- a/programs/hmmcl-sandbox/src/instructions/withdraw.rs
+++ b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
@@ -68,7 +68,7 @@ pub struct Withdraw<'info> {
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
     #[account(
-        mut,
+        // not mut: it may be one of the range's ticks, and writing this copy back would undo their update
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
-- 
2.43.0


From c6ef33d7d8cfd156ff91971f731605a6865d567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 24/27] fix: summing the two kinds of credited fees cannot wrap
 around

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs  |  4 ++--
 programs/hmmcl-sandbox/src/instructions/withdraw.rs |  4 ++--
 programs/hmmcl-sandbox/src/state/fees.rs            | 12 ++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 84adf5a..328996c 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -264,10 +264,10 @@ pub fn handle(
 
     // offset fee amounts from deposit amounts: this will be the amount debited from user
     let x_debited = x_in
-        .sub(Decimal::new(new_fee.f_x + new_fee.h_x, new_fee.fee_scale, false).to_scale(x_in.scale))
+        .sub(Decimal::new(new_fee.total_x(), new_fee.fee_scale, false).to_scale(x_in.scale))
         .unwrap();
     let y_debited = y_in
-        .sub(Decimal::new(new_fee.f_y + new_fee.h_y, new_fee.fee_scale, false).to_scale(y_in.scale))
+        .sub(Decimal::new(new_fee.total_y(), new_fee.fee_scale, false).to_scale(y_in.scale))
         .unwrap();
 
     if x_debited.gt(x).unwrap() {
diff --git a/programs/hmmcl-sandbox/src/instructions/withdraw.rs b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
index d0813dd..73ca042 100644
--- a/programs/hmmcl-sandbox/src/instructions/withdraw.rs
+++ b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
@@ -248,12 +248,12 @@ pub fn handle(
     // add fees on top of what user would receive
     let x_credited = x_out
         .add(
-            Decimal::new(new_fee.f_x + new_fee.h_x, new_fee.fee_scale, false).to_scale(x_out.scale),
+            Decimal::new(new_fee.total_x(), new_fee.fee_scale, false).to_scale(x_out.scale),
         )
         .unwrap();
     let y_credited = y_out
         .add(
-            Decimal::new(new_fee.f_y + new_fee.h_y, new_fee.fee_scale, false).to_scale(y_out.scale),
+            Decimal::new(new_fee.total_y(), new_fee.fee_scale, false).to_scale(y_out.scale),
         )
         .unwrap();
 
diff --git a/programs/hmmcl-sandbox/src/state/fees.rs b/programs/hmmcl-sandbox/src/state/fees.rs
index 9eb3b53..c580311 100644
--- a/programs/hmmcl-sandbox/src/state/fees.rs
+++ b/programs/hmmcl-sandbox/src/state/fees.rs
@@ -12,6 +12,18 @@ pub struct Fee {
     pub h_y: u128, // hmm adjustment fee for token y
 }
 
+impl Fee {
+    /// swap fees and hmm adjustment fees of token x together
+    pub fn total_x(&self) -> u128 {
+        self.f_x.checked_add(self.h_x).unwrap()
+    }
+
+    /// swap fees and hmm adjustment fees of token y together
+    pub fn total_y(&self) -> u128 {
+        self.f_y.checked_add(self.h_y).unwrap()
+    }
+}
+
 impl Default for Fee {
     fn default() -> Self {
         Self {
-- 
2.43.0


From 335a0b1a0c462b03ab8dbb5da6ac9b141cd1a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 25/27] fix: deposit rejects fees above the deposit instead of
 dropping the sign

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 328996c..f3d5caf 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -270,6 +270,11 @@ pub fn handle(
         .sub(Decimal::new(new_fee.total_y(), new_fee.fee_scale, false).to_scale(y_in.scale))
         .unwrap();
 
+    // credited fees above what the deposit takes cannot be paid out by a deposit
+    if x_debited.negative || y_debited.negative {
+        return Err(ErrorCode::InvalidFee.into());
+    }
+
     if x_debited.gt(x).unwrap() {
         emit!(DepositAmountExceeded {
             deposited: x.abs(),
-- 
2.43.0


From 9ed230adbfa108e40e1e6d9a1727e307dea371e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 26/27] fix: fee growth inside a range is not stored without
 its sign

---
 programs/hmmcl-sandbox/src/instructions/manage_fee.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/instructions/manage_fee.rs b/programs/hmmcl-sandbox/src/instructions/manage_fee.rs
index 8c02d66..2da0308 100644
--- a/programs/hmmcl-sandbox/src/instructions/manage_fee.rs
+++ b/programs/hmmcl-sandbox/src/instructions/manage_fee.rs
@@ -83,6 +83,9 @@ pub fn compute_latest_fee(
         Decimal::new(lwr_fee.h_y, lwr_fee.fee_scale, false),
         Decimal::new(upr_fee.h_y, upr_fee.fee_scale, false),
     );
+    // a stored fee has no sign
+    assert!(!new_fr_x.negative && !new_fr_y.negative && !new_hr_x.negative && !new_hr_y.negative);
+
     Fee {
         fee_scale: scale,
         f_x: new_fr_x.to_scale(scale).value,
-- 
2.43.0


From 5dd2ce29745d8e6396e95ee968444d3be1e870e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 27/27] fix: at scale one a fifth is not a quarter in a decimal
 exponent

---
 programs/hmmcl-sandbox/src/decimal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 9eefb2c..ff67494 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -479,13 +479,16 @@ impl Pow<Decimal> for Decimal {
             // e.g. x^0 = 1
             Some(x) if x.is_zero() => one,
             // e.g. x^0.25 = ⁴√x = √(√x) = sqrt(sqrt(x))
-            Some(x) if x.eq(zero_point_two_five).unwrap() => self.sqrt().unwrap().sqrt().unwrap(),
+            // (a quarter needs two decimal places, at a smaller scale the constant is rounded)
+            Some(x) if self.scale >= 2 && x.eq(zero_point_two_five).unwrap() => {
+                self.sqrt().unwrap().sqrt().unwrap()
+            }
             // e.g. x^0.5 = √x = sqrt(x)
             Some(x) if x.eq(zero_point_five).unwrap() => self.sqrt().unwrap(),
             // e.g. x^1 = x
             Some(x) if x.eq(one).unwrap() => self.clone(),
             // e.g. x^1.25 = x(√(√x)) = x(sqrt(sqrt(x)))
-            Some(x) if x.eq(one_point_two_five).unwrap() => {
+            Some(x) if self.scale >= 2 && x.eq(one_point_two_five).unwrap() => {
                 self.mul(self.sqrt().unwrap().sqrt().unwrap())
             }
             // e.g. x^1.50 = x(√x) = x(sqrt(x))
-- 
2.43.0


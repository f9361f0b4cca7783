From f5c8abb5c0871d66f72de2b07d25e03cf0e4fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:07 +0000
Subject: [PATCH 1/2] fix: fold all-constant operands of UInt32::addmany whose
 value is unknown

A word derived from unknown words can have only constant bits (a shift, a
majority or a choice of constants). addmany then allocated result bits when
the circuit was synthesized without a witness but returned a constant when it
was synthesized with one, so the parameters did not match the proof.
---
 src/gadgets/uint32.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gadgets/uint32.rs b/src/gadgets/uint32.rs
index af4d634..74ad3e9 100644
--- a/src/gadgets/uint32.rs
+++ b/src/gadgets/uint32.rs
@@ -332,8 +332,16 @@ impl UInt32 {
 
         // Iterate over the operands
         for op in operands {
+            // An operand whose bits are all constant has a known value even if it
+            // was derived from words whose value is unknown (e.g. by a shift).
+            let op_value = if op.bits.iter().all(|bit| bit.is_constant()) {
+                Self::from_bits(&op.bits).value
+            } else {
+                op.value
+            };
+
             // Accumulate the value
-            match op.value {
+            match op_value {
                 Some(val) => {
                     if let Some(v) = result_value.as_mut() {
                         *v += u64::from(val);
-- 
2.43.0


From 235aaed2dd9ff560e2e1a8c22b215ce04f7a93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 2/2] fix: do not mark variables whose terms cancel as dense in
 the prover

A constraint whose A or B combination mentions a variable several times with
coefficients that sum to zero (lc + x - x) made the prover consume a query
element that the generator leaves out, so honest proofs failed or were wrong.
---
 groth16/src/prover.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index c61c2a0..cc34d6f 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -1,4 +1,5 @@
 use rand_core::RngCore;
+use std::collections::BTreeMap;
 use std::ops::{AddAssign, MulAssign};
 use std::sync::Arc;
 
@@ -18,13 +19,19 @@ use bellman::multicore::Worker;
 
 fn eval<S: PrimeField>(
     lc: &LinearCombination<S>,
-    mut input_density: Option<&mut DensityTracker>,
-    mut aux_density: Option<&mut DensityTracker>,
+    input_density: Option<&mut DensityTracker>,
+    aux_density: Option<&mut DensityTracker>,
     input_assignment: &[S],
     aux_assignment: &[S],
 ) -> S {
     let mut acc = S::ZERO;
 
+    // Terms for the same variable may cancel out. The variable is then absent from
+    // this constraint's QAP polynomial and must not be marked as dense because of
+    // it, since the CRS omits query elements that are zero.
+    let mut input_totals = BTreeMap::new();
+    let mut aux_totals = BTreeMap::new();
+
     for &(index, coeff) in lc.as_ref() {
         let mut tmp;
 
@@ -32,14 +39,14 @@ fn eval<S: PrimeField>(
             match index.get_unchecked() {
                 Index::Input(i) => {
                     tmp = input_assignment[i];
-                    if let Some(ref mut v) = input_density {
-                        v.inc(i);
+                    if input_density.is_some() {
+                        *input_totals.entry(i).or_insert(S::ZERO) += coeff;
                     }
                 }
                 Index::Aux(i) => {
                     tmp = aux_assignment[i];
-                    if let Some(ref mut v) = aux_density {
-                        v.inc(i);
+                    if aux_density.is_some() {
+                        *aux_totals.entry(i).or_insert(S::ZERO) += coeff;
                     }
                 }
             }
@@ -51,6 +58,21 @@ fn eval<S: PrimeField>(
         }
     }
 
+    if let Some(density) = input_density {
+        for (i, total) in input_totals {
+            if !total.is_zero_vartime() {
+                density.inc(i);
+            }
+        }
+    }
+    if let Some(density) = aux_density {
+        for (i, total) in aux_totals {
+            if !total.is_zero_vartime() {
+                density.inc(i);
+            }
+        }
+    }
+
     acc
 }
 
-- 
2.43.0


From d846b6f08397ddd1aff7b01bdae81792df91b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:12 +0000
Subject: [PATCH 1/2] fix: evaluate the degree-11 S-box that
 Poseidon2Params::new accepts

Poseidon2Params::new accepts d = 11 (and the parameter script can emit it),
but Poseidon2::sbox_p panicked for it, so every permutation call of such a
parameter set aborted.
---
 src/poseidon2/poseidon2.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/poseidon2/poseidon2.rs b/src/poseidon2/poseidon2.rs
index d8eb478..6c24903 100644
--- a/src/poseidon2/poseidon2.rs
+++ b/src/poseidon2/poseidon2.rs
@@ -79,6 +79,14 @@ impl<F: PrimeField> Poseidon2<F> {
                 out.mul_assign(input);
                 out
             }
+            11 => {
+                let mut out = input2;
+                out.square_in_place();
+                out.square_in_place();
+                out.mul_assign(&input2);
+                out.mul_assign(input);
+                out
+            }
             _ => {
                 panic!()
             }
-- 
2.43.0


From c6e970632caef62e7ca5eb85be2917c0f09a138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:28 +0000
Subject: [PATCH 2/2] fix: give the Neptune BN256 and Vesta instances the
 documented number of internal rounds

The formula next to the instances gives 69 internal rounds for t = 4 and
d = 5 at 128 bits (as the BLS12 and Pallas instances have); these two had 68.
---
 src/neptune/neptune_instances.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neptune/neptune_instances.rs b/src/neptune/neptune_instances.rs
index 97cd35b..41b7594 100644
--- a/src/neptune/neptune_instances.rs
+++ b/src/neptune/neptune_instances.rs
@@ -10,7 +10,7 @@ lazy_static! {
     // Number of partial rounds:
     // ceil(1.125 * ceil(log_d(2) * (min(kappa, log_2(p)) - 6) + 3 + t + log_d(t)))
     // BN256
-    pub static ref NEPTUNE_BN_PARAMS: Arc<NeptuneParams<FpBN256>> = Arc::new(NeptuneParams::new(4, 5, 6, 68));
+    pub static ref NEPTUNE_BN_PARAMS: Arc<NeptuneParams<FpBN256>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     // BLS12
     pub static ref NEPTUNE_BLS_4_PARAMS: Arc<NeptuneParams<FpBLS12>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     pub static ref NEPTUNE_BLS_8_PARAMS: Arc<NeptuneParams<FpBLS12>> = Arc::new(NeptuneParams::new(8, 5, 6, 74));
@@ -26,5 +26,5 @@ lazy_static! {
     pub static ref NEPTUNE_PALLAS_4_PARAMS: Arc<NeptuneParams<FpPallas>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     pub static ref NEPTUNE_PALLAS_8_PARAMS: Arc<NeptuneParams<FpPallas>> = Arc::new(NeptuneParams::new(8, 5, 6, 74));
     // Vesta
-    pub static ref NEPTUNE_VESTA_PARAMS: Arc<NeptuneParams<FpVesta>> = Arc::new(NeptuneParams::new(4, 5, 6, 68));
+    pub static ref NEPTUNE_VESTA_PARAMS: Arc<NeptuneParams<FpVesta>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
 }
\ No newline at end of file
-- 
2.43.0


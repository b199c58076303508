From d0b6c6cf2c8c6acc0f41c07d5cc7b96f16f8603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:48 +0000
Subject: [PATCH 1/2] fix: evaluate the S-box degree 11 that
 Poseidon2Params::new accepts

---
 src/poseidon2/poseidon2.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/poseidon2/poseidon2.rs b/src/poseidon2/poseidon2.rs
index d8eb478..6c24903 100644
--- a/src/poseidon2/poseidon2.rs
+++ b/src/poseidon2/poseidon2.rs
@@ -79,6 +79,14 @@ impl<F: PrimeField> Poseidon2<F> {
                 out.mul_assign(input);
                 out
             }
+            11 => {
+                let mut out = input2;
+                out.square_in_place();
+                out.square_in_place();
+                out.mul_assign(&input2);
+                out.mul_assign(input);
+                out
+            }
             _ => {
                 panic!()
             }
-- 
2.43.0


From f9f6c36056e9f1362bf835d422d4f29bbcfd7c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:48 +0000
Subject: [PATCH 2/2] fix: partial rounds of the BN256 and Vesta Neptune
 instances per the documented formula

---
 src/neptune/neptune_instances.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neptune/neptune_instances.rs b/src/neptune/neptune_instances.rs
index 97cd35b..41b7594 100644
--- a/src/neptune/neptune_instances.rs
+++ b/src/neptune/neptune_instances.rs
@@ -10,7 +10,7 @@ lazy_static! {
     // Number of partial rounds:
     // ceil(1.125 * ceil(log_d(2) * (min(kappa, log_2(p)) - 6) + 3 + t + log_d(t)))
     // BN256
-    pub static ref NEPTUNE_BN_PARAMS: Arc<NeptuneParams<FpBN256>> = Arc::new(NeptuneParams::new(4, 5, 6, 68));
+    pub static ref NEPTUNE_BN_PARAMS: Arc<NeptuneParams<FpBN256>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     // BLS12
     pub static ref NEPTUNE_BLS_4_PARAMS: Arc<NeptuneParams<FpBLS12>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     pub static ref NEPTUNE_BLS_8_PARAMS: Arc<NeptuneParams<FpBLS12>> = Arc::new(NeptuneParams::new(8, 5, 6, 74));
@@ -26,5 +26,5 @@ lazy_static! {
     pub static ref NEPTUNE_PALLAS_4_PARAMS: Arc<NeptuneParams<FpPallas>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     pub static ref NEPTUNE_PALLAS_8_PARAMS: Arc<NeptuneParams<FpPallas>> = Arc::new(NeptuneParams::new(8, 5, 6, 74));
     // Vesta
-    pub static ref NEPTUNE_VESTA_PARAMS: Arc<NeptuneParams<FpVesta>> = Arc::new(NeptuneParams::new(4, 5, 6, 68));
+    pub static ref NEPTUNE_VESTA_PARAMS: Arc<NeptuneParams<FpVesta>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
 }
\ No newline at end of file
-- 
2.43.0


From f9208b26c1512fdcc615f869cfc49e7afc67eb51 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH] fix: represent an identity rk as (0, 0) in the public inputs
 instead of panicking

---
 src/circuit.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 567b606..f23bb25 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -13,7 +13,10 @@ use halo2_proofs::{
     transcript::{Blake2bRead, Blake2bWrite},
 };
 use memuse::DynamicUsage;
-use pasta_curves::{arithmetic::CurveAffine, pallas, vesta};
+use pasta_curves::{
+    arithmetic::{Coordinates, CurveAffine},
+    pallas, vesta,
+};
 use rand::RngCore;
 
 use self::{
@@ -840,14 +843,16 @@ impl Instance {
         instance[CV_NET_Y] = self.cv_net.y();
         instance[NF_OLD] = self.nf_old.0;
 
+        // As for `cv_net`, the identity (which is a valid encoding of `rk`, and has no
+        // affine coordinates) is represented as (0, 0), like it is inside the circuit.
         let rk = pallas::Point::from_bytes(&self.rk.clone().into())
             .unwrap()
-            .to_affine()
-            .coordinates()
-            .unwrap();
+            .to_affine();
+        if let Some(rk) = Option::<Coordinates<pallas::Affine>>::from(rk.coordinates()) {
+            instance[RK_X] = *rk.x();
+            instance[RK_Y] = *rk.y();
+        }
 
-        instance[RK_X] = *rk.x();
-        instance[RK_Y] = *rk.y();
         instance[CMX] = self.cmx.inner();
         instance[ENABLE_SPEND] = vesta::Scalar::from(u64::from(self.enable_spend));
         instance[ENABLE_OUTPUT] = vesta::Scalar::from(u64::from(self.enable_output));
-- 
2.43.0


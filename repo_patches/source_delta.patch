From 87792f8e2d257353c5cd23f1c3678a8f42a1780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:22 +0000
Subject: [PATCH 1/5] hook: reduced parameter set behind --cfg festa_sim_toy

---
 src/fields_sim_toy.rs | 154 ++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs            |   5 ++
 2 files changed, 159 insertions(+)
 create mode 100644 src/fields_sim_toy.rs

diff --git a/src/fields_sim_toy.rs b/src/fields_sim_toy.rs
new file mode 100644
index 0000000..d59c985
--- /dev/null
+++ b/src/fields_sim_toy.rs
@@ -0,0 +1,154 @@
+//! Reduced FESTA parameter set. Only compiled with `--cfg festa_sim_toy`, where it
+//! stands in for `fields.rs` so that a simulator can run many complete executions.
+//! It offers no security whatsoever. Generated, same shape as `fields.rs`.
+pub mod FpFESTA {
+    const N: usize = 4;
+    const BITLEN: usize = 249;
+    const MODULUS: [u64; N] = [
+        0xFFFFFFFFFFFFFFFF,
+        0xFFFFFFFFFFFFFFFF,
+        0x25924587A4D78F6B,
+        0x01A0A483CCB8DDD5,
+    ];
+    const HALF_MODULUS: [u64; N] = [
+        0x0000000000000000,
+        0x0000000000000000,
+        0x92C922C3D26BC7B6,
+        0x00D05241E65C6EEA,
+    ];
+    const R_VAL: [u64; N] = [
+        0x000000000000009D,
+        0x0000000000000000,
+        0xF54B5BCFE7CD0AC4,
+        0x007B1B2B729FF447,
+    ];
+    const MINUS_R_VAL: [u64; N] = [
+        0xFFFFFFFFFFFFFF62,
+        0xFFFFFFFFFFFFFFFF,
+        0x3046E9B7BD0A84A7,
+        0x012589585A18E98D,
+    ];
+    const DR_VAL: [u64; N] = [
+        0x000000000000013A,
+        0x0000000000000000,
+        0xEA96B79FCF9A1588,
+        0x00F63656E53FE88F,
+    ];
+    const TR_VAL: [u64; N] = [
+        0x00000000000001D7,
+        0x0000000000000000,
+        0xDFE2136FB767204C,
+        0x0171518257DFDCD7,
+    ];
+    const QR_VAL: [u64; N] = [
+        0x0000000000000275,
+        0x0000000000000000,
+        0xAF9B29B7FA5C9BA4,
+        0x004BC829FDC6F34A,
+    ];
+    const R2_VAL: [u64; N] = [
+        0xCAB2AB4F554C6F17,
+        0x1CF4876F87C954E1,
+        0x083D04B56718C612,
+        0x00DBB7E2F7BEE21A,
+    ];
+    const P0I: u64 = 1;
+    const TFIXDIV_VAL: [u64; N] = [
+        0x420B726C8C77CEA6,
+        0x9CB12A206093A94D,
+        0x4C8B4AD7B73DD912,
+        0x0072CBA8931D2DAA,
+    ];
+    const TDEC_VAL: [u64; N] = [
+        0x1CF4876F87C954E1,
+        0x4EF1FD501DB67CC6,
+        0x7ECD2D78D242B912,
+        0x0149E499322FD905,
+    ];
+    const WIN_LEN: usize = 5;
+    const SQRT_EH: [u8; 25] = [
+        24, 22, 7, 30, 26, 4, 29, 1, 11, 4, 9, 22, 4, 21, 14, 23, 17, 11, 6, 15, 16, 4, 5, 8, 3,
+    ];
+    const SQRT_EL: usize = 25;
+    const FOURTH_ROOT_EH: [u8; 25] = [
+        12, 27, 3, 15, 13, 18, 30, 16, 5, 18, 4, 11, 18, 10, 23, 27, 24, 5, 19, 7, 8, 18, 2, 20, 1,
+    ];
+    const FOURTH_ROOT_EL: usize = 25;
+    const P1: u64 = 3495051750;
+    const P1DIV_M: u64 = 4221922424365716539;
+
+    crate::finitefield::fp_gen::define_fp_core! {}
+}
+
+pub mod FpFESTAExt {
+    use num_bigint::BigUint;
+
+    use super::FpFESTA::Fp;
+    const NQR_RE: Fp = Fp::new([
+        0x000000000000089A,
+        0x0000000000000000,
+        0xD3D5EF4019D85908,
+        0x0038EA5111DBE49A,
+    ]);
+
+    pub const P0x: Fp = Fp::new([
+        0x000000000000013A,
+        0x0000000000000000,
+        0xEA96B79FCF9A1588,
+        0x00F63656E53FE88F,
+    ]);
+    pub const P0y: Fp = Fp::new([
+        0x778800F3E72AC611,
+        0xB7D3A4E035B6179A,
+        0x92AED6AB27D6A01D,
+        0x00B034282156165E,
+    ]);
+    pub const Q0x: Fp = Fp::new([
+        0x00000000000001D7,
+        0x0000000000000000,
+        0xDFE2136FB767204C,
+        0x0171518257DFDCD7,
+    ]);
+    pub const Q0y: Fp = Fp::new([
+        0xF2B930D25663C05A,
+        0x0C5C5B161DC0E9C7,
+        0xC7B74863A8B4FE7E,
+        0x005317A3FEC8989B,
+    ]);
+
+    /// Public parameters
+    pub const D1: [u32; 2] = [0x9A038091, 0x00003017];
+    pub const D1_FACTORED: [(u32, u32); 4] = [(3, 6), (29, 2), (37, 2), (251, 2)];
+    pub const D2: [u32; 2] = [0x4CCCC7BF, 0x000000B4];
+    pub const D2_FACTORED: [(u32, u32); 5] = [(5, 2), (7, 3), (13, 2), (17, 2), (43, 2)];
+    pub const DA: [u32; 2] = [0x8A275069, 0x001281AA];
+    pub const DA_FACTORED: [(u32, u32); 4] = [(41, 2), (83, 2), (127, 2), (167, 2)];
+    pub const DA1: [u32; 1] = [0x0B73A159];
+    pub const DA1_FACTORED: [(u32, u32); 2] = [(83, 1), (167, 1)];
+    pub const DA2: [u32; 1] = [0x019DB591];
+    pub const DA2_FACTORED: [(u32, u32); 2] = [(41, 1), (127, 1)];
+    pub const M1: [u32; 1] = [0x003A2E93];
+    pub const M2: [u32; 1] = [0xEFE7CDDF];
+
+    pub const L_POWER: u32 = 130;
+    pub const THETA_ISOGENY_LENGTH: u32 = 128;
+
+    pub const BASIS_ORDER: [u32; 8] = [
+        0x00000000, 0x00000000, 0x00000000, 0x00000000, 0xA4D78F6C, 0x25924587, 0xCCB8DDD5,
+        0x01A0A483,
+    ];
+    pub const BIGUINT_MODULUS: [u32; 8] = [
+        0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xA4D78F6B, 0x25924587, 0xCCB8DDD5,
+        0x01A0A483,
+    ];
+
+    pub const THETA_STRATEGY: [usize; 127] = [
+        49, 31, 20, 12, 7, 4, 2, 1, 1, 1, 2, 1, 1, 3, 2, 1, 1, 1, 1, 5, 3, 2, 1, 1, 1, 1, 2, 1, 1,
+        1, 8, 5, 3, 2, 1, 1, 1, 1, 2, 1, 1, 1, 3, 2, 1, 1, 1, 1, 1, 12, 7, 5, 3, 2, 1, 1, 1, 1, 2,
+        1, 1, 1, 3, 2, 1, 1, 1, 1, 5, 3, 2, 1, 1, 1, 1, 2, 1, 1, 1, 21, 12, 7, 4, 2, 1, 1, 1, 2, 1,
+        1, 3, 2, 1, 1, 1, 1, 5, 3, 2, 1, 1, 1, 1, 2, 1, 1, 1, 9, 5, 3, 2, 1, 1, 1, 1, 2, 1, 1, 1,
+        4, 2, 1, 1, 1, 2, 1, 1,
+    ];
+
+    crate::finitefield::fp2_gen::define_fp2_core! {}
+}
diff --git a/src/lib.rs b/src/lib.rs
index 091f178..79b09c9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,8 +1,13 @@
 #![allow(non_snake_case)]
+#![allow(unexpected_cfgs)] // festa_sim_toy, set only by the simulator build
 
 pub mod discrete_log;
 pub mod eccore;
 pub mod festa;
+#[cfg(not(festa_sim_toy))]
+pub mod fields;
+#[cfg(festa_sim_toy)]
+#[path = "fields_sim_toy.rs"]
 pub mod fields;
 pub mod finitefield;
 pub mod isogeny;
-- 
2.43.0


From ea695bafa30d6520ee6a99b34fa3969b0481fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:13 +0000
Subject: [PATCH 2/5] fix: reject malformed key and ciphertext encodings in
 release builds

decode checked the length and the canonicity of the field elements with
debug_assert only; a release build silently accepted over-long input and
read non-canonical elements as zero.
---
 src/festa.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/festa.rs b/src/festa.rs
index d7e75a8..b9b2778 100644
--- a/src/festa.rs
+++ b/src/festa.rs
@@ -102,12 +102,12 @@ impl SecretKey {
         let total_len = Fq::ENCODED_LENGTH * 9 + 82 * 2;
         let mut offset: usize = 0;
         let mut var = [Fq::ZERO; 9];
-        debug_assert_eq!(bytearray.len(), total_len);
+        assert_eq!(bytearray.len(), total_len, "wrong secret key length");
 
         for i in 0..9 {
             let r: u32;
             (var[i], r) = Fq::decode(&bytearray[offset..offset + Fq::ENCODED_LENGTH]);
-            debug_assert_eq!(r, u32::MAX);
+            assert_eq!(r, u32::MAX, "invalid field element in secret key");
             offset += Fq::ENCODED_LENGTH;
         }
         let a11 = BigUint::from_bytes_le(&bytearray[offset..offset + 82]);
@@ -177,12 +177,16 @@ impl TrapdoorOutput {
     pub fn decode(binary: &Vec<u8>) -> Self {
         let mut offset = 0;
         let mut var = [Fq::ZERO; 10];
-        debug_assert_eq!(binary.len(), Fq::ENCODED_LENGTH * 10);
+        assert_eq!(
+            binary.len(),
+            Fq::ENCODED_LENGTH * 10,
+            "wrong ciphertext length"
+        );
 
         for i in 0..10 {
             let r;
             (var[i], r) = Fq::decode(&binary[offset..offset + Fq::ENCODED_LENGTH]);
-            debug_assert_eq!(r, u32::MAX);
+            assert_eq!(r, u32::MAX, "invalid field element in ciphertext");
             offset += Fq::ENCODED_LENGTH;
         }
 
-- 
2.43.0


From 0ed91a7f4f6c70634b10f9b5a8d35cf5793e6c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:29 +0000
Subject: [PATCH 3/5] fix: do not search forever for a torsion basis that does
 not exist

torsion_basis skipped points that D does not kill and kept iterating. On a
curve of another order no point ever qualifies, so opening a ciphertext or
sealing to a public key whose curve was corrupted never returned.
---
 src/supersingular.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/supersingular.rs b/src/supersingular.rs
index 4b9a9c8..a1ab80e 100644
--- a/src/supersingular.rs
+++ b/src/supersingular.rs
@@ -219,9 +219,12 @@ pub fn torsion_basis(E: &Curve, factored_D: &[(u32, u32)], even_power: usize) ->
         if P.equals(&Q) != 0 || Q.isinfinity() != 0 {
             continue;
         }
-        if E.mul_big(&Q, &D).isinfinity() == 0 {
-            continue;
-        }
+        // The group exponent of a valid curve kills every point, so this curve
+        // has no D-torsion basis and no later point would give one either.
+        assert!(
+            E.mul_big(&Q, &D).isinfinity() != 0,
+            "the curve does not have full rational D-torsion"
+        );
 
         if !point_has_factored_order(E, &Q, factored_D) {
             continue;
-- 
2.43.0


From 9af07bd8aab1f0df2b3f38221269eb74fb0c9fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:29 +0000
Subject: [PATCH 4/5] fix: fail key generation when no random kernel point was
 found

With a degraded random source generate_random_point_order_factored_D gives up
and returns the point at infinity, which was used as the kernel of the walk
and gave a malformed key.
---
 src/supersingular.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/supersingular.rs b/src/supersingular.rs
index a1ab80e..753a849 100644
--- a/src/supersingular.rs
+++ b/src/supersingular.rs
@@ -380,6 +380,10 @@ pub fn random_isogeny_x_only(
     for _ in 0..steps {
         let kernel_point =
             generate_random_point_order_factored_D(&domain_curve, &D, L_POWER as usize);
+        assert!(
+            kernel_point.isinfinity() == 0,
+            "no kernel point found: the random source is not working"
+        );
         let mut phi = factored_kummer_isogeny(&domain_curve, &kernel_point, &one_step_degree);
         domain_curve = phi.last().expect("phi is empty").get_codomain();
         isogeny_list.append(&mut phi);
-- 
2.43.0


From 4ccf61a11d351535dd4c94443555203c64a78ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:00 +0000
Subject: [PATCH 5/5] fix: draw secrets from the system's entropy source, not
 the thread-local generator

rand's thread_rng notices a fork only when its current block of 256 bytes is
used up. A process that has generated a key and then forks, and its fork, drew
the same masks for their next keys.
---
 src/festa.rs         | 4 +++-
 src/supersingular.rs | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/festa.rs b/src/festa.rs
index b9b2778..297974b 100644
--- a/src/festa.rs
+++ b/src/festa.rs
@@ -294,7 +294,9 @@ impl FESTACrypto {
 
     /// Generate a pair of public key and secret key of FESTA PKE
     pub fn keygen(&self) -> (PublicKey, SecretKey) {
-        let mut rng = rand::thread_rng();
+        // Straight from the system: a thread-local generator would hand out the same
+        // masks in a process and its forks until its current block is used up
+        let mut rng = rand::rngs::OsRng;
         // Setting the starting curve
         let E0 = self.E0;
 
diff --git a/src/supersingular.rs b/src/supersingular.rs
index 753a849..c6c2fe1 100644
--- a/src/supersingular.rs
+++ b/src/supersingular.rs
@@ -11,7 +11,7 @@ use crate::{
     pairing::weil_pairing,
 };
 use num_bigint::BigUint;
-use rand::thread_rng;
+use rand::rngs::OsRng;
 
 /// Given the factored order D as an input, check if the point has an order D
 pub fn point_has_factored_order(E: &Curve, P: &Point, factored_order: &[(u32, u32)]) -> bool {
@@ -156,7 +156,7 @@ pub fn generate_random_point_order_factored_D(
             m * BigUint::from(*l).pow(*e)
         });
     let cofactor = BigUint::from_slice(&BASIS_ORDER) / &order;
-    let mut rng = thread_rng();
+    let mut rng = OsRng;
 
     for _ in 0..1000 {
         let random_point = E.rand_point(&mut rng);
-- 
2.43.0


From 70c90477fdf8a2ac5e817cf44b2ee1fc135f7461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:58 +0000
Subject: [PATCH 01/26] fix: build X^-(2^i) directly in oblivious expansion

Substitution only accepts odd exponents, so gen_x_pows panicked for every i > 0
and no ciphertext could be unpacked (hence no query answered).
---
 src/evaluations.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index bbe39a4..b4637b6 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -300,14 +300,14 @@ impl Evaluation {
 
     fn gen_x_pows(n: usize, ctx: &Arc<RqContext>) -> Vec<Poly> {
         let mut polys = Vec::<Poly>::new();
-        // X
-        let x = Poly::try_from_vec_u64(&ctx, &[0u64, 1]);
         for i in 0..ilog2(n) {
-            let mut xi = x.clone();
             // X^-(2^i) = -X^(N - 2^i), since X^-k = -(X^(N-k))
+            // `N - 2^i` is even for i > 0, hence the monomial isn't
+            // reachable from X via `Substitution` (odd exponents only).
             let ex = n - 2usize.pow(i as u32);
-            xi = -&xi.substitute(&Substitution::new(&x.context, ex));
-            polys.push(xi);
+            let mut coeffs = vec![0u64; n];
+            coeffs[ex] = 1;
+            polys.push(-&Poly::try_from_vec_u64(ctx, &coeffs));
         }
         polys
     }
-- 
2.43.0


From e797f80dd33ef7875b58f5b9c8b60371a3d9ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:58 +0000
Subject: [PATCH 02/26] fix: halve the second row index of the SIMD slot map

index2 must be (m - pos - 1) >> 1 as in SEAL; without the shift the map is not a
permutation and SIMD encoding loses slots.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1c06d09..1447aaa 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -147,7 +147,7 @@ impl BfvParameters {
         let mut matrix_reps_index_map = vec![0usize; degree];
         for i in 0..row_size {
             let index1 = (pos - 1) >> 1;
-            let index2 = (m - pos - 1);
+            let index2 = (m - pos - 1) >> 1;
 
             matrix_reps_index_map[i] = index1.reverse_bits() >> (degree.leading_zeros() + 1);
             matrix_reps_index_map[row_size | i] =
-- 
2.43.0


From 4f212c3afbf5581f8f209703adc9fcbf221e9e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:58 +0000
Subject: [PATCH 03/26] fix: accumulate the cross terms of a ciphertext product

c0*d1 was overwritten by c1*d0, so `&ct * &ct` did not decrypt to the product.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1447aaa..ec4e2f4 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -496,7 +496,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
         ];
         for i in 0..self.cts.len() {
             for j in 0..rhs.cts.len() {
-                cs[i + j] = &self_scaled[i] * &other_scaled[j];
+                cs[i + j] += &(&self_scaled[i] * &other_scaled[j]);
             }
         }
 
-- 
2.43.0


From 358ab4f412459fb1b26e304a1d53d808fc5159ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:58 +0000
Subject: [PATCH 04/26] fix: add a plaintext polynomial to c0 only

Adding it to c1 as well made the sum decrypt to m + p + p*s.
---
 src/bfv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index ec4e2f4..9af2111 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -443,12 +443,12 @@ impl Add<&Poly> for &BfvCipherText {
     fn add(self, rhs: &Poly) -> Self::Output {
         assert!(self.cts[0].context == rhs.context);
 
-        let c0 = &self.cts[0] + rhs;
-        let c1 = &self.cts[1] + rhs;
+        let mut cts = self.cts.clone();
+        cts[0] += rhs;
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
-- 
2.43.0


From 8fe624dc8b1f712e89d95fc0f2afdf8170f13c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:58 +0000
Subject: [PATCH 05/26] fix: record the level a ciphertext is encrypted at

encrypt_poly always recorded level 0, so ciphertexts of plaintexts at a lower
level could not be decrypted or combined.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 9af2111..250199a 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -324,7 +324,7 @@ impl SecretKey {
         BfvCipherText {
             cts: vec![b, a],
             params: self.params.clone(),
-            level: 0, // FIXME: change this
+            level: self.params.ctx_level(&pt.context).unwrap(),
         }
     }
 
-- 
2.43.0


From cfb905e998db710c26dac66ec3d5f70ba71bfafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:58 +0000
Subject: [PATCH 06/26] fix: count hypercube dimensions exactly when dim is not
 a power of two

ilog2(rows) / ilog2(dim) overcounts, e.g. rows = 9, dim = 3 gave 3 instead of 2,
and the surplus dimension zeroed the answer.
---
 src/evaluations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index b4637b6..7ccfd9d 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -117,7 +117,7 @@ impl Server {
         let mut first_dim_cts = eval_key.unpack(query_cts[0].clone());
         first_dim_cts = first_dim_cts.as_slice()[..self.first_dim].to_vec();
 
-        let dimensions = ilog2(self.db.len() / self.first_dim) / ilog2(self.dim) + 1;
+        let dimensions = (self.db.len() / self.first_dim).ilog(self.dim) as usize + 1;
 
         let rgsws_count = (dimensions - 1) * self.dim;
         let mut rgsws = vec![];
-- 
2.43.0


From b8399966346100fff4dd72cfbbc93fe11883701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:45 +0000
Subject: [PATCH 07/26] verification hooks behind cfg(vp_hooks): re-exports and
 accessors for out-of-tree harnesses

---
 src/bfv.rs         | 13 +++++++++
 src/evaluations.rs | 67 ++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs         | 28 +++++++++++++++++++
 src/omr.rs         |  9 +++++++
 4 files changed, 117 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 250199a..e72f269 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -892,3 +892,16 @@ mod tests {
         dbg!(vals, r_pt.decode());
     }
 }
+
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    use super::*;
+
+    pub fn galois_key_ksk(key: &GaliosKey) -> &Ksk {
+        &key.gk
+    }
+
+    pub fn relinearization_key_ksk(key: &RelinearizationKey) -> &Ksk {
+        &key.ksk
+    }
+}
diff --git a/src/evaluations.rs b/src/evaluations.rs
index 7ccfd9d..dc1a3f8 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -587,3 +587,70 @@ mod tests {
         dbg!(count);
     }
 }
+
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    use super::*;
+
+    pub struct VpEvaluation(Evaluation);
+
+    impl VpEvaluation {
+        pub fn build(sk: &SecretKey, params: &Arc<BfvParameters>) -> Self {
+            VpEvaluation(Evaluation::build(sk, params))
+        }
+
+        pub fn unpack(&self, ct: BfvCipherText) -> Vec<BfvCipherText> {
+            self.0.unpack(ct)
+        }
+
+        pub fn galois_keys(&self) -> Vec<(usize, &GaliosKey)> {
+            let mut keys: Vec<_> = self.0.gk.iter().map(|(k, v)| (*k, v)).collect();
+            keys.sort_by_key(|(k, _)| *k);
+            keys
+        }
+
+        pub fn sk_rgsw(&self) -> &RgswCt {
+            &self.0.sk_rgsw
+        }
+    }
+
+    pub struct VpClient(Client);
+
+    impl VpClient {
+        pub fn new(first_dim: usize, dim: usize) -> Self {
+            VpClient(Client::new(first_dim, dim))
+        }
+
+        pub fn encode(
+            &self,
+            query_dims: Vec<usize>,
+            db_rows: usize,
+            params: &Arc<BfvParameters>,
+            sk: &SecretKey,
+        ) -> Vec<u64> {
+            self.0.encode(query_dims, db_rows, params, sk)
+        }
+    }
+
+    pub struct VpServer(Server);
+
+    impl VpServer {
+        pub fn new(
+            first_dim: usize,
+            dim: usize,
+            db: &Vec<Plaintext>,
+            params: &Arc<BfvParameters>,
+        ) -> Self {
+            VpServer(Server::new(first_dim, dim, db, params))
+        }
+
+        pub fn decode(
+            &self,
+            query_cts: Vec<BfvCipherText>,
+            eval_key: &VpEvaluation,
+            params: &Arc<BfvParameters>,
+        ) -> Vec<BfvCipherText> {
+            self.0.decode(query_cts, &eval_key.0, params)
+        }
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 252fdca..85c6dd1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,3 +9,31 @@ mod rgsw;
 mod rns;
 mod rq;
 mod utils;
+
+/// Verification hooks: re-exports for out-of-tree harnesses. Compiled only
+/// with `RUSTFLAGS="--cfg vp_hooks"`.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use crate::bfv::vp_hooks::*;
+    pub use crate::bfv::{
+        multiply_with_strategy, BfvCipherText, BfvParameters, Encoding, GaliosKey, Plaintext,
+        RelinearizationKey, SecretKey,
+    };
+    pub use crate::evaluations::vp_hooks::*;
+    pub use crate::ksk::Ksk;
+    pub use crate::modulus::Modulus;
+    pub use crate::ntt::NttOperator;
+    pub use crate::omr::vp_hooks::*;
+    pub use crate::pvw::{PvwCiphertext, PvwParams, PvwPk, PvwSk};
+    pub use crate::rgsw::RgswCt;
+    pub use crate::rns::{RnsContext, RnsScaler, ScalingFactor};
+    pub use crate::rq::{BitDecomposition, Poly, Representation, RqContext, RqScaler, Substitution};
+    pub use crate::utils::{
+        bit_vector, decompose_bits, div_ceil, generate_prime, ilog2, is_prime, mod_inverse,
+        sample_vec_cbd, U256,
+    };
+
+    pub fn rq_scale(scaler: &RqScaler, p: &Poly) -> Poly {
+        scaler.scale(p)
+    }
+}
diff --git a/src/omr.rs b/src/omr.rs
index 3af75fa..2bfb5e6 100644
--- a/src/omr.rs
+++ b/src/omr.rs
@@ -57,3 +57,12 @@ fn process() {
 
 // #[tests]
 // mod tests {}
+
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    use super::*;
+
+    pub fn omr_inner_product(cts: &Vec<BfvCipherText>, polys: &Vec<Poly>) -> BfvCipherText {
+        inner_product(cts, polys)
+    }
+}
-- 
2.43.0


From 72a7c319d017cdd8143b81e5de5b0e3f531a0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:33 +0000
Subject: [PATCH 08/26] fix: report the bit size of a modulus as 64 minus its
 leading zeros

---
 src/modulus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modulus.rs b/src/modulus.rs
index d1a8ddb..654648b 100644
--- a/src/modulus.rs
+++ b/src/modulus.rs
@@ -256,6 +256,6 @@ impl Modulus {
     }
 
     pub fn bits(&self) -> u64 {
-        u64::MAX - self.p.leading_zeros().to_u64().unwrap()
+        64 - self.p.leading_zeros().to_u64().unwrap()
     }
 }
-- 
2.43.0


From 7e9c9167a82e77b28f1edd2ac0275c6e9f6466ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:33 +0000
Subject: [PATCH 09/26] fix: copy residues in a change of basis only for the
 common prefix of moduli

---
 src/rq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rq.rs b/src/rq.rs
index 052b80d..0776791 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -90,7 +90,8 @@ impl RqScaler {
         if scaling_factor.is_one() {
             number_common_moduli = izip!(&from.moduli_64, &to.moduli_64)
                 .into_iter()
-                .fold(0, |acc, (from, to)| if from == to { acc + 1 } else { acc });
+                .take_while(|(from, to)| from == to)
+                .count();
         }
 
         let rns_scaler = RnsScaler::new(&from.rns, &to.rns, scaling_factor.clone());
-- 
2.43.0


From 738c0ec71d5acd63430bfef9bac174817907be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:56 +0000
Subject: [PATCH 10/26] fix: assemble a key-switching key at the level of its
 rows

---
 src/ksk.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ksk.rs b/src/ksk.rs
index 8397288..c276cf6 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -145,13 +145,14 @@ impl Ksk {
             })
             .collect();
 
-        // FIXME: default level is 0, which might be incorrect
+        // the rows' own context
+        let ctx = cts[0].cts[0].context.clone();
         Ksk {
             params: params.clone(),
             c0,
             c1,
-            ct_context: params.q_ctxs[0].clone(),
-            ksk_context: params.q_ctxs[0].clone(),
+            ct_context: ctx.clone(),
+            ksk_context: ctx,
         }
     }
 }
-- 
2.43.0


From 6d7f4f105c53be96c54fbca89cf68a26b516b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:13 +0000
Subject: [PATCH 11/26] fix: keep ciphertext components beyond the second in
 linear operations and noise measurement

---
 src/bfv.rs | 53 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index e72f269..0ebee86 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -8,7 +8,7 @@ use crate::{
     utils::{generate_prime, sample_vec_cbd},
 };
 
-use itertools::Itertools;
+use itertools::{EitherOrBoth, Itertools};
 use ndarray::Axis;
 use num_bigint::BigUint;
 use num_traits::{FromPrimitive, One, ToPrimitive};
@@ -390,8 +390,12 @@ impl SecretKey {
 
         let mut sk = Poly::try_from_vec_i64(&ctx, &self.coeffs);
         sk.change_representation(Representation::Ntt);
-        let mut m = &ct.cts[1] * &sk;
-        m += &ct.cts[0];
+        let mut m = ct.cts[0].clone();
+        let mut sk_i = sk.clone();
+        for i in (1..ct.cts.len()) {
+            m += &(&sk_i * &ct.cts[i]);
+            sk_i *= &sk;
+        }
 
         m -= &ideal_m;
         m.change_representation(Representation::PowerBasis);
@@ -427,12 +431,20 @@ impl Add<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] + &rhs.cts[0];
-        let c1 = &self.cts[1] + &rhs.cts[1];
+        let cts = self
+            .cts
+            .iter()
+            .zip_longest(rhs.cts.iter())
+            .map(|pair| match pair {
+                EitherOrBoth::Both(a, b) => a + b,
+                EitherOrBoth::Left(a) => a.clone(),
+                EitherOrBoth::Right(b) => b.clone(),
+            })
+            .collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -460,12 +472,20 @@ impl Sub<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] - &rhs.cts[0];
-        let c1 = &self.cts[1] - &rhs.cts[1];
+        let cts = self
+            .cts
+            .iter()
+            .zip_longest(rhs.cts.iter())
+            .map(|pair| match pair {
+                EitherOrBoth::Both(a, b) => a - b,
+                EitherOrBoth::Left(a) => a.clone(),
+                EitherOrBoth::Right(b) => -b,
+            })
+            .collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -522,12 +542,11 @@ impl Mul<&Plaintext> for &BfvCipherText {
         let mut pt_poly = Poly::try_from_vec_u64(&self.params.q_ctxs[self.level], &rhs.values);
         pt_poly.change_representation(Representation::Ntt);
 
-        let c0 = &self.cts[0] * &pt_poly;
-        let c1 = &self.cts[1] * &pt_poly;
+        let cts = self.cts.iter().map(|c| c * &pt_poly).collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -539,12 +558,11 @@ impl Mul<&Poly> for &BfvCipherText {
         assert!(rhs.context == self.cts[0].context);
         assert!(rhs.representation == Representation::Ntt);
 
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
+        let cts = self.cts.iter().map(|c| c * rhs).collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -553,12 +571,11 @@ impl Mul<&Poly> for &BfvCipherText {
 impl Mul<&BigUint> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &BigUint) -> Self::Output {
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
+        let cts = self.cts.iter().map(|c| c * rhs).collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
-- 
2.43.0


From 6d0387c546e0e768282a9942ee3c66c91b136958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:45 +0000
Subject: [PATCH 12/26] fix: reject products of operands under different
 parameters

---
 src/bfv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 0ebee86..f4058d7 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -495,6 +495,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
     type Output = BfvCipherText;
 
     fn mul(self, rhs: &BfvCipherText) -> Self::Output {
+        assert!(self.params == rhs.params);
         assert!(rhs.level == self.level);
 
         let mul_params = self.params.mul_params[self.level].clone();
@@ -536,6 +537,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
 impl Mul<&Plaintext> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &Plaintext) -> Self::Output {
+        assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
         // TODO: store this in BfvPlaintext
-- 
2.43.0


From 9bc4ad2e87c5bad29f177f82f40a747880873036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:45 +0000
Subject: [PATCH 13/26] fix: decide primality of 64-bit integers exactly

probably_prime of num-bigint-dig 0.8.1 rejects every prime modulo which
p^2 - 4 is a square for all p in 3..=40, e.g. 268927026072961: its check
for perfect squares compares sqrt(n * n) with n.
---
 src/utils.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 67235f6..a600b33 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,5 +1,5 @@
 use num_bigint::BigUint;
-use num_bigint_dig::{prime::probably_prime, BigUint as BigUintDig, ModInverse};
+use num_bigint_dig::{BigUint as BigUintDig, ModInverse};
 use num_traits::{FromPrimitive, One, PrimInt, ToPrimitive, Zero};
 use rand::{CryptoRng, RngCore};
 use rand_distr::{Distribution, Uniform};
@@ -107,8 +107,43 @@ pub fn div_ceil<T: PrimInt>(a: T, b: T) -> T {
 // Ref: https://github.com/tlepoint/fhe.rs/blob/a0287ba3842fcf19b45fd380c56ba7b5e52a387b/crates/fhe-util/src/lib.rs#L0-L1
 
 /// Returns whether the modulus p is prime; this function is 100% accurate.
+///
+/// Miller-Rabin with the first twelve primes as bases decides every 64-bit
+/// integer (https://oeis.org/A014233).
 pub fn is_prime(p: u64) -> bool {
-    probably_prime(&BigUintDig::from(p), 0)
+    const BASES: [u64; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
+
+    if p < 2 {
+        return false;
+    }
+    if BASES.iter().any(|b| p % b == 0) {
+        return BASES.contains(&p);
+    }
+
+    let mul = |a: u64, b: u64| ((a as u128 * b as u128) % p as u128) as u64;
+    let s = (p - 1).trailing_zeros();
+    BASES.iter().all(|base| {
+        let mut x = 1u64;
+        let mut power = *base;
+        let mut exponent = (p - 1) >> s;
+        while exponent > 0 {
+            if exponent & 1 == 1 {
+                x = mul(x, power);
+            }
+            power = mul(power, power);
+            exponent >>= 1;
+        }
+        if x == 1 {
+            return true;
+        }
+        for _ in 1..s {
+            if x == p - 1 {
+                return true;
+            }
+            x = mul(x, x);
+        }
+        x == p - 1
+    })
 }
 
 /// Generate a `num_bits`-bit prime, congruent to 1 mod `modulo`, strictly
-- 
2.43.0


From d45390b3805071d742617d93ae46b668cb1e2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:14 +0000
Subject: [PATCH 14/26] fix: refuse polynomial arithmetic and substitution
 across incompatible rings

Adding, subtracting or multiplying polynomials over different rings silently
stopped at the shorter operand and returned a partly updated polynomial.
Operands over an extension of the ring are still reduced, as key switching
to a lower level needs.
---
 src/rq.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rq.rs b/src/rq.rs
index 0776791..7b9279f 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -342,6 +342,8 @@ impl Poly {
     }
 
     pub fn substitute(&self, a: &Substitution) -> Poly {
+        assert!(a.powers_bitrev.len() == self.context.degree);
+
         let mut poly = Poly::zero(&self.context, self.representation.clone());
 
         match self.representation {
@@ -545,6 +547,8 @@ impl Poly {
 
 impl AddAssign<&Poly> for Poly {
     fn add_assign(&mut self, rhs: &Poly) {
+        assert!(rhs.context.moduli_64.starts_with(&self.context.moduli_64));
+        assert!(self.context.degree == rhs.context.degree);
         assert!(self.representation == Representation::Ntt);
         assert!(rhs.representation == Representation::Ntt);
 
@@ -570,6 +574,8 @@ impl Add<&Poly> for &Poly {
 
 impl SubAssign<&Poly> for Poly {
     fn sub_assign(&mut self, rhs: &Poly) {
+        assert!(rhs.context.moduli_64.starts_with(&self.context.moduli_64));
+        assert!(self.context.degree == rhs.context.degree);
         assert!(self.representation == Representation::Ntt);
         assert!(rhs.representation == Representation::Ntt);
 
@@ -595,6 +601,8 @@ impl Sub<&Poly> for &Poly {
 
 impl MulAssign<&Poly> for Poly {
     fn mul_assign(&mut self, rhs: &Poly) {
+        assert!(rhs.context.moduli_64.starts_with(&self.context.moduli_64));
+        assert!(self.context.degree == rhs.context.degree);
         assert!(self.representation == Representation::Ntt);
         assert!(rhs.representation == Representation::Ntt);
 
-- 
2.43.0


From 1430dbb3d586986ef97786fc695c07bac5e46eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:14 +0000
Subject: [PATCH 15/26] verification hooks: client defaults and the server's
 ciphertext count

---
 src/evaluations.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index dc1a3f8..65b3c55 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -621,6 +621,10 @@ pub mod vp_hooks {
             VpClient(Client::new(first_dim, dim))
         }
 
+        pub fn default() -> Self {
+            VpClient(Client::default())
+        }
+
         pub fn encode(
             &self,
             query_dims: Vec<usize>,
@@ -644,6 +648,10 @@ pub mod vp_hooks {
             VpServer(Server::new(first_dim, dim, db, params))
         }
 
+        pub fn no_of_cts(&self) -> usize {
+            self.0.no_of_cts()
+        }
+
         pub fn decode(
             &self,
             query_cts: Vec<BfvCipherText>,
-- 
2.43.0


From 4094d77b1caea46f35d03def957cb9f1de6cf3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 16/26] fix: decrypt correctly when the plaintext modulus
 exceeds two thirds of the first modulus

Decryption lifted centred values by t and reduced modulo the first ciphertext
modulus q_0, which wraps positive values as soon as 3t/2 > q_0.
---
 src/bfv.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index f4058d7..ce7be98 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -362,15 +362,21 @@ impl SecretKey {
         // is any of ct moduli.
         // i.e. [(t/q)* m ]_r where `r` is one of the `qi`s.
         m = self.params.scalars[ct.level].scale(&m);
+        let q = self.params.q_ctxs[ct.level].moduli[0].modulus();
         let mut m: Vec<u64> = m
             .coefficients()
             .index_axis(Axis(0), 0)
             .iter()
-            .map(|a| *a + self.params.plaintext_modulus_u64)
+            .map(|a| {
+                // values are centred, (-t/2, t/2)
+                if *a > q / 2 {
+                    *a + self.params.plaintext_modulus_u64 - q
+                } else {
+                    *a
+                }
+            })
             .collect();
         m = m[..self.params.degree].to_vec();
-        let q = self.params.q_ctxs[ct.level].moduli[0].clone();
-        m = q.reduce_vec_u64(&m);
         m = Modulus::new(self.params.plaintext_modulus_u64).reduce_vec_u64(&m);
 
         Plaintext {
-- 
2.43.0


From 5fd94ec93c90a7523d2fa7e5e39d7eea42608265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 17/26] fix: refuse a plaintext modulus that is not below every
 ciphertext modulus

Only debug builds noticed (Modulus::neg); release builds made parameters under
which nothing decrypts.
---
 src/bfv.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index ce7be98..4c20872 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -50,6 +50,9 @@ impl BfvParameters {
         variance: usize,
         bit_decomp: BitDecomposition,
     ) -> Self {
+        // messages live modulo t in every one of the rings
+        assert!(ciphertext_moduli.iter().all(|q| plaintext_modulus_u64 < *q));
+
         // We need n+1 moduli of 62 bits for multiplication
         let mut extended_basis_moduli = vec![];
         let mut upper_bound = 1 << 62;
-- 
2.43.0


From 2010972e7769ef8e40018e596a88818708a5b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:01 +0000
Subject: [PATCH 18/26] fix: refuse plaintexts, ciphertexts, databases and
 queries of other parameters

Encryption, decryption and the server took operands made under parameters with
the same ring but another plaintext modulus and returned garbage.
---
 src/bfv.rs         | 4 ++++
 src/evaluations.rs | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 4c20872..b72fd79 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -332,6 +332,8 @@ impl SecretKey {
     }
 
     pub fn encrypt(&self, pt: &Plaintext) -> BfvCipherText {
+        assert!(Arc::ptr_eq(&self.params, &pt.params) || self.params == pt.params);
+
         let poly = pt.to_poly();
         self.encrypt_poly(&poly)
     }
@@ -348,6 +350,8 @@ impl SecretKey {
     }
 
     pub fn decrypt(&self, ct: &BfvCipherText) -> Plaintext {
+        assert!(Arc::ptr_eq(&self.params, &ct.params) || self.params == ct.params);
+
         let mut sk = Poly::try_from_vec_i64(&ct.cts[0].context, &self.coeffs);
         sk.change_representation(Representation::Ntt);
 
diff --git a/src/evaluations.rs b/src/evaluations.rs
index 65b3c55..2975127 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -76,6 +76,10 @@ impl Server {
         db: &Vec<Plaintext>,
         params: &Arc<BfvParameters>,
     ) -> Self {
+        assert!(db
+            .iter()
+            .all(|p| Arc::ptr_eq(&p.params, params) || p.params == *params));
+
         let db_scaled = db
             .iter()
             .map(|p| {
@@ -113,6 +117,11 @@ impl Server {
         params: &Arc<BfvParameters>,
     ) -> Vec<BfvCipherText> {
         assert!(params.q_ctxs[0].moduli.len() + 1 == query_cts.len());
+        assert!(query_cts
+            .iter()
+            .map(|ct| &ct.params)
+            .chain(self.db.iter().map(|p| &p.params))
+            .all(|p| Arc::ptr_eq(p, params) || p == params));
 
         let mut first_dim_cts = eval_key.unpack(query_cts[0].clone());
         first_dim_cts = first_dim_cts.as_slice()[..self.first_dim].to_vec();
-- 
2.43.0


From 6baafdce26be59bba38d26218d81168741e71965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 19/26] fix: reduce plaintext values modulo t, refuse more
 values than slots

Slot encoding handed unreduced values to the transform (a panic in debug
builds, garbage in release builds) and ignored values beyond the last slot;
unreduced coefficients multiplied the noise of every product with them.
---
 src/bfv.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index b72fd79..3658548 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -618,10 +618,13 @@ impl Plaintext {
         level: usize,
         encoding: Encoding,
     ) -> Self {
+        assert!(values.len() <= params.degree);
+        let values = Modulus::new(params.plaintext_modulus_u64).reduce_vec_u64(values);
+
         // encode the values
         let mut encoded_vals = vec![0u64; params.degree];
         match encoding {
-            Encoding::Poly => encoded_vals.as_mut_slice()[..values.len()].copy_from_slice(values),
+            Encoding::Poly => encoded_vals.as_mut_slice()[..values.len()].copy_from_slice(&values),
             Encoding::SIMD => {
                 for i in 0..params.degree {
                     encoded_vals[params.matrix_reps_index_map[i]] = values[i];
-- 
2.43.0


From 8c5e37356f36e45c6693056066e83e8871b61834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 20/26] fix: refuse ciphertexts of more than two components in
 automorphisms and external products

The components beyond the second were dropped and the result was garbage.
---
 src/bfv.rs  | 1 +
 src/rgsw.rs | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 3658548..9322809 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -759,6 +759,7 @@ impl GaliosKey {
 
     pub fn relinearize(&self, ct: &BfvCipherText) -> BfvCipherText {
         assert!(ct.level == self.galios_level);
+        assert!(ct.cts.len() == 2);
 
         debug_assert!(ct.cts[0].representation == Representation::Ntt);
 
diff --git a/src/rgsw.rs b/src/rgsw.rs
index 5445ad7..64aca4b 100644
--- a/src/rgsw.rs
+++ b/src/rgsw.rs
@@ -61,6 +61,8 @@ impl RgswCt {
     }
 
     pub fn external_product(rgsw: &RgswCt, bfv: &BfvCipherText) -> (Poly, Poly) {
+        assert!(bfv.cts.len() == 2);
+
         let mut c1 = bfv.cts[1].clone();
         let mut c0 = bfv.cts[0].clone();
         c1.change_representation(Representation::PowerBasis);
-- 
2.43.0


From a15dfd03494083345895a36dab2982d6e946bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 21/26] fix: refuse key rows that do not make up a key

A key assembled from too few or too many rows, from rows of different levels or
from rows of more than two components switched to garbage.
---
 src/ksk.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ksk.rs b/src/ksk.rs
index c276cf6..7d43646 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -147,6 +147,13 @@ impl Ksk {
 
         // the rows' own context
         let ctx = cts[0].cts[0].context.clone();
+        assert!(cts.len() == ctx.moduli_64.len());
+        assert!(cts.iter().all(|c| {
+            c.cts.len() == 2
+                && c.cts
+                    .iter()
+                    .all(|p| p.context.moduli_64 == ctx.moduli_64)
+        }));
         Ksk {
             params: params.clone(),
             c0,
-- 
2.43.0


From 13501e5fd10f9c69d1a64d46bc0ec93ea3e13f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 22/26] fix: refuse to invert what has no inverse

Polynomials in coefficient form were inverted coefficient by coefficient, and
release builds returned zero as the inverse of zero.
---
 src/modulus.rs | 2 +-
 src/rq.rs      | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modulus.rs b/src/modulus.rs
index 654648b..0c2f16f 100644
--- a/src/modulus.rs
+++ b/src/modulus.rs
@@ -151,7 +151,7 @@ impl Modulus {
     ///
     /// https://cp-algorithms.com/algebra/module-inverse.html#finding-the-modular-inverse-using-binary-exponentiation
     pub fn inv(&self, a: u64) -> u64 {
-        debug_assert!(a < self.p && a != 0);
+        assert!(a < self.p && a != 0);
         self.pow(a, self.p - 2)
     }
 
diff --git a/src/rq.rs b/src/rq.rs
index 7b9279f..828b936 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -445,6 +445,8 @@ impl Poly {
     }
 
     pub fn inverse(&self) -> Poly {
+        assert!(self.representation == Representation::Ntt);
+
         let mut poly = Poly::zero(&self.context, self.representation.clone());
         izip!(
             poly.coefficients.outer_iter_mut(),
-- 
2.43.0


From ce5a2ec5321f2c61a1f74bb50925831bd7a4ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 23/26] fix: edge cases of the integer utilities

Ceiling division overflowed for dividends near the largest integer, release
builds returned a logarithm of zero, and no prime was ever found for modulo 1.
---
 src/utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index a600b33..56b6d8a 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -88,6 +88,7 @@ pub fn sample_vec_cbd<R: RngCore + CryptoRng>(
 ///
 /// @ref: https://github.com/tlepoint/fhe.rs/blob/27508002ea516d9ba41d0aa756bec7347f8404b2/crates/fhe-util/src/lib.rs#L193
 pub fn ilog2<T: PrimInt>(value: T) -> usize {
+    assert!(!value.is_zero());
     size_of::<T>() * 8 - 1 - value.leading_zeros() as usize
 }
 
@@ -100,7 +101,11 @@ pub fn mod_inverse(v: u64, q: u64) -> Option<u64> {
 
 pub fn div_ceil<T: PrimInt>(a: T, b: T) -> T {
     assert!(b != T::zero());
-    (a + b - T::one()) / b
+    if a % b == T::zero() {
+        a / b
+    } else {
+        a / b + T::one()
+    }
 }
 
 // PRIME Functions
@@ -161,7 +166,7 @@ pub fn generate_prime(num_bits: usize, modulo: u64, upper_bound: u64) -> Option<
         let leading_zeros = (64 - num_bits) as u32;
 
         let mut tentative_prime = upper_bound - 1;
-        while tentative_prime % modulo != 1 && tentative_prime.leading_zeros() == leading_zeros {
+        while tentative_prime % modulo != 1 % modulo && tentative_prime.leading_zeros() == leading_zeros {
             tentative_prime -= 1
         }
 
-- 
2.43.0


From 4564db9af271f4ff2f4e9edcdfc4b928c257a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 24/26] fix: refuse PVW messages that are not ell bits

Surplus entries were dropped, missing ones became zero and entries other than
bits were encrypted as something else.
---
 src/pvw.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pvw.rs b/src/pvw.rs
index a158eb1..b2367ff 100644
--- a/src/pvw.rs
+++ b/src/pvw.rs
@@ -118,6 +118,8 @@ pub struct PvwPk(Vec<PvwCiphertext>);
 
 impl PvwPk {
     pub fn encrypt(&self, params: &PvwParams, m: Vec<u64>) -> PvwCiphertext {
+        assert!(m.len() == params.ell && m.iter().all(|bit| *bit < 2));
+
         let pk = self.0.clone();
         let q_mod = Modulus::new(params.q);
         let rng = thread_rng();
-- 
2.43.0


From 8b14c02ae346d1f82bd37d28b42db44603ba5de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:33 +0000
Subject: [PATCH 25/26] fix: keep the upper words when scaling subtracts v *
 theta_gamma

With seventeen or so large moduli v exceeds 65 bits, and the product with
theta_gamma lost carries into its third and fourth word.
---
 src/rns.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rns.rs b/src/rns.rs
index 771a6b4..6481577 100644
--- a/src/rns.rs
+++ b/src/rns.rs
@@ -363,20 +363,20 @@ impl RnsScaler {
             let vt_hi_hi = ((v >> 64) as u128) * (self.theta_gamma_hi as u128);
             let vt_mi =
                 (vt_lo_lo >> 64) + ((vt_lo_hi as u64) as u128) + ((vt_hi_lo as u64) as u128);
-            let vt_hi = (vt_lo_hi >> 64) + (vt_mi >> 64) + ((vt_hi_hi as u64) as u128);
+            let vt_hi = (vt_lo_hi >> 64) + (vt_hi_lo >> 64) + (vt_mi >> 64) + vt_hi_hi;
             if self.theta_gamma_sign {
                 sum_theta_omega.wrapping_add_assign(U256::from([
                     vt_lo_lo as u64,
                     vt_mi as u64,
                     vt_hi as u64,
-                    0,
+                    (vt_hi >> 64) as u64,
                 ]))
             } else {
                 sum_theta_omega.wrapping_sub_assign(U256::from([
                     vt_lo_lo as u64,
                     vt_mi as u64,
                     vt_hi as u64,
-                    0,
+                    (vt_hi >> 64) as u64,
                 ]))
             }
 
-- 
2.43.0


From 2d44edbcf0f4e6b8cb3c397175d97111d347eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:21 +0000
Subject: [PATCH 26/26] hooks: PVW key rows behind cfg(vp_hooks)

---
 src/lib.rs |  1 +
 src/pvw.rs | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 85c6dd1..ddc705a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -24,6 +24,7 @@ pub mod vp_hooks {
     pub use crate::modulus::Modulus;
     pub use crate::ntt::NttOperator;
     pub use crate::omr::vp_hooks::*;
+    pub use crate::pvw::vp_hooks::*;
     pub use crate::pvw::{PvwCiphertext, PvwParams, PvwPk, PvwSk};
     pub use crate::rgsw::RgswCt;
     pub use crate::rns::{RnsContext, RnsScaler, ScalingFactor};
diff --git a/src/pvw.rs b/src/pvw.rs
index b2367ff..fb2b61e 100644
--- a/src/pvw.rs
+++ b/src/pvw.rs
@@ -158,6 +158,22 @@ pub struct PvwCiphertext {
     pub b: Vec<u64>,
 }
 
+/// Access to key material, for the verification harness.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    use super::*;
+
+    pub fn pvw_sk_rows(sk: &PvwSk) -> &Vec<Vec<u64>> {
+        &sk.0
+    }
+    pub fn pvw_pk_rows(pk: &PvwPk) -> &Vec<PvwCiphertext> {
+        &pk.0
+    }
+    pub fn pvw_pk_from_rows(rows: Vec<PvwCiphertext>) -> PvwPk {
+        PvwPk(rows)
+    }
+}
+
 mod tests {
     use super::*;
 
-- 
2.43.0


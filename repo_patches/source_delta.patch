From 9748872129c104bfba50258f51bf62a8d01e8eaa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:07 +0000
Subject: [PATCH 01/19] fix: indexing sparse features returns the stored
 activation

---
 src/features.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index ebcd9db..470d783 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -719,11 +719,7 @@ impl Index<usize> for Features {
         apply_to_features!(self => da, {
             da.index(idx)
         }; sa, {
-            if sa.activations.contains_key(&idx) {
-                &1.0
-            } else {
-                &0.0
-            }
+            sa.activations.get(&idx).unwrap_or(&0.0)
         })
     }
 }
-- 
2.43.0


From 01e2076a958a62bed466af427faa840bfc1ef9f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:08 +0000
Subject: [PATCH 02/19] fix: sparse-sparse dot product multiplies the
 activations

---
 src/features.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 470d783..13ee948 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -689,13 +689,9 @@ impl ndarray::linalg::Dot<Features> for Features {
 
         match self {
             Sparse(sa1) => match rhs {
-                Sparse(sa2) => sa1.activations.keys().fold(0, |acc, k| {
-                    acc + if sa2.activations.contains_key(k) {
-                        1
-                    } else {
-                        0
-                    }
-                }) as f64,
+                Sparse(sa2) => sa1.activations.iter().fold(0.0, |acc, (k, a1)| {
+                    acc + sa2.activations.get(k).map_or(0.0, |a2| a1 * a2)
+                }),
                 Dense(da2) => Features::dot_sparse(sa1, da2),
             },
             Dense(da1) => match rhs {
-- 
2.43.0


From e198abba9291033110c8d033d6789fcdfdb3ccc3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:08 +0000
Subject: [PATCH 03/19] fix: merging dense with sparse features covers the
 inactive entries

---
 src/features.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 13ee948..9558dbf 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -437,8 +437,8 @@ impl Features {
                         Dense(a_out)
                     }
                     Sparse(sa2) => {
-                        for (&i, a) in sa2.iter() {
-                            a_out[i] = f(a_out[i], *a);
+                        for (i, x) in a_out.indexed_iter_mut() {
+                            *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                         }
 
                         Dense(a_out)
@@ -495,8 +495,8 @@ impl Features {
                     Dense(da1)
                 }
                 Sparse(sa2) => {
-                    for (&i, a) in sa2.iter() {
-                        da1[i] = f(da1[i], *a);
+                    for (i, x) in da1.indexed_iter_mut() {
+                        *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                     }
 
                     Dense(da1)
-- 
2.43.0


From b9454e08d01c94739dcf2a5fc8637006a21352e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 04/19] fix: merge treats a shorter dense operand as merge_into
 does

---
 src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features.rs b/src/features.rs
index 9558dbf..00d4c91 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -453,7 +453,7 @@ impl Features {
                     for i in 0..n {
                         phi[i] = MaybeUninit::new(f(
                             sa1.activations.get(&i).cloned().unwrap_or(0.0),
-                            da2[i],
+                            da2.get(i).copied().unwrap_or(0.0),
                         ));
                     }
 
-- 
2.43.0


From cbeb5a38dbb988d8d587353a2ac430c16cd83202 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 05/19] fix: keep the dimension when converting from
 SparseActivations

---
 src/features.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 00d4c91..9a8c8d6 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -755,12 +755,7 @@ impl FromIterator<ActivationT> for Features {
 
 impl From<SparseActivations> for Features {
     fn from(sa: SparseActivations) -> Features {
-        let n = sa.activations.iter().map(|(i, _)| i).max().unwrap() + 1;
-
-        SparseFeatures(SparseActivations {
-            dim: n,
-            activations: sa.activations,
-        })
+        SparseFeatures(sa)
     }
 }
 
-- 
2.43.0


From b2001d22b0d56029d2342a6667ac8d73d3e74108 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 06/19] fix: converting an empty list of indices into features
 does not panic

---
 src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features.rs b/src/features.rs
index 9a8c8d6..65db432 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -761,7 +761,7 @@ impl From<SparseActivations> for Features {
 
 impl From<Vec<IndexT>> for Features {
     fn from(indices: Vec<IndexT>) -> Features {
-        let n = indices.iter().max().unwrap() + 1;
+        let n = indices.iter().max().map_or(0, |i| i + 1);
 
         SparseFeatures(SparseActivations {
             dim: n,
-- 
2.43.0


From a7aef297086e17916fe7a3d0c0470457d9144d18 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 07/19] fix: do not build a zeroed Features in the in-place
 operations

---
 src/features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 65db432..e5d6f35 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -376,7 +376,7 @@ impl Features {
 
     /// Mutate all feature activations inplace using an operation, `f`.
     pub fn map_inplace(&mut self, f: impl Fn(ActivationT) -> ActivationT) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
+        let tmp = Features::Dense(DenseActivations::from(vec![]));
         let old = mem::replace(self, tmp);
 
         mem::drop(mem::replace(self, old.map_into(f)));
@@ -541,7 +541,7 @@ impl Features {
         other: &Features,
         f: impl Fn(ActivationT, ActivationT) -> ActivationT,
     ) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
+        let tmp = Features::Dense(DenseActivations::from(vec![]));
         let old = mem::replace(self, tmp);
 
         mem::drop(mem::replace(self, old.merge_into(other, f)));
-- 
2.43.0


From 42bb9505623aebe44949423dce28954afff81614 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 08/19] fix: use the logical elements of dense arrays with any
 memory layout

---
 src/features.rs | 6 +++---
 src/lib.rs      | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index e5d6f35..6f2d6cf 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -303,8 +303,8 @@ impl Features {
                 })
             }
             (f1, f2) => {
-                let mut all_activations = f1.into_dense().into_raw_vec();
-                all_activations.extend_from_slice(f2.into_dense().as_slice().unwrap());
+                let mut all_activations = f1.into_dense().to_vec();
+                all_activations.extend(f2.into_dense().iter().copied());
 
                 Dense(all_activations.into())
             }
@@ -778,7 +778,7 @@ impl From<Features> for DenseActivations {
 
 impl From<Features> for Vec<ActivationT> {
     fn from(phi: Features) -> Vec<ActivationT> {
-        phi.into_dense().into_raw_vec()
+        phi.into_dense().to_vec()
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 7e4da79..d484aef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -307,7 +307,7 @@ impl<B, O> VectorLFA<B, O> {
         self.basis.project(input).and_then(|ref b| {
             let opt = &mut self.optimiser;
             let values = b.matmul(&self.weights);
-            let errors = f(b, values).into_raw_vec();
+            let errors = f(b, values);
 
             errors
                 .into_iter()
-- 
2.43.0


From 8dce6bd9a1d2096805ecfbe13fa46c5b1b253bd5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 09/19] fix: Fixed dense basis enumerates all of its constants

---
 src/basis/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/constant.rs b/src/basis/constant.rs
index e6e0994..2c08c56 100644
--- a/src/basis/constant.rs
+++ b/src/basis/constant.rs
@@ -65,7 +65,7 @@ impl<T> Basis<T> for Fixed<Vec<f64>> {
 
 impl<T> EnumerableBasis<T> for Fixed<Vec<f64>> {
     fn ith(&self, _: T, index: IndexT) -> Result<ActivationT> {
-        check_index!(index < 1 => {
+        check_index!(index < self.0.len() => {
             Ok(*self.0.get(index).unwrap())
         })
     }
-- 
2.43.0


From 60be7d4f25043bde80e1398204139d97439aa25a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 10/19] fix: Matern 5/2 kernel uses the square root of five

---
 src/basis/kernels/stationary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 4f0f5e9..08f650a 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -83,7 +83,7 @@ stationary_kernel!(
     self,
     r,
     {
-        let sqrt_5 = 3.0f64.sqrt();
+        let sqrt_5 = 5.0f64.sqrt();
 
         self.variance * (1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r) * (-sqrt_5 * r).exp()
     }
-- 
2.43.0


From 640e2c8c34b2cde1e246d0382466b0f574aa5b06 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 11/19] fix: a single kernel lengthscale applies to every input
 dimension

---
 src/basis/kernels/rational_quadratic.rs | 2 +-
 src/basis/kernels/stationary.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/kernels/rational_quadratic.rs b/src/basis/kernels/rational_quadratic.rs
index 21678c3..c216d11 100644
--- a/src/basis/kernels/rational_quadratic.rs
+++ b/src/basis/kernels/rational_quadratic.rs
@@ -47,7 +47,7 @@ impl super::Kernel<&[f64]> for RationalQuadratic {
             .iter()
             .zip(y.iter())
             .map(|(x, y)| x - y)
-            .zip(self.lengthscales.iter())
+            .zip(self.lengthscales.iter().cycle())
             .map(|(d, l)| d / l)
             .fold(0.0, |acc, z| acc + z * z)
             .sqrt();
diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 08f650a..edc2f5c 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -42,7 +42,7 @@ macro_rules! stationary_kernel {
                     .into_iter()
                     .zip(y.into_iter())
                     .map(|(x, y)| x - y)
-                    .zip($self.lengthscales.iter())
+                    .zip($self.lengthscales.iter().cycle())
                     .map(|(d, l)| d / l)
                     .fold(0.0f64, |acc, z| acc + z * z)
                     .sqrt())
-- 
2.43.0


From e5c34d81bbeebd0fd6bebf0faf0972afe58ecd69 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 12/19] fix: Adam and AdaMax bias correction starts at the
 first power of beta

---
 src/optim/adam.rs   | 4 ++--
 src/optim/adamax.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 8ecf17e..3c92644 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -30,10 +30,10 @@ impl Adam {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         Adam {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
-            beta2_prod: beta2,
+            beta2_prod: 1.0,
 
             learning_rate,
 
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 9910479..832882d 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -29,7 +29,7 @@ impl AdaMax {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         AdaMax {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
 
-- 
2.43.0


From 8c7dbecb6fb8465fa2b1b55ae963a296036322ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 13/19] fix: Adam and AdaMax reset their bias correction

---
 src/optim/adam.rs   | 2 ++
 src/optim/adamax.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 3c92644..75b37cd 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -100,6 +100,8 @@ impl Optimiser<Features> for Adam {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
+        self.beta2_prod = 1.0;
         self.exp_avg.fill(0.0);
         self.exp_avg_sq.fill(0.0);
     }
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 832882d..441e4f6 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -93,6 +93,7 @@ impl Optimiser<Features> for AdaMax {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
         self.exp_avg.fill(0.0);
         self.exp_inf.fill(0.0);
     }
-- 
2.43.0


From 37bdb06d753a5a7d79d001e9ea71f505e435afff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 14/19] fix: normalised bases enumerate the inactive sparse
 features as zero

---
 src/basis/normalisation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 6fa0fc4..2c5353f 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -48,7 +48,7 @@ where
                 .map(|f| {
                     let z = f.n_active() as f64;
 
-                    unsafe { f.uget(index).unwrap() / z }
+                    unsafe { f.uget(index).copied().unwrap_or(0.0) / z }
                 })
         })
     }
@@ -117,7 +117,7 @@ where
                     da[index] / z
                 },
                 Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
+                    sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
             })
         })
     }
@@ -186,7 +186,7 @@ where
                     da[index] / z
                 },
                 Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
+                    sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
             })
         })
     }
@@ -256,7 +256,7 @@ where
 
                     da[index] / z
                 },
-                Features::Sparse(sa) => sa.activations[&index] / sa.iter().fold(
+                Features::Sparse(sa) => sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(
                     f64::NEG_INFINITY,
                     |acc, (_, x)| acc.max(x.abs())
                 ),
-- 
2.43.0


From 9788b449ea1eea4b5b0a732ef1b9a115e89010f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 15/19] fix: NAG look-ahead scales with the learning rate and
 the error

---
 src/optim/nesterov.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optim/nesterov.rs b/src/optim/nesterov.rs
index 04e3080..13d2a0b 100644
--- a/src/optim/nesterov.rs
+++ b/src/optim/nesterov.rs
@@ -51,8 +51,8 @@ impl Optimiser<Features> for NAG {
             }
         }
         {
-            weights.scaled_add(lr, &self.velocity);
-            features.scaled_addto(m, weights);
+            weights.scaled_add(lr * m, &self.velocity);
+            features.scaled_addto(lr * scale_factor, weights);
         }
         Ok(())
     }
-- 
2.43.0


From 7cf52effa17d0b0d24edac745c511a2a1e36871c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 16/19] fix: tiles have the same width on both sides of the
 origin

---
 src/basis/tile_coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 9145c98..202d660 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -28,7 +28,7 @@ fn hash_state<'a, H: Hasher + 'a>(
         for (i, s) in state.iter().enumerate() {
             let offset = t + i as isize * tx2;
 
-            hasher.write_isize((s + offset) / n_tilings as isize)
+            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
         }
 
         hasher.finish() as usize % memory_size
-- 
2.43.0


From 05f1734537f1fe9c43fbde4449be936b13b14af4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 17/19] fix: Polynomial::with_zeroth accepts a basis without
 other terms

---
 src/basis/polynomial/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/polynomial/mod.rs b/src/basis/polynomial/mod.rs
index 1600382..9c999aa 100644
--- a/src/basis/polynomial/mod.rs
+++ b/src/basis/polynomial/mod.rs
@@ -54,7 +54,7 @@ impl Polynomial {
     }
 
     pub fn with_zeroth(mut self) -> Self {
-        self.exponents.push(vec![0; self.exponents[0].len()]);
+        self.exponents.push(vec![0; self.exponents.first().map_or(0, Vec::len)]);
         self
     }
 
-- 
2.43.0


From 31d534428d3f894c54646ab15a8fbe97a1e68294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 18/19] fix: inactive features of a normalised sparse
 projection are 0 even if its norm is 0

---
 src/basis/normalisation.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 2c5353f..6ade9c0 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -117,7 +117,9 @@ where
                     da[index] / z
                 },
                 Features::Sparse(sa) =>
-                    sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
+                    sa.activations.get(&index).map_or(0.0, |x| {
+                        x / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs())
+                    }),
             })
         })
     }
@@ -186,7 +188,9 @@ where
                     da[index] / z
                 },
                 Features::Sparse(sa) =>
-                    sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
+                    sa.activations.get(&index).map_or(0.0, |x| {
+                        x / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt()
+                    }),
             })
         })
     }
@@ -256,10 +260,12 @@ where
 
                     da[index] / z
                 },
-                Features::Sparse(sa) => sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(
-                    f64::NEG_INFINITY,
-                    |acc, (_, x)| acc.max(x.abs())
-                ),
+                Features::Sparse(sa) => sa.activations.get(&index).map_or(0.0, |x| {
+                    x / sa.iter().fold(
+                        f64::NEG_INFINITY,
+                        |acc, (_, x)| acc.max(x.abs())
+                    )
+                }),
             })
         })
     }
-- 
2.43.0


From e0d3786ad3bb29a982494f7d2ae45a6db6ce6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 19/19] fix: Chebyshev keeps its zeroth terms when saved and
 loaded

---
 src/basis/polynomial/mod.rs | 53 ++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/basis/polynomial/mod.rs b/src/basis/polynomial/mod.rs
index 9c999aa..3301ae9 100644
--- a/src/basis/polynomial/mod.rs
+++ b/src/basis/polynomial/mod.rs
@@ -124,7 +124,11 @@ pub struct Chebyshev {
     pub order: u8,
     pub limits: Vec<(f64, f64)>,
 
-    #[cfg_attr(feature = "serde", serde(skip_serializing))]
+    // The polynomials follow from the order and limits, but for the zeroth terms: only save how many.
+    #[cfg_attr(
+        feature = "serde",
+        serde(rename = "n_features", serialize_with = "serialize_len")
+    )]
     pub polynomials: Vec<Vec<fn(f64) -> f64>>,
 }
 
@@ -154,10 +158,15 @@ impl Chebyshev {
     }
 
     pub fn with_zeroth(mut self) -> Self {
-        self.polynomials.push(vec![|_| 1.0; self.limits.len()]);
+        self.polynomials
+            .push(Chebyshev::make_zeroth(self.limits.len()));
         self
     }
 
+    fn make_zeroth(dim: usize) -> Vec<fn(f64) -> f64> {
+        vec![|_| 1.0; dim]
+    }
+
     fn make_polynomials(order: u8, dim: usize) -> Vec<Vec<fn(f64) -> f64>> {
         let exponents = compute_coefficients(order, dim);
 
@@ -242,10 +251,19 @@ impl Combinators for Chebyshev {}
 #[cfg(feature = "serde")]
 use serde::{
     de::{self, MapAccess, SeqAccess, Visitor},
-    Deserialize, Deserializer,
+    Deserialize, Deserializer, Serializer,
 };
 #[cfg(feature = "serde")]
 use std::fmt;
+
+#[cfg(feature = "serde")]
+fn serialize_len<S: Serializer>(
+    polynomials: &Vec<Vec<fn(f64) -> f64>>,
+    serializer: S,
+) -> std::result::Result<S::Ok, S::Error> {
+    serializer.serialize_u64(polynomials.len() as u64)
+}
+
 #[cfg(feature = "serde")]
 impl<'de> Deserialize<'de> for Chebyshev {
     fn deserialize<D>(deserializer: D) -> std::result::Result<Self, D::Error>
@@ -256,15 +274,28 @@ impl<'de> Deserialize<'de> for Chebyshev {
             feature = "serde",
             derive(Deserialize),
             serde(crate = "serde_crate"),
-            serde(field_identifier, rename_all = "lowercase")
+            serde(field_identifier, rename_all = "snake_case")
         )]
         enum Field {
             Order,
             Limits,
+            NFeatures,
         }
 
         struct ChebyshevVisitor;
 
+        fn restore(order: u8, limits: Vec<(f64, f64)>, n_features: Option<u64>) -> Chebyshev {
+            let mut basis = Chebyshev::new(order, limits);
+
+            if let Some(n) = n_features {
+                let zeroth = Chebyshev::make_zeroth(basis.limits.len());
+
+                basis.polynomials.resize(n as usize, zeroth);
+            }
+
+            basis
+        }
+
         impl<'de> Visitor<'de> for ChebyshevVisitor {
             type Value = Chebyshev;
 
@@ -282,8 +313,9 @@ impl<'de> Deserialize<'de> for Chebyshev {
                 let limits = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
+                let n_features = seq.next_element()?;
 
-                Ok(Chebyshev::new(order, limits))
+                Ok(restore(order, limits, n_features))
             }
 
             fn visit_map<V>(self, mut map: V) -> std::result::Result<Chebyshev, V::Error>
@@ -292,6 +324,7 @@ impl<'de> Deserialize<'de> for Chebyshev {
             {
                 let mut order = None;
                 let mut limits = None;
+                let mut n_features = None;
                 while let Some(key) = map.next_key()? {
                     match key {
                         Field::Order => {
@@ -306,17 +339,23 @@ impl<'de> Deserialize<'de> for Chebyshev {
                             }
                             limits = Some(map.next_value()?);
                         }
+                        Field::NFeatures => {
+                            if n_features.is_some() {
+                                return Err(de::Error::duplicate_field("n_features"));
+                            }
+                            n_features = Some(map.next_value()?);
+                        }
                     }
                 }
 
                 let order = order.ok_or_else(|| de::Error::missing_field("order"))?;
                 let limits = limits.ok_or_else(|| de::Error::missing_field("limits"))?;
 
-                Ok(Chebyshev::new(order, limits))
+                Ok(restore(order, limits, n_features))
             }
         }
 
-        const FIELDS: &'static [&'static str] = &["order", "limits"];
+        const FIELDS: &'static [&'static str] = &["order", "limits", "n_features"];
         deserializer.deserialize_struct("Chebyshev", FIELDS, ChebyshevVisitor)
     }
 }
-- 
2.43.0


From 09aeeccfaf430766f59a875a48df779f7c4b4652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 01/18] fix: accumulate weights of dependents sharing a value
 in the reverse sweep

---
 src/tape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index 1ca4cb9..82b71d1 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -93,7 +93,8 @@ pub trait Tape: Send + Sync + fmt::Debug {
         let v = self.values();
         let mut vbar = vec![0.0; v.len()];
         for (idx, vid) in self.deps().iter().enumerate() {
-            vbar[*vid] = ybar[idx];
+            // Several dependents may share one value
+            vbar[*vid] += ybar[idx];
         }
         for op in self.ops_iter().rev() {
             op.first_order_reverse(v, &mut vbar);
-- 
2.43.0


From 01abfe909358e1b3ecb21fe896d019912f1e028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 02/18] fix: convert AFloat to primitive floats without
 truncating to an integer

---
 src/afloat.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 46f5c3f..0c47f21 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -205,6 +205,22 @@ impl<S: Float> ToPrimitive for AFloat<S> {
     fn to_u64(&self) -> Option<u64> {
         self.v.to_u64()
     }
+
+    fn to_i128(&self) -> Option<i128> {
+        self.v.to_i128()
+    }
+
+    fn to_u128(&self) -> Option<u128> {
+        self.v.to_u128()
+    }
+
+    fn to_f32(&self) -> Option<f32> {
+        self.v.to_f32()
+    }
+
+    fn to_f64(&self) -> Option<f64> {
+        self.v.to_f64()
+    }
 }
 
 impl<S: Float> NumCast for AFloat<S> {
-- 
2.43.0


From df8ea66b4c36683c4a9a549d27bf1839f6eaee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 03/18] fix: make abs_sub the positive difference

---
 src/afloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index 0c47f21..ae24457 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -386,7 +386,7 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn abs_sub(self, other: Self) -> Self {
-        (self - other).abs()
+        (self - other).max(Self::zero())
     }
 
     fn cbrt(self) -> Self {
-- 
2.43.0


From a65f0a93e383edf8473becea53fcc8c7ba2df5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 04/18] fix: use the epsilon of the underlying float type

---
 src/afloat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index ae24457..f37065c 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -308,6 +308,7 @@ impl<S: Float> Float for AFloat<S> {
     float_constant!(min_value);
     float_constant!(min_positive_value);
     float_constant!(max_value);
+    float_constant!(epsilon);
 
     float_passthrough!(bool, is_nan);
     float_passthrough!(bool, is_infinite);
-- 
2.43.0


From 0bda71ad96107ef2b38243fbf009100ee6ded814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 05/18] fix: default checkpoint budget for chains of a single
 function

---
 src/drivers/generalized_jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/generalized_jacobian.rs b/src/drivers/generalized_jacobian.rs
index e5f4d1c..aa72f08 100644
--- a/src/drivers/generalized_jacobian.rs
+++ b/src/drivers/generalized_jacobian.rs
@@ -152,7 +152,7 @@ pub fn generalized_jacobian_chain(
     dx: DVector<f64>,
     ncheckpoints: Option<usize>,
 ) -> GeneralizedJacobian {
-    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len());
+    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len().max(2));
     reverse_sequence(
         (0, x, dx),
         chain.len(),
-- 
2.43.0


From 7d0ad7c21e39c7a8daca0973ac8eb729f390557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 06/18] fix: do not preallocate the whole checkpoint budget

---
 src/drivers/checkpointing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/checkpointing.rs b/src/drivers/checkpointing.rs
index 271afc1..3d1f264 100644
--- a/src/drivers/checkpointing.rs
+++ b/src/drivers/checkpointing.rs
@@ -103,7 +103,7 @@ where
     assert!(ncheckpoints >= 2);
 
     // Store x at index 0 as the first checkpoint
-    let mut checkpoints: VecDeque<(usize, T)> = VecDeque::with_capacity(ncheckpoints);
+    let mut checkpoints: VecDeque<(usize, T)> = VecDeque::new();
     checkpoints.push_back((0, x));
 
     // Length of the not-yet reversed sequence
-- 
2.43.0


From 60d114ad1ea65f093864a1e8661c06202376ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 07/18] fix: shape of the unit vector in abs-normal column
 extraction

---
 src/drivers/abs_normal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drivers/abs_normal.rs b/src/drivers/abs_normal.rs
index afc34b4..806792e 100644
--- a/src/drivers/abs_normal.rs
+++ b/src/drivers/abs_normal.rs
@@ -220,8 +220,8 @@ macro_rules! anf_matrix {
             }
 
             pub fn column(&self, i: usize) -> DMatrix<f64> {
-                let mut ind = DMatrix::zeros(1, self.num_indeps());
-                ind[i] = 1.0;
+                let mut ind = DMatrix::zeros(self.num_indeps(), 1);
+                ind[(i, 0)] = 1.0;
                 self.mul_right(&ind)
             }
         }
-- 
2.43.0


From 25ab92407a052267c41c3857213a81d6e925825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 08/18] fix: derivative of a power with exponent zero at the
 origin

---
 src/operation.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 79f6929..8adaee9 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -68,7 +68,8 @@ pub(crate) fn first_order_value<S: Float>(
             let dx = darg1;
             let dy = darg2.unwrap();
 
-            let rv1 = if dx != S::zero() {
+            // A zero exponent makes a constant, even where x^(y-1) is infinite
+            let rv1 = if dx != S::zero() && y != S::zero() {
                 y * x.powf(y - S::one()) * dx
             } else {
                 S::zero()
@@ -318,7 +319,9 @@ impl Operation {
                 // vbar_k += vbar_i * ∂v_i/∂v_k = vbar_i * v_j.ln() * v_j.powf(v_k)
                 let x = v[self.arg1.unwrap()];
                 let y = v[self.arg2.unwrap()];
-                vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
+                if y != 0.0 {
+                    vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
+                }
                 vbar[self.arg2.unwrap()] += vbar[self.vid] * x.ln() * x.powf(y);
             }
             OpCode::Abs => {
-- 
2.43.0


From 4285afd2ec5e09fae8f6c3e3a4a058117cccd6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 09/18] fix: cube root of negative numbers

---
 src/afloat.rs    |  5 +----
 src/operation.rs | 12 ++++++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index f37065c..7244426 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -344,6 +344,7 @@ impl<S: Float> Float for AFloat<S> {
     float_elemental!(asin, Asin);
     float_elemental!(acos, Acos);
     float_elemental!(atan, Atan);
+    float_elemental!(cbrt, Cbrt);
     float_elemental2!(powf, Powf);
 
     fn mul_add(self, a: Self, b: Self) -> Self {
@@ -390,10 +391,6 @@ impl<S: Float> Float for AFloat<S> {
         (self - other).max(Self::zero())
     }
 
-    fn cbrt(self) -> Self {
-        self.powf(Self::one() / <Self as NumCast>::from(3.0).unwrap())
-    }
-
     fn hypot(self, other: Self) -> Self {
         (self.powi(2) + other.powi(2)).sqrt()
     }
diff --git a/src/operation.rs b/src/operation.rs
index 8adaee9..937a14f 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -18,6 +18,7 @@ pub enum OpCode {
     Asin,
     Acos,
     Atan,
+    Cbrt,
     Powf,
 }
 
@@ -36,6 +37,7 @@ pub(crate) fn zero_order_value<S: Float>(opcode: OpCode, arg1: S, arg2: Option<S
         OpCode::Asin => arg1.asin(),
         OpCode::Acos => arg1.acos(),
         OpCode::Atan => arg1.atan(),
+        OpCode::Cbrt => arg1.cbrt(),
         OpCode::Powf => arg1.powf(arg2.unwrap()),
         _ => panic!("Invalid opcode in zero_order_value"),
     }
@@ -62,6 +64,7 @@ pub(crate) fn first_order_value<S: Float>(
         OpCode::Asin => darg1 / (S::one() - arg1.powi(2)).sqrt(),
         OpCode::Acos => -darg1 / (S::one() - arg1.powi(2)).sqrt(),
         OpCode::Atan => darg1 / (S::one() + arg1.powi(2)),
+        OpCode::Cbrt => darg1 / (S::from(3.0).unwrap() * arg1.cbrt().powi(2)),
         OpCode::Powf => {
             let x = arg1;
             let y = arg2.unwrap();
@@ -234,6 +237,15 @@ impl Operation {
         }
     }
 
+    pub fn cbrt(vid: usize, idx: usize) -> Self {
+        Self {
+            opcode: OpCode::Cbrt,
+            vid,
+            arg1: Some(idx),
+            arg2: None,
+        }
+    }
+
     pub fn powf(vid: usize, base: usize, exponent: usize) -> Self {
         Self {
             opcode: OpCode::Powf,
-- 
2.43.0


From 8708fd1a7ce04e54e06ff3bceb93c0eb5169d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 10/18] fix: attributes on adv_fn! functions with destructured
 arguments

---
 src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index da363d1..80e1a45 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -80,8 +80,8 @@ macro_rules! adv_fn {
             $($tt:tt)*
         }
     } => {
-        adv_fn! {
-            $(#[$attr:meta])*
+        $crate::adv_fn! {
+            $(#[$attr])*
             $vis fn $func_name (__input: [[0 $(+ $crate::adv_replace!($arg_name 1usize))*]] $( , $extra_arg : $extra_type)* ) -> [[$($result_dim)*]] {
                 let __arg_counter = 0;
                 $(
-- 
2.43.0


From 39df010d9db37ab743f58630bfa3c980cae4c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 11/18] fix: take a tape atomically with respect to concurrent
 recording

---
 src/acontext.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 19b8d3d..41c870e 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -189,11 +189,13 @@ impl AContext {
 
     /// Get a tape
     pub fn tape(&self) -> impl Tape + Clone {
+        // All parts have to be of the same moment
+        let inner = self.inner.lock().unwrap();
         AContextTape {
-            indeps: self.indeps(),
-            deps: self.deps(),
-            ops: self.operations(),
-            vals: self.values(),
+            indeps: inner.indeps.clone(),
+            deps: inner.deps.clone(),
+            ops: inner.ops.clone(),
+            vals: inner.vals.clone(),
         }
     }
 }
-- 
2.43.0


From aaadf0fb3e1454b800b107f202d73170bb921bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 12/18] fix: keep the context usable after refusing a foreign
 dependent

---
 src/acontext.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 41c870e..8ee8ec9 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -98,12 +98,13 @@ impl AContext {
 
     /// Mark a variable as dependent
     pub fn set_dep<S: Float>(&mut self, x: &AFloat<S>) {
+        // Refuse foreign variables before locking to not poison the context
+        if let Some((cid, _)) = x.context() {
+            assert_eq!(cid, self.cid());
+        }
         let mut inner = self.inner.lock().unwrap();
         let vid = match x.context() {
-            Some((cid, vid)) => {
-                assert_eq!(cid, inner.cid());
-                vid
-            }
+            Some((_, vid)) => vid,
             None => {
                 // Record constant
                 let vid = inner.vals.len();
-- 
2.43.0


From 2d98cb891f9f464ac01df8d98c2020a5e5dff1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 13/18] fix: apply the right operator to a C++ double on the
 left

---
 src/cxx/ADouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index aa94070..28cd2aa 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -77,7 +77,7 @@ const void* ADouble::get_impl() const
 	ADouble operator OP(double lhs_, const ADouble& rhs) \
 	{ \
 		auto lhs = ADouble(lhs_); \
-		return lhs + rhs; \
+		return lhs OP rhs; \
 	}
 BINARY_OP_IMPL(add, +)
 BINARY_OP_IMPL(sub, -)
-- 
2.43.0


From 05afe3ff64f7ef5c0b700c2dbff59499bba2e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 14/18] fix: self-assignment of C++ ADouble

---
 src/cxx/ADouble.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index 28cd2aa..0228339 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -56,8 +56,10 @@ ADouble& ADouble::operator=(ADouble&& other)
 
 ADouble& ADouble::operator=(const ADouble& other)
 {
+	// Copy before freeing: other may be this object
+	auto val = ::adv_adouble_copy(other.m_impl->val);
 	::adv_adouble_free(m_impl->val);
-	m_impl->val = ::adv_adouble_copy(other.m_impl->val);
+	m_impl->val = val;
 	return *this;
 }
 
-- 
2.43.0


From 10d76bf75d8335237d1298725fb1fec44a7508eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 15/18] fix: second derivatives of powers where the first
 derivative of an operand vanishes

---
 src/operation.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 937a14f..9a0ebed 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -71,17 +71,17 @@ pub(crate) fn first_order_value<S: Float>(
             let dx = darg1;
             let dy = darg2.unwrap();
 
-            // A zero exponent makes a constant, even where x^(y-1) is infinite
-            let rv1 = if dx != S::zero() && y != S::zero() {
-                y * x.powf(y - S::one()) * dx
-            } else {
-                S::zero()
-            };
-            let rv2 = if dy != S::zero() {
-                x.ln() * x.powf(y) * dy
-            } else {
-                S::zero()
+            // A vanishing factor only cancels a derivative that is not finite: it may itself have a
+            // derivative if S is an active type
+            let product = |a: S, b: S| {
+                if b == S::zero() && !a.is_finite() {
+                    S::zero()
+                } else {
+                    a * b
+                }
             };
+            let rv1 = product(product(x.powf(y - S::one()), y), dx);
+            let rv2 = product(x.ln() * x.powf(y), dy);
             rv1 + rv2
         }
         _ => panic!("Invalid opcode in first_order_value"),
-- 
2.43.0


From f37b50b78291dfcd37e36ef075a1c99353b2772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 16/18] fix: moving a C++ object to itself discarded its value
 or recording

---
 src/cxx/AContext.cpp | 3 +++
 src/cxx/ADouble.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/cxx/AContext.cpp b/src/cxx/AContext.cpp
index 34ca2bf..6ec0ed1 100644
--- a/src/cxx/AContext.cpp
+++ b/src/cxx/AContext.cpp
@@ -36,6 +36,9 @@ AContext::AContext(AContext&& other):
 
 AContext& AContext::operator=(AContext&& other)
 {
+	if (this == &other) {
+		return *this;
+	}
 	if (m_impl != nullptr) {
 		::adv_acontext_free(m_impl->ctx);
 		delete m_impl;
diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index 0228339..36830d9 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -48,6 +48,9 @@ ADouble::ADouble(ADouble&& other):
 
 ADouble& ADouble::operator=(ADouble&& other)
 {
+	if (this == &other) {
+		return *this;
+	}
 	::adv_adouble_free(m_impl->val);
 	m_impl->val = other.m_impl->val;
 	other.m_impl->val = ::adv_adouble_default();
-- 
2.43.0


From 8836928f85afc59aef82130fd625456ec8323372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 17/18] fix: adv_fn! did not check the dimension of early
 returns and reused arguments the body had consumed

---
 src/macros.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 80e1a45..90b5f62 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -56,10 +56,13 @@ macro_rules! adv_fn {
             f64: $crate::Arithmetic<Scalar, Scalar>,
         {
             assert_eq!($arg_name.nrows(), $($arg_dim)*);
-            let result = {
+            // The body may consume what the dimension is computed from and may return early
+            let result_dim: usize = $($result_dim)*;
+            let body = move || -> $crate::DVector<Scalar> {
                 $($tt)*
             };
-            assert_eq!(result.nrows(), $($result_dim)*);
+            let result = body();
+            assert_eq!(result.nrows(), result_dim);
             result
         }
 
-- 
2.43.0


From b45fc5d7626164728256fd47b58fe13d90d41bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 18/18] fix: powi of single-precision numbers rounded exponents
 above 2^24

---
 src/afloat.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index 7244426..e66faf9 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -356,7 +356,15 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn powi(self, n: i32) -> Self {
-        self.powf(<Self as NumCast>::from(n).unwrap())
+        let exponent = <Self as NumCast>::from(n).unwrap();
+        if exponent.to_i32() == Some(n) {
+            return self.powf(exponent);
+        }
+        // The exponent has too many digits for the scalar type: rounding it might turn an odd
+        // exponent into an even one. Use two exponents that are exact.
+        let rest = n % 256;
+        self.powf(<Self as NumCast>::from(n - rest).unwrap())
+            * self.powf(<Self as NumCast>::from(rest).unwrap())
     }
 
     fn sqrt(self) -> Self {
-- 
2.43.0


From 3b7faf81e2588e3a07b5f7a1f367bca6bbdeaffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 01/12] fix: yield the single index of a zero-dimensional
 SDynamic shape

---
 aegir/src/buffers/shapes/multi_product.rs | 52 +++++++++++++++--------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/aegir/src/buffers/shapes/multi_product.rs b/aegir/src/buffers/shapes/multi_product.rs
index aeacf7c..3e65214 100644
--- a/aegir/src/buffers/shapes/multi_product.rs
+++ b/aegir/src/buffers/shapes/multi_product.rs
@@ -46,15 +46,23 @@ enum MultiProductIterState {
 }
 
 #[derive(Clone)]
-pub struct MultiProduct<const DIM: usize>([MultiProductIter; DIM]);
+pub struct MultiProduct<const DIM: usize> {
+    iters: [MultiProductIter; DIM],
+    // The empty product has exactly one (empty) index; this is set once it has
+    // been returned.
+    nullary_done: bool,
+}
 
 impl<const DIM: usize> MultiProduct<DIM> {
     pub fn new(sizes: [usize; DIM]) -> Self {
-        MultiProduct(sizes.map(|s| MultiProductIter {
-            cur: None,
-            iter: 0..s,
-            iter_orig: 0..s,
-        }))
+        MultiProduct {
+            iters: sizes.map(|s| MultiProductIter {
+                cur: None,
+                iter: 0..s,
+                iter_orig: 0..s,
+            }),
+            nullary_done: false,
+        }
     }
 
     fn iterate_last(
@@ -100,13 +108,13 @@ impl<const DIM: usize> MultiProduct<DIM> {
 
     /// Returns the unwrapped value of the next iteration.
     fn curr_iterator(&self) -> [usize; DIM] {
-        array_init::array_init(|i| self.0[i].cur.clone().unwrap())
+        array_init::array_init(|i| self.iters[i].cur.clone().unwrap())
     }
 
     /// Returns true if iteration has started and has not yet finished; false
     /// otherwise.
     fn in_progress(&self) -> bool {
-        if let Some(last) = self.0.last() {
+        if let Some(last) = self.iters.last() {
             last.in_progress()
         } else {
             false
@@ -118,7 +126,15 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     type Item = [usize; DIM];
 
     fn next(&mut self) -> Option<Self::Item> {
-        if MultiProduct::<DIM>::iterate_last(&mut self.0, MultiProductIterState::StartOfIter) {
+        if DIM == 0 {
+            return if std::mem::replace(&mut self.nullary_done, true) {
+                None
+            } else {
+                Some(self.curr_iterator())
+            };
+        }
+
+        if MultiProduct::<DIM>::iterate_last(&mut self.iters, MultiProductIterState::StartOfIter) {
             Some(self.curr_iterator())
         } else {
             None
@@ -126,16 +142,16 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     }
 
     fn count(self) -> usize {
-        if self.0.is_empty() {
-            return 0;
+        if DIM == 0 {
+            return usize::from(!self.nullary_done);
         }
 
         if !self.in_progress() {
-            return IntoIterator::into_iter(self.0)
+            return IntoIterator::into_iter(self.iters)
                 .fold(1, |acc, multi_iter| acc * multi_iter.iter.clone().count());
         }
 
-        IntoIterator::into_iter(self.0).fold(
+        IntoIterator::into_iter(self.iters).fold(
             0,
             |acc,
              MultiProductIter {
@@ -152,17 +168,19 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         // Not ExactSizeIterator because size may be larger than usize
-        if self.0.is_empty() {
-            return (0, Some(0));
+        if DIM == 0 {
+            let n = usize::from(!self.nullary_done);
+
+            return (n, Some(n));
         }
 
         if !self.in_progress() {
-            return self.0.iter().fold((1, Some(1)), |acc, multi_iter| {
+            return self.iters.iter().fold((1, Some(1)), |acc, multi_iter| {
                 size_hint_mul(acc, multi_iter.iter.size_hint())
             });
         }
 
-        self.0.iter().fold(
+        self.iters.iter().fold(
             (0, Some(0)),
             |acc,
              &MultiProductIter {
-- 
2.43.0


From e94a52c20d193a7903c1ae2d273a763b938ccb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 02/12] fix: report incompatible run-time sizes from Add, Sub
 and Mul instead of panicking

---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 20f1537..200fbd6 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -239,7 +239,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi + yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi + yi).map(Raw)
             },
         };
 
@@ -371,7 +371,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi - yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi - yi).map(Raw)
             },
         };
 
@@ -525,7 +525,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi * yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi * yi).map(Raw)
             },
         };
 
-- 
2.43.0


From a96679085a9a6e1d195bf692a7fd5c6e2bce5e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 03/12] fix: keep the operand order when zipping a scalar with
 an array of rank 2 or more

---
 aegir/src/buffers/arrays/zip_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/zip_ops.rs b/aegir/src/buffers/arrays/zip_ops.rs
index 546f4db..fd6bd4d 100644
--- a/aegir/src/buffers/arrays/zip_ops.rs
+++ b/aegir/src/buffers/arrays/zip_ops.rs
@@ -157,7 +157,7 @@ macro_rules! impl_map {
             };
             @zm_field_l |self, rhs, f| {
                 Ok(array_init::array_init(|i| unsafe {
-                    rhs[i].zip_map(&self, &f).unwrap_unchecked()
+                    rhs[i].zip_map(&self, |y, x| f(x, y)).unwrap_unchecked()
                 }))
             };
         );
-- 
2.43.0


From c6a0d0f658e6203cec0449c3fe4b4c2bf12589df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 04/12] fix: contract a matrix with a vector over the matrix's
 last axis

---
 aegir/src/buffers/arrays/contraction_ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 3f44564..526dc5e 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -142,7 +142,7 @@ impl_contract!(1; <F: FromPrimitive, N> [F; N], [F; N]; |self, x, y| -> F {
     }
 }; S0);
 
-impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; N]; |self, x, y| -> [F; M] {
+impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; M]; |self, x, y| -> [F; N] {
     Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[i][k] * y[k])))
 }, {
     use Spec::*;
@@ -150,13 +150,13 @@ impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; N]; |self, x, y| -> [F; M]
     match (x, y) {
         (Full(_, fx), _) if fx.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Diagonal(_, fx), Full(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Diagonal(_, fx), Full(_, fy)) if M == N => Ok(Full(S1, fx * fy)),
 
         (Diagonal(_, fx), y) if M == N => Ok(Raw({
             let mut y = y.unwrap();
             y.mutate(|yi| fx * yi);
 
-            let ptr = &mut y as *mut _ as *mut [F; M];
+            let ptr = &mut y as *mut _ as *mut [F; N];
             let res = unsafe { ptr.read() };
 
             core::mem::forget(y);
-- 
2.43.0


From de6073bdb4c1fa2330de853960e8c8032d5bf3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 05/12] fix: contract a vector with a matrix over the matrix's
 first axis

---
 aegir/src/buffers/arrays/contraction_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 526dc5e..8d023cf 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -187,14 +187,14 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
 }; S2);
 
 impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M] {
-    Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
+    Ok(array_init::array_init(|i| (0..N).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
 }, {
     use Spec::*;
 
     match (x, y) {
         (_, Full(_, fy)) if fy.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Full(_, fx), Diagonal(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Full(_, fx), Diagonal(_, fy)) if M == N => Ok(Full(S1, fx * fy)),
 
         (x, Diagonal(_, fy)) if M == N => Ok(Raw({
             let mut x = x.unwrap();
-- 
2.43.0


From 851797791cc5ce08075f64b136a7ad766ed57d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 06/12] fix: do not assume that a zero base to any power is
 zero

---
 aegir/src/ops/arithmetic/binary.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 200fbd6..397aec0 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -111,7 +111,6 @@ where
             (b, Full(_, fx)) if fx == zero => Ok(Spec::ones(b.shape())),
 
             (Full(sx, fx), _) if fx == one => Ok(Full(sx, fx)),
-            (Full(sx, fx), _) if fx == zero => Ok(Full(sx, fx)),
 
             (b, e) => {
                 let e = e.unwrap();
-- 
2.43.0


From a46fb34b10d21efe8188af806223205e9906e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:07 +0000
Subject: [PATCH 07/12] fix: stop printing a shape once the sink has failed

Displaying a fixed shape of rank two or more kept writing the remaining
dimensions after the sink had reported an error.
---
 aegir/src/buffers/shapes/compiled.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/buffers/shapes/compiled.rs b/aegir/src/buffers/shapes/compiled.rs
index 42fd7fe..09ee695 100644
--- a/aegir/src/buffers/shapes/compiled.rs
+++ b/aegir/src/buffers/shapes/compiled.rs
@@ -72,13 +72,13 @@ impl<const A: usize> std::fmt::Display for S1<A> {
 
 macro_rules! impl_fixed {
     (@dim_string; $fmt:ident :: $tp0:ident, $($tp:ident),*) => {{
-        let mut res = write!($fmt, "{}", $tp0);
+        write!($fmt, "{}", $tp0)?;
 
         $({
-            res = res.and(write!($fmt, " \u{00D7} {}", $tp));
+            write!($fmt, " \u{00D7} {}", $tp)?;
         })*
 
-        res
+        Ok(())
     }};
     ($dim:literal; $name:ident<$($tp:ident),*>; $trans:expr) => {
         impl<$(const $tp: usize),+> Shape for $name<$($tp),+> {
-- 
2.43.0


From fed842ae9058fbdd4f4bbb750d66aa175357bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:07 +0000
Subject: [PATCH 08/12] fix: an identifier declared without a symbol displays
 its own name

ids! used the stringified name of a local variable, so every identifier
declared without an explicit symbol was displayed as "type_id".
---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 906776b..4482081 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -32,7 +32,7 @@ impl DataIdentifier {
 
     pub fn impl_display(&self) -> syn::ItemImpl {
         let type_id = &self.type_id;
-        let type_str = syn::LitStr::new(stringify!(type_id), type_id.span());
+        let type_str = syn::LitStr::new(&type_id.to_string(), type_id.span());
         let symbol = self.symbol.as_ref().unwrap_or(&type_str);
 
         syn::parse2(quote! {
-- 
2.43.0


From fc82b7566c86262052affd2b31c1a584ea1ca21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 09/12] fix: print an identifier's declared symbol verbatim,
 braces included

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 4482081..709a7eb 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -38,7 +38,7 @@ impl DataIdentifier {
         syn::parse2(quote! {
             impl std::fmt::Display for #type_id {
                 fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-                    write!(f, #symbol)
+                    f.write_str(#symbol)
                 }
             }
         })
-- 
2.43.0


From 4aeb2d075448244c13743b78bda77750d13c735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 10/12] fix: scale the gradient when a dual number is
 multiplied by a plain value

d(x * c) is c dx, but Dual * V left the adjoint of the left-hand side as it was.
---
 aegir/src/dual.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aegir/src/dual.rs b/aegir/src/dual.rs
index 0c4b706..30aa74c 100644
--- a/aegir/src/dual.rs
+++ b/aegir/src/dual.rs
@@ -223,13 +223,16 @@ where
 impl<V, A> ops::Mul<V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<V>,
+    A: Buffer,
+
+    FieldOf<A>: std::ops::Mul<V, Output = FieldOf<A>>,
 {
     type Output = Dual<V::Output, A>;
 
     fn mul(self, rhs: V) -> Self::Output {
         Dual {
-            value: self.value * rhs,
-            adjoint: self.adjoint,
+            value: self.value * rhs.clone(),
+            adjoint: self.adjoint.map(|a| a * rhs.clone()),
         }
     }
 }
@@ -237,13 +240,16 @@ where
 impl<'a, V, A> ops::Mul<&'a V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<&'a V>,
+    A: Buffer,
+
+    FieldOf<A>: std::ops::Mul<&'a V, Output = FieldOf<A>>,
 {
     type Output = Dual<V::Output, A>;
 
     fn mul(self, rhs: &'a V) -> Self::Output {
         Dual {
             value: self.value * rhs,
-            adjoint: self.adjoint,
+            adjoint: self.adjoint.map(|a| a * rhs),
         }
     }
 }
-- 
2.43.0


From 4bb9f4a6c7b2f5cf87426e892859fbfc2936e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 11/12] fix: an exhausted run-time cursor stays exhausted

---
 aegir/src/buffers/shapes/multi_product.rs | 26 +++++++++++++----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/aegir/src/buffers/shapes/multi_product.rs b/aegir/src/buffers/shapes/multi_product.rs
index 3e65214..7819cd1 100644
--- a/aegir/src/buffers/shapes/multi_product.rs
+++ b/aegir/src/buffers/shapes/multi_product.rs
@@ -48,9 +48,9 @@ enum MultiProductIterState {
 #[derive(Clone)]
 pub struct MultiProduct<const DIM: usize> {
     iters: [MultiProductIter; DIM],
-    // The empty product has exactly one (empty) index; this is set once it has
-    // been returned.
-    nullary_done: bool,
+    // Set once the product is exhausted, which for the empty product is as soon
+    // as its one (empty) index has been returned.
+    done: bool,
 }
 
 impl<const DIM: usize> MultiProduct<DIM> {
@@ -61,7 +61,7 @@ impl<const DIM: usize> MultiProduct<DIM> {
                 iter: 0..s,
                 iter_orig: 0..s,
             }),
-            nullary_done: false,
+            done: false,
         }
     }
 
@@ -126,24 +126,28 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     type Item = [usize; DIM];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.done {
+            return None;
+        }
+
         if DIM == 0 {
-            return if std::mem::replace(&mut self.nullary_done, true) {
-                None
-            } else {
-                Some(self.curr_iterator())
-            };
+            self.done = true;
+
+            return Some(self.curr_iterator());
         }
 
         if MultiProduct::<DIM>::iterate_last(&mut self.iters, MultiProductIterState::StartOfIter) {
             Some(self.curr_iterator())
         } else {
+            self.done = true;
+
             None
         }
     }
 
     fn count(self) -> usize {
         if DIM == 0 {
-            return usize::from(!self.nullary_done);
+            return usize::from(!self.done);
         }
 
         if !self.in_progress() {
@@ -169,7 +173,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         // Not ExactSizeIterator because size may be larger than usize
         if DIM == 0 {
-            let n = usize::from(!self.nullary_done);
+            let n = usize::from(!self.done);
 
             return (n, Some(n));
         }
-- 
2.43.0


From 2c2e9ff3272894f7a4975e07492121b8bad28254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 12/12] fix: sigma, tau and upsilon print their own letters

---
 aegir/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/lib.rs b/aegir/src/lib.rs
index 3eba3b2..f872832 100644
--- a/aegir/src/lib.rs
+++ b/aegir/src/lib.rs
@@ -73,7 +73,7 @@ pub mod ids {
         Epsilon::"\u{03B5}", Zeta::"\u{03B6}", Eta::"\u{03B7}", Theta::"\u{03B8}",
         Iota::"\u{03B9}", Kappa::"\u{03BA}", Lambda::"\u{03BB}", Mu::"\u{03BC}",
         Nu::"\u{03BD}", Xi::"\u{03BE}", Omicron::"\u{03BF}", Pi::"\u{03C0}",
-        Rho::"\u{03C1}", Sigma::"\u{03C2}", Tau::"\u{03C3}", Upsilon::"\u{03C4}",
+        Rho::"\u{03C1}", Sigma::"\u{03C3}", Tau::"\u{03C4}", Upsilon::"\u{03C5}",
         Phi::"\u{03C6}", Chi::"\u{03C7}", Psi::"\u{03C8}", Omega::"\u{03C9}"
     );
 }
-- 
2.43.0


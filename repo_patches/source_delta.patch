From 1b9189622522f1fd0bbb2a91c725ef33b14a7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 01/15] fix: keep rational sums and differences in simplest
 form

1/2 + 1/2 came out as 4/4, which compares unequal to 1 and makes later
numerators and denominators grow without need.
---
 src/core/num/rat.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 2c94151..c04fd37 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -79,13 +79,10 @@ impl Add for Rational {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        let numer = self.numer * other.denom + other.numer * self.denom;
-
-        if numer.is_zero() {
-            Rational::ZERO
-        } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
-        }
+        Rational::new(
+            self.numer * other.denom + other.numer * self.denom,
+            self.denom * other.denom,
+        )
     }
 }
 
@@ -99,13 +96,10 @@ impl Sub for Rational {
     type Output = Self;
 
     fn sub(self, other: Self) -> Self {
-        let numer = self.numer * other.denom - other.numer * self.denom;
-
-        if numer.is_zero() {
-            Rational::ZERO
-        } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
-        }
+        Rational::new(
+            self.numer * other.denom - other.numer * self.denom,
+            self.denom * other.denom,
+        )
     }
 }
 
-- 
2.43.0


From 8f16082f2f1b80f1f30464560b2176d5b3cf5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 02/15] fix: negative rational powers keep a positive
 denominator and reject zero

(-2)^-1 came out as 1/-2 and 0^-1 as 1/0.
---
 src/core/num/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index c04fd37..72f17c6 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -47,7 +47,7 @@ impl Rational {
 
     pub fn pow(&self, exp: Integer) -> Self {
         if exp.is_neg() {
-            Self::new_unchecked(self.denom.pow(-exp), self.numer.pow(-exp))
+            Self::new(self.denom.pow(-exp), self.numer.pow(-exp))
         } else {
             Self::new_unchecked(self.numer.pow(exp), self.denom.pow(exp))
         }
-- 
2.43.0


From e4229570a98603fa9cad715fa1dd1ba59ba4f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 03/15] fix: reciprocal of the zero rational panics like
 division by zero

It returned 0/0.
---
 src/core/num/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 72f17c6..15ac3da 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -64,7 +64,7 @@ impl Rational {
     }
 
     pub fn recip(&self) -> Self {
-        Self::new_unchecked(self.sgn() * self.denom, self.sgn() * self.numer)
+        Self::new(self.denom, self.numer)
     }
 }
 
-- 
2.43.0


From 8dc84e370a03b3e3ca2c9f5039b29c5041b57b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 04/15] fix: gcd does not overflow on i64::MIN and -1

---
 src/core/num/int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/num/int.rs b/src/core/num/int.rs
index e1d1617..b6c2848 100644
--- a/src/core/num/int.rs
+++ b/src/core/num/int.rs
@@ -70,7 +70,8 @@ impl Integer {
 
         while b != 0 {
             t = b;
-            b = a % b;
+            // `i64::MIN % -1` overflows although the remainder is zero
+            b = a.wrapping_rem(b);
             a = t;
         }
 
-- 
2.43.0


From e7e0171fac08de6da1c031b204e96b37f12104cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 05/15] fix: lcm is nonnegative and defined for two zeros

lcm(-4, 6) was -12 and lcm(0, 0) divided by zero.
---
 src/core/num/int.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/num/int.rs b/src/core/num/int.rs
index b6c2848..84cb9f9 100644
--- a/src/core/num/int.rs
+++ b/src/core/num/int.rs
@@ -82,7 +82,14 @@ impl Integer {
     /// 
     /// That is, the smallest nonnegative integer which both divide.
     pub fn lcm(a: Integer, b: Integer) -> Integer {
-        a / Self::gcd(a, b) * b
+        let gcd = Self::gcd(a, b);
+
+        if gcd.0 == 0 {
+            // both zero, and zero is the only common multiple
+            gcd
+        } else {
+            (a / gcd * b).abs()
+        }
     }
 }
 
-- 
2.43.0


From b572e3687032ae628f960c896fe9177aab0c6fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 06/15] fix: comparing rationals does not overflow

The cross products of large rationals do not fit an i64.
---
 src/core/num/traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/num/traits.rs b/src/core/num/traits.rs
index 215bd84..4d84219 100644
--- a/src/core/num/traits.rs
+++ b/src/core/num/traits.rs
@@ -232,6 +232,9 @@ impl PartialOrd for Rational {
 
 impl Ord for Rational {
     fn cmp(&self, other: &Self) -> Ordering {
-        (self.numer * other.denom).cmp(&(other.numer * self.denom))
+        // cross products of `i64`s always fit an `i128`
+        let cross = |a: Integer, b: Integer| i128::from(a.0) * i128::from(b.0);
+
+        cross(self.numer, other.denom).cmp(&cross(other.numer, self.denom))
     }
 }
-- 
2.43.0


From 241f18cd747b1a4a753333d4fdf5aedfe0da8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 07/15] fix: trimming an all-zero multidegree leaves the zero
 multidegree

---
 src/poly/mdeg.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/poly/mdeg.rs b/src/poly/mdeg.rs
index ac36512..fcb9275 100644
--- a/src/poly/mdeg.rs
+++ b/src/poly/mdeg.rs
@@ -33,9 +33,8 @@ impl MultiDegree {
     /// Should be avoided if possible; prefer clean operations.
     #[inline]
     pub fn trim_zeros(&mut self) {
-        if let Some(idx) = self.degs().rposition(|deg| *deg != 0) {
-            self.0.truncate(idx + 1);
-        }
+        let len = self.degs().rposition(|deg| *deg != 0).map_or(0, |idx| idx + 1);
+        self.0.truncate(len);
     }
 
     /// Returns the multidegree wrapping the given vector, after truncating off
-- 
2.43.0


From 0a300be793f3cbd9bd6e08bed3c89f5730a9c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 08/15] fix: graded orders do not overflow on large total
 degrees

---
 src/poly/ord.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poly/ord.rs b/src/poly/ord.rs
index 2dd3cbc..5a6a305 100644
--- a/src/poly/ord.rs
+++ b/src/poly/ord.rs
@@ -78,7 +78,8 @@ impl MonomialOrder for RevLex {
 /// Important note: this is not a 'monomial order' as it is not antisymmetric;
 /// should probably be moved or hidden to avoid confusion
 pub fn grad(a: &MultiDegree, b: &MultiDegree) -> Ordering {
-    a.total_deg().cmp(&b.total_deg())
+    let total = |m: &MultiDegree| m.degs().map(|&d| d as usize).sum::<usize>();
+    total(a).cmp(&total(b))
 }
 
 /// The [Graded Lexicographic Order](https://w.wiki/3zwp) on multidegrees.
-- 
2.43.0


From 05c126415d3b50ec34199a815f4597ce951a14cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 09/15] fix: division and S-polynomials cancel leading terms
 under rounding

---
 src/poly/comp.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index b8f3c12..97e3491 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -44,6 +44,12 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
         Some(Self::leading_term(f)?.coef)
     }
 
+    /// Returns `f` without its leading term `lt_f`
+    fn tail(f: &Polynomial<F>, lt_f: &Term<F>) -> Polynomial<F> {
+        // clean operation: removing a term will not spoil
+        Polynomial::new_unchecked(f.terms().filter(|t| t.mdeg != lt_f.mdeg).cloned().collect())
+    }
+
     /// Performs general polynomial division on `f` with the divisors `divs`; returns the pair `(remainder, quotients)`.
     ///
     /// Let `f` = $f$ and `divs` = $\\{g_1, \dots, g_m\\}$.
@@ -81,7 +87,8 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
                         *q = &*q + &a;
 
                         // eliminate `lt_f == a * lt_g` from `f`
-                        f = f - a * g;
+                        // - the leading terms cancel, whether or not the coefficients are rounded
+                        f = Self::tail(&f, &lt_f) - a * Self::tail(g, lt_g);
 
                         continue 'outer;
                     }
@@ -149,7 +156,8 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
         let lt_g = Self::leading_term(g)?;
         let lcm = Self::monic_lcm(&lt_f, &lt_g);
 
-        Some(lcm.try_div(&lt_f)? * f - lcm.try_div(&lt_g)? * g)
+        // the leading terms cancel, whether or not the coefficients are rounded
+        Some(lcm.try_div(&lt_f)? * Self::tail(f, lt_f) - lcm.try_div(&lt_g)? * Self::tail(g, lt_g))
     }
 
     /// Test whether `generators` is a Gröbner basis using Buchberger's criterion
-- 
2.43.0


From b43f05e36f6fb014b8d369e2fee54eb66067604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 10/15] fix: Buchberger's algorithm returns a monic reduced
 basis

---
 src/poly/comp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index 97e3491..5754c32 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -261,6 +261,13 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
                 }
             };
         }
+
+        // the elements of a reduced basis are monic
+        for g in generators.iter_mut() {
+            if let Some(lc_g) = Self::leading_coef(g) {
+                *g = &*g / lc_g;
+            }
+        }
     }
 
     /// Turns `generator` into a reduced Gröbner basis, using Buchberger's algorithm.
-- 
2.43.0


From 4957fb214c6063ce4b142a88a55e31b85114142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 11/15] fix: mutable column iterator strides by the number of
 columns

---
 src/linalg/mat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mat.rs b/src/linalg/mat.rs
index ab64e7c..119db55 100644
--- a/src/linalg/mat.rs
+++ b/src/linalg/mat.rs
@@ -237,7 +237,7 @@ impl<F: Field> Mat<F> {
         // the more simple (0..self.rows).map(move |r| entries.get_mut(r,c))
         // has weird lifetime issues. This works though, so sicko mode
         self.entries
-            .chunks_exact_mut(self.rows)
+            .chunks_exact_mut(self.cols)
             .map(move |row| &mut row[c])
     }
 
-- 
2.43.0


From d731d833fcff30f60d1a9d3f326d052699fa70c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 12/15] fix: row reduction makes pivots exactly one under
 rounding

---
 src/linalg/algorithm.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/linalg/algorithm.rs b/src/linalg/algorithm.rs
index c7a799a..2726fb7 100644
--- a/src/linalg/algorithm.rs
+++ b/src/linalg/algorithm.rs
@@ -60,6 +60,14 @@ impl<F: Field> Mat<F> {
             // self[(target, c)] = temp;
         }
     }
+
+    // unlike scaling by the reciprocal, this makes an entry equal to `scalar`
+    // exactly one, even when the field's operations are rounded
+    fn divide_row(&mut self, r: usize, scalar: F) {
+        for c in 0..self.cols() {
+            self[(r, c)] /= scalar;
+        }
+    }
 }
 
 // LU Decomposition ------------------------------------------------------------
@@ -169,9 +177,9 @@ impl<'a, F: Field, const E: bool, const R: bool> RowEquivalentForm<'a, F, E, R>
 		self.b.permute_rows(r1, r2);
 	}
 
-	fn scale_row(&mut self, r: usize, scalar: F){
-		self.p.scale_row(r, scalar);
-		self.b.scale_row(r, scalar);
+	fn divide_row(&mut self, r: usize, scalar: F){
+		self.p.divide_row(r, scalar);
+		self.b.divide_row(r, scalar);
 	}
 
 	/// Performs replacement operation to clear all entries in column under the
@@ -236,7 +244,7 @@ impl<F: Field + StabilityCmp + EpsilonEquality> Mat<F> {
 
 			if let Some((stable_index, scalar)) = form.b.get_stable_column_index_under_row(c, r) {
 				form.permute_rows(r, stable_index);
-				form.scale_row(r, F::ONE/scalar);
+				form.divide_row(r, scalar);
 				form.replace_col_under_row(r, c);
 				
 				r += 1;
-- 
2.43.0


From 2e3df71036e358e6e58be3fe578e4e764d30bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 13/15] fix: cone facets are oriented by a generator off the
 facet, in every dimension

---
 src/linalg/cone.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index 28a04ee..9b71ed7 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -37,11 +37,18 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 
 		let mut facets: Vec<Face<F>> = vec![];
 
+		// the zero cone has no facets
+		let facet_dim = if dim > 0 { dim - 1 } else { generators.len() + 1 };
+
 		// compute facets
-		'outer: for subset in generators.iter().combinations(dim-1) {
+		'outer: for subset in generators.iter().combinations(facet_dim) {
 			// this is very inefficient to copy this all the time
 			let subset_owned : Vec<Mat<F>> = subset.iter().map(|&m| m.clone()).collect();
-			let subset_mat = Mat::from_row_vectors(&subset_owned);
+			let subset_mat = Mat::new(
+				subset.len(),
+				ambient_dim,
+				subset.iter().flat_map(|m| m.entries()).cloned().collect()
+			);
 			let subset_rref = subset_mat.row_echelon().to_rref();
 
 			// (1) check linearly independent
@@ -50,13 +57,23 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 			}
 
 			// (2) get a normal (there are potentially multiple in dim != ambient_dim)
+			// together with its dot product with a generator it isn't orthogonal to
 			let subset_kernel = subset_rref.compute_kernel();
-			let mut normal = subset_kernel[0].clone();
+			let oriented = subset_kernel.into_iter().find_map(|normal| {
+				let dot = generators.iter()
+					.map(|g| g.dot(&normal))
+					.find(|d| !d.epsilon_equals(&F::ZERO))?;
+				Some((normal, dot))
+			});
+			let (mut normal, dot) = match oriented {
+				Some(oriented) => oriented,
+				None => continue
+			};
 
 			// (3) check that all generators are on one side
-			if let Some(ordering) = generators[0].dot(&normal).partial_cmp(&F::ZERO) {
+			if let Some(ordering) = dot.partial_cmp(&F::ZERO) {
 
-				// re-orient the normal in the direction of the first generator
+				// re-orient the normal in the direction of that generator
 				let is_above = match ordering {
 					std::cmp::Ordering::Less => false,
 					_ => true
-- 
2.43.0


From f203d1db68555331380b2b3bbc07760444db9dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 14/15] verification hooks: read access to private fields under
 cfg algeo_verif

---
 src/lib.rs              |  2 ++
 src/linalg/algorithm.rs | 11 +++++++++++
 src/linalg/cone.rs      | 20 +++++++++++++++++++-
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 21efd08..3b312a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod core;
 pub mod linalg;
 pub mod poly;
diff --git a/src/linalg/algorithm.rs b/src/linalg/algorithm.rs
index 2726fb7..d2098ca 100644
--- a/src/linalg/algorithm.rs
+++ b/src/linalg/algorithm.rs
@@ -203,6 +203,17 @@ impl<'a, F: Field, const E: bool, const R: bool> RowEquivalentForm<'a, F, E, R>
 	}
 }
 
+/// Read access for the verification harnesses (`--cfg algeo_verif`).
+#[cfg(algeo_verif)]
+impl<'a, F: Field, const E: bool, const R: bool> RowEquivalentForm<'a, F, E, R> {
+	pub fn verif_p(&self) -> &Mat<F> {
+		&self.p
+	}
+	pub fn verif_b(&self) -> &Mat<F> {
+		&self.b
+	}
+}
+
 type RowEchelonForm<'a, F> = RowEquivalentForm<'a, F, true, false>;
 type ReducedRowEchelonForm<'a, F> = RowEquivalentForm<'a, F, true, true>;
 
diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index 9b71ed7..7c3d138 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -116,4 +116,22 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 			dim
 		}
 	}
-}
\ No newline at end of file
+}
+
+/// Read access for the verification harnesses (`--cfg algeo_verif`).
+#[cfg(algeo_verif)]
+impl<F: Field> Cone<F> {
+	pub fn verif_generators(&self) -> &[Mat<F>] {
+		&self.generators
+	}
+	/// normal and generators of each facet
+	pub fn verif_facets(&self) -> Vec<(&Mat<F>, &[Mat<F>])> {
+		self.facets.iter().map(|f| (&f.normal, &f.generators[..])).collect()
+	}
+	pub fn verif_orth_comp_basis(&self) -> &[Mat<F>] {
+		&self.orth_comp_basis
+	}
+	pub fn verif_dims(&self) -> (usize, usize) {
+		(self.ambient_dim, self.dim)
+	}
+}
-- 
2.43.0


From 790c06515cc92b5afa524b467f88fe9846051b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 15/15] fix: LU decomposition makes pivots exactly one under
 rounding

---
 src/linalg/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/algorithm.rs b/src/linalg/algorithm.rs
index d2098ca..8acaf49 100644
--- a/src/linalg/algorithm.rs
+++ b/src/linalg/algorithm.rs
@@ -94,7 +94,7 @@ impl<F: Field> LUDecompositionInternal<F> {
 
     fn scale_row(&mut self, r: usize, scalar: F) {
         self.l[(r, r)] = scalar;
-        self.u.scale_row(r, F::ONE / scalar);
+        self.u.divide_row(r, scalar);
     }
 
     fn replace_col_under_row(&mut self, r: usize, c: usize) {
-- 
2.43.0


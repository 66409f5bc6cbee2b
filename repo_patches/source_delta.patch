From 774cd125c9cf301357bd32a11873b40f5b6d4fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 01/43] fix: Smith normal form applies the wrong inverse row
 operation in the divisibility stage

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a520155..64e1a43 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1058,7 +1058,7 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
                 // A column operation to eliminate the entry at (r, s)
                 self.col_operation(s, r, -w * y);
                 c_op.col_operation(s, r, -w * y);
-                c_op_inv.row_operation(s, r, w * y);
+                c_op_inv.row_operation(r, s, w * y);
 
                 debug_assert!(self[(r,r)]==gcd);
                 debug_assert!(self[(r,s)]==T::zero());
-- 
2.43.0


From dfcb9a97e7632283d2ac0eef7c627a4f4a4847f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 02/43] fix: is_prime and n_prime_factors test divisibility
 with a quotient instead of a remainder

---
 alg/src/commutative.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alg/src/commutative.rs b/alg/src/commutative.rs
index 213c972..76de01e 100644
--- a/alg/src/commutative.rs
+++ b/alg/src/commutative.rs
@@ -127,15 +127,15 @@ macro_rules! pid_impl {
         impl PID for $t {
             fn is_prime(self) -> bool {
                 if self == Self::zero() || self == Self::one() { return false; }
-                (2..self).all(|x| self/x != 0)
+                (2..self).all(|x| self%x != 0)
             }
 
             fn n_prime_factors(self) -> usize {
                 if self.is_prime() { return 1; }
                 let mut count = 0;
-                (0..self).filter(|&x| x.is_prime()).filter(|&x| self/x == 0).for_each(|x|{
+                (0..self).filter(|&x| x.is_prime()).filter(|&x| self%x == 0).for_each(|x|{
                     let mut num = self;
-                    while num/x==0 {
+                    while num%x==0 {
                         count += 1;
                         num /= x;
                     }
-- 
2.43.0


From 5c133a62068cd4fff0cce1d1d6037077d3919448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 03/43] fix: the product of rationals starts at zero instead of
 one

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 66fd8a7..4ec2654 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -211,7 +211,7 @@ impl Sum for Rational {
 
 impl Product for Rational {
     fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
-        iter.fold(Rational::zero(), |accum, a| accum * a)
+        iter.fold(Rational::one(), |accum, a| accum * a)
     }
 }
 
-- 
2.43.0


From 8d25312473a66877724b1a2a0558301b78258a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 04/43] fix: negating the rational zero produces a second,
 non-canonical zero

---
 alg/src/commutative/rational_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 4ec2654..2b8ddad 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -180,6 +180,7 @@ impl Neg for Rational {
     type Output = Rational;
     fn neg(mut self) -> Self::Output {
         self.sign = !self.sign;
+        self.optimize();
         self
     }
 }
-- 
2.43.0


From 6cede812bddec5f45cfef9b003cd30d5a23e79e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 05/43] fix: comparing the rational zero with itself divides by
 zero

---
 alg/src/commutative/rational_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 2b8ddad..94a9d05 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -66,7 +66,8 @@ impl Rational {
 
 impl Ord for Rational {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        let gcd_of_n = gcd(self.numerator, rhs.numerator);
+        // 'gcd(0, 0)' is 0, and we cannot divide by it.
+        let gcd_of_n = std::cmp::max(gcd(self.numerator, rhs.numerator), 1);
         let gcd_of_d = gcd(self.denominator, rhs.denominator);
         let a = (self.numerator/gcd_of_n) * (rhs.denominator/gcd_of_d);
         let b = (rhs.numerator/gcd_of_n) * (self.denominator/gcd_of_d);
-- 
2.43.0


From fa53ee881a784f91be2c9adb72f5081379c1a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 06/43] fix: negative integers are always reported as primes

---
 alg/src/commutative.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/alg/src/commutative.rs b/alg/src/commutative.rs
index 76de01e..b9d2af7 100644
--- a/alg/src/commutative.rs
+++ b/alg/src/commutative.rs
@@ -126,15 +126,17 @@ macro_rules! pid_impl {
     ($($t:ty)*) => ($(
         impl PID for $t {
             fn is_prime(self) -> bool {
-                if self == Self::zero() || self == Self::one() { return false; }
-                (2..self).all(|x| self%x != 0)
+                let (_, n) = self.simplify(); // -n is prime if and only if n is prime
+                if n == Self::zero() || n == Self::one() { return false; }
+                (2..n).all(|x| n%x != 0)
             }
 
             fn n_prime_factors(self) -> usize {
                 if self.is_prime() { return 1; }
                 let mut count = 0;
-                (0..self).filter(|&x| x.is_prime()).filter(|&x| self%x == 0).for_each(|x|{
-                    let mut num = self;
+                let (_, n) = self.simplify();
+                (0..n).filter(|&x| x.is_prime()).filter(|&x| n%x == 0).for_each(|x|{
+                    let mut num = n;
                     while num%x==0 {
                         count += 1;
                         num /= x;
-- 
2.43.0


From 09d42b7ffb0d9764537b6aff05f3ba2facd2fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 07/43] fix: a formal sum built from a list keeps repeated
 basis elements unmerged

---
 alg/src/lin_alg.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index ed91b16..e8e84b6 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -189,16 +189,14 @@ impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> Vector<Coeff, Basis> {
 }
 
 impl<const N: usize, Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<[Basis; N]> for Vector<Coeff, Basis> {
-    fn from(mut summands: [Basis; N]) -> Self {
-        summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+    fn from(summands: [Basis; N]) -> Self {
+        summands.into_iter().map(|b| Vector(vec![(Coeff::one(), b)])).sum()
     }
 }
 
 impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<Vec<Basis>> for Vector<Coeff, Basis> {
-    fn from(mut summands: Vec<Basis>) -> Self {
-        summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+    fn from(summands: Vec<Basis>) -> Self {
+        summands.into_iter().map(|b| Vector(vec![(Coeff::one(), b)])).sum()
     }
 }
 
-- 
2.43.0


From c0c51dc960cb8946c55e66548429d99ddeffab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 08/43] fix: merging two sorted iterators does not sort, so
 sums of formal sums are not normalised

---
 alg/src/lin_alg.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index e8e84b6..9a5b730 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -290,6 +290,7 @@ struct Merge <T, I, J, F>
         F: Fn(&T, &T)->Ordering
 {
     curr: Option<T>,
+    is_curr_from_j: bool,
     i: I,
     j: J,
     f: F
@@ -303,24 +304,24 @@ impl<T, I, J, F> Iterator for Merge<T, I, J, F>
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut self_curr = None;
-        std::mem::swap(&mut self_curr, &mut self.curr);
-        if let Some(mut curr) = self_curr {
-            if let Some(mut next) = self.i.next() {
-                if (self.f)(&curr, &next) == Ordering::Less {
-                    std::mem::swap( &mut next, &mut curr );
+        let curr = self.curr.take()?;
+        // 'curr' is compared with the next element of the iterator it does not come from.
+        let next = if self.is_curr_from_j { self.i.next() } else { self.j.next() };
+        match next {
+            Some(next) => {
+                if (self.f)(&next, &curr) == Ordering::Less {
+                    self.curr = Some(curr);
+                    Some(next)
+                } else {
+                    self.curr = Some(next);
+                    self.is_curr_from_j = !self.is_curr_from_j;
+                    Some(curr)
                 }
-                self.curr = Some(curr);
-                Some(next)
-            } else if let Some(next) = self.j.next() { 
-                self.curr = Some(next);
-                Some(curr)
-            } else {
-                self.curr = None;
+            },
+            None => {
+                self.curr = if self.is_curr_from_j { self.j.next() } else { self.i.next() };
                 Some(curr)
             }
-        } else {
-            None
         }
     }
 }
@@ -329,11 +330,13 @@ fn merge_by<T, I: Iterator<Item=T>, J: Iterator<Item=T>, F: Fn(&T, &T)->Ordering
     if let Some(next) = j.next() {
         Merge{
             curr: Some(next), 
+            is_curr_from_j: true,
             i, j, f
         }
     } else {
         Merge{
             curr: i.next(),
+            is_curr_from_j: false,
             i,
             j,
             f,
-- 
2.43.0


From 3541bd4643325f84aba1773047658f2a71c682df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 09/43] fix: swapping with an empty range never returns the
 identity and recurses forever

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index f45bf0b..3a3dde1 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -196,7 +196,7 @@ impl Permutation {
 
     pub fn swap(r1: std::ops::Range<usize>, r2: std::ops::Range<usize>) -> Self {
         // trivial cases:
-        if r1.is_empty() || r2.is_empty() { Self::identity(); }
+        if r1.is_empty() || r2.is_empty() { return Self::identity(); }
 
         // Two input ranges must be disjoint
         if !(r1.end <= r2.start || r2.end <= r1.start) { panic!("Two input ranges must be disjoint, but r1={:?} and r2={:?}", r1, r2); }
-- 
2.43.0


From 19620aadc15ba88163a2de1d46008ba8c4583c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 10/43] fix: negative powers of a permutation are always the
 identity

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 3a3dde1..ee55b60 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -391,7 +391,7 @@ impl BitXor<i64> for Permutation {
             (1..=power).map(|_| self.clone()).product()
         } else { // if 'power < 0'
             let inv = self.inverse();
-            (1..=power).map(|_| inv.clone()).product()
+            (1..=-power).map(|_| inv.clone()).product()
         }
     }
 }
-- 
2.43.0


From 069452c4a171f5393289b2208c0a0f3c4ca169bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 11/43] fix: the inverse of an array-backed permutation is the
 zero array

---
 alg/src/non_commutative/permutation.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index ee55b60..7b50d2f 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -657,10 +657,8 @@ impl<const N: usize> Group for ConstPermutation<N> {
 
     fn inverse(self) -> Self {
         let mut out = [0; N];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for i in 0..N {
+            out[self.0[i]] = i;
         }
         ConstPermutation(out)
     }
@@ -761,10 +759,8 @@ impl Group for VecPermutation {
 
     fn inverse(self) -> Self {
         let mut out = vec![0; self.0.len()];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for i in 0..self.0.len() {
+            out[self.0[i]] = i;
         }
         Self(out)
     }
-- 
2.43.0


From b2168177768f559df154d823a1b208a83a4b09ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 12/43] fix: the order of a vector-backed permutation is never
 found

---
 alg/src/non_commutative/permutation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 7b50d2f..c9cfe9d 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -774,9 +774,9 @@ impl VecPermutation {
     pub fn order(self) -> usize {
         let mut order = 1;
         let mut power = self.clone();
-        let id = Self::identity();
         
-        while power != id {
+        // the identity has one representation for each length
+        while (0..power.0.len()).any(|i| power.0[i] != i) {
             power *= self.clone();
             order += 1;
         }
-- 
2.43.0


From 4f49b45e0d38f1bb9292d29693a5bd9f6d68c768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 13/43] fix: swapping two adjacent ranges given in descending
 order breaks the precondition r1.end <= r2.start

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index c9cfe9d..5863967 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -202,7 +202,7 @@ impl Permutation {
         if !(r1.end <= r2.start || r2.end <= r1.start) { panic!("Two input ranges must be disjoint, but r1={:?} and r2={:?}", r1, r2); }
 
         // Now r1.end <= r2.start || r2.end <= r1.start, i.e. two ranges are disjoint
-        if r2.end < r1.start { return Self::swap(r2, r1) };
+        if r2.end <= r1.start { return Self::swap(r2, r1) };
 
         // Now r1.end <= r2.start
         let r1_size = r1.end - r1.start;
-- 
2.43.0


From 4ba5026c4f6908b45bb1dfa580be2a0e22d60ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 14/43] fix: building a cycle from an empty list panics

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 5863967..3d123fc 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -42,7 +42,7 @@ impl Cycle {
     }
 
     pub fn from(data: Vec<usize>) -> Cycle {
-        if data.len() == 1 { return Cycle::identity(); }
+        if data.len() <= 1 { return Cycle::identity(); }
 
         let mut cycle = Cycle {
             data: data,
-- 
2.43.0


From 854657d80749ed9650988135fed0778226dc5b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 15/43] fix: ragged rows are accepted, and longer rows silently
 truncated, when building a matrix

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 64e1a43..c8ddbf6 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -657,7 +657,7 @@ impl<T: PID> Matrix<T> {
             panic!("Inputs for matrix constructor macro is invalid. Matrix must have positive dimension!")
         }
         let size = (v.len(), v[0].len());
-        if v.iter().map(|x| x.len()).all(|len| len != size.1) {
+        if v.iter().map(|x| x.len()).any(|len| len != size.1) {
             panic!("Inputs for matrix constructor macro is invalid");
         }
 
-- 
2.43.0


From d73afd113f8dfd53e58091b7e66f4aee6147c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 16/43] fix: rank computation skips the row and column next to
 the pivot

---
 alg/src/lin_alg/matrix_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index c8ddbf6..05ceb48 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1081,14 +1081,14 @@ impl <T:Field+Copy> Matrix<T> {
         let mut skipped = 0;
         for k in 0..shorter_side {
             if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().1).find(|&i| clone[(k, i)] != T::zero() );
+                let result = (k+1..clone.size().1).find(|&i| clone[(k, i)] != T::zero() );
                 match result {
                     Some(j) => clone.col_operation(k, j, T::one()),
                     None => (),
                 }
             }
             if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().0).find(|&j| clone[(j, k)] != T::zero() );
+                let result = (k+1..clone.size().0).find(|&j| clone[(j, k)] != T::zero() );
                 match result {
                     Some(i) => clone.row_operation(k, i, T::one()),
                     None => {
-- 
2.43.0


From 2f272f64986aba2b2ad9a56749519b3ec0c26314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 17/43] fix: comparing a submatrix with a matrix recurses
 forever

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 05ceb48..4bbe9f1 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -574,7 +574,7 @@ impl<T: PID> cmp::PartialEq for SubMatrix<T> {
 
 impl<T: PID> cmp::PartialEq<Matrix<T>> for SubMatrix<T> {
     fn eq(&self, rhs: &Matrix<T>) -> bool {
-        self == rhs
+        *self == **rhs
     }
 }
 
-- 
2.43.0


From 8faa0344b6cfb1869644d56d716ed9aeb00b1521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 18/43] fix: the slice behind a submatrix extends beyond the
 allocation

---
 alg/src/lin_alg/matrix_impl.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 4bbe9f1..5af703d 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -58,10 +58,17 @@ pub const fn submatrix_from_raw_parts_mut<T: ?Sized>(
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.mut_ptr }
 }
 
+// the number of elements between the first and the last element of the submatrix, both included
+#[inline]
+const fn slice_len(size: (usize, usize), offsets: (usize, usize)) -> usize {
+    if size.0 == 0 || size.1 == 0 { return 0; }
+    (size.0 - 1) * offsets.0 + (size.1 - 1) * offsets.1 + 1
+}
+
 #[inline]
 pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    let metadata = slice_len(size, offsets);
     let data_address = unsafe{ PtrRepr{const_ptr: m as *const SubMatrix<T>}.components.data_address};
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.const_ptr }
 }
@@ -69,7 +76,7 @@ pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
 #[inline]
 pub fn slice_from_sub_matrix_mut<T: PID>(m: &mut SubMatrix<T>) -> *mut [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    let metadata = slice_len(size, offsets);
     let data_address = unsafe{ PtrRepr{ mut_ptr: m as *mut SubMatrix<T> }.components.data_address };
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.mut_ptr }
 }
-- 
2.43.0


From f96f88a2a47bf8e07ffe5931e8b28ae7b63ebbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 19/43] fix: matrices too large for the packed metadata
 silently alias other elements

---
 alg/src/lin_alg/matrix_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 5af703d..586e3f8 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -23,6 +23,11 @@ pub const fn metadata<T: ?Sized>(ptr: *const T) -> usize {
 #[inline]
 pub const fn compress(size: (usize, usize), offsets: (usize, usize)) -> usize {
     let data_offset = mem::size_of::<usize>() * 8 / 4;
+    let window: usize = !(!0 << data_offset);
+    assert!(
+        size.0 <= window && size.1 <= window && offsets.0 <= window && offsets.1 <= window,
+        "the size of the matrix is too large"
+    );
     size.0 << data_offset*3
         | size.1 << data_offset*2
         | offsets.0 << data_offset*1
-- 
2.43.0


From 984fa3a08a1b08d5dd78aa6cb5ef235c699eb6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 20/43] fix: copying an empty submatrix allocates zero bytes

---
 alg/src/lin_alg/matrix_impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 586e3f8..b26ab56 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -623,6 +623,9 @@ impl<T: PID> Matrix<T> {
             "Allocation too large"
         );
         
+        // Allocating zero bytes is undefined behavior; 'self.ptr' is left dangling in this case.
+        if layout.size() == 0 { return; }
+
         let new_ptr = unsafe { alloc::alloc(layout) };
         
         // If allocation fails, `new_ptr` will be null, in which case we abort.
@@ -746,14 +749,11 @@ impl<T: PID> ops::DerefMut for Matrix<T> {
 
 impl<T: PID> Drop for Matrix<T> {
     fn drop(&mut self) {
-        let elem_size = mem::size_of::<T>();
+        let layout = alloc::Layout::array::<T>(self.size().0 * self.size().1).unwrap();
 
-        if elem_size != 0 {
+        if layout.size() != 0 {
             unsafe {
-                alloc::dealloc(
-                    self.ptr.as_ptr() as *mut u8,
-                    alloc::Layout::array::<T>(self.size().0 * self.size().1).unwrap(),
-                );
+                alloc::dealloc( self.ptr.as_ptr() as *mut u8, layout );
             }
         }
     }
-- 
2.43.0


From e3ffd1eeed074a93874113c36e6a12bb80f78d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 21/43] fix: filling a new matrix drops the uninitialised
 elements it replaces

---
 alg/src/lin_alg/matrix_impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index b26ab56..b62bcd0 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -351,7 +351,7 @@ macro_rules! submatrix_add_sub_impl {
                 let mut out = Matrix::new(self.size().0, self.size().1);
                 for i in 0..self.size().0 {
                     for j in 0..self.size().1 {
-                        out[(i,j)] = $bin_op_tr::$bin_op_fn(self[(i,j)].clone(), rhs[(i,j)].clone());
+                        out.write( (i,j), $bin_op_tr::$bin_op_fn(self[(i,j)].clone(), rhs[(i,j)].clone()) );
                     }
                 }
                 out
@@ -403,7 +403,7 @@ impl<T: PID> ops::Mul for &SubMatrix<T> {
         let mut prod = Matrix::new(self.size().0, rhs.size().1);
         for i in 0..prod.size().0 {
             for j in 0..prod.size().1 {
-                prod[(i, j)] = self[(i, ..)].dot(&rhs[(.., j)]);
+                prod.write( (i, j), self[(i, ..)].dot(&rhs[(.., j)]) );
             }
         };
         prod
@@ -502,7 +502,7 @@ impl<T: PID> ops::Mul<T> for &SubMatrix<T> {
         let mut out = Matrix::new(self.size().0, self.size().1);
         for i in 0..out.size().0 {
             for j in 0..out.size().1 {
-                out[(i,j)] = self[(i,j)].clone() * rhs.clone();
+                out.write( (i,j), self[(i,j)].clone() * rhs.clone() );
             }
         };
         out
@@ -528,7 +528,7 @@ impl<T: Field> ops::Div<T> for &SubMatrix<T> {
         let mut out = Matrix::new(self.size().0, self.size().1);
         for i in 0..out.size().0 {
             for j in 0..out.size().1 {
-                out[(i,j)] = self[(i,j)].clone() / rhs.clone();
+                out.write( (i,j), self[(i,j)].clone() / rhs.clone() );
             }
         };
         out
@@ -679,7 +679,7 @@ impl<T: PID> Matrix<T> {
         let mut out = Matrix::new(size.0, size.1);
         for i in 0..size.0 {
             for j in 0..size.1 {
-                out[(i, j)] = v[i][j].clone();
+                out.write( (i, j), v[i][j].clone() );
             }
         }
 
@@ -710,7 +710,7 @@ impl<T> Matrix<T>
         let mut rng = rand::thread_rng();
         for i in 0..out.size().0 {
             for j in 0..out.size().1 {
-                out[(i,j)] = rng.gen();
+                out.write( (i,j), rng.gen() );
             }
         }
         out
-- 
2.43.0


From d0e1961e30981ec3bfc0409d2e5ebe76e19470f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 22/43] fix: a random symmetric matrix with more rows than
 columns exposes uninitialised elements

---
 alg/src/lin_alg/matrix_impl.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index b62bcd0..9694f96 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -717,12 +717,14 @@ impl<T> Matrix<T>
     }
 
     pub fn random_symmetric(n: usize, m: usize) -> Matrix<T> {
+        assert_eq!(n, m, "a symmetric matrix must be a square matrix, but size=({n}, {m}).");
         let mut out = Matrix::new(n ,m);
         let mut rng = rand::thread_rng();
         for i in 0..out.size().0 {
             for j in i..out.size().1 {
-                out[(i,j)] = rng.gen();
-                out[(j,i)] = out[(i,j)].clone();
+                let val: T = rng.gen();
+                if i != j { out.write( (j,i), val.clone() ); }
+                out.write( (i,j), val );
             }
         }
         out
-- 
2.43.0


From f2e5bfaaec9c9a919e0e37b9957755de6d3dfac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 23/43] fix: iterating over a sparse matrix without entries
 panics

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index 459edfa..3aa9916 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -97,8 +97,8 @@ impl<T: PID, F: Fn((usize, usize)) -> Option<T>> From<((usize, usize), F)> for S
 
         // if 'rows' and 'cols' are empty, then add some elements to 'rows' so that the iter() does not panic.
         if m.rows.is_empty() {
-            m.rows.push(SparseNode::End);
-            m.cols.push(SparseNode::End);
+            m.rows.push(SparseNode::Start(usize::MAX, Rc::new(SparseNode::End)));
+            m.cols.push(SparseNode::Start(usize::MAX, Rc::new(SparseNode::End)));
         }
 
         m
-- 
2.43.0


From a40c862c7513d8428c8b44723331d64c32e858cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 24/43] fix: joining a cell with one that has fewer words drops
 vertices

---
 topo_spaces/src/simplicial/mod_impl.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index d099d4f..a597ba3 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -51,10 +51,9 @@ impl SimplicialCell {
     }
 
     pub fn join(&mut self, cell: &SimplicialCell) {
-        self.vertices = self.vertices
-            .iter()
-            .zip(cell.vertices.iter()).map(|(&x, &y)| x | y)
-            .collect();
+        self.vertices
+            .iter_mut()
+            .zip(cell.vertices.iter()).for_each(|(x, &y)| *x |= y);
             
         if cell.vertices.len() > self.vertices.len() { 
             (self.vertices.len()..cell.vertices.len()).
-- 
2.43.0


From 59e34e732364ba6041ceb80710e6ee1181019730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 25/43] fix: a cell is contained in any cell with fewer words
 that agrees on the common words

---
 topo_spaces/src/simplicial/mod_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index a597ba3..450d0e7 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -108,6 +108,7 @@ impl SimplicialCell {
 
     pub fn contains(&self, cell: &SimplicialCell) -> bool {
         self.vertices.iter().zip(cell.vertices.iter()).all(|(&x, &y)| x | y == x)
+            && cell.vertices.iter().skip(self.vertices.len()).all(|&y| y == 0)
     }
 
     pub fn get_face(&self) -> Vec<SimplicialCell> {
-- 
2.43.0


From cb8c246fd1d116aeec7471ad1882f7350a59d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 26/43] fix: cells with different numbers of words compare
 equal when the common words agree

---
 topo_spaces/src/simplicial/mod_impl.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 450d0e7..8bc2ada 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -347,7 +347,7 @@ impl PartialEq for SimplicialCell {
         if self.vertices.len() == rhs.vertices.len() {
             return self.vertices == rhs.vertices
         } else {
-            self.vertices.iter().zip(rhs.vertices.iter()).all(|(&x, &y)| x==y)
+            self.cmp(rhs) == Ordering::Equal
         }
     }
 }
@@ -362,9 +362,10 @@ impl Ord for SimplicialCell {
         }
 
         // if self.dim == rhs.dim
-        let result = self.vertices.iter()
-            .zip(rhs.vertices.iter())
-            .map(|(x, y)| x.cmp(y))
+        // the words that one of the cells does not have are zero
+        let n_words = std::cmp::max(self.vertices.len(), rhs.vertices.len());
+        let result = (0..n_words)
+            .map(|i| self.vertices.get(i).unwrap_or(&0).cmp(rhs.vertices.get(i).unwrap_or(&0)))
             .find(|&cmp| cmp != Ordering::Equal);
         match result {
             Some(cmp) => cmp,
-- 
2.43.0


From 8dafdee9c6c27c828adc7c028fe38cf374f342d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 27/43] fix: building a complex from three or more vertices
 panics

---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 8bc2ada..127f62a 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -164,7 +164,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             size: vertices_labels.len(),
             maximal_cells: 
                 (0..vertices_labels.len())
-                .map(|x| SimplicialCell::new(1, vec![x]))
+                .map(|x| SimplicialCell::new(x+1, vec![x]))
                 .collect(),
             vertices_labeling: vertices_labels,
         }
-- 
2.43.0


From ec22b7d780922b083b77b48dc7ee7f73a34768dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 28/43] fix: the connectedness test of simplicial complexes
 writes to the standard output

---
 topo_spaces/src/simplicial/mod_impl.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 127f62a..c708b4e 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -246,7 +246,6 @@ impl<T: VertexLabel> SimplicialCplx<T>
             let cells_connected_to_join: Vec<_> = self.maximal_cells.iter()
                 .filter(|&cell| cell.is_connected_with(&join))
                 .collect();
-            println!("cells_connected_to_join.len(): {}", cells_connected_to_join.len());
             cells_connected_to_join.iter().for_each(|cell| { join.join(cell); });
 
             // if the join eventually gets the join of all points, then the complex is connected
-- 
2.43.0


From 37ffd06b00d0f46f57f61010649d9f0a95b190b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 29/43] fix: elementary divisors of the integral homology may
 be negative

---
 topo_spaces/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/lib.rs b/topo_spaces/src/lib.rs
index ab5e315..5a02d7c 100644
--- a/topo_spaces/src/lib.rs
+++ b/topo_spaces/src/lib.rs
@@ -89,15 +89,15 @@ impl<T: Complex> IntegralHomology<T>
                 // update the variables for the computation of the lower homology
                 elem_divisors_of_higher_map = Vec::new();
                 (0..rank_of_lower_map).for_each(|i| {
-                    let divisor = boundary_map[( i,i )];
+                    let divisor = boundary_map[( i,i )].abs();
                     if let Some((div, mul)) = elem_divisors_of_higher_map.last_mut()  {
                         if *div == divisor {
                             *mul+=1;
                         } else {
-                            elem_divisors_of_higher_map.push((boundary_map[( i,i )], 1)); 
+                            elem_divisors_of_higher_map.push((divisor, 1)); 
                         }
                     } else {
-                        elem_divisors_of_higher_map.push((boundary_map[( i,i )], 1)); 
+                        elem_divisors_of_higher_map.push((divisor, 1)); 
                     }
                 });
                 rank_of_higher_map = rank_of_lower_map;
-- 
2.43.0


From d4b90f8bac44472288b4d94d977a2b975aab4d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 30/43] fix: the max_dim form of the homology macro can never
 be expanded

---
 topo_spaces/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/lib.rs b/topo_spaces/src/lib.rs
index 5a02d7c..44ee419 100644
--- a/topo_spaces/src/lib.rs
+++ b/topo_spaces/src/lib.rs
@@ -186,8 +186,8 @@ macro_rules! H {
     ($complex:expr) => {
         IntegralHomology::new(&$complex, None)
     };
-    ($complex:expr, max_dim=) => {
-        IntegralHomology::new(&$complex, Some(max_dim))
+    ($complex:expr, max_dim=$max_dim:expr) => {
+        IntegralHomology::new(&$complex, Some($max_dim))
     };
 }
 
-- 
2.43.0


From b8b47c517c5d0f7e4b2fd118fe26ca311872f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 31/43] fix: parallel loops are subtracted twice from the
 number of non-loop edges up to multiplicity

---
 topo_spaces/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 447cbcb..fbd6468 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -80,7 +80,7 @@ impl<T: PID> Graph<T> {
             data[v_idx][w_idx].push(Edge::new());
 
             // update some members
-            if data[v_idx][w_idx].len() > 1 {
+            if data[v_idx][w_idx].len() > 1 && v_idx != w_idx {
                 n_non_loop_edges_up_to_multiplicity -= 1;
             } 
             if v_idx == w_idx {
-- 
2.43.0


From 0f5362f795f312033fa3b239cd4eaaf88624445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 32/43] fix: the edge iterator always yields the edge between
 the first two vertices

---
 topo_spaces/src/graph.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index fbd6468..fb7880a 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1445,13 +1445,9 @@ impl<'a> Iterator for EdgeIter<'a> {
     type Item = CubeFactor;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.is_done {
-            return None;
-        };
+        while !self.is_done {
+            let (i, j) = self.curr;
 
-        let out = CubeFactor::Edge([self.curr.0, self.curr.1]);
-        
-        loop {
             if self.curr.0 == 0 {
                 self.curr.0 = self.curr.1;
                 self.curr.1 += 1;
@@ -1461,13 +1457,14 @@ impl<'a> Iterator for EdgeIter<'a> {
 
             if self.curr.1 >= self.graph.n_vertices() {
                 self.is_done = true;
-                break;
-            } else if self.graph.contains(self.curr.0, self.curr.1) {
-                break;
             };
+
+            if self.graph.contains(i, j) {
+                return Some(CubeFactor::Edge([i, j]));
+            }
         }
 
-        Some(out)
+        None
     }
 }
 
-- 
2.43.0


From 65c1fa75e53fba7142529c54589e1f03446288be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 33/43] fix: edge queries in the wrong order silently answer
 for another edge

---
 topo_spaces/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index fb7880a..8a445da 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -263,7 +263,7 @@ impl RawSimpleGraph {
 
     // function returning the raw index for self.data. The condition that i < j is required.
     fn raw_idx(i: usize, j: usize) -> usize {
-        debug_assert!(i < j, "The condition i < j is required, but not satisfied: i={} but j={}", i, j);
+        assert!(i < j, "The condition i < j is required, but not satisfied: i={} but j={}", i, j);
         j*(j-1)/2 + i
     }
 
-- 
2.43.0


From 964ad7fbfab4310bc98afce8168a7aaa82b298a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 34/43] fix: the boundary maps of cubical complexes come with
 empty bases

---
 topo_spaces/src/cubical.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index f2bfbad..997baee 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -330,13 +330,14 @@ mod cubical_cells {
 impl Complex for CubicalCplx {
     type Cell = Cube;
     fn boundary_map (&self) -> Vec< (Matrix<i64>, Vec<Self::Cell>) > {
-        let basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
+        let mut basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
 
         let mut numbering = vec![0; self.data.len()];
         let mut counter = vec![0; self.dim+1];
         self.final_branch_indeces.iter().for_each(|&idx| {
             numbering[idx] = counter[self.dim_of(idx)];
             counter[self.dim_of(idx)] += 1;
+            basis[self.dim_of(idx)].push( Cube(self.get_cell_from_idx(idx).unwrap()) );
         });
 
         // instantiating the boundary maps
-- 
2.43.0


From d723ae136cd1fc9ccdb085efeea2d09dd55d7ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 35/43] fix: reducing a path panics after everything before a
 step has cancelled

---
 topo_spaces/src/cubical.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 997baee..4df1ada 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -1208,6 +1208,8 @@ impl EdgePath {
                 } else {
                     out[i+1].push(step);
                 }
+            } else if out.is_empty() {
+                out.push(vec![step]);
             } else {
                 out[0].push(step);
             };
-- 
2.43.0


From b559339cd3f063c5142d145c4ca37582f34048a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 36/43] fix: a two by two block with a double real eigenvalue
 is reported to have no real spectrum

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 9694f96..f3b9cbd 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1697,7 +1697,7 @@ impl SubMatrix<f64> {
         debug_assert_eq!( self.size(), (2,2) );
         let det = self[(0,0)] * self[(1,1)] - self[(0,1)] * self[(1,0)];
         let m = (self[(0,0)] + self[(1,1)]) / 2.0;
-        if m*m-det > 0.0 {
+        if m*m-det >= 0.0 {
             let rad = (m*m-det).sqrt();
             Some((m-rad, m+rad))
         } else {
-- 
2.43.0


From 2f978d29770a126ea762e34bd7e0a6c755653cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 37/43] fix: differences and negatives of functions are not
 brought to the normal form of sums

---
 analysis/src/lib.rs | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/analysis/src/lib.rs b/analysis/src/lib.rs
index f73d91c..bb4f861 100644
--- a/analysis/src/lib.rs
+++ b/analysis/src/lib.rs
@@ -58,18 +58,7 @@ impl std::iter::Sum for AtomicSmoothFn {
 impl std::ops::Sub for AtomicSmoothFn {
     type Output = Self;
     fn sub(self, rhs: Self) -> Self::Output {
-        let out = if let Self::Sum(v) = self {
-            if let Self::Sum(w) = rhs {
-                v - w
-            } else {
-                v - rhs
-            }
-        } else if let Self::Sum(w) = rhs {
-            -w+self
-        } else {
-            Vector::from(self)-rhs
-        };
-        Self::Sum(out)
+        self + (-rhs)
     }
 }
 
@@ -82,12 +71,7 @@ impl std::ops::SubAssign for AtomicSmoothFn {
 impl std::ops::Neg for AtomicSmoothFn {
     type Output = Self;
     fn neg(self) -> Self {
-        let v = if let Self::Sum(x) = self {
-            -x
-        } else {
-            -Vector::from(self)
-        };
-        Self::Sum(v)
+        self * (-1.0)
     }
 }
 
-- 
2.43.0


From 79ee20e00044c9a9538492908ee5479b2e52165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:20 +0000
Subject: [PATCH 38/43] fix: a range of a matrix whose start is past its end is
 rejected in release builds too

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index f3b9cbd..42c8e42 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -257,7 +257,7 @@ fn unpack_bounds_for_sub(range: &impl ModifiedUsizeRangeBounds, size: usize) ->
 }
 
 fn check_bounds_for_sub<const ROW: bool>(start: usize, end: usize, size: usize) {
-    assert!(end - start <= size, "range not valid: specified range is {start}..{end} but this matrix has {size} {}s.", 
+    assert!(start <= end && end - start <= size, "range not valid: specified range is {start}..{end} but this matrix has {size} {}s.", 
         if ROW {"row"} else {"column"}
     );
     assert!(end <= size, "range not valid: specified range is {start}..{end} but this matrix has {size} {}s.",
-- 
2.43.0


From 1d19502ce5349e08e8e51b7b6b601d43309bf548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 39/43] fix: the reflection of a negative multiple of the first
 unit vector is not orthogonal

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 42c8e42..aa4ebe6 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1285,7 +1285,7 @@ impl Matrix<f64> {
         if a==0.0 && b>=0.0 {
             (self, 0.0)
         } else if a==0.0 && b<0.0 {
-            (self, -2.0)
+            (self, 2.0)
         } else {
             let u = (a+b*b).sqrt();
             self[(0,0)] = if b<=0.0 {
-- 
2.43.0


From 820e831364eca6ac987de66a7bc8a28c8aacf80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:51 +0000
Subject: [PATCH 40/43] fix: tridiagonalization keeps no reflection where one
 is stored, so the transformation of a reduced matrix is wrong

---
 alg/src/lin_alg/matrix_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index aa4ebe6..0cf89b9 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1865,12 +1865,15 @@ impl SubMatrix<f64> {
         let n = self.size().0;
         for i in 0..n-2 {
             let (v, b) = self[(i+1.., i)].householder_vec();
+            // 'extract_householder_vecs' reads every stored vector as a reflection, so we reflect
+            // also when there is nothing to eliminate.
+            let (b, sign) = if b==0.0 { (2.0, -1.0) } else { (b, 1.0) };
             let v = &*v;
             let p = (&self[(i+1.., i+1..)] * v) * b;
             let p = &*p;
             let w = p - v * b/2.0*(v.transpose().dot(p));
             let w = &*w;
-            self[(i+1, i)] = self[(i+1.., i)].two_norm();
+            self[(i+1, i)] = sign * self[(i+1.., i)].two_norm();
             self[(i, i+1)] = self[(i+1, i)];
 
 
-- 
2.43.0


From e0e5beb57b78e1b682a713b10df3eeda3b94f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 41/43] fix: the rotations of a deflated block are applied to
 the wrong rows of the transformation

---
 alg/src/lin_alg/matrix_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 0cf89b9..90a9420 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -2001,8 +2001,8 @@ impl SubMatrix<f64> {
                     for (i, c,s) in (0..givens.size.0).map(|i| (i, givens[(i,0)], givens[(i,1)])) {
                         let givens =  matrix!(f64; [[c, -s],[s, c]]);
                         let givens = &*givens;
-                        let update = givens * &op[(i..i+2, ..)];
-                        op[(i..i+2, ..)].write(&update);
+                        let update = givens * &op[(p+i..p+i+2, ..)];
+                        op[(p+i..p+i+2, ..)].write(&update);
                     }
                 }
             }
-- 
2.43.0


From 7e107b45d87d9eb206f479e237dd6c01b707e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:06 +0000
Subject: [PATCH 42/43] fix: the symmetric QR iteration panics on matrices with
 fewer than three rows

---
 alg/src/lin_alg/matrix_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 90a9420..773b057 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1963,8 +1963,11 @@ impl SubMatrix<f64> {
         let n = self.size().0;
         let tolerance = 0.0000000001;
         let mut op = Matrix::identity(n);
+        if n < 2 {
+            return op;
+        }
         self.householder_tridiagonalization(with_op);
-        if with_op {
+        if with_op && n > 2 {
             op = Matrix::identity(n);
             op[(1..,1..)].write( &(self[(2..,..n-2)].extract_householder_vecs()) );
         };
-- 
2.43.0


From 5120e04715394bf17f43054783a1e1ddd5e644ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:30 +0000
Subject: [PATCH 43/43] fix: the midpoint of an edge subdivided once was placed
 at its end

---
 topo_spaces/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 8a445da..f7b93e6 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1147,11 +1147,11 @@ impl SimpleGraph {
 
                 for (k, edge) in graph.data[i][j].iter().enumerate() {
                     subdivided_graph.data.add_edge(i, subdivided_graph.n_vertices());
-                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_marked_points-1))));
+                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_mid_vertices+1))));
 
                     for l in 2..=n_mid_vertices {
                         subdivided_graph.data.add_edge(subdivided_graph.n_vertices()-1, subdivided_graph.n_vertices());
-                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_marked_points-1))));
+                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_mid_vertices+1))));
                     }
 
                     subdivided_graph.data.add_edge(j, subdivided_graph.n_vertices()-1);
-- 
2.43.0


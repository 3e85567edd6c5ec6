From 42f91f46ee35bc334e03c827a64c7e19b2de1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 01/26] fix: Tensor::get on a view added the view offset twice

---
 src/tensor/tensor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 80d0fb6..1abb295 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -62,9 +62,7 @@ impl<T: Type> Tensor<T> {
     pub fn get(&self, offset: usize) -> Option<&T> {
         unsafe {
             if offset < self.size {
-                let count = offset + self.offset;
-
-                self.as_ptr().add(count).as_ref()
+                self.as_ptr().add(offset).as_ref()
             } else {
                 None
             }
-- 
2.43.0


From 6203ed80216329bf6e5adbac8ebf41195a86fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 02/26] fix: as_wrap_slice_n on a view added the view offset
 twice

---
 src/tensor/tensor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 1abb295..7ba66c0 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -110,11 +110,10 @@ impl<T: Type> Tensor<T> {
             offset % self.size
         };
 
-        let count = self.offset + offset;
-        assert!(count + len <= self.size);
+        assert!(offset + len <= self.size);
 
         unsafe {
-            ptr::slice_from_raw_parts(self.as_ptr().add(count), len)
+            ptr::slice_from_raw_parts(self.as_ptr().add(offset), len)
                 .as_ref()
                 .unwrap()
         }
-- 
2.43.0


From 6f4485d4742ce379e552c88e2f9ac77169da495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 03/26] fix: Tensor shape, offset and size were writable from
 outside the crate

---
 src/tensor/tensor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 7ba66c0..5638b98 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -8,9 +8,9 @@ use super::{
 };
 
 pub struct Tensor<T: Type=f32> {
-    pub shape: Shape,
-    pub offset: usize,
-    pub size: usize,
+    pub(super) shape: Shape,
+    pub(super) offset: usize,
+    pub(super) size: usize,
 
     pub(super) data: Arc<TensorData<T>>,
 }
-- 
2.43.0


From 5b456a4526950c1d0f7f8b1d7b3631a0f04ad8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 04/26] fix: subslice_flat accepted an empty shape for one
 element

---
 src/tensor/tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 5638b98..e36ff38 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -142,7 +142,7 @@ impl<T: Type> Tensor<T> {
         let shape = shape.into();
 
         let shape_len : usize = shape.size();
-        assert!(shape_len == len || shape.size() == 0 && len == 1);
+        assert!(shape_len == len);
 
         Self {
             shape,
-- 
2.43.0


From faacce99ac1a2bb53c5b12c5481b018ff8dc77e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 05/26] fix: unsafe_init checked the shape after writing, and
 allocated zero bytes

---
 src/tensor/data.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tensor/data.rs b/src/tensor/data.rs
index 1ad5c1a..c01e7f7 100644
--- a/src/tensor/data.rs
+++ b/src/tensor/data.rs
@@ -87,8 +87,15 @@ pub unsafe fn unsafe_init<T: Type>(
 {
     let shape = shape.into();
 
+    assert_eq!(shape.size(), len);
+
     let layout = Layout::array::<T>(len).unwrap();
-    let data = NonNull::<T>::new_unchecked(alloc::alloc(layout).cast::<T>());
+    let data = if layout.size() == 0 {
+        NonNull::<T>::dangling()
+    } else {
+        NonNull::new(alloc::alloc(layout).cast::<T>())
+            .unwrap_or_else(|| alloc::handle_alloc_error(layout))
+    };
 
     (init)(data.cast::<T>().as_mut());
 
-- 
2.43.0


From 1fdb541002b6b0bb6802ef3765c47660081d0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 06/26] fix: shape sizes of 2^32 and more wrapped around

---
 src/tensor/shape.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 4a8552a..49e9bea 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -35,7 +35,7 @@ impl Shape {
 
     #[inline]
     pub fn size(&self) -> usize {
-        self.dims[0..self.rank as usize].iter().product::<u32>() as usize
+        self.dims[0..self.rank as usize].iter().map(|d| *d as usize).product()
     }
 
     #[inline]
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[0..rank - base_rank].iter().product::<u32>() as usize
+            self.dims[0..rank - base_rank].iter().map(|d| *d as usize).product()
         } else {
             1
         }
@@ -261,10 +261,10 @@ impl Shape {
         let (start, end) = (self.rank - end, self.rank - start);
 
         for i in start..end {
-            size *= self.dims[i];
+            size *= self.dims[i] as usize;
         }
 
-        size as usize
+        size
     }
 
     #[inline]
@@ -273,10 +273,10 @@ impl Shape {
         let mut size = 1;
 
         for i in start..end {
-            size *= self.dims[i];
+            size *= self.dims[i] as usize;
         }
 
-        size as usize
+        size
     }
 
     #[inline]
-- 
2.43.0


From a760919c234c022b364c74a422ff9f324d7e97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 07/26] fix: Shape::batch_len multiplied the innermost
 dimensions

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 49e9bea..099bdb9 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[0..rank - base_rank].iter().map(|d| *d as usize).product()
+            self.dims[base_rank..rank].iter().map(|d| *d as usize).product()
         } else {
             1
         }
-- 
2.43.0


From 4d6deed744557e9af061e594bd08de9f97e8dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 08/26] fix: Shape::append counted the maximum rank instead of
 the tail

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 099bdb9..2162b21 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -249,7 +249,7 @@ impl Shape {
 
         Self {
             dims,
-            rank: self.rank + dims.len(),
+            rank: self.rank + tail.len(),
         }
     }
 
-- 
2.43.0


From 186e96fe1d2c9d173114c5ee1fe60c6eb4ea7e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 09/26] fix: Shape::squeeze of an axis looked at the axis
 outside of it

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 2162b21..3b87ea8 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -317,7 +317,7 @@ impl Shape {
             Some(axis) => {
                 let len = self.rank;
                 let axis = (axis + len as isize) % len as isize;
-                let axis = self.rank as usize - axis as usize;
+                let axis = self.rank as usize - 1 - axis as usize;
                 
                 let mut rank = 0;
                 let mut dims = [0; Self::MAX_RANK];
-- 
2.43.0


From e329e9f558d67490451185784090a0724d5851f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 10/26] fix: Shape::rinsert accepted axes beyond the rank and
 refused the outermost

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 3b87ea8..da80915 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -392,7 +392,7 @@ impl Shape {
     #[must_use]
     #[inline]
     pub fn rinsert(mut self, axis: usize, len: usize) -> Shape {
-        assert!(axis + 1 < Self::MAX_RANK);
+        assert!(axis <= self.rank && self.rank < Self::MAX_RANK);
 
         for i in (axis..self.rank).rev() {
             self.dims[i + 1] = self.dims[i];
-- 
2.43.0


From 31ec51a7e58ca681bacd25d2b2262bcc09a8568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 11/26] fix: Shape::with_cols stored a column count in a scalar
 shape

---
 src/tensor/shape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index da80915..001f0b3 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -114,6 +114,8 @@ impl Shape {
     #[inline]
     #[must_use]
     pub fn with_cols(self, col: usize) -> Self {
+        assert!(self.rank > 0);
+
         let mut own = self;
 
         own.dims[0] = col as u32;
@@ -377,7 +379,7 @@ impl Shape {
         if self.rank > 1 {
             self.rremove(0)
         } else {
-            self.with_cols(1)
+            Self::from([1])
         }
     }
 
-- 
2.43.0


From 232505faecbc33bf96c1598c734b703363149956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 12/26] fix: normalize over an outer axis transposed its result

---
 src/tensor/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index a25a3ba..897d102 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -619,7 +619,7 @@ where
                     for k in 0..a_len {
                         let v = &a[(n * a_len + k) * inner + i];
 
-                        o.add((n * inner + i) * a_len + k)
+                        o.add((n * a_len + k) * inner + i)
                             .write((norm)(&state, v));
                     }
                 }
-- 
2.43.0


From 23268e3bbdda0c4ae96398a70f48cb1418730b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 13/26] fix: fold_row with an axis on a vector read rows beyond
 the tensor

---
 src/tensor/axis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/axis.rs b/src/tensor/axis.rs
index 479fcc9..b8a132b 100644
--- a/src/tensor/axis.rs
+++ b/src/tensor/axis.rs
@@ -81,7 +81,7 @@ impl Axis {
                 assert!(axis < rank);
             
                 if rank == 1 {
-                    return (Shape::from([cols]), 1, shape.size(), 1)
+                    return (Shape::from([cols]), 1, 1, 1)
                 }
 
                 assert!(axis + 1 < rank);
-- 
2.43.0


From ff577494845f71ca29deb2877c8808138ee7fd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 14/26] fix: matmul swapped the rows and columns of the result
 shape

---
 src/linalg/matmul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index e9c13bb..289c5c3 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -54,7 +54,7 @@ pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Ten
     let b_size = b.rows() * b.cols();
     let o_size = m * n;
 
-    let shape = b.shape().clone().with_cols(m).with_rows(n);
+    let shape = b.shape().clone().with_cols(n).with_rows(m);
 
     unsafe {
         unsafe_init::<f32>(o_size * batch_len, shape, |o| {
-- 
2.43.0


From f8a83c7ca99a57cfff3d751c9c7dbf37b172992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 15/26] fix: matmul read beyond an operand with fewer batches

---
 src/linalg/matmul.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index 289c5c3..0aee93a 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -44,8 +44,11 @@ pub fn matmul(a: &Tensor, b: &Tensor) -> Tensor {
 pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Tensor {
     //assert_eq!(M, N, "matrix multiplication requires matching dim >= 2");
     assert!(a.rank() > 1, "matrix multiplication requires rank >= 2");
-    // todo!() - re-enable this assertion
-    //assert_eq!(&a.shape().as_subslice(2..), &b.shape().as_subslice(2..), "matmul batch shape must match");
+    assert_eq!(a.rank(), b.rank(), "matmul batch shape must match");
+    assert_eq!(
+        a.shape().as_vec()[..a.rank() - 2], b.shape().as_vec()[..b.rank() - 2],
+        "matmul batch shape must match"
+    );
 
     let (m, _, n) = transpose.mkn(a, b);
 
-- 
2.43.0


From cfabdf844132cce53885bd9a661ba134f7d14bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 16/26] fix: rfft_norm computed the batch from the outermost
 dimension

---
 src/signal/rfft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/rfft.rs b/src/signal/rfft.rs
index 4c1b322..c18237c 100644
--- a/src/signal/rfft.rs
+++ b/src/signal/rfft.rs
@@ -9,7 +9,7 @@ pub fn rfft_norm(tensor: impl Into<Tensor>, opt: impl FftOpt) -> Tensor {
     let tensor = tensor.into();
     let opt = opt.into_arg();
     let len = tensor.cols();
-    let batch = tensor.len() / len;
+    let batch = tensor.size() / len;
 
     let mut planner = FftPlanner::<f32>::new();
     let fft_fwd = planner.plan_fft_forward(len);
-- 
2.43.0


From 7a6fd5f4f3ced67b4bb5e0bff931139278176dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 17/26] fix: histogram2d took the range of both columns from
 the whole tensor

---
 src/stats/histogram2d.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/stats/histogram2d.rs b/src/stats/histogram2d.rs
index d907428..f5dd785 100644
--- a/src/stats/histogram2d.rs
+++ b/src/stats/histogram2d.rs
@@ -6,10 +6,8 @@ pub fn histogram2d(data: impl Into<Tensor>, args: impl Into<Hist2Args>) -> (Tens
     assert!(data.cols() == 2, "histogram2d requires 2D tensor {:?}", data.shape().as_vec());
 
     let args = args.into();
-    // let min = data.reduce_min_opt(0);
-    // let max = data.reduce_max_opt(0);
-    let min = data.reduce_min();
-    let max = data.reduce_max();
+    let min = data.reduce_min_axis(0);
+    let max = data.reduce_max_axis(0);
     let (min_x, min_y) = (min[0], min[1]);
     let (max_x, max_y) = (max[0], max[1]);
 
-- 
2.43.0


From 12df50d5caf209eac2b463cef66488c13b998218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 18/26] fix: read_file returned zeros for bytes a short read
 left out

---
 src/io/read_file.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/io/read_file.rs b/src/io/read_file.rs
index 93f739f..2e745a8 100644
--- a/src/io/read_file.rs
+++ b/src/io/read_file.rs
@@ -8,9 +8,8 @@ pub fn read_file(filename: impl Into<Tensor<String>>) -> Result<Tensor<u8>, std:
 
     let mut data: Vec<u8> = Vec::new();
     data.reserve_exact(len as usize);
-    data.resize(len as usize, 0);
 
-    file.read(data.as_mut_slice())?;
+    file.read_to_end(&mut data)?;
 
     Ok(Tensor::from(data))
 }
-- 
2.43.0


From 38310a20a88df00c64bf143fee0e601985e84c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 19/26] fix: arange with a negative step never ended

---
 src/init/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init/vector.rs b/src/init/vector.rs
index c976b77..de1a4e9 100644
--- a/src/init/vector.rs
+++ b/src/init/vector.rs
@@ -25,7 +25,7 @@ pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
 
         while end < start {
             vec.push(start);
-            start -= step;
+            start += step;
         }
 
         Tensor::from(vec)
-- 
2.43.0


From aeb1d775783b0c6b9d9c8b65a2ac3207b5159d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 20/26] fix: Rand64::next_uniform divided by the 32-bit range

---
 src/random/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index 94c5be3..c92d42a 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -76,7 +76,7 @@ impl Rand64 {
 
     #[inline]
     pub fn next_uniform(&mut self) -> f64 {
-        self.next() as f64 / u32::MAX as f64
+        self.next() as f64 / u64::MAX as f64
     }
 
     #[inline]
-- 
2.43.0


From 73ed6cc16184fa1b2da35b3be8f1af04766a3c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 21/26] fix: tensors of different shapes compared as Equal

---
 src/math/num.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math/num.rs b/src/math/num.rs
index 1455197..46289dd 100644
--- a/src/math/num.rs
+++ b/src/math/num.rs
@@ -45,7 +45,10 @@ impl<T: Type + Ord + Clone> Tensor<T> {
 
 impl<T: Type + PartialOrd> PartialOrd for Tensor<T> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        self.iter().partial_cmp(other.iter())
+        match self.iter().partial_cmp(other.iter()) {
+            Some(std::cmp::Ordering::Equal) if self.shape() != other.shape() => None,
+            order => order,
+        }
     }
 }
 
-- 
2.43.0


From 13809bf88e9aa3f8b8d2c078464169e664772fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 22/26] fix: Tensor::append accepted tensors with different row
 shapes

---
 src/tensor/tensor.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index e36ff38..88a287a 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -202,10 +202,7 @@ impl<T: Type + Clone> Tensor<T> {
     pub fn append(&self, tensor: impl Into<Tensor<T>>) -> Tensor<T> {
         let tensor = tensor.into();
 
-        assert_eq!(
-            self.shape().sublen(1, self.rank()), 
-            tensor.shape().sublen(1, tensor.rank())
-        );
+        assert_eq!(self.shape().clone().remove(0), tensor.shape().clone().remove(0));
 
         let mut vec = Vec::from(self.shape.as_vec());
         vec[0] = self.dim(0) + tensor.dim(0);
-- 
2.43.0


From 82f4084e6f7f90ce78dd41a0dbd6bd9b077cf64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 23/26] fix: 3- and 4-dimensional indexing checked the size
 instead of the rank

---
 src/tensor/index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/index.rs b/src/tensor/index.rs
index 8999e1a..324f365 100644
--- a/src/tensor/index.rs
+++ b/src/tensor/index.rs
@@ -42,7 +42,7 @@ impl<T: Type> Index<(usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 2);
         assert!(index.0 < shape.rdim(2));
@@ -65,7 +65,7 @@ impl<T: Type> Index<(usize, usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 3);
         assert!(index.0 < shape.rdim(3));
-- 
2.43.0


From 759bcb4b597efa2f9cee92f7e120cf194ea18fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 24/26] fix: split into equal parts returned extra parts when
 the count does not divide

---
 src/array/split.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/array/split.rs b/src/array/split.rs
index 2b28f5a..c80ef43 100644
--- a/src/array/split.rs
+++ b/src/array/split.rs
@@ -43,6 +43,8 @@ fn split_axis<T: Type + Clone>(
 
     match section {
         Sections::SplitEqual(n) => {
+            assert!(len % n == 0);
+
             let step = len / n;
             assert!(step > 0);
             let mut i = 0;
-- 
2.43.0


From 6cbaf0bb6401f44bd280ac70cdc6a63558f83f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:58 +0000
Subject: [PATCH 25/26] fix: map2 and map3 divided by zero on empty tensors

---
 src/tensor/map.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index 897d102..f08fd39 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -291,9 +291,9 @@ where
     let a_len = a.size();
     let b_len = b.size();
 
-    let size = a_len.max(b_len);
+    let size = shape.size();
     let inner = a_len.min(b_len);
-    let batch = size / inner;
+    let batch = if size > 0 { size / inner } else { 0 };
 
     assert!(batch * inner == size, "broadcast mismatch a.len={} b.len={}", a_len, b_len);
     
@@ -376,9 +376,9 @@ where
     let b_len = b.size();
     let c_len = c.size();
 
-    let size = a_len.max(b_len).max(c_len);
+    let size = shape.size();
     let inner = a_len.min(b_len).min(c_len);
-    let batch = size / inner;
+    let batch = if size > 0 { size / inner } else { 0 };
 
     assert!(batch * inner == size, "broadcast mismatch a.len={} b.len={} c.len={}", a_len, b_len, c_len);
     
-- 
2.43.0


From 52dff8a12b33ff9a85a676ba5ac4f6ae2265c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:08 +0000
Subject: [PATCH 26/26] hook: export Transpose and FftOpt under
 cfg(verif_hooks)

---
 src/linalg/mod.rs | 2 ++
 src/signal/mod.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 5fa3fe6..418552e 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -4,4 +4,6 @@ mod matmul;
 mod matvec;
 
 pub use matmul::matmul;
+#[cfg(verif_hooks)]
+pub use matmul::Transpose;
 
diff --git a/src/signal/mod.rs b/src/signal/mod.rs
index e1a6c1f..59587d6 100644
--- a/src/signal/mod.rs
+++ b/src/signal/mod.rs
@@ -3,4 +3,6 @@ mod rfft;
 
 pub use frame::frame;
 pub use rfft::rfft_norm;
+#[cfg(verif_hooks)]
+pub use rfft::FftOpt;
 
-- 
2.43.0


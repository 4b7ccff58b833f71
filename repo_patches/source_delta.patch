From 6126275460274d852fc8d2fd41aff08926ab681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:48 +0000
Subject: [PATCH 01/27] fix: repeated (zero-stride) axes followed by a strided
 axis are not uniformly strided

---
 src/ndarray/iterator/collapse_contiguous.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ndarray/iterator/collapse_contiguous.rs b/src/ndarray/iterator/collapse_contiguous.rs
index cf12c6e..be29e98 100644
--- a/src/ndarray/iterator/collapse_contiguous.rs
+++ b/src/ndarray/iterator/collapse_contiguous.rs
@@ -81,13 +81,12 @@ pub(crate) fn has_uniform_stride(shape: &[usize], stride: &[usize]) -> Option<us
         return Some(0);
     }
 
-    for i in 1..ndims {
-        if stride[i - 1] != 0 && stride[i - 1] != shape[i] * stride[i] {
-            return None;
-        }
+    let (collapsed_shape, collapsed_stride) = collapse_to_uniform_stride(shape, stride);
+    if collapsed_shape.len() != 1 {
+        return None;
     }
 
-    Some(stride[ndims - 1])
+    Some(collapsed_stride[0])
 }
 
 #[cfg(test)]
-- 
2.43.0


From ef4118107ae86ce7ae92e8c3939255f4d16afbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:48 +0000
Subject: [PATCH 02/27] fix: broadcast views with a zero stride are not
 contiguous

---
 src/ndarray/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 5ecba66..5a5a162 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -14,7 +14,8 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
         Some(stride) => {
             flags |= NdArrayFlags::UniformStride;
 
-            if stride <= 1 {
+            // a stride of 0 is only contiguous if there is just 1 element (not repeated)
+            if stride == 1 || (stride == 0 && shape.iter().all(|&axis_length| axis_length == 1)) {
                 flags |= NdArrayFlags::Contiguous;
             } else {
                 flags -= NdArrayFlags::Contiguous;
-- 
2.43.0


From 4fe73338e5ad1465a30b5cf30f5e90ca803f5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:48 +0000
Subject: [PATCH 03/27] fix: reshape of a scalar array

---
 src/common/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/reshape.rs b/src/common/reshape.rs
index 467bfbe..0d59e52 100644
--- a/src/common/reshape.rs
+++ b/src/common/reshape.rs
@@ -67,7 +67,7 @@ pub trait Reshape<T: RawDataType>: StridedMemory {
         }
 
         let mut new_stride = vec![0; new_shape.len()];
-        let mut acc = self.stride()[self.ndims() - 1];
+        let mut acc = self.stride().last().copied().unwrap_or(1);
         for (i, &dim) in new_shape.iter().rev().enumerate() {
             new_stride[new_shape.len() - 1 - i] = acc;
             acc *= dim;
-- 
2.43.0


From 41970f8f188bda509afa89c8db4ae623276d505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:48 +0000
Subject: [PATCH 04/27] fix: consuming reshapes leak the buffer because its
 capacity is lost

---
 src/ndarray/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index 12d331d..b41ebc7 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -65,7 +65,7 @@ impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
         NdArray {
             ptr: self.ptr,
             len: self.len,
-            capacity: 0,
+            capacity: self.capacity,
 
             shape,
             stride,
-- 
2.43.0


From 09d24dd2d0b9148f6ef77eddd4adb13e8885427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:57 +0000
Subject: [PATCH 05/27] fix: bounds-check [] indices along every axis

---
 src/ndarray/index_impl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 7e6f491..3f0ad74 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -8,11 +8,13 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
     fn index(&self, index: [usize; D]) -> &Self::Output {
         assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, axis_length)| idx < axis_length),
+                "[] index out of bounds!");
+
         let i: usize = index.iter().zip(self.stride.iter())
             .map(|(idx, stride)| idx * stride)
             .sum();
 
-        assert!(i < self.len, "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_ref() }
     }
 }
@@ -21,11 +23,13 @@ impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
         assert!(D <= self.ndims(), "[] index must be equal number of array dimensions!");
 
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, axis_length)| idx < axis_length),
+                "[] index out of bounds!");
+
         let i: usize = index.iter().zip(self.stride.iter())
                             .map(|(idx, stride)| idx * stride)
                             .sum();
 
-        assert!(i < self.len, "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_mut() }
     }
 }
-- 
2.43.0


From a7fb62034c9e26d84d0a7d1a40898cae3a6b7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:57 +0000
Subject: [PATCH 06/27] fix: bounds-check slices

---
 src/ndarray/slice.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 5a5a162..69886d7 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -38,11 +38,21 @@ fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> usize {
          .sum::<usize>() + 1
 }
 
+/// # Panics
+/// - If the elements selected by `index` are empty or out of bounds for an axis of length `axis_length`.
+fn check_index_bounds(index: &impl Indexer, axis_length: usize) {
+    let first = index.index_of_first_element();
+    let length = index.indexed_length(axis_length);
+
+    assert!(first < axis_length && length > 0 && length <= axis_length - first,
+            "slice out of bounds for axis of length {axis_length}");
+}
 
 impl<'a, T: RawDataType> NdArray<'a, T> {
     pub fn slice_along<S: Indexer>(&'a self, axis: Axis, index: S) -> NdArray<'a, T>
     {
         let axis = axis.as_absolute(self.ndims());
+        check_index_bounds(&index, self.shape[axis]);
 
         let mut new_shape = self.shape.clone();
         let mut new_stride = self.stride.clone();
@@ -88,6 +98,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_stride = Vec::with_capacity(ndims);
 
         for idx in index {
+            check_index_bounds(&idx, self.shape[axis]);
+
             if !idx.collapse_dimension() {
                 let new_length = idx.indexed_length(self.shape[axis]);
                 new_shape.push(new_length);
-- 
2.43.0


From 6a734528346a9c7efae169567056864523b895a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:57 +0000
Subject: [PATCH 07/27] fix: nditer over several axes steps past the end of the
 inner axes

---
 src/ndarray/iterator/tensor_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/iterator/tensor_iterator.rs b/src/ndarray/iterator/tensor_iterator.rs
index b13c246..df73b21 100644
--- a/src/ndarray/iterator/tensor_iterator.rs
+++ b/src/ndarray/iterator/tensor_iterator.rs
@@ -55,7 +55,7 @@ impl<'a, T: RawDataType> Iterator for NdIterator<'a, T> {
         self.iterator_index += 1;
         
         for i in (0..self.shape.len()).rev() {
-            if self.indices[i] != self.shape[i] {
+            if self.indices[i] + 1 != self.shape[i] {
                 self.indices[i] += 1;
                 unsafe { self.result.offset_ptr(self.stride[i] as isize); }
                 break;
-- 
2.43.0


From 822bac0c08e51ddc6a52bdcb67e31cfc6612f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:57 +0000
Subject: [PATCH 08/27] fix: in-place operators on non-contiguous views write
 outside of the view

---
 src/ndarray/assign_ops.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ndarray/assign_ops.rs b/src/ndarray/assign_ops.rs
index d8a3b49..4c3ef08 100644
--- a/src/ndarray/assign_ops.rs
+++ b/src/ndarray/assign_ops.rs
@@ -9,6 +9,14 @@ use crate::{NdArray, StridedMemory};
 use paste::paste;
 use std::ops::{AddAssign, BitAndAssign, BitOrAssign, DivAssign, MulAssign, RemAssign, ShlAssign, ShrAssign, SubAssign};
 
+impl<T: RawDataType> NdArray<'_, T> {
+    /// Overwrites the elements of this ndarray with those of a `source` with the same shape.
+    fn copy_elements_from(&mut self, source: &NdArray<'_, T>) {
+        for (dst, value) in self.flatiter_ptr().zip(source.flatiter()) {
+            unsafe { *dst = value; }
+        }
+    }
+}
 
 macro_rules! define_binary_iop {
     ( $binary_op_trait:ident, $iop_trait:ident, $operator:tt, $method:ident ) => {
@@ -25,6 +33,13 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
                     
+                    // the kernels write to a contiguous destination
+                    if !self.is_contiguous() {
+                        let mut result = self.clone();
+                        result $operator rhs;
+                        return self.copy_elements_from(&result);
+                    }
+
                     if rhs.shape() == self.shape() {
                         unsafe {
                             <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
@@ -52,6 +67,12 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
 
+                    if !self.is_contiguous() {
+                        let mut result = self.clone();
+                        result $operator rhs;
+                        return self.copy_elements_from(&result);
+                    }
+
                     unsafe {
                         <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
                                                                      rhs, self.mut_ptr());
-- 
2.43.0


From 51fcaa183ae85fa3f25da86c10894fbda7c6f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:57 +0000
Subject: [PATCH 09/27] fix: broadcast_to views are readonly for fill, zero and
 IndexMut too

---
 src/ndarray/fill.rs       | 2 ++
 src/ndarray/index_impl.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ndarray/fill.rs b/src/ndarray/fill.rs
index 9159f83..b3bb9e6 100644
--- a/src/ndarray/fill.rs
+++ b/src/ndarray/fill.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use crate::ops::fill::Fill;
 
@@ -16,6 +17,7 @@ impl<T: RawDataType> NdArray<'_, T> {
     /// assert_eq!(arr, NdArray::new([10, 10, 10]));
     /// ```
     pub fn fill(&mut self, value: T) {
+        assert!(self.flags.contains(NdArrayFlags::Writeable), "tensor is readonly.");
         unsafe { <T as Fill>::fill(self.mut_ptr(), self.shape(), self.stride(), self.len, value) }
     }
 }
diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 3f0ad74..2f4f34e 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use std::ops::{Index, IndexMut};
 
@@ -21,6 +22,7 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
+        assert!(self.flags.contains(NdArrayFlags::Writeable), "tensor is readonly.");
         assert!(D <= self.ndims(), "[] index must be equal number of array dimensions!");
 
         assert!(index.iter().zip(self.shape.iter()).all(|(idx, axis_length)| idx < axis_length),
-- 
2.43.0


From bfcea9a2a83c0c60c3a3e6c36c01a8f56ed72045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:56 +0000
Subject: [PATCH 10/27] fix: backward through reshape when the incoming
 gradient is not uniformly strided

---
 src/autograd/reshape_backwards.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autograd/reshape_backwards.rs b/src/autograd/reshape_backwards.rs
index 162bb11..b0a5ae1 100644
--- a/src/autograd/reshape_backwards.rs
+++ b/src/autograd/reshape_backwards.rs
@@ -11,7 +11,8 @@ pub(crate) struct ReshapeBackwards<T: FloatDataType> {
 
 impl<T: FloatDataType> GradientFuncTrait<T> for ReshapeBackwards<T> {
     fn backward(&mut self, grad: &NdArray<T>) {
-        call_next_backward!(grad.reshape(&self.shape),
+        // the gradient may not be uniformly strided, in which case it has no view with the old shape
+        call_next_backward!(grad.clone().reshape(&self.shape),
                             self.next_function);
     }
 }
-- 
2.43.0


From 3d7dc21038f4a18493a68ef931b21187cdbc20f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:56 +0000
Subject: [PATCH 11/27] fix: tensor views captured for the backward pass (or
 converted into an NdArray) dangle once the source tensor is dropped

---
 src/tensor/methods.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tensor/methods.rs b/src/tensor/methods.rs
index 5ba4de2..e48cb78 100644
--- a/src/tensor/methods.rs
+++ b/src/tensor/methods.rs
@@ -34,13 +34,19 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
 
     /// Returns a reference-counted pointer to the underlying `NdArray` of the tensor
     pub fn get_ndarray(&self) -> Rc<NdArray<'static, T>> {
+        // a view must not outlive the tensor which owns its data
+        if self.array.is_view() {
+            return Rc::new(self.array.as_ref().clone());
+        }
+
         self.array.clone()
     }
 
     /// Converts the tensor to an `NdArray`
     pub fn into_ndarray(self) -> NdArray<'static, T> {
         match Rc::try_unwrap(self.array) {
-            Ok(result) => { result }
+            Ok(result) if !result.is_view() => { result }
+            Ok(view) => { view.clone() }  // a view must not outlive the tensor which owns its data
             Err(rc) => { (*rc).clone() }
         }
     }
-- 
2.43.0


From c0d88356ea754a26503d1a943f3c2c30dd5c6f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:56 +0000
Subject: [PATCH 12/27] fix: reject nested data that is ragged below the first
 level

---
 src/util/homogenous.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/util/homogenous.rs b/src/util/homogenous.rs
index eb81ecb..c60c7d0 100644
--- a/src/util/homogenous.rs
+++ b/src/util/homogenous.rs
@@ -12,13 +12,14 @@ pub(crate) trait Homogenous {
 impl<T: Homogenous + Shape> Homogenous for Vec<T> {
     fn check_homogenous(&self) -> bool {
         let first_shape = self[0].shape();
-        self.iter().all(|v| v.shape() == first_shape)
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
-impl<T, const N: usize> Homogenous for [T; N] {
+impl<T: Homogenous + Shape, const N: usize> Homogenous for [T; N] {
     fn check_homogenous(&self) -> bool {
-        true
+        let first_shape = self[0].shape();
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
@@ -29,6 +30,12 @@ macro_rules! homogenous_vec_trait {
                 true
             }
         }
+
+        impl<const N: usize> Homogenous for [$dtype; N] {
+            fn check_homogenous(&self) -> bool {
+                true
+            }
+        }
     };
 }
 
-- 
2.43.0


From a5c0ef1eb30fe92d37326dd345b6864c66a36660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:56 +0000
Subject: [PATCH 13/27] fix: flatten arrays whose elements are vectors element
 by element

---
 src/util/flatten.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/util/flatten.rs b/src/util/flatten.rs
index 04e05dd..97ef5b5 100644
--- a/src/util/flatten.rs
+++ b/src/util/flatten.rs
@@ -4,10 +4,6 @@
 // [[[0]]] -> [0]
 
 use crate::recursive_trait_base_cases;
-use crate::util::shape::Shape;
-use std::fmt::Debug;
-
-use std::ptr::copy_nonoverlapping;
 
 pub(crate) trait Flatten<A> {
     fn flatten(self) -> Vec<A>;
@@ -27,23 +23,11 @@ where
 impl<A, T, const N: usize> Flatten<A> for [T; N]
 where
     T: Flatten<A>,
-    [T; N]: Shape,
-    A: Debug,
 {
-    fn flatten(mut self) -> Vec<A> {
-        assert!(align_of::<T>() >= align_of::<A>(), "alignment mismatch");  // ChatGPT suggested
-
-        let len = self.shape().iter().product();
-        let mut result = Vec::with_capacity(len);
-
-        let src = self.as_mut_ptr() as *mut A;
-        let dst = result.as_mut_ptr();
-
-        unsafe {
-            copy_nonoverlapping(src, dst, len);
-            result.set_len(len);
-        }
-        result
+    fn flatten(self) -> Vec<A> {
+        self.into_iter()
+            .flat_map(|nested| nested.flatten().into_iter())
+            .collect()
     }
 }
 
-- 
2.43.0


From db81627403f99cef444e759940ab35bf0e5f9d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:56 +0000
Subject: [PATCH 14/27] fix: randint never returns its exclusive upper bound

---
 src/common/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 0fe4e4b..bf0a461 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -107,7 +107,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
 
         let uniform = Uniform::new(low.to_float(), high.to_float());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).round()).unwrap())
+            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).floor()).unwrap())
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From 790cec2110f58749eda87240e8c2f5066f615de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:57 +0000
Subject: [PATCH 15/27] fix: linspace returns exactly `num` elements

---
 src/common/constructors.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/constructors.rs b/src/common/constructors.rs
index edb1939..946f4d4 100644
--- a/src/common/constructors.rs
+++ b/src/common/constructors.rs
@@ -222,8 +222,9 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
 
         let step = (stop - start) / (<T as NumCast>::from(num).unwrap() - T::one());
 
-        // from start to (stop + step) to make the range inclusive
-        Self::arange_with_step(start, stop + step, step)
+        let data: Vec<T> = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
+
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 
     /// Generates a 1-dimensional ndarray with `num `evenly spaced values between `start` and `stop`
@@ -257,6 +258,8 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
         }
 
         let step = (stop - start) / <T as NumCast>::from(num).unwrap();
-        Self::arange_with_step(start, stop, step)
+        let data: Vec<T> = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
+
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 }
-- 
2.43.0


From 007cca4fe3a28aa0266c001d5e6365bb348891b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:57 +0000
Subject: [PATCH 16/27] fix: arange counts its elements without rounding
 through f32

---
 src/util/dtype.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index 54f82a3..f014a32 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -50,7 +50,7 @@ pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
     type AsFloatType: FloatDataType;
 
     fn to_float(&self) -> Self::AsFloatType {
-        self.to_f32().unwrap().into()
+        NumCast::from(*self).unwrap()
     }
 
     fn ceil(&self) -> Self {
@@ -71,7 +71,7 @@ impl NumericDataType for u16 {
 }
 
 impl NumericDataType for u32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for u64 {
@@ -95,7 +95,7 @@ impl NumericDataType for i16 {
 }
 
 impl NumericDataType for i32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for i64 {
-- 
2.43.0


From c44f4e31126ea5376af3941a82ca6addf39f88fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:57 +0000
Subject: [PATCH 17/27] fix: einsum rejects a number of subscripts different
 from the number of operands

---
 src/linalg/einsum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 5d2c4fe..a89be6a 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -313,6 +313,7 @@ where
     assert!(n_operands < MAX_ARGS);
 
     let subscripts = (subscripts.0.as_ref(), subscripts.1);
+    assert_eq!(subscripts.0.len(), n_operands, "einsum requires exactly one subscripts string for each operand");
 
     let mut operand_labels = [[0; MAX_DIMS]; MAX_ARGS];
     let mut output_labels = [0; MAX_DIMS];
-- 
2.43.0


From 5f2aea19e88893bfa1797541eaa80f8c048386d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:33 +0000
Subject: [PATCH 18/27] fix: views obtained by consuming a view, and
 data_slice, must not outlive the borrowed data

---
 src/ndarray/methods.rs | 2 +-
 src/ndarray/reshape.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ndarray/methods.rs b/src/ndarray/methods.rs
index 4c8b941..4875f6d 100644
--- a/src/ndarray/methods.rs
+++ b/src/ndarray/methods.rs
@@ -38,7 +38,7 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     /// let data = ndarray.data_slice();
     /// assert_eq!(data, &[50, 60, -5, -10]);
     /// ```
-    pub fn data_slice(&self) -> &'a [T] {
+    pub fn data_slice(&self) -> &[T] {
         assert!(self.is_contiguous(), "cannot get data slice of non-contiguous tensor");
         unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
     }
diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index b41ebc7..1c0aff6 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -53,8 +53,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     }
 }
 
-impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
-    type Output = NdArray<'static, T>;
+impl<'a, T: RawDataType> Reshape<T> for NdArray<'a, T> {
+    type Output = NdArray<'a, T>;
 
     unsafe fn reshaped_view(mut self, shape: Vec<usize>, stride: Vec<usize>) -> Self::Output {
         let flags = update_flags_with_contiguity(self.flags, &shape, &stride);
-- 
2.43.0


From 06547d78c1deac413d2bf8d6560eca19dae64ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:17 +0000
Subject: [PATCH 19/27] fix: einsum rejects a trailing '.' in the output
 subscripts

---
 src/linalg/einsum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index a89be6a..8f48779 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -157,6 +157,10 @@ fn parse_output_subscripts(subscripts: &str,
         }
     }
 
+    if check_ellipsis {
+        panic!("einsum subscripts string contains '.' that is not part of an ellipsis ('..')");
+    }
+
     let ndims = subscripts.len();
     if found_ellipsis { (ndims - 2) + broadcast_dims } else { ndims }
 }
-- 
2.43.0


From b4ec283437ce6520697165ecb0a26d285ee9e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:17 +0000
Subject: [PATCH 20/27] fix: einsum rejects unsupported broadcast axes instead
 of reading only their first element

---
 src/linalg/einsum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 8f48779..9c3ef66 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -336,6 +336,10 @@ where
         max_broadcast_dims = max_broadcast_dims.max(broadcast_dims);
     }
 
+    if max_broadcast_dims != 0 {
+        panic!("broadcasting in einsum is currently unsupported");
+    }
+
     let output_dims = parse_output_subscripts(subscripts.1, &mut output_labels, max_broadcast_dims, &label_counts);
 
     *iter_ndims = output_dims;
-- 
2.43.0


From 3a1805e1c20030f3e65b672e68038a6a7517c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:54 +0000
Subject: [PATCH 21/27] fix: rand::<f32> samples in f32, rounding an f64 sample
 could return 1.0

---
 src/common/random.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index bf0a461..838bce9 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -51,9 +51,10 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(0.0, 1.0);
+        // sampled as T: rounding a wider sample to T could return 1
+        let uniform = Uniform::new(T::zero(), T::one());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng)).unwrap())
+            .map(|_| uniform.sample(&mut rng))
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From b6c73e7282faeb65dcfb1e7e59594deff3078d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:04 +0000
Subject: [PATCH 22/27] fix: randint samples integers exactly instead of
 through floats

---
 src/common/random.rs | 7 ++++---
 src/util/dtype.rs    | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 838bce9..c19f271 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -1,6 +1,6 @@
 use crate::util::to_vec::ToVec;
 use crate::{Constructors, FloatDataType, NdArray, NumericDataType, RawDataType, Tensor, TensorDataType};
-use num::{Float, NumCast};
+use num::NumCast;
 use rand::distributions::{Distribution, Uniform};
 use rand::thread_rng;
 use rand_distr::Normal;
@@ -106,9 +106,10 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(low.to_float(), high.to_float());
+        // sampled as T: large integers are not representable as floats
+        let uniform = Uniform::new(low, high);
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).floor()).unwrap())
+            .map(|_| uniform.sample(&mut rng).floor())
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index f014a32..00ed2cc 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -42,7 +42,7 @@ impl RawDataType for f64 {}
 
 impl RawDataType for bool {}
 
-pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
+pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool> + SampleUniform
 + Sum + Product + SubAssign + Sub<Output=Self> + Div<Output=Self> + MulAdd<Output=Self> + DotProduct
 + ReduceSum + ReduceProduct + ReduceMin + ReduceMax + ReduceMinMagnitude + ReduceMaxMagnitude
 + BinaryOpAdd + BinaryOpSub + BinaryOpMul
@@ -150,7 +150,7 @@ impl IntegerDataType for i64 {}
 impl IntegerDataType for i128 {}
 impl IntegerDataType for isize {}
 
-pub trait FloatDataType: NumericDataType + Float + From<f32> + SampleUniform + Neg<Output=Self>
+pub trait FloatDataType: NumericDataType + Float + From<f32> + Neg<Output=Self>
 + SumOfProductsType + MatrixOps + BinaryOpDiv + UnaryOps {}
 
 impl FloatDataType for f32 {}
-- 
2.43.0


From 48ec56b76f7c4cfef9454f22d4f272e7a36ed344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:44 +0000
Subject: [PATCH 23/27] fix: consuming reshapes of a tensor whose data had to
 be copied keep the strides of the old layout

---
 src/tensor/reshape.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tensor/reshape.rs b/src/tensor/reshape.rs
index 2e7a849..5172bb1 100644
--- a/src/tensor/reshape.rs
+++ b/src/tensor/reshape.rs
@@ -1,3 +1,4 @@
+use crate::ndarray::constructors::stride_from_shape;
 use crate::none_backwards::NoneBackwards;
 use crate::reshape_backwards::ReshapeBackwards;
 use crate::transpose_backwards::TransposeBackwards;
@@ -100,7 +101,13 @@ impl<T: TensorDataType> Reshape<T> for Tensor<'_, T> {
         let requires_grad = self.requires_grad();
         let grad_fn = if requires_grad { ReshapeBackwards::new(&self, self.shape()) } else { NoneBackwards::new() };
 
-        let result = self.into_ndarray().reshaped_view(shape, stride);
+        let old_stride = self.stride().to_vec();
+        let array = self.into_ndarray();
+
+        // `into_ndarray` copies shared or borrowed data into contiguous memory
+        let stride = if array.stride() == old_stride { stride } else { stride_from_shape(&shape) };
+
+        let result = array.reshaped_view(shape, stride);
         Tensor::from_raw_parts(result, requires_grad, grad_fn)
     }
 
-- 
2.43.0


From f88829e740597068db98869b2764ca867154a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:21 +0000
Subject: [PATCH 24/27] fix: results of view, scalar + and scalar - report and
 clear the gradient of their operand

---
 src/autograd/identity_backwards.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/autograd/identity_backwards.rs b/src/autograd/identity_backwards.rs
index 7f65f9b..ed98e2c 100644
--- a/src/autograd/identity_backwards.rs
+++ b/src/autograd/identity_backwards.rs
@@ -1,10 +1,22 @@
-use crate::gradient_function::GradientFunction;
-use crate::{FloatDataType, Tensor};
+use crate::gradient_function::{GradientFuncTrait, GradientFunction};
+use crate::{call_next_backward, FloatDataType, NdArray, Tensor};
+use std::cell::RefCell;
+use std::rc::Rc;
 
-pub(crate) struct IdentityBackwards {}
+/// Passes the gradient on unchanged. The result is not the operand itself:
+/// it does not share the operand's gradient function, which may hold the operand's gradient.
+pub(crate) struct IdentityBackwards<T: FloatDataType> {
+    next_function: GradientFunction<T>,
+}
+
+impl<T: FloatDataType> GradientFuncTrait<T> for IdentityBackwards<T> {
+    fn backward(&mut self, grad: &NdArray<T>) {
+        call_next_backward!(grad, self.next_function);
+    }
+}
 
-impl IdentityBackwards {
-    pub(crate) fn new<T: FloatDataType>(tensor: &Tensor<T>) -> GradientFunction<T> {
-        tensor.grad_fn()
+impl<T: FloatDataType> IdentityBackwards<T> {
+    pub(crate) fn new(tensor: &Tensor<T>) -> GradientFunction<T> {
+        Rc::new(RefCell::new(Self { next_function: tensor.grad_fn() }))
     }
 }
-- 
2.43.0


From 4c9a2400b7d172d2de726545494f7be03e321f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:13 +0000
Subject: [PATCH 25/27] fix: the element iterator must not outlive the array it
 reads

---
 src/ndarray/iterator/flat_iterator.rs | 12 ++++++++----
 src/ndarray/iterator/iterators.rs     |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ndarray/iterator/flat_iterator.rs b/src/ndarray/iterator/flat_iterator.rs
index e94ec40..f49e358 100644
--- a/src/ndarray/iterator/flat_iterator.rs
+++ b/src/ndarray/iterator/flat_iterator.rs
@@ -1,20 +1,24 @@
 use crate::buffer_iterator::BufferIterator;
 use crate::dtype::RawDataType;
 use crate::NdArray;
+use std::marker::PhantomData;
 
-pub struct FlatIterator<T: RawDataType> {
+pub struct FlatIterator<'a, T: RawDataType> {
     buffer_iterator: BufferIterator<T>,
+
+    _marker: PhantomData<&'a T>, // the iterator must not outlive the array it reads
 }
 
-impl<T: RawDataType> FlatIterator<T> {
-    pub(super) fn from(tensor: &NdArray<T>) -> Self {
+impl<'a, T: RawDataType> FlatIterator<'a, T> {
+    pub(super) fn from(tensor: &'a NdArray<T>) -> Self {
         Self {
             buffer_iterator: BufferIterator::from(tensor),
+            _marker: Default::default(),
         }
     }
 }
 
-impl<T: RawDataType> Iterator for FlatIterator<T> {
+impl<T: RawDataType> Iterator for FlatIterator<'_, T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
diff --git a/src/ndarray/iterator/iterators.rs b/src/ndarray/iterator/iterators.rs
index 10e7658..d1b8cad 100644
--- a/src/ndarray/iterator/iterators.rs
+++ b/src/ndarray/iterator/iterators.rs
@@ -6,7 +6,7 @@ use crate::axis::{AxesType, AxisType};
 use crate::buffer_iterator::BufferIterator;
 
 impl<T: RawDataType> NdArray<'_, T> {
-    pub fn flatiter(&self) -> FlatIterator<T> {
+    pub fn flatiter(&self) -> FlatIterator<'_, T> {
         FlatIterator::from(self)
     }
 
-- 
2.43.0


From 9b334d0906f133a942f18df66d75f5c383b1e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:49 +0000
Subject: [PATCH 26/27] fix: min and max of arrays holding nothing but
 infinities returned the largest finite number

---
 src/ndarray/reduce.rs           |  6 +++---
 src/ops/reduce_max.rs           | 17 +++++++++++++++--
 src/ops/reduce_min.rs           | 17 +++++++++++++++--
 src/ops/reduce_min_magnitude.rs | 17 +++++++++++++++--
 4 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/ndarray/reduce.rs b/src/ndarray/reduce.rs
index 5a5decf..ed2c512 100644
--- a/src/ndarray/reduce.rs
+++ b/src/ndarray/reduce.rs
@@ -165,7 +165,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min, axes, T::max_value())
+        self.reduce_along(partial_min, axes, T::min_identity())
     }
 
     /// Computes the maximum of all elements in the array.
@@ -184,7 +184,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn max_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_max, axes, T::min_value())
+        self.reduce_along(partial_max, axes, T::max_identity())
     }
 
     /// Computes the minimum absolute value of all elements in the array.
@@ -203,7 +203,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_magnitude_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min_magnitude, axes, T::max_value())
+        self.reduce_along(partial_min_magnitude, axes, T::min_magnitude_identity())
     }
 
     /// Computes the maximum absolute value of all elements in the array.
diff --git a/src/ops/reduce_max.rs b/src/ops/reduce_max.rs
index c4147b0..9210956 100644
--- a/src/ops/reduce_max.rs
+++ b/src/ops/reduce_max.rs
@@ -5,6 +5,11 @@ use num::{Bounded};
 use crate::util::partial_ord::partial_max;
 
 pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
+    /// The identity of this reduction: no element compares less than it.
+    fn max_identity() -> Self {
+        Self::min_value()
+    }
+
     /// Computes the max of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +23,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn max_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::min_value();
+        let mut output = Self::max_identity();
 
         for _ in 0..count {
             output = partial_max(*ptr, output);
@@ -47,7 +52,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::min_value();
+        let mut output = Self::max_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_max(*ptr.add(index), output);
         }
@@ -58,6 +63,10 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
 impl<T: IntegerDataType> ReduceMax for T {}
 
 impl ReduceMax for f32 {
+    fn max_identity() -> Self {
+        Self::NEG_INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn max_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
@@ -82,6 +91,10 @@ impl ReduceMax for f32 {
 }
 
 impl ReduceMax for f64 {
+    fn max_identity() -> Self {
+        Self::NEG_INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn max_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
diff --git a/src/ops/reduce_min.rs b/src/ops/reduce_min.rs
index c30cdb4..7b0256f 100644
--- a/src/ops/reduce_min.rs
+++ b/src/ops/reduce_min.rs
@@ -5,6 +5,11 @@ use num::{Bounded};
 use crate::util::partial_ord::partial_min;
 
 pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
+    /// The identity of this reduction: no element compares greater than it.
+    fn min_identity() -> Self {
+        Self::max_value()
+    }
+
     /// Computes the min of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +23,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
 
         for _ in 0..count {
             output = partial_min(*ptr, output);
@@ -47,7 +52,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min(*ptr.add(index), output);
         }
@@ -58,6 +63,10 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
 impl<T: IntegerDataType> ReduceMin for T {}
 
 impl ReduceMin for f32 {
+    fn min_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn min_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
@@ -82,6 +91,10 @@ impl ReduceMin for f32 {
 }
 
 impl ReduceMin for f64 {
+    fn min_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn min_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
diff --git a/src/ops/reduce_min_magnitude.rs b/src/ops/reduce_min_magnitude.rs
index 340069a..8a3bdc2 100644
--- a/src/ops/reduce_min_magnitude.rs
+++ b/src/ops/reduce_min_magnitude.rs
@@ -6,6 +6,11 @@ use crate::iterator::collapse_contiguous::has_uniform_stride;
 use crate::util::partial_ord::{partial_min_magnitude};
 
 pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
+    /// The identity of this reduction: no element compares greater than it.
+    fn min_magnitude_identity() -> Self {
+        Self::max_value()
+    }
+
     /// Computes the min magnitude of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -19,7 +24,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_magnitude_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::min_magnitude_identity();
 
         for _ in 0..count {
             output = partial_min_magnitude(*ptr, output);
@@ -48,7 +53,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::min_magnitude_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min_magnitude(*ptr.add(index), output);
         }
@@ -59,6 +64,10 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
 impl<T: IntegerDataType> ReduceMinMagnitude for T {}
 
 impl ReduceMinMagnitude for f32 {
+    fn min_magnitude_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(apple_vdsp)]
     unsafe fn min_magnitude_uniform_stride(ptr: *const Self, count: usize, stride: usize) -> Self {
         use std::ptr::addr_of_mut;
@@ -71,6 +80,10 @@ impl ReduceMinMagnitude for f32 {
 }
 
 impl ReduceMinMagnitude for f64 {
+    fn min_magnitude_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(apple_vdsp)]
     unsafe fn min_magnitude_uniform_stride(ptr: *const Self, count: usize, stride: usize) -> Self {
         use std::ptr::addr_of_mut;
-- 
2.43.0


From 6d0007b6223b92fbd7c8524571e275dccdd8e849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:09 +0000
Subject: [PATCH 27/27] fix: products and einsum over an axis of length zero
 ran into undefined behaviour instead of giving zeros

---
 src/linalg/einsum.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 9c3ef66..f9a4530 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -433,7 +433,9 @@ where
     let mut output = vec![T::zero(); output_shape.iter().product()];
 
     unsafe {
-        if !try_specialized_einsum_loop(operands, &strides, iter_ndims, &iter_shape, output.as_mut_ptr()) {
+        // an empty sum has no terms and leaves the output at zero
+        if !iter_shape.contains(&0)
+            && !try_specialized_einsum_loop(operands, &strides, iter_ndims, &iter_shape, output.as_mut_ptr()) {
             unspecialized_einsum_loop(operands, &strides, iter_ndims, &iter_shape, output.as_mut_ptr());
         }
 
@@ -469,7 +471,9 @@ where
     <T as Fill>::fill(result, &output_shape, result_stride, output_shape.iter().product(), T::zero());
 
     unsafe {
-        if !try_specialized_einsum_loop(operands, &strides, iter_ndims, &iter_shape, result) {
+        // an empty sum has no terms and leaves the output at zero
+        if !iter_shape.contains(&0)
+            && !try_specialized_einsum_loop(operands, &strides, iter_ndims, &iter_shape, result) {
             unspecialized_einsum_loop(operands, &strides, iter_ndims, &iter_shape, result);
         }
     }
-- 
2.43.0


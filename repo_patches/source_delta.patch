From 28101e933241f547fd01e44e614b295b27051560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 01/89] fix: element-wise results are stored contiguously, so
 give them a contiguous layout

Binary, comparison, logical and bitwise operations wrote their result linearly
but described it with the (possibly broadcast, permuted or sliced) layout of
the left operand; the captured graph recorded the same layout for unary and
cast operations.
---
 crates/hodu_core/src/tensor/ops/binary.rs     | 10 ++++-----
 crates/hodu_core/src/tensor/ops/bitwise.rs    | 13 ++++++------
 .../hodu_core/src/tensor/ops/cast_memory.rs   |  7 ++++---
 crates/hodu_core/src/tensor/ops/cmp.rs        | 11 +++++-----
 crates/hodu_core/src/tensor/ops/unary.rs      | 21 +++++++++++--------
 5 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/binary.rs b/crates/hodu_core/src/tensor/ops/binary.rs
index 5265fb7..252131d 100644
--- a/crates/hodu_core/src/tensor/ops/binary.rs
+++ b/crates/hodu_core/src/tensor/ops/binary.rs
@@ -2,7 +2,7 @@ use crate::{
     error::HoduResult,
     ops::{BinaryLogicalOp, BinaryLogicalParams, BinaryOp, BinaryParams, Op, OpParams},
     tensor::{create_builder_tensor, from_storage_with_context, gradient, utils::broadcast_tensors2, Tensor},
-    types::DType,
+    types::{DType, Layout},
     utils::valid::{
         validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
         validate_same_dtype,
@@ -24,7 +24,7 @@ macro_rules! binary_op {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
                 let requires_grad = (lhs.is_requires_grad() || rhs.is_requires_grad()) && validate_requires_grad;
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(&lhs.shape());
                 let (result_id, result_tensor) =
                     create_builder_tensor(result_layout.clone(), lhs.dtype(), requires_grad);
 
@@ -65,7 +65,7 @@ macro_rules! binary_op {
                 let requires_grad = lhs.is_requires_grad() || rhs.is_requires_grad();
                 let requires_grad = requires_grad && validate_requires_grad;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, requires_grad);
+                let result = from_storage_with_context(storage, Layout::from_shape(&lhs.shape()), true, requires_grad);
 
                 if !gradient::is_computing_gradients() && requires_grad {
                     gradient::record_operation(
@@ -95,7 +95,7 @@ macro_rules! binary_logical_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(&lhs.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -123,7 +123,7 @@ macro_rules! binary_logical_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(&lhs.shape()), true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/bitwise.rs b/crates/hodu_core/src/tensor/ops/bitwise.rs
index 0c99d08..205f11e 100644
--- a/crates/hodu_core/src/tensor/ops/bitwise.rs
+++ b/crates/hodu_core/src/tensor/ops/bitwise.rs
@@ -5,6 +5,7 @@ use crate::{
         BitwiseBinaryOp, BitwiseBinaryParams, BitwiseUnaryOp, BitwiseUnaryParams, BitwiseUnaryScalarOp, Op, OpParams,
     },
     tensor::{create_builder_tensor, from_storage_with_context, utils::broadcast_tensors2, Tensor},
+    types::Layout,
     utils::valid::{validate_dtype_for_device, validate_dtype_for_op, validate_same_device, validate_same_dtype},
 };
 
@@ -21,7 +22,7 @@ macro_rules! bitwise_binary_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(&lhs.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), lhs.dtype(), false);
 
@@ -51,7 +52,7 @@ macro_rules! bitwise_binary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(&lhs.shape()), true, false);
 
                 Ok(result)
             }
@@ -67,7 +68,7 @@ macro_rules! bitwise_unary_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(&self.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -89,7 +90,7 @@ macro_rules! bitwise_unary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(&self.shape()), true, false);
 
                 Ok(result)
             }
@@ -108,7 +109,7 @@ macro_rules! bitwise_scalar_shift_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(&self.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -134,7 +135,7 @@ macro_rules! bitwise_scalar_shift_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(&self.shape()), true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index db71308..76d4467 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -13,7 +13,8 @@ impl Tensor {
 
         if crate::snapshot::capture::is_active() {
             let input_layout = self.layout();
-            let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), dtype, false);
+            let result_layout = Layout::from_shape(&self.shape());
+            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), dtype, false);
 
             let op_params = OpParams::ToDType(ToDTypeParams { dtype });
 
@@ -22,8 +23,8 @@ impl Tensor {
                 Some(op_params),
                 vec![self.id()],
                 result_id,
-                vec![input_layout.clone()],
-                input_layout,
+                vec![input_layout],
+                result_layout,
             )?;
 
             Ok(result_tensor)
diff --git a/crates/hodu_core/src/tensor/ops/cmp.rs b/crates/hodu_core/src/tensor/ops/cmp.rs
index 9d1b42a..f69b27e 100644
--- a/crates/hodu_core/src/tensor/ops/cmp.rs
+++ b/crates/hodu_core/src/tensor/ops/cmp.rs
@@ -21,7 +21,7 @@ macro_rules! cmp_op {
             let rhs_layout = rhs.layout();
 
             if crate::snapshot::capture::is_active() {
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(&lhs.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -41,7 +41,7 @@ macro_rules! cmp_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(&lhs.shape()), true, false);
 
                 Ok(result)
             }
@@ -59,15 +59,16 @@ macro_rules! cmp_scalar_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let result_layout = Layout::from_shape(&self.shape());
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::CmpScalar(CmpScalarOp::$op_name),
                     Some(OpParams::CmpScalar(CmpScalarParams { scalar })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
diff --git a/crates/hodu_core/src/tensor/ops/unary.rs b/crates/hodu_core/src/tensor/ops/unary.rs
index 841ac52..27070f9 100644
--- a/crates/hodu_core/src/tensor/ops/unary.rs
+++ b/crates/hodu_core/src/tensor/ops/unary.rs
@@ -18,16 +18,17 @@ macro_rules! unary_op {
 
             if crate::snapshot::capture::is_active() {
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
+                let result_layout = Layout::from_shape(&self.shape());
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::Unary(UnaryOp::$op_name),
                     Some(OpParams::Unary(UnaryParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
@@ -73,15 +74,16 @@ macro_rules! unary_logical_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let result_layout = Layout::from_shape(&self.shape());
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryLogical(UnaryLogicalOp::$op_name),
                     Some(OpParams::UnaryLogical(UnaryLogicalParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
@@ -112,16 +114,17 @@ macro_rules! unary_scalar_op {
 
             if crate::snapshot::capture::is_active() {
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
+                let result_layout = Layout::from_shape(&self.shape());
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryScalar(UnaryScalarOp::$op_name),
                     Some(OpParams::UnaryScalar(UnaryScalarParams { scalar: scalar_value })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
-- 
2.43.0


From ba10b3c677022e10a9e2d6d785e6bb1cdc72a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 02/89] fix: extract and serialise exactly the elements of a
 view (offset and partial contiguous views)

---
 crates/hodu_core/src/be_cpu/storage.rs | 31 ++++++++++++++++--
 crates/hodu_core/src/tensor/bytes.rs   | 12 ++-----
 crates/hodu_core/src/tensor/vec.rs     | 45 +++-----------------------
 3 files changed, 36 insertions(+), 52 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage.rs b/crates/hodu_core/src/be_cpu/storage.rs
index 77fceee..68f4709 100644
--- a/crates/hodu_core/src/be_cpu/storage.rs
+++ b/crates/hodu_core/src/be_cpu/storage.rs
@@ -83,6 +83,33 @@ pub enum CpuStorage {
 // }
 
 impl CpuStorage {
+    /// Number of elements held by this storage
+    fn num_elements(&self) -> usize {
+        match self {
+            Self::BOOL(v) => v.len(),
+            Self::F8E4M3(v) => v.len(),
+            #[cfg(feature = "f8e5m2")]
+            Self::F8E5M2(v) => v.len(),
+            Self::BF16(v) => v.len(),
+            Self::F16(v) => v.len(),
+            Self::F32(v) => v.len(),
+            #[cfg(feature = "f64")]
+            Self::F64(v) => v.len(),
+            Self::U8(v) => v.len(),
+            #[cfg(feature = "u16")]
+            Self::U16(v) => v.len(),
+            Self::U32(v) => v.len(),
+            #[cfg(feature = "u64")]
+            Self::U64(v) => v.len(),
+            Self::I8(v) => v.len(),
+            #[cfg(feature = "i16")]
+            Self::I16(v) => v.len(),
+            Self::I32(v) => v.len(),
+            #[cfg(feature = "i64")]
+            Self::I64(v) => v.len(),
+        }
+    }
+
     /// Get raw pointer to the underlying data
     pub fn as_ptr(&self) -> *const u8 {
         match self {
@@ -715,8 +742,8 @@ impl BackendStorageT for CpuStorage {
     }
 
     fn contiguous(&self, layout: &Layout) -> HoduResult<Self> {
-        // If already contiguous with zero offset, just clone
-        if layout.is_contiguous() && layout.offset() == 0 {
+        // If already contiguous and covering the whole storage, just clone
+        if layout.is_contiguous() && layout.offset() == 0 && layout.size() == self.num_elements() {
             return Ok(self.clone());
         }
 
diff --git a/crates/hodu_core/src/tensor/bytes.rs b/crates/hodu_core/src/tensor/bytes.rs
index 5b7a18f..d94592e 100644
--- a/crates/hodu_core/src/tensor/bytes.rs
+++ b/crates/hodu_core/src/tensor/bytes.rs
@@ -1,5 +1,5 @@
 use crate::{
-    be::storage::BackendStorage,
+    be::storage::{BackendStorage, BackendStorageT},
     be_cpu::storage::CpuStorage,
     error::{HoduError, HoduResult},
     tensor::{internal::from_storage_with_context, Tensor},
@@ -15,15 +15,9 @@ impl Tensor {
     /// GPU tensors are automatically transferred to CPU for serialization.
     pub fn to_bytes(&self) -> HoduResult<Vec<u8>> {
         let cpu_storage = self.with_storage(|storage| storage.to_cpu_storage())?;
-        let layout = self.layout();
 
-        // Make contiguous if needed
-        let cpu_storage = if !layout.is_contiguous() {
-            let contiguous = self.contiguous()?;
-            contiguous.with_storage(|storage| storage.to_cpu_storage())?
-        } else {
-            cpu_storage
-        };
+        // Only the elements of this view, in logical order
+        let cpu_storage = cpu_storage.contiguous(&self.layout())?;
 
         Ok(storage_to_bytes(&cpu_storage))
     }
diff --git a/crates/hodu_core/src/tensor/vec.rs b/crates/hodu_core/src/tensor/vec.rs
index 8afbe36..7838afc 100644
--- a/crates/hodu_core/src/tensor/vec.rs
+++ b/crates/hodu_core/src/tensor/vec.rs
@@ -310,19 +310,19 @@ fn extract_vec_from_cpu_storage<T: Clone + 'static>(cpu_storage: &CpuStorage, la
     let target_dtype = get_dtype_for_type::<T>()
         .ok_or_else(|| HoduError::InternalError("Unsupported type for extraction".to_string()))?;
 
+    // Both conversions return the elements of the view in logical order
     let cpu_storage = if cpu_storage.dtype() != target_dtype {
         cpu_storage.to_dtype(layout, target_dtype)?
     } else {
-        cpu_storage.clone()
+        cpu_storage.contiguous(layout)?
     };
 
-    let total_elements = layout.shape().dims().iter().copied().product::<usize>();
-    let mut result = Vec::with_capacity(total_elements);
+    let mut result = Vec::with_capacity(layout.size());
 
     macro_rules! extract_storage {
         ($data:expr) => {
             if let Ok(typed_data) = try_cast_slice::<T, _>($data) {
-                extract_with_layout(&mut result, typed_data, layout);
+                result.extend_from_slice(typed_data);
             } else {
                 return Err(HoduError::InternalError(
                     "Type mismatch in extraction".to_string(),
@@ -366,43 +366,6 @@ fn try_cast_slice<T: 'static, U: 'static>(data: &[U]) -> Result<&[T], ()> {
     }
 }
 
-fn extract_with_layout<T: Clone>(result: &mut Vec<T>, data: &[T], layout: &Layout) {
-    let dims = layout.shape();
-    let strides = layout.strides();
-
-    if layout.is_contiguous() {
-        result.extend_from_slice(data);
-    } else {
-        let total_elements = dims.dims().iter().copied().product::<usize>();
-        let ndim = dims.ndim();
-        let mut indices = vec![0usize; ndim];
-
-        for _ in 0..total_elements {
-            let flat_idx = indices.iter().zip(strides.iter()).map(|(&i, &s)| i * s).sum::<usize>();
-
-            if flat_idx < data.len() {
-                result.push(data[flat_idx].clone());
-            }
-
-            // Increment indices
-            let mut carry = 1;
-            for i in (0..ndim).rev() {
-                indices[i] += carry;
-                if indices[i] < dims.dims()[i] {
-                    carry = 0;
-                    break;
-                } else {
-                    indices[i] = 0;
-                }
-            }
-
-            if carry == 1 {
-                break;
-            }
-        }
-    }
-}
-
 fn get_dtype_for_type<T: 'static>() -> Option<DType> {
     let type_id = core::any::TypeId::of::<T>();
 
-- 
2.43.0


From 4236d16bcd9d32682a2b9037fe389a8f7659cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 03/89] fix: round conversions to the small float formats
 correctly (subnormals, ties, signs, f8e4m3 range)

---
 crates/hodu_cpu_kernels/kernels/math_utils.h | 10 ++--
 crates/hodu_cpu_kernels/kernels/t_bf16.h     |  5 +-
 crates/hodu_cpu_kernels/kernels/t_f16.h      | 45 +++++++--------
 crates/hodu_cpu_kernels/kernels/t_f8e4m3.h   | 58 +++++++-------------
 crates/hodu_cpu_kernels/kernels/t_f8e5m2.h   | 53 +++++++-----------
 5 files changed, 70 insertions(+), 101 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index ad11d99..127c6e4 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -14,13 +14,13 @@ extern "C" {
 // INFINITY CONSTANTS FOR EXOTIC FLOATING-POINT TYPES
 // ============================================================================
 
-// FP8 E4M3 infinity values (exponent=0xF)
-#define F8E4M3_NEG_INF ((f8e4m3_t)0xFF) // 1 sign | 1111 exp | 111 mant
-#define F8E4M3_POS_INF ((f8e4m3_t)0x7F) // 0 sign | 1111 exp | 111 mant
+// FP8 E4M3 has no infinities: the extreme finite values stand in for them
+#define F8E4M3_NEG_INF ((f8e4m3_t)0xFE) // no infinity: lowest finite value (-448)
+#define F8E4M3_POS_INF ((f8e4m3_t)0x7E) // no infinity: highest finite value (448)
 
 // FP8 E5M2 infinity values (exponent=0x1F)
-#define F8E5M2_NEG_INF ((f8e5m2_t)0xFF) // 1 sign | 11111 exp | 11 mant
-#define F8E5M2_POS_INF ((f8e5m2_t)0x7F) // 0 sign | 11111 exp | 11 mant
+#define F8E5M2_NEG_INF ((f8e5m2_t)0xFC) // 1 sign | 11111 exp | 00 mant
+#define F8E5M2_POS_INF ((f8e5m2_t)0x7C) // 0 sign | 11111 exp | 00 mant
 
 // BFloat16 infinity values (exponent=0xFF)
 #define BF16_NEG_INF ((bf16_t)0xFF80) // 1 sign | 11111111 exp | 0000000 mant
diff --git a/crates/hodu_cpu_kernels/kernels/t_bf16.h b/crates/hodu_cpu_kernels/kernels/t_bf16.h
index b1dc2f2..7dd29b2 100644
--- a/crates/hodu_cpu_kernels/kernels/t_bf16.h
+++ b/crates/hodu_cpu_kernels/kernels/t_bf16.h
@@ -32,10 +32,13 @@ static inline float bf16_to_float(bf16_t val) {
     return result;
 }
 
+// Round to nearest, ties to even
 static inline bf16_t float_to_bf16(float val) {
     uint32_t bits;
     memcpy(&bits, &val, sizeof(float));
-    return (bf16_t)(bits >> 16);
+    if ((bits & 0x7FFFFFFF) > 0x7F800000) // NaN
+        return (bf16_t)((bits >> 16) | 0x0040);
+    return (bf16_t)((bits + 0x7FFF + ((bits >> 16) & 1)) >> 16);
 }
 
 // ============================================================================
diff --git a/crates/hodu_cpu_kernels/kernels/t_f16.h b/crates/hodu_cpu_kernels/kernels/t_f16.h
index b4c07e5..4b7a74b 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f16.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f16.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -45,35 +46,27 @@ static inline float f16_to_float(f16_t val) {
     return sign ? -result : result;
 }
 
+// Round to nearest, ties to even
 static inline f16_t float_to_f16(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7E00;
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
-
-    if (isinf(val) || val > 65504.0f)
-        return (sign << 15) | 0x7C00;
-    if (val < 0.00006103515625f)
-        return sign << 15;
-
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 14;
-
-    if (exp <= 0) {
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 31) {
-        return (sign << 15) | 0x7C00;
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(bits));
+    uint32_t sign = (bits >> 16) & 0x8000;
+    uint32_t abs = bits & 0x7FFFFFFF;
+
+    if (abs > 0x7F800000) // NaN
+        return (f16_t)(sign | 0x7E00);
+    if (abs >= 0x477FF000) // rounds to 65536 or above
+        return (f16_t)(sign | 0x7C00);
+    if (abs < 0x38800000) { // below 2^-14: zero or subnormal
+        // 0.5 has the same unit in the last place (2^-24) as f16 subnormals
+        float biased = fabsf(val) + 0.5f;
+        uint32_t biased_bits;
+        memcpy(&biased_bits, &biased, sizeof(biased_bits));
+        return (f16_t)(sign | (biased_bits - 0x3F000000));
     }
 
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 1024.0f + 0.5f);
-    mant_bits = mant_bits > 1023 ? 1023 : mant_bits;
-
-    return (sign << 15) | (exp << 10) | mant_bits;
+    abs += 0xFFF + ((abs >> 13) & 1);
+    return (f16_t)(sign | ((abs >> 13) - (112 << 10)));
 }
 
 // ============================================================================
diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
index 968da9a..4e750db 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -17,8 +18,8 @@ typedef uint8_t f8e4m3_t;
 
 #define F8E4M3_ZERO ((f8e4m3_t)0x00)
 #define F8E4M3_ONE ((f8e4m3_t)0x38) // exp=7 (bias), mant=0
-#define F8E4M3_NEG_INF ((f8e4m3_t)0xFF)
-#define F8E4M3_POS_INF ((f8e4m3_t)0x7F)
+#define F8E4M3_NEG_INF ((f8e4m3_t)0xFE) // no infinity: lowest finite value (-448)
+#define F8E4M3_POS_INF ((f8e4m3_t)0x7E) // no infinity: highest finite value (448)
 
 // ============================================================================
 // CONVERSION
@@ -30,12 +31,9 @@ static inline float f8e4m3_to_float(f8e4m3_t val) {
     uint32_t mant = val & 0x7;
 
     // E4M3 uses bias of 7
-    // Special values: exp=15 is infinity/NaN
-    if (exp == 15) {
-        if (mant == 0)
-            return sign ? -INFINITY : INFINITY;
+    // No infinities; the only special value is NaN (all exponent and mantissa bits set)
+    if (exp == 15 && mant == 7)
         return NAN;
-    }
 
     if (exp == 0) {
         if (mant == 0)
@@ -49,39 +47,25 @@ static inline float f8e4m3_to_float(f8e4m3_t val) {
     return sign ? -result : result;
 }
 
+// Round to nearest, ties to even; values beyond the largest finite value (448) become NaN
 static inline f8e4m3_t float_to_f8e4m3(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7F; // NaN
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
-
-    // E4M3 max value is ~448
-    if (isinf(val) || val > 448.0f)
-        return (sign << 7) | 0x7F;
-
-    // E4M3 min normal value is 2^(-6) ≈ 0.015625
-    if (val < 0.001953125f) // 2^(-9)
-        return sign << 7;
-
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 6; // bias = 7, but frexp returns [0.5, 1), so adjust
-
-    if (exp <= 0) {
-        // Subnormal
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 15) {
-        return (sign << 7) | 0x7F;
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(bits));
+    uint32_t sign = (bits >> 24) & 0x80;
+    uint32_t abs = bits & 0x7FFFFFFF;
+
+    if (abs > 0x43E80000) // NaN, infinity or above 464
+        return (f8e4m3_t)(sign | 0x7F);
+    if (abs < 0x3C800000) { // below 2^-6: zero or subnormal
+        // 2^14 has the same unit in the last place (2^-9) as f8e4m3 subnormals
+        float biased = fabsf(val) + 16384.0f;
+        uint32_t biased_bits;
+        memcpy(&biased_bits, &biased, sizeof(biased_bits));
+        return (f8e4m3_t)(sign | (biased_bits - 0x46800000));
     }
 
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 8.0f + 0.5f);
-    mant_bits = mant_bits > 7 ? 7 : mant_bits;
-
-    return (sign << 7) | (exp << 3) | mant_bits;
+    abs += 0x7FFFF + ((abs >> 20) & 1);
+    return (f8e4m3_t)(sign | ((abs >> 20) - (120 << 3)));
 }
 
 // ============================================================================
diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
index 72c3dba..4912c2d 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -17,8 +18,8 @@ typedef uint8_t f8e5m2_t;
 
 #define F8E5M2_ZERO ((f8e5m2_t)0x00)
 #define F8E5M2_ONE ((f8e5m2_t)0x3C) // exp=15 (bias), mant=0
-#define F8E5M2_NEG_INF ((f8e5m2_t)0xFF)
-#define F8E5M2_POS_INF ((f8e5m2_t)0x7F)
+#define F8E5M2_NEG_INF ((f8e5m2_t)0xFC) // 1 sign | 11111 exp | 00 mant
+#define F8E5M2_POS_INF ((f8e5m2_t)0x7C) // 0 sign | 11111 exp | 00 mant
 
 // ============================================================================
 // CONVERSION
@@ -49,39 +50,27 @@ static inline float f8e5m2_to_float(f8e5m2_t val) {
     return sign ? -result : result;
 }
 
+// Round to nearest, ties to even
 static inline f8e5m2_t float_to_f8e5m2(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7F; // NaN
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
-
-    // E5M2 max value is ~57344
-    if (isinf(val) || val > 57344.0f)
-        return (sign << 7) | 0x7F;
-
-    // E5M2 min normal value is 2^(-14) ≈ 0.000061
-    if (val < 0.0000152587890625f) // 2^(-16)
-        return sign << 7;
-
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 14; // bias = 15, but frexp returns [0.5, 1), so adjust
-
-    if (exp <= 0) {
-        // Subnormal
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 31) {
-        return (sign << 7) | 0x7F;
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(bits));
+    uint32_t sign = (bits >> 24) & 0x80;
+    uint32_t abs = bits & 0x7FFFFFFF;
+
+    if (abs > 0x7F800000) // NaN
+        return (f8e5m2_t)(sign | 0x7F);
+    if (abs >= 0x47700000) // rounds to 65536 or above
+        return (f8e5m2_t)(sign | 0x7C);
+    if (abs < 0x38800000) { // below 2^-14: zero or subnormal
+        // 2^7 has the same unit in the last place (2^-16) as f8e5m2 subnormals
+        float biased = fabsf(val) + 128.0f;
+        uint32_t biased_bits;
+        memcpy(&biased_bits, &biased, sizeof(biased_bits));
+        return (f8e5m2_t)(sign | (biased_bits - 0x43000000));
     }
 
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 4.0f + 0.5f);
-    mant_bits = mant_bits > 3 ? 3 : mant_bits;
-
-    return (sign << 7) | (exp << 2) | mant_bits;
+    abs += 0xFFFFF + ((abs >> 21) & 1);
+    return (f8e5m2_t)(sign | ((abs >> 21) - (112 << 2)));
 }
 
 // ============================================================================
-- 
2.43.0


From db6e110ff55bfcd2600c1656d7258aca1f076501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 04/89] fix: exact integer pow_scalar, no trap on MIN % -1,
 correct pow of negative and zero bases, stable softplus

---
 crates/hodu_cpu_kernels/kernels/math_utils.h | 32 ++++++++++----------
 crates/hodu_cpu_kernels/kernels/ops_binary.c | 16 +++++-----
 crates/hodu_cpu_kernels/kernels/ops_unary.c  | 32 ++++++++++----------
 3 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index 127c6e4..a17103a 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -38,14 +38,16 @@ extern "C" {
 static inline int64_t ipow_i64(int64_t base, int64_t exp) {
     if (exp < 0)
         return 0;
-    int64_t result = 1;
+    // Unsigned arithmetic: overflow wraps around
+    uint64_t result = 1;
+    uint64_t b = (uint64_t)base;
     while (exp > 0) {
         if (exp & 1)
-            result *= base;
-        base *= base;
+            result *= b;
+        b *= b;
         exp >>= 1;
     }
-    return result;
+    return (int64_t)result;
 }
 
 static inline uint64_t ipow_u64(uint64_t base, uint64_t exp) {
@@ -59,12 +61,14 @@ static inline uint64_t ipow_u64(uint64_t base, uint64_t exp) {
     return result;
 }
 
+// Signed division and remainder: 0 for a zero divisor, wrapping for MIN / -1
+#define INT_DIV(UTYPE, x, y) ((y) == 0 ? 0 : (y) == -1 ? -(UTYPE)(x) : (x) / (y))
+#define INT_REM(x, y) (((y) == 0 || (y) == -1) ? 0 : (x) % (y))
+
 // Float power with optimization
 static inline float powf_opt(float base, float exponent) {
     if (exponent == 0.0f)
         return 1.0f;
-    if (base == 0.0f)
-        return (exponent > 0.0f) ? 0.0f : INFINITY;
     if (base == 1.0f)
         return 1.0f;
     if (exponent == 1.0f)
@@ -87,17 +91,12 @@ static inline float powf_opt(float base, float exponent) {
         }
     }
 
-    if (base < 0.0f)
-        return NAN;
-
     return powf(base, exponent);
 }
 
 static inline double pow_opt(double base, double exponent) {
     if (exponent == 0.0)
         return 1.0;
-    if (base == 0.0)
-        return (exponent > 0.0) ? 0.0 : INFINITY;
     if (base == 1.0)
         return 1.0;
     if (exponent == 1.0)
@@ -119,9 +118,6 @@ static inline double pow_opt(double base, double exponent) {
         }
     }
 
-    if (base < 0.0)
-        return NAN;
-
     return pow(base, exponent);
 }
 
@@ -177,9 +173,13 @@ static inline double gelu_helper_f64(double x) {
     return 0.5 * x * (1.0 + tanh(0.7978845608 * (x + 0.044715 * x * x * x)));
 }
 
-static inline float softplus_helper_f32(float x) { return logf(1.0f + expf(x)); }
+static inline float softplus_helper_f32(float x) {
+    return (x > 0.0f ? x : 0.0f) + log1pf(expf(-fabsf(x)));
+}
 
-static inline double softplus_helper_f64(double x) { return log(1.0 + exp(x)); }
+static inline double softplus_helper_f64(double x) {
+    return (x > 0.0 ? x : 0.0) + log1p(exp(-fabs(x)));
+}
 
 static inline float silu_helper_f32(float x) { return x / (1.0f + expf(-x)); }
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_binary.c b/crates/hodu_cpu_kernels/kernels/ops_binary.c
index 1ebf24b..19bcaca 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_binary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_binary.c
@@ -735,8 +735,8 @@ IMPL_BINARY_TO_BOOL(u64_t, u64, ge, x >= y)
 IMPL_BINARY_OP(i8_t, i8, add, x + y)
 IMPL_BINARY_OP(i8_t, i8, sub, x - y)
 IMPL_BINARY_OP(i8_t, i8, mul, x *y)
-IMPL_BINARY_OP(i8_t, i8, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i8_t, i8, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i8_t, i8, div, INT_DIV(u8_t, x, y))
+IMPL_BINARY_OP(i8_t, i8, rem, INT_REM(x, y))
 IMPL_BINARY_OP(i8_t, i8, pow, (i8_t)ipow_i64(x, y))
 IMPL_BINARY_OP(i8_t, i8, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i8_t, i8, minimum, MINIMUM(x, y))
@@ -756,8 +756,8 @@ IMPL_BINARY_TO_BOOL(i8_t, i8, ge, x >= y)
 IMPL_BINARY_OP(i16_t, i16, add, x + y)
 IMPL_BINARY_OP(i16_t, i16, sub, x - y)
 IMPL_BINARY_OP(i16_t, i16, mul, x *y)
-IMPL_BINARY_OP(i16_t, i16, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i16_t, i16, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i16_t, i16, div, INT_DIV(u16_t, x, y))
+IMPL_BINARY_OP(i16_t, i16, rem, INT_REM(x, y))
 IMPL_BINARY_OP(i16_t, i16, pow, (i16_t)ipow_i64(x, y))
 IMPL_BINARY_OP(i16_t, i16, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i16_t, i16, minimum, MINIMUM(x, y))
@@ -777,8 +777,8 @@ IMPL_BINARY_TO_BOOL(i16_t, i16, ge, x >= y)
 IMPL_BINARY_OP(i32_t, i32, add, x + y)
 IMPL_BINARY_OP(i32_t, i32, sub, x - y)
 IMPL_BINARY_OP(i32_t, i32, mul, x *y)
-IMPL_BINARY_OP(i32_t, i32, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i32_t, i32, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i32_t, i32, div, INT_DIV(u32_t, x, y))
+IMPL_BINARY_OP(i32_t, i32, rem, INT_REM(x, y))
 IMPL_BINARY_OP(i32_t, i32, pow, (i32_t)ipow_i64(x, y))
 IMPL_BINARY_OP(i32_t, i32, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i32_t, i32, minimum, MINIMUM(x, y))
@@ -798,8 +798,8 @@ IMPL_BINARY_TO_BOOL(i32_t, i32, ge, x >= y)
 IMPL_BINARY_OP(i64_t, i64, add, x + y)
 IMPL_BINARY_OP(i64_t, i64, sub, x - y)
 IMPL_BINARY_OP(i64_t, i64, mul, x *y)
-IMPL_BINARY_OP(i64_t, i64, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i64_t, i64, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i64_t, i64, div, INT_DIV(u64_t, x, y))
+IMPL_BINARY_OP(i64_t, i64, rem, INT_REM(x, y))
 IMPL_BINARY_OP(i64_t, i64, pow, ipow_i64(x, y))
 IMPL_BINARY_OP(i64_t, i64, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i64_t, i64, minimum, MINIMUM(x, y))
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 5fc7caa..02afe4f 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -1562,7 +1562,7 @@ IMPL_UNARY_WITH_SCALAR(u8_t, u8, sub_scalar, (x > const_val) ? (x - const_val) :
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u8_t, u8, pow_scalar, (u8_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(u8_t, u8, pow_scalar, (u8_t)ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u8_t, u8, eq_scalar, x == const_val)
@@ -1585,7 +1585,7 @@ IMPL_UNARY_WITH_SCALAR(u16_t, u16, sub_scalar, (x > const_val) ? (x - const_val)
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u16_t, u16, pow_scalar, (u16_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(u16_t, u16, pow_scalar, (u16_t)ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u16_t, u16, eq_scalar, x == const_val)
@@ -1608,7 +1608,7 @@ IMPL_UNARY_WITH_SCALAR(u32_t, u32, sub_scalar, (x > const_val) ? (x - const_val)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u32_t, u32, pow_scalar, (u32_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(u32_t, u32, pow_scalar, (u32_t)ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u32_t, u32, eq_scalar, x == const_val)
@@ -1631,7 +1631,7 @@ IMPL_UNARY_WITH_SCALAR(u64_t, u64, sub_scalar, (x > const_val) ? (x - const_val)
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u64_t, u64, pow_scalar, (u64_t)pow_opt((double)x, (double)const_val))
+IMPL_UNARY_WITH_SCALAR(u64_t, u64, pow_scalar, (u64_t)ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u64_t, u64, eq_scalar, x == const_val)
@@ -1657,9 +1657,9 @@ IMPL_UNARY_TO_BOOL(i8_t, i8, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, mul_scalar, x *const_val)
-IMPL_UNARY_WITH_SCALAR(i8_t, i8, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i8_t, i8, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i8_t, i8, pow_scalar, (i8_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(i8_t, i8, div_scalar, INT_DIV(u8_t, x, const_val))
+IMPL_UNARY_WITH_SCALAR(i8_t, i8, rem_scalar, INT_REM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(i8_t, i8, pow_scalar, (i8_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i8_t, i8, eq_scalar, x == const_val)
@@ -1681,9 +1681,9 @@ IMPL_UNARY_TO_BOOL(i16_t, i16, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, mul_scalar, x *const_val)
-IMPL_UNARY_WITH_SCALAR(i16_t, i16, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i16_t, i16, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i16_t, i16, pow_scalar, (i16_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(i16_t, i16, div_scalar, INT_DIV(u16_t, x, const_val))
+IMPL_UNARY_WITH_SCALAR(i16_t, i16, rem_scalar, INT_REM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(i16_t, i16, pow_scalar, (i16_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i16_t, i16, eq_scalar, x == const_val)
@@ -1705,9 +1705,9 @@ IMPL_UNARY_TO_BOOL(i32_t, i32, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, mul_scalar, x *const_val)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, pow_scalar, (i32_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, div_scalar, INT_DIV(u32_t, x, const_val))
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, rem_scalar, INT_REM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, pow_scalar, (i32_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i32_t, i32, eq_scalar, x == const_val)
@@ -1729,9 +1729,9 @@ IMPL_UNARY_TO_BOOL(i64_t, i64, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, mul_scalar, x *const_val)
-IMPL_UNARY_WITH_SCALAR(i64_t, i64, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i64_t, i64, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i64_t, i64, pow_scalar, (i64_t)pow_opt((double)x, (double)const_val))
+IMPL_UNARY_WITH_SCALAR(i64_t, i64, div_scalar, INT_DIV(u64_t, x, const_val))
+IMPL_UNARY_WITH_SCALAR(i64_t, i64, rem_scalar, INT_REM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(i64_t, i64, pow_scalar, (i64_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i64_t, i64, eq_scalar, x == const_val)
-- 
2.43.0


From f3f69edc2bafc91a4da4bc09ed07ca7e81a75fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 05/89] fix: dispatch rem, rem_scalar, leaky_relu, elu and
 prelu on the CPU instead of panicking

---
 crates/hodu_cpu_kernels/kernels/ops_unary.c   | 40 +++++++++++++++++++
 crates/hodu_cpu_kernels/kernels/ops_unary.h   | 20 ++++++++++
 .../src/kernels/ops_binary.rs                 |  1 +
 .../hodu_cpu_kernels/src/kernels/ops_unary.rs | 28 ++++++++++++-
 4 files changed, 87 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 02afe4f..1878232 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -1740,3 +1740,43 @@ IMPL_UNARY_CMP_SCALAR_TO_BOOL(i64_t, i64, lt_scalar, x < const_val)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i64_t, i64, le_scalar, x <= const_val)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i64_t, i64, gt_scalar, x > const_val)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i64_t, i64, ge_scalar, x >= const_val)
+
+// ============================================================================
+// PARAMETERISED ACTIVATIONS (FLOAT TYPES)
+// ============================================================================
+
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, leaky_relu, (x > 0.0f) ? x : const_val * x, f8e4m3_to_float,
+                               float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, elu, (x > 0.0f) ? x : const_val * expm1f(x), f8e4m3_to_float,
+                               float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, prelu, (x > 0.0f) ? x : const_val * x, f8e4m3_to_float,
+                               float_to_f8e4m3)
+
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, leaky_relu, (x > 0.0f) ? x : const_val * x, f8e5m2_to_float,
+                               float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, elu, (x > 0.0f) ? x : const_val * expm1f(x), f8e5m2_to_float,
+                               float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, prelu, (x > 0.0f) ? x : const_val * x, f8e5m2_to_float,
+                               float_to_f8e5m2)
+
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, leaky_relu, (x > 0.0f) ? x : const_val * x, bf16_to_float,
+                               float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, elu, (x > 0.0f) ? x : const_val * expm1f(x), bf16_to_float,
+                               float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, prelu, (x > 0.0f) ? x : const_val * x, bf16_to_float,
+                               float_to_bf16)
+
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, leaky_relu, (x > 0.0f) ? x : const_val * x, f16_to_float,
+                               float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, elu, (x > 0.0f) ? x : const_val * expm1f(x), f16_to_float,
+                               float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, prelu, (x > 0.0f) ? x : const_val * x, f16_to_float,
+                               float_to_f16)
+
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, leaky_relu, (x > 0.0f) ? x : const_val * x)
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, elu, (x > 0.0f) ? x : const_val * expm1f(x))
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, prelu, (x > 0.0f) ? x : const_val * x)
+
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, leaky_relu, (x > 0.0) ? x : const_val * x)
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, elu, (x > 0.0) ? x : const_val * expm1(x))
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, prelu, (x > 0.0) ? x : const_val * x)
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.h b/crates/hodu_cpu_kernels/kernels/ops_unary.h
index 7a300be..1978b2d 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.h
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.h
@@ -200,6 +200,20 @@ extern "C" {
     void hodu_cpu_minimum_scalar_##TYPE_SUFFIX(const void *input, void *output,                    \
                                                const size_t *metadata, const void *scalar);
 
+/**
+ * @brief Macro to declare activations with a scalar parameter (float types only)
+ *
+ * - leaky_relu, prelu: x if x > 0, else s * x
+ * - elu: x if x > 0, else s * (exp(x) - 1)
+ */
+#define DECLARE_UNARY_ACTIVATION_SCALAR(TYPE_SUFFIX)                                               \
+    void hodu_cpu_leaky_relu_##TYPE_SUFFIX(const void *input, void *output,                        \
+                                           const size_t *metadata, const void *scalar);            \
+    void hodu_cpu_elu_##TYPE_SUFFIX(const void *input, void *output, const size_t *metadata,       \
+                                    const void *scalar);                                           \
+    void hodu_cpu_prelu_##TYPE_SUFFIX(const void *input, void *output, const size_t *metadata,     \
+                                      const void *scalar);
+
 /**
  * @brief Macro to declare scalar comparison operations
  *
@@ -247,6 +261,7 @@ DECLARE_UNARY_LOGICAL(f8e4m3)
 DECLARE_UNARY_FLOAT_CHECK(f8e4m3)
 DECLARE_UNARY_WITH_SCALAR(f8e4m3)
 DECLARE_UNARY_CMP_SCALAR(f8e4m3)
+DECLARE_UNARY_ACTIVATION_SCALAR(f8e4m3)
 
 DECLARE_UNARY_OP(f8e5m2)
 DECLARE_UNARY_ACTIVATION(f8e5m2)
@@ -256,6 +271,7 @@ DECLARE_UNARY_LOGICAL(f8e5m2)
 DECLARE_UNARY_FLOAT_CHECK(f8e5m2)
 DECLARE_UNARY_WITH_SCALAR(f8e5m2)
 DECLARE_UNARY_CMP_SCALAR(f8e5m2)
+DECLARE_UNARY_ACTIVATION_SCALAR(f8e5m2)
 
 DECLARE_UNARY_OP(bf16)
 DECLARE_UNARY_ACTIVATION(bf16)
@@ -265,6 +281,7 @@ DECLARE_UNARY_LOGICAL(bf16)
 DECLARE_UNARY_FLOAT_CHECK(bf16)
 DECLARE_UNARY_WITH_SCALAR(bf16)
 DECLARE_UNARY_CMP_SCALAR(bf16)
+DECLARE_UNARY_ACTIVATION_SCALAR(bf16)
 
 DECLARE_UNARY_OP(f16)
 DECLARE_UNARY_ACTIVATION(f16)
@@ -274,6 +291,7 @@ DECLARE_UNARY_LOGICAL(f16)
 DECLARE_UNARY_FLOAT_CHECK(f16)
 DECLARE_UNARY_WITH_SCALAR(f16)
 DECLARE_UNARY_CMP_SCALAR(f16)
+DECLARE_UNARY_ACTIVATION_SCALAR(f16)
 
 DECLARE_UNARY_OP(f32)
 DECLARE_UNARY_ACTIVATION(f32)
@@ -283,6 +301,7 @@ DECLARE_UNARY_LOGICAL(f32)
 DECLARE_UNARY_FLOAT_CHECK(f32)
 DECLARE_UNARY_WITH_SCALAR(f32)
 DECLARE_UNARY_CMP_SCALAR(f32)
+DECLARE_UNARY_ACTIVATION_SCALAR(f32)
 
 DECLARE_UNARY_OP(f64)
 DECLARE_UNARY_ACTIVATION(f64)
@@ -292,6 +311,7 @@ DECLARE_UNARY_LOGICAL(f64)
 DECLARE_UNARY_FLOAT_CHECK(f64)
 DECLARE_UNARY_WITH_SCALAR(f64)
 DECLARE_UNARY_CMP_SCALAR(f64)
+DECLARE_UNARY_ACTIVATION_SCALAR(f64)
 
 // Integer types (u8, u16, u32, u64, i8, i16, i32, i64)
 DECLARE_UNARY_OP(u8)
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
index e2d8232..68f90f7 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
@@ -176,6 +176,7 @@ declare_and_dispatch_binary!(
     sub,
     mul,
     div,
+    rem,
     pow,
     maximum,
     minimum,
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
index 0e43d10..93c9d61 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
@@ -144,7 +144,8 @@ macro_rules! declare_and_dispatch_unary {
         all_types: [$($all_op:ident),* $(,)?],
         signed_types: [$($signed_op:ident),* $(,)?],
         float_types: [$($float_op:ident),* $(,)?],
-        scalar_ops: [$($scalar_op:ident),* $(,)?]
+        scalar_ops: [$($scalar_op:ident),* $(,)?],
+        float_scalar_ops: [$($float_scalar_op:ident),* $(,)?]
     ) => {
         paste::paste! {
             // Extern C declarations
@@ -211,6 +212,16 @@ macro_rules! declare_and_dispatch_unary {
                     fn [<hodu_cpu_ $scalar_op _i32>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
                     fn [<hodu_cpu_ $scalar_op _i64>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
                 )*
+
+                // Scalar operations supporting only float types
+                $(
+                    fn [<hodu_cpu_ $float_scalar_op _f8e4m3>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f8e5m2>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _bf16>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f16>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f32>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f64>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                )*
             }
 
             // Dispatch function
@@ -296,6 +307,16 @@ macro_rules! declare_and_dispatch_unary {
                         concat!("hodu_cpu_", stringify!($scalar_op), "_i32") => [<hodu_cpu_ $scalar_op _i32>](input, output, metadata, scalar),
                         concat!("hodu_cpu_", stringify!($scalar_op), "_i64") => [<hodu_cpu_ $scalar_op _i64>](input, output, metadata, scalar),
                     )*
+
+                    // Float-only scalar operations
+                    $(
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f8e4m3") => [<hodu_cpu_ $float_scalar_op _f8e4m3>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f8e5m2") => [<hodu_cpu_ $float_scalar_op _f8e5m2>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_bf16") => [<hodu_cpu_ $float_scalar_op _bf16>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f16") => [<hodu_cpu_ $float_scalar_op _f16>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f32") => [<hodu_cpu_ $float_scalar_op _f32>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f64") => [<hodu_cpu_ $float_scalar_op _f64>](input, output, metadata, scalar),
+                    )*
                     _ => panic!("Unsupported unary scalar kernel: {}", name),
                 }
             }
@@ -321,8 +342,11 @@ declare_and_dispatch_unary!(
         isnan, isinf, isfinite
     ],
     scalar_ops: [
-        add_scalar, sub_scalar, mul_scalar, div_scalar, pow_scalar,
+        add_scalar, sub_scalar, mul_scalar, div_scalar, rem_scalar, pow_scalar,
         maximum_scalar, minimum_scalar,
         eq_scalar, ne_scalar, lt_scalar, le_scalar, gt_scalar, ge_scalar
+    ],
+    float_scalar_ops: [
+        leaky_relu, elu, prelu
     ]
 );
-- 
2.43.0


From 1e3e382afb021285c6abb4e9e840a3298f17898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 06/89] fix: concat reads the elements of each input view, not
 the start of its buffer

---
 .../src/be_cpu/storage/ops_concat_split.rs          | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
index 029394d..935c384 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
@@ -94,8 +94,17 @@ pub fn call_ops_concat(
     output_shape_vec[dim] = layouts.iter().map(|l| l.shape().dims()[dim]).sum();
     let output_shape = Shape::new(&output_shape_vec);
 
+    // The kernel reads the inputs from one packed buffer: gather the elements of every view first
+    let packed: Vec<CpuStorage> = storages
+        .iter()
+        .zip(layouts)
+        .map(|(storage, layout)| storage.contiguous(layout))
+        .collect::<HoduResult<_>>()?;
+    let packed_layouts: Vec<Layout> = layouts.iter().map(|l| Layout::from_shape(l.shape())).collect();
+    let packed_layout_refs: Vec<&Layout> = packed_layouts.iter().collect();
+
     // Generate metadata using centralized function
-    let metadata = crate::op_metadatas::concat_metadata(layouts, dim, &output_shape_vec);
+    let metadata = crate::op_metadatas::concat_metadata(&packed_layout_refs, dim, &output_shape_vec);
 
     // Generate kernel name
     let kernel_name = format!("hodu_cpu_concat_{}", dtype);
@@ -110,7 +119,7 @@ pub fn call_ops_concat(
         ($variant:ident, $inner_type:ty) => {{
             // Extract all data vectors
             let mut input_vecs = Vec::with_capacity(num_inputs);
-            for storage in &storages {
+            for storage in &packed {
                 match storage {
                     CpuStorage::$variant(data) => input_vecs.push(data.as_slice()),
                     _ => {
-- 
2.43.0


From 9b1c3fb56cfdd9143aed9f9562e6446750524b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 07/89] fix: where3 selects without arithmetic,
 masked_fill/clamp/embedding use the right branch

---
 crates/hodu_core/src/tensor/ops/selection.rs | 23 ++++++++++----------
 crates/hodu_nn/src/modules/embedding.rs      |  2 +-
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/selection.rs b/crates/hodu_core/src/tensor/ops/selection.rs
index df9ba35..ff35d85 100644
--- a/crates/hodu_core/src/tensor/ops/selection.rs
+++ b/crates/hodu_core/src/tensor/ops/selection.rs
@@ -2,25 +2,24 @@ use crate::{
     error::HoduResult,
     scalar::Scalar,
     tensor::{utils::broadcast_tensors3, Tensor},
+    types::DType,
 };
 
 impl Tensor {
     pub fn where3(&self, condition: &Tensor, other: &Tensor) -> HoduResult<Self> {
         let (condition, x, y) = broadcast_tensors3(condition, self, other)?;
 
-        let mask = condition.to_dtype(x.dtype())?;
-        let one = Self::ones_like(&mask)?;
-        let inv_mask = one.sub(&mask)?;
-
-        let x_part = mask.mul(&x)?;
-        let y_part = inv_mask.mul(&y)?;
-        x_part.add(&y_part)
+        // Select by index: an arithmetic blend would let NaN and infinities of the element that is
+        // not selected leak into the result
+        let index = condition.to_dtype(DType::BOOL)?.to_dtype(DType::I32)?.unsqueeze(0)?;
+        let choices = Self::stack(&[&y, &x], 0)?;
+        choices.gather(0, &index)?.squeeze(&[0])
     }
 
     pub fn masked_fill<T: Into<Scalar>>(&self, mask: &Tensor, value: T) -> HoduResult<Self> {
         let value_scalar = value.into();
         let fill_tensor = Self::full_like(self, value_scalar)?;
-        self.where3(mask, &fill_tensor)
+        fill_tensor.where3(mask, self)
     }
 
     pub fn clamp<T: Into<Scalar>>(&self, min: T, max: T) -> HoduResult<Self> {
@@ -28,21 +27,21 @@ impl Tensor {
         let max_scalar = max.into();
 
         let min_tensor = Self::full_like(self, min_scalar)?;
-        let clamped_min = self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)?;
+        let clamped_min = min_tensor.where3(&self.lt_scalar(min_scalar)?, self)?;
 
         let max_tensor = Self::full_like(&clamped_min, max_scalar)?;
-        clamped_min.where3(&clamped_min.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&clamped_min.gt_scalar(max_scalar)?, &clamped_min)
     }
 
     pub fn clamp_min<T: Into<Scalar>>(&self, min: T) -> HoduResult<Self> {
         let min_scalar = min.into();
         let min_tensor = Self::full_like(self, min_scalar)?;
-        self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)
+        min_tensor.where3(&self.lt_scalar(min_scalar)?, self)
     }
 
     pub fn clamp_max<T: Into<Scalar>>(&self, max: T) -> HoduResult<Self> {
         let max_scalar = max.into();
         let max_tensor = Self::full_like(self, max_scalar)?;
-        self.where3(&self.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&self.gt_scalar(max_scalar)?, self)
     }
 }
diff --git a/crates/hodu_nn/src/modules/embedding.rs b/crates/hodu_nn/src/modules/embedding.rs
index 8ccdc28..4e8e6fb 100644
--- a/crates/hodu_nn/src/modules/embedding.rs
+++ b/crates/hodu_nn/src/modules/embedding.rs
@@ -165,7 +165,7 @@ impl Embedding {
         let zero = Tensor::zeros(mask.shape(), embeddings.dtype())?;
 
         // Convert bool mask to float: where(mask, 0.0, 1.0)
-        let float_mask = mask.where3(&zero, &one)?;
+        let float_mask = zero.where3(&mask, &one)?;
 
         // Apply mask
         embeddings.mul(&float_mask)
-- 
2.43.0


From 6af456329e3edaa974d98fc2eb52e14e732778ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 08/89] fix: read 0-d views at their offset

---
 crates/hodu_cpu_kernels/kernels/ops_cast.c    |  2 +-
 crates/hodu_cpu_kernels/kernels/ops_memory.c  |  2 +-
 crates/hodu_cpu_kernels/kernels/ops_unary.c   | 40 +++++++++----------
 .../ops_unary_blas_aarch64_apple_darwin.c     |  4 +-
 .../kernels/ops_unary_openblas.c              |  4 +-
 crates/hodu_cpu_kernels/kernels/storage.c     |  2 +-
 6 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_cast.c b/crates/hodu_cpu_kernels/kernels/ops_cast.c
index b09dcec..8bd98a8 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_cast.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_cast.c
@@ -59,7 +59,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_memory.c b/crates/hodu_cpu_kernels/kernels/ops_memory.c
index 529b53d..3c067fb 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_memory.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_memory.c
@@ -42,7 +42,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 1878232..5bfb36d 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -70,7 +70,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -169,7 +169,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -241,7 +241,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -282,7 +282,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -324,7 +324,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -360,7 +360,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -395,7 +395,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -424,7 +424,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -454,7 +454,7 @@ void hodu_cpu_neg_f32(const void *input, void *output, const size_t *metadata) {
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -502,7 +502,7 @@ void hodu_cpu_abs_f32(const void *input, void *output, const size_t *metadata) {
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -553,7 +553,7 @@ void hodu_cpu_square_f32(const void *input, void *output, const size_t *metadata
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -602,7 +602,7 @@ void hodu_cpu_sqrt_f32(const void *input, void *output, const size_t *metadata)
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -653,7 +653,7 @@ void hodu_cpu_relu_f32(const void *input, void *output, const size_t *metadata)
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -758,7 +758,7 @@ void hodu_cpu_mul_scalar_f32_fallback(const void *input, void *output, const siz
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -817,7 +817,7 @@ void hodu_cpu_neg_f64(const void *input, void *output, const size_t *metadata) {
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -867,7 +867,7 @@ void hodu_cpu_abs_f64(const void *input, void *output, const size_t *metadata) {
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -920,7 +920,7 @@ void hodu_cpu_square_f64(const void *input, void *output, const size_t *metadata
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -972,7 +972,7 @@ void hodu_cpu_sqrt_f64(const void *input, void *output, const size_t *metadata)
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -1024,7 +1024,7 @@ void hodu_cpu_relu_f64(const void *input, void *output, const size_t *metadata)
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -1124,7 +1124,7 @@ void hodu_cpu_mul_scalar_f64_fallback(const void *input, void *output, const siz
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
index 34a88f0..54e5057 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
@@ -20,7 +20,7 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -53,7 +53,7 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
index 7138eab..2b034bc 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
@@ -20,7 +20,7 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -53,7 +53,7 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/storage.c b/crates/hodu_cpu_kernels/kernels/storage.c
index 75d860d..fa0da43 100644
--- a/crates/hodu_cpu_kernels/kernels/storage.c
+++ b/crates/hodu_cpu_kernels/kernels/storage.c
@@ -41,7 +41,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
-- 
2.43.0


From e7bcd556846535b71b6fb51d31ca14879ee179f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 09/89] fix: mul_scalar by zero keeps NaN (BLAS scal clears
 instead of multiplying)

---
 crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
index 2b034bc..74baa73 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
@@ -29,7 +29,8 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
         // In-place operation
         cblas_sscal(num_els, const_val, out, 1);
         return;
-    } else if (contiguous && in != NULL && offset == 0) {
+    } else if (contiguous && in != NULL && offset == 0 && const_val != 0) {
+        // (BLAS treats a zero factor as "clear", which would lose NaN and infinities)
         // Copy input to output, then scale in-place
         if (in != out) {
             cblas_scopy(num_els, in, 1, out, 1);
@@ -62,7 +63,8 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
         // In-place operation
         cblas_dscal(num_els, const_val, out, 1);
         return;
-    } else if (contiguous && in != NULL && offset == 0) {
+    } else if (contiguous && in != NULL && offset == 0 && const_val != 0) {
+        // (BLAS treats a zero factor as "clear", which would lose NaN and infinities)
         // Copy input to output, then scale in-place
         if (in != out) {
             cblas_dcopy(num_els, in, 1, out, 1);
-- 
2.43.0


From 9d740bf36e307096b8567d4fc5dd1ac066d882ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 10/89] fix: reduction kernels: two-pass variance, logsumexp of
 +inf, any/all of -0, f64 argmax/argmin/any/all

---
 crates/hodu_cpu_kernels/kernels/ops_reduce.c  | 436 ++++++++++--------
 .../src/kernels/ops_reduce.rs                 |   4 +
 2 files changed, 250 insertions(+), 190 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_reduce.c b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
index 1354989..7609c27 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_reduce.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
@@ -819,8 +819,8 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
 // STANDARD DEVIATION REDUCTION
 // ============================================================================
 //
-// Computes population standard deviation: sqrt(E[X²] - E[X]²)
-// Two-pass algorithm: accumulate sum and sum of squares, then compute std.
+// Computes population standard deviation: sqrt(E[(X - E[X])²])
+// Two-pass algorithm: accumulate the mean, then the squared deviations from it.
 //
 // Metadata layout: Same as generic reduction operations
 
@@ -888,26 +888,34 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {               \
-                size_t temp_reduced = reduced_idx;                                                 \
-                for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                              \
-                    size_t dim = reduce_dims[i];                                                   \
-                    input_indices[dim] = temp_reduced % dims[dim];                                 \
-                    temp_reduced /= dims[dim];                                                     \
-                }                                                                                  \
+            TYPE mean = 0;                                                                         \
+            for (int pass = 0; pass < 2; pass++) {                                                 \
+                for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {           \
+                    size_t temp_reduced = reduced_idx;                                             \
+                    for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                          \
+                        size_t dim = reduce_dims[i];                                               \
+                        input_indices[dim] = temp_reduced % dims[dim];                             \
+                        temp_reduced /= dims[dim];                                                 \
+                    }                                                                              \
                                                                                                    \
-                size_t flat_index = offset;                                                        \
-                for (size_t i = 0; i < num_dims; i++) {                                            \
-                    flat_index += input_indices[i] * strides[i];                                   \
-                }                                                                                  \
+                    size_t flat_index = offset;                                                    \
+                    for (size_t i = 0; i < num_dims; i++) {                                        \
+                        flat_index += input_indices[i] * strides[i];                               \
+                    }                                                                              \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
-                sum += val;                                                                        \
-                sum_squares += val * val;                                                          \
+                    TYPE val = input[flat_index];                                                  \
+                    if (pass == 0) {                                                               \
+                        sum += val;                                                                \
+                    } else {                                                                       \
+                        sum_squares += (val - mean) * (val - mean);                                \
+                    }                                                                              \
+                }                                                                                  \
+                if (pass == 0) {                                                                   \
+                    mean = sum / (TYPE)reduce_size;                                                \
+                }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            TYPE mean = sum / (TYPE)reduce_size;                                                   \
-            TYPE variance = (sum_squares / (TYPE)reduce_size) - (mean * mean);                     \
+            TYPE variance = sum_squares / (TYPE)reduce_size;                                       \
             output[output_idx] = sqrt(variance);                                                   \
         }                                                                                          \
     }
@@ -982,28 +990,37 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {               \
-                size_t temp_reduced = reduced_idx;                                                 \
-                for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                              \
-                    size_t dim = reduce_dims[i];                                                   \
-                    input_indices[dim] = temp_reduced % dims[dim];                                 \
-                    temp_reduced /= dims[dim];                                                     \
-                }                                                                                  \
+            float reduce_size_f = (float)reduce_size;                                              \
+            TYPE reduce_size_typed = float_to_##TYPE_SUFFIX(reduce_size_f);                        \
+            TYPE mean = ZERO;                                                                      \
+            for (int pass = 0; pass < 2; pass++) {                                                 \
+                for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {           \
+                    size_t temp_reduced = reduced_idx;                                             \
+                    for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                          \
+                        size_t dim = reduce_dims[i];                                               \
+                        input_indices[dim] = temp_reduced % dims[dim];                             \
+                        temp_reduced /= dims[dim];                                                 \
+                    }                                                                              \
                                                                                                    \
-                size_t flat_index = offset;                                                        \
-                for (size_t i = 0; i < num_dims; i++) {                                            \
-                    flat_index += input_indices[i] * strides[i];                                   \
-                }                                                                                  \
+                    size_t flat_index = offset;                                                    \
+                    for (size_t i = 0; i < num_dims; i++) {                                        \
+                        flat_index += input_indices[i] * strides[i];                               \
+                    }                                                                              \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
-                sum = ADD_FN(sum, val);                                                            \
-                sum_squares = ADD_FN(sum_squares, MUL_FN(val, val));                               \
+                    TYPE val = input[flat_index];                                                  \
+                    if (pass == 0) {                                                               \
+                        sum = ADD_FN(sum, val);                                                    \
+                    } else {                                                                       \
+                        TYPE dev = SUB_FN(val, mean);                                              \
+                        sum_squares = ADD_FN(sum_squares, MUL_FN(dev, dev));                       \
+                    }                                                                              \
+                }                                                                                  \
+                if (pass == 0) {                                                                   \
+                    mean = DIV_FN(sum, reduce_size_typed);                                         \
+                }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            float reduce_size_f = (float)reduce_size;                                              \
-            TYPE reduce_size_typed = float_to_##TYPE_SUFFIX(reduce_size_f);                        \
-            TYPE mean = DIV_FN(sum, reduce_size_typed);                                            \
-            TYPE variance = SUB_FN(DIV_FN(sum_squares, reduce_size_typed), MUL_FN(mean, mean));    \
+            TYPE variance = DIV_FN(sum_squares, reduce_size_typed);                                \
             output[output_idx] = SQRT_FN(variance);                                                \
         }                                                                                          \
     }
@@ -1021,7 +1038,7 @@ REDUCE_STD_OP(f64_t, f64)
 // VARIANCE REDUCTION
 // ============================================================================
 //
-// Computes population variance: E[X²] - E[X]²
+// Computes population variance: E[(X - E[X])²]
 // Same as std but without the sqrt.
 //
 // Metadata layout: Same as generic reduction operations
@@ -1090,26 +1107,34 @@ REDUCE_STD_OP(f64_t, f64)
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {               \
-                size_t temp_reduced = reduced_idx;                                                 \
-                for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                              \
-                    size_t dim = reduce_dims[i];                                                   \
-                    input_indices[dim] = temp_reduced % dims[dim];                                 \
-                    temp_reduced /= dims[dim];                                                     \
-                }                                                                                  \
+            TYPE mean = 0;                                                                         \
+            for (int pass = 0; pass < 2; pass++) {                                                 \
+                for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {           \
+                    size_t temp_reduced = reduced_idx;                                             \
+                    for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                          \
+                        size_t dim = reduce_dims[i];                                               \
+                        input_indices[dim] = temp_reduced % dims[dim];                             \
+                        temp_reduced /= dims[dim];                                                 \
+                    }                                                                              \
                                                                                                    \
-                size_t flat_index = offset;                                                        \
-                for (size_t i = 0; i < num_dims; i++) {                                            \
-                    flat_index += input_indices[i] * strides[i];                                   \
-                }                                                                                  \
+                    size_t flat_index = offset;                                                    \
+                    for (size_t i = 0; i < num_dims; i++) {                                        \
+                        flat_index += input_indices[i] * strides[i];                               \
+                    }                                                                              \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
-                sum += val;                                                                        \
-                sum_squares += val * val;                                                          \
+                    TYPE val = input[flat_index];                                                  \
+                    if (pass == 0) {                                                               \
+                        sum += val;                                                                \
+                    } else {                                                                       \
+                        sum_squares += (val - mean) * (val - mean);                                \
+                    }                                                                              \
+                }                                                                                  \
+                if (pass == 0) {                                                                   \
+                    mean = sum / (TYPE)reduce_size;                                                \
+                }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            TYPE mean = sum / (TYPE)reduce_size;                                                   \
-            output[output_idx] = (sum_squares / (TYPE)reduce_size) - (mean * mean);                \
+            output[output_idx] = sum_squares / (TYPE)reduce_size;                                  \
         }                                                                                          \
     }
 
@@ -1182,29 +1207,38 @@ REDUCE_STD_OP(f64_t, f64)
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {               \
-                size_t temp_reduced = reduced_idx;                                                 \
-                for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                              \
-                    size_t dim = reduce_dims[i];                                                   \
-                    input_indices[dim] = temp_reduced % dims[dim];                                 \
-                    temp_reduced /= dims[dim];                                                     \
-                }                                                                                  \
+            float reduce_size_f = (float)reduce_size;                                              \
+            TYPE reduce_size_typed = float_to_##TYPE_SUFFIX(reduce_size_f);                        \
+            TYPE mean = ZERO;                                                                      \
+            for (int pass = 0; pass < 2; pass++) {                                                 \
+                for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {           \
+                    size_t temp_reduced = reduced_idx;                                             \
+                    for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                          \
+                        size_t dim = reduce_dims[i];                                               \
+                        input_indices[dim] = temp_reduced % dims[dim];                             \
+                        temp_reduced /= dims[dim];                                                 \
+                    }                                                                              \
                                                                                                    \
-                size_t flat_index = offset;                                                        \
-                for (size_t i = 0; i < num_dims; i++) {                                            \
-                    flat_index += input_indices[i] * strides[i];                                   \
-                }                                                                                  \
+                    size_t flat_index = offset;                                                    \
+                    for (size_t i = 0; i < num_dims; i++) {                                        \
+                        flat_index += input_indices[i] * strides[i];                               \
+                    }                                                                              \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
-                sum = ADD_FN(sum, val);                                                            \
-                sum_squares = ADD_FN(sum_squares, MUL_FN(val, val));                               \
+                    TYPE val = input[flat_index];                                                  \
+                    if (pass == 0) {                                                               \
+                        sum = ADD_FN(sum, val);                                                    \
+                    } else {                                                                       \
+                        TYPE dev = SUB_FN(val, mean);                                              \
+                        sum_squares = ADD_FN(sum_squares, MUL_FN(dev, dev));                       \
+                    }                                                                              \
+                }                                                                                  \
+                if (pass == 0) {                                                                   \
+                    mean = DIV_FN(sum, reduce_size_typed);                                         \
+                }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            float reduce_size_f = (float)reduce_size;                                              \
-            TYPE reduce_size_typed = float_to_##TYPE_SUFFIX(reduce_size_f);                        \
-            TYPE mean = DIV_FN(sum, reduce_size_typed);                                            \
             output[output_idx] =                                                                   \
-                SUB_FN(DIV_FN(sum_squares, reduce_size_typed), MUL_FN(mean, mean));                \
+                DIV_FN(sum_squares, reduce_size_typed);                                            \
         }                                                                                          \
     }
 
@@ -1213,7 +1247,7 @@ REDUCE_VAR_OP_EXOTIC(f8e5m2_t, f8e5m2, F8E5M2_ZERO, f8e5m2_add, f8e5m2_mul, f8e5
 REDUCE_VAR_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, bf16_add, bf16_mul, bf16_div, bf16_sub)
 REDUCE_VAR_OP_EXOTIC(f16_t, f16, F16_ZERO, f16_add, f16_mul, f16_div, f16_sub)
 
-// SIMD-optimized var_f32 (variance: E[X^2] - E[X]^2)
+// SIMD-optimized var_f32 (variance: E[(X - E[X])^2])
 void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *metadata) {
     const f32_t *input = (const f32_t *)input_ptr;
     f32_t *output = (f32_t *)output_ptr;
@@ -1271,61 +1305,70 @@ void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *met
             }
         }
 
+        // Two passes: the deviations from the mean of the first pass are squared in the second
+        f32_t mean = 0.0f;
+        for (int pass = 0; pass < 2; pass++) {
+            sum = 0.0f;
+            sum_squares = 0.0f;
 #if SIMD_F32_WIDTH > 1
-        bool use_simd = (num_reduce_dims == 1) && (reduce_dims[0] == num_dims - 1) &&
-                        (strides[num_dims - 1] == 1) && (reduce_size >= SIMD_F32_WIDTH);
+            bool use_simd = (num_reduce_dims == 1) && (reduce_dims[0] == num_dims - 1) &&
+                            (strides[num_dims - 1] == 1) && (reduce_size >= SIMD_F32_WIDTH);
 
-        if (use_simd) {
-            size_t flat_base = offset;
-            for (size_t i = 0; i < num_dims - 1; i++) {
-                flat_base += input_indices[i] * strides[i];
-            }
-
-            simd_f32_t vsum = simd_f32_set1(0.0f);
-            simd_f32_t vsum_sq = simd_f32_set1(0.0f);
-            const size_t simd_end = (reduce_size / SIMD_F32_WIDTH) * SIMD_F32_WIDTH;
+            if (use_simd) {
+                size_t flat_base = offset;
+                for (size_t i = 0; i < num_dims - 1; i++) {
+                    flat_base += input_indices[i] * strides[i];
+                }
 
-            for (size_t i = 0; i < simd_end; i += SIMD_F32_WIDTH) {
-                simd_f32_t v = simd_f32_load(&input[flat_base + i]);
-                vsum = simd_f32_add(vsum, v);
-                vsum_sq = simd_f32_fmadd(v, v, vsum_sq); // v*v + vsum_sq
-            }
-            sum = simd_f32_reduce_add(vsum);
-            sum_squares = simd_f32_reduce_add(vsum_sq);
+                const simd_f32_t vmean = simd_f32_set1(mean);
+                simd_f32_t vsum = simd_f32_set1(0.0f);
+                simd_f32_t vsum_sq = simd_f32_set1(0.0f);
+                const size_t simd_end = (reduce_size / SIMD_F32_WIDTH) * SIMD_F32_WIDTH;
 
-            for (size_t i = simd_end; i < reduce_size; i++) {
-                f32_t val = input[flat_base + i];
-                sum += val;
-                sum_squares += val * val;
-            }
-        } else
-#endif
-        {
-            for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {
-                size_t temp_reduced = reduced_idx;
-                for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {
-                    size_t dim = reduce_dims[i];
-                    input_indices[dim] = temp_reduced % dims[dim];
-                    temp_reduced /= dims[dim];
+                for (size_t i = 0; i < simd_end; i += SIMD_F32_WIDTH) {
+                    simd_f32_t v = simd_f32_sub(simd_f32_load(&input[flat_base + i]), vmean);
+                    vsum = simd_f32_add(vsum, v);
+                    vsum_sq = simd_f32_fmadd(v, v, vsum_sq); // v*v + vsum_sq
                 }
+                sum = simd_f32_reduce_add(vsum);
+                sum_squares = simd_f32_reduce_add(vsum_sq);
 
-                size_t flat_index = offset;
-                for (size_t i = 0; i < num_dims; i++) {
-                    flat_index += input_indices[i] * strides[i];
+                for (size_t i = simd_end; i < reduce_size; i++) {
+                    f32_t val = input[flat_base + i] - mean;
+                    sum += val;
+                    sum_squares += val * val;
                 }
+            } else
+#endif
+            {
+                for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {
+                    size_t temp_reduced = reduced_idx;
+                    for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {
+                        size_t dim = reduce_dims[i];
+                        input_indices[dim] = temp_reduced % dims[dim];
+                        temp_reduced /= dims[dim];
+                    }
 
-                f32_t val = input[flat_index];
-                sum += val;
-                sum_squares += val * val;
+                    size_t flat_index = offset;
+                    for (size_t i = 0; i < num_dims; i++) {
+                        flat_index += input_indices[i] * strides[i];
+                    }
+
+                    f32_t val = input[flat_index] - mean;
+                    sum += val;
+                    sum_squares += val * val;
+                }
+            }
+            if (pass == 0) {
+                mean = sum / (f32_t)reduce_size;
             }
         }
 
-        f32_t mean = sum / (f32_t)reduce_size;
-        output[output_idx] = (sum_squares / (f32_t)reduce_size) - (mean * mean);
+        output[output_idx] = sum_squares / (f32_t)reduce_size;
     }
 }
 
-// SIMD-optimized var_f64 (variance: E[X^2] - E[X]^2)
+// SIMD-optimized var_f64 (variance: E[(X - E[X])^2])
 void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *metadata) {
     const f64_t *input = (const f64_t *)input_ptr;
     f64_t *output = (f64_t *)output_ptr;
@@ -1383,57 +1426,66 @@ void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *met
             }
         }
 
+        // Two passes: the deviations from the mean of the first pass are squared in the second
+        f64_t mean = 0.0;
+        for (int pass = 0; pass < 2; pass++) {
+            sum = 0.0;
+            sum_squares = 0.0;
 #if SIMD_F64_WIDTH > 1
-        bool use_simd = (num_reduce_dims == 1) && (reduce_dims[0] == num_dims - 1) &&
-                        (strides[num_dims - 1] == 1) && (reduce_size >= SIMD_F64_WIDTH);
+            bool use_simd = (num_reduce_dims == 1) && (reduce_dims[0] == num_dims - 1) &&
+                            (strides[num_dims - 1] == 1) && (reduce_size >= SIMD_F64_WIDTH);
 
-        if (use_simd) {
-            size_t flat_base = offset;
-            for (size_t i = 0; i < num_dims - 1; i++) {
-                flat_base += input_indices[i] * strides[i];
-            }
+            if (use_simd) {
+                size_t flat_base = offset;
+                for (size_t i = 0; i < num_dims - 1; i++) {
+                    flat_base += input_indices[i] * strides[i];
+                }
 
-            simd_f64_t vsum = simd_f64_set1(0.0);
-            simd_f64_t vsum_sq = simd_f64_set1(0.0);
-            const size_t simd_end = (reduce_size / SIMD_F64_WIDTH) * SIMD_F64_WIDTH;
+                const simd_f64_t vmean = simd_f64_set1(mean);
+                simd_f64_t vsum = simd_f64_set1(0.0);
+                simd_f64_t vsum_sq = simd_f64_set1(0.0);
+                const size_t simd_end = (reduce_size / SIMD_F64_WIDTH) * SIMD_F64_WIDTH;
 
-            for (size_t i = 0; i < simd_end; i += SIMD_F64_WIDTH) {
-                simd_f64_t v = simd_f64_load(&input[flat_base + i]);
-                vsum = simd_f64_add(vsum, v);
-                vsum_sq = simd_f64_fmadd(v, v, vsum_sq); // v*v + vsum_sq
-            }
-            sum = simd_f64_reduce_add(vsum);
-            sum_squares = simd_f64_reduce_add(vsum_sq);
-
-            for (size_t i = simd_end; i < reduce_size; i++) {
-                f64_t val = input[flat_base + i];
-                sum += val;
-                sum_squares += val * val;
-            }
-        } else
-#endif
-        {
-            for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {
-                size_t temp_reduced = reduced_idx;
-                for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {
-                    size_t dim = reduce_dims[i];
-                    input_indices[dim] = temp_reduced % dims[dim];
-                    temp_reduced /= dims[dim];
+                for (size_t i = 0; i < simd_end; i += SIMD_F64_WIDTH) {
+                    simd_f64_t v = simd_f64_sub(simd_f64_load(&input[flat_base + i]), vmean);
+                    vsum = simd_f64_add(vsum, v);
+                    vsum_sq = simd_f64_fmadd(v, v, vsum_sq); // v*v + vsum_sq
                 }
+                sum = simd_f64_reduce_add(vsum);
+                sum_squares = simd_f64_reduce_add(vsum_sq);
 
-                size_t flat_index = offset;
-                for (size_t i = 0; i < num_dims; i++) {
-                    flat_index += input_indices[i] * strides[i];
+                for (size_t i = simd_end; i < reduce_size; i++) {
+                    f64_t val = input[flat_base + i] - mean;
+                    sum += val;
+                    sum_squares += val * val;
                 }
+            } else
+#endif
+            {
+                for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {
+                    size_t temp_reduced = reduced_idx;
+                    for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {
+                        size_t dim = reduce_dims[i];
+                        input_indices[dim] = temp_reduced % dims[dim];
+                        temp_reduced /= dims[dim];
+                    }
 
-                f64_t val = input[flat_index];
-                sum += val;
-                sum_squares += val * val;
+                    size_t flat_index = offset;
+                    for (size_t i = 0; i < num_dims; i++) {
+                        flat_index += input_indices[i] * strides[i];
+                    }
+
+                    f64_t val = input[flat_index] - mean;
+                    sum += val;
+                    sum_squares += val * val;
+                }
+            }
+            if (pass == 0) {
+                mean = sum / (f64_t)reduce_size;
             }
         }
 
-        f64_t mean = sum / (f64_t)reduce_size;
-        output[output_idx] = (sum_squares / (f64_t)reduce_size) - (mean * mean);
+        output[output_idx] = sum_squares / (f64_t)reduce_size;
     }
 }
 
@@ -2068,7 +2120,8 @@ REDUCE_LOGSUM_OP(f64_t, f64)
                 sum_exp += expf(val - max_val);                                                    \
             }                                                                                      \
                                                                                                    \
-            output[output_idx] = FROM_FLOAT_FN(max_val + logf(sum_exp));                           \
+            output[output_idx] =                                                                   \
+                FROM_FLOAT_FN(max_val == INFINITY ? max_val : max_val + logf(sum_exp));            \
         }                                                                                          \
     }
 
@@ -2171,7 +2224,7 @@ REDUCE_LOGSUM_OP(f64_t, f64)
                 sum_exp += exp(val - max_val);                                                     \
             }                                                                                      \
                                                                                                    \
-            output[output_idx] = max_val + log(sum_exp);                                           \
+            output[output_idx] = max_val == INFINITY ? max_val : max_val + log(sum_exp);           \
         }                                                                                          \
     }
 
@@ -2611,13 +2664,16 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
 //
 // Metadata layout: Same as generic reduction operations
 
+// The small float formats are stored as raw bits: both zeros compare equal to zero.
 #define IS_NONZERO(val) ((val) != 0)
+#define IS_NONZERO_BITS8(val) (((val) & 0x7F) != 0)
+#define IS_NONZERO_BITS16(val) (((val) & 0x7FFF) != 0)
 
 /// Macro to implement any reduction (logical OR, returns bool)
 ///
 /// @param IN_TYPE Input C type
 /// @param TYPE_SUFFIX Suffix for function naming
-#define REDUCE_ANY_OP(IN_TYPE, TYPE_SUFFIX)                                                        \
+#define REDUCE_ANY_OP(IN_TYPE, TYPE_SUFFIX, NONZERO)                                               \
     void hodu_cpu_any_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
@@ -2689,7 +2745,7 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                if (IS_NONZERO(input[flat_index])) {                                               \
+                if (NONZERO(input[flat_index])) {                                                  \
                     result = true;                                                                 \
                     break;                                                                         \
                 }                                                                                  \
@@ -2712,7 +2768,7 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
 ///
 /// @param IN_TYPE Input C type
 /// @param TYPE_SUFFIX Suffix for function naming
-#define REDUCE_ALL_OP(IN_TYPE, TYPE_SUFFIX)                                                        \
+#define REDUCE_ALL_OP(IN_TYPE, TYPE_SUFFIX, NONZERO)                                               \
     void hodu_cpu_all_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
@@ -2784,7 +2840,7 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                if (!IS_NONZERO(input[flat_index])) {                                              \
+                if (!NONZERO(input[flat_index])) {                                                 \
                     result = false;                                                                \
                     break;                                                                         \
                 }                                                                                  \
@@ -2794,34 +2850,34 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
         }                                                                                          \
     }
 
-REDUCE_ANY_OP(bool, bool)
-REDUCE_ANY_OP(f8e4m3_t, f8e4m3)
-REDUCE_ANY_OP(f8e5m2_t, f8e5m2)
-REDUCE_ANY_OP(bf16_t, bf16)
-REDUCE_ANY_OP(f16_t, f16)
-REDUCE_ANY_OP(f32_t, f32)
-REDUCE_ANY_OP(f64_t, f64)
-REDUCE_ANY_OP(int8_t, i8)
-REDUCE_ANY_OP(int16_t, i16)
-REDUCE_ANY_OP(int32_t, i32)
-REDUCE_ANY_OP(int64_t, i64)
-REDUCE_ANY_OP(uint8_t, u8)
-REDUCE_ANY_OP(uint16_t, u16)
-REDUCE_ANY_OP(uint32_t, u32)
-REDUCE_ANY_OP(uint64_t, u64)
-
-REDUCE_ALL_OP(bool, bool)
-REDUCE_ALL_OP(f8e4m3_t, f8e4m3)
-REDUCE_ALL_OP(f8e5m2_t, f8e5m2)
-REDUCE_ALL_OP(bf16_t, bf16)
-REDUCE_ALL_OP(f16_t, f16)
-REDUCE_ALL_OP(f32_t, f32)
-REDUCE_ALL_OP(f64_t, f64)
-REDUCE_ALL_OP(int8_t, i8)
-REDUCE_ALL_OP(int16_t, i16)
-REDUCE_ALL_OP(int32_t, i32)
-REDUCE_ALL_OP(int64_t, i64)
-REDUCE_ALL_OP(uint8_t, u8)
-REDUCE_ALL_OP(uint16_t, u16)
-REDUCE_ALL_OP(uint32_t, u32)
-REDUCE_ALL_OP(uint64_t, u64)
+REDUCE_ANY_OP(bool, bool, IS_NONZERO)
+REDUCE_ANY_OP(f8e4m3_t, f8e4m3, IS_NONZERO_BITS8)
+REDUCE_ANY_OP(f8e5m2_t, f8e5m2, IS_NONZERO_BITS8)
+REDUCE_ANY_OP(bf16_t, bf16, IS_NONZERO_BITS16)
+REDUCE_ANY_OP(f16_t, f16, IS_NONZERO_BITS16)
+REDUCE_ANY_OP(f32_t, f32, IS_NONZERO)
+REDUCE_ANY_OP(f64_t, f64, IS_NONZERO)
+REDUCE_ANY_OP(int8_t, i8, IS_NONZERO)
+REDUCE_ANY_OP(int16_t, i16, IS_NONZERO)
+REDUCE_ANY_OP(int32_t, i32, IS_NONZERO)
+REDUCE_ANY_OP(int64_t, i64, IS_NONZERO)
+REDUCE_ANY_OP(uint8_t, u8, IS_NONZERO)
+REDUCE_ANY_OP(uint16_t, u16, IS_NONZERO)
+REDUCE_ANY_OP(uint32_t, u32, IS_NONZERO)
+REDUCE_ANY_OP(uint64_t, u64, IS_NONZERO)
+
+REDUCE_ALL_OP(bool, bool, IS_NONZERO)
+REDUCE_ALL_OP(f8e4m3_t, f8e4m3, IS_NONZERO_BITS8)
+REDUCE_ALL_OP(f8e5m2_t, f8e5m2, IS_NONZERO_BITS8)
+REDUCE_ALL_OP(bf16_t, bf16, IS_NONZERO_BITS16)
+REDUCE_ALL_OP(f16_t, f16, IS_NONZERO_BITS16)
+REDUCE_ALL_OP(f32_t, f32, IS_NONZERO)
+REDUCE_ALL_OP(f64_t, f64, IS_NONZERO)
+REDUCE_ALL_OP(int8_t, i8, IS_NONZERO)
+REDUCE_ALL_OP(int16_t, i16, IS_NONZERO)
+REDUCE_ALL_OP(int32_t, i32, IS_NONZERO)
+REDUCE_ALL_OP(int64_t, i64, IS_NONZERO)
+REDUCE_ALL_OP(uint8_t, u8, IS_NONZERO)
+REDUCE_ALL_OP(uint16_t, u16, IS_NONZERO)
+REDUCE_ALL_OP(uint32_t, u32, IS_NONZERO)
+REDUCE_ALL_OP(uint64_t, u64, IS_NONZERO)
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
index 47c8e89..aa7a1e3 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
@@ -327,6 +327,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmax_bf16"
             | "hodu_cpu_argmax_f16"
             | "hodu_cpu_argmax_f32"
+            | "hodu_cpu_argmax_f64"
             | "hodu_cpu_argmax_i8"
             | "hodu_cpu_argmax_i16"
             | "hodu_cpu_argmax_i32"
@@ -341,6 +342,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmin_bf16"
             | "hodu_cpu_argmin_f16"
             | "hodu_cpu_argmin_f32"
+            | "hodu_cpu_argmin_f64"
             | "hodu_cpu_argmin_i8"
             | "hodu_cpu_argmin_i16"
             | "hodu_cpu_argmin_i32"
@@ -355,6 +357,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_any_bf16"
             | "hodu_cpu_any_f16"
             | "hodu_cpu_any_f32"
+            | "hodu_cpu_any_f64"
             | "hodu_cpu_any_i8"
             | "hodu_cpu_any_i16"
             | "hodu_cpu_any_i32"
@@ -369,6 +372,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_all_bf16"
             | "hodu_cpu_all_f16"
             | "hodu_cpu_all_f32"
+            | "hodu_cpu_all_f64"
             | "hodu_cpu_all_i8"
             | "hodu_cpu_all_i16"
             | "hodu_cpu_all_i32"
-- 
2.43.0


From 22742c5987d468d5322669781f04bc58dafcfba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 11/89] fix: argmax/argmin produce I32 and any/all BOOL storage
 (the kernels wrote past 1-byte outputs)

---
 .../src/be_cpu/storage/ops_reduce.rs          | 53 +++++++++++++++++--
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
index 2989fdd..76e1c93 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
@@ -2,8 +2,8 @@ use crate::{
     be::{device::BackendDeviceT, storage::BackendStorageT},
     be_cpu::{device::CpuDevice, storage::CpuStorage},
     error::{HoduError, HoduResult},
-    ops::Op,
-    types::{Layout, Shape},
+    ops::{Op, ReduceOp},
+    types::{DType, Layout, Shape},
 };
 use core::ffi::c_void;
 
@@ -73,8 +73,12 @@ pub fn call_ops_reduce(
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage
-    let dtype = storage.dtype();
+    // Create output storage: arg reductions produce I32 indices, any/all produce BOOL
+    let dtype = match reduce_op {
+        ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
+        ReduceOp::Any | ReduceOp::All => DType::BOOL,
+        _ => storage.dtype(),
+    };
     let mut output = CpuDevice::allocate(output_shape.size(), dtype)?;
 
     // Get raw pointers and call kernel
@@ -87,6 +91,47 @@ pub fn call_ops_reduce(
         }};
     }
 
+    // Input variants whose output is always of another type (indices, flags)
+    macro_rules! call_fixed_output {
+        ($out:expr) => {
+            match storage {
+                CpuStorage::BOOL(input) => call_kernel!(input, $out),
+                CpuStorage::F8E4M3(input) => call_kernel!(input, $out),
+                #[cfg(feature = "f8e5m2")]
+                CpuStorage::F8E5M2(input) => call_kernel!(input, $out),
+                CpuStorage::BF16(input) => call_kernel!(input, $out),
+                CpuStorage::F16(input) => call_kernel!(input, $out),
+                CpuStorage::F32(input) => call_kernel!(input, $out),
+                #[cfg(feature = "f64")]
+                CpuStorage::F64(input) => call_kernel!(input, $out),
+                CpuStorage::U8(input) => call_kernel!(input, $out),
+                #[cfg(feature = "u16")]
+                CpuStorage::U16(input) => call_kernel!(input, $out),
+                CpuStorage::U32(input) => call_kernel!(input, $out),
+                #[cfg(feature = "u64")]
+                CpuStorage::U64(input) => call_kernel!(input, $out),
+                CpuStorage::I8(input) => call_kernel!(input, $out),
+                #[cfg(feature = "i16")]
+                CpuStorage::I16(input) => call_kernel!(input, $out),
+                CpuStorage::I32(input) => call_kernel!(input, $out),
+                #[cfg(feature = "i64")]
+                CpuStorage::I64(input) => call_kernel!(input, $out),
+            }
+        };
+    }
+
+    match (reduce_op, &mut output) {
+        (ReduceOp::ArgMax | ReduceOp::ArgMin, CpuStorage::I32(out)) => {
+            call_fixed_output!(out);
+            return Ok(output);
+        },
+        (ReduceOp::Any | ReduceOp::All, CpuStorage::BOOL(out)) => {
+            call_fixed_output!(out);
+            return Ok(output);
+        },
+        _ => {},
+    }
+
     match (storage, &mut output) {
         (CpuStorage::F8E4M3(input), CpuStorage::F8E4M3(out)) => call_kernel!(input, out),
         #[cfg(feature = "f8e5m2")]
-- 
2.43.0


From 8252f75a5d0565ec1a2ffb90842f2acb44f25008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 12/89] fix: out-of-range and repeated axes are errors, norm
 takes fractional p, chunk of short dims

---
 .../hodu_core/src/tensor/ops/concat_split.rs  | 32 ++++------
 crates/hodu_core/src/tensor/ops/indexing.rs   | 58 +++++--------------
 .../hodu_core/src/tensor/ops/normalization.rs | 18 ++----
 crates/hodu_core/src/tensor/ops/reduce.rs     | 39 ++++++-------
 crates/hodu_core/src/tensor/ops/scan.rs       |  7 +--
 .../hodu_core/src/tensor/ops/shape_memory.rs  |  7 +--
 crates/hodu_core/src/types/layout.rs          |  4 ++
 crates/hodu_core/src/utils/valid.rs           |  9 +++
 8 files changed, 68 insertions(+), 106 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/concat_split.rs b/crates/hodu_core/src/tensor/ops/concat_split.rs
index 7097337..701a3f2 100644
--- a/crates/hodu_core/src/tensor/ops/concat_split.rs
+++ b/crates/hodu_core/src/tensor/ops/concat_split.rs
@@ -5,7 +5,7 @@ use crate::{
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{Layout, Shape},
     utils::valid::{
-        validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
+        validate_axis, validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
         validate_same_dtype,
     },
 };
@@ -22,12 +22,8 @@ impl Tensor {
         let dim_i32 = dim_scalar.to_i32();
 
         let first = tensors[0];
-        let ndim = first.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let ndim = first.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(tensors, Op::Concat(ConcatOp::Concat))?;
@@ -131,12 +127,8 @@ impl Tensor {
     pub fn split<D: Into<Scalar>>(&self, sizes: &[usize], dim: D) -> HoduResult<Vec<Self>> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let ndim = self.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         // Validate dtype for device and operation
         validate_dtype_for_device(self.dtype(), self.device())?;
@@ -238,20 +230,20 @@ impl Tensor {
     pub fn chunk<D: Into<Scalar>>(&self, chunks: usize, dim: D) -> HoduResult<Vec<Self>> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let ndim = self.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
         let shape = self.shape();
         let shape_dims = shape.dims();
         let dim_size = shape_dims[dim_usize];
 
+        if chunks == 0 {
+            return Err(HoduError::InvalidArgument("chunk requires at least one chunk".to_string()));
+        }
+
         let chunk_size = dim_size.div_ceil(chunks);
         let sizes: Vec<usize> = (0..chunks)
             .map(|i| {
-                let start = i * chunk_size;
+                let start = (i * chunk_size).min(dim_size);
                 let end = ((i + 1) * chunk_size).min(dim_size);
                 end - start
             })
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 3401240..d90a2d5 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -8,7 +8,7 @@ use crate::{
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Dim, DynamicDimId, Layout, Shape, SymbolicLayout, SymbolicShape},
     utils::valid::{
-        validate_dtype_for_device, validate_dtype_for_op, validate_indices_dtype, validate_requires_grad_for_op,
+        validate_axis, validate_dtype_for_device, validate_dtype_for_op, validate_indices_dtype, validate_requires_grad_for_op,
         validate_same_device, validate_same_dtype,
     },
 };
@@ -17,12 +17,8 @@ impl Tensor {
     pub fn index_select<D: Into<Scalar>>(&self, dim: D, indices: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let ndim = self.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices], Op::Indexing(IndexingOp::IndexSelect))?;
@@ -98,12 +94,8 @@ impl Tensor {
     pub fn index_put<D: Into<Scalar>>(&self, dim: D, indices: &Self, values: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let ndim = self.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, values], Op::Indexing(IndexingOp::IndexPut))?;
@@ -178,12 +170,8 @@ impl Tensor {
     pub fn gather<D: Into<Scalar>>(&self, dim: D, indices: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let ndim = self.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices], Op::Indexing(IndexingOp::Gather))?;
@@ -253,12 +241,8 @@ impl Tensor {
     pub fn scatter<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let ndim = self.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::Scatter))?;
@@ -334,12 +318,8 @@ impl Tensor {
     pub fn scatter_add<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let ndim = self.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterAdd))?;
@@ -412,12 +392,8 @@ impl Tensor {
     pub fn scatter_max<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let ndim = self.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterMax))?;
@@ -490,12 +466,8 @@ impl Tensor {
     pub fn scatter_min<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let ndim = self.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterMin))?;
diff --git a/crates/hodu_core/src/tensor/ops/normalization.rs b/crates/hodu_core/src/tensor/ops/normalization.rs
index 898f48d..b7313cd 100644
--- a/crates/hodu_core/src/tensor/ops/normalization.rs
+++ b/crates/hodu_core/src/tensor/ops/normalization.rs
@@ -1,15 +1,11 @@
-use crate::{error::HoduResult, scalar::Scalar, tensor::Tensor};
+use crate::{error::HoduResult, scalar::Scalar, tensor::Tensor, utils::valid::validate_axis};
 
 impl Tensor {
     pub fn softmax<T: Into<Scalar>>(&self, dim: T) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as u32
-        } else {
-            dim_i32 as u32
-        } as usize;
+        let ndim = self.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         // Numerical stability: subtract max
         // softmax(x) = exp(x - max(x)) / sum(exp(x - max(x)))
@@ -23,12 +19,8 @@ impl Tensor {
     pub fn log_softmax<D: Into<Scalar>>(&self, dim: D) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as u32
-        } else {
-            dim_i32 as u32
-        } as usize;
+        let ndim = self.ndim();
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         // Numerical stability: log_softmax(x) = x - max(x) - log(sum(exp(x - max(x))))
         let max_val = self.max(&[dim_usize], true)?;
diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index adb5ac2..5c5682d 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -1,10 +1,10 @@
 use crate::{
-    error::HoduResult,
+    error::{HoduError, HoduResult},
     ops::{Op, OpParams, ReduceOp, ReduceParams},
     scalar::Scalar,
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Layout, Shape},
-    utils::valid::{validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op},
+    utils::valid::{validate_axis, validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op},
 };
 
 impl Tensor {
@@ -87,9 +87,9 @@ impl Tensor {
 
     pub fn norm<D: Into<Scalar> + Copy>(&self, p: impl Into<Scalar>, dims: &[D], keep_dim: bool) -> HoduResult<Self> {
         let p_scalar = p.into();
-        match p_scalar.to_i32() {
-            1 => self.l1_norm(dims, keep_dim),
-            2 => self.l2_norm(dims, keep_dim),
+        match p_scalar.to_f32() {
+            1.0 => self.l1_norm(dims, keep_dim),
+            2.0 => self.l2_norm(dims, keep_dim),
             _ => {
                 let p_dtype = p_scalar.to_dtype(self.dtype());
                 self.abs()?
@@ -154,23 +154,21 @@ impl Tensor {
         let reduce_dims: Vec<usize> = if dims.is_empty() {
             (0..ndim).collect()
         } else {
-            dims_i32
-                .iter()
-                .map(|&d| if d < 0 { (ndim as i32 + d) as usize } else { d as usize })
-                .collect()
+            let mut reduce_dims = Vec::with_capacity(dims_i32.len());
+            for &d in &dims_i32 {
+                let dim = validate_axis(d, ndim)?;
+                if reduce_dims.contains(&dim) {
+                    return Err(HoduError::InvalidArgument(format!("dimension {d} is reduced more than once")));
+                }
+                reduce_dims.push(dim);
+            }
+            reduce_dims
         };
 
-        let mut output_dims = shape_dims.to_vec();
-        for &dim in &reduce_dims {
-            if keep_dim {
-                output_dims[dim] = 1;
-            } else {
-                output_dims[dim] = 0;
-            }
-        }
-        if !keep_dim {
-            output_dims.retain(|&size| size != 0);
-        }
+        let output_dims: Vec<usize> = (0..ndim)
+            .filter(|dim| keep_dim || !reduce_dims.contains(dim))
+            .map(|dim| if reduce_dims.contains(&dim) { 1 } else { shape_dims[dim] })
+            .collect();
 
         let result_layout = Layout::from_shape(&Shape::from(output_dims));
 
@@ -187,6 +185,7 @@ impl Tensor {
             // Determine output dtype based on operation
             let output_dtype = match reduce_op {
                 ReduceOp::Any | ReduceOp::All => DType::BOOL,
+                ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
                 _ => self.dtype(),
             };
 
diff --git a/crates/hodu_core/src/tensor/ops/scan.rs b/crates/hodu_core/src/tensor/ops/scan.rs
index 080ac65..df2f87d 100644
--- a/crates/hodu_core/src/tensor/ops/scan.rs
+++ b/crates/hodu_core/src/tensor/ops/scan.rs
@@ -5,6 +5,7 @@ use crate::{
     scalar::Scalar,
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::Layout,
+    utils::valid::validate_axis,
 };
 
 impl Tensor {
@@ -12,11 +13,7 @@ impl Tensor {
         let ndim = self.ndim();
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let dim_usize = if dim_i32 < 0 {
-            (ndim as i32 + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = validate_axis(dim_i32, ndim)?;
 
         let op_params = OpParams::Scan(ScanParams { dim: dim_usize });
 
diff --git a/crates/hodu_core/src/tensor/ops/shape_memory.rs b/crates/hodu_core/src/tensor/ops/shape_memory.rs
index 9beb744..9018ab0 100644
--- a/crates/hodu_core/src/tensor/ops/shape_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/shape_memory.rs
@@ -5,6 +5,7 @@ use crate::{
     scalar::Scalar,
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::Layout,
+    utils::valid::validate_axis,
 };
 
 impl Tensor {
@@ -15,11 +16,7 @@ impl Tensor {
         for &d in dims {
             let dim_scalar = d.into();
             let dim_i32 = dim_scalar.to_i32();
-            let dim_usize = if dim_i32 < 0 {
-                (ndim as i32 + dim_i32) as usize
-            } else {
-                dim_i32 as usize
-            };
+            let dim_usize = validate_axis(dim_i32, ndim)?;
             dims_usize.push(dim_usize);
         }
 
diff --git a/crates/hodu_core/src/types/layout.rs b/crates/hodu_core/src/types/layout.rs
index e052ecd..6149fc6 100644
--- a/crates/hodu_core/src/types/layout.rs
+++ b/crates/hodu_core/src/types/layout.rs
@@ -224,6 +224,10 @@ impl Layout {
                     });
                 }
 
+                if actual_dims.contains(&actual_dim) {
+                    return Err(HoduError::InvalidAxis { axis: dim, ndim });
+                }
+
                 actual_dims.push(actual_dim);
             }
 
diff --git a/crates/hodu_core/src/utils/valid.rs b/crates/hodu_core/src/utils/valid.rs
index d2069fd..bca6052 100644
--- a/crates/hodu_core/src/utils/valid.rs
+++ b/crates/hodu_core/src/utils/valid.rs
@@ -5,6 +5,15 @@ use crate::{
     types::{DType, Device},
 };
 
+/// Resolves a possibly negative axis, rejecting axes outside `-ndim..ndim`.
+pub fn validate_axis(axis: i32, ndim: usize) -> HoduResult<usize> {
+    let resolved = if axis < 0 { axis as i64 + ndim as i64 } else { axis as i64 };
+    if resolved < 0 || resolved >= ndim as i64 {
+        return Err(HoduError::InvalidAxis { axis, ndim });
+    }
+    Ok(resolved as usize)
+}
+
 #[allow(unused_variables)]
 pub fn validate_dtype_for_device(dtype: DType, device: Device) -> HoduResult<()> {
     match device {
-- 
2.43.0


From 230e7406aad50867f7677b2ebf07c7721b89e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 13/89] fix: slices with a negative step select the reversed
 elements, slice gradients of any rank and dim

---
 .../src/tensor/gradient/vjp_shape.rs          | 51 ++++------
 crates/hodu_core/src/tensor/ops/shape.rs      | 20 +++-
 crates/hodu_core/src/types/layout.rs          | 92 ++++++++-----------
 3 files changed, 74 insertions(+), 89 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
index 3282c8b..1f7aa13 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
@@ -3,6 +3,8 @@ use crate::{
     error::{HoduError, HoduResult},
     ops::{OpParams, ShapeOp, ShapeScalarsOp, SliceParams},
     tensor::{tensor_from_id, Tensor, TensorId},
+    types::Layout,
+    utils::valid::validate_axis,
 };
 
 impl VjpCompute for ShapeOp {
@@ -170,38 +172,16 @@ impl VjpCompute for ShapeScalarsOp {
                     return Err(HoduError::VjpFunctionNotFound("Slice requires SliceParams".to_string()));
                 };
 
-                let dim = dim.to_i32() as usize;
-                let start = start.to_i32() as isize;
+                let dim = validate_axis(dim.to_i32(), input_shape.ndim())?;
                 let end_value = end.to_i32();
-                let end = if end_value == i32::MAX {
-                    None
-                } else {
-                    Some(end_value as isize)
-                };
-                let step = step.to_i32() as isize;
-
-                // Calculate slice indices
-                let dim_size = input_shape.dims()[dim] as isize;
-                let start_idx = if start < 0 { dim_size + start } else { start };
-                let end_idx = end
-                    .map(|e| if e < 0 { dim_size + e } else { e })
-                    .unwrap_or(if step > 0 { dim_size } else { -1 });
-
-                // Generate indices based on step direction
-                let mut indices_vec = Vec::new();
-                if step > 0 {
-                    let mut idx = start_idx;
-                    while idx < end_idx && idx < dim_size {
-                        indices_vec.push(idx as i32);
-                        idx += step;
-                    }
-                } else {
-                    let mut idx = start_idx;
-                    while idx > end_idx && idx >= 0 {
-                        indices_vec.push(idx as i32);
-                        idx += step;
-                    }
-                }
+                let end = if end_value == i32::MAX { None } else { Some(end_value) };
+                let step = step.to_i32();
+
+                // Indices of the input selected by the slice
+                let (first, count) = Layout::slice_extent(input_shape.dims()[dim], start.to_i32(), end, step);
+                let indices_vec: Vec<i32> = (0..count as i64)
+                    .map(|i| (first as i64 + i * step as i64) as i32)
+                    .collect();
 
                 // Validate that grad_shape matches expected slice output
                 if grad_shape.dims().len() != input_shape.dims().len() {
@@ -218,8 +198,13 @@ impl VjpCompute for ShapeScalarsOp {
                     )));
                 }
 
-                // Create indices tensor
-                let indices_tensor = Tensor::new(indices_vec)?;
+                // Create indices tensor, repeated over the other dimensions of the gradient
+                let mut indices_shape = vec![1; grad_shape.ndim()];
+                indices_shape[dim] = indices_vec.len();
+                let indices_tensor = Tensor::new(indices_vec)?
+                    .reshape(&indices_shape)?
+                    .broadcast(&grad_shape)?
+                    .contiguous()?;
 
                 // Create zero tensor with input shape
                 let dtype = input_tensor.dtype();
diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index 7e0dc97..f5268fe 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -6,7 +6,8 @@ use crate::{
     },
     scalar::Scalar,
     tensor::{create_builder_tensor, from_shared_storage_with, gradient, Tensor},
-    types::Shape,
+    types::{Layout, Shape},
+    utils::valid::validate_axis,
 };
 
 impl Tensor {
@@ -475,6 +476,23 @@ impl Tensor {
         let step_i32 = step_scalar.to_i32();
 
         let current_layout = self.layout();
+
+        if step_i32 < 0 {
+            // Select the same elements in increasing order, then reverse them
+            let dim_usize = validate_axis(dim_i32, self.ndim())?;
+            let (first, count) =
+                Layout::slice_extent(current_layout.shape().dims()[dim_usize], start_i32, end_i32, step_i32);
+            if count == 0 {
+                return Err(HoduError::InternalError("slice results in empty tensor".to_string()));
+            }
+            let stride = step_i32.unsigned_abs() as usize;
+            let last = first - (count - 1) * stride;
+            let stride = stride.min(i32::MAX as usize) as i32;
+            return self
+                .slice(dim_i32, last as i32, Some(first as i32 + 1), stride)?
+                .flip(&[dim_i32]);
+        }
+
         let new_layout = current_layout.slice(dim_i32, start_i32, end_i32, step_i32)?;
         let requires_grad = self.is_requires_grad();
 
diff --git a/crates/hodu_core/src/types/layout.rs b/crates/hodu_core/src/types/layout.rs
index 6149fc6..280d712 100644
--- a/crates/hodu_core/src/types/layout.rs
+++ b/crates/hodu_core/src/types/layout.rs
@@ -432,68 +432,50 @@ impl Layout {
         })
     }
 
-    /// Slices a dimension with start, end, and step.
+    /// First index and number of indices selected by `start..end` with a non-zero `step`
+    /// on a dimension of `dim_size` elements. Negative bounds count from the end.
+    pub fn slice_extent(dim_size: usize, start: i32, end: Option<i32>, step: i32) -> (usize, usize) {
+        let size = dim_size as i64;
+        let step = step as i64;
+        let from_end = |i: i32| if i < 0 { size + i as i64 } else { i as i64 };
+        let start = from_end(start);
+
+        if step > 0 {
+            let start = start.clamp(0, size);
+            let end = end.map_or(size, from_end).clamp(0, size);
+            let count = if end > start { (end - start + step - 1) / step } else { 0 };
+            (start as usize, count as usize)
+        } else {
+            let start = start.min(size - 1);
+            let end = end.map_or(-1, from_end).max(-1);
+            let count = if start > end { (start - end - step - 1) / -step } else { 0 };
+            (start.max(0) as usize, count as usize)
+        }
+    }
+
+    /// Slices a dimension with start, end, and a positive step.
     pub fn slice(&self, dim: i32, start: i32, end: Option<i32>, step: i32) -> HoduResult<Self> {
         let ndim = self.ndim();
 
-        // Normalize negative dim
-        let actual_dim = if dim < 0 {
-            (ndim as i32 + dim) as usize
-        } else {
-            dim as usize
-        };
-
-        if actual_dim >= ndim {
-            return Err(HoduError::InvalidAxis { axis: dim, ndim });
-        }
+        let actual_dim = self
+            .shape
+            .normalize_axis(dim)
+            .ok_or(HoduError::InvalidAxis { axis: dim, ndim })?;
 
         if step == 0 {
             return Err(HoduError::InternalError("slice step cannot be zero".to_string()));
         }
+        if step < 0 {
+            // Strides are unsigned: a reversed view cannot be expressed as a layout
+            return Err(HoduError::InternalError(
+                "a layout cannot be sliced with a negative step".to_string(),
+            ));
+        }
 
-        let dim_size = self.shape.dims()[actual_dim] as i32;
-
-        // Normalize negative indices and handle None for end
-        let start_idx = if start < 0 { dim_size + start } else { start };
-        let end_idx = match end {
-            Some(e) => {
-                if e < 0 {
-                    dim_size + e
-                } else {
-                    e
-                }
-            },
-            None => {
-                if step > 0 {
-                    dim_size
-                } else {
-                    -1
-                }
-            },
-        };
-
-        // Clamp indices to valid range
-        let clamped_start = start_idx.clamp(0, dim_size);
-        let clamped_end = if step > 0 {
-            end_idx.clamp(0, dim_size)
-        } else {
-            end_idx.clamp(-1, dim_size - 1)
-        };
-
-        // Calculate new size for the dimension
-        let new_size = if step > 0 {
-            if clamped_end > clamped_start {
-                (clamped_end - clamped_start + step - 1) / step
-            } else {
-                0
-            }
-        } else if clamped_start > clamped_end {
-            (clamped_start - clamped_end + (-step) - 1) / (-step)
-        } else {
-            0
-        };
+        let (clamped_start, new_size) =
+            Self::slice_extent(self.shape.dims()[actual_dim], start, end, step);
 
-        if new_size <= 0 {
+        if new_size == 0 {
             return Err(HoduError::InternalError("slice results in empty tensor".to_string()));
         }
 
@@ -501,11 +483,11 @@ impl Layout {
         let mut new_shape = self.shape.clone();
         let mut new_strides = self.strides.clone();
 
-        new_shape.dims_mut()[actual_dim] = new_size as usize;
+        new_shape.dims_mut()[actual_dim] = new_size;
         new_strides[actual_dim] = self.strides[actual_dim] * step.unsigned_abs() as usize;
 
         // Calculate new offset
-        let new_offset = self.offset + clamped_start as usize * self.strides[actual_dim];
+        let new_offset = self.offset + clamped_start * self.strides[actual_dim];
 
         Ok(Self {
             shape: new_shape,
-- 
2.43.0


From 716227f24bed0bb0c45da794803fc157477906f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:53 +0000
Subject: [PATCH 14/89] fix: indexing kernels run the requested scatter
 variant, honour index views, and reject mismatched shapes

---
 .../src/be_cpu/storage/ops_indexing.rs        | 44 +++++++---
 crates/hodu_core/src/tensor/ops/indexing.rs   | 82 +++++++++++++------
 .../hodu_cpu_kernels/kernels/ops_indexing.c   | 77 +++++++++--------
 .../hodu_cpu_kernels/kernels/ops_indexing.h   |  6 ++
 .../src/kernels/ops_indexing.rs               |  2 +
 5 files changed, 142 insertions(+), 69 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
index 5fc111c..80f3cad 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
@@ -5,7 +5,17 @@ use crate::{
     ops::{IndexingOp, Op},
     types::{DType, Layout, Shape},
 };
-use std::ffi::c_void;
+use std::{borrow::Cow, ffi::c_void};
+
+/// The elements of `storage` selected by `layout` in row-major order, for kernels that
+/// read a buffer linearly
+fn in_logical_order<'a>(storage: &'a CpuStorage, layout: &Layout) -> HoduResult<Cow<'a, CpuStorage>> {
+    if layout.is_contiguous() && layout.offset() == 0 {
+        Ok(Cow::Borrowed(storage))
+    } else {
+        Ok(Cow::Owned(storage.contiguous(layout)?))
+    }
+}
 
 /// Execute index_select operation to select elements along a dimension
 ///
@@ -35,8 +45,9 @@ pub fn call_ops_index_select(
         });
     }
 
+    let indices_storage = in_logical_order(indices_storage, indices_layout)?;
     // Extract indices
-    let indices = match indices_storage {
+    let indices = match indices_storage.as_ref() {
         CpuStorage::I32(data) => data.as_slice(),
         _ => unreachable!(),
     };
@@ -153,8 +164,9 @@ pub fn call_ops_index_put(
         });
     }
 
+    let indices_storage = in_logical_order(indices_storage, indices_layout)?;
     // Extract indices
-    let indices = match indices_storage {
+    let indices = match indices_storage.as_ref() {
         CpuStorage::I32(data) => data.as_slice(),
         _ => unreachable!(),
     };
@@ -197,8 +209,8 @@ pub fn call_ops_index_put(
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage (copy of input)
-    let mut output = storage.clone();
+    // Create output storage
+    let mut output = CpuDevice::allocate(num_els, dtype)?;
 
     // Get raw pointers and call kernel
     macro_rules! call_kernel {
@@ -454,12 +466,18 @@ pub fn call_ops_scatter(
 
     // Generate kernel name
     let dtype = storage.dtype();
-    let kernel_name = format!("hodu_cpu_scatter_{}", dtype);
+    let variant = match op {
+        Op::Indexing(IndexingOp::ScatterAdd) => "scatter_add",
+        Op::Indexing(IndexingOp::ScatterMax) => "scatter_max",
+        Op::Indexing(IndexingOp::ScatterMin) => "scatter_min",
+        _ => "scatter",
+    };
+    let kernel_name = format!("hodu_cpu_{}_{}", variant, dtype);
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage (copy of input)
-    let mut output = storage.clone();
+    // Create output storage
+    let mut output = CpuDevice::allocate(input_shape.size(), dtype)?;
 
     // Get raw pointers and call kernel
     macro_rules! call_kernel {
@@ -561,8 +579,10 @@ pub fn call_ops_onehot(
         _ => return Err(HoduError::BackendError("call_ops_onehot expects Onehot op".to_string())),
     };
 
+    let indices_storage = in_logical_order(indices_storage, indices_layout)?;
+
     // Convert indices to i32
-    let indices: Vec<i32> = match indices_storage {
+    let indices: Vec<i32> = match indices_storage.as_ref() {
         CpuStorage::I8(data) => data.iter().map(|&x| x as i32).collect(),
         #[cfg(feature = "i16")]
         CpuStorage::I16(data) => data.iter().map(|&x| x as i32).collect(),
@@ -819,8 +839,10 @@ pub fn call_compress(
         )));
     }
 
+    let condition_storage = in_logical_order(condition_storage, condition_layout)?;
+
     // Extract condition as contiguous bool slice
-    let condition = match condition_storage {
+    let condition = match condition_storage.as_ref() {
         CpuStorage::BOOL(data) => data.as_slice(),
         _ => unreachable!(),
     };
@@ -857,7 +879,7 @@ pub fn call_compress(
     }
 
     // Count true values for output allocation
-    let true_count = condition.iter().filter(|&&x| x).count();
+    let true_count = condition.iter().take(condition_size).filter(|&&x| x).count();
 
     // Handle empty case
     if true_count == 0 {
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index d90a2d5..61cd692 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -1,5 +1,5 @@
 use crate::{
-    error::HoduResult,
+    error::{HoduError, HoduResult},
     ops::{
         CompressParams, GatherParams, IndexPutParams, IndexSelectParams, IndexingOp, NonzeroParams, OnehotoParams, Op,
         OpParams, ScatterAddParams, ScatterMaxParams, ScatterMinParams, ScatterParams, UniqueParams,
@@ -13,6 +13,26 @@ use crate::{
     },
 };
 
+/// Indices address one element of `input` each: same rank, and no larger than `input`
+/// in the dimensions they do not index.
+fn validate_index_shape(input: &Tensor, indices: &Tensor, dim: usize, op: Op) -> HoduResult<()> {
+    let (input_shape, indices_shape) = (input.shape(), indices.shape());
+    let fits = input_shape.ndim() == indices_shape.ndim()
+        && (0..input_shape.ndim()).all(|d| d == dim || indices_shape.dims()[d] <= input_shape.dims()[d]);
+    if !fits {
+        return Err(HoduError::incompatible_shapes(input_shape, indices_shape, op));
+    }
+    Ok(())
+}
+
+/// Scattered values pair up with their indices.
+fn validate_scatter_shapes(input: &Tensor, indices: &Tensor, src: &Tensor, dim: usize, op: Op) -> HoduResult<()> {
+    if indices.shape() != src.shape() {
+        return Err(HoduError::incompatible_shapes(indices.shape(), src.shape(), op));
+    }
+    validate_index_shape(input, indices, dim, op)
+}
+
 impl Tensor {
     pub fn index_select<D: Into<Scalar>>(&self, dim: D, indices: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
@@ -105,7 +125,19 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::IndexPut))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::IndexPut));
 
-        let result_layout = self.layout();
+        // One slice of values per index
+        let mut values_dims = self.shape().dims().to_vec();
+        values_dims[dim_usize] = indices.size();
+        if values.shape().dims() != values_dims.as_slice() {
+            return Err(HoduError::incompatible_shapes(
+                Shape::from(values_dims),
+                values.shape(),
+                Op::Indexing(IndexingOp::IndexPut),
+            ));
+        }
+
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
         let indices_layout = indices.layout();
         let values_layout = values.layout();
 
@@ -120,8 +152,8 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), values.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), values_layout, indices_layout],
-                result_layout.clone(),
+                vec![self_layout, values_layout, indices_layout],
+                result_layout,
             )?;
 
             if requires_grad {
@@ -139,7 +171,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     values.with_storage(|values_storage| {
                         storage.call_ops_index_put(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             values_storage,
@@ -181,8 +213,10 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::Gather));
 
         // Output has same shape as indices
+        validate_index_shape(self, indices, dim_usize, Op::Indexing(IndexingOp::Gather))?;
         let self_layout = self.layout();
-        let result_layout = indices.layout();
+        let indices_layout = indices.layout();
+        let result_layout = Layout::from_shape(&indices.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = self.is_requires_grad() && validate_requires_grad;
@@ -195,7 +229,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), indices.id()],
                 result_id,
-                vec![self_layout.clone(), result_layout.clone()],
+                vec![self_layout, indices_layout],
                 result_layout,
             )?;
 
@@ -215,7 +249,7 @@ impl Tensor {
                     storage.call_ops_gather(
                         &self_layout,
                         indices_storage,
-                        &result_layout,
+                        &indices_layout,
                         dim_usize,
                         Op::Indexing(IndexingOp::Gather),
                     )
@@ -250,10 +284,12 @@ impl Tensor {
         validate_dtype_for_device(self.dtype(), self.device())?;
         validate_dtype_for_op(self.dtype(), Op::Indexing(IndexingOp::Scatter))?;
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::Scatter))?;
+        validate_scatter_shapes(self, indices, src, dim_usize, Op::Indexing(IndexingOp::Scatter))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::Scatter));
 
         // Output has same shape as self
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
         let indices_layout = indices.layout();
         let src_layout = src.layout();
 
@@ -268,7 +304,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), src.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), src_layout.clone(), indices_layout.clone()],
+                vec![self_layout, src_layout, indices_layout],
                 result_layout,
             )?;
 
@@ -287,7 +323,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     src.with_storage(|src_storage| {
                         storage.call_ops_scatter(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             src_storage,
@@ -327,9 +363,10 @@ impl Tensor {
         validate_dtype_for_device(self.dtype(), self.device())?;
         validate_dtype_for_op(self.dtype(), Op::Indexing(IndexingOp::ScatterAdd))?;
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterAdd))?;
+        validate_scatter_shapes(self, indices, src, dim_usize, Op::Indexing(IndexingOp::ScatterAdd))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterAdd));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -401,9 +438,10 @@ impl Tensor {
         validate_dtype_for_device(self.dtype(), self.device())?;
         validate_dtype_for_op(self.dtype(), Op::Indexing(IndexingOp::ScatterMax))?;
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMax))?;
+        validate_scatter_shapes(self, indices, src, dim_usize, Op::Indexing(IndexingOp::ScatterMax))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMax));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -475,9 +513,10 @@ impl Tensor {
         validate_dtype_for_device(self.dtype(), self.device())?;
         validate_dtype_for_op(self.dtype(), Op::Indexing(IndexingOp::ScatterMin))?;
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMin))?;
+        validate_scatter_shapes(self, indices, src, dim_usize, Op::Indexing(IndexingOp::ScatterMin))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMin));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -562,13 +601,8 @@ impl Tensor {
         let axis_i32 = axis_scalar.to_i32();
 
         // Normalize axis
-        let ndim = self.ndim() as i32;
-        let output_ndim = ndim + 1;
-        let axis_usize = if axis_i32 < 0 {
-            (output_ndim + axis_i32) as usize
-        } else {
-            axis_i32 as usize
-        };
+        let output_ndim = self.ndim() + 1;
+        let axis_usize = validate_axis(axis_i32, output_ndim)?;
 
         // Validate
         validate_dtype_for_device(dtype, self.device())?;
@@ -577,7 +611,7 @@ impl Tensor {
 
         // Compute output shape: insert num_classes at axis position
         let input_shape = self.shape();
-        let mut output_dims = Vec::with_capacity(output_ndim as usize);
+        let mut output_dims = Vec::with_capacity(output_ndim);
         for (i, &dim) in input_shape.dims().iter().enumerate() {
             if i == axis_usize {
                 output_dims.push(num_classes_usize);
@@ -585,7 +619,7 @@ impl Tensor {
             output_dims.push(dim);
         }
         // If axis == output_ndim - 1 (last position)
-        if axis_usize == output_ndim as usize - 1 {
+        if axis_usize == output_ndim - 1 {
             output_dims.push(num_classes_usize);
         }
 
@@ -818,8 +852,6 @@ impl Tensor {
     /// let result = a.compress(&condition, Some(0))?;  // [[3, 4], [5, 6]]
     /// ```
     pub fn compress<A: Into<Option<i32>>>(&self, condition: &Self, axis: A) -> HoduResult<Self> {
-        use crate::error::HoduError;
-
         let axis_opt: Option<i32> = axis.into();
 
         // Validate devices match
diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index e4e015b..a69e659 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -625,6 +625,7 @@ SCATTER_ADD_OP_EXOTIC(f8e5m2_t, scatter_add_f8e5m2, f8e5m2_add)
 SCATTER_ADD_OP_EXOTIC(bf16_t, scatter_add_bf16, bf16_add)
 SCATTER_ADD_OP_EXOTIC(f16_t, scatter_add_f16, f16_add)
 SCATTER_ADD_OP(float, scatter_add_f32)
+SCATTER_ADD_OP(double, scatter_add_f64)
 SCATTER_ADD_OP(int8_t, scatter_add_i8)
 SCATTER_ADD_OP(int16_t, scatter_add_i16)
 SCATTER_ADD_OP(int32_t, scatter_add_i32)
@@ -644,11 +645,14 @@ SCATTER_ADD_OP(uint64_t, scatter_add_u64)
 // Algorithm:
 // Same as scatter but compares and keeps the maximum value.
 
+/// Value of an element as an arithmetic type (the small float types convert to float)
+#define SCATTER_VALUE(x) (x)
+
 /// Macro to implement scatter_max operation (maximum mode)
 ///
 /// @param TYPENAME C type for the operation
 /// @param FN_NAME Function name
-#define SCATTER_MAX_OP(TYPENAME, FN_NAME)                                                          \
+#define SCATTER_MAX_OP(TYPENAME, FN_NAME, VALUE)                                                   \
     void hodu_cpu_##FN_NAME(const void *input_ptr, const int32_t *indices, const void *src_ptr,    \
                             void *output_ptr, const size_t *metadata) {                            \
         const TYPENAME *input = (const TYPENAME *)input_ptr;                                       \
@@ -731,25 +735,26 @@ SCATTER_ADD_OP(uint64_t, scatter_add_u64)
             }                                                                                      \
                                                                                                    \
             TYPENAME src_val = src[src_flat_idx];                                                  \
-            if (src_val > output[output_flat_idx]) {                                               \
+            if (VALUE(src_val) > VALUE(output[output_flat_idx])) {                                 \
                 output[output_flat_idx] = src_val;                                                 \
             }                                                                                      \
         }                                                                                          \
     }
 
-SCATTER_MAX_OP(f8e4m3_t, scatter_max_f8e4m3)
-SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2)
-SCATTER_MAX_OP(bf16_t, scatter_max_bf16)
-SCATTER_MAX_OP(f16_t, scatter_max_f16)
-SCATTER_MAX_OP(float, scatter_max_f32)
-SCATTER_MAX_OP(int8_t, scatter_max_i8)
-SCATTER_MAX_OP(int16_t, scatter_max_i16)
-SCATTER_MAX_OP(int32_t, scatter_max_i32)
-SCATTER_MAX_OP(int64_t, scatter_max_i64)
-SCATTER_MAX_OP(uint8_t, scatter_max_u8)
-SCATTER_MAX_OP(uint16_t, scatter_max_u16)
-SCATTER_MAX_OP(uint32_t, scatter_max_u32)
-SCATTER_MAX_OP(uint64_t, scatter_max_u64)
+SCATTER_MAX_OP(f8e4m3_t, scatter_max_f8e4m3, f8e4m3_to_float)
+SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2, f8e5m2_to_float)
+SCATTER_MAX_OP(bf16_t, scatter_max_bf16, bf16_to_float)
+SCATTER_MAX_OP(f16_t, scatter_max_f16, f16_to_float)
+SCATTER_MAX_OP(float, scatter_max_f32, SCATTER_VALUE)
+SCATTER_MAX_OP(double, scatter_max_f64, SCATTER_VALUE)
+SCATTER_MAX_OP(int8_t, scatter_max_i8, SCATTER_VALUE)
+SCATTER_MAX_OP(int16_t, scatter_max_i16, SCATTER_VALUE)
+SCATTER_MAX_OP(int32_t, scatter_max_i32, SCATTER_VALUE)
+SCATTER_MAX_OP(int64_t, scatter_max_i64, SCATTER_VALUE)
+SCATTER_MAX_OP(uint8_t, scatter_max_u8, SCATTER_VALUE)
+SCATTER_MAX_OP(uint16_t, scatter_max_u16, SCATTER_VALUE)
+SCATTER_MAX_OP(uint32_t, scatter_max_u32, SCATTER_VALUE)
+SCATTER_MAX_OP(uint64_t, scatter_max_u64, SCATTER_VALUE)
 
 // ============================================================================
 // SCATTER MIN OPERATIONS
@@ -765,7 +770,7 @@ SCATTER_MAX_OP(uint64_t, scatter_max_u64)
 ///
 /// @param TYPENAME C type for the operation
 /// @param FN_NAME Function name
-#define SCATTER_MIN_OP(TYPENAME, FN_NAME)                                                          \
+#define SCATTER_MIN_OP(TYPENAME, FN_NAME, VALUE)                                                   \
     void hodu_cpu_##FN_NAME(const void *input_ptr, const int32_t *indices, const void *src_ptr,    \
                             void *output_ptr, const size_t *metadata) {                            \
         const TYPENAME *input = (const TYPENAME *)input_ptr;                                       \
@@ -848,25 +853,26 @@ SCATTER_MAX_OP(uint64_t, scatter_max_u64)
             }                                                                                      \
                                                                                                    \
             TYPENAME src_val = src[src_flat_idx];                                                  \
-            if (src_val < output[output_flat_idx]) {                                               \
+            if (VALUE(src_val) < VALUE(output[output_flat_idx])) {                                 \
                 output[output_flat_idx] = src_val;                                                 \
             }                                                                                      \
         }                                                                                          \
     }
 
-SCATTER_MIN_OP(f8e4m3_t, scatter_min_f8e4m3)
-SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2)
-SCATTER_MIN_OP(bf16_t, scatter_min_bf16)
-SCATTER_MIN_OP(f16_t, scatter_min_f16)
-SCATTER_MIN_OP(float, scatter_min_f32)
-SCATTER_MIN_OP(int8_t, scatter_min_i8)
-SCATTER_MIN_OP(int16_t, scatter_min_i16)
-SCATTER_MIN_OP(int32_t, scatter_min_i32)
-SCATTER_MIN_OP(int64_t, scatter_min_i64)
-SCATTER_MIN_OP(uint8_t, scatter_min_u8)
-SCATTER_MIN_OP(uint16_t, scatter_min_u16)
-SCATTER_MIN_OP(uint32_t, scatter_min_u32)
-SCATTER_MIN_OP(uint64_t, scatter_min_u64)
+SCATTER_MIN_OP(f8e4m3_t, scatter_min_f8e4m3, f8e4m3_to_float)
+SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2, f8e5m2_to_float)
+SCATTER_MIN_OP(bf16_t, scatter_min_bf16, bf16_to_float)
+SCATTER_MIN_OP(f16_t, scatter_min_f16, f16_to_float)
+SCATTER_MIN_OP(float, scatter_min_f32, SCATTER_VALUE)
+SCATTER_MIN_OP(double, scatter_min_f64, SCATTER_VALUE)
+SCATTER_MIN_OP(int8_t, scatter_min_i8, SCATTER_VALUE)
+SCATTER_MIN_OP(int16_t, scatter_min_i16, SCATTER_VALUE)
+SCATTER_MIN_OP(int32_t, scatter_min_i32, SCATTER_VALUE)
+SCATTER_MIN_OP(int64_t, scatter_min_i64, SCATTER_VALUE)
+SCATTER_MIN_OP(uint8_t, scatter_min_u8, SCATTER_VALUE)
+SCATTER_MIN_OP(uint16_t, scatter_min_u16, SCATTER_VALUE)
+SCATTER_MIN_OP(uint32_t, scatter_min_u32, SCATTER_VALUE)
+SCATTER_MIN_OP(uint64_t, scatter_min_u64, SCATTER_VALUE)
 
 // ============================================================================
 // ONEHOT OPERATIONS
@@ -1123,7 +1129,7 @@ NONZERO_FILL_OP(uint64_t, nonzero_fill_u64, val != 0)
 // Helper struct for sorting with original index
 typedef struct {
     size_t orig_idx;
-    size_t sort_key; // Used for integer comparison
+    uint64_t sort_key; // Used for integer comparison
 } IndexPair;
 
 // Comparison function for qsort (by sort_key)
@@ -1150,9 +1156,14 @@ static int compare_index_pairs_float(const void *a, const void *b) {
         return -1;
     if (pa->sort_key > pb->sort_key)
         return 1;
-    return 0;
+    // NaN sorts after every number, whatever its neighbours
+    return (pa->sort_key != pa->sort_key) - (pb->sort_key != pb->sort_key);
 }
 
+/// Unsigned key in the order of the values: flips the sign bit of signed types
+#define UNIQUE_SORT_KEY(TYPENAME, x)                                                               \
+    ((uint64_t)(int64_t)(x) ^ ((TYPENAME)-1 < (TYPENAME)1 ? (uint64_t)1 << 63 : 0))
+
 /// Macro to implement unique operation for integer types
 #define UNIQUE_OP_INT(TYPENAME, FN_NAME)                                                           \
     size_t hodu_cpu_##FN_NAME(const void *input_ptr, void *values_ptr, int32_t *inverse,           \
@@ -1184,7 +1195,7 @@ static int compare_index_pairs_float(const void *a, const void *b) {
             }                                                                                      \
             input_values[id] = input[flat_idx];                                                    \
             pairs[id].orig_idx = id;                                                               \
-            pairs[id].sort_key = (size_t)input[flat_idx];                                          \
+            pairs[id].sort_key = UNIQUE_SORT_KEY(TYPENAME, input[flat_idx]);                       \
         }                                                                                          \
                                                                                                    \
         /* Sort by value */                                                                        \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.h b/crates/hodu_cpu_kernels/kernels/ops_indexing.h
index 50f7434..627cdd4 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.h
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.h
@@ -276,6 +276,8 @@ void hodu_cpu_scatter_add_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_add_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_i16(const void *input, const int32_t *indices, const void *src,
@@ -312,6 +314,8 @@ void hodu_cpu_scatter_max_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_max_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_i16(const void *input, const int32_t *indices, const void *src,
@@ -348,6 +352,8 @@ void hodu_cpu_scatter_min_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_min_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_i16(const void *input, const int32_t *indices, const void *src,
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
index dafd067..8e4d86a 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
@@ -256,6 +256,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                 fn [<hodu_cpu_ $op_name _bf16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
+                fn [<hodu_cpu_ $op_name _f64>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i8>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
@@ -280,6 +281,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                     concat!("hodu_cpu_", stringify!($op_name), "_bf16") => [<hodu_cpu_ $op_name _bf16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f16") => [<hodu_cpu_ $op_name _f16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f32") => [<hodu_cpu_ $op_name _f32>](input, indices, src, output, metadata),
+                    concat!("hodu_cpu_", stringify!($op_name), "_f64") => [<hodu_cpu_ $op_name _f64>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i8") => [<hodu_cpu_ $op_name _i8>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i16") => [<hodu_cpu_ $op_name _i16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i32") => [<hodu_cpu_ $op_name _i32>](input, indices, src, output, metadata),
-- 
2.43.0


From 500340fbfea8c967a9adf9d1e8ef771a82a20110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 15/89] fix: gradients of index_select, index_put and
 scatter_max/min for every rank, dim and winner

---
 .../src/tensor/gradient/vjp_indexing.rs       | 83 ++++++++-----------
 1 file changed, 33 insertions(+), 50 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs b/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
index d7bdf55..62cca3f 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
@@ -3,30 +3,40 @@ use crate::{
     error::{HoduError, HoduResult},
     ops::{IndexingOp, OpParams},
     tensor::{tensor_from_id, Tensor, TensorId},
+    types::Shape,
+    utils::valid::validate_axis,
 };
 
+/// Repeats 1-D indices along every other dimension of `shape`, one index per element.
+fn expand_indices(indices: &Tensor, dim: usize, shape: &Shape) -> HoduResult<Tensor> {
+    let mut indices_shape = vec![1; shape.ndim()];
+    indices_shape[dim] = indices.size();
+    indices.reshape(&indices_shape)?.broadcast(shape)?.contiguous()
+}
+
 impl VjpCompute for IndexingOp {
     fn compute_vjp(
         &self,
         inputs: &[TensorId],
-        _output: TensorId,
+        output: TensorId,
         grad_output: TensorId,
         op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
         let dim = match op_params {
-            OpParams::IndexSelect(p) => p.dim.to_usize(),
-            OpParams::IndexPut(p) => p.dim.to_usize(),
-            OpParams::Gather(p) => p.dim.to_usize(),
-            OpParams::Scatter(p) => p.dim.to_usize(),
-            OpParams::ScatterAdd(p) => p.dim.to_usize(),
-            OpParams::ScatterMax(p) => p.dim.to_usize(),
-            OpParams::ScatterMin(p) => p.dim.to_usize(),
+            OpParams::IndexSelect(p) => p.dim,
+            OpParams::IndexPut(p) => p.dim,
+            OpParams::Gather(p) => p.dim,
+            OpParams::Scatter(p) => p.dim,
+            OpParams::ScatterAdd(p) => p.dim,
+            OpParams::ScatterMax(p) => p.dim,
+            OpParams::ScatterMin(p) => p.dim,
             _ => {
                 return Err(HoduError::VjpFunctionNotFound(
                     "IndexingOp requires IndexingParams".to_string(),
                 ))
             },
         };
+        let dim = validate_axis(dim.to_i32(), tensor_from_id(inputs[0]).ndim())?;
 
         match self {
             IndexingOp::IndexSelect => {
@@ -46,8 +56,8 @@ impl VjpCompute for IndexingOp {
                 let grad_self = Tensor::zeros(&self_shape, dtype)?;
 
                 // Scatter the gradient back to the original positions
-                let indices_tensor = tensor_from_id(indices_id);
                 let grad_tensor = tensor_from_id(grad_output);
+                let indices_tensor = expand_indices(&tensor_from_id(indices_id), dim, &grad_tensor.shape())?;
                 let result = grad_self.scatter_add(dim, &indices_tensor, &grad_tensor)?;
 
                 // IndexSelect doesn't have gradient w.r.t. indices
@@ -86,7 +96,7 @@ impl VjpCompute for IndexingOp {
                 }
 
                 let self_id = inputs[0];
-                let _values_id = inputs[1];
+                let values_id = inputs[1];
                 let indices_id = inputs[2];
 
                 let self_tensor = tensor_from_id(self_id);
@@ -98,12 +108,12 @@ impl VjpCompute for IndexingOp {
                 // Gradient w.r.t. self: everywhere except indexed positions
                 // Create a mask: 1 everywhere, 0 at indexed positions
                 let ones = Tensor::ones(self_tensor.shape(), dtype)?;
-                let zeros_at_indices =
-                    ones.index_put(dim, &indices_tensor, &Tensor::zeros(indices_tensor.shape(), dtype)?)?;
+                let zeros = Tensor::zeros(tensor_from_id(values_id).shape(), dtype)?;
+                let zeros_at_indices = ones.index_put(dim, &indices_tensor, &zeros)?;
                 let grad_self = grad_tensor.mul(&zeros_at_indices)?;
 
-                // Gradient w.r.t. values: gather from grad_output at indices
-                let grad_values = grad_tensor.gather(dim, &indices_tensor)?;
+                // Gradient w.r.t. values: grad_output at the indexed positions
+                let grad_values = grad_tensor.index_select(dim, &indices_tensor)?;
 
                 // IndexPut doesn't have gradient w.r.t. indices
                 Ok(vec![grad_self.id(), grad_values.id()])
@@ -174,45 +184,18 @@ impl VjpCompute for IndexingOp {
                 let src_tensor = tensor_from_id(src_id);
                 let grad_tensor = tensor_from_id(grad_output);
 
-                // Get the values at the scattered positions from output
-                let scattered_values = grad_tensor.gather(dim, &indices_tensor)?;
-
-                // Determine which values "won" (were selected)
-                let src_won = match self {
-                    IndexingOp::ScatterMax => {
-                        // src won if src >= self at those positions
-                        let self_at_indices = self_tensor.gather(dim, &indices_tensor)?;
-                        src_tensor.ge(&self_at_indices)?
-                    },
-                    IndexingOp::ScatterMin => {
-                        // src won if src <= self at those positions
-                        let self_at_indices = self_tensor.gather(dim, &indices_tensor)?;
-                        src_tensor.le(&self_at_indices)?
-                    },
-                    _ => unreachable!(),
-                };
-
-                // Gradient w.r.t. src: flows through where src won
-                let src_won_f = src_won.to_dtype(grad_tensor.dtype())?;
-                let grad_src = scattered_values.mul(&src_won_f)?;
-
-                // Gradient w.r.t. self: flows through where self won
-                // Create mask where self won (opposite of src_won)
-                let dtype = self_tensor.dtype();
-                let ones = Tensor::ones(src_won_f.shape(), dtype)?;
-                let self_won = ones.sub(&src_won_f)?;
-
-                // Scatter the masked gradient back
-                let grad_src_scattered = grad_tensor.gather(dim, &indices_tensor)?;
-                let grad_self_at_indices = grad_src_scattered.mul(&self_won)?;
+                // The gradient flows to the elements that hold the resulting extremum
+                let output_tensor = tensor_from_id(output);
+                let dtype = grad_tensor.dtype();
 
-                let zeros = Tensor::zeros(self_tensor.shape(), dtype)?;
-                let grad_self = zeros.scatter_add(dim, &indices_tensor, &grad_self_at_indices)?;
+                let self_won = self_tensor.eq(&output_tensor)?.to_dtype(dtype)?;
+                let grad_self = grad_tensor.mul(&self_won)?;
 
-                // Add gradient from positions not affected by scatter
-                let grad_self_final = grad_self.add(&grad_tensor)?;
+                let output_at_indices = output_tensor.gather(dim, &indices_tensor)?;
+                let src_won = src_tensor.eq(&output_at_indices)?.to_dtype(dtype)?;
+                let grad_src = grad_tensor.gather(dim, &indices_tensor)?.mul(&src_won)?;
 
-                Ok(vec![grad_self_final.id(), grad_src.id()])
+                Ok(vec![grad_self.id(), grad_src.id()])
             },
 
             IndexingOp::Onehot => {
-- 
2.43.0


From b9f7a895691615e83d6ccbc9daec9b78b719fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 16/89] fix: topk sorts by exact values from the permuted
 buffer; topk, cumsum, concat and split validate their inputs

---
 .../hodu_core/src/tensor/ops/concat_split.rs  | 15 ++++-
 crates/hodu_core/src/tensor/ops/scan.rs       |  4 +-
 crates/hodu_core/src/tensor/ops/sort.rs       | 19 ++----
 crates/hodu_cpu_kernels/kernels/ops_sort.c    | 63 ++++++++++++-------
 4 files changed, 62 insertions(+), 39 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/concat_split.rs b/crates/hodu_core/src/tensor/ops/concat_split.rs
index 701a3f2..6a93537 100644
--- a/crates/hodu_core/src/tensor/ops/concat_split.rs
+++ b/crates/hodu_core/src/tensor/ops/concat_split.rs
@@ -40,7 +40,9 @@ impl Tensor {
         let mut output_dims = layouts[0].shape().dims().to_vec();
         for layout in &layouts[1..] {
             let dims = layout.shape().dims();
-            if dims.len() != output_dims.len() {
+            if dims.len() != output_dims.len()
+                || (0..ndim).any(|d| d != dim_usize && dims[d] != output_dims[d])
+            {
                 return Err(HoduError::incompatible_shapes(
                     Shape::from(&output_dims),
                     layout.shape().clone(),
@@ -139,6 +141,17 @@ impl Tensor {
         let shape_dims = shape.dims();
         let requires_grad = self.is_requires_grad() && validate_requires_grad;
 
+        let within_dim = sizes
+            .iter()
+            .try_fold(0usize, |sum, &size| sum.checked_add(size))
+            .is_some_and(|sum| sum <= shape_dims[dim_usize]);
+        if !within_dim {
+            return Err(HoduError::InvalidArgument(format!(
+                "split sizes {:?} exceed dimension size {}",
+                sizes, shape_dims[dim_usize]
+            )));
+        }
+
         // Prepare sizes as Scalars
         let sizes_scalars: Vec<Scalar> = sizes.iter().map(|&s| Scalar::from(s)).collect();
 
diff --git a/crates/hodu_core/src/tensor/ops/scan.rs b/crates/hodu_core/src/tensor/ops/scan.rs
index df2f87d..e8dae85 100644
--- a/crates/hodu_core/src/tensor/ops/scan.rs
+++ b/crates/hodu_core/src/tensor/ops/scan.rs
@@ -5,7 +5,7 @@ use crate::{
     scalar::Scalar,
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::Layout,
-    utils::valid::validate_axis,
+    utils::valid::{validate_axis, validate_dtype_for_device, validate_dtype_for_op},
 };
 
 impl Tensor {
@@ -14,6 +14,8 @@ impl Tensor {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
         let dim_usize = validate_axis(dim_i32, ndim)?;
+        validate_dtype_for_device(self.dtype(), self.device())?;
+        validate_dtype_for_op(self.dtype(), Op::Scan(ScanOp::CumSum))?;
 
         let op_params = OpParams::Scan(ScanParams { dim: dim_usize });
 
diff --git a/crates/hodu_core/src/tensor/ops/sort.rs b/crates/hodu_core/src/tensor/ops/sort.rs
index 9860e95..3c7db16 100644
--- a/crates/hodu_core/src/tensor/ops/sort.rs
+++ b/crates/hodu_core/src/tensor/ops/sort.rs
@@ -4,6 +4,7 @@ use crate::{
     ops::{Op, SortOp},
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Layout, Shape},
+    utils::valid::{validate_axis, validate_dtype_for_device, validate_dtype_for_op},
 };
 
 impl Tensor {
@@ -35,19 +36,9 @@ impl Tensor {
             return Err(HoduError::InternalError("topk requires at least 1D tensor".to_string()));
         }
 
-        // Normalize negative dim
-        let dim_normalized = if dim < 0 {
-            (ndim as i32 + dim) as usize
-        } else {
-            dim as usize
-        };
-
-        if dim_normalized >= ndim {
-            return Err(HoduError::InternalError(format!(
-                "Dimension out of range (expected to be in range of [-{}, {}), but got {})",
-                ndim, ndim, dim
-            )));
-        }
+        let dim_normalized = validate_axis(dim, ndim)?;
+        validate_dtype_for_device(self.dtype(), self.device())?;
+        validate_dtype_for_op(self.dtype(), Op::Sort(SortOp::TopK))?;
 
         let dim_size = shape[dim_normalized];
         if k > dim_size {
@@ -143,7 +134,7 @@ impl Tensor {
             let mut kernel_output_shape = input_shape.dims().to_vec();
             kernel_output_shape[ndim - 1] = k;
 
-            let (values_storage, indices_storage) = self
+            let (values_storage, indices_storage) = input
                 .with_storage(|storage| storage.call_topk(&input.layout(), k, last_dim, outer_size, largest, sorted))?;
 
             let values = from_storage_with_context(
diff --git a/crates/hodu_cpu_kernels/kernels/ops_sort.c b/crates/hodu_cpu_kernels/kernels/ops_sort.c
index 5cda2db..861b38a 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_sort.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_sort.c
@@ -1,17 +1,19 @@
 #include "ops_sort.h"
 #include "types.h"
+#include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 
 // Helper struct for sorting with indices
 typedef struct {
-    float value;
+    uint64_t value; // unsigned key in the order of the values
     i32_t index;
 } ValueIndex;
 
 // Comparison functions for qsort
 static int cmp_largest(const void *a, const void *b) {
-    float va = ((ValueIndex *)a)->value;
-    float vb = ((ValueIndex *)b)->value;
+    uint64_t va = ((ValueIndex *)a)->value;
+    uint64_t vb = ((ValueIndex *)b)->value;
     if (va > vb)
         return -1;
     if (va < vb)
@@ -20,8 +22,8 @@ static int cmp_largest(const void *a, const void *b) {
 }
 
 static int cmp_smallest(const void *a, const void *b) {
-    float va = ((ValueIndex *)a)->value;
-    float vb = ((ValueIndex *)b)->value;
+    uint64_t va = ((ValueIndex *)a)->value;
+    uint64_t vb = ((ValueIndex *)b)->value;
     if (va < vb)
         return -1;
     if (va > vb)
@@ -31,7 +33,7 @@ static int cmp_smallest(const void *a, const void *b) {
 
 // Partition for quickselect
 static size_t partition(ValueIndex *arr, size_t left, size_t right, int largest) {
-    float pivot = arr[right].value;
+    uint64_t pivot = arr[right].value;
     size_t i = left;
     for (size_t j = left; j < right; j++) {
         int should_swap = largest ? (arr[j].value > pivot) : (arr[j].value < pivot);
@@ -93,7 +95,7 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
     }
 }
 
-#define IMPL_TOPK(TYPE, TYPE_SUFFIX, TO_FLOAT)                                                     \
+#define IMPL_TOPK(TYPE, TYPE_SUFFIX, SORT_KEY)                                                     \
     void hodu_cpu_topk_##TYPE_SUFFIX(const void *input, void *values, void *indices,               \
                                      const size_t *metadata) {                                     \
         const size_t k = metadata[1];                                                              \
@@ -117,7 +119,7 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
                                                                                                    \
             /* Fill temporary buffer with values and indices */                                    \
             for (size_t i = 0; i < last_dim_size; i++) {                                           \
-                temp[i].value = TO_FLOAT(row[i]);                                                  \
+                temp[i].value = SORT_KEY(row[i]);                                                  \
                 temp[i].index = (i32_t)i;                                                          \
             }                                                                                      \
                                                                                                    \
@@ -136,19 +138,34 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
         free(temp);                                                                                \
     }
 
-#define IDENTITY(x) (x)
+// Keys ordered like the values; NaN is the largest, both zeros are equal
+static inline uint64_t float_key(double x) {
+    uint64_t bits;
+    if (x != x)
+        return UINT64_MAX;
+    x += 0.0;
+    memcpy(&bits, &x, sizeof bits);
+    return (bits >> 63) ? ~bits : bits | ((uint64_t)1 << 63);
+}
+
+#define SIGNED_KEY(x) ((uint64_t)(int64_t)(x) ^ ((uint64_t)1 << 63))
+#define UNSIGNED_KEY(x) ((uint64_t)(x))
+#define BF16_KEY(x) float_key(bf16_to_float(x))
+#define F16_KEY(x) float_key(f16_to_float(x))
+#define F8E4M3_KEY(x) float_key(f8e4m3_to_float(x))
+#define F8E5M2_KEY(x) float_key(f8e5m2_to_float(x))
 
-IMPL_TOPK(f32_t, f32, IDENTITY)
-IMPL_TOPK(f64_t, f64, IDENTITY)
-IMPL_TOPK(u8_t, u8, IDENTITY)
-IMPL_TOPK(u16_t, u16, IDENTITY)
-IMPL_TOPK(u32_t, u32, IDENTITY)
-IMPL_TOPK(u64_t, u64, IDENTITY)
-IMPL_TOPK(i8_t, i8, IDENTITY)
-IMPL_TOPK(i16_t, i16, IDENTITY)
-IMPL_TOPK(i32_t, i32, IDENTITY)
-IMPL_TOPK(i64_t, i64, IDENTITY)
-IMPL_TOPK(bf16_t, bf16, bf16_to_float)
-IMPL_TOPK(f16_t, f16, f16_to_float)
-IMPL_TOPK(f8e4m3_t, f8e4m3, f8e4m3_to_float)
-IMPL_TOPK(f8e5m2_t, f8e5m2, f8e5m2_to_float)
+IMPL_TOPK(f32_t, f32, float_key)
+IMPL_TOPK(f64_t, f64, float_key)
+IMPL_TOPK(u8_t, u8, UNSIGNED_KEY)
+IMPL_TOPK(u16_t, u16, UNSIGNED_KEY)
+IMPL_TOPK(u32_t, u32, UNSIGNED_KEY)
+IMPL_TOPK(u64_t, u64, UNSIGNED_KEY)
+IMPL_TOPK(i8_t, i8, SIGNED_KEY)
+IMPL_TOPK(i16_t, i16, SIGNED_KEY)
+IMPL_TOPK(i32_t, i32, SIGNED_KEY)
+IMPL_TOPK(i64_t, i64, SIGNED_KEY)
+IMPL_TOPK(bf16_t, bf16, BF16_KEY)
+IMPL_TOPK(f16_t, f16, F16_KEY)
+IMPL_TOPK(f8e4m3_t, f8e4m3, F8E4M3_KEY)
+IMPL_TOPK(f8e5m2_t, f8e5m2, F8E5M2_KEY)
-- 
2.43.0


From 519b9aeb40eb2a106bf6b69f26c6ac03c85beaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 17/89] fix: contiguous copies carry the gradient; transpose
 and permute gradients invert the recorded axes

---
 crates/hodu_core/src/op_params.rs             |  9 +-
 crates/hodu_core/src/ops.rs                   |  2 +-
 .../hodu_core/src/tensor/gradient/compute.rs  |  4 +-
 .../src/tensor/gradient/vjp_shape.rs          | 84 ++++---------------
 .../hodu_core/src/tensor/ops/cast_memory.rs   | 26 +++++-
 crates/hodu_core/src/tensor/ops/shape.rs      | 14 +++-
 crates/hodu_core/src/utils/valid.rs           |  4 +-
 7 files changed, 63 insertions(+), 80 deletions(-)

diff --git a/crates/hodu_core/src/op_params.rs b/crates/hodu_core/src/op_params.rs
index ef8209c..b470ad5 100644
--- a/crates/hodu_core/src/op_params.rs
+++ b/crates/hodu_core/src/op_params.rs
@@ -481,11 +481,16 @@ pub struct BroadcastParams;
 
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-pub struct TransposeParams;
+pub struct TransposeParams {
+    pub dim1: i32,
+    pub dim2: i32,
+}
 
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-pub struct PermuteParams;
+pub struct PermuteParams {
+    pub axes: Vec<i32>,
+}
 
 // Shape Memory Operations
 
diff --git a/crates/hodu_core/src/ops.rs b/crates/hodu_core/src/ops.rs
index 287f3ea..fa77879 100644
--- a/crates/hodu_core/src/ops.rs
+++ b/crates/hodu_core/src/ops.rs
@@ -810,7 +810,7 @@ impl fmt::Debug for CastOp {
 #[derive(Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub enum MemoryOp {
-    Contiguous, // no-backprop
+    Contiguous,
 }
 
 impl fmt::Display for MemoryOp {
diff --git a/crates/hodu_core/src/tensor/gradient/compute.rs b/crates/hodu_core/src/tensor/gradient/compute.rs
index 8d2b786..78c7e1a 100644
--- a/crates/hodu_core/src/tensor/gradient/compute.rs
+++ b/crates/hodu_core/src/tensor/gradient/compute.rs
@@ -5,7 +5,7 @@ use super::{
 };
 use crate::{
     error::{HoduError, HoduResult},
-    ops::{Op, OpParams},
+    ops::{MemoryOp, Op, OpParams},
     tensor::{self, set_grad_tensor_id, tensor_from_id, Tensor, TensorId},
 };
 use std::collections::HashMap;
@@ -185,6 +185,8 @@ fn compute_vjp_for_op(
         Op::Shape(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         Op::ShapeScalars(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         Op::ShapeMemory(op) => op.compute_vjp(inputs, output, grad_output, op_params),
+        // A copy: the gradient passes through
+        Op::Memory(MemoryOp::Contiguous) => Ok(vec![grad_output]),
         _ => Err(HoduError::VjpFunctionNotFound(format!("compute_vjp for {:?}", op))),
     }
 }
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
index 1f7aa13..eb98f06 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
@@ -1,7 +1,7 @@
 use super::VjpCompute;
 use crate::{
     error::{HoduError, HoduResult},
-    ops::{OpParams, ShapeOp, ShapeScalarsOp, SliceParams},
+    ops::{OpParams, PermuteParams, ShapeOp, ShapeScalarsOp, SliceParams, TransposeParams},
     tensor::{tensor_from_id, Tensor, TensorId},
     types::Layout,
     utils::valid::validate_axis,
@@ -13,7 +13,7 @@ impl VjpCompute for ShapeOp {
         inputs: &[TensorId],
         _output: TensorId,
         grad_output: TensorId,
-        _op_params: &OpParams,
+        op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
         let input = inputs[0];
         let input_tensor = tensor_from_id(input);
@@ -71,80 +71,30 @@ impl VjpCompute for ShapeOp {
                 Ok(vec![final_grad.id()])
             },
             ShapeOp::Transpose => {
-                // Reverse the transpose by finding which dimensions were swapped
-                // Compare input and output shapes to determine the transpose dimensions
-                if input_shape.dims().len() != grad_shape.dims().len() {
-                    return Err(HoduError::InternalError(
-                        "Input and gradient shapes must have same rank for transpose".to_string(),
+                let OpParams::Transpose(TransposeParams { dim1, dim2 }) = op_params else {
+                    return Err(HoduError::VjpFunctionNotFound(
+                        "Transpose requires TransposeParams".to_string(),
                     ));
-                }
-
-                if input_shape.dims().len() < 2 {
-                    // For 0D or 1D tensors, transpose has no effect
-                    Ok(vec![grad_output])
-                } else {
-                    // Find which dimensions were swapped by comparing shapes
-                    let mut transpose_dims = None;
-
-                    // Check common case: last two dimensions transposed
-                    if input_shape.dims().len() >= 2 {
-                        let last_idx = input_shape.dims().len() - 1;
-                        let second_last_idx = input_shape.dims().len() - 2;
-
-                        if input_shape.dims()[last_idx] == grad_shape.dims()[second_last_idx]
-                            && input_shape.dims()[second_last_idx] == grad_shape.dims()[last_idx]
-                        {
-                            // Check if all other dimensions match
-                            let other_dims_match = input_shape.dims()[..second_last_idx]
-                                .iter()
-                                .zip(grad_shape.dims()[..second_last_idx].iter())
-                                .all(|(a, b)| a == b);
-
-                            if other_dims_match {
-                                transpose_dims = Some((second_last_idx as i32, last_idx as i32));
-                            }
-                        }
-                    }
+                };
 
-                    // If we couldn't determine the transpose dimensions, fall back to (-2, -1)
-                    let (dim1, dim2) = transpose_dims.unwrap_or((-2i32, -1i32));
-                    let transposed_grad = grad_tensor.transpose(dim1, dim2)?;
-                    Ok(vec![transposed_grad.id()])
-                }
+                // A swap is its own inverse
+                let transposed_grad = grad_tensor.transpose(*dim1, *dim2)?;
+                Ok(vec![transposed_grad.id()])
             },
             ShapeOp::Permute => {
-                // Reverse the permutation by finding the inverse permutation
-                // If forward permutation is [a, b, c], then inverse is such that inverse[forward[i]] = i
-                if input_shape.dims().len() != grad_shape.dims().len() {
-                    return Err(HoduError::InternalError(
-                        "Input and gradient shapes must have same rank for permute".to_string(),
+                let OpParams::Permute(PermuteParams { axes }) = op_params else {
+                    return Err(HoduError::VjpFunctionNotFound(
+                        "Permute requires PermuteParams".to_string(),
                     ));
-                }
-
-                let ndim = input_shape.dims().len();
-
-                // Find the forward permutation by comparing input and grad shapes
-                let mut forward_perm = vec![0; ndim];
-                for i in 0..ndim {
-                    for j in 0..ndim {
-                        if input_shape.dims()[i] == grad_shape.dims()[j] {
-                            // Check if this dimension is already used
-                            let already_used = forward_perm[..i].contains(&j);
-                            if !already_used {
-                                forward_perm[i] = j;
-                                break;
-                            }
-                        }
-                    }
-                }
+                };
 
-                // Compute inverse permutation
+                // Output dimension i is input dimension axes[i]
+                let ndim = input_shape.ndim();
                 let mut inverse_perm = vec![0usize; ndim];
-                for (i, &p) in forward_perm.iter().enumerate() {
-                    inverse_perm[p] = i;
+                for (i, &axis) in axes.iter().enumerate() {
+                    inverse_perm[validate_axis(axis, ndim)?] = i;
                 }
 
-                // Apply inverse permutation to gradient
                 let permuted_grad = grad_tensor.permute(&inverse_perm)?;
                 Ok(vec![permuted_grad.id()])
             },
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index 76d4467..64866ee 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -1,7 +1,7 @@
 use crate::{
     error::{HoduError, HoduResult},
     ops::{CastOp, ContiguousParams, MemoryOp, Op, OpParams, ToDTypeParams},
-    tensor::{create_builder_tensor, from_storage_with_context, Tensor},
+    tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Device, Layout},
     utils::valid::validate_dtype_for_device,
 };
@@ -59,9 +59,11 @@ impl Tensor {
             return Ok(self.clone());
         }
 
+        let requires_grad = self.is_requires_grad();
+
         if crate::snapshot::capture::is_active() {
             let result_layout = Layout::from_shape(&self.shape());
-            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
+            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
             crate::snapshot::capture::capture_operation(
                 Op::Memory(MemoryOp::Contiguous),
@@ -72,12 +74,30 @@ impl Tensor {
                 result_layout,
             )?;
 
+            if requires_grad {
+                gradient::record_operation(
+                    vec![self.id()],
+                    result_id,
+                    Op::Memory(MemoryOp::Contiguous),
+                    OpParams::Contiguous(ContiguousParams),
+                )?;
+            }
+
             Ok(result_tensor)
         } else {
             let storage = self.with_storage(|storage| storage.contiguous(&self.layout()))?;
             let layout = Layout::from_shape(&self.shape());
 
-            let result = from_storage_with_context(storage, layout, true, false);
+            let result = from_storage_with_context(storage, layout, true, requires_grad);
+
+            if !gradient::is_computing_gradients() && requires_grad {
+                gradient::record_operation(
+                    vec![self.id()],
+                    result.id(),
+                    Op::Memory(MemoryOp::Contiguous),
+                    OpParams::Contiguous(ContiguousParams),
+                )?;
+            }
 
             Ok(result)
         }
diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index f5268fe..a5551d4 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -325,7 +325,10 @@ impl Tensor {
                     vec![self.id()],
                     result_id,
                     Op::Shape(ShapeOp::Transpose),
-                    OpParams::Transpose(TransposeParams),
+                    OpParams::Transpose(TransposeParams {
+                        dim1: dim1_i32,
+                        dim2: dim2_i32,
+                    }),
                 )?;
             }
 
@@ -338,7 +341,10 @@ impl Tensor {
                     vec![self.id()],
                     result.id(),
                     Op::Shape(ShapeOp::Transpose),
-                    OpParams::Transpose(TransposeParams),
+                    OpParams::Transpose(TransposeParams {
+                        dim1: dim1_i32,
+                        dim2: dim2_i32,
+                    }),
                 )?;
             }
 
@@ -385,7 +391,7 @@ impl Tensor {
                     vec![self.id()],
                     result_id,
                     Op::Shape(ShapeOp::Permute),
-                    OpParams::Permute(PermuteParams),
+                    OpParams::Permute(PermuteParams { axes: axes_i32 }),
                 )?;
             }
 
@@ -398,7 +404,7 @@ impl Tensor {
                     vec![self.id()],
                     result.id(),
                     Op::Shape(ShapeOp::Permute),
-                    OpParams::Permute(PermuteParams),
+                    OpParams::Permute(PermuteParams { axes: axes_i32 }),
                 )?;
             }
 
diff --git a/crates/hodu_core/src/utils/valid.rs b/crates/hodu_core/src/utils/valid.rs
index bca6052..28d67cc 100644
--- a/crates/hodu_core/src/utils/valid.rs
+++ b/crates/hodu_core/src/utils/valid.rs
@@ -502,8 +502,8 @@ pub fn validate_requires_grad_for_op(op: Op) -> bool {
         // Cast operations - no backprop
         Op::Cast(_) => false, // !
 
-        // Memory operations - no backprop
-        Op::Memory(_) => false, // !
+        // Memory operations
+        Op::Memory(_) => true,
 
         Op::Dummy => false,
     }
-- 
2.43.0


From 3acef2f3731d36792b5f2ed46254c20da56ac39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 18/89] fix: index_put metadata in the order the kernels read
 it

---
 crates/hodu_core/src/op_metadatas.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 6a094e3..9bc01df 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -730,7 +730,7 @@ pub fn index_select_metadata(layout: &Layout, dim: usize, num_indices: usize, ou
 /// Generate metadata for index_put operations
 ///
 /// Format:
-/// - [num_els, num_dims, input_shape, input_strides, input_offset, values_shape, values_strides, values_offset, dim, num_indices]
+/// - [num_els, num_dims, input_shape, input_strides, values_strides, input_offset, values_offset, dim, num_indices]
 pub fn index_put_metadata(
     layout: &Layout,
     values_layout: &Layout,
@@ -739,32 +739,25 @@ pub fn index_put_metadata(
     output_num_els: usize,
 ) -> Vec<usize> {
     let input_shape = layout.shape();
-    let values_shape = values_layout.shape();
     let ndim = input_shape.ndim();
 
-    let mut metadata = Vec::with_capacity(2 + ndim + ndim + 1 + ndim + ndim + 1 + 1 + 1);
+    let mut metadata = Vec::with_capacity(2 + 3 * ndim + 4);
 
     metadata.push(output_num_els);
     metadata.push(ndim);
 
-    // input shape and strides
     for &d in input_shape.dims() {
         metadata.push(d);
     }
     for &s in layout.strides() {
         metadata.push(s);
     }
-    metadata.push(layout.offset());
-
-    // values shape and strides
-    for &d in values_shape.dims() {
-        metadata.push(d);
-    }
     for &s in values_layout.strides() {
         metadata.push(s);
     }
-    metadata.push(values_layout.offset());
 
+    metadata.push(layout.offset());
+    metadata.push(values_layout.offset());
     metadata.push(dim);
     metadata.push(num_indices);
 
-- 
2.43.0


From 655105f3fabd7d1d5f64c0254a52f219874d4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 19/89] fix: flip reads the elements of a view, not the start
 of its buffer

---
 crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs b/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
index 0946a29..4e60769 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
@@ -19,6 +19,15 @@ pub fn call_ops_flip(storage: &CpuStorage, layout: &Layout, dims: &[usize]) -> H
 
     let mut output = CpuDevice::allocate(num_els, dtype)?;
 
+    // The kernel reads its input linearly
+    let gathered;
+    let storage = if layout.is_contiguous() && layout.offset() == 0 {
+        storage
+    } else {
+        gathered = storage.contiguous(layout)?;
+        &gathered
+    };
+
     macro_rules! call_flip {
         ($input_data:expr, $out_data:expr) => {{
             let input_ptr = $input_data.as_ptr() as *const c_void;
-- 
2.43.0


From 30b1075cbd7247868d8677a498031e38a9753e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 20/89] fix: to_device copies the elements of a view, not the
 start of its buffer

---
 crates/hodu_core/src/tensor/ops/cast_memory.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index 64866ee..2f302f4 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -44,10 +44,10 @@ impl Tensor {
         if crate::snapshot::capture::is_active() {
             Err(HoduError::CaptureNotActive)
         } else {
-            let layout = Layout::from_shape(&self.shape());
-            let storage = self.with_storage(|storage| storage.to_device(&layout, device))?;
+            let storage = self.with_storage(|storage| storage.to_device(&self.layout(), device))?;
+            let result_layout = Layout::from_shape(&self.shape());
 
-            let result = from_storage_with_context(storage, layout, true, false);
+            let result = from_storage_with_context(storage, result_layout, true, false);
 
             Ok(result)
         }
-- 
2.43.0


From ca8e32e632f891e999a021ed6c7e15ae5b3d6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:00 +0000
Subject: [PATCH 21/89] fix: einsum passes every operand's layout to the kernel
 and rejects equations it cannot index

---
 crates/hodu_core/src/einsum.rs            | 19 ++++++++++++++++++-
 crates/hodu_core/src/tensor/ops/einsum.rs |  5 ++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/einsum.rs b/crates/hodu_core/src/einsum.rs
index de03ed9..147ba55 100644
--- a/crates/hodu_core/src/einsum.rs
+++ b/crates/hodu_core/src/einsum.rs
@@ -2,6 +2,9 @@ use crate::error::{HoduError, HoduResult};
 use crate::types::Shape;
 use std::collections::{HashMap, HashSet};
 
+/// Maximum number of unique indices, and of dimensions per operand
+const MAX_INDICES: usize = 16;
+
 #[derive(Debug, Clone)]
 pub struct ParsedEinsum {
     pub input_subscripts: Vec<Vec<char>>,
@@ -85,13 +88,27 @@ impl ParsedEinsum {
                 .collect()
         };
 
-        for &c in &output_subscripts {
+        for (i, &c) in output_subscripts.iter().enumerate() {
             if !index_sizes.contains_key(&c) {
                 return Err(HoduError::InvalidArgument(format!(
                     "einsum output index '{}' not found in any input",
                     c
                 )));
             }
+            if output_subscripts[..i].contains(&c) {
+                return Err(HoduError::InvalidArgument(format!(
+                    "einsum output index '{}' appears more than once",
+                    c
+                )));
+            }
+        }
+
+        // The kernels use fixed-size index tables
+        if all_indices.len() > MAX_INDICES || input_subscripts.iter().any(|subs| subs.len() > MAX_INDICES) {
+            return Err(HoduError::InvalidArgument(format!(
+                "einsum supports at most {} indices",
+                MAX_INDICES
+            )));
         }
 
         let output_set: HashSet<char> = output_subscripts.iter().cloned().collect();
diff --git a/crates/hodu_core/src/tensor/ops/einsum.rs b/crates/hodu_core/src/tensor/ops/einsum.rs
index 474e067..63c0b57 100644
--- a/crates/hodu_core/src/tensor/ops/einsum.rs
+++ b/crates/hodu_core/src/tensor/ops/einsum.rs
@@ -101,12 +101,11 @@ impl Tensor {
 
             Ok(result_tensor)
         } else {
-            let other_layouts: Vec<Layout> = tensors.iter().skip(1).map(|t| t.layout()).collect();
-            let input_layout_refs: Vec<&Layout> = other_layouts.iter().collect();
+            let input_layout_refs: Vec<&Layout> = input_layouts.iter().collect();
 
             // Execute with nested with_storage calls based on tensor count
             let storage = match tensors.len() {
-                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &[], &parsed))?,
+                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &input_layout_refs, &parsed))?,
                 2 => tensors[0].with_storage(|s0| {
                     tensors[1].with_storage(|s1| s0.call_ops_einsum(&[s1], &input_layout_refs, &parsed))
                 })?,
-- 
2.43.0


From 3e92edf8e842f8dbdb1c90d4e916725aaa643de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:45 +0000
Subject: [PATCH 22/89] fix: BLAS matmul only takes layouts whose leading
 dimension BLAS accepts, batch offsets in batch order

---
 .../ops_matrix_blas_aarch64_apple_darwin.c    | 70 ++++++++++++-------
 .../kernels/ops_matrix_openblas.c             | 70 ++++++++++++-------
 2 files changed, 88 insertions(+), 52 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
index ebec0b5..b8851ed 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
@@ -44,10 +44,15 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
     // Determine matrix layouts and transpose flags
     // Row-major: innermost (last) stride is 1
     // Col-major: outermost (second-to-last) stride is 1
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    // A leading dimension may not be smaller than a row (broadcast dimensions have stride 0)
+    const size_t lhs_stride_m = lhs_strides[lhs_ndim - 2];
+    const size_t lhs_stride_k = lhs_strides[lhs_ndim - 1];
+    const size_t rhs_stride_k = rhs_strides[rhs_ndim - 2];
+    const size_t rhs_stride_n = rhs_strides[rhs_ndim - 1];
+    bool lhs_row_major = (lhs_stride_k == 1) && (M == 1 || lhs_stride_m >= K);
+    bool lhs_col_major = (lhs_stride_m == 1) && (K == 1 || lhs_stride_k >= M);
+    bool rhs_row_major = (rhs_stride_n == 1) && (K == 1 || rhs_stride_k >= N);
+    bool rhs_col_major = (rhs_stride_k == 1) && (N == 1 || rhs_stride_n >= K);
 
     // Can use BLAS if either row-major or col-major (transposed)
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
@@ -101,11 +106,14 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     idx /= batch_shape[i - 1];
 
                     // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    if (i + lhs_ndim - 2 > batch_ndim) {
+                        const size_t d = i + lhs_ndim - 3 - batch_ndim;
+                        lhs_batch_offset += (lhs_shape[d] == 1 ? 0 : dim_idx) * lhs_strides[d];
+                    }
+                    if (i + rhs_ndim - 2 > batch_ndim) {
+                        const size_t d = i + rhs_ndim - 3 - batch_ndim;
+                        rhs_batch_offset += (rhs_shape[d] == 1 ? 0 : dim_idx) * rhs_strides[d];
+                    }
                 }
 
                 const f32_t *lhs_batch = lhs + lhs_batch_offset;
@@ -149,10 +157,15 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    // A leading dimension may not be smaller than a row (broadcast dimensions have stride 0)
+    const size_t lhs_stride_m = lhs_strides[lhs_ndim - 2];
+    const size_t lhs_stride_k = lhs_strides[lhs_ndim - 1];
+    const size_t rhs_stride_k = rhs_strides[rhs_ndim - 2];
+    const size_t rhs_stride_n = rhs_strides[rhs_ndim - 1];
+    bool lhs_row_major = (lhs_stride_k == 1) && (M == 1 || lhs_stride_m >= K);
+    bool lhs_col_major = (lhs_stride_m == 1) && (K == 1 || lhs_stride_k >= M);
+    bool rhs_row_major = (rhs_stride_n == 1) && (K == 1 || rhs_stride_k >= N);
+    bool rhs_col_major = (rhs_stride_k == 1) && (N == 1 || rhs_stride_n >= K);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -202,11 +215,14 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     idx /= batch_shape[i - 1];
 
                     // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    if (i + lhs_ndim - 2 > batch_ndim) {
+                        const size_t d = i + lhs_ndim - 3 - batch_ndim;
+                        lhs_batch_offset += (lhs_shape[d] == 1 ? 0 : dim_idx) * lhs_strides[d];
+                    }
+                    if (i + rhs_ndim - 2 > batch_ndim) {
+                        const size_t d = i + rhs_ndim - 3 - batch_ndim;
+                        rhs_batch_offset += (rhs_shape[d] == 1 ? 0 : dim_idx) * rhs_strides[d];
+                    }
                 }
 
                 const f64_t *lhs_batch = lhs + lhs_batch_offset;
@@ -245,10 +261,11 @@ void hodu_cpu_dot_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    // A leading dimension may not be smaller than a row (broadcast dimensions have stride 0)
+    bool lhs_row_major = (lhs_stride_k == 1) && (M == 1 || lhs_stride_m >= K);
+    bool lhs_col_major = (lhs_stride_m == 1) && (K == 1 || lhs_stride_k >= M);
+    bool rhs_row_major = (rhs_stride_n == 1) && (K == 1 || rhs_stride_k >= N);
+    bool rhs_col_major = (rhs_stride_k == 1) && (N == 1 || rhs_stride_n >= K);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -302,10 +319,11 @@ void hodu_cpu_dot_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    // A leading dimension may not be smaller than a row (broadcast dimensions have stride 0)
+    bool lhs_row_major = (lhs_stride_k == 1) && (M == 1 || lhs_stride_m >= K);
+    bool lhs_col_major = (lhs_stride_m == 1) && (K == 1 || lhs_stride_k >= M);
+    bool rhs_row_major = (rhs_stride_n == 1) && (K == 1 || rhs_stride_k >= N);
+    bool rhs_col_major = (rhs_stride_k == 1) && (N == 1 || rhs_stride_n >= K);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
index 50bd87e..1013ead 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
@@ -44,10 +44,15 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
     // Determine matrix layouts and transpose flags
     // Row-major: innermost (last) stride is 1
     // Col-major: outermost (second-to-last) stride is 1
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    // A leading dimension may not be smaller than a row (broadcast dimensions have stride 0)
+    const size_t lhs_stride_m = lhs_strides[lhs_ndim - 2];
+    const size_t lhs_stride_k = lhs_strides[lhs_ndim - 1];
+    const size_t rhs_stride_k = rhs_strides[rhs_ndim - 2];
+    const size_t rhs_stride_n = rhs_strides[rhs_ndim - 1];
+    bool lhs_row_major = (lhs_stride_k == 1) && (M == 1 || lhs_stride_m >= K);
+    bool lhs_col_major = (lhs_stride_m == 1) && (K == 1 || lhs_stride_k >= M);
+    bool rhs_row_major = (rhs_stride_n == 1) && (K == 1 || rhs_stride_k >= N);
+    bool rhs_col_major = (rhs_stride_k == 1) && (N == 1 || rhs_stride_n >= K);
 
     // Can use BLAS if either row-major or col-major (transposed)
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
@@ -127,11 +132,14 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     idx /= batch_shape[i - 1];
 
                     // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    if (i + lhs_ndim - 2 > batch_ndim) {
+                        const size_t d = i + lhs_ndim - 3 - batch_ndim;
+                        lhs_batch_offset += (lhs_shape[d] == 1 ? 0 : dim_idx) * lhs_strides[d];
+                    }
+                    if (i + rhs_ndim - 2 > batch_ndim) {
+                        const size_t d = i + rhs_ndim - 3 - batch_ndim;
+                        rhs_batch_offset += (rhs_shape[d] == 1 ? 0 : dim_idx) * rhs_strides[d];
+                    }
                 }
 
                 const f32_t *lhs_batch = lhs + lhs_batch_offset;
@@ -179,10 +187,15 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    // A leading dimension may not be smaller than a row (broadcast dimensions have stride 0)
+    const size_t lhs_stride_m = lhs_strides[lhs_ndim - 2];
+    const size_t lhs_stride_k = lhs_strides[lhs_ndim - 1];
+    const size_t rhs_stride_k = rhs_strides[rhs_ndim - 2];
+    const size_t rhs_stride_n = rhs_strides[rhs_ndim - 1];
+    bool lhs_row_major = (lhs_stride_k == 1) && (M == 1 || lhs_stride_m >= K);
+    bool lhs_col_major = (lhs_stride_m == 1) && (K == 1 || lhs_stride_k >= M);
+    bool rhs_row_major = (rhs_stride_n == 1) && (K == 1 || rhs_stride_k >= N);
+    bool rhs_col_major = (rhs_stride_k == 1) && (N == 1 || rhs_stride_n >= K);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -257,11 +270,14 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     idx /= batch_shape[i - 1];
 
                     // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    if (i + lhs_ndim - 2 > batch_ndim) {
+                        const size_t d = i + lhs_ndim - 3 - batch_ndim;
+                        lhs_batch_offset += (lhs_shape[d] == 1 ? 0 : dim_idx) * lhs_strides[d];
+                    }
+                    if (i + rhs_ndim - 2 > batch_ndim) {
+                        const size_t d = i + rhs_ndim - 3 - batch_ndim;
+                        rhs_batch_offset += (rhs_shape[d] == 1 ? 0 : dim_idx) * rhs_strides[d];
+                    }
                 }
 
                 const f64_t *lhs_batch = lhs + lhs_batch_offset;
@@ -304,10 +320,11 @@ void hodu_cpu_dot_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    // A leading dimension may not be smaller than a row (broadcast dimensions have stride 0)
+    bool lhs_row_major = (lhs_stride_k == 1) && (M == 1 || lhs_stride_m >= K);
+    bool lhs_col_major = (lhs_stride_m == 1) && (K == 1 || lhs_stride_k >= M);
+    bool rhs_row_major = (rhs_stride_n == 1) && (K == 1 || rhs_stride_k >= N);
+    bool rhs_col_major = (rhs_stride_k == 1) && (N == 1 || rhs_stride_n >= K);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -361,10 +378,11 @@ void hodu_cpu_dot_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    // A leading dimension may not be smaller than a row (broadcast dimensions have stride 0)
+    bool lhs_row_major = (lhs_stride_k == 1) && (M == 1 || lhs_stride_m >= K);
+    bool lhs_col_major = (lhs_stride_m == 1) && (K == 1 || lhs_stride_k >= M);
+    bool rhs_row_major = (rhs_stride_n == 1) && (K == 1 || rhs_stride_k >= N);
+    bool rhs_col_major = (rhs_stride_k == 1) && (N == 1 || rhs_stride_n >= K);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-- 
2.43.0


From 80c2d208c0b27db404145dfaeb51bcf13a72685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:45 +0000
Subject: [PATCH 23/89] fix: exact integer determinants and inverses, float
 singularity is a zero pivot, solve of stacked vectors

---
 crates/hodu_core/src/tensor/ops/linalg.rs    |   6 +-
 crates/hodu_cpu_kernels/kernels/ops_linalg.c | 169 ++++++++++++++++---
 2 files changed, 153 insertions(+), 22 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/linalg.rs b/crates/hodu_core/src/tensor/ops/linalg.rs
index de5f480..d6a68c7 100644
--- a/crates/hodu_core/src/tensor/ops/linalg.rs
+++ b/crates/hodu_core/src/tensor/ops/linalg.rs
@@ -278,8 +278,10 @@ impl Tensor {
         // solve(A, b) = inv(A) @ b
         let inv_a = self.inv()?;
 
-        // For 1D b, unsqueeze -> matmul -> squeeze
-        if b.ndim() == 1 {
+        // For 1D b, and stacks of vectors [..., N], unsqueeze -> matmul -> squeeze
+        let a_shape = self.shape();
+        let is_vector = b.ndim() == 1 || b.shape().dims() == &a_shape.dims()[..a_shape.ndim() - 1];
+        if is_vector {
             let b_col = b.unsqueeze(-1)?;
             let x_col = inv_a.matmul(&b_col)?;
             x_col.squeeze(&[-1])
diff --git a/crates/hodu_cpu_kernels/kernels/ops_linalg.c b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
index 93cfbbd..4bae1db 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_linalg.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
@@ -133,10 +133,7 @@
                     TYPE pivot = lu[k * n + k];                                                    \
                                                                                                    \
                     /* Check for singular matrix */                                                \
-                    TYPE abs_pivot = pivot;                                                        \
-                    if (abs_pivot < 0)                                                             \
-                        abs_pivot = -abs_pivot;                                                    \
-                    if (abs_pivot < (TYPE)1e-15) {                                                 \
+                    if (pivot == 0) {                                                              \
                         det = 0;                                                                   \
                         free(lu);                                                                  \
                         goto store_result_##TYPE_SUFFIX;                                           \
@@ -254,6 +251,11 @@
                     }                                                                              \
                                                                                                    \
                     TYPE pivot = lu[k * n + k];                                                    \
+                    if (TYPE_SUFFIX##_eq(pivot, ZERO)) {                                           \
+                        det = ZERO;                                                                \
+                        swaps = 0;                                                                 \
+                        break;                                                                     \
+                    }                                                                              \
                     det = MUL_FN(det, pivot);                                                      \
                                                                                                    \
                     for (size_t i = k + 1; i < n; i++) {                                           \
@@ -275,6 +277,71 @@
         }                                                                                          \
     }
 
+/// Determinant modulo 2^64 without divisions (Bird's algorithm), so that integer results are the
+/// exact determinant wrapped to the element type. `scratch` holds 2 * n * n elements.
+static uint64_t det_ring(const uint64_t *a, size_t n, uint64_t *scratch) {
+    uint64_t *x = scratch;
+    uint64_t *y = scratch + n * n;
+    for (size_t i = 0; i < n * n; i++) {
+        x[i] = a[i];
+    }
+    for (size_t step = 1; step < n; step++) {
+        /* y = mu(x) * a, with mu(x) the strict upper triangle of x plus negated tail traces */
+        uint64_t tail = 0;
+        for (size_t i = n; i-- > 0;) {
+            for (size_t j = 0; j < n; j++) {
+                uint64_t sum = (uint64_t)0 - tail * a[i * n + j];
+                for (size_t k = i + 1; k < n; k++) {
+                    sum += x[i * n + k] * a[k * n + j];
+                }
+                y[i * n + j] = sum;
+            }
+            tail += x[i * n + i];
+        }
+        uint64_t *tmp = x;
+        x = y;
+        y = tmp;
+    }
+    return (n % 2 == 0) ? (uint64_t)0 - x[0] : x[0];
+}
+
+/// Macro for determinant operation with integer types
+#define DET_OP_INT(TYPE, TYPE_SUFFIX)                                                              \
+    void hodu_cpu_det_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
+                                    const size_t *metadata) {                                      \
+        const TYPE *input = (const TYPE *)input_ptr;                                               \
+        TYPE *output = (TYPE *)output_ptr;                                                         \
+                                                                                                   \
+        const size_t batch_size = metadata[0];                                                     \
+        const size_t n = metadata[1];                                                              \
+        const size_t ndim = metadata[2];                                                           \
+        const size_t *shape = metadata + 3;                                                        \
+        const size_t *strides = metadata + 3 + ndim;                                               \
+        const size_t offset = metadata[3 + 2 * ndim];                                              \
+        const size_t row_stride = strides[ndim - 2];                                               \
+        const size_t col_stride = strides[ndim - 1];                                               \
+                                                                                                   \
+        uint64_t *a = (uint64_t *)malloc(3 * n * n * sizeof(uint64_t));                            \
+                                                                                                   \
+        for (size_t batch = 0; batch < batch_size; batch++) {                                      \
+            size_t batch_offset = offset;                                                          \
+            size_t temp = batch;                                                                   \
+            for (int d = (int)ndim - 3; d >= 0; d--) {                                             \
+                batch_offset += (temp % shape[d]) * strides[d];                                    \
+                temp /= shape[d];                                                                  \
+            }                                                                                      \
+            for (size_t i = 0; i < n; i++) {                                                       \
+                for (size_t j = 0; j < n; j++) {                                                   \
+                    a[i * n + j] =                                                                 \
+                        (uint64_t)DET_GET(input, batch_offset, i, j, row_stride, col_stride);      \
+                }                                                                                  \
+            }                                                                                      \
+            output[batch] = (TYPE)det_ring(a, n, a + n * n);                                       \
+        }                                                                                          \
+                                                                                                   \
+        free(a);                                                                                   \
+    }
+
 // Generate det implementations
 DET_OP(f32_t, f32)
 DET_OP(f64_t, f64)
@@ -286,14 +353,14 @@ DET_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, BF16_ONE, bf16_add, bf16_sub, bf16_mul, b
               bf16_abs, bf16_lt)
 DET_OP_EXOTIC(f16_t, f16, F16_ZERO, F16_ONE, f16_add, f16_sub, f16_mul, f16_div, f16_neg, f16_abs,
               f16_lt)
-DET_OP(int8_t, i8)
-DET_OP(int16_t, i16)
-DET_OP(int32_t, i32)
-DET_OP(int64_t, i64)
-DET_OP(uint8_t, u8)
-DET_OP(uint16_t, u16)
-DET_OP(uint32_t, u32)
-DET_OP(uint64_t, u64)
+DET_OP_INT(int8_t, i8)
+DET_OP_INT(int16_t, i16)
+DET_OP_INT(int32_t, i32)
+DET_OP_INT(int64_t, i64)
+DET_OP_INT(uint8_t, u8)
+DET_OP_INT(uint16_t, u16)
+DET_OP_INT(uint32_t, u32)
+DET_OP_INT(uint64_t, u64)
 
 // ============================================================================
 // MATRIX INVERSE (INV)
@@ -597,6 +664,68 @@ DET_OP(uint64_t, u64)
         }                                                                                          \
     }
 
+/// Macro for matrix inverse operation with integer types: adjugate times the integer 1/det,
+/// which is the inverse of every matrix whose inverse is an integer matrix
+#define INV_OP_INT(TYPE, TYPE_SUFFIX)                                                              \
+    void hodu_cpu_inv_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
+                                    const size_t *metadata) {                                      \
+        const TYPE *input = (const TYPE *)input_ptr;                                               \
+        TYPE *output = (TYPE *)output_ptr;                                                         \
+                                                                                                   \
+        const size_t batch_size = metadata[0];                                                     \
+        const size_t n = metadata[1];                                                              \
+        const size_t ndim = metadata[2];                                                           \
+        const size_t *shape = metadata + 3;                                                        \
+        const size_t *strides = metadata + 3 + ndim;                                               \
+        const size_t offset = metadata[3 + 2 * ndim];                                              \
+        const size_t row_stride = strides[ndim - 2];                                               \
+        const size_t col_stride = strides[ndim - 1];                                               \
+                                                                                                   \
+        uint64_t *a = (uint64_t *)malloc(4 * n * n * sizeof(uint64_t));                            \
+        uint64_t *minor = a + n * n;                                                               \
+                                                                                                   \
+        for (size_t batch = 0; batch < batch_size; batch++) {                                      \
+            size_t batch_offset = offset;                                                          \
+            size_t temp = batch;                                                                   \
+            for (int d = (int)ndim - 3; d >= 0; d--) {                                             \
+                batch_offset += (temp % shape[d]) * strides[d];                                    \
+                temp /= shape[d];                                                                  \
+            }                                                                                      \
+            for (size_t i = 0; i < n; i++) {                                                       \
+                for (size_t j = 0; j < n; j++) {                                                   \
+                    a[i * n + j] =                                                                 \
+                        (uint64_t)DET_GET(input, batch_offset, i, j, row_stride, col_stride);      \
+                }                                                                                  \
+            }                                                                                      \
+                                                                                                   \
+            const TYPE det = (TYPE)det_ring(a, n, minor + n * n);                                  \
+            /* 1 / det in integers: only +1 and -1 have an inverse */                              \
+            const uint64_t inv_det = (det == (TYPE)1 || ((TYPE)-1 < 0 && det == (TYPE)-1))         \
+                                         ? (uint64_t)det                                           \
+                                         : (uint64_t)0;                                            \
+                                                                                                   \
+            for (size_t i = 0; i < n; i++) {                                                       \
+                for (size_t j = 0; j < n; j++) {                                                   \
+                    size_t m = 0;                                                                  \
+                    for (size_t r = 0; r < n; r++) {                                               \
+                        for (size_t c = 0; c < n; c++) {                                           \
+                            if (r != i && c != j) {                                                \
+                                minor[m++] = a[r * n + c];                                         \
+                            }                                                                      \
+                        }                                                                          \
+                    }                                                                              \
+                    uint64_t cofactor = n == 1 ? 1 : det_ring(minor, n - 1, minor + n * n);        \
+                    if ((i + j) % 2 != 0) {                                                        \
+                        cofactor = (uint64_t)0 - cofactor;                                         \
+                    }                                                                              \
+                    INV_SET(output, batch * n * n, j, i, n, (TYPE)(cofactor * inv_det));           \
+                }                                                                                  \
+            }                                                                                      \
+        }                                                                                          \
+                                                                                                   \
+        free(a);                                                                                   \
+    }
+
 // Generate inv implementations
 INV_OP(f32_t, f32)
 INV_OP(f64_t, f64)
@@ -608,14 +737,14 @@ INV_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, BF16_ONE, bf16_add, bf16_sub, bf16_mul, b
               bf16_abs, bf16_lt)
 INV_OP_EXOTIC(f16_t, f16, F16_ZERO, F16_ONE, f16_add, f16_sub, f16_mul, f16_div, f16_neg, f16_abs,
               f16_lt)
-INV_OP(int8_t, i8)
-INV_OP(int16_t, i16)
-INV_OP(int32_t, i32)
-INV_OP(int64_t, i64)
-INV_OP(uint8_t, u8)
-INV_OP(uint16_t, u16)
-INV_OP(uint32_t, u32)
-INV_OP(uint64_t, u64)
+INV_OP_INT(int8_t, i8)
+INV_OP_INT(int16_t, i16)
+INV_OP_INT(int32_t, i32)
+INV_OP_INT(int64_t, i64)
+INV_OP_INT(uint8_t, u8)
+INV_OP_INT(uint16_t, u16)
+INV_OP_INT(uint32_t, u32)
+INV_OP_INT(uint64_t, u64)
 
 // ============================================================================
 // MATRIX TRACE
-- 
2.43.0


From eebd22bdcd2e98fcb38d9686143a683d3035a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 24/89] fix: padding reads the elements of a view, not its
 underlying buffer

---
 crates/hodu_core/src/be_cpu/storage/ops_padding.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_padding.rs b/crates/hodu_core/src/be_cpu/storage/ops_padding.rs
index 6817c6c..6ae4559 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_padding.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_padding.rs
@@ -21,6 +21,18 @@ pub fn call_ops_pad(
         _ => return Err(HoduError::BackendError("call_ops_pad expects Padding op".to_string())),
     };
 
+    // The kernels index their operand densely, so views are materialised first
+    if !layout.is_contiguous() || layout.offset() != 0 {
+        return call_ops_pad(
+            &storage.contiguous(layout)?,
+            &Layout::from_shape(layout.shape()),
+            pad_before,
+            pad_after,
+            pad_value,
+            op,
+        );
+    }
+
     let kernel_prefix = format!("hodu_cpu_{}", padding_op);
 
     let input_shape = layout.shape();
-- 
2.43.0


From 642c7b16126b6aac21752f1c47d56291ec216e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 25/89] fix: window means of the small float types, reject
 windows that do not fit

---
 crates/hodu_core/src/tensor/ops/windowing.rs  |  6 ++++
 .../hodu_cpu_kernels/kernels/ops_windowing.c  | 28 ++++++++++---------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/windowing.rs b/crates/hodu_core/src/tensor/ops/windowing.rs
index 5ae96d8..dbbffc1 100644
--- a/crates/hodu_core/src/tensor/ops/windowing.rs
+++ b/crates/hodu_core/src/tensor/ops/windowing.rs
@@ -69,6 +69,12 @@ impl Tensor {
         let mut output_dims = Vec::with_capacity(rank);
         for i in 0..rank {
             let padded_size = input_dims[i] + padding[i].0 + padding[i].1;
+            if window_dims[i] == 0 || stride_dims[i] == 0 || padded_size < window_dims[i] {
+                return Err(HoduError::InvalidArgument(format!(
+                    "window {} with stride {} does not fit dimension {} of padded size {}",
+                    window_dims[i], stride_dims[i], i, padded_size
+                )));
+            }
             let out_size = (padded_size - window_dims[i]) / stride_dims[i] + 1;
             output_dims.push(out_size);
         }
diff --git a/crates/hodu_cpu_kernels/kernels/ops_windowing.c b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
index d0083ac..183e749 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_windowing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
@@ -125,15 +125,17 @@
  * Computes the average of values in each window. Padding areas are treated as 0.
  * Only available for floating-point types.
  *
- * @param IN_TYPE C type of input elements (float type)
- * @param OUT_TYPE C type of output elements (float type)
+ * @param IN_TYPE C type of input and output elements (float type)
+ * @param ACC_TYPE C type the window is accumulated in
  * @param TYPE_SUFFIX Suffix for function name
+ * @param TO_ACC Conversion from IN_TYPE to ACC_TYPE
+ * @param FROM_ACC Conversion from ACC_TYPE to IN_TYPE
  */
-#define REDUCE_WINDOW_MEAN_OP(IN_TYPE, OUT_TYPE, TYPE_SUFFIX)                                      \
+#define REDUCE_WINDOW_MEAN_OP(IN_TYPE, ACC_TYPE, TYPE_SUFFIX, TO_ACC, FROM_ACC)                    \
     void hodu_cpu_reduce_window_mean_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,        \
                                                    const size_t *metadata) {                       \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
-        OUT_TYPE *output = (OUT_TYPE *)output_ptr;                                                 \
+        IN_TYPE *output = (IN_TYPE *)output_ptr;                                                   \
                                                                                                    \
         const size_t num_els = metadata[0];                                                        \
         const size_t num_dims = metadata[1];                                                       \
@@ -154,7 +156,7 @@
                 tmp /= output_shape[i];                                                            \
             }                                                                                      \
                                                                                                    \
-            OUT_TYPE sum = 0;                                                                      \
+            ACC_TYPE sum = 0;                                                                      \
             size_t window_size = 1;                                                                \
             for (size_t i = 0; i < num_dims; i++) {                                                \
                 window_size *= window_shape[i];                                                    \
@@ -190,11 +192,11 @@
                     for (size_t i = 0; i < num_dims; i++) {                                        \
                         idx += input_coords[i] * input_strides[i];                                 \
                     }                                                                              \
-                    sum += (OUT_TYPE)input[idx];                                                   \
+                    sum += TO_ACC(input[idx]);                                                     \
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            output[out_idx] = sum / (OUT_TYPE)window_size;                                         \
+            output[out_idx] = FROM_ACC(sum / (ACC_TYPE)window_size);                               \
         }                                                                                          \
     }
 
@@ -213,12 +215,12 @@ REDUCE_WINDOW_OP(uint16_t, uint16_t, max_u16, 0u, acc = MAX(acc, val))
 REDUCE_WINDOW_OP(uint32_t, uint32_t, max_u32, 0u, acc = MAX(acc, val))
 REDUCE_WINDOW_OP(uint64_t, uint64_t, max_u64, 0u, acc = MAX(acc, val))
 
-REDUCE_WINDOW_MEAN_OP(f8e4m3_t, f8e4m3_t, f8e4m3)
-REDUCE_WINDOW_MEAN_OP(f8e5m2_t, f8e5m2_t, f8e5m2)
-REDUCE_WINDOW_MEAN_OP(bf16_t, bf16_t, bf16)
-REDUCE_WINDOW_MEAN_OP(f16_t, f16_t, f16)
-REDUCE_WINDOW_MEAN_OP(float, float, f32)
-REDUCE_WINDOW_MEAN_OP(double, double, f64)
+REDUCE_WINDOW_MEAN_OP(f8e4m3_t, float, f8e4m3, f8e4m3_to_float, float_to_f8e4m3)
+REDUCE_WINDOW_MEAN_OP(f8e5m2_t, float, f8e5m2, f8e5m2_to_float, float_to_f8e5m2)
+REDUCE_WINDOW_MEAN_OP(bf16_t, float, bf16, bf16_to_float, float_to_bf16)
+REDUCE_WINDOW_MEAN_OP(f16_t, float, f16, f16_to_float, float_to_f16)
+REDUCE_WINDOW_MEAN_OP(float, float, f32, (float), (float))
+REDUCE_WINDOW_MEAN_OP(double, double, f64, (double), (double))
 
 REDUCE_WINDOW_OP(f8e4m3_t, f8e4m3_t, sum_f8e4m3, F8E4M3_ZERO, acc = f8e4m3_add(acc, val))
 REDUCE_WINDOW_OP(f8e5m2_t, f8e5m2_t, sum_f8e5m2, F8E5M2_ZERO, acc = f8e5m2_add(acc, val))
-- 
2.43.0


From 9e0da7706188f0841757052334ae0217276c8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 26/89] fix: resize evaluates coordinates exactly, in full
 precision, and interpolates cubically in 3D

---
 crates/hodu_cpu_kernels/kernels/ops_resize.c | 457 +++++--------------
 1 file changed, 113 insertions(+), 344 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_resize.c b/crates/hodu_cpu_kernels/kernels/ops_resize.c
index 1267244..aef5c55 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_resize.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_resize.c
@@ -14,76 +14,101 @@
 // 3=pytorch_half_pixel) [5+3*num_dims]: nearest_mode (0=floor, 1=ceil, 2=round_prefer_floor,
 // 3=round_prefer_ceil)
 
-static inline float transform_coord(float out_coord, size_t in_size, size_t out_size,
-                                    int coord_transform) {
+// Source coordinate of an output coordinate. Evaluated in double with a single division, so that
+// coordinates falling exactly on (or halfway between) source elements come out exact.
+static inline double transform_coord(size_t out_coord, size_t in_size, size_t out_size,
+                                     int coord_transform) {
+    const double o = (double)out_coord;
+    const double in = (double)in_size;
+    const double out = (double)out_size;
+
     if (in_size == out_size) {
-        return out_coord;
+        return o;
     }
 
-    float scale = (float)in_size / (float)out_size;
-
     switch (coord_transform) {
     case RESIZE_COORD_HALF_PIXEL:
-        return (out_coord + 0.5f) * scale - 0.5f;
+        return (o + 0.5) * in / out - 0.5;
     case RESIZE_COORD_ASYMMETRIC:
-        return out_coord * scale;
+        return o * in / out;
     case RESIZE_COORD_ALIGN_CORNERS:
         if (out_size == 1)
-            return 0.0f;
-        return out_coord * (float)(in_size - 1) / (float)(out_size - 1);
+            return 0.0;
+        return o * (in - 1.0) / (out - 1.0);
     case RESIZE_COORD_PYTORCH_HALF_PIXEL:
         if (out_size == 1)
-            return 0.0f;
-        return (out_coord + 0.5f) * scale - 0.5f;
+            return 0.0;
+        return (o + 0.5) * in / out - 0.5;
     default:
-        return out_coord * scale;
+        return o * in / out;
     }
 }
 
-static inline size_t round_nearest(float coord, size_t max_idx, int nearest_mode) {
-    float rounded;
+static inline double round_nearest(double coord, int nearest_mode) {
     switch (nearest_mode) {
-    case RESIZE_NEAREST_FLOOR:
-        rounded = floorf(coord);
-        break;
     case RESIZE_NEAREST_CEIL:
-        rounded = ceilf(coord);
-        break;
+        return ceil(coord);
     case RESIZE_NEAREST_ROUND_PREFER_FLOOR:
-        rounded = (coord == floorf(coord) + 0.5f) ? floorf(coord) : roundf(coord);
-        break;
+        return ceil(coord - 0.5);
     case RESIZE_NEAREST_ROUND_PREFER_CEIL:
-        rounded = roundf(coord);
-        break;
+        return floor(coord + 0.5);
+    case RESIZE_NEAREST_FLOOR:
     default:
-        rounded = floorf(coord);
+        return floor(coord);
     }
+}
 
-    if (rounded < 0)
+static inline size_t clamp_idx(double idx, size_t size) {
+    if (idx < 0.0)
         return 0;
-    if (rounded > (float)max_idx)
-        return max_idx;
-    return (size_t)rounded;
+    if (idx > (double)(size - 1))
+        return size - 1;
+    return (size_t)idx;
 }
 
-static inline float cubic_interp(float p0, float p1, float p2, float p3, float t) {
-    // Cubic interpolation using Catmull-Rom spline
-    float a = -0.5f * p0 + 1.5f * p1 - 1.5f * p2 + 0.5f * p3;
-    float b = p0 - 2.5f * p1 + 2.0f * p2 - 0.5f * p3;
-    float c = -0.5f * p0 + 0.5f * p2;
-    float d = p1;
-    return a * t * t * t + b * t * t + c * t + d;
-}
+// Source positions along one axis (already multiplied by its stride) and their weights
+typedef struct {
+    size_t count;
+    size_t offset[4];
+    double weight[4];
+} axis_taps_t;
 
-static inline size_t clamp_idx(int idx, size_t max_idx) {
-    if (idx < 0)
-        return 0;
-    if ((size_t)idx > max_idx)
-        return max_idx;
-    return (size_t)idx;
+static inline axis_taps_t axis_taps(size_t out_coord, size_t in_size, size_t out_size,
+                                    size_t stride, int mode, int coord_transform,
+                                    int nearest_mode) {
+    axis_taps_t taps;
+    const double coord = transform_coord(out_coord, in_size, out_size, coord_transform);
+    const double base = floor(coord);
+    const double t = coord - base;
+
+    if (mode == RESIZE_MODE_LINEAR) {
+        taps.count = 2;
+        taps.weight[0] = 1.0 - t;
+        taps.weight[1] = t;
+        for (size_t k = 0; k < 2; k++) {
+            taps.offset[k] = clamp_idx(base + (double)k, in_size) * stride;
+        }
+    } else if (mode == RESIZE_MODE_CUBIC) {
+        // Cubic interpolation using Catmull-Rom spline
+        taps.count = 4;
+        taps.weight[0] = ((-0.5 * t + 1.0) * t - 0.5) * t;
+        taps.weight[1] = (1.5 * t - 2.5) * t * t + 1.0;
+        taps.weight[2] = ((-1.5 * t + 2.0) * t + 0.5) * t;
+        taps.weight[3] = (0.5 * t - 0.5) * t * t;
+        for (size_t k = 0; k < 4; k++) {
+            taps.offset[k] = clamp_idx(base + (double)k - 1.0, in_size) * stride;
+        }
+    } else {
+        taps.count = 1;
+        taps.weight[0] = 1.0;
+        taps.offset[0] = clamp_idx(round_nearest(coord, nearest_mode), in_size) * stride;
+    }
+    return taps;
 }
 
-#define IMPL_RESIZE(TYPE, TYPE_SUFFIX)                                                             \
+// For NCHW / NCDHW format: N=0, C=1, up to three spatial dims from 2 on. The interpolation is
+// separable: every output element is the sum over the product of its taps along each spatial axis.
+#define IMPL_RESIZE(TYPE, TYPE_SUFFIX, TO_DOUBLE, FROM_DOUBLE)                                     \
     void hodu_cpu_resize_##TYPE_SUFFIX(const void *input, void *output, const size_t *metadata) {  \
         const size_t output_size = metadata[0];                                                    \
         const size_t num_dims = metadata[1];                                                       \
@@ -98,319 +123,63 @@ static inline size_t clamp_idx(int idx, size_t max_idx) {
         const TYPE *in = (const TYPE *)input + offset;                                             \
         TYPE *out = (TYPE *)output;                                                                \
                                                                                                    \
-        /* Compute output strides */                                                               \
-        size_t out_strides[16];                                                                    \
-        out_strides[num_dims - 1] = 1;                                                             \
-        for (size_t d = num_dims - 1; d > 0; d--) {                                                \
-            out_strides[d - 1] = out_strides[d] * out_shape[d];                                    \
-        }                                                                                          \
-                                                                                                   \
-        /* For NCHW format: N=0, C=1, spatial dims start at 2 */                                   \
-        const size_t spatial_start = 2;                                                            \
-        const size_t num_spatial = num_dims - spatial_start;                                       \
-                                                                                                   \
         for (size_t out_idx = 0; out_idx < output_size; out_idx++) {                               \
-            /* Compute output coordinates */                                                       \
-            size_t out_coords[16];                                                                 \
-            size_t tmp = out_idx;                                                                  \
-            for (size_t d = num_dims; d > 0; d--) {                                                \
-                out_coords[d - 1] = tmp % out_shape[d - 1];                                        \
-                tmp /= out_shape[d - 1];                                                           \
+            axis_taps_t taps[3];                                                                   \
+            for (size_t s = 0; s < 3; s++) {                                                       \
+                taps[s].count = 1;                                                                 \
+                taps[s].offset[0] = 0;                                                             \
+                taps[s].weight[0] = 1.0;                                                           \
             }                                                                                      \
                                                                                                    \
             /* Batch and channel indices stay the same */                                          \
-            size_t base_in_idx = out_coords[0] * in_strides[0] + out_coords[1] * in_strides[1];    \
-                                                                                                   \
-            if (mode == RESIZE_MODE_NEAREST) {                                                     \
-                size_t in_idx = base_in_idx;                                                       \
-                for (size_t s = 0; s < num_spatial; s++) {                                         \
-                    size_t d = spatial_start + s;                                                  \
-                    float coord = transform_coord((float)out_coords[d], in_shape[d], out_shape[d], \
-                                                  coord_transform);                                \
-                    size_t src_idx = round_nearest(coord, in_shape[d] - 1, nearest_mode);          \
-                    in_idx += src_idx * in_strides[d];                                             \
-                }                                                                                  \
-                out[out_idx] = in[in_idx];                                                         \
-            } else if (mode == RESIZE_MODE_LINEAR && num_spatial == 2) {                           \
-                /* Bilinear interpolation for 2D */                                                \
-                float y_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
-                                                coord_transform);                                  \
-                float x_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
-                                                coord_transform);                                  \
-                                                                                                   \
-                int y0 = (int)floorf(y_coord);                                                     \
-                int x0 = (int)floorf(x_coord);                                                     \
-                int y1 = y0 + 1;                                                                   \
-                int x1 = x0 + 1;                                                                   \
-                                                                                                   \
-                float fy = y_coord - (float)y0;                                                    \
-                float fx = x_coord - (float)x0;                                                    \
-                                                                                                   \
-                size_t y0c = clamp_idx(y0, in_shape[2] - 1);                                       \
-                size_t y1c = clamp_idx(y1, in_shape[2] - 1);                                       \
-                size_t x0c = clamp_idx(x0, in_shape[3] - 1);                                       \
-                size_t x1c = clamp_idx(x1, in_shape[3] - 1);                                       \
-                                                                                                   \
-                TYPE v00 = in[base_in_idx + y0c * in_strides[2] + x0c * in_strides[3]];            \
-                TYPE v01 = in[base_in_idx + y0c * in_strides[2] + x1c * in_strides[3]];            \
-                TYPE v10 = in[base_in_idx + y1c * in_strides[2] + x0c * in_strides[3]];            \
-                TYPE v11 = in[base_in_idx + y1c * in_strides[2] + x1c * in_strides[3]];            \
-                                                                                                   \
-                TYPE result = (TYPE)((1.0f - fy) * ((1.0f - fx) * (float)v00 + fx * (float)v01) +  \
-                                     fy * ((1.0f - fx) * (float)v10 + fx * (float)v11));           \
-                out[out_idx] = result;                                                             \
-            } else if (mode == RESIZE_MODE_LINEAR && num_spatial == 3) {                           \
-                /* Trilinear interpolation for 3D */                                               \
-                float d_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
-                                                coord_transform);                                  \
-                float h_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
-                                                coord_transform);                                  \
-                float w_coord = transform_coord((float)out_coords[4], in_shape[4], out_shape[4],   \
-                                                coord_transform);                                  \
-                                                                                                   \
-                int d0 = (int)floorf(d_coord);                                                     \
-                int h0 = (int)floorf(h_coord);                                                     \
-                int w0 = (int)floorf(w_coord);                                                     \
-                int d1 = d0 + 1, h1 = h0 + 1, w1 = w0 + 1;                                         \
-                                                                                                   \
-                float fd = d_coord - (float)d0;                                                    \
-                float fh = h_coord - (float)h0;                                                    \
-                float fw = w_coord - (float)w0;                                                    \
-                                                                                                   \
-                size_t d0c = clamp_idx(d0, in_shape[2] - 1);                                       \
-                size_t d1c = clamp_idx(d1, in_shape[2] - 1);                                       \
-                size_t h0c = clamp_idx(h0, in_shape[3] - 1);                                       \
-                size_t h1c = clamp_idx(h1, in_shape[3] - 1);                                       \
-                size_t w0c = clamp_idx(w0, in_shape[4] - 1);                                       \
-                size_t w1c = clamp_idx(w1, in_shape[4] - 1);                                       \
-                                                                                                   \
-                TYPE v000 = in[base_in_idx + d0c * in_strides[2] + h0c * in_strides[3] +           \
-                               w0c * in_strides[4]];                                               \
-                TYPE v001 = in[base_in_idx + d0c * in_strides[2] + h0c * in_strides[3] +           \
-                               w1c * in_strides[4]];                                               \
-                TYPE v010 = in[base_in_idx + d0c * in_strides[2] + h1c * in_strides[3] +           \
-                               w0c * in_strides[4]];                                               \
-                TYPE v011 = in[base_in_idx + d0c * in_strides[2] + h1c * in_strides[3] +           \
-                               w1c * in_strides[4]];                                               \
-                TYPE v100 = in[base_in_idx + d1c * in_strides[2] + h0c * in_strides[3] +           \
-                               w0c * in_strides[4]];                                               \
-                TYPE v101 = in[base_in_idx + d1c * in_strides[2] + h0c * in_strides[3] +           \
-                               w1c * in_strides[4]];                                               \
-                TYPE v110 = in[base_in_idx + d1c * in_strides[2] + h1c * in_strides[3] +           \
-                               w0c * in_strides[4]];                                               \
-                TYPE v111 = in[base_in_idx + d1c * in_strides[2] + h1c * in_strides[3] +           \
-                               w1c * in_strides[4]];                                               \
-                                                                                                   \
-                float c00 = (1.0f - fw) * (float)v000 + fw * (float)v001;                          \
-                float c01 = (1.0f - fw) * (float)v010 + fw * (float)v011;                          \
-                float c10 = (1.0f - fw) * (float)v100 + fw * (float)v101;                          \
-                float c11 = (1.0f - fw) * (float)v110 + fw * (float)v111;                          \
-                float c0 = (1.0f - fh) * c00 + fh * c01;                                           \
-                float c1 = (1.0f - fh) * c10 + fh * c11;                                           \
-                out[out_idx] = (TYPE)((1.0f - fd) * c0 + fd * c1);                                 \
-            } else if (mode == RESIZE_MODE_CUBIC && num_spatial == 2) {                            \
-                /* Bicubic interpolation for 2D */                                                 \
-                float y_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
-                                                coord_transform);                                  \
-                float x_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
-                                                coord_transform);                                  \
-                                                                                                   \
-                int y0 = (int)floorf(y_coord);                                                     \
-                int x0 = (int)floorf(x_coord);                                                     \
-                float fy = y_coord - (float)y0;                                                    \
-                float fx = x_coord - (float)x0;                                                    \
-                                                                                                   \
-                float cols[4];                                                                     \
-                for (int j = -1; j <= 2; j++) {                                                    \
-                    size_t yc = clamp_idx(y0 + j, in_shape[2] - 1);                                \
-                    float p0 = (float)in[base_in_idx + yc * in_strides[2] +                        \
-                                         clamp_idx(x0 - 1, in_shape[3] - 1) * in_strides[3]];      \
-                    float p1 = (float)in[base_in_idx + yc * in_strides[2] +                        \
-                                         clamp_idx(x0, in_shape[3] - 1) * in_strides[3]];          \
-                    float p2 = (float)in[base_in_idx + yc * in_strides[2] +                        \
-                                         clamp_idx(x0 + 1, in_shape[3] - 1) * in_strides[3]];      \
-                    float p3 = (float)in[base_in_idx + yc * in_strides[2] +                        \
-                                         clamp_idx(x0 + 2, in_shape[3] - 1) * in_strides[3]];      \
-                    cols[j + 1] = cubic_interp(p0, p1, p2, p3, fx);                                \
-                }                                                                                  \
-                out[out_idx] = (TYPE)cubic_interp(cols[0], cols[1], cols[2], cols[3], fy);         \
-            } else {                                                                               \
-                /* Fallback: nearest neighbor */                                                   \
-                size_t in_idx = base_in_idx;                                                       \
-                for (size_t s = 0; s < num_spatial; s++) {                                         \
-                    size_t d = spatial_start + s;                                                  \
-                    float coord = transform_coord((float)out_coords[d], in_shape[d], out_shape[d], \
-                                                  coord_transform);                                \
-                    size_t src_idx = round_nearest(coord, in_shape[d] - 1, nearest_mode);          \
-                    in_idx += src_idx * in_strides[d];                                             \
-                }                                                                                  \
-                out[out_idx] = in[in_idx];                                                         \
-            }                                                                                      \
-        }                                                                                          \
-    }
-
-IMPL_RESIZE(f32_t, f32)
-IMPL_RESIZE(f64_t, f64)
-
-#define IMPL_RESIZE_CONVERT(TYPE, TYPE_SUFFIX, TO_FLOAT, FROM_FLOAT)                               \
-    void hodu_cpu_resize_##TYPE_SUFFIX(const void *input, void *output, const size_t *metadata) {  \
-        const size_t output_size = metadata[0];                                                    \
-        const size_t num_dims = metadata[1];                                                       \
-        const size_t *in_shape = &metadata[2];                                                     \
-        const size_t *in_strides = &metadata[2 + num_dims];                                        \
-        const size_t offset = metadata[2 + 2 * num_dims];                                          \
-        const size_t *out_shape = &metadata[3 + 2 * num_dims];                                     \
-        const int mode = (int)metadata[3 + 3 * num_dims];                                          \
-        const int coord_transform = (int)metadata[4 + 3 * num_dims];                               \
-        const int nearest_mode = (int)metadata[5 + 3 * num_dims];                                  \
-                                                                                                   \
-        const TYPE *in = (const TYPE *)input + offset;                                             \
-        TYPE *out = (TYPE *)output;                                                                \
-                                                                                                   \
-        size_t out_strides[16];                                                                    \
-        out_strides[num_dims - 1] = 1;                                                             \
-        for (size_t d = num_dims - 1; d > 0; d--) {                                                \
-            out_strides[d - 1] = out_strides[d] * out_shape[d];                                    \
-        }                                                                                          \
-                                                                                                   \
-        const size_t spatial_start = 2;                                                            \
-        const size_t num_spatial = num_dims - spatial_start;                                       \
-                                                                                                   \
-        for (size_t out_idx = 0; out_idx < output_size; out_idx++) {                               \
-            size_t out_coords[16];                                                                 \
+            size_t base = 0;                                                                       \
             size_t tmp = out_idx;                                                                  \
             for (size_t d = num_dims; d > 0; d--) {                                                \
-                out_coords[d - 1] = tmp % out_shape[d - 1];                                        \
+                const size_t coord = tmp % out_shape[d - 1];                                       \
                 tmp /= out_shape[d - 1];                                                           \
-            }                                                                                      \
-                                                                                                   \
-            size_t base_in_idx = out_coords[0] * in_strides[0] + out_coords[1] * in_strides[1];    \
-                                                                                                   \
-            if (mode == RESIZE_MODE_NEAREST) {                                                     \
-                size_t in_idx = base_in_idx;                                                       \
-                for (size_t s = 0; s < num_spatial; s++) {                                         \
-                    size_t d = spatial_start + s;                                                  \
-                    float coord = transform_coord((float)out_coords[d], in_shape[d], out_shape[d], \
-                                                  coord_transform);                                \
-                    size_t src_idx = round_nearest(coord, in_shape[d] - 1, nearest_mode);          \
-                    in_idx += src_idx * in_strides[d];                                             \
+                if (d > 2) {                                                                       \
+                    taps[d - 3] = axis_taps(coord, in_shape[d - 1], out_shape[d - 1],              \
+                                            in_strides[d - 1], mode, coord_transform,              \
+                                            nearest_mode);                                         \
+                } else {                                                                           \
+                    base += coord * in_strides[d - 1];                                             \
                 }                                                                                  \
-                out[out_idx] = in[in_idx];                                                         \
-            } else if (mode == RESIZE_MODE_LINEAR && num_spatial == 2) {                           \
-                float y_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
-                                                coord_transform);                                  \
-                float x_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
-                                                coord_transform);                                  \
-                                                                                                   \
-                int y0 = (int)floorf(y_coord);                                                     \
-                int x0 = (int)floorf(x_coord);                                                     \
-                int y1 = y0 + 1;                                                                   \
-                int x1 = x0 + 1;                                                                   \
-                                                                                                   \
-                float fy = y_coord - (float)y0;                                                    \
-                float fx = x_coord - (float)x0;                                                    \
-                                                                                                   \
-                size_t y0c = clamp_idx(y0, in_shape[2] - 1);                                       \
-                size_t y1c = clamp_idx(y1, in_shape[2] - 1);                                       \
-                size_t x0c = clamp_idx(x0, in_shape[3] - 1);                                       \
-                size_t x1c = clamp_idx(x1, in_shape[3] - 1);                                       \
-                                                                                                   \
-                float v00 = TO_FLOAT(in[base_in_idx + y0c * in_strides[2] + x0c * in_strides[3]]); \
-                float v01 = TO_FLOAT(in[base_in_idx + y0c * in_strides[2] + x1c * in_strides[3]]); \
-                float v10 = TO_FLOAT(in[base_in_idx + y1c * in_strides[2] + x0c * in_strides[3]]); \
-                float v11 = TO_FLOAT(in[base_in_idx + y1c * in_strides[2] + x1c * in_strides[3]]); \
-                                                                                                   \
-                float result = (1.0f - fy) * ((1.0f - fx) * v00 + fx * v01) +                      \
-                               fy * ((1.0f - fx) * v10 + fx * v11);                                \
-                out[out_idx] = FROM_FLOAT(result);                                                 \
-            } else if (mode == RESIZE_MODE_LINEAR && num_spatial == 3) {                           \
-                float d_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
-                                                coord_transform);                                  \
-                float h_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
-                                                coord_transform);                                  \
-                float w_coord = transform_coord((float)out_coords[4], in_shape[4], out_shape[4],   \
-                                                coord_transform);                                  \
-                                                                                                   \
-                int d0 = (int)floorf(d_coord);                                                     \
-                int h0 = (int)floorf(h_coord);                                                     \
-                int w0 = (int)floorf(w_coord);                                                     \
-                int d1 = d0 + 1, h1 = h0 + 1, w1 = w0 + 1;                                         \
-                                                                                                   \
-                float fd = d_coord - (float)d0;                                                    \
-                float fh = h_coord - (float)h0;                                                    \
-                float fw = w_coord - (float)w0;                                                    \
-                                                                                                   \
-                size_t d0c = clamp_idx(d0, in_shape[2] - 1);                                       \
-                size_t d1c = clamp_idx(d1, in_shape[2] - 1);                                       \
-                size_t h0c = clamp_idx(h0, in_shape[3] - 1);                                       \
-                size_t h1c = clamp_idx(h1, in_shape[3] - 1);                                       \
-                size_t w0c = clamp_idx(w0, in_shape[4] - 1);                                       \
-                size_t w1c = clamp_idx(w1, in_shape[4] - 1);                                       \
-                                                                                                   \
-                float v000 = TO_FLOAT(in[base_in_idx + d0c * in_strides[2] + h0c * in_strides[3] + \
-                                         w0c * in_strides[4]]);                                    \
-                float v001 = TO_FLOAT(in[base_in_idx + d0c * in_strides[2] + h0c * in_strides[3] + \
-                                         w1c * in_strides[4]]);                                    \
-                float v010 = TO_FLOAT(in[base_in_idx + d0c * in_strides[2] + h1c * in_strides[3] + \
-                                         w0c * in_strides[4]]);                                    \
-                float v011 = TO_FLOAT(in[base_in_idx + d0c * in_strides[2] + h1c * in_strides[3] + \
-                                         w1c * in_strides[4]]);                                    \
-                float v100 = TO_FLOAT(in[base_in_idx + d1c * in_strides[2] + h0c * in_strides[3] + \
-                                         w0c * in_strides[4]]);                                    \
-                float v101 = TO_FLOAT(in[base_in_idx + d1c * in_strides[2] + h0c * in_strides[3] + \
-                                         w1c * in_strides[4]]);                                    \
-                float v110 = TO_FLOAT(in[base_in_idx + d1c * in_strides[2] + h1c * in_strides[3] + \
-                                         w0c * in_strides[4]]);                                    \
-                float v111 = TO_FLOAT(in[base_in_idx + d1c * in_strides[2] + h1c * in_strides[3] + \
-                                         w1c * in_strides[4]]);                                    \
-                                                                                                   \
-                float c00 = (1.0f - fw) * v000 + fw * v001;                                        \
-                float c01 = (1.0f - fw) * v010 + fw * v011;                                        \
-                float c10 = (1.0f - fw) * v100 + fw * v101;                                        \
-                float c11 = (1.0f - fw) * v110 + fw * v111;                                        \
-                float c0 = (1.0f - fh) * c00 + fh * c01;                                           \
-                float c1 = (1.0f - fh) * c10 + fh * c11;                                           \
-                out[out_idx] = FROM_FLOAT((1.0f - fd) * c0 + fd * c1);                             \
-            } else if (mode == RESIZE_MODE_CUBIC && num_spatial == 2) {                            \
-                float y_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
-                                                coord_transform);                                  \
-                float x_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
-                                                coord_transform);                                  \
+            }                                                                                      \
                                                                                                    \
-                int y0 = (int)floorf(y_coord);                                                     \
-                int x0 = (int)floorf(x_coord);                                                     \
-                float fy = y_coord - (float)y0;                                                    \
-                float fx = x_coord - (float)x0;                                                    \
+            if (mode != RESIZE_MODE_LINEAR && mode != RESIZE_MODE_CUBIC) {                         \
+                out[out_idx] =                                                                     \
+                    in[base + taps[0].offset[0] + taps[1].offset[0] + taps[2].offset[0]];          \
+                continue;                                                                          \
+            }                                                                                      \
                                                                                                    \
-                float cols[4];                                                                     \
-                for (int j = -1; j <= 2; j++) {                                                    \
-                    size_t yc = clamp_idx(y0 + j, in_shape[2] - 1);                                \
-                    float p0 = TO_FLOAT(in[base_in_idx + yc * in_strides[2] +                      \
-                                           clamp_idx(x0 - 1, in_shape[3] - 1) * in_strides[3]]);   \
-                    float p1 = TO_FLOAT(in[base_in_idx + yc * in_strides[2] +                      \
-                                           clamp_idx(x0, in_shape[3] - 1) * in_strides[3]]);       \
-                    float p2 = TO_FLOAT(in[base_in_idx + yc * in_strides[2] +                      \
-                                           clamp_idx(x0 + 1, in_shape[3] - 1) * in_strides[3]]);   \
-                    float p3 = TO_FLOAT(in[base_in_idx + yc * in_strides[2] +                      \
-                                           clamp_idx(x0 + 2, in_shape[3] - 1) * in_strides[3]]);   \
-                    cols[j + 1] = cubic_interp(p0, p1, p2, p3, fx);                                \
+            double sum = 0.0;                                                                      \
+            for (size_t i = 0; i < taps[0].count; i++) {                                           \
+                for (size_t j = 0; j < taps[1].count; j++) {                                       \
+                    const double w = taps[0].weight[i] * taps[1].weight[j];                        \
+                    for (size_t k = 0; k < taps[2].count; k++) {                                   \
+                        const double weight = w * taps[2].weight[k];                               \
+                        if (weight != 0.0) {                                                       \
+                            sum += weight * TO_DOUBLE(in[base + taps[0].offset[i] +                \
+                                                         taps[1].offset[j] + taps[2].offset[k]]);  \
+                        }                                                                          \
+                    }                                                                              \
                 }                                                                                  \
-                out[out_idx] = FROM_FLOAT(cubic_interp(cols[0], cols[1], cols[2], cols[3], fy));   \
-            } else {                                                                               \
-                size_t in_idx = base_in_idx;                                                       \
-                for (size_t s = 0; s < num_spatial; s++) {                                         \
-                    size_t d = spatial_start + s;                                                  \
-                    float coord = transform_coord((float)out_coords[d], in_shape[d], out_shape[d], \
-                                                  coord_transform);                                \
-                    size_t src_idx = round_nearest(coord, in_shape[d] - 1, nearest_mode);          \
-                    in_idx += src_idx * in_strides[d];                                             \
-                }                                                                                  \
-                out[out_idx] = in[in_idx];                                                         \
             }                                                                                      \
+            out[out_idx] = FROM_DOUBLE(sum);                                                       \
         }                                                                                          \
     }
 
-IMPL_RESIZE_CONVERT(f8e4m3_t, f8e4m3, f8e4m3_to_float, float_to_f8e4m3)
-IMPL_RESIZE_CONVERT(f8e5m2_t, f8e5m2, f8e5m2_to_float, float_to_f8e5m2)
-IMPL_RESIZE_CONVERT(bf16_t, bf16, bf16_to_float, float_to_bf16)
-IMPL_RESIZE_CONVERT(f16_t, f16, f16_to_float, float_to_f16)
+#define NATIVE_TO_DOUBLE(x) ((double)(x))
+#define DOUBLE_TO_F32(x) ((f32_t)(x))
+#define DOUBLE_TO_F64(x) (x)
+#define DOUBLE_TO_F8E4M3(x) float_to_f8e4m3((float)(x))
+#define DOUBLE_TO_F8E5M2(x) float_to_f8e5m2((float)(x))
+#define DOUBLE_TO_BF16(x) float_to_bf16((float)(x))
+#define DOUBLE_TO_F16(x) float_to_f16((float)(x))
+
+IMPL_RESIZE(f32_t, f32, NATIVE_TO_DOUBLE, DOUBLE_TO_F32)
+IMPL_RESIZE(f64_t, f64, NATIVE_TO_DOUBLE, DOUBLE_TO_F64)
+IMPL_RESIZE(f8e4m3_t, f8e4m3, f8e4m3_to_float, DOUBLE_TO_F8E4M3)
+IMPL_RESIZE(f8e5m2_t, f8e5m2, f8e5m2_to_float, DOUBLE_TO_F8E5M2)
+IMPL_RESIZE(bf16_t, bf16, bf16_to_float, DOUBLE_TO_BF16)
+IMPL_RESIZE(f16_t, f16, f16_to_float, DOUBLE_TO_F16)
-- 
2.43.0


From bf255de9090ac7b6b18a5a335ef9a6552d4b1c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 27/89] fix: convolutions of views, GEMM operand order,
 transposed weight layout and output padding, admissible sizes, input
 gradients with leftover rows

---
 .../hodu_core/src/be_cpu/storage/ops_conv.rs  |  61 ++++++--
 .../hodu_core/src/tensor/gradient/vjp_conv.rs |  66 +++++---
 crates/hodu_core/src/tensor/ops/conv.rs       | 148 +++++++++++++++---
 .../ops_conv_blas_aarch64_apple_darwin.c      |  32 ++--
 .../kernels/ops_conv_openblas.c               |  32 ++--
 5 files changed, 252 insertions(+), 87 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
index 79cd064..31569c7 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
@@ -15,7 +15,7 @@ use core::ffi::c_void;
 /// * `weight_storage` - Weight tensor storage
 /// * `weight_layout` - Weight tensor layout
 /// * `stride` - Stride values
-/// * `padding` - Padding values
+/// * `padding` - Padding values; transposed convolutions append their output padding values
 /// * `dilation` - Dilation values
 /// * `op` - The convolution operation
 ///
@@ -46,6 +46,20 @@ pub fn call_ops_conv(
         });
     }
 
+    // The kernels index their operands densely, so views are materialised first
+    if !input_layout.is_contiguous() || !weight_layout.is_contiguous() {
+        return call_ops_conv(
+            &input_storage.contiguous(input_layout)?,
+            &Layout::from_shape(input_layout.shape()),
+            &weight_storage.contiguous(weight_layout)?,
+            &Layout::from_shape(weight_layout.shape()),
+            stride,
+            padding,
+            dilation,
+            op,
+        );
+    }
+
     let input_shape = input_layout.shape();
     let weight_shape = weight_layout.shape();
     let dtype = input_storage.dtype();
@@ -80,14 +94,19 @@ pub fn call_ops_conv(
 
     let batch_size = input_shape.dims()[0];
     let in_channels = input_shape.dims()[1];
-    let out_channels = weight_shape.dims()[0];
+    // Weight: [out_channels, in_channels, kernel...], transposed: [in_channels, out_channels, kernel...]
+    let (out_channels, weight_in_channels) = match conv_op {
+        ConvOp::ConvTranspose1d | ConvOp::ConvTranspose2d | ConvOp::ConvTranspose3d => {
+            (weight_shape.dims()[1], weight_shape.dims()[0])
+        },
+        _ => (weight_shape.dims()[0], weight_shape.dims()[1]),
+    };
 
     // Validate in_channels match
-    if weight_shape.dims()[1] != in_channels {
+    if weight_in_channels != in_channels {
         return Err(HoduError::BackendError(format!(
             "weight in_channels {} does not match input in_channels {}",
-            weight_shape.dims()[1],
-            in_channels
+            weight_in_channels, in_channels
         )));
     }
 
@@ -102,7 +121,7 @@ pub fn call_ops_conv(
 
             let out_width = if matches!(conv_op, ConvOp::ConvTranspose1d) {
                 // Transposed convolution
-                (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1
+                (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + 1 + padding[1] - 2 * padding_w
             } else {
                 // Standard convolution
                 (in_width + 2 * padding_w - dilation_w * (kernel_width - 1) - 1) / stride_w + 1
@@ -136,8 +155,10 @@ pub fn call_ops_conv(
 
             let (out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose2d) {
                 // Transposed convolution
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
+                let out_h = (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + 1 + padding[2]
+                    - 2 * padding_h;
+                let out_w = (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + 1 + padding[3]
+                    - 2 * padding_w;
                 (out_h, out_w)
             } else {
                 // Standard convolution
@@ -179,9 +200,12 @@ pub fn call_ops_conv(
 
             let (out_depth, out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose3d) {
                 // Transposed convolution
-                let out_d = (in_depth - 1) * stride_d - 2 * padding_d + dilation_d * (kernel_depth - 1) + 1;
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
+                let out_d = (in_depth - 1) * stride_d + dilation_d * (kernel_depth - 1) + 1 + padding[3]
+                    - 2 * padding_d;
+                let out_h = (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + 1 + padding[4]
+                    - 2 * padding_h;
+                let out_w = (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + 1 + padding[5]
+                    - 2 * padding_w;
                 (out_d, out_h, out_w)
             } else {
                 // Standard convolution
@@ -303,6 +327,21 @@ pub fn call_ops_conv_grad_weight(
         });
     }
 
+    // The kernels index their operands densely, so views are materialised first
+    if !input_layout.is_contiguous() || !grad_output_layout.is_contiguous() {
+        return call_ops_conv_grad_weight(
+            &input_storage.contiguous(input_layout)?,
+            &Layout::from_shape(input_layout.shape()),
+            &grad_output_storage.contiguous(grad_output_layout)?,
+            &Layout::from_shape(grad_output_layout.shape()),
+            weight_shape,
+            stride,
+            padding,
+            dilation,
+            op,
+        );
+    }
+
     let dtype = input_storage.dtype();
 
     // Determine spatial dimensions based on op
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
index abbadb7..f7ca86a 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
@@ -2,9 +2,48 @@ use super::VjpCompute;
 use crate::{
     error::{HoduError, HoduResult},
     ops::{ConvOp, OpParams},
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
+/// Gradient of a convolution with respect to its input: the transposed convolution with the same weight.
+///
+/// Input elements beyond the last full stride are only reached through output padding.
+fn conv_grad_input(
+    input: &Tensor,
+    weight: &Tensor,
+    grad_output: &Tensor,
+    stride: usize,
+    padding: usize,
+    dilation: usize,
+) -> HoduResult<Tensor> {
+    let input_shape = input.shape();
+    let weight_shape = weight.shape();
+    let output_padding = input_shape.dims()[2..]
+        .iter()
+        .zip(&weight_shape.dims()[2..])
+        .map(|(&size, &kernel)| (size + 2 * padding - dilation * (kernel - 1) - 1) % stride)
+        .max()
+        .unwrap_or(0);
+    let grad_input = match input_shape.ndim() {
+        3 => grad_output.conv_transpose1d(weight, stride, padding, output_padding, dilation)?,
+        4 => grad_output.conv_transpose2d(weight, stride, padding, output_padding, dilation)?,
+        _ => grad_output.conv_transpose3d(weight, stride, padding, output_padding, dilation)?,
+    };
+    crop_to(grad_input, input)
+}
+
+/// Drops the trailing elements of every dimension in which `tensor` is longer than `like`.
+fn crop_to(tensor: Tensor, like: &Tensor) -> HoduResult<Tensor> {
+    let like_shape = like.shape();
+    let mut result = tensor;
+    for (dim, &size) in like_shape.dims().iter().enumerate() {
+        if result.shape().dims()[dim] > size {
+            result = result.slice(dim as i32, 0i32, Some(size as i32), 1i32)?.contiguous()?;
+        }
+    }
+    Ok(result)
+}
+
 impl VjpCompute for ConvOp {
     fn compute_vjp(
         &self,
@@ -38,11 +77,7 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: use transposed convolution
-                // Conv1d weight: [Co, Ci, K], Conv_transpose1d (backend): w [Co_out, Ci_in, K]
-                // Transpose needed: [Co, Ci, K] -> [Ci, Co, K]
-                let weight_transposed = weight.transpose(0, 1)?;
-                let grad_input =
-                    grad_output_tensor.conv_transpose1d(&weight_transposed, stride, padding, 0, dilation)?;
+                let grad_input = conv_grad_input(&input, &weight, &grad_output_tensor, stride, padding, dilation)?;
 
                 // Gradient w.r.t. weight: conv1d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![channels_output, channels_input, kernel_size];
@@ -78,11 +113,7 @@ impl VjpCompute for ConvOp {
                 // Gradient w.r.t. input: use transposed convolution
                 // Conv2d: x [N, Ci, H, W] * w [Co, Ci, K, K] -> y [N, Co, H', W']
                 // Backward: grad_y [N, Co, H', W'] -> grad_x [N, Ci, H, W]
-                // Conv_transpose2d (backend): input [N, Ci_in, H, W] * w [Co_out, Ci_in, K, K] -> output [N, Co_out, H', W']
-                // For backward: grad_y [N, Co, H', W'] needs w [Ci, Co, K, K] (transpose needed!)
-                let weight_transposed = weight.transpose(0, 1)?; // [Co, Ci, K, K] -> [Ci, Co, K, K]
-                let grad_input =
-                    grad_output_tensor.conv_transpose2d(&weight_transposed, stride, padding, 0, dilation)?;
+                let grad_input = conv_grad_input(&input, &weight, &grad_output_tensor, stride, padding, dilation)?;
 
                 // Gradient w.r.t. weight: conv2d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape_vec = vec![channels_output, channels_input, kernel_height, kernel_width];
@@ -117,11 +148,7 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: use transposed convolution
-                // Conv3d weight: [Co, Ci, Kd, Kh, Kw], Conv_transpose3d (backend): w [Co_out, Ci_in, ...]
-                // Transpose needed: [Co, Ci, ...] -> [Ci, Co, ...]
-                let weight_transposed = weight.transpose(0, 1)?;
-                let grad_input =
-                    grad_output_tensor.conv_transpose3d(&weight_transposed, stride, padding, 0, dilation)?;
+                let grad_input = conv_grad_input(&input, &weight, &grad_output_tensor, stride, padding, dilation)?;
 
                 // Gradient w.r.t. weight: conv3d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![
@@ -162,8 +189,7 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: Use regular Conv1d
-                // weight shape for conv1d is [Co, Ci, K], but we need to transpose channels
-                let grad_input = grad_output_tensor.conv1d(&weight, stride, padding, dilation)?;
+                let grad_input = crop_to(grad_output_tensor.conv1d(&weight, stride, padding, dilation)?, &input)?;
 
                 // Gradient w.r.t. weight: conv_transpose1d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![channels_input, channels_output, kernel_size];
@@ -204,7 +230,7 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: Use regular Conv2d
-                let grad_input = grad_output_tensor.conv2d(&weight, stride, padding, dilation)?;
+                let grad_input = crop_to(grad_output_tensor.conv2d(&weight, stride, padding, dilation)?, &input)?;
 
                 // Gradient w.r.t. weight: conv_transpose2d_grad_weight
                 let weight_shape = vec![channels_input, channels_output, kernel_height, kernel_width];
@@ -246,7 +272,7 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: Use regular Conv3d
-                let grad_input = grad_output_tensor.conv3d(&weight, stride, padding, dilation)?;
+                let grad_input = crop_to(grad_output_tensor.conv3d(&weight, stride, padding, dilation)?, &input)?;
 
                 // Gradient w.r.t. weight: conv_transpose3d_grad_weight
                 let weight_shape = vec![
diff --git a/crates/hodu_core/src/tensor/ops/conv.rs b/crates/hodu_core/src/tensor/ops/conv.rs
index c11a81e..ce21773 100644
--- a/crates/hodu_core/src/tensor/ops/conv.rs
+++ b/crates/hodu_core/src/tensor/ops/conv.rs
@@ -13,6 +13,94 @@ use crate::{
     },
 };
 
+/// Output extent of a convolution along one dimension; an error when the configuration admits no output.
+fn conv_output_size(
+    input: usize,
+    kernel: usize,
+    stride: usize,
+    padding: usize,
+    dilation: usize,
+) -> HoduResult<usize> {
+    let span = kernel_span(kernel, stride, dilation)?;
+    let padded = padding.checked_mul(2).and_then(|p| p.checked_add(input));
+    match padded.and_then(|p| p.checked_sub(span)) {
+        Some(room) => Ok(room / stride + 1),
+        None => Err(HoduError::InvalidArgument(format!(
+            "convolution kernel spans {span} elements, more than the input of {input} padded by {padding}"
+        ))),
+    }
+}
+
+/// Output extent of a transposed convolution along one dimension; an error when it would be empty.
+fn conv_transpose_output_size(
+    input: usize,
+    kernel: usize,
+    stride: usize,
+    padding: usize,
+    output_padding: usize,
+    dilation: usize,
+) -> HoduResult<usize> {
+    let span = kernel_span(kernel, stride, dilation)?;
+    let full = input
+        .checked_sub(1)
+        .and_then(|i| i.checked_mul(stride))
+        .and_then(|i| i.checked_add(span))
+        .and_then(|i| i.checked_add(output_padding));
+    match full.and_then(|f| padding.checked_mul(2).and_then(|p| f.checked_sub(p))) {
+        Some(size) if size > 0 => Ok(size),
+        _ => Err(HoduError::InvalidArgument(format!(
+            "transposed convolution of an input of {input} (kernel {kernel}, stride {stride}, padding {padding}) has no output"
+        ))),
+    }
+}
+
+fn kernel_span(kernel: usize, stride: usize, dilation: usize) -> HoduResult<usize> {
+    if kernel == 0 || stride == 0 || dilation == 0 {
+        return Err(HoduError::InvalidArgument(format!(
+            "convolution kernel size ({kernel}), stride ({stride}) and dilation ({dilation}) must be positive"
+        )));
+    }
+    (kernel - 1)
+        .checked_mul(dilation)
+        .and_then(|s| s.checked_add(1))
+        .ok_or_else(|| HoduError::InvalidArgument("convolution kernel span overflows".to_string()))
+}
+
+/// The weight gradient pairs every input channel with every output channel of the same batch.
+fn validate_grad_weight(
+    input: &Tensor,
+    grad_output: &Tensor,
+    weight_shape: &[usize],
+    stride: usize,
+    dilation: usize,
+    transposed: bool,
+    op: ConvOp,
+) -> HoduResult<()> {
+    validate_same_device(&[input, grad_output], Op::Conv(op))?;
+    validate_same_dtype(&[input, grad_output], Op::Conv(op))?;
+    validate_dtype_for_device(input.dtype(), input.device())?;
+    validate_dtype_for_op(input.dtype(), Op::Conv(op))?;
+
+    let input_shape = input.shape();
+    let grad_output_shape = grad_output.shape();
+    let (input_dims, grad_dims) = (input_shape.dims(), grad_output_shape.dims());
+    let (in_axis, out_axis) = if transposed { (0, 1) } else { (1, 0) };
+    if input_dims[0] != grad_dims[0]
+        || weight_shape[in_axis] != input_dims[1]
+        || weight_shape[out_axis] != grad_dims[1]
+    {
+        return Err(HoduError::incompatible_shapes(
+            input_shape,
+            grad_output_shape,
+            Op::Conv(op),
+        ));
+    }
+    for &kernel in &weight_shape[2..] {
+        kernel_span(kernel, stride, dilation)?;
+    }
+    Ok(())
+}
+
 impl Tensor {
     pub fn conv1d(&self, weight: &Self, stride: usize, padding: usize, dilation: usize) -> HoduResult<Self> {
         let input_shape = self.shape();
@@ -58,7 +146,7 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv1d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv1d));
 
-        let output_length = (length_input + 2 * padding - dilation * (kernel_size - 1) - 1) / stride + 1;
+        let output_length = conv_output_size(length_input, kernel_size, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_length];
 
         let stride_arr = [stride];
@@ -181,8 +269,8 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv2d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv2d));
 
-        let output_height = (input_height + 2 * padding - dilation * (kernel_height - 1) - 1) / stride + 1;
-        let output_width = (input_width + 2 * padding - dilation * (kernel_width - 1) - 1) / stride + 1;
+        let output_height = conv_output_size(input_height, kernel_height, stride, padding, dilation)?;
+        let output_width = conv_output_size(input_width, kernel_width, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_height, output_width];
 
         let stride_arr = [stride; 2];
@@ -309,9 +397,9 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv3d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv3d));
 
-        let output_depth = (input_depth + 2 * padding - dilation * (kernel_depth - 1) - 1) / stride + 1;
-        let output_height = (input_height + 2 * padding - dilation * (kernel_height - 1) - 1) / stride + 1;
-        let output_width = (input_width + 2 * padding - dilation * (kernel_width - 1) - 1) / stride + 1;
+        let output_depth = conv_output_size(input_depth, kernel_depth, stride, padding, dilation)?;
+        let output_height = conv_output_size(input_height, kernel_height, stride, padding, dilation)?;
+        let output_width = conv_output_size(input_width, kernel_width, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
@@ -406,7 +494,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, length]
-        // Weight: [out_channels, in_channels, kernel_size] (same as conv1d)
+        // Weight: [in_channels, out_channels, kernel_size]
         if input_dims.len() != 3 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -425,10 +513,10 @@ impl Tensor {
         let batch_size = input_dims[0];
         let _channels_input = input_dims[1];
         let length_input = input_dims[2];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, K]
+        let channels_output = weight_dims[1];
         let kernel_size = weight_dims[2];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -445,11 +533,11 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose1d));
 
         let output_length =
-            (length_input - 1) * stride - 2 * padding + dilation * (kernel_size - 1) + output_padding + 1;
+            conv_transpose_output_size(length_input, kernel_size, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_length];
 
         let stride_arr = [stride];
-        let padding_arr = [padding];
+        let padding_arr = [padding, output_padding];
         let dilation_arr = [dilation];
 
         // Calculate layouts before if-else block
@@ -537,7 +625,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, height, width]
-        // Weight: [out_channels, in_channels, kernel_h, kernel_w] (same as conv2d)
+        // Weight: [in_channels, out_channels, kernel_h, kernel_w]
         if input_dims.len() != 4 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -557,11 +645,11 @@ impl Tensor {
         let _channels_input = input_dims[1];
         let input_height = input_dims[2];
         let input_width = input_dims[3];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, K, K]
+        let channels_output = weight_dims[1];
         let kernel_height = weight_dims[2];
         let kernel_width = weight_dims[3];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -578,13 +666,13 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose2d));
 
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            conv_transpose_output_size(input_height, kernel_height, stride, padding, output_padding, dilation)?;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            conv_transpose_output_size(input_width, kernel_width, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_height, output_width];
 
         let stride_arr = [stride; 2];
-        let padding_arr = [padding; 2];
+        let padding_arr = [padding, padding, output_padding, output_padding];
         let dilation_arr = [dilation; 2];
 
         // Calculate layouts before if-else block
@@ -674,7 +762,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, depth, height, width]
-        // Weight: [out_channels, in_channels, kernel_d, kernel_h, kernel_w] (same as conv3d)
+        // Weight: [in_channels, out_channels, kernel_d, kernel_h, kernel_w]
         if input_dims.len() != 5 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -695,12 +783,12 @@ impl Tensor {
         let input_depth = input_dims[2];
         let input_height = input_dims[3];
         let input_width = input_dims[4];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, ...]
+        let channels_output = weight_dims[1];
         let kernel_depth = weight_dims[2];
         let kernel_height = weight_dims[3];
         let kernel_width = weight_dims[4];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -717,15 +805,15 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose3d));
 
         let output_depth =
-            (input_depth - 1) * stride - 2 * padding + dilation * (kernel_depth - 1) + output_padding + 1;
+            conv_transpose_output_size(input_depth, kernel_depth, stride, padding, output_padding, dilation)?;
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            conv_transpose_output_size(input_height, kernel_height, stride, padding, output_padding, dilation)?;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            conv_transpose_output_size(input_width, kernel_width, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
-        let padding_arr = [padding; 3];
+        let padding_arr = [padding, padding, padding, output_padding, output_padding, output_padding];
         let dilation_arr = [dilation; 3];
 
         // Calculate layouts before if-else block
@@ -840,6 +928,8 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, false, ConvOp::Conv1dGradWeight)?;
+
         let stride_arr = [stride];
         let padding_arr = [padding];
         let dilation_arr = [dilation];
@@ -926,6 +1016,8 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, false, ConvOp::Conv2dGradWeight)?;
+
         let stride_arr = [stride; 2];
         let padding_arr = [padding; 2];
         let dilation_arr = [dilation; 2];
@@ -1013,6 +1105,8 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, false, ConvOp::Conv3dGradWeight)?;
+
         let stride_arr = [stride; 3];
         let padding_arr = [padding; 3];
         let dilation_arr = [dilation; 3];
@@ -1101,6 +1195,8 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, true, ConvOp::ConvTranspose1dGradWeight)?;
+
         let stride_arr = [stride];
         let padding_arr = [padding];
         let dilation_arr = [dilation];
@@ -1187,6 +1283,8 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, true, ConvOp::ConvTranspose2dGradWeight)?;
+
         let stride_arr = [stride; 2];
         let padding_arr = [padding; 2];
         let dilation_arr = [dilation; 2];
@@ -1274,6 +1372,8 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, true, ConvOp::ConvTranspose3dGradWeight)?;
+
         let stride_arr = [stride; 3];
         let padding_arr = [padding; 3];
         let dilation_arr = [dilation; 3];
diff --git a/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
index bd0afb8..7f848c9 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
@@ -110,7 +110,7 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K] (one row per output position)
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -126,12 +126,12 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         float *batch_output = output + b * out_channels * out_height * out_width;
         const float *batch_weight = weight + weight_offset;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0f, batch_weight, K,
-                    col_buffer, N, 0.0f, batch_output, N);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0f, batch_weight, K,
+                    col_buffer, K, 0.0f, batch_output, N);
     }
 
     free(col_buffer);
@@ -167,7 +167,7 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K] (one row per output position)
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -183,12 +183,12 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         double *batch_output = output + b * out_channels * out_height * out_width;
         const double *batch_weight = weight + weight_offset;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0, batch_weight, K,
-                    col_buffer, N, 0.0, batch_output, N);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0, batch_weight, K,
+                    col_buffer, K, 0.0, batch_output, N);
     }
 
     free(col_buffer);
@@ -254,7 +254,7 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K] (one row per output position)
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f32_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -270,12 +270,12 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const float *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0f, batch_grad_output, N,
-                    col_buffer, N, 1.0f, grad_weight, K);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0f, batch_grad_output, N,
+                    col_buffer, K, 1.0f, grad_weight, K);
     }
 
     free(col_buffer);
@@ -341,7 +341,7 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K] (one row per output position)
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f64_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -357,12 +357,12 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const double *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0, batch_grad_output, N,
-                    col_buffer, N, 1.0, grad_weight, K);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0, batch_grad_output, N,
+                    col_buffer, K, 1.0, grad_weight, K);
     }
 
     free(col_buffer);
diff --git a/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
index 6c10fad..fbb6239 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
@@ -110,7 +110,7 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K] (one row per output position)
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -126,12 +126,12 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         float *batch_output = output + b * out_channels * out_height * out_width;
         const float *batch_weight = weight + weight_offset;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0f, batch_weight, K,
-                    col_buffer, N, 0.0f, batch_output, N);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0f, batch_weight, K,
+                    col_buffer, K, 0.0f, batch_output, N);
     }
 
     free(col_buffer);
@@ -167,7 +167,7 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K] (one row per output position)
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -183,12 +183,12 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         double *batch_output = output + b * out_channels * out_height * out_width;
         const double *batch_weight = weight + weight_offset;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0, batch_weight, K,
-                    col_buffer, N, 0.0, batch_output, N);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0, batch_weight, K,
+                    col_buffer, K, 0.0, batch_output, N);
     }
 
     free(col_buffer);
@@ -254,7 +254,7 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K] (one row per output position)
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f32_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -270,12 +270,12 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const float *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0f, batch_grad_output, N,
-                    col_buffer, N, 1.0f, grad_weight, K);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0f, batch_grad_output, N,
+                    col_buffer, K, 1.0f, grad_weight, K);
     }
 
     free(col_buffer);
@@ -341,7 +341,7 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K] (one row per output position)
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f64_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -357,12 +357,12 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const double *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0, batch_grad_output, N,
-                    col_buffer, N, 1.0, grad_weight, K);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0, batch_grad_output, N,
+                    col_buffer, K, 1.0, grad_weight, K);
     }
 
     free(col_buffer);
-- 
2.43.0


From 80bb5dbfd682c551df5de31b24ddb8faf52f5210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 28/89] fix: casts narrow without double rounding and saturate,
 integer and f64 sequences are exact

---
 crates/hodu_core/src/tensor/creation.rs    | 136 ++++++++++++++-
 crates/hodu_cpu_kernels/kernels/ops_cast.c | 188 +++++++++++++--------
 2 files changed, 253 insertions(+), 71 deletions(-)

diff --git a/crates/hodu_core/src/tensor/creation.rs b/crates/hodu_core/src/tensor/creation.rs
index 8fb1c0d..5618a92 100644
--- a/crates/hodu_core/src/tensor/creation.rs
+++ b/crates/hodu_core/src/tensor/creation.rs
@@ -42,6 +42,87 @@ pub fn set_runtime_device(device: Device) {
     RUNTIME_DEVICE.store(encoded, Ordering::Relaxed);
 }
 
+/// Exact value of a non-float scalar.
+fn scalar_to_i128(value: Scalar) -> i128 {
+    match value {
+        Scalar::BOOL(v) => v as i128,
+        Scalar::U8(v) => v as i128,
+        #[cfg(feature = "u16")]
+        Scalar::U16(v) => v as i128,
+        Scalar::U32(v) => v as i128,
+        #[cfg(feature = "u64")]
+        Scalar::U64(v) => v as i128,
+        Scalar::I8(v) => v as i128,
+        #[cfg(feature = "i16")]
+        Scalar::I16(v) => v as i128,
+        Scalar::I32(v) => v as i128,
+        #[cfg(feature = "i64")]
+        Scalar::I64(v) => v as i128,
+        v => v.to_f32() as i128,
+    }
+}
+
+/// 1-D tensor of `size` integer (or boolean) elements, each computed exactly.
+fn int_sequence(size: usize, dtype: DType, value: impl Fn(usize) -> i128) -> HoduResult<Tensor> {
+    let layout = Layout::from_shape(&Shape::from(&[size]));
+    macro_rules! storage {
+        ($t:ty) => {
+            BackendDevice::storage_from_flatten(
+                (0..size).map(|i| value(i) as $t).collect::<Vec<$t>>(),
+                Device::CPU,
+            )?
+        };
+    }
+    let storage = match dtype {
+        DType::BOOL => {
+            BackendDevice::storage_from_flatten((0..size).map(|i| value(i) != 0).collect::<Vec<bool>>(), Device::CPU)?
+        },
+        DType::U8 => storage!(u8),
+        #[cfg(feature = "u16")]
+        DType::U16 => storage!(u16),
+        DType::U32 => storage!(u32),
+        #[cfg(feature = "u64")]
+        DType::U64 => storage!(u64),
+        DType::I8 => storage!(i8),
+        #[cfg(feature = "i16")]
+        DType::I16 => storage!(i16),
+        #[cfg(feature = "i64")]
+        DType::I64 => storage!(i64),
+        _ => storage!(i32),
+    };
+    Ok(from_storage(
+        storage,
+        layout,
+        !crate::snapshot::capture::is_active(),
+        false,
+        None,
+    ))
+}
+
+fn to_runtime_device(tensor: Tensor) -> HoduResult<Tensor> {
+    let device = get_runtime_device();
+    if crate::snapshot::capture::is_active() || device == Device::CPU {
+        Ok(tensor)
+    } else {
+        tensor.to_device(device)
+    }
+}
+
+/// 1-D tensor of `size` f64 elements.
+#[cfg(feature = "f64")]
+fn f64_sequence(size: usize, value: impl Fn(usize) -> f64) -> HoduResult<Tensor> {
+    let layout = Layout::from_shape(&Shape::from(&[size]));
+    let data: Vec<f64> = (0..size).map(value).collect();
+    let storage = BackendDevice::storage_from_flatten(data, Device::CPU)?;
+    Ok(from_storage(
+        storage,
+        layout,
+        !crate::snapshot::capture::is_active(),
+        false,
+        None,
+    ))
+}
+
 impl Tensor {
     // ========================================================================
     // From Data
@@ -211,6 +292,37 @@ impl Tensor {
             start.dtype()
         };
 
+        // Integer and double precision ranges do not fit single precision
+        if !dtype.is_float() {
+            let (start, end, step) = (scalar_to_i128(start), scalar_to_i128(end), scalar_to_i128(step));
+            if step == 0 {
+                return Err(HoduError::InvalidArgument("step cannot be zero".to_string()));
+            }
+            if (step > 0 && start >= end) || (step < 0 && start <= end) {
+                return Err(HoduError::InvalidArgument(
+                    "invalid range: start, end, and step are inconsistent".to_string(),
+                ));
+            }
+            let size = ((end - start).abs() as u128).div_ceil(step.unsigned_abs()) as usize;
+            let tensor = int_sequence(size, dtype, |i| start + step * i as i128)?;
+            return to_runtime_device(tensor);
+        }
+        #[cfg(feature = "f64")]
+        if dtype == DType::F64 {
+            let (start, end, step) = (start.to_f64(), end.to_f64(), step.to_f64());
+            if step == 0.0 {
+                return Err(HoduError::InvalidArgument("step cannot be zero".to_string()));
+            }
+            if (step > 0.0 && start >= end) || (step < 0.0 && start <= end) {
+                return Err(HoduError::InvalidArgument(
+                    "invalid range: start, end, and step are inconsistent".to_string(),
+                ));
+            }
+            let size = ((end - start) / step).ceil() as usize;
+            let tensor = f64_sequence(size, |i| start + step * i as f64)?;
+            return to_runtime_device(tensor);
+        }
+
         let start_f = start.to_f32();
         let end_f = end.to_f32();
         let step_f = step.to_f32();
@@ -262,13 +374,31 @@ impl Tensor {
             start.dtype()
         };
 
-        let start_f = start.to_f32();
-        let end_f = end.to_f32();
-
         if steps == 0 {
             return Err(HoduError::InvalidArgument("steps must be greater than 0".to_string()));
         }
 
+        // Integer and double precision ranges do not fit single precision
+        if !dtype.is_float() {
+            let (start, end) = (scalar_to_i128(start), scalar_to_i128(end));
+            let last = (steps - 1).max(1) as i128;
+            let tensor = int_sequence(steps, dtype, |i| {
+                let i = i as i128;
+                (start * (last - i) + end * i) / last
+            })?;
+            return to_runtime_device(tensor);
+        }
+        #[cfg(feature = "f64")]
+        if dtype == DType::F64 {
+            let (start, end) = (start.to_f64(), end.to_f64());
+            let step = (end - start) / (steps - 1).max(1) as f64;
+            let tensor = f64_sequence(steps, |i| start + step * i as f64)?;
+            return to_runtime_device(tensor);
+        }
+
+        let start_f = start.to_f32();
+        let end_f = end.to_f32();
+
         let device = if crate::snapshot::capture::is_active() {
             Device::CPU
         } else {
diff --git a/crates/hodu_cpu_kernels/kernels/ops_cast.c b/crates/hodu_cpu_kernels/kernels/ops_cast.c
index 8bd98a8..eca2fcb 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_cast.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_cast.c
@@ -1,6 +1,8 @@
 #include "ops_cast.h"
 #include "thread_utils.h"
 #include "types.h"
+#include <math.h>
+#include <string.h>
 
 // ============================================================================
 // CAST OPERATION IMPLEMENTATION
@@ -28,6 +30,56 @@
         i64_t: (float)(val),                                                                       \
         default: (float)(val))
 
+// Float to integer: truncate toward zero, saturate at the limits of the target, NaN becomes 0.
+// (The plain C conversion of a value the target cannot hold is undefined behaviour.)
+#define IMPL_FLOAT_TO_INT(FROM, TYPE, MIN, MAX)                                                    \
+    static inline TYPE##_t FROM##_to_##TYPE(FROM x) {                                              \
+        if (x != x)                                                                                \
+            return 0;                                                                              \
+        if (x <= (FROM)(MIN))                                                                      \
+            return (MIN);                                                                          \
+        if (x >= (FROM)(MAX))                                                                      \
+            return (MAX);                                                                          \
+        return (TYPE##_t)x;                                                                        \
+    }
+#define IMPL_FLOAT_TO_INTS(FROM)                                                                   \
+    IMPL_FLOAT_TO_INT(FROM, u8, 0, UINT8_MAX)                                                      \
+    IMPL_FLOAT_TO_INT(FROM, u16, 0, UINT16_MAX)                                                    \
+    IMPL_FLOAT_TO_INT(FROM, u32, 0, UINT32_MAX)                                                    \
+    IMPL_FLOAT_TO_INT(FROM, u64, 0, UINT64_MAX)                                                    \
+    IMPL_FLOAT_TO_INT(FROM, i8, INT8_MIN, INT8_MAX)                                                \
+    IMPL_FLOAT_TO_INT(FROM, i16, INT16_MIN, INT16_MAX)                                             \
+    IMPL_FLOAT_TO_INT(FROM, i32, INT32_MIN, INT32_MAX)                                             \
+    IMPL_FLOAT_TO_INT(FROM, i64, INT64_MIN, INT64_MAX)
+
+IMPL_FLOAT_TO_INTS(float)
+IMPL_FLOAT_TO_INTS(double)
+
+// Narrow to float rounding to odd, so that rounding the result again to a type of fewer mantissa
+// bits gives the same value as rounding the input to it directly.
+static inline float double_to_float_odd(double x) {
+    float f = (float)x;
+    if (x != x || isinf(f) || (double)f == x)
+        return f;
+    uint32_t bits;
+    memcpy(&bits, &f, sizeof(bits));
+    if (fabs((double)f) > fabs(x))
+        bits--; // truncate toward zero
+    bits |= 1;
+    memcpy(&f, &bits, sizeof(f));
+    return f;
+}
+
+static inline float u64_to_float_odd(uint64_t x) {
+    if (x >> 53) // keep what the double cannot hold as a sticky bit
+        x = ((x >> 11) | ((x & 0x7FF) != 0)) << 11;
+    return double_to_float_odd((double)x);
+}
+
+static inline float i64_to_float_odd(int64_t x) {
+    return x < 0 ? -u64_to_float_odd(0 - (uint64_t)x) : u64_to_float_odd((uint64_t)x);
+}
+
 /**
  * @brief Macro to implement cast operation from one type to another
  */
@@ -131,14 +183,14 @@ IMPL_CAST_OP(f8e4m3_t, f8e4m3, bf16_t, bf16, float_to_bf16(f8e4m3_to_float(x)))
 IMPL_CAST_OP(f8e4m3_t, f8e4m3, f16_t, f16, float_to_f16(f8e4m3_to_float(x)))
 IMPL_CAST_OP(f8e4m3_t, f8e4m3, f32_t, f32, f8e4m3_to_float(x))
 IMPL_CAST_OP(f8e4m3_t, f8e4m3, f64_t, f64, (f64_t)f8e4m3_to_float(x))
-IMPL_CAST_OP(f8e4m3_t, f8e4m3, u8_t, u8, (u8_t)f8e4m3_to_float(x))
-IMPL_CAST_OP(f8e4m3_t, f8e4m3, u16_t, u16, (u16_t)f8e4m3_to_float(x))
-IMPL_CAST_OP(f8e4m3_t, f8e4m3, u32_t, u32, (u32_t)f8e4m3_to_float(x))
-IMPL_CAST_OP(f8e4m3_t, f8e4m3, u64_t, u64, (u64_t)f8e4m3_to_float(x))
-IMPL_CAST_OP(f8e4m3_t, f8e4m3, i8_t, i8, (i8_t)f8e4m3_to_float(x))
-IMPL_CAST_OP(f8e4m3_t, f8e4m3, i16_t, i16, (i16_t)f8e4m3_to_float(x))
-IMPL_CAST_OP(f8e4m3_t, f8e4m3, i32_t, i32, (i32_t)f8e4m3_to_float(x))
-IMPL_CAST_OP(f8e4m3_t, f8e4m3, i64_t, i64, (i64_t)f8e4m3_to_float(x))
+IMPL_CAST_OP(f8e4m3_t, f8e4m3, u8_t, u8, float_to_u8(f8e4m3_to_float(x)))
+IMPL_CAST_OP(f8e4m3_t, f8e4m3, u16_t, u16, float_to_u16(f8e4m3_to_float(x)))
+IMPL_CAST_OP(f8e4m3_t, f8e4m3, u32_t, u32, float_to_u32(f8e4m3_to_float(x)))
+IMPL_CAST_OP(f8e4m3_t, f8e4m3, u64_t, u64, float_to_u64(f8e4m3_to_float(x)))
+IMPL_CAST_OP(f8e4m3_t, f8e4m3, i8_t, i8, float_to_i8(f8e4m3_to_float(x)))
+IMPL_CAST_OP(f8e4m3_t, f8e4m3, i16_t, i16, float_to_i16(f8e4m3_to_float(x)))
+IMPL_CAST_OP(f8e4m3_t, f8e4m3, i32_t, i32, float_to_i32(f8e4m3_to_float(x)))
+IMPL_CAST_OP(f8e4m3_t, f8e4m3, i64_t, i64, float_to_i64(f8e4m3_to_float(x)))
 
 // ============================================================================
 // F8E5M2 conversions
@@ -150,14 +202,14 @@ IMPL_CAST_OP(f8e5m2_t, f8e5m2, bf16_t, bf16, float_to_bf16(f8e5m2_to_float(x)))
 IMPL_CAST_OP(f8e5m2_t, f8e5m2, f16_t, f16, float_to_f16(f8e5m2_to_float(x)))
 IMPL_CAST_OP(f8e5m2_t, f8e5m2, f32_t, f32, f8e5m2_to_float(x))
 IMPL_CAST_OP(f8e5m2_t, f8e5m2, f64_t, f64, (f64_t)f8e5m2_to_float(x))
-IMPL_CAST_OP(f8e5m2_t, f8e5m2, u8_t, u8, (u8_t)f8e5m2_to_float(x))
-IMPL_CAST_OP(f8e5m2_t, f8e5m2, u16_t, u16, (u16_t)f8e5m2_to_float(x))
-IMPL_CAST_OP(f8e5m2_t, f8e5m2, u32_t, u32, (u32_t)f8e5m2_to_float(x))
-IMPL_CAST_OP(f8e5m2_t, f8e5m2, u64_t, u64, (u64_t)f8e5m2_to_float(x))
-IMPL_CAST_OP(f8e5m2_t, f8e5m2, i8_t, i8, (i8_t)f8e5m2_to_float(x))
-IMPL_CAST_OP(f8e5m2_t, f8e5m2, i16_t, i16, (i16_t)f8e5m2_to_float(x))
-IMPL_CAST_OP(f8e5m2_t, f8e5m2, i32_t, i32, (i32_t)f8e5m2_to_float(x))
-IMPL_CAST_OP(f8e5m2_t, f8e5m2, i64_t, i64, (i64_t)f8e5m2_to_float(x))
+IMPL_CAST_OP(f8e5m2_t, f8e5m2, u8_t, u8, float_to_u8(f8e5m2_to_float(x)))
+IMPL_CAST_OP(f8e5m2_t, f8e5m2, u16_t, u16, float_to_u16(f8e5m2_to_float(x)))
+IMPL_CAST_OP(f8e5m2_t, f8e5m2, u32_t, u32, float_to_u32(f8e5m2_to_float(x)))
+IMPL_CAST_OP(f8e5m2_t, f8e5m2, u64_t, u64, float_to_u64(f8e5m2_to_float(x)))
+IMPL_CAST_OP(f8e5m2_t, f8e5m2, i8_t, i8, float_to_i8(f8e5m2_to_float(x)))
+IMPL_CAST_OP(f8e5m2_t, f8e5m2, i16_t, i16, float_to_i16(f8e5m2_to_float(x)))
+IMPL_CAST_OP(f8e5m2_t, f8e5m2, i32_t, i32, float_to_i32(f8e5m2_to_float(x)))
+IMPL_CAST_OP(f8e5m2_t, f8e5m2, i64_t, i64, float_to_i64(f8e5m2_to_float(x)))
 
 // ============================================================================
 // BF16 conversions
@@ -169,14 +221,14 @@ IMPL_CAST_OP(bf16_t, bf16, bf16_t, bf16, x)
 IMPL_CAST_OP(bf16_t, bf16, f16_t, f16, float_to_f16(bf16_to_float(x)))
 IMPL_CAST_OP(bf16_t, bf16, f32_t, f32, bf16_to_float(x))
 IMPL_CAST_OP(bf16_t, bf16, f64_t, f64, (f64_t)bf16_to_float(x))
-IMPL_CAST_OP(bf16_t, bf16, u8_t, u8, (u8_t)bf16_to_float(x))
-IMPL_CAST_OP(bf16_t, bf16, u16_t, u16, (u16_t)bf16_to_float(x))
-IMPL_CAST_OP(bf16_t, bf16, u32_t, u32, (u32_t)bf16_to_float(x))
-IMPL_CAST_OP(bf16_t, bf16, u64_t, u64, (u64_t)bf16_to_float(x))
-IMPL_CAST_OP(bf16_t, bf16, i8_t, i8, (i8_t)bf16_to_float(x))
-IMPL_CAST_OP(bf16_t, bf16, i16_t, i16, (i16_t)bf16_to_float(x))
-IMPL_CAST_OP(bf16_t, bf16, i32_t, i32, (i32_t)bf16_to_float(x))
-IMPL_CAST_OP(bf16_t, bf16, i64_t, i64, (i64_t)bf16_to_float(x))
+IMPL_CAST_OP(bf16_t, bf16, u8_t, u8, float_to_u8(bf16_to_float(x)))
+IMPL_CAST_OP(bf16_t, bf16, u16_t, u16, float_to_u16(bf16_to_float(x)))
+IMPL_CAST_OP(bf16_t, bf16, u32_t, u32, float_to_u32(bf16_to_float(x)))
+IMPL_CAST_OP(bf16_t, bf16, u64_t, u64, float_to_u64(bf16_to_float(x)))
+IMPL_CAST_OP(bf16_t, bf16, i8_t, i8, float_to_i8(bf16_to_float(x)))
+IMPL_CAST_OP(bf16_t, bf16, i16_t, i16, float_to_i16(bf16_to_float(x)))
+IMPL_CAST_OP(bf16_t, bf16, i32_t, i32, float_to_i32(bf16_to_float(x)))
+IMPL_CAST_OP(bf16_t, bf16, i64_t, i64, float_to_i64(bf16_to_float(x)))
 
 // ============================================================================
 // F16 conversions
@@ -188,14 +240,14 @@ IMPL_CAST_OP(f16_t, f16, bf16_t, bf16, float_to_bf16(f16_to_float(x)))
 IMPL_CAST_OP(f16_t, f16, f16_t, f16, x)
 IMPL_CAST_OP(f16_t, f16, f32_t, f32, f16_to_float(x))
 IMPL_CAST_OP(f16_t, f16, f64_t, f64, (f64_t)f16_to_float(x))
-IMPL_CAST_OP(f16_t, f16, u8_t, u8, (u8_t)f16_to_float(x))
-IMPL_CAST_OP(f16_t, f16, u16_t, u16, (u16_t)f16_to_float(x))
-IMPL_CAST_OP(f16_t, f16, u32_t, u32, (u32_t)f16_to_float(x))
-IMPL_CAST_OP(f16_t, f16, u64_t, u64, (u64_t)f16_to_float(x))
-IMPL_CAST_OP(f16_t, f16, i8_t, i8, (i8_t)f16_to_float(x))
-IMPL_CAST_OP(f16_t, f16, i16_t, i16, (i16_t)f16_to_float(x))
-IMPL_CAST_OP(f16_t, f16, i32_t, i32, (i32_t)f16_to_float(x))
-IMPL_CAST_OP(f16_t, f16, i64_t, i64, (i64_t)f16_to_float(x))
+IMPL_CAST_OP(f16_t, f16, u8_t, u8, float_to_u8(f16_to_float(x)))
+IMPL_CAST_OP(f16_t, f16, u16_t, u16, float_to_u16(f16_to_float(x)))
+IMPL_CAST_OP(f16_t, f16, u32_t, u32, float_to_u32(f16_to_float(x)))
+IMPL_CAST_OP(f16_t, f16, u64_t, u64, float_to_u64(f16_to_float(x)))
+IMPL_CAST_OP(f16_t, f16, i8_t, i8, float_to_i8(f16_to_float(x)))
+IMPL_CAST_OP(f16_t, f16, i16_t, i16, float_to_i16(f16_to_float(x)))
+IMPL_CAST_OP(f16_t, f16, i32_t, i32, float_to_i32(f16_to_float(x)))
+IMPL_CAST_OP(f16_t, f16, i64_t, i64, float_to_i64(f16_to_float(x)))
 
 // ============================================================================
 // F32 conversions
@@ -207,33 +259,33 @@ IMPL_CAST_OP(f32_t, f32, bf16_t, bf16, float_to_bf16(x))
 IMPL_CAST_OP(f32_t, f32, f16_t, f16, float_to_f16(x))
 IMPL_CAST_OP(f32_t, f32, f32_t, f32, x)
 IMPL_CAST_OP(f32_t, f32, f64_t, f64, (f64_t)x)
-IMPL_CAST_OP(f32_t, f32, u8_t, u8, (u8_t)x)
-IMPL_CAST_OP(f32_t, f32, u16_t, u16, (u16_t)x)
-IMPL_CAST_OP(f32_t, f32, u32_t, u32, (u32_t)x)
-IMPL_CAST_OP(f32_t, f32, u64_t, u64, (u64_t)x)
-IMPL_CAST_OP(f32_t, f32, i8_t, i8, (i8_t)x)
-IMPL_CAST_OP(f32_t, f32, i16_t, i16, (i16_t)x)
-IMPL_CAST_OP(f32_t, f32, i32_t, i32, (i32_t)x)
-IMPL_CAST_OP(f32_t, f32, i64_t, i64, (i64_t)x)
+IMPL_CAST_OP(f32_t, f32, u8_t, u8, float_to_u8(x))
+IMPL_CAST_OP(f32_t, f32, u16_t, u16, float_to_u16(x))
+IMPL_CAST_OP(f32_t, f32, u32_t, u32, float_to_u32(x))
+IMPL_CAST_OP(f32_t, f32, u64_t, u64, float_to_u64(x))
+IMPL_CAST_OP(f32_t, f32, i8_t, i8, float_to_i8(x))
+IMPL_CAST_OP(f32_t, f32, i16_t, i16, float_to_i16(x))
+IMPL_CAST_OP(f32_t, f32, i32_t, i32, float_to_i32(x))
+IMPL_CAST_OP(f32_t, f32, i64_t, i64, float_to_i64(x))
 
 // ============================================================================
 // F64 conversions
 // ============================================================================
 IMPL_CAST_OP(f64_t, f64, uint8_t, bool, (x != 0.0))
-IMPL_CAST_OP(f64_t, f64, f8e4m3_t, f8e4m3, float_to_f8e4m3((float)x))
-IMPL_CAST_OP(f64_t, f64, f8e5m2_t, f8e5m2, float_to_f8e5m2((float)x))
-IMPL_CAST_OP(f64_t, f64, bf16_t, bf16, float_to_bf16((float)x))
-IMPL_CAST_OP(f64_t, f64, f16_t, f16, float_to_f16((float)x))
+IMPL_CAST_OP(f64_t, f64, f8e4m3_t, f8e4m3, float_to_f8e4m3(double_to_float_odd(x)))
+IMPL_CAST_OP(f64_t, f64, f8e5m2_t, f8e5m2, float_to_f8e5m2(double_to_float_odd(x)))
+IMPL_CAST_OP(f64_t, f64, bf16_t, bf16, float_to_bf16(double_to_float_odd(x)))
+IMPL_CAST_OP(f64_t, f64, f16_t, f16, float_to_f16(double_to_float_odd(x)))
 IMPL_CAST_OP(f64_t, f64, f32_t, f32, (f32_t)x)
 IMPL_CAST_OP(f64_t, f64, f64_t, f64, x)
-IMPL_CAST_OP(f64_t, f64, u8_t, u8, (u8_t)x)
-IMPL_CAST_OP(f64_t, f64, u16_t, u16, (u16_t)x)
-IMPL_CAST_OP(f64_t, f64, u32_t, u32, (u32_t)x)
-IMPL_CAST_OP(f64_t, f64, u64_t, u64, (u64_t)x)
-IMPL_CAST_OP(f64_t, f64, i8_t, i8, (i8_t)x)
-IMPL_CAST_OP(f64_t, f64, i16_t, i16, (i16_t)x)
-IMPL_CAST_OP(f64_t, f64, i32_t, i32, (i32_t)x)
-IMPL_CAST_OP(f64_t, f64, i64_t, i64, (i64_t)x)
+IMPL_CAST_OP(f64_t, f64, u8_t, u8, double_to_u8(x))
+IMPL_CAST_OP(f64_t, f64, u16_t, u16, double_to_u16(x))
+IMPL_CAST_OP(f64_t, f64, u32_t, u32, double_to_u32(x))
+IMPL_CAST_OP(f64_t, f64, u64_t, u64, double_to_u64(x))
+IMPL_CAST_OP(f64_t, f64, i8_t, i8, double_to_i8(x))
+IMPL_CAST_OP(f64_t, f64, i16_t, i16, double_to_i16(x))
+IMPL_CAST_OP(f64_t, f64, i32_t, i32, double_to_i32(x))
+IMPL_CAST_OP(f64_t, f64, i64_t, i64, double_to_i64(x))
 
 // ============================================================================
 // U8 conversions
@@ -277,10 +329,10 @@ IMPL_CAST_OP(u16_t, u16, i64_t, i64, (i64_t)x)
 // U32 conversions
 // ============================================================================
 IMPL_CAST_OP(u32_t, u32, uint8_t, bool, (x != 0))
-IMPL_CAST_OP(u32_t, u32, f8e4m3_t, f8e4m3, float_to_f8e4m3((float)x))
-IMPL_CAST_OP(u32_t, u32, f8e5m2_t, f8e5m2, float_to_f8e5m2((float)x))
-IMPL_CAST_OP(u32_t, u32, bf16_t, bf16, float_to_bf16((float)x))
-IMPL_CAST_OP(u32_t, u32, f16_t, f16, float_to_f16((float)x))
+IMPL_CAST_OP(u32_t, u32, f8e4m3_t, f8e4m3, float_to_f8e4m3(double_to_float_odd((double)x)))
+IMPL_CAST_OP(u32_t, u32, f8e5m2_t, f8e5m2, float_to_f8e5m2(double_to_float_odd((double)x)))
+IMPL_CAST_OP(u32_t, u32, bf16_t, bf16, float_to_bf16(double_to_float_odd((double)x)))
+IMPL_CAST_OP(u32_t, u32, f16_t, f16, float_to_f16(double_to_float_odd((double)x)))
 IMPL_CAST_OP(u32_t, u32, f32_t, f32, (f32_t)x)
 IMPL_CAST_OP(u32_t, u32, f64_t, f64, (f64_t)x)
 IMPL_CAST_OP(u32_t, u32, u8_t, u8, (u8_t)x)
@@ -296,10 +348,10 @@ IMPL_CAST_OP(u32_t, u32, i64_t, i64, (i64_t)x)
 // U64 conversions
 // ============================================================================
 IMPL_CAST_OP(u64_t, u64, uint8_t, bool, (x != 0))
-IMPL_CAST_OP(u64_t, u64, f8e4m3_t, f8e4m3, float_to_f8e4m3((float)x))
-IMPL_CAST_OP(u64_t, u64, f8e5m2_t, f8e5m2, float_to_f8e5m2((float)x))
-IMPL_CAST_OP(u64_t, u64, bf16_t, bf16, float_to_bf16((float)x))
-IMPL_CAST_OP(u64_t, u64, f16_t, f16, float_to_f16((float)x))
+IMPL_CAST_OP(u64_t, u64, f8e4m3_t, f8e4m3, float_to_f8e4m3(u64_to_float_odd(x)))
+IMPL_CAST_OP(u64_t, u64, f8e5m2_t, f8e5m2, float_to_f8e5m2(u64_to_float_odd(x)))
+IMPL_CAST_OP(u64_t, u64, bf16_t, bf16, float_to_bf16(u64_to_float_odd(x)))
+IMPL_CAST_OP(u64_t, u64, f16_t, f16, float_to_f16(u64_to_float_odd(x)))
 IMPL_CAST_OP(u64_t, u64, f32_t, f32, (f32_t)x)
 IMPL_CAST_OP(u64_t, u64, f64_t, f64, (f64_t)x)
 IMPL_CAST_OP(u64_t, u64, u8_t, u8, (u8_t)x)
@@ -353,10 +405,10 @@ IMPL_CAST_OP(i16_t, i16, i64_t, i64, (i64_t)x)
 // I32 conversions
 // ============================================================================
 IMPL_CAST_OP(i32_t, i32, uint8_t, bool, (x != 0))
-IMPL_CAST_OP(i32_t, i32, f8e4m3_t, f8e4m3, float_to_f8e4m3((float)x))
-IMPL_CAST_OP(i32_t, i32, f8e5m2_t, f8e5m2, float_to_f8e5m2((float)x))
-IMPL_CAST_OP(i32_t, i32, bf16_t, bf16, float_to_bf16((float)x))
-IMPL_CAST_OP(i32_t, i32, f16_t, f16, float_to_f16((float)x))
+IMPL_CAST_OP(i32_t, i32, f8e4m3_t, f8e4m3, float_to_f8e4m3(double_to_float_odd((double)x)))
+IMPL_CAST_OP(i32_t, i32, f8e5m2_t, f8e5m2, float_to_f8e5m2(double_to_float_odd((double)x)))
+IMPL_CAST_OP(i32_t, i32, bf16_t, bf16, float_to_bf16(double_to_float_odd((double)x)))
+IMPL_CAST_OP(i32_t, i32, f16_t, f16, float_to_f16(double_to_float_odd((double)x)))
 IMPL_CAST_OP(i32_t, i32, f32_t, f32, (f32_t)x)
 IMPL_CAST_OP(i32_t, i32, f64_t, f64, (f64_t)x)
 IMPL_CAST_OP(i32_t, i32, u8_t, u8, (u8_t)x)
@@ -372,10 +424,10 @@ IMPL_CAST_OP(i32_t, i32, i64_t, i64, (i64_t)x)
 // I64 conversions
 // ============================================================================
 IMPL_CAST_OP(i64_t, i64, uint8_t, bool, (x != 0))
-IMPL_CAST_OP(i64_t, i64, f8e4m3_t, f8e4m3, float_to_f8e4m3((float)x))
-IMPL_CAST_OP(i64_t, i64, f8e5m2_t, f8e5m2, float_to_f8e5m2((float)x))
-IMPL_CAST_OP(i64_t, i64, bf16_t, bf16, float_to_bf16((float)x))
-IMPL_CAST_OP(i64_t, i64, f16_t, f16, float_to_f16((float)x))
+IMPL_CAST_OP(i64_t, i64, f8e4m3_t, f8e4m3, float_to_f8e4m3(i64_to_float_odd(x)))
+IMPL_CAST_OP(i64_t, i64, f8e5m2_t, f8e5m2, float_to_f8e5m2(i64_to_float_odd(x)))
+IMPL_CAST_OP(i64_t, i64, bf16_t, bf16, float_to_bf16(i64_to_float_odd(x)))
+IMPL_CAST_OP(i64_t, i64, f16_t, f16, float_to_f16(i64_to_float_odd(x)))
 IMPL_CAST_OP(i64_t, i64, f32_t, f32, (f32_t)x)
 IMPL_CAST_OP(i64_t, i64, f64_t, f64, (f64_t)x)
 IMPL_CAST_OP(i64_t, i64, u8_t, u8, (u8_t)x)
-- 
2.43.0


From 9e28f84f0073de948a3aaf534d7a1b7bb46e28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:44 +0000
Subject: [PATCH 29/89] fix: tensors live exactly as long as handles, gradient
 links and tape entries refer to them; per-thread autograd state; no tape
 deadlock

---
 .../hodu_core/src/be_cpu/storage/ops_conv.rs  |  20 +--
 .../hodu_core/src/snapshot/capture/board.rs   |  20 ++-
 crates/hodu_core/src/tensor.rs                |   3 +-
 crates/hodu_core/src/tensor/core.rs           | 128 ++------------
 crates/hodu_core/src/tensor/creation.rs       |  16 +-
 .../hodu_core/src/tensor/creation_static.rs   |  19 +-
 crates/hodu_core/src/tensor/gradient.rs       |   8 +-
 .../hodu_core/src/tensor/gradient/compute.rs  |  43 +++--
 .../hodu_core/src/tensor/gradient/context.rs  |  10 +-
 crates/hodu_core/src/tensor/gradient/core.rs  |  29 ++--
 crates/hodu_core/src/tensor/gradient/tape.rs  | 164 +++++++-----------
 crates/hodu_core/src/tensor/internal.rs       | 122 +++++--------
 .../hodu_core/src/tensor/ops/concat_split.rs  |  12 +-
 crates/hodu_core/src/tensor/ops/conv.rs       |  81 +++++++--
 crates/hodu_core/src/tensor/ops/indexing.rs   |   4 +-
 crates/hodu_core/src/tensor/ops/reduce.rs     |   4 +-
 crates/hodu_core/src/tensor/registry.rs       |  47 ++++-
 crates/hodu_core/src/types/layout.rs          |  15 +-
 crates/hodu_core/src/utils/valid.rs           |   6 +-
 crates/hodu_nn/macros/src/derive.rs           |   6 +-
 20 files changed, 339 insertions(+), 418 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
index 31569c7..c1cce48 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
@@ -155,10 +155,10 @@ pub fn call_ops_conv(
 
             let (out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose2d) {
                 // Transposed convolution
-                let out_h = (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + 1 + padding[2]
-                    - 2 * padding_h;
-                let out_w = (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + 1 + padding[3]
-                    - 2 * padding_w;
+                let out_h =
+                    (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + 1 + padding[2] - 2 * padding_h;
+                let out_w =
+                    (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + 1 + padding[3] - 2 * padding_w;
                 (out_h, out_w)
             } else {
                 // Standard convolution
@@ -200,12 +200,12 @@ pub fn call_ops_conv(
 
             let (out_depth, out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose3d) {
                 // Transposed convolution
-                let out_d = (in_depth - 1) * stride_d + dilation_d * (kernel_depth - 1) + 1 + padding[3]
-                    - 2 * padding_d;
-                let out_h = (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + 1 + padding[4]
-                    - 2 * padding_h;
-                let out_w = (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + 1 + padding[5]
-                    - 2 * padding_w;
+                let out_d =
+                    (in_depth - 1) * stride_d + dilation_d * (kernel_depth - 1) + 1 + padding[3] - 2 * padding_d;
+                let out_h =
+                    (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + 1 + padding[4] - 2 * padding_h;
+                let out_w =
+                    (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + 1 + padding[5] - 2 * padding_w;
                 (out_d, out_h, out_w)
             } else {
                 // Standard convolution
diff --git a/crates/hodu_core/src/snapshot/capture/board.rs b/crates/hodu_core/src/snapshot/capture/board.rs
index 0babdaa..b619052 100644
--- a/crates/hodu_core/src/snapshot/capture/board.rs
+++ b/crates/hodu_core/src/snapshot/capture/board.rs
@@ -2,7 +2,7 @@ use crate::{
     error::HoduResult,
     ops::{Op, OpParams},
     snapshot::{Snapshot, SnapshotInput, SnapshotNode, SnapshotTarget, SnapshotTensorId},
-    tensor::{Tensor, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
     types::{DType, Layout, Shape, SymbolicLayout},
 };
 use std::collections::HashSet;
@@ -54,6 +54,8 @@ pub(super) struct CaptureBoard_ {
     pub(super) inputs: Vec<CapturedInput>,
     pub(super) targets: Vec<CapturedTarget>,
     pub(super) ops: Vec<CapturedOp>,
+    /// Handles of every tensor the captured operations and targets refer to
+    pub(super) held: Vec<Tensor>,
 }
 
 impl CaptureBoard_ {
@@ -65,6 +67,7 @@ impl CaptureBoard_ {
             dtype: tensor.dtype(),
         };
         self.inputs.push(input);
+        self.held.push(tensor);
         Ok(())
     }
 
@@ -74,9 +77,12 @@ impl CaptureBoard_ {
             tensor_id: tensor.id(),
         };
         self.targets.push(target);
+        self.held.push(tensor);
     }
 
     pub(super) fn add_op(&mut self, op: CapturedOp) {
+        self.held
+            .extend(op.input_ids.iter().chain([&op.output_id]).map(|&id| tensor_from_id(id)));
         self.ops.push(op);
     }
 }
@@ -93,6 +99,7 @@ impl CaptureBoard {
             inputs: Vec::new(),
             targets: Vec::new(),
             ops: Vec::new(),
+            held: Vec::new(),
         };
         super::storage::register_board(board);
         Self(id)
@@ -106,6 +113,7 @@ impl CaptureBoard {
             inputs: Vec::new(),
             targets: Vec::new(),
             ops: Vec::new(),
+            held: Vec::new(),
         };
         super::storage::register_board(board);
         Self(id)
@@ -323,6 +331,16 @@ impl CaptureBoard {
     }
 }
 
+impl Drop for CaptureBoard {
+    fn drop(&mut self) {
+        if super::storage::active_board_id() == Some(self.0) {
+            self.close();
+        }
+        // Abandoned without a capture; the tensors it holds are dropped outside the storage
+        drop(super::storage::take_board(self.0));
+    }
+}
+
 impl Default for CaptureBoard {
     fn default() -> Self {
         Self::new()
diff --git a/crates/hodu_core/src/tensor.rs b/crates/hodu_core/src/tensor.rs
index 197e3ed..ca54897 100644
--- a/crates/hodu_core/src/tensor.rs
+++ b/crates/hodu_core/src/tensor.rs
@@ -12,7 +12,6 @@ pub(crate) mod utils;
 mod vec;
 
 // Re-export core types
-pub(crate) use core::Tensor_;
 pub use core::{Tensor, TensorId};
 pub use creation::{get_runtime_device, set_runtime_device};
 pub use gradient::{is_computing_gradients, is_in_optimizer_step, set_optimizer_step_flag, ContextId, GradientContext};
@@ -27,4 +26,4 @@ pub(crate) use internal::{
 };
 
 // Re-export for submodules
-pub(crate) use registry::{get_all_tensor_ids, insert, remove};
+pub(crate) use registry::{release, retain};
diff --git a/crates/hodu_core/src/tensor/core.rs b/crates/hodu_core/src/tensor/core.rs
index a10e352..41616f7 100644
--- a/crates/hodu_core/src/tensor/core.rs
+++ b/crates/hodu_core/src/tensor/core.rs
@@ -35,63 +35,14 @@ impl AsRef<Tensor> for Tensor {
 
 impl Clone for Tensor {
     fn clone(&self) -> Self {
-        if let Some(()) = registry::with_tensor(self.0, |t| {
-            t.ref_count.fetch_add(1, Ordering::Relaxed);
-        }) {
-            // Tensor exists, ref_count incremented
-        }
+        registry::retain(self.0);
         Tensor(self.0)
     }
 }
 
 impl Drop for Tensor {
     fn drop(&mut self) {
-        let (should_remove, should_cleanup_tape, grad_id) = registry::with_tensor(self.0, |t| {
-            let prev_count = t.ref_count.load(Ordering::Relaxed);
-
-            if prev_count > 0 {
-                t.ref_count.fetch_sub(1, Ordering::Relaxed);
-            }
-
-            let remove = if gradient::is_computing_gradients() {
-                false
-            } else {
-                (prev_count == 1 || prev_count == 0) && t.is_runtime && t.owner_context.is_none() && !t.is_gradient
-            };
-
-            let cleanup =
-                prev_count == 1 && t.requires_grad && t.owner_context.is_none() && !gradient::is_computing_gradients();
-
-            (remove, cleanup, t.grad_tensor_id)
-        })
-        .unwrap_or((false, false, None));
-
-        if should_cleanup_tape {
-            gradient::cleanup_tape_for_dropped_tensor(self.0);
-        }
-
-        if should_remove {
-            if let Some(grad_id) = grad_id {
-                if let Some((should_remove_grad, should_cleanup_grad_tape)) = registry::with_tensor(grad_id, |g| {
-                    let prev_count = g.ref_count.load(Ordering::Relaxed);
-                    if prev_count > 0 {
-                        g.ref_count.fetch_sub(1, Ordering::Relaxed);
-                    }
-                    let remove = (prev_count == 1 || prev_count == 0) && g.is_runtime && g.owner_context.is_none();
-                    let cleanup = (prev_count == 1 || prev_count == 0) && g.requires_grad && g.owner_context.is_none();
-                    (remove, cleanup)
-                }) {
-                    if should_cleanup_grad_tape {
-                        gradient::cleanup_tape_for_dropped_tensor(grad_id);
-                    }
-                    if should_remove_grad {
-                        registry::remove(grad_id);
-                    }
-                }
-            }
-
-            registry::remove(self.0);
-        }
+        registry::release(self.0);
     }
 }
 
@@ -102,17 +53,12 @@ pub struct Tensor_ {
     pub(super) requires_grad: bool,
     pub(super) grad_tensor_id: Option<TensorId>,
     pub(super) is_runtime: bool,
-    pub(super) is_gradient: bool,
-    pub(super) owner_context: Option<ContextId>,
+    /// The context whose tape records how this tensor was computed
+    pub(super) recorded_in: Option<ContextId>,
+    /// Handles, tensors this is the gradient of, and tape entries this is an input of
     pub(super) ref_count: AtomicUsize,
 }
 
-impl Tensor_ {
-    pub(crate) fn owner_context(&self) -> Option<ContextId> {
-        self.owner_context
-    }
-}
-
 impl Tensor {
     #[inline]
     pub fn id(&self) -> TensorId {
@@ -239,17 +185,9 @@ impl Tensor {
     }
 
     pub fn grad(&self) -> HoduResult<Self> {
-        if let Some(result) = registry::with_tensor(self.0, |tensor_ref| {
-            if let Some(grad_id) = tensor_ref.grad_tensor_id {
-                Ok(super::internal::tensor_from_id(grad_id))
-            } else {
-                Err(HoduError::GradientNotComputed(self.0))
-            }
-        }) {
-            result
-        } else {
-            Err(HoduError::TensorNotFound(self.0))
-        }
+        // The count goes up before the link to the gradient can change
+        let grad_id = super::internal::retain_grad(self.0)?;
+        Ok(Self::from_id(grad_id))
     }
 
     pub fn zero_grad(&self) -> HoduResult<()> {
@@ -257,49 +195,13 @@ impl Tensor {
             return Ok(());
         }
 
-        let old_grad_id = registry::with_tensor_mut(self.0, |tensor_ref| tensor_ref.grad_tensor_id.take());
-
-        if let Some(Some(old_grad_id)) = old_grad_id {
-            let (shape, dtype) = registry::with_tensor(old_grad_id, |t| {
-                let shape = t.layout.shape().to_vec();
-                let dtype = t.storage.as_ref().map(|s| s.dtype()).unwrap_or(DType::F32);
-                (shape, dtype)
-            })
-            .ok_or(HoduError::TensorNotFound(old_grad_id))?;
-
-            let (should_remove, should_cleanup_tape) = registry::with_tensor(old_grad_id, |t| {
-                let prev_count = t.ref_count.fetch_sub(1, Ordering::Relaxed);
-                let remove = prev_count == 1 && t.is_runtime && t.owner_context.is_none();
-                let cleanup = prev_count == 1 && t.requires_grad && t.owner_context.is_none();
-                (remove, cleanup)
-            })
-            .unwrap_or((false, false));
-
-            if should_cleanup_tape {
-                gradient::cleanup_tape_for_dropped_tensor(old_grad_id);
-            }
-
-            if should_remove {
-                registry::remove(old_grad_id);
-            }
-
-            let zeros = Self::zeros(&shape, dtype)?;
-            let zeros_id = zeros.id();
-
-            if let Some(()) = registry::with_tensor_mut(zeros_id, |t| {
-                t.is_gradient = true;
-                t.ref_count.fetch_add(1, Ordering::Relaxed);
-            }) {
-                // Successfully set is_gradient
-            } else {
-                return Err(HoduError::TensorNotFound(zeros_id));
-            }
-
-            registry::with_tensor_mut(self.0, |tensor_ref| {
-                tensor_ref.grad_tensor_id = Some(zeros_id);
-            });
-        }
+        let old_grad = match self.grad() {
+            Ok(old_grad) => old_grad,
+            Err(HoduError::GradientNotComputed(_)) => return Ok(()),
+            Err(error) => return Err(error),
+        };
 
-        Ok(())
+        let zeros = Self::zeros(old_grad.shape(), old_grad.dtype())?;
+        super::internal::set_grad_tensor_id(self.0, zeros.id())
     }
 }
diff --git a/crates/hodu_core/src/tensor/creation.rs b/crates/hodu_core/src/tensor/creation.rs
index 5618a92..144b365 100644
--- a/crates/hodu_core/src/tensor/creation.rs
+++ b/crates/hodu_core/src/tensor/creation.rs
@@ -95,7 +95,6 @@ fn int_sequence(size: usize, dtype: DType, value: impl Fn(usize) -> i128) -> Hod
         layout,
         !crate::snapshot::capture::is_active(),
         false,
-        None,
     ))
 }
 
@@ -119,7 +118,6 @@ fn f64_sequence(size: usize, value: impl Fn(usize) -> f64) -> HoduResult<Tensor>
         layout,
         !crate::snapshot::capture::is_active(),
         false,
-        None,
     ))
 }
 
@@ -142,7 +140,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -170,7 +167,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -196,7 +192,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -218,7 +213,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -241,7 +235,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -265,7 +258,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -348,7 +340,7 @@ impl Tensor {
         let shape = Shape::from(&[size]);
         let layout = Layout::from_shape(&shape);
         let storage = BackendDevice::storage_from_flatten(data, Device::CPU)?;
-        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false, None);
+        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false);
 
         let tensor = if dtype != DType::F32 {
             tensor.to_dtype(dtype)?
@@ -415,7 +407,7 @@ impl Tensor {
         let shape = Shape::from(&[steps]);
         let layout = Layout::from_shape(&shape);
         let storage = BackendDevice::storage_from_flatten(data, Device::CPU)?;
-        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false, None);
+        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false);
 
         let tensor = if dtype != DType::F32 {
             tensor.to_dtype(dtype)?
@@ -453,7 +445,7 @@ impl Tensor {
         let shape = Shape::from(&[n, m]);
         let layout = Layout::from_shape(&shape);
         let storage = BackendDevice::storage_from_flatten(data, Device::CPU)?;
-        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false, None);
+        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false);
 
         let tensor = if dtype != DType::F32 {
             tensor.to_dtype(dtype)?
@@ -494,7 +486,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -525,7 +516,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
diff --git a/crates/hodu_core/src/tensor/creation_static.rs b/crates/hodu_core/src/tensor/creation_static.rs
index d88f9b8..cfdd223 100644
--- a/crates/hodu_core/src/tensor/creation_static.rs
+++ b/crates/hodu_core/src/tensor/creation_static.rs
@@ -1,9 +1,8 @@
 use crate::{
     error::{HoduError, HoduResult},
-    tensor::{insert, Tensor, TensorId, Tensor_},
+    tensor::{create_builder_tensor, Tensor},
     types::{DType, Layout, Shape},
 };
-use std::sync::atomic::AtomicUsize;
 
 impl Tensor {
     pub fn input(name: &'static str, shape: impl Into<Shape>, dtype: DType) -> HoduResult<Self> {
@@ -13,21 +12,7 @@ impl Tensor {
         }
 
         let layout = Layout::from_shape(&shape);
-        let tensor_ = Tensor_ {
-            storage: None,
-            layout,
-            dtype: Some(dtype),
-            requires_grad: false,
-            grad_tensor_id: None,
-            is_runtime: false,
-            is_gradient: false,
-            owner_context: None, // Builder input tensors are user-created
-            ref_count: AtomicUsize::new(1),
-        };
-        let tensor_id = TensorId::new();
-        insert(tensor_id, tensor_);
-
-        let tensor = Tensor(tensor_id);
+        let (_, tensor) = create_builder_tensor(layout, dtype, false);
 
         crate::snapshot::capture::add_input_to_active(name, tensor.clone())?;
 
diff --git a/crates/hodu_core/src/tensor/gradient.rs b/crates/hodu_core/src/tensor/gradient.rs
index 33f244d..20f7a68 100644
--- a/crates/hodu_core/src/tensor/gradient.rs
+++ b/crates/hodu_core/src/tensor/gradient.rs
@@ -39,10 +39,6 @@ pub use compute::{compute_gradients, record_operation};
 pub use context::GradientContext;
 pub use core::{is_computing_gradients, is_in_optimizer_step, set_optimizer_step_flag, ContextId};
 
-pub(crate) use core::get_active_context;
+pub(crate) use compute::defer_release;
+pub(crate) use tape::take_entry;
 pub(crate) use vjp::VjpCompute;
-
-pub(crate) fn cleanup_tape_for_dropped_tensor(tensor_id: crate::tensor::TensorId) {
-    let context_id = get_active_context();
-    tape::remove_entries_with_input(context_id, tensor_id);
-}
diff --git a/crates/hodu_core/src/tensor/gradient/compute.rs b/crates/hodu_core/src/tensor/gradient/compute.rs
index 78c7e1a..0a22946 100644
--- a/crates/hodu_core/src/tensor/gradient/compute.rs
+++ b/crates/hodu_core/src/tensor/gradient/compute.rs
@@ -1,6 +1,6 @@
 use super::{
-    core::{get_active_context, is_computing_gradients, is_in_optimizer_step, set_computing_gradients, ContextId},
-    tape::{get_tape_clone, push_entry, TapeEntry},
+    core::{get_active_context, is_computing_gradients, is_in_optimizer_step, set_computing_gradients},
+    tape::{clear_tape, history_of, push_entry, TapeEntry},
     vjp::VjpCompute,
 };
 use crate::{
@@ -8,6 +8,7 @@ use crate::{
     ops::{MemoryOp, Op, OpParams},
     tensor::{self, set_grad_tensor_id, tensor_from_id, Tensor, TensorId},
 };
+use std::cell::RefCell;
 use std::collections::HashMap;
 
 pub fn record_operation(input_ids: Vec<TensorId>, output_id: TensorId, op: Op, op_params: OpParams) -> HoduResult<()> {
@@ -37,7 +38,22 @@ pub fn record_operation(input_ids: Vec<TensorId>, output_id: TensorId, op: Op, o
         input_ids,
     };
 
-    push_entry(context_id, entry)
+    push_entry(context_id, entry);
+    Ok(())
+}
+
+thread_local! {
+    /// References given up during a backward pass of this thread
+    static DEFERRED_RELEASES: RefCell<Vec<TensorId>> = const { RefCell::new(vec![]) };
+}
+
+/// During a backward pass, put off giving up a reference until it is over
+pub(crate) fn defer_release(tensor_id: TensorId) -> bool {
+    if !is_computing_gradients() {
+        return false;
+    }
+    DEFERRED_RELEASES.with(|releases| releases.borrow_mut().push(tensor_id));
+    true
 }
 
 struct GradientComputationGuard {
@@ -59,6 +75,9 @@ impl GradientComputationGuard {
 impl Drop for GradientComputationGuard {
     fn drop(&mut self) {
         set_computing_gradients(false);
+        for tensor_id in DEFERRED_RELEASES.take() {
+            tensor::release(tensor_id);
+        }
     }
 }
 
@@ -72,10 +91,12 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
     set_grad_tensor_id(loss_tensor_id, loss_grad_id)?;
 
     let context_id = get_active_context();
-    let tape = get_tape_clone(context_id)?;
+    let history = history_of(loss_tensor_id);
 
-    let tape_len = tape.len();
-    let mut guard = GradientComputationGuard::new_with_capacity(tape_len * 3);
+    let mut guard = GradientComputationGuard::new_with_capacity(history.len() * 3);
+    for id in history.iter().flat_map(TapeEntry::held_ids) {
+        guard.keep(tensor_from_id(id));
+    }
     let mut gradients: HashMap<TensorId, TensorId> = HashMap::new();
 
     gradients.insert(loss_tensor_id, loss_grad_id);
@@ -83,7 +104,7 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
     guard.keep(loss_grad);
 
     let result = (|| -> HoduResult<()> {
-        for entry in tape.iter().rev() {
+        for entry in &history {
             if let Some(&grad_output) = gradients.get(&entry.output_id) {
                 for &input_id in &entry.input_ids {
                     if tensor::get(input_id).is_none() {
@@ -142,13 +163,7 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
     drop(guard);
 
     if result.is_ok() {
-        use super::tape;
-
-        if context_id == ContextId::DEFAULT {
-            tape::cleanup_default_context_after_backward();
-        }
-
-        tape::clear_tape_for_context(context_id);
+        clear_tape(context_id);
     }
 
     result
diff --git a/crates/hodu_core/src/tensor/gradient/context.rs b/crates/hodu_core/src/tensor/gradient/context.rs
index e45d922..6ee003c 100644
--- a/crates/hodu_core/src/tensor/gradient/context.rs
+++ b/crates/hodu_core/src/tensor/gradient/context.rs
@@ -10,8 +10,6 @@ impl GradientContext {
 
         push_context(context_id);
 
-        super::tape::initialize_tape(context_id);
-
         Self { context_id }
     }
 
@@ -28,12 +26,8 @@ impl Default for GradientContext {
 
 impl Drop for GradientContext {
     fn drop(&mut self) {
-        if self.context_id == ContextId::DEFAULT {
-            return;
-        }
-
-        pop_context();
+        pop_context(self.context_id);
 
-        super::tape::remove_tape(self.context_id);
+        super::tape::clear_tape(self.context_id);
     }
 }
diff --git a/crates/hodu_core/src/tensor/gradient/core.rs b/crates/hodu_core/src/tensor/gradient/core.rs
index 8feb54b..ad21d62 100644
--- a/crates/hodu_core/src/tensor/gradient/core.rs
+++ b/crates/hodu_core/src/tensor/gradient/core.rs
@@ -1,13 +1,11 @@
-use std::cell::RefCell;
-use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
+use std::cell::{Cell, RefCell};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 #[repr(transparent)]
 #[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
 pub struct ContextId(usize);
 
 impl ContextId {
-    pub const DEFAULT: ContextId = ContextId(0);
-
     pub(super) fn new() -> Self {
         static COUNTER: AtomicUsize = AtomicUsize::new(1);
         Self(COUNTER.fetch_add(1, Ordering::Relaxed))
@@ -16,10 +14,15 @@ impl ContextId {
 
 thread_local! {
     static CONTEXT_STACK: RefCell<Vec<ContextId>> = const { RefCell::new(vec![]) };
+    /// The context of operations outside every `GradientContext` of this thread
+    static DEFAULT_CONTEXT: ContextId = ContextId::new();
+    static IS_COMPUTING_GRADIENTS: Cell<bool> = const { Cell::new(false) };
+    static IS_IN_OPTIMIZER_STEP: Cell<bool> = const { Cell::new(false) };
 }
 
 pub(crate) fn get_active_context() -> ContextId {
-    CONTEXT_STACK.with(|stack| stack.borrow().last().copied().unwrap_or(ContextId::DEFAULT))
+    let innermost = CONTEXT_STACK.with(|stack| stack.borrow().last().copied());
+    innermost.unwrap_or_else(|| DEFAULT_CONTEXT.with(|id| *id))
 }
 
 pub(super) fn push_context(context_id: ContextId) {
@@ -28,27 +31,25 @@ pub(super) fn push_context(context_id: ContextId) {
     });
 }
 
-pub(super) fn pop_context() {
+pub(super) fn pop_context(context_id: ContextId) {
+    // Contexts need not be dropped innermost first
     CONTEXT_STACK.with(|stack| {
-        stack.borrow_mut().pop();
+        stack.borrow_mut().retain(|&id| id != context_id);
     });
 }
 
-static IS_COMPUTING_GRADIENTS: AtomicBool = AtomicBool::new(false);
-static IS_IN_OPTIMIZER_STEP: AtomicBool = AtomicBool::new(false);
-
 pub fn is_computing_gradients() -> bool {
-    IS_COMPUTING_GRADIENTS.load(Ordering::Relaxed)
+    IS_COMPUTING_GRADIENTS.get()
 }
 
 pub fn is_in_optimizer_step() -> bool {
-    IS_IN_OPTIMIZER_STEP.load(Ordering::Relaxed)
+    IS_IN_OPTIMIZER_STEP.get()
 }
 
 pub fn set_optimizer_step_flag(value: bool) {
-    IS_IN_OPTIMIZER_STEP.store(value, Ordering::Relaxed);
+    IS_IN_OPTIMIZER_STEP.set(value);
 }
 
 pub(super) fn set_computing_gradients(value: bool) {
-    IS_COMPUTING_GRADIENTS.store(value, Ordering::Relaxed);
+    IS_COMPUTING_GRADIENTS.set(value);
 }
diff --git a/crates/hodu_core/src/tensor/gradient/tape.rs b/crates/hodu_core/src/tensor/gradient/tape.rs
index 895b28f..54feeeb 100644
--- a/crates/hodu_core/src/tensor/gradient/tape.rs
+++ b/crates/hodu_core/src/tensor/gradient/tape.rs
@@ -1,14 +1,15 @@
 use super::core::ContextId;
-use crate::error::HoduError;
 use crate::{
-    error::HoduResult,
     ops::{Op, OpParams},
-    tensor::TensorId,
+    tensor::{self, TensorId},
 };
-use std::collections::HashMap;
-use std::sync::{LazyLock, Mutex};
+use std::collections::{BTreeMap, BinaryHeap, HashMap, HashSet};
+use std::sync::{LazyLock, Mutex, MutexGuard};
 
 /// A single entry in the gradient tape
+///
+/// An entry holds a reference to each of its inputs, and lives until its output is released, its
+/// gradient context ends, or a backward pass through its tape consumes it.
 #[derive(Clone)]
 pub(super) struct TapeEntry {
     pub output_id: TensorId,
@@ -17,118 +18,81 @@ pub(super) struct TapeEntry {
     pub input_ids: Vec<TensorId>,
 }
 
-/// Global gradient tape storage (one tape per context)
-static GRADIENT_TAPES: LazyLock<Mutex<HashMap<ContextId, Vec<TapeEntry>>>> = LazyLock::new(|| {
-    let mut map = HashMap::new();
-    map.insert(ContextId::DEFAULT, Vec::new()); // Default context
-    Mutex::new(map)
-});
-
-/// Initialize a new tape for a context
-pub(super) fn initialize_tape(context_id: ContextId) {
-    GRADIENT_TAPES.lock().unwrap().insert(context_id, Vec::new());
-}
-
-/// Remove a tape for a context and clean up context-owned tensors
-pub(super) fn remove_tape(context_id: ContextId) {
-    if let Some(tape) = GRADIENT_TAPES.lock().unwrap().remove(&context_id) {
-        cleanup_context_tensors(context_id, &tape);
+impl TapeEntry {
+    /// The tensors back-propagation through this entry reads, apart from its output
+    pub(super) fn held_ids(&self) -> Vec<TensorId> {
+        let mut ids = self.input_ids.clone();
+        if let OpParams::TopK(params) = &self.op_params {
+            ids.push(params.indices_id);
+        }
+        ids
     }
 }
 
-/// Clean up tensors owned by a specific context
-fn cleanup_context_tensors(context_id: ContextId, _tape: &[TapeEntry]) {
-    use crate::tensor;
-    use std::sync::atomic::Ordering;
+/// The entries of one context by output; outputs are created after their inputs, so that ascending
+/// ids are a topological order
+type Tape = BTreeMap<TensorId, TapeEntry>;
 
-    // Collect ALL tensor IDs owned by this context with ref_count=0
-    // (not just from tape, because some intermediate tensors may not be on the tape)
-    let tensor_ids_to_check = tensor::get_all_tensor_ids();
+/// Global gradient tape storage (one tape per context)
+static GRADIENT_TAPES: LazyLock<Mutex<HashMap<ContextId, Tape>>> = LazyLock::new(|| Mutex::new(HashMap::new()));
 
-    // Remove tensors that belong to this context AND have ref_count=0
-    for tensor_id in tensor_ids_to_check {
-        if let Some((should_remove, grad_id)) = tensor::with_tensor(tensor_id, |t| {
-            // Remove if:
-            // 1. (Owned by this context OR owner_context==None) AND ref_count==0
-            // 2. NOT a gradient tensor (gradient tensors should be preserved)
-            let ref_count = t.ref_count.load(Ordering::Relaxed);
-            let owner_ctx = t.owner_context();
-            let should_remove = (owner_ctx == Some(context_id) || owner_ctx.is_none())
-                && ref_count == 0
-                && t.is_runtime
-                && !t.is_gradient;
-            (should_remove, t.grad_tensor_id)
-        }) {
-            if should_remove {
-                // If this tensor has a gradient, decrement its ref_count and remove if necessary
-                if let Some(grad_id) = grad_id {
-                    if let Some((should_remove_grad, should_cleanup_tape)) = tensor::with_tensor(grad_id, |g| {
-                        let prev_count = g.ref_count.load(Ordering::Relaxed);
-                        if prev_count > 0 {
-                            g.ref_count.fetch_sub(1, Ordering::Relaxed);
-                        }
-                        let remove = (prev_count == 1 || prev_count == 0)
-                            && g.is_runtime
-                            && g.owner_context.is_none()
-                            && !g.is_gradient;
-                        let cleanup =
-                            (prev_count == 1 || prev_count == 0) && g.requires_grad && g.owner_context.is_none();
-                        (remove, cleanup)
-                    }) {
-                        if should_cleanup_tape {
-                            remove_entries_with_input(context_id, grad_id);
-                        }
-                        if should_remove_grad {
-                            tensor::remove(grad_id);
-                        }
-                    }
-                }
+fn lock() -> MutexGuard<'static, HashMap<ContextId, Tape>> {
+    // No operation under the lock can leave a tape half updated
+    GRADIENT_TAPES.lock().unwrap_or_else(|poisoned| poisoned.into_inner())
+}
 
-                tensor::remove(tensor_id);
-            }
+/// Drop a context's entries and release the tensors they hold
+pub(super) fn clear_tape(context_id: ContextId) {
+    let tape = lock().remove(&context_id);
+    for entry in tape.into_iter().flat_map(|tape| tape.into_values()) {
+        for id in entry.held_ids() {
+            tensor::release(id);
         }
     }
 }
 
-/// Clean up tensors owned by the default context after backward
-/// Only removes tensors with ref_count=0
-pub(super) fn cleanup_default_context_after_backward() {
-    let context_id = ContextId::DEFAULT;
-    let tape = get_tape_clone(context_id).unwrap_or_default();
-    cleanup_context_tensors(context_id, &tape);
-}
-
 /// Add an entry to the tape for a given context
-pub(super) fn push_entry(context_id: ContextId, entry: TapeEntry) -> HoduResult<()> {
-    let mut tapes = GRADIENT_TAPES.lock().map_err(|_| HoduError::GradientTapeCorrupted)?;
-    if let Some(tape) = tapes.get_mut(&context_id) {
-        tape.push(entry);
+pub(super) fn push_entry(context_id: ContextId, entry: TapeEntry) {
+    for id in entry.held_ids() {
+        tensor::retain(id);
     }
-    Ok(())
+    let output_id = entry.output_id;
+    lock().entry(context_id).or_default().insert(output_id, entry);
+    tensor::with_tensor_mut(output_id, |t| t.recorded_in = Some(context_id));
 }
 
-/// Get a cloned copy of the tape for a given context
-pub(super) fn get_tape_clone(context_id: ContextId) -> HoduResult<Vec<TapeEntry>> {
-    let tapes = GRADIENT_TAPES.lock().map_err(|_| HoduError::GradientTapeCorrupted)?;
-    Ok(tapes.get(&context_id).cloned().unwrap_or_default())
-}
-
-/// Clear the tape for a given context (but don't remove tensors)
-pub(super) fn clear_tape_for_context(context_id: ContextId) {
-    if let Ok(mut tapes) = GRADIENT_TAPES.lock() {
-        if let Some(tape) = tapes.get_mut(&context_id) {
-            tape.clear();
-        }
+/// Remove the entry that produced a released tensor; returns the references it held
+pub(crate) fn take_entry(context_id: ContextId, output_id: TensorId) -> Vec<TensorId> {
+    let mut tapes = lock();
+    let Some(tape) = tapes.get_mut(&context_id) else {
+        return Vec::new();
+    };
+    let entry = tape.remove(&output_id);
+    if tape.is_empty() {
+        tapes.remove(&context_id);
     }
+    entry.map(|entry| entry.held_ids()).unwrap_or_default()
 }
 
-/// Remove tape entries that have the given tensor as input
-/// This is called when a tensor with requires_grad=true is dropped
-pub(super) fn remove_entries_with_input(context_id: ContextId, tensor_id: TensorId) {
-    if let Ok(mut tapes) = GRADIENT_TAPES.lock() {
-        if let Some(tape) = tapes.get_mut(&context_id) {
-            // Remove entries where tensor_id is an input
-            tape.retain(|entry| !entry.input_ids.contains(&tensor_id));
+/// The entries the given tensor was computed by, whatever their context, in reverse order of execution
+pub(super) fn history_of(tensor_id: TensorId) -> Vec<TapeEntry> {
+    let mut history = Vec::new();
+    let mut seen = HashSet::from([tensor_id]);
+    let mut pending = BinaryHeap::from([tensor_id]);
+    let tapes = lock();
+    while let Some(id) = pending.pop() {
+        let Some(Some(context_id)) = tensor::with_tensor(id, |t| t.recorded_in) else {
+            continue;
+        };
+        let Some(entry) = tapes.get(&context_id).and_then(|tape| tape.get(&id)) else {
+            continue;
+        };
+        for &input_id in &entry.input_ids {
+            if seen.insert(input_id) {
+                pending.push(input_id);
+            }
         }
+        history.push(entry.clone());
     }
+    history
 }
diff --git a/crates/hodu_core/src/tensor/internal.rs b/crates/hodu_core/src/tensor/internal.rs
index fc595f9..392c637 100644
--- a/crates/hodu_core/src/tensor/internal.rs
+++ b/crates/hodu_core/src/tensor/internal.rs
@@ -7,134 +7,104 @@ use crate::{
     error::{HoduError, HoduResult},
     types::{DType, Layout},
 };
-use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::atomic::AtomicUsize;
 use std::sync::Arc;
 
-pub(crate) fn from_storage(
-    storage: BackendStorage,
-    layout: Layout,
-    is_runtime: bool,
-    requires_grad: bool,
-    owner_context: Option<gradient::ContextId>,
-) -> Tensor {
-    let tensor_ = Tensor_ {
+pub(crate) fn from_storage(storage: BackendStorage, layout: Layout, is_runtime: bool, requires_grad: bool) -> Tensor {
+    register(Tensor_ {
         storage: Some(Arc::new(storage)),
         layout,
         dtype: None, // Runtime tensors get dtype from storage
         requires_grad,
         grad_tensor_id: None,
         is_runtime,
-        is_gradient: false,
-        owner_context,
+        recorded_in: None,
         ref_count: AtomicUsize::new(1),
-    };
-    let tensor_id = TensorId::new();
-    registry::insert(tensor_id, tensor_);
-    Tensor::from_id(tensor_id)
+    })
 }
 
+/// The result of an operation; what a backward pass computes is not differentiated itself
 pub(crate) fn from_storage_with_context(
     storage: BackendStorage,
     layout: Layout,
     is_runtime: bool,
     requires_grad: bool,
 ) -> Tensor {
-    let owner_context = if gradient::is_computing_gradients() || gradient::is_in_optimizer_step() {
-        None
-    } else {
-        Some(gradient::get_active_context())
-    };
-    from_storage(storage, layout, is_runtime, requires_grad, owner_context)
+    let requires_grad = requires_grad && !gradient::is_computing_gradients();
+    from_storage(storage, layout, is_runtime, requires_grad)
 }
 
 pub(crate) fn from_shared_storage_with(source_tensor: &Tensor, layout: Layout, requires_grad: bool) -> Tensor {
     let storage_arc = registry::with_tensor(source_tensor.id(), |tensor_ref| tensor_ref.storage.clone())
         .expect("Source tensor not found");
+    let requires_grad = requires_grad && !gradient::is_computing_gradients();
 
-    let owner_context = if gradient::is_computing_gradients() || gradient::is_in_optimizer_step() {
-        None
-    } else {
-        Some(gradient::get_active_context())
-    };
-
-    let tensor_ = Tensor_ {
+    register(Tensor_ {
         storage: storage_arc,
         layout,
         dtype: None, // Runtime tensors get dtype from storage
         requires_grad,
         grad_tensor_id: None,
         is_runtime: true,
-        is_gradient: false,
-        owner_context,
+        recorded_in: None,
         ref_count: AtomicUsize::new(1),
-    };
-
-    let tensor_id = TensorId::new();
-    registry::insert(tensor_id, tensor_);
-    Tensor::from_id(tensor_id)
+    })
 }
 
 pub(crate) fn create_builder_tensor(layout: Layout, dtype: DType, requires_grad: bool) -> (TensorId, Tensor) {
-    let tensor_ = Tensor_ {
+    let tensor = register(Tensor_ {
         storage: None,
         layout,
         dtype: Some(dtype),
         requires_grad,
         grad_tensor_id: None,
         is_runtime: false,
-        is_gradient: false,
-        owner_context: None,
+        recorded_in: None,
         ref_count: AtomicUsize::new(1),
-    };
+    });
+    (tensor.id(), tensor)
+}
+
+fn register(tensor_: Tensor_) -> Tensor {
     let tensor_id = TensorId::new();
     registry::insert(tensor_id, tensor_);
-    let tensor = Tensor::from_id(tensor_id);
-    (tensor_id, tensor)
+    Tensor::from_id(tensor_id)
 }
 
 pub(crate) fn tensor_from_id(tensor_id: TensorId) -> Tensor {
-    registry::with_tensor(tensor_id, |t| {
-        t.ref_count.fetch_add(1, Ordering::Relaxed);
-    });
+    registry::retain(tensor_id);
     Tensor::from_id(tensor_id)
 }
 
-pub(crate) fn set_grad_tensor_id(tensor_id: TensorId, grad_tensor_id: TensorId) -> HoduResult<()> {
-    if let Some(()) = registry::with_tensor_mut(grad_tensor_id, |t| {
-        t.ref_count.fetch_add(1, Ordering::Relaxed);
-    }) {
-        // Successfully incremented ref_count
-    } else {
-        return Err(HoduError::TensorNotFound(grad_tensor_id));
-    }
-
-    let old_grad_id = registry::with_tensor(tensor_id, |tensor_ref| tensor_ref.grad_tensor_id);
-
-    if let Some(Some(old_grad_id)) = old_grad_id {
-        let (should_remove, should_cleanup_tape) = registry::with_tensor(old_grad_id, |t| {
-            let prev_count = t.ref_count.fetch_sub(1, Ordering::Relaxed);
-            let remove = prev_count == 1 && t.is_runtime && t.owner_context.is_none();
-            let cleanup = prev_count == 1 && t.requires_grad && t.owner_context.is_none();
-            (remove, cleanup)
-        })
-        .unwrap_or((false, false));
-
-        if should_cleanup_tape {
-            gradient::cleanup_tape_for_dropped_tensor(old_grad_id);
+/// A new reference to the gradient of a tensor
+pub(crate) fn retain_grad(tensor_id: TensorId) -> HoduResult<TensorId> {
+    loop {
+        let grad_id = registry::with_tensor(tensor_id, |t| t.grad_tensor_id)
+            .ok_or(HoduError::TensorNotFound(tensor_id))?
+            .ok_or(HoduError::GradientNotComputed(tensor_id))?;
+        // The gradient may have been replaced meanwhile, by another thread
+        if registry::retain(grad_id) {
+            return Ok(grad_id);
         }
+    }
+}
 
-        if should_remove {
-            registry::remove(old_grad_id);
-        }
+pub(crate) fn set_grad_tensor_id(tensor_id: TensorId, grad_tensor_id: TensorId) -> HoduResult<()> {
+    if !registry::retain(grad_tensor_id) {
+        return Err(HoduError::TensorNotFound(grad_tensor_id));
     }
 
-    if let Some(result) = registry::with_tensor_mut(tensor_id, |tensor_ref| {
-        tensor_ref.grad_tensor_id = Some(grad_tensor_id);
-        Ok(())
-    }) {
-        result
-    } else {
-        Err(HoduError::TensorNotFound(tensor_id))
+    match registry::with_tensor_mut(tensor_id, |t| t.grad_tensor_id.replace(grad_tensor_id)) {
+        Some(old_grad_id) => {
+            if let Some(old_grad_id) = old_grad_id {
+                registry::release(old_grad_id);
+            }
+            Ok(())
+        },
+        None => {
+            registry::release(grad_tensor_id);
+            Err(HoduError::TensorNotFound(tensor_id))
+        },
     }
 }
 
diff --git a/crates/hodu_core/src/tensor/ops/concat_split.rs b/crates/hodu_core/src/tensor/ops/concat_split.rs
index 6a93537..902c0da 100644
--- a/crates/hodu_core/src/tensor/ops/concat_split.rs
+++ b/crates/hodu_core/src/tensor/ops/concat_split.rs
@@ -5,8 +5,8 @@ use crate::{
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{Layout, Shape},
     utils::valid::{
-        validate_axis, validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
-        validate_same_dtype,
+        validate_axis, validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op,
+        validate_same_device, validate_same_dtype,
     },
 };
 
@@ -40,9 +40,7 @@ impl Tensor {
         let mut output_dims = layouts[0].shape().dims().to_vec();
         for layout in &layouts[1..] {
             let dims = layout.shape().dims();
-            if dims.len() != output_dims.len()
-                || (0..ndim).any(|d| d != dim_usize && dims[d] != output_dims[d])
-            {
+            if dims.len() != output_dims.len() || (0..ndim).any(|d| d != dim_usize && dims[d] != output_dims[d]) {
                 return Err(HoduError::incompatible_shapes(
                     Shape::from(&output_dims),
                     layout.shape().clone(),
@@ -250,7 +248,9 @@ impl Tensor {
         let dim_size = shape_dims[dim_usize];
 
         if chunks == 0 {
-            return Err(HoduError::InvalidArgument("chunk requires at least one chunk".to_string()));
+            return Err(HoduError::InvalidArgument(
+                "chunk requires at least one chunk".to_string(),
+            ));
         }
 
         let chunk_size = dim_size.div_ceil(chunks);
diff --git a/crates/hodu_core/src/tensor/ops/conv.rs b/crates/hodu_core/src/tensor/ops/conv.rs
index ce21773..bb804bb 100644
--- a/crates/hodu_core/src/tensor/ops/conv.rs
+++ b/crates/hodu_core/src/tensor/ops/conv.rs
@@ -14,13 +14,7 @@ use crate::{
 };
 
 /// Output extent of a convolution along one dimension; an error when the configuration admits no output.
-fn conv_output_size(
-    input: usize,
-    kernel: usize,
-    stride: usize,
-    padding: usize,
-    dilation: usize,
-) -> HoduResult<usize> {
+fn conv_output_size(input: usize, kernel: usize, stride: usize, padding: usize, dilation: usize) -> HoduResult<usize> {
     let span = kernel_span(kernel, stride, dilation)?;
     let padded = padding.checked_mul(2).and_then(|p| p.checked_add(input));
     match padded.and_then(|p| p.checked_sub(span)) {
@@ -85,9 +79,7 @@ fn validate_grad_weight(
     let grad_output_shape = grad_output.shape();
     let (input_dims, grad_dims) = (input_shape.dims(), grad_output_shape.dims());
     let (in_axis, out_axis) = if transposed { (0, 1) } else { (1, 0) };
-    if input_dims[0] != grad_dims[0]
-        || weight_shape[in_axis] != input_dims[1]
-        || weight_shape[out_axis] != grad_dims[1]
+    if input_dims[0] != grad_dims[0] || weight_shape[in_axis] != input_dims[1] || weight_shape[out_axis] != grad_dims[1]
     {
         return Err(HoduError::incompatible_shapes(
             input_shape,
@@ -813,7 +805,14 @@ impl Tensor {
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
-        let padding_arr = [padding, padding, padding, output_padding, output_padding, output_padding];
+        let padding_arr = [
+            padding,
+            padding,
+            padding,
+            output_padding,
+            output_padding,
+            output_padding,
+        ];
         let dilation_arr = [dilation; 3];
 
         // Calculate layouts before if-else block
@@ -928,7 +927,15 @@ impl Tensor {
             ));
         }
 
-        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, false, ConvOp::Conv1dGradWeight)?;
+        validate_grad_weight(
+            self,
+            grad_output,
+            weight_shape,
+            stride,
+            dilation,
+            false,
+            ConvOp::Conv1dGradWeight,
+        )?;
 
         let stride_arr = [stride];
         let padding_arr = [padding];
@@ -1016,7 +1023,15 @@ impl Tensor {
             ));
         }
 
-        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, false, ConvOp::Conv2dGradWeight)?;
+        validate_grad_weight(
+            self,
+            grad_output,
+            weight_shape,
+            stride,
+            dilation,
+            false,
+            ConvOp::Conv2dGradWeight,
+        )?;
 
         let stride_arr = [stride; 2];
         let padding_arr = [padding; 2];
@@ -1105,7 +1120,15 @@ impl Tensor {
             ));
         }
 
-        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, false, ConvOp::Conv3dGradWeight)?;
+        validate_grad_weight(
+            self,
+            grad_output,
+            weight_shape,
+            stride,
+            dilation,
+            false,
+            ConvOp::Conv3dGradWeight,
+        )?;
 
         let stride_arr = [stride; 3];
         let padding_arr = [padding; 3];
@@ -1195,7 +1218,15 @@ impl Tensor {
             ));
         }
 
-        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, true, ConvOp::ConvTranspose1dGradWeight)?;
+        validate_grad_weight(
+            self,
+            grad_output,
+            weight_shape,
+            stride,
+            dilation,
+            true,
+            ConvOp::ConvTranspose1dGradWeight,
+        )?;
 
         let stride_arr = [stride];
         let padding_arr = [padding];
@@ -1283,7 +1314,15 @@ impl Tensor {
             ));
         }
 
-        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, true, ConvOp::ConvTranspose2dGradWeight)?;
+        validate_grad_weight(
+            self,
+            grad_output,
+            weight_shape,
+            stride,
+            dilation,
+            true,
+            ConvOp::ConvTranspose2dGradWeight,
+        )?;
 
         let stride_arr = [stride; 2];
         let padding_arr = [padding; 2];
@@ -1372,7 +1411,15 @@ impl Tensor {
             ));
         }
 
-        validate_grad_weight(self, grad_output, weight_shape, stride, dilation, true, ConvOp::ConvTranspose3dGradWeight)?;
+        validate_grad_weight(
+            self,
+            grad_output,
+            weight_shape,
+            stride,
+            dilation,
+            true,
+            ConvOp::ConvTranspose3dGradWeight,
+        )?;
 
         let stride_arr = [stride; 3];
         let padding_arr = [padding; 3];
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 61cd692..9073e97 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -8,8 +8,8 @@ use crate::{
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Dim, DynamicDimId, Layout, Shape, SymbolicLayout, SymbolicShape},
     utils::valid::{
-        validate_axis, validate_dtype_for_device, validate_dtype_for_op, validate_indices_dtype, validate_requires_grad_for_op,
-        validate_same_device, validate_same_dtype,
+        validate_axis, validate_dtype_for_device, validate_dtype_for_op, validate_indices_dtype,
+        validate_requires_grad_for_op, validate_same_device, validate_same_dtype,
     },
 };
 
diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index 5c5682d..c70c6c6 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -158,7 +158,9 @@ impl Tensor {
             for &d in &dims_i32 {
                 let dim = validate_axis(d, ndim)?;
                 if reduce_dims.contains(&dim) {
-                    return Err(HoduError::InvalidArgument(format!("dimension {d} is reduced more than once")));
+                    return Err(HoduError::InvalidArgument(format!(
+                        "dimension {d} is reduced more than once"
+                    )));
                 }
                 reduce_dims.push(dim);
             }
diff --git a/crates/hodu_core/src/tensor/registry.rs b/crates/hodu_core/src/tensor/registry.rs
index 4d5e5e8..843042f 100644
--- a/crates/hodu_core/src/tensor/registry.rs
+++ b/crates/hodu_core/src/tensor/registry.rs
@@ -1,4 +1,5 @@
 use super::core::{TensorId, Tensor_};
+use super::gradient;
 use dashmap::DashMap;
 use std::sync::atomic::Ordering;
 use std::sync::LazyLock;
@@ -17,13 +18,45 @@ pub fn exists(tensor_id: TensorId) -> bool {
     TENSORS.contains_key(&tensor_id)
 }
 
-pub(crate) fn remove(tensor_id: TensorId) {
-    if let Some(Some(grad_id)) = with_tensor(tensor_id, |t| t.grad_tensor_id) {
-        with_tensor(grad_id, |t| {
-            t.ref_count.fetch_sub(1, Ordering::Relaxed);
+/// Count a new reference to a tensor; false if it is not registered, or being removed
+#[allow(deprecated)]
+pub(crate) fn retain(tensor_id: TensorId) -> bool {
+    let up = |count: usize| (count > 0).then(|| count + 1);
+    with_tensor(tensor_id, |t| {
+        t.ref_count
+            .fetch_update(Ordering::Relaxed, Ordering::Relaxed, up)
+            .is_ok()
+    })
+    .unwrap_or(false)
+}
+
+/// Give up a reference to a tensor (a handle, a gradient link, an input of a tape entry)
+///
+/// The last one removes the tensor, and with it the references it held itself.
+#[allow(deprecated)]
+pub(crate) fn release(tensor_id: TensorId) {
+    // VJPs hand on gradients by id: nothing may disappear until the backward pass is over
+    if gradient::defer_release(tensor_id) {
+        return;
+    }
+
+    let mut pending = vec![tensor_id];
+    while let Some(id) = pending.pop() {
+        // Acquire and release, so that whoever removes the tensor sees every use of it completed
+        let down = |count: usize| count.checked_sub(1);
+        let previous = with_tensor(id, |t| {
+            t.ref_count.fetch_update(Ordering::AcqRel, Ordering::Relaxed, down)
         });
+        if previous != Some(Ok(1)) {
+            continue;
+        }
+        if let Some((_, tensor_)) = TENSORS.remove(&id) {
+            pending.extend(tensor_.grad_tensor_id);
+            if let Some(context_id) = tensor_.recorded_in {
+                pending.extend(gradient::take_entry(context_id, id));
+            }
+        }
     }
-    TENSORS.remove(&tensor_id);
 }
 
 pub fn get(tensor_id: TensorId) -> Option<dashmap::mapref::one::Ref<'static, TensorId, Tensor_>> {
@@ -38,10 +71,6 @@ pub fn tensor_count() -> usize {
     TENSORS.len()
 }
 
-pub(crate) fn get_all_tensor_ids() -> Vec<TensorId> {
-    TENSORS.iter().map(|entry| *entry.key()).collect()
-}
-
 pub fn with_tensor<F, R>(tensor_id: TensorId, f: F) -> Option<R>
 where
     F: FnOnce(&Tensor_) -> R,
diff --git a/crates/hodu_core/src/types/layout.rs b/crates/hodu_core/src/types/layout.rs
index 280d712..495f701 100644
--- a/crates/hodu_core/src/types/layout.rs
+++ b/crates/hodu_core/src/types/layout.rs
@@ -443,12 +443,20 @@ impl Layout {
         if step > 0 {
             let start = start.clamp(0, size);
             let end = end.map_or(size, from_end).clamp(0, size);
-            let count = if end > start { (end - start + step - 1) / step } else { 0 };
+            let count = if end > start {
+                (end - start + step - 1) / step
+            } else {
+                0
+            };
             (start as usize, count as usize)
         } else {
             let start = start.min(size - 1);
             let end = end.map_or(-1, from_end).max(-1);
-            let count = if start > end { (start - end - step - 1) / -step } else { 0 };
+            let count = if start > end {
+                (start - end - step - 1) / -step
+            } else {
+                0
+            };
             (start.max(0) as usize, count as usize)
         }
     }
@@ -472,8 +480,7 @@ impl Layout {
             ));
         }
 
-        let (clamped_start, new_size) =
-            Self::slice_extent(self.shape.dims()[actual_dim], start, end, step);
+        let (clamped_start, new_size) = Self::slice_extent(self.shape.dims()[actual_dim], start, end, step);
 
         if new_size == 0 {
             return Err(HoduError::InternalError("slice results in empty tensor".to_string()));
diff --git a/crates/hodu_core/src/utils/valid.rs b/crates/hodu_core/src/utils/valid.rs
index 28d67cc..77e623e 100644
--- a/crates/hodu_core/src/utils/valid.rs
+++ b/crates/hodu_core/src/utils/valid.rs
@@ -7,7 +7,11 @@ use crate::{
 
 /// Resolves a possibly negative axis, rejecting axes outside `-ndim..ndim`.
 pub fn validate_axis(axis: i32, ndim: usize) -> HoduResult<usize> {
-    let resolved = if axis < 0 { axis as i64 + ndim as i64 } else { axis as i64 };
+    let resolved = if axis < 0 {
+        axis as i64 + ndim as i64
+    } else {
+        axis as i64
+    };
     if resolved < 0 || resolved >= ndim as i64 {
         return Err(HoduError::InvalidAxis { axis, ndim });
     }
diff --git a/crates/hodu_nn/macros/src/derive.rs b/crates/hodu_nn/macros/src/derive.rs
index 4901323..ea4319d 100644
--- a/crates/hodu_nn/macros/src/derive.rs
+++ b/crates/hodu_nn/macros/src/derive.rs
@@ -92,12 +92,10 @@ pub fn derive_optimizer_impl(input: TokenStream) -> TokenStream {
                 #hodu_core_path::tensor::set_optimizer_step_flag(true);
 
                 // Zero out gradients for each parameter
-                for param in parameters.iter() {
-                    param.zero_grad()?;
-                }
+                let result = parameters.iter().try_for_each(|param| param.zero_grad());
 
                 #hodu_core_path::tensor::set_optimizer_step_flag(false);
-                Ok(())
+                result
             }
         }
     };
-- 
2.43.0


From c5e74c175c6ca14f6915e56d81a7ac9a8078ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 30/89] fix: gradients of reductions over any dims and
 keep_dim, shared extrema, zero norms

---
 .../src/tensor/gradient/vjp_reduce.rs         | 152 +++++++-----------
 1 file changed, 55 insertions(+), 97 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
index 018aa32..a9c1f91 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
@@ -3,7 +3,7 @@ use crate::{
     error::{HoduError, HoduResult},
     ops::{OpParams, ReduceOp, ReduceParams},
     scalar::Scalar,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for ReduceOp {
@@ -32,126 +32,78 @@ impl VjpCompute for ReduceOp {
             dims.iter().map(|scalar| scalar.to_usize()).collect()
         };
 
+        // The reduced dimensions kept with size one, what is reduced lines up with the input
+        let mut kept_dims = input_shape.dims().to_vec();
+        for &dim in &reduce_dims {
+            kept_dims[dim] = 1;
+        }
+        let expand = |id: TensorId| tensor_from_id(id).reshape(&kept_dims)?.broadcast(&input_shape);
+        let reduce_elements = reduce_dims
+            .iter()
+            .map(|&dim| input_shape.dims()[dim])
+            .product::<usize>() as f32;
+
+        let grad = expand(grad_output)?;
+
         match self {
             ReduceOp::Sum => {
                 // d/dx sum(x) = 1 for all elements
-                // Broadcast gradient back to input shape
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted = grad_tensor.broadcast(&input_shape)?;
-                Ok(vec![broadcasted.id()])
+                Ok(vec![grad.id()])
             },
             ReduceOp::Mean => {
                 // d/dx mean(x) = 1/N where N is number of elements in reduced dimensions
-                let reduce_elements = reduce_dims
-                    .iter()
-                    .map(|&dim| input_shape.dims()[dim])
-                    .product::<usize>() as f32;
-                let scale_scalar = Scalar::from_f32(1.0 / reduce_elements, dtype);
-
-                let grad_tensor = tensor_from_id(grad_output);
-                let scaled_grad = grad_tensor.mul_scalar(scale_scalar)?;
-                let broadcasted = scaled_grad.broadcast(&input_shape)?;
-                Ok(vec![broadcasted.id()])
+                let result = grad.mul_scalar(Scalar::from_f32(1.0 / reduce_elements, dtype))?;
+                Ok(vec![result.id()])
             },
             ReduceOp::Prod => {
-                // d/dx prod(x) = prod(x) / x_i for each element x_i
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_output = output_tensor.broadcast(&input_shape)?;
-                let derivative = broadcasted_output.div(&input_tensor)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
+                // d/dx_i prod(x) is the product of the other elements: with zeros replaced by ones,
+                // prod / x_i where no other element is zero, and zero elsewhere
+                let is_zero = input_tensor.eq_scalar(Scalar::zero(dtype))?.to_dtype(dtype)?;
+                let nonzero = input_tensor.add(&is_zero)?;
+                let prod = nonzero.prod(&reduce_dims, true)?.broadcast(&input_shape)?;
+                let zeros = is_zero.sum(&reduce_dims, true)?.broadcast(&input_shape)?;
+                let others_nonzero = zeros.sub(&is_zero)?.eq_scalar(Scalar::zero(dtype))?.to_dtype(dtype)?;
+                let derivative = prod.div(&nonzero)?.mul(&others_nonzero)?;
+                let result = derivative.mul(&grad)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::Norm => {
-                // d/dx ||x||_2 = x / ||x||_2
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_output = output_tensor.broadcast(&input_shape)?;
-                let derivative = input_tensor.div(&broadcasted_output)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
+                // d/dx ||x||_2 = x / ||x||_2, zero being a subgradient where the norm is zero
+                let result = input_tensor.div(&nonzero_or_one(&expand(output)?)?)?.mul(&grad)?;
                 Ok(vec![result.id()])
             },
-            ReduceOp::Var => {
+            ReduceOp::Var | ReduceOp::Std => {
                 // d/dx var(x) = 2 * (x - mean(x)) / N where N is number of elements in reduced dimensions
-                let mean_tensor = input_tensor.mean(&reduce_dims, false)?;
-                let broadcasted_mean = mean_tensor.broadcast(&input_shape)?;
-                let diff = input_tensor.sub(&broadcasted_mean)?;
-                let reduce_elements = reduce_dims
-                    .iter()
-                    .map(|&dim| input_shape.dims()[dim])
-                    .product::<usize>() as f32;
-                let scale = Scalar::from_f32(2.0 / reduce_elements, dtype);
-                let derivative = diff.mul_scalar(scale)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
-                Ok(vec![result.id()])
-            },
-            ReduceOp::Std => {
-                // d/dx std(x) = (x - mean(x)) / (N * std(x)) where N is number of elements in reduced dimensions
-                let mean_tensor = input_tensor.mean(&reduce_dims, false)?;
-                let broadcasted_mean = mean_tensor.broadcast(&input_shape)?;
-                let diff = input_tensor.sub(&broadcasted_mean)?;
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_std = output_tensor.broadcast(&input_shape)?;
-                let reduce_elements = reduce_dims
-                    .iter()
-                    .map(|&dim| input_shape.dims()[dim])
-                    .product::<usize>() as f32;
-                let scale = Scalar::from_f32(1.0 / reduce_elements, dtype);
-                let derivative = diff.div(&broadcasted_std)?.mul_scalar(scale)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
+                // d/dx std(x) = (x - mean(x)) / (N * std(x)), zero being a subgradient where std(x) is zero
+                let mean = input_tensor.mean(&reduce_dims, true)?.broadcast(&input_shape)?;
+                let diff = input_tensor.sub(&mean)?;
+                let derivative = if let ReduceOp::Var = self {
+                    diff.mul_scalar(Scalar::from_f32(2.0 / reduce_elements, dtype))?
+                } else {
+                    diff.div(&nonzero_or_one(&expand(output)?)?)?
+                        .mul_scalar(Scalar::from_f32(1.0 / reduce_elements, dtype))?
+                };
+                let result = derivative.mul(&grad)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::Max | ReduceOp::Min => {
-                // d/dx max(x) or min(x): gradient flows only to the positions that were max/min
-                // Create a mask where input equals output (broadcasted)
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_output = output_tensor.broadcast(&input_shape)?;
-
-                // Create mask: 1 where input == output, 0 elsewhere
-                let mask = input_tensor.eq(&broadcasted_output)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let mask_f = mask.to_dtype(grad_tensor.dtype())?;
-
-                // Count how many elements are equal to max/min (for gradient distribution)
-                let count_per_position = mask_f.sum(&reduce_dims, true)?;
-                let broadcasted_count = count_per_position.broadcast(&input_shape)?;
-
-                // Distribute gradient: grad * mask / count
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let masked_grad = broadcasted_grad.mul(&mask_f)?;
-                let result = masked_grad.div(&broadcasted_count)?;
-
+                // d/dx max(x) or min(x): gradient flows only to the positions that were max/min,
+                // in equal parts
+                let mask = input_tensor.eq(&expand(output)?)?.to_dtype(dtype)?;
+                let count = mask.sum(&reduce_dims, true)?.broadcast(&input_shape)?;
+                let result = grad.mul(&mask)?.div(&count)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::LogSum => {
                 // d/dx log(sum(x)) = 1 / sum(x)
-                // output = log(sum(x)), so sum(x) = exp(output)
-                let output_tensor = tensor_from_id(output);
-                let sum_x = output_tensor.exp()?;
-                let broadcasted_sum = sum_x.broadcast(&input_shape)?;
-                let derivative = broadcasted_sum.recip()?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
+                let sum = input_tensor.sum(&reduce_dims, true)?.broadcast(&input_shape)?;
+                let result = grad.div(&sum)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::LogSumExp => {
-                // d/dx log(sum(exp(x))) = exp(x) / sum(exp(x)) = softmax(x)
-                // output = log(sum(exp(x))), so sum(exp(x)) = exp(output)
-                let output_tensor = tensor_from_id(output);
-                let exp_x = input_tensor.exp()?;
-                let sum_exp = output_tensor.exp()?;
-                let broadcasted_sum = sum_exp.broadcast(&input_shape)?;
-                let softmax = exp_x.div(&broadcasted_sum)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = softmax.mul(&broadcasted_grad)?;
+                // d/dx log(sum(exp(x))) = exp(x) / sum(exp(x)) = exp(x - output)
+                let softmax = input_tensor.sub(&expand(output)?)?.exp()?;
+                let result = softmax.mul(&grad)?;
                 Ok(vec![result.id()])
             },
             _ => Err(HoduError::GradientComputationFailed(format!(
@@ -161,3 +113,9 @@ impl VjpCompute for ReduceOp {
         }
     }
 }
+
+/// A divisor for quotients that are zero where `x` is zero
+fn nonzero_or_one(x: &Tensor) -> HoduResult<Tensor> {
+    let dtype = x.dtype();
+    x.add(&x.eq_scalar(Scalar::zero(dtype))?.to_dtype(dtype)?)
+}
-- 
2.43.0


From 1fcf565b7596ccc218e87ba827d2b4c3750f70c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 31/89] fix: gradients of windows, padding and resizing go to
 every element that contributed

---
 .../src/tensor/gradient/vjp_padding.rs        | 297 ++----------------
 .../src/tensor/gradient/vjp_resize.rs         |  39 +--
 .../src/tensor/gradient/vjp_windowing.rs      | 217 ++++++-------
 3 files changed, 152 insertions(+), 401 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_padding.rs b/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
index cc678ab..a706e82 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
@@ -27,29 +27,36 @@ impl VjpCompute for PaddingOp {
 
         let grad_tensor = tensor_from_id(grad_output);
 
-        match self {
-            PaddingOp::PadConstant => {
-                // For constant padding, gradient is just a slice of grad_output
-                // removing the padded regions
-                let grad_input = slice_center(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
-            PaddingOp::PadReflect => {
-                // For reflect padding, gradient accumulates from reflected positions
-                let grad_input = compute_reflect_grad(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
-            PaddingOp::PadReplicate => {
-                // For replicate padding, gradient accumulates at edge positions
-                let grad_input = compute_replicate_grad(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
-            PaddingOp::PadCircular => {
-                // For circular padding, gradient wraps around
-                let grad_input = compute_circular_grad(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
+        let mut result = grad_tensor;
+        if let PaddingOp::PadConstant = self {
+            // The gradient without the padded regions
+            result = slice_center(&result, &input_shape, padding)?;
+            return Ok(vec![result.id()]);
         }
+
+        // Padding copies: each input position receives the gradients of all its copies, which padding
+        // the positions themselves shows, one dimension at a time
+        for (dim, &(before, after)) in padding.iter().enumerate() {
+            if before == 0 && after == 0 {
+                continue;
+            }
+            let size = input_shape.dims()[dim];
+            let padded = [(before, after)];
+            let positions = Tensor::from_slice((0..size as i32).collect::<Vec<_>>(), [size])?;
+            let positions = match self {
+                PaddingOp::PadReflect => positions.pad(&padded, "reflect", 0i32)?,
+                PaddingOp::PadReplicate => positions.pad(&padded, "replicate", 0i32)?,
+                _ => positions.pad(&padded, "circular", 0i32)?,
+            };
+
+            let mut dims = result.shape().dims().to_vec();
+            let mut index_dims = vec![1; dims.len()];
+            index_dims[dim] = dims[dim];
+            let positions = positions.reshape(&index_dims)?.broadcast(&dims)?;
+            dims[dim] = size;
+            result = Tensor::zeros(&dims, result.dtype())?.scatter_add(dim, &positions, &result)?;
+        }
+        Ok(vec![result.id()])
     }
 }
 
@@ -63,249 +70,3 @@ fn slice_center(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, us
     }
     Ok(result)
 }
-
-/// Compute gradient for reflect padding
-fn compute_reflect_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region (original input area)
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, add contributions from reflected regions
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-        let input_size = input_dims[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: reflected from positions [1..pad_before+1]
-        // These map back to positions [1..min(pad_before, input_size-1)+1] in input
-        if pad_before > 0 && input_size > 1 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let flipped = left_pad_grad.flip(&[dim])?;
-
-            // The reflection maps position i in left pad to position (pad_before - i) in input
-            // After flip, position 0 maps to position 1, position 1 maps to position 2, etc.
-            let target_len = pad_before.min(input_size - 1);
-            let flipped_slice = if flipped.shape().dims()[dim] > target_len {
-                slice_single_dim(
-                    &flipped,
-                    dim,
-                    flipped.shape().dims()[dim] - target_len,
-                    flipped.shape().dims()[dim],
-                )?
-            } else {
-                flipped
-            };
-
-            let target = slice_single_dim(&grad_input, dim, 1, 1 + target_len)?;
-            let added = target.add(&flipped_slice)?;
-            grad_input = replace_single_dim(&grad_input, dim, 1, 1 + target_len, &added)?;
-        }
-
-        // Right padding: reflected from positions [input_size-2, input_size-pad_after-2]
-        if pad_after > 0 && input_size > 1 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-            let flipped = right_pad_grad.flip(&[dim])?;
-
-            // After flip, these map to positions ending at input_size - 2
-            let target_len = pad_after.min(input_size - 1);
-            let start_pos = input_size - 1 - target_len;
-
-            let flipped_slice = if flipped.shape().dims()[dim] > target_len {
-                slice_single_dim(&flipped, dim, 0, target_len)?
-            } else {
-                flipped
-            };
-
-            let target = slice_single_dim(&grad_input, dim, start_pos, start_pos + target_len)?;
-            let added = target.add(&flipped_slice)?;
-            grad_input = replace_single_dim(&grad_input, dim, start_pos, start_pos + target_len, &added)?;
-        }
-    }
-
-    Ok(grad_input)
-}
-
-/// Compute gradient for replicate padding
-fn compute_replicate_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, sum padding gradients into edge positions
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: all go to first element
-        if pad_before > 0 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let left_sum = left_pad_grad.sum(&[dim], true)?;
-
-            let first = slice_single_dim(&grad_input, dim, 0, 1)?;
-            let added = first.add(&left_sum)?;
-            grad_input = replace_single_dim(&grad_input, dim, 0, 1, &added)?;
-        }
-
-        // Right padding: all go to last element
-        if pad_after > 0 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-            let right_sum = right_pad_grad.sum(&[dim], true)?;
-
-            let input_size = input_dims[dim];
-            let last = slice_single_dim(&grad_input, dim, input_size - 1, input_size)?;
-            let added = last.add(&right_sum)?;
-            grad_input = replace_single_dim(&grad_input, dim, input_size - 1, input_size, &added)?;
-        }
-    }
-
-    Ok(grad_input)
-}
-
-/// Compute gradient for circular padding
-fn compute_circular_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, wrap padding gradients around
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-        let input_size = input_dims[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: comes from end of input (wraps around)
-        // Left pad positions [0..pad_before] come from input positions [input_size - pad_before..input_size]
-        if pad_before > 0 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let start_pos = input_size - pad_before;
-
-            let target = slice_single_dim(&grad_input, dim, start_pos, input_size)?;
-            let added = target.add(&left_pad_grad)?;
-            grad_input = replace_single_dim(&grad_input, dim, start_pos, input_size, &added)?;
-        }
-
-        // Right padding: comes from beginning of input
-        // Right pad positions come from input positions [0..pad_after]
-        if pad_after > 0 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-
-            let target = slice_single_dim(&grad_input, dim, 0, pad_after)?;
-            let added = target.add(&right_pad_grad)?;
-            grad_input = replace_single_dim(&grad_input, dim, 0, pad_after, &added)?;
-        }
-    }
-
-    Ok(grad_input)
-}
-
-/// Slice a single dimension of a tensor
-fn slice_single_dim(tensor: &Tensor, dim: usize, start: usize, end: usize) -> HoduResult<Tensor> {
-    tensor.slice(dim, start as i64, Some(end as i64), 1)
-}
-
-/// Slice from grad_output taking into account other dimensions are at center
-fn slice_dim(
-    grad_output: &Tensor,
-    target_dim: usize,
-    start: usize,
-    end: usize,
-    padding: &[(usize, usize)],
-    input_dims: &[usize],
-) -> HoduResult<Tensor> {
-    let ndim = padding.len();
-    let mut result = grad_output.clone();
-
-    for dim in 0..ndim {
-        if dim == target_dim {
-            result = result.slice(dim, start as i64, Some(end as i64), 1)?;
-        } else {
-            let (pad_before, _) = padding[dim];
-            let input_size = input_dims[dim];
-            result = result.slice(dim, pad_before as i64, Some((pad_before + input_size) as i64), 1)?;
-        }
-    }
-
-    Ok(result)
-}
-
-/// Replace a slice of the tensor along a single dimension
-fn replace_single_dim(
-    tensor: &Tensor,
-    dim: usize,
-    start: usize,
-    end: usize,
-    replacement: &Tensor,
-) -> HoduResult<Tensor> {
-    let shape = tensor.shape();
-    let dim_size = shape.dims()[dim];
-
-    // If replacing the entire dimension, just return replacement
-    if start == 0 && end == dim_size {
-        return Ok(replacement.clone());
-    }
-
-    // Build result by concatenating: [before, replacement, after]
-    let mut parts: Vec<Tensor> = Vec::new();
-
-    // Before slice
-    if start > 0 {
-        let before = slice_single_dim(tensor, dim, 0, start)?;
-        parts.push(before);
-    }
-
-    // Replacement
-    parts.push(replacement.clone());
-
-    // After slice
-    if end < dim_size {
-        let after = slice_single_dim(tensor, dim, end, dim_size)?;
-        parts.push(after);
-    }
-
-    // Concatenate along dim
-    if parts.len() == 1 {
-        Ok(parts.remove(0))
-    } else {
-        let refs: Vec<&Tensor> = parts.iter().collect();
-        Tensor::cat(&refs, dim)
-    }
-}
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_resize.rs b/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
index edcc827..4ac05a5 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
@@ -3,7 +3,7 @@ use crate::{
     error::{HoduError, HoduResult},
     op_params::{OpParams, ResizeMode, ResizeParams},
     ops::ResizeOp,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for ResizeOp {
@@ -35,19 +35,10 @@ impl VjpCompute for ResizeOp {
 
                 let grad_tensor = tensor_from_id(grad_output);
 
-                // For resize, the gradient flows back by resizing grad_output to input shape
-                // This is valid for bilinear/bicubic interpolation
-                // For nearest neighbor, there's no well-defined gradient (we use bilinear for backward)
-
-                // Get spatial dimensions from input (skip batch and channel)
-                let spatial_dims: Vec<usize> = input_dims[2..].to_vec();
-
-                // For nearest mode, there's technically no gradient, but we can approximate
-                // by using bilinear interpolation for the backward pass
-                let backward_mode = match mode {
-                    ResizeMode::Nearest => "bilinear", // Use bilinear for backward pass
-                    ResizeMode::Linear => "bilinear",
-                    ResizeMode::Cubic => "bicubic",
+                let mode_str = match mode {
+                    ResizeMode::Nearest => "nearest",
+                    ResizeMode::Linear => "linear",
+                    ResizeMode::Cubic => "cubic",
                 };
 
                 let coord_transform_str = match coord_transform {
@@ -64,11 +55,23 @@ impl VjpCompute for ResizeOp {
                     crate::op_params::ResizeNearestMode::RoundPreferCeil => "round_prefer_ceil",
                 };
 
-                // Resize grad_output back to input spatial dimensions
-                let grad_input =
-                    grad_tensor.resize(&spatial_dims, backward_mode, coord_transform_str, nearest_mode_str)?;
+                // Resizing is a linear map of each spatial dimension, which resizing the unit vectors
+                // shows; the gradient goes through its transpose
+                let mut result = grad_tensor;
+                for dim in 2..input_dims.len() {
+                    let (input_size, output_size) = (input_dims[dim], result.shape().dims()[dim]);
+                    let map = Tensor::eye(input_size, result.dtype())?
+                        .reshape([input_size, 1, 1, input_size])?
+                        .resize(&[1, output_size], mode_str, coord_transform_str, nearest_mode_str)?
+                        .reshape([input_size, output_size])?
+                        .transpose(0, 1)?;
+                    result = result
+                        .transpose(dim as i32, -1)?
+                        .matmul(&map)?
+                        .transpose(dim as i32, -1)?;
+                }
 
-                Ok(vec![grad_input.id()])
+                Ok(vec![result.id()])
             },
         }
     }
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs b/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
index e273a0b..5831de0 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
@@ -3,7 +3,7 @@ use crate::{
     error::{HoduError, HoduResult},
     ops::{OpParams, ReduceWindowParams, WindowingOp},
     scalar::Scalar,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for WindowingOp {
@@ -14,135 +14,122 @@ impl VjpCompute for WindowingOp {
         grad_output: TensorId,
         op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
-        let OpParams::ReduceWindow(ReduceWindowParams {
-            window_shape, strides, ..
-        }) = op_params
-        else {
+        let OpParams::ReduceWindow(params) = op_params else {
             return Err(HoduError::VjpFunctionNotFound(
                 "WindowingOp requires ReduceWindowParams".to_string(),
             ));
         };
 
-        let input = inputs[0];
-        let input_tensor = tensor_from_id(input);
-        let input_shape = input_tensor.shape();
-        let dtype = input_tensor.dtype();
+        let input_tensor = tensor_from_id(inputs[0]);
+        let grad_tensor = tensor_from_id(grad_output);
 
-        match self {
+        let result = match self {
             WindowingOp::ReduceWindowMax | WindowingOp::ReduceWindowMin => {
-                // For max/min pooling, gradient flows only through positions that were max/min
-                // Upsample both output and gradient by repeating each element by stride amount
-
-                // Upsample output
-                let output_tensor = tensor_from_id(_output);
-                let mut upsampled_output = output_tensor.clone();
-
-                // Upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
-
-                // For each dimension, if stride > 1, insert a dimension after it and broadcast
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        // Upsample output
-                        let current_shape = upsampled_output.shape();
-                        let current_dims = current_shape.dims();
-
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_output = upsampled_output.reshape(&expanded_shape)?;
-
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_output = upsampled_output.broadcast(&broadcast_shape)?;
-
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_output = upsampled_output.reshape(&final_shape)?;
-
-                        // Upsample gradient (same process)
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
-                    }
-                }
-
-                // Broadcast to exact input shape (handles padding differences)
-                upsampled_output = upsampled_output.broadcast(&input_shape)?;
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-
-                // Create mask: input == upsampled_output
-                let mask = input_tensor.eq(&upsampled_output)?;
-                let mask_f = mask.to_dtype(dtype)?;
-
-                // Multiply gradient by mask
-                let result = upsampled_grad.mul(&mask_f)?;
-
-                Ok(vec![result.id()])
+                // Gradient flows to the position each window takes its value from
+                let largest = matches!(self, WindowingOp::ReduceWindowMax);
+                select_grad(&input_tensor, &grad_tensor, params, largest)?
             },
+            WindowingOp::ReduceWindowSum => spread_grad(&input_tensor, &grad_tensor, params)?,
             WindowingOp::ReduceWindowMean => {
-                // Mean: divide by window size and upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
-
-                // Upsample gradient same way as Max/Min
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        let current_shape = upsampled_grad.shape();
-                        let current_dims = current_shape.dims();
-
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
-
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
-
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
-                    }
-                }
-
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-
-                let window_size: usize = window_shape.iter().product();
-                let scale = Scalar::from_f32(1.0 / window_size as f32, dtype);
-                let scaled_grad = upsampled_grad.mul_scalar(scale)?;
-                Ok(vec![scaled_grad.id()])
+                // The mean is over the full window size, padding included
+                let window_size: usize = params.window_shape.iter().product();
+                let scale = Scalar::from_f32(1.0 / window_size as f32, input_tensor.dtype());
+                spread_grad(&input_tensor, &grad_tensor, params)?.mul_scalar(scale)?
             },
-            WindowingOp::ReduceWindowSum => {
-                // Sum: just upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
+        };
+        Ok(vec![result.id()])
+    }
+}
 
-                // Upsample gradient same way as Max/Min
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        let current_shape = upsampled_grad.shape();
-                        let current_dims = current_shape.dims();
+/// Every position receives the gradients of all windows that cover it
+fn spread_grad(input: &Tensor, grad: &Tensor, params: &ReduceWindowParams) -> HoduResult<Tensor> {
+    let input_shape = input.shape();
+    let ndim = input_shape.ndim();
+    let zero = Scalar::zero(grad.dtype());
+
+    // Move the gradients of windows a stride apart, with zeros in between
+    let mut spread = grad.clone();
+    for dim in 0..ndim {
+        let stride = params.strides[dim];
+        let mut dims = spread.shape().dims().to_vec();
+        let count = dims[dim];
+        if stride > 1 && count > 1 {
+            dims.insert(dim + 1, 1);
+            let mut padding = vec![(0, 0); dims.len()];
+            padding[dim + 1].1 = stride - 1;
+            spread = spread.reshape(&dims)?.pad_constant(&padding, zero)?;
+            dims.remove(dim + 1);
+            dims[dim] = count * stride;
+            let end = ((count - 1) * stride + 1) as i64;
+            spread = spread.reshape(&dims)?.slice(dim, 0i64, Some(end), 1)?;
+        }
+    }
 
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
+    // A window over the gradients that ends at a position sums those whose window covers it
+    let mut padding = Vec::with_capacity(ndim);
+    for dim in 0..ndim {
+        let (lo, hi) = params.padding[dim];
+        let window = params.window_shape[dim];
+        let covered = spread.shape().dims()[dim] + window - 1;
+        padding.push((window - 1, window - 1 + input_shape.dims()[dim] + lo + hi - covered));
+    }
+    let mut result = spread.reduce_window(&params.window_shape, &vec![1; ndim], &padding, "sum")?;
 
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
+    for dim in 0..ndim {
+        let start = params.padding[dim].0;
+        let end = start + input_shape.dims()[dim];
+        result = result.slice(dim, start as i64, Some(end as i64), 1)?;
+    }
+    Ok(result)
+}
 
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
-                    }
+/// The position of the extreme element of each window receives its gradient
+fn select_grad(input: &Tensor, grad: &Tensor, params: &ReduceWindowParams, largest: bool) -> HoduResult<Tensor> {
+    let input_shape = input.shape();
+    let input_dims = input_shape.dims();
+    let output_shape = grad.shape();
+    let size = input_shape.size();
+    let window_size: usize = params.window_shape.iter().product();
+
+    // The input positions of each window; the ones in the padding repeat a position of the same window
+    let mut positions: Vec<i32> = Vec::with_capacity(output_shape.size() * window_size);
+    for output_index in 0..output_shape.size() {
+        let start = positions.len();
+        for window_index in 0..window_size {
+            let (mut o, mut w, mut position, mut scale) = (output_index, window_index, 0, 1);
+            let mut inside = true;
+            for dim in (0..input_dims.len()).rev() {
+                let (output_size, window) = (output_shape.dims()[dim], params.window_shape[dim]);
+                let padded = (o % output_size) * params.strides[dim] + w % window;
+                o /= output_size;
+                w /= window;
+                match padded.checked_sub(params.padding[dim].0) {
+                    Some(at) if at < input_dims[dim] => position += at * scale,
+                    _ => inside = false,
                 }
-
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-                Ok(vec![upsampled_grad.id()])
-            },
+                scale *= input_dims[dim];
+            }
+            if inside {
+                positions.push(position as i32);
+            }
         }
+        // All padding: outside the input, where nothing is scattered to
+        let repeated = positions.get(start).copied().unwrap_or(size as i32);
+        positions.resize(start + window_size, repeated);
     }
+
+    let positions = Tensor::from_slice(positions, [output_shape.size(), window_size])?;
+    let values = input
+        .reshape([size])?
+        .gather(0, &positions.reshape([output_shape.size() * window_size])?)?
+        .reshape([output_shape.size(), window_size])?;
+    let chosen = if largest {
+        values.argmax(&[1], true)?
+    } else {
+        values.argmin(&[1], true)?
+    };
+    let chosen = positions.gather(1, &chosen)?.reshape([output_shape.size()])?;
+    Tensor::zeros([size], input.dtype())?
+        .scatter_add(0, &chosen, &grad.reshape([output_shape.size()])?)?
+        .reshape(&input_shape)
 }
-- 
2.43.0


From 6a4ce9faab484986800dd2a1e219f83fcfcd77fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 32/89] fix: gradients of batched det/inverse/trace, einsum
 with summed or repeated indices, split parts

---
 .../src/tensor/gradient/vjp_concat_split.rs   |  8 +--
 .../src/tensor/gradient/vjp_einsum.rs         | 53 ++++++++++++++++---
 .../src/tensor/gradient/vjp_linalg.rs         | 27 ++++++----
 3 files changed, 67 insertions(+), 21 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs b/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs
index 7cf6082..6eb065c 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs
@@ -4,6 +4,7 @@ use crate::{
     ops::{ConcatOp, ConcatParams, OpParams, SplitOp, SplitParams},
     tensor::{tensor_from_id, Tensor, TensorId},
     types::Shape,
+    utils::valid::validate_axis,
 };
 
 impl VjpCompute for ConcatOp {
@@ -19,13 +20,14 @@ impl VjpCompute for ConcatOp {
                 "ConcatOp requires ConcatParams".to_string(),
             ));
         };
-        let dim = *dim;
+        let ndim = tensor_from_id(grad_output).ndim();
+        let dim = validate_axis(dim.to_i32(), ndim)?;
 
         let sizes: Vec<usize> = inputs
             .iter()
             .map(|&id| {
                 let tensor = tensor_from_id(id);
-                tensor.shape().dims()[dim.to_usize()] as usize
+                tensor.shape().dims()[dim]
             })
             .collect();
 
@@ -59,7 +61,7 @@ impl VjpCompute for SplitOp {
         let input_shape = input_tensor.shape();
         let dtype = input_tensor.dtype();
 
-        let dim = dim.to_usize();
+        let dim = validate_axis(dim.to_i32(), input_shape.ndim())?;
         let sizes: Vec<usize> = sizes.iter().map(|s| s.to_usize()).collect();
         let output_index = *output_index;
 
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs b/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
index 969d7c0..6f63592 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
@@ -3,7 +3,7 @@ use crate::{
     error::{HoduError, HoduResult},
     op_params::{EinsumParams, OpParams},
     ops::EinsumOp,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for EinsumOp {
@@ -55,15 +55,26 @@ impl VjpCompute for EinsumOp {
                         }
                     }
 
-                    // Result subscripts are the subscripts of the input we're computing gradient for
-                    let result_subs: String = input_subscripts[i].iter().collect();
+                    // The subscripts of input i that others determine, each once; along the remaining
+                    // ones the input was summed, its elements have the same gradient
+                    let mut subs: Vec<char> = Vec::new();
+                    for &c in &input_subscripts[i] {
+                        if !subs.contains(&c) {
+                            subs.push(c);
+                        }
+                    }
+                    let is_determined = |c: &&char| grad_operand_subs.iter().any(|s| s.contains(**c));
+                    let result_subs: String = subs.iter().filter(is_determined).collect();
 
-                    // Build the equation string
-                    let grad_equation = format!("{}->{}", grad_operand_subs.join(","), result_subs);
+                    let grad_input = if grad_operand_tensors.len() == 1 && result_subs.is_empty() {
+                        grad_tensor.clone()
+                    } else {
+                        let grad_equation = format!("{}->{}", grad_operand_subs.join(","), result_subs);
+                        Tensor::einsum(&grad_equation, &grad_operand_tensors)?
+                    };
 
-                    // Compute the gradient
-                    let grad_tensor_refs: Vec<&crate::tensor::Tensor> = grad_operand_tensors.to_vec();
-                    let grad_input = crate::tensor::Tensor::einsum(&grad_equation, &grad_tensor_refs)?;
+                    let input_shape = input_tensors[i].shape();
+                    let grad_input = spread(grad_input, &result_subs, &input_subscripts[i], input_shape.dims())?;
 
                     grad_inputs.push(grad_input.id());
                 }
@@ -73,3 +84,29 @@ impl VjpCompute for EinsumOp {
         }
     }
 }
+
+/// Gradients by `from` as gradients of an input with subscripts `to`, of which repeated ones only
+/// count on the diagonal
+fn spread(grad: Tensor, from: &str, to: &[char], dims: &[usize]) -> HoduResult<Tensor> {
+    let first = |c: char| to.iter().position(|&t| t == c).unwrap();
+    let lined_up: Vec<usize> = (0..to.len())
+        .map(|at| {
+            if first(to[at]) == at && from.contains(to[at]) {
+                dims[at]
+            } else {
+                1
+            }
+        })
+        .collect();
+    let mut result = grad.reshape(&lined_up)?.broadcast(dims)?;
+    for (at, &c) in to.iter().enumerate() {
+        let diagonal_of = first(c);
+        if diagonal_of != at {
+            let mut eye_dims = vec![1; to.len()];
+            eye_dims[diagonal_of] = dims[at];
+            eye_dims[at] = dims[at];
+            result = result.mul(&Tensor::eye(dims[at], result.dtype())?.reshape(&eye_dims)?)?;
+        }
+    }
+    Ok(result)
+}
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
index 17ea7c3..96b829a 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
@@ -2,7 +2,7 @@ use super::VjpCompute;
 use crate::{
     error::HoduResult,
     ops::{LinalgOp, OpParams},
-    tensor::{Tensor, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for LinalgOp {
@@ -25,9 +25,9 @@ impl VjpCompute for LinalgOp {
                 // input A: [..., N, N]
                 // result: [..., N, N]
 
-                let input = Tensor::from_id(inputs[0]);
-                let det_value = Tensor::from_id(output);
-                let grad = Tensor::from_id(grad_output);
+                let input = tensor_from_id(inputs[0]);
+                let det_value = tensor_from_id(output);
+                let grad = tensor_from_id(grad_output);
 
                 // Compute A^{-1}
                 let inv_a = input.inv()?;
@@ -38,7 +38,7 @@ impl VjpCompute for LinalgOp {
                 // Scale by det(A) * grad_output
                 // det_value and grad have shape [...], need to expand to [..., 1, 1]
                 let scale = grad.mul(&det_value)?;
-                let scale = scale.unsqueeze(-1)?.unsqueeze(-1)?;
+                let scale = per_matrix(&scale, input.ndim())?;
 
                 // grad_input = scale * inv_a_t
                 let grad_input = inv_a_t.mul(&scale)?;
@@ -53,8 +53,8 @@ impl VjpCompute for LinalgOp {
                 // Since output = inv(A), we have:
                 // dL/dA = -output^T @ grad_output @ output^T
 
-                let inv_a = Tensor::from_id(output);
-                let grad = Tensor::from_id(grad_output);
+                let inv_a = tensor_from_id(output);
+                let grad = tensor_from_id(grad_output);
 
                 // Transpose the output (inverse): A^{-T}
                 let inv_a_t = inv_a.transpose(-2, -1)?;
@@ -77,8 +77,8 @@ impl VjpCompute for LinalgOp {
                 // input A: [..., N, N]
                 // result: [..., N, N]
 
-                let input = Tensor::from_id(inputs[0]);
-                let grad = Tensor::from_id(grad_output);
+                let input = tensor_from_id(inputs[0]);
+                let grad = tensor_from_id(grad_output);
 
                 // Get the matrix size from input shape
                 let shape = input.shape();
@@ -89,7 +89,7 @@ impl VjpCompute for LinalgOp {
                 let eye = Tensor::eye(n, input.dtype())?;
 
                 // Expand grad to [..., 1, 1] for broadcasting
-                let scale = grad.unsqueeze(-1)?.unsqueeze(-1)?;
+                let scale = per_matrix(&grad, ndim)?;
 
                 // grad_input = scale * I
                 let grad_input = eye.mul(&scale)?;
@@ -99,3 +99,10 @@ impl VjpCompute for LinalgOp {
         }
     }
 }
+
+/// One value per matrix, `[...]`, as `[..., 1, 1]`; that of a single matrix has shape `[1]`
+fn per_matrix(values: &Tensor, ndim: usize) -> HoduResult<Tensor> {
+    let mut dims = values.shape().dims()[..ndim.min(values.ndim() + 2) - 2].to_vec();
+    dims.extend([1, 1]);
+    values.reshape(&dims)
+}
-- 
2.43.0


From 301672a4e0632bde11e6aa2fc6eacfedbf6d0b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 33/89] fix: gradients of abs, truncated remainders and
 saturating activations

---
 .../src/tensor/gradient/vjp_binary.rs         |  9 +-
 .../src/tensor/gradient/vjp_unary.rs          | 96 +++----------------
 .../src/tensor/gradient/vjp_utils.rs          |  9 ++
 crates/hodu_core/src/utils/valid.rs           |  4 +-
 4 files changed, 31 insertions(+), 87 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_binary.rs b/crates/hodu_core/src/tensor/gradient/vjp_binary.rs
index 599a555..10e6982 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_binary.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_binary.rs
@@ -45,12 +45,13 @@ impl VjpCompute for BinaryOp {
                 ])
             },
             BinaryOp::Rem => {
-                // z = x % y = x - floor(x/y) * y
+                // z = x % y = x - trunc(x/y) * y
                 // dz/dx = 1
-                // dz/dy = -floor(x/y)
+                // dz/dy = -trunc(x/y)
                 let x_div_y = create_div_tensor(inputs[0], inputs[1])?;
-                let floor_x_div_y = create_floor_tensor(x_div_y)?;
-                let grad_b_raw = create_neg_tensor(create_mul_tensor(grad_output, floor_x_div_y)?)?;
+                let floor_magnitude = create_floor_tensor(create_abs_tensor(x_div_y)?)?;
+                let trunc_x_div_y = create_mul_tensor(create_sign_tensor(x_div_y)?, floor_magnitude)?;
+                let grad_b_raw = create_neg_tensor(create_mul_tensor(grad_output, trunc_x_div_y)?)?;
                 Ok(vec![
                     create_sum_to_shape_tensor(grad_output, &input_a_shape)?,
                     create_sum_to_shape_tensor(grad_b_raw, &input_b_shape)?,
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_unary.rs b/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
index 9065970..0e3d98c 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
@@ -5,7 +5,6 @@ use crate::{
     scalar::Scalar,
     tensor::{tensor_from_id, TensorId},
 };
-use num_traits::Float;
 
 impl VjpCompute for UnaryOp {
     fn compute_vjp(
@@ -73,7 +72,8 @@ impl VjpCompute for UnaryOp {
                 // indicator = (output > 0) & (output < 1)
                 let gt_zero = create_gt_scalar_tensor(_output, zero)?;
                 let lt_one = create_lt_scalar_tensor(_output, one)?;
-                let indicator = create_mul_tensor(gt_zero, lt_one)?;
+                let gt_zero = tensor_from_id(gt_zero).to_dtype(dtype)?;
+                let indicator = create_mul_tensor(gt_zero.id(), tensor_from_id(lt_one).to_dtype(dtype)?.id())?;
 
                 // derivative = indicator * (1/6)
                 let derivative = create_mul_scalar_tensor(indicator, one_sixth)?;
@@ -158,7 +158,8 @@ impl VjpCompute for UnaryOp {
                 // indicator = (hardsigmoid(x) > 0) & (hardsigmoid(x) < 1)
                 let gt_zero = create_gt_scalar_tensor(hardsigmoid_x, zero)?;
                 let lt_one = create_lt_scalar_tensor(hardsigmoid_x, one)?;
-                let indicator = create_mul_tensor(gt_zero, lt_one)?;
+                let gt_zero = tensor_from_id(gt_zero).to_dtype(dtype)?;
+                let indicator = create_mul_tensor(gt_zero.id(), tensor_from_id(lt_one).to_dtype(dtype)?.id())?;
 
                 // x * indicator * (1/6)
                 let x_indicator = create_mul_tensor(input, indicator)?;
@@ -216,7 +217,7 @@ impl VjpCompute for UnaryOp {
                 let pos_deriv = create_mul_scalar_tensor(mask_pos_f.id(), selu_scale)?;
 
                 // For x <= 0: derivative = scale * alpha * exp(x)
-                let exp_x = create_exp_tensor(input)?;
+                let exp_x = create_exp_nonpositive_tensor(input)?;
                 let alpha_exp_x = create_mul_scalar_tensor(exp_x, selu_alpha)?;
                 let scale_alpha_exp_x = create_mul_scalar_tensor(alpha_exp_x, selu_scale)?;
                 let neg_deriv = create_mul_tensor(mask_neg_f.id(), scale_alpha_exp_x)?;
@@ -240,7 +241,7 @@ impl VjpCompute for UnaryOp {
 
                 // For x > 0: derivative = 1
                 // For x <= 0: derivative = exp(x)
-                let exp_x = create_exp_tensor(input)?;
+                let exp_x = create_exp_nonpositive_tensor(input)?;
                 let neg_deriv = create_mul_tensor(mask_neg_f.id(), exp_x)?;
 
                 let derivative = create_add_tensor(mask_pos_f.id(), neg_deriv)?;
@@ -470,87 +471,20 @@ impl VjpCompute for UnaryScalarOp {
             },
             UnaryScalarOp::DivScalar => {
                 // d/dx (x / c) = 1/c
-                let input_tensor = tensor_from_id(input);
-                let dtype = input_tensor.dtype();
-                // Create 1/c scalar with proper dtype and check for division by zero
-                let scalar_value = match scalar {
-                    Scalar::F32(v) => {
-                        if v.abs() < f32::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v, dtype)
-                    },
-                    #[cfg(feature = "f64")]
-                    Scalar::F64(v) => {
-                        if v.abs() < f64::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v as f32, dtype)
-                    },
-                    Scalar::F16(v) => {
-                        if v.abs() < half::f16::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v.to_f32(), dtype)
-                    },
-                    Scalar::BF16(v) => {
-                        if v.abs() < half::bf16::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v.to_f32(), dtype)
-                    },
-                    Scalar::F8E4M3(v) => {
-                        if v.abs() < float8::F8E4M3::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v.to_f32(), dtype)
-                    },
-                    #[cfg(feature = "f8e5m2")]
-                    Scalar::F8E5M2(v) => {
-                        if v.abs() < float8::F8E5M2::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v.to_f32(), dtype)
-                    },
-                    _ => {
-                        return Err(HoduError::GradientComputationFailed(
-                            "Unsupported scalar type in DivScalar gradient".to_string(),
-                        ))
-                    },
-                };
-                Ok(vec![create_mul_scalar_tensor(grad_output, scalar_value)?])
+                let result = tensor_from_id(grad_output).div_scalar(scalar)?;
+                Ok(vec![result.id()])
             },
             UnaryScalarOp::RemScalar => {
                 // d/dx (x % c) = 1
                 Ok(vec![grad_output])
             },
             UnaryScalarOp::PowScalar => {
-                // d/dx (x^c) = c * x^(c-1)
-                let input_tensor = tensor_from_id(input);
-                let dtype = input_tensor.dtype();
-                let scalar_minus_one = match scalar {
-                    Scalar::F32(v) => Scalar::from_f32(v - 1.0, dtype),
-                    #[cfg(feature = "f64")]
-                    Scalar::F64(v) => Scalar::from_f32((v - 1.0) as f32, dtype),
-                    Scalar::F16(v) => Scalar::from_f32(v.to_f32() - 1.0, dtype),
-                    Scalar::BF16(v) => Scalar::from_f32(v.to_f32() - 1.0, dtype),
-                    Scalar::F8E4M3(v) => Scalar::from_f32(v.to_f32() - 1.0, dtype),
-                    #[cfg(feature = "f8e5m2")]
-                    Scalar::F8E5M2(v) => Scalar::from_f32(v.to_f32() - 1.0, dtype),
-                    _ => Scalar::from_f32(0.0, dtype),
-                };
+                // d/dx (x^c) = c * x^(c-1), also at 0 where c = 0
+                let dtype = tensor_from_id(input).dtype();
+                if scalar == Scalar::zero(scalar.dtype()) {
+                    return Ok(vec![create_zeros_like_tensor(input)?]);
+                }
+                let scalar_minus_one = scalar.to_dtype(dtype) - Scalar::one(dtype);
                 let x_power_scalar_minus_one = create_pow_scalar_tensor(input, scalar_minus_one)?;
                 let derivative = create_mul_scalar_tensor(x_power_scalar_minus_one, scalar)?;
                 Ok(vec![create_mul_tensor(grad_output, derivative)?])
@@ -595,7 +529,7 @@ impl VjpCompute for UnaryScalarOp {
                 let mask_neg = create_le_scalar_tensor(input, zero)?;
                 let mask_pos_f = tensor_from_id(mask_pos).to_dtype(grad_tensor.dtype())?;
                 let mask_neg_f = tensor_from_id(mask_neg).to_dtype(grad_tensor.dtype())?;
-                let exp_input = create_exp_tensor(input)?;
+                let exp_input = create_exp_nonpositive_tensor(input)?;
                 let alpha_exp = create_mul_scalar_tensor(exp_input, alpha)?;
                 let neg_grad = create_mul_tensor(mask_neg_f.id(), alpha_exp)?;
                 let total_grad = create_add_tensor(mask_pos_f.id(), neg_grad)?;
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
index 2407e36..608b304 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
@@ -152,6 +152,15 @@ pub fn create_exp_tensor(a: TensorId) -> HoduResult<TensorId> {
     tensor_a.exp().map(|t| t.id())
 }
 
+/// exp(x) where x <= 0, and finite elsewhere
+pub fn create_exp_nonpositive_tensor(a: TensorId) -> HoduResult<TensorId> {
+    let tensor_a = tensor_from_id(a);
+    tensor_a
+        .minimum_scalar(Scalar::zero(tensor_a.dtype()))?
+        .exp()
+        .map(|t| t.id())
+}
+
 pub fn create_ln_tensor(a: TensorId) -> HoduResult<TensorId> {
     let tensor_a = tensor_from_id(a);
     tensor_a.ln().map(|t| t.id())
diff --git a/crates/hodu_core/src/utils/valid.rs b/crates/hodu_core/src/utils/valid.rs
index 77e623e..cfa4dd8 100644
--- a/crates/hodu_core/src/utils/valid.rs
+++ b/crates/hodu_core/src/utils/valid.rs
@@ -421,8 +421,8 @@ pub fn validate_requires_grad_for_op(op: Op) -> bool {
 
         // Unary operations
         Op::Unary(inner_op) => match inner_op {
-            UnaryOp::Neg | UnaryOp::Square | UnaryOp::Sqrt | UnaryOp::Recip => true,
-            UnaryOp::Abs | UnaryOp::Sign => false, // !
+            UnaryOp::Neg | UnaryOp::Abs | UnaryOp::Square | UnaryOp::Sqrt | UnaryOp::Recip => true,
+            UnaryOp::Sign => false, // !
             UnaryOp::Softsign => true,
             UnaryOp::Relu
             | UnaryOp::Sigmoid
-- 
2.43.0


From 62f88e8c40449c6e9ae453f432e3451864b4b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 34/89] fix: scalars narrow to the small float types without
 double rounding

---
 crates/hodu_core/src/scalar.rs | 67 ++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/crates/hodu_core/src/scalar.rs b/crates/hodu_core/src/scalar.rs
index dd774f8..9cea2e7 100644
--- a/crates/hodu_core/src/scalar.rs
+++ b/crates/hodu_core/src/scalar.rs
@@ -221,6 +221,33 @@ impl fmt::Debug for Scalar {
     }
 }
 
+/// The f32 next to x that narrows to the smaller formats as x itself would: unless x is an f32, the
+/// neighbour with an odd last digit, which is never a tie
+fn round_to_odd(x: f64) -> f32 {
+    let nearest = x as f32;
+    if nearest as f64 == x || !nearest.is_finite() {
+        return nearest;
+    }
+    let away = (nearest as f64).abs() > x.abs();
+    f32::from_bits((nearest.to_bits() - away as u32) | 1)
+}
+
+/// An f64 that narrows to the smaller formats as the integer itself would
+#[cfg(any(feature = "u64", feature = "i64"))]
+fn integer_to_f64(magnitude: u64, negative: bool) -> f64 {
+    let kept = if magnitude >> 53 == 0 {
+        magnitude
+    } else {
+        let dropped = magnitude & 0x7ff;
+        (magnitude - dropped) | (((dropped != 0) as u64) << 11)
+    };
+    if negative {
+        -(kept as f64)
+    } else {
+        kept as f64
+    }
+}
+
 impl Scalar {
     pub fn new<T: Into<Self>>(value: T) -> Self {
         value.into()
@@ -513,20 +540,20 @@ impl Scalar {
             Self::F16(x) => F8E4M3::from_f32(x.to_f32()),
             Self::F32(x) => F8E4M3::from_f32(x),
             #[cfg(feature = "f64")]
-            Self::F64(x) => F8E4M3::from_f32(x as f32),
+            Self::F64(x) => F8E4M3::from_f32(round_to_odd(x)),
             Self::U8(x) => F8E4M3::from_f32(x as f32),
             #[cfg(feature = "u16")]
             Self::U16(x) => F8E4M3::from_f32(x as f32),
 
-            Self::U32(x) => F8E4M3::from_f32(x as f32),
+            Self::U32(x) => F8E4M3::from_f32(round_to_odd(x as f64)),
             #[cfg(feature = "u64")]
-            Self::U64(x) => F8E4M3::from_f32(x as f32),
+            Self::U64(x) => F8E4M3::from_f32(round_to_odd(integer_to_f64(x, false))),
             Self::I8(x) => F8E4M3::from_f32(x as f32),
             #[cfg(feature = "i16")]
             Self::I16(x) => F8E4M3::from_f32(x as f32),
-            Self::I32(x) => F8E4M3::from_f32(x as f32),
+            Self::I32(x) => F8E4M3::from_f32(round_to_odd(x as f64)),
             #[cfg(feature = "i64")]
-            Self::I64(x) => F8E4M3::from_f32(x as f32),
+            Self::I64(x) => F8E4M3::from_f32(round_to_odd(integer_to_f64(x.unsigned_abs(), x < 0))),
         }
     }
 
@@ -541,20 +568,20 @@ impl Scalar {
             Self::F16(x) => F8E5M2::from_f32(x.to_f32()),
             Self::F32(x) => F8E5M2::from_f32(x),
             #[cfg(feature = "f64")]
-            Self::F64(x) => F8E5M2::from_f32(x as f32),
+            Self::F64(x) => F8E5M2::from_f32(round_to_odd(x)),
             Self::U8(x) => F8E5M2::from_f32(x as f32),
             #[cfg(feature = "u16")]
             Self::U16(x) => F8E5M2::from_f32(x as f32),
 
-            Self::U32(x) => F8E5M2::from_f32(x as f32),
+            Self::U32(x) => F8E5M2::from_f32(round_to_odd(x as f64)),
             #[cfg(feature = "u64")]
-            Self::U64(x) => F8E5M2::from_f32(x as f32),
+            Self::U64(x) => F8E5M2::from_f32(round_to_odd(integer_to_f64(x, false))),
             Self::I8(x) => F8E5M2::from_f32(x as f32),
             #[cfg(feature = "i16")]
             Self::I16(x) => F8E5M2::from_f32(x as f32),
-            Self::I32(x) => F8E5M2::from_f32(x as f32),
+            Self::I32(x) => F8E5M2::from_f32(round_to_odd(x as f64)),
             #[cfg(feature = "i64")]
-            Self::I64(x) => F8E5M2::from_f32(x as f32),
+            Self::I64(x) => F8E5M2::from_f32(round_to_odd(integer_to_f64(x.unsigned_abs(), x < 0))),
         }
     }
 
@@ -569,20 +596,20 @@ impl Scalar {
             Self::F16(x) => bf16::from_f32(x.to_f32()),
             Self::F32(x) => bf16::from_f32(x),
             #[cfg(feature = "f64")]
-            Self::F64(x) => bf16::from_f32(x as f32),
+            Self::F64(x) => bf16::from_f32(round_to_odd(x)),
             Self::U8(x) => bf16::from_f32(x as f32),
             #[cfg(feature = "u16")]
             Self::U16(x) => bf16::from_f32(x as f32),
 
-            Self::U32(x) => bf16::from_f32(x as f32),
+            Self::U32(x) => bf16::from_f32(round_to_odd(x as f64)),
             #[cfg(feature = "u64")]
-            Self::U64(x) => bf16::from_f32(x as f32),
+            Self::U64(x) => bf16::from_f32(round_to_odd(integer_to_f64(x, false))),
             Self::I8(x) => bf16::from_f32(x as f32),
             #[cfg(feature = "i16")]
             Self::I16(x) => bf16::from_f32(x as f32),
-            Self::I32(x) => bf16::from_f32(x as f32),
+            Self::I32(x) => bf16::from_f32(round_to_odd(x as f64)),
             #[cfg(feature = "i64")]
-            Self::I64(x) => bf16::from_f32(x as f32),
+            Self::I64(x) => bf16::from_f32(round_to_odd(integer_to_f64(x.unsigned_abs(), x < 0))),
         }
     }
 
@@ -597,20 +624,20 @@ impl Scalar {
             Self::F16(x) => x,
             Self::F32(x) => f16::from_f32(x),
             #[cfg(feature = "f64")]
-            Self::F64(x) => f16::from_f32(x as f32),
+            Self::F64(x) => f16::from_f32(round_to_odd(x)),
             Self::U8(x) => f16::from_f32(x as f32),
             #[cfg(feature = "u16")]
             Self::U16(x) => f16::from_f32(x as f32),
 
-            Self::U32(x) => f16::from_f32(x as f32),
+            Self::U32(x) => f16::from_f32(round_to_odd(x as f64)),
             #[cfg(feature = "u64")]
-            Self::U64(x) => f16::from_f32(x as f32),
+            Self::U64(x) => f16::from_f32(round_to_odd(integer_to_f64(x, false))),
             Self::I8(x) => f16::from_f32(x as f32),
             #[cfg(feature = "i16")]
             Self::I16(x) => f16::from_f32(x as f32),
-            Self::I32(x) => f16::from_f32(x as f32),
+            Self::I32(x) => f16::from_f32(round_to_odd(x as f64)),
             #[cfg(feature = "i64")]
-            Self::I64(x) => f16::from_f32(x as f32),
+            Self::I64(x) => f16::from_f32(round_to_odd(integer_to_f64(x.unsigned_abs(), x < 0))),
         }
     }
 
-- 
2.43.0


From 7c045bcd51bdaeb402ead2cb941b783d19571088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 35/89] fix: norm of a zero vector has a zero subgradient for
 every p

---
 crates/hodu_core/src/tensor/ops/reduce.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index c70c6c6..ae648ae 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -92,10 +92,13 @@ impl Tensor {
             2.0 => self.l2_norm(dims, keep_dim),
             _ => {
                 let p_dtype = p_scalar.to_dtype(self.dtype());
-                self.abs()?
-                    .pow_scalar(p_dtype)?
-                    .sum(dims, keep_dim)?
-                    .pow_scalar(Scalar::one(self.dtype()) / p_dtype)
+                let total = self.abs()?.pow_scalar(p_dtype)?.sum(dims, keep_dim)?;
+                // The root has no derivative at zero, where zero is a subgradient of the norm
+                let zero = total.eq_scalar(Scalar::zero(self.dtype()))?;
+                total
+                    .masked_fill(&zero, Scalar::one(self.dtype()))?
+                    .pow_scalar(Scalar::one(self.dtype()) / p_dtype)?
+                    .masked_fill(&zero, Scalar::zero(self.dtype()))
             },
         }
     }
-- 
2.43.0


From 45b173e288ebe8f474c93a4103a1ef76e621f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 36/89] fix: kernels size their index arrays by the rank (stack
 overflow beyond 16 dimensions)

---
 .../kernels/ops_concat_split.c                |   6 +-
 .../hodu_cpu_kernels/kernels/ops_indexing.c   |  20 ++--
 crates/hodu_cpu_kernels/kernels/ops_matrix.c  |  12 +--
 crates/hodu_cpu_kernels/kernels/ops_reduce.c  | 100 +++++++++---------
 crates/hodu_cpu_kernels/kernels/ops_scan.c    |   4 +-
 .../hodu_cpu_kernels/kernels/ops_windowing.c  |  12 +--
 6 files changed, 77 insertions(+), 77 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_concat_split.c b/crates/hodu_cpu_kernels/kernels/ops_concat_split.c
index abe4f33..988cf19 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_concat_split.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_concat_split.c
@@ -44,7 +44,7 @@
         /* Process each output element */                                                          \
         for (size_t id = 0; id < num_els; id++) {                                                  \
             /* Calculate output indices from flat id */                                            \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[num_dims + 1];                                                   \
             size_t temp = id;                                                                      \
             for (int d = (int)num_dims - 1; d >= 0; d--) {                                         \
                 output_indices[d] = temp % output_shape[d];                                        \
@@ -135,7 +135,7 @@ CONCAT_OP(uint64_t, concat_u64)
         const size_t split_offset = metadata[2 + 2 * num_dims + 3];                                \
                                                                                                    \
         /* Calculate output shape */                                                               \
-        size_t output_shape[16];                                                                   \
+        size_t output_shape[num_dims + 1];                                                         \
         for (size_t i = 0; i < num_dims; i++) {                                                    \
             output_shape[i] = (i == split_dim) ? output_size_on_dim : input_shape[i];              \
         }                                                                                          \
@@ -143,7 +143,7 @@ CONCAT_OP(uint64_t, concat_u64)
         /* Process each output element */                                                          \
         for (size_t id = 0; id < num_els; id++) {                                                  \
             /* Calculate output indices from flat id */                                            \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[num_dims + 1];                                                   \
             size_t temp = id;                                                                      \
             for (int d = (int)num_dims - 1; d >= 0; d--) {                                         \
                 output_indices[d] = temp % output_shape[d];                                        \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index a69e659..abb5237 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -383,7 +383,7 @@ GATHER_OP(uint64_t, gather_u64)
                 continue;                                                                          \
             }                                                                                      \
                                                                                                    \
-            size_t multi_idx[32];                                                                  \
+            size_t multi_idx[num_dims + 1];                                                        \
             temp = id;                                                                             \
             for (int d = (int)num_dims - 1; d >= 0; d--) {                                         \
                 multi_idx[d] = temp % src_shape[d];                                                \
@@ -500,7 +500,7 @@ SCATTER_OP(uint64_t, scatter_u64)
                 continue;                                                                          \
             }                                                                                      \
                                                                                                    \
-            size_t multi_idx[32];                                                                  \
+            size_t multi_idx[num_dims + 1];                                                        \
             temp = id;                                                                             \
             for (int d = (int)num_dims - 1; d >= 0; d--) {                                         \
                 multi_idx[d] = temp % src_shape[d];                                                \
@@ -587,7 +587,7 @@ SCATTER_OP(uint64_t, scatter_u64)
                 continue;                                                                          \
             }                                                                                      \
                                                                                                    \
-            size_t multi_idx[32];                                                                  \
+            size_t multi_idx[num_dims + 1];                                                        \
             temp = id;                                                                             \
             for (int d = (int)num_dims - 1; d >= 0; d--) {                                         \
                 multi_idx[d] = temp % src_shape[d];                                                \
@@ -705,7 +705,7 @@ SCATTER_ADD_OP(uint64_t, scatter_add_u64)
                 continue;                                                                          \
             }                                                                                      \
                                                                                                    \
-            size_t multi_idx[32];                                                                  \
+            size_t multi_idx[num_dims + 1];                                                        \
             temp = id;                                                                             \
             for (int d = (int)num_dims - 1; d >= 0; d--) {                                         \
                 multi_idx[d] = temp % src_shape[d];                                                \
@@ -823,7 +823,7 @@ SCATTER_MAX_OP(uint64_t, scatter_max_u64, SCATTER_VALUE)
                 continue;                                                                          \
             }                                                                                      \
                                                                                                    \
-            size_t multi_idx[32];                                                                  \
+            size_t multi_idx[num_dims + 1];                                                        \
             temp = id;                                                                             \
             for (int d = (int)num_dims - 1; d >= 0; d--) {                                         \
                 multi_idx[d] = temp % src_shape[d];                                                \
@@ -915,14 +915,14 @@ SCATTER_MIN_OP(uint64_t, scatter_min_u64, SCATTER_VALUE)
         }                                                                                          \
                                                                                                    \
         /* Compute strides for output tensor (row-major) */                                        \
-        size_t output_strides[32];                                                                 \
+        size_t output_strides[num_dims_out + 1];                                                   \
         output_strides[num_dims_out - 1] = 1;                                                      \
         for (int d = (int)num_dims_out - 2; d >= 0; d--) {                                         \
             output_strides[d] = output_strides[d + 1] * output_shape[d + 1];                       \
         }                                                                                          \
                                                                                                    \
         /* Compute input shape (output shape without the axis dimension) */                        \
-        size_t input_shape[32];                                                                    \
+        size_t input_shape[num_dims_out + 1];                                                      \
         size_t num_dims_in = num_dims_out - 1;                                                     \
         for (size_t d = 0, id = 0; d < num_dims_out; d++) {                                        \
             if (d != axis) {                                                                       \
@@ -945,7 +945,7 @@ SCATTER_MIN_OP(uint64_t, scatter_min_u64, SCATTER_VALUE)
             }                                                                                      \
                                                                                                    \
             /* Compute multi-dimensional input indices from flat input index */                    \
-            size_t input_indices[32];                                                              \
+            size_t input_indices[num_dims_out + 1];                                                \
             size_t temp = i;                                                                       \
             for (int d = (int)num_dims_in - 1; d >= 0; d--) {                                      \
                 input_indices[d] = temp % input_shape[d];                                          \
@@ -1056,7 +1056,7 @@ ONEHOT_OP(uint64_t, onehot_u64, 1, 0)
             /* Compute flat index from strided layout */                                           \
             size_t flat_idx = input_offset;                                                        \
             size_t temp = id;                                                                      \
-            size_t multi_idx[32];                                                                  \
+            size_t multi_idx[num_dims + 1];                                                        \
             for (int d = (int)num_dims - 1; d >= 0; d--) {                                         \
                 multi_idx[d] = temp % input_shape[d];                                              \
                 temp /= input_shape[d];                                                            \
@@ -1404,7 +1404,7 @@ UNIQUE_OP_INT(uint64_t, unique_u64)
                                                                                                    \
                     for (size_t inner = 0; inner < slice_size; inner++) {                          \
                         /* Compute multi-dim indices */                                            \
-                        size_t multi_idx[32];                                                      \
+                        size_t multi_idx[num_dims + 1];                                            \
                                                                                                    \
                         /* Outer indices */                                                        \
                         size_t temp = outer;                                                       \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix.c b/crates/hodu_cpu_kernels/kernels/ops_matrix.c
index affad47..510f45e 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix.c
@@ -149,20 +149,20 @@
                 size_t i = mn / N;                                                                 \
                 size_t j = mn % N;                                                                 \
                                                                                                    \
-                size_t batch_indices[16];                                                          \
+                size_t batch_indices[batch_ndim + 1];                                              \
                 size_t temp = batch_idx;                                                           \
                 for (int d = (int)batch_ndim - 1; d >= 0; d--) {                                   \
                     batch_indices[d] = temp % batch_shape[d];                                      \
                     temp /= batch_shape[d];                                                        \
                 }                                                                                  \
                                                                                                    \
-                size_t lhs_batch_indices[16];                                                      \
+                size_t lhs_batch_indices[lhs_batch_ndim + 1];                                      \
                 for (size_t d = 0; d < lhs_batch_ndim; d++) {                                      \
                     size_t batch_dim_idx = batch_ndim - lhs_batch_ndim + d;                        \
                     lhs_batch_indices[d] = (lhs_shape[d] == 1) ? 0 : batch_indices[batch_dim_idx]; \
                 }                                                                                  \
                                                                                                    \
-                size_t rhs_batch_indices[16];                                                      \
+                size_t rhs_batch_indices[rhs_batch_ndim + 1];                                      \
                 for (size_t d = 0; d < rhs_batch_ndim; d++) {                                      \
                     size_t batch_dim_idx = batch_ndim - rhs_batch_ndim + d;                        \
                     rhs_batch_indices[d] = (rhs_shape[d] == 1) ? 0 : batch_indices[batch_dim_idx]; \
@@ -295,20 +295,20 @@
                 size_t i = mn / N;                                                                 \
                 size_t j = mn % N;                                                                 \
                                                                                                    \
-                size_t batch_indices[16];                                                          \
+                size_t batch_indices[batch_ndim + 1];                                              \
                 size_t temp = batch_idx;                                                           \
                 for (int d = (int)batch_ndim - 1; d >= 0; d--) {                                   \
                     batch_indices[d] = temp % batch_shape[d];                                      \
                     temp /= batch_shape[d];                                                        \
                 }                                                                                  \
                                                                                                    \
-                size_t lhs_batch_indices[16];                                                      \
+                size_t lhs_batch_indices[lhs_batch_ndim + 1];                                      \
                 for (size_t d = 0; d < lhs_batch_ndim; d++) {                                      \
                     size_t batch_dim_idx = batch_ndim - lhs_batch_ndim + d;                        \
                     lhs_batch_indices[d] = (lhs_shape[d] == 1) ? 0 : batch_indices[batch_dim_idx]; \
                 }                                                                                  \
                                                                                                    \
-                size_t rhs_batch_indices[16];                                                      \
+                size_t rhs_batch_indices[rhs_batch_ndim + 1];                                      \
                 for (size_t d = 0; d < rhs_batch_ndim; d++) {                                      \
                     size_t batch_dim_idx = batch_ndim - rhs_batch_ndim + d;                        \
                     rhs_batch_indices[d] = (rhs_shape[d] == 1) ? 0 : batch_indices[batch_dim_idx]; \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_reduce.c b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
index 7609c27..fc35581 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_reduce.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
@@ -71,14 +71,14 @@
         for (size_t output_idx = 0; output_idx < num_els; output_idx++) {                          \
             OUT_TYPE acc = INIT_VAL;                                                               \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -154,14 +154,14 @@ void hodu_cpu_sum_f32(const void *input_ptr, void *output_ptr, const size_t *met
     for (size_t output_idx = 0; output_idx < num_els; output_idx++) {
         f32_t acc = 0.0f;
 
-        size_t output_indices[16];
+        size_t output_indices[output_shape_len + 1];
         size_t temp = output_idx;
         for (int d = (int)output_shape_len - 1; d >= 0; d--) {
             output_indices[d] = temp % output_shape[d];
             temp /= output_shape[d];
         }
 
-        size_t input_indices[16];
+        size_t input_indices[num_dims + 1];
         if (keep_dim) {
             for (size_t i = 0; i < num_dims; i++) {
                 input_indices[i] = output_indices[i];
@@ -261,14 +261,14 @@ void hodu_cpu_sum_f64(const void *input_ptr, void *output_ptr, const size_t *met
     for (size_t output_idx = 0; output_idx < num_els; output_idx++) {
         f64_t acc = 0.0;
 
-        size_t output_indices[16];
+        size_t output_indices[output_shape_len + 1];
         size_t temp = output_idx;
         for (int d = (int)output_shape_len - 1; d >= 0; d--) {
             output_indices[d] = temp % output_shape[d];
             temp /= output_shape[d];
         }
 
-        size_t input_indices[16];
+        size_t input_indices[num_dims + 1];
         if (keep_dim) {
             for (size_t i = 0; i < num_dims; i++) {
                 input_indices[i] = output_indices[i];
@@ -382,14 +382,14 @@ void hodu_cpu_max_f32(const void *input_ptr, void *output_ptr, const size_t *met
     for (size_t output_idx = 0; output_idx < num_els; output_idx++) {
         f32_t acc = -INFINITY;
 
-        size_t output_indices[16];
+        size_t output_indices[output_shape_len + 1];
         size_t temp = output_idx;
         for (int d = (int)output_shape_len - 1; d >= 0; d--) {
             output_indices[d] = temp % output_shape[d];
             temp /= output_shape[d];
         }
 
-        size_t input_indices[16];
+        size_t input_indices[num_dims + 1];
         if (keep_dim) {
             for (size_t i = 0; i < num_dims; i++) {
                 input_indices[i] = output_indices[i];
@@ -487,14 +487,14 @@ void hodu_cpu_max_f64(const void *input_ptr, void *output_ptr, const size_t *met
     for (size_t output_idx = 0; output_idx < num_els; output_idx++) {
         f64_t acc = -INFINITY;
 
-        size_t output_indices[16];
+        size_t output_indices[output_shape_len + 1];
         size_t temp = output_idx;
         for (int d = (int)output_shape_len - 1; d >= 0; d--) {
             output_indices[d] = temp % output_shape[d];
             temp /= output_shape[d];
         }
 
-        size_t input_indices[16];
+        size_t input_indices[num_dims + 1];
         if (keep_dim) {
             for (size_t i = 0; i < num_dims; i++) {
                 input_indices[i] = output_indices[i];
@@ -606,14 +606,14 @@ void hodu_cpu_min_f32(const void *input_ptr, void *output_ptr, const size_t *met
     for (size_t output_idx = 0; output_idx < num_els; output_idx++) {
         f32_t acc = INFINITY;
 
-        size_t output_indices[16];
+        size_t output_indices[output_shape_len + 1];
         size_t temp = output_idx;
         for (int d = (int)output_shape_len - 1; d >= 0; d--) {
             output_indices[d] = temp % output_shape[d];
             temp /= output_shape[d];
         }
 
-        size_t input_indices[16];
+        size_t input_indices[num_dims + 1];
         if (keep_dim) {
             for (size_t i = 0; i < num_dims; i++) {
                 input_indices[i] = output_indices[i];
@@ -711,14 +711,14 @@ void hodu_cpu_min_f64(const void *input_ptr, void *output_ptr, const size_t *met
     for (size_t output_idx = 0; output_idx < num_els; output_idx++) {
         f64_t acc = INFINITY;
 
-        size_t output_indices[16];
+        size_t output_indices[output_shape_len + 1];
         size_t temp = output_idx;
         for (int d = (int)output_shape_len - 1; d >= 0; d--) {
             output_indices[d] = temp % output_shape[d];
             temp /= output_shape[d];
         }
 
-        size_t input_indices[16];
+        size_t input_indices[num_dims + 1];
         if (keep_dim) {
             for (size_t i = 0; i < num_dims; i++) {
                 input_indices[i] = output_indices[i];
@@ -856,14 +856,14 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
             TYPE sum = 0;                                                                          \
             TYPE sum_squares = 0;                                                                  \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -958,14 +958,14 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
             TYPE sum = ZERO;                                                                       \
             TYPE sum_squares = ZERO;                                                               \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -1075,14 +1075,14 @@ REDUCE_STD_OP(f64_t, f64)
             TYPE sum = 0;                                                                          \
             TYPE sum_squares = 0;                                                                  \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -1175,14 +1175,14 @@ REDUCE_STD_OP(f64_t, f64)
             TYPE sum = ZERO;                                                                       \
             TYPE sum_squares = ZERO;                                                               \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -1273,14 +1273,14 @@ void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *met
         f32_t sum = 0.0f;
         f32_t sum_squares = 0.0f;
 
-        size_t output_indices[16];
+        size_t output_indices[output_shape_len + 1];
         size_t temp = output_idx;
         for (int d = (int)output_shape_len - 1; d >= 0; d--) {
             output_indices[d] = temp % output_shape[d];
             temp /= output_shape[d];
         }
 
-        size_t input_indices[16];
+        size_t input_indices[num_dims + 1];
         if (keep_dim) {
             for (size_t i = 0; i < num_dims; i++) {
                 input_indices[i] = output_indices[i];
@@ -1394,14 +1394,14 @@ void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *met
         f64_t sum = 0.0;
         f64_t sum_squares = 0.0;
 
-        size_t output_indices[16];
+        size_t output_indices[output_shape_len + 1];
         size_t temp = output_idx;
         for (int d = (int)output_shape_len - 1; d >= 0; d--) {
             output_indices[d] = temp % output_shape[d];
             temp /= output_shape[d];
         }
 
-        size_t input_indices[16];
+        size_t input_indices[num_dims + 1];
         if (keep_dim) {
             for (size_t i = 0; i < num_dims; i++) {
                 input_indices[i] = output_indices[i];
@@ -1594,14 +1594,14 @@ REDUCE_MEAN_OP(f64_t, f64)
         for (size_t output_idx = 0; output_idx < num_els; output_idx++) {                          \
             TYPE sum_squares = 0;                                                                  \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -1682,14 +1682,14 @@ REDUCE_MEAN_OP(f64_t, f64)
         for (size_t output_idx = 0; output_idx < num_els; output_idx++) {                          \
             TYPE sum_squares = ZERO;                                                               \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -1765,14 +1765,14 @@ void hodu_cpu_norm_f32(const void *input_ptr, void *output_ptr, const size_t *me
     for (size_t output_idx = 0; output_idx < num_els; output_idx++) {
         f32_t sum_squares = 0.0f;
 
-        size_t output_indices[16];
+        size_t output_indices[output_shape_len + 1];
         size_t temp = output_idx;
         for (int d = (int)output_shape_len - 1; d >= 0; d--) {
             output_indices[d] = temp % output_shape[d];
             temp /= output_shape[d];
         }
 
-        size_t input_indices[16];
+        size_t input_indices[num_dims + 1];
         if (keep_dim) {
             for (size_t i = 0; i < num_dims; i++) {
                 input_indices[i] = output_indices[i];
@@ -1870,14 +1870,14 @@ void hodu_cpu_norm_f64(const void *input_ptr, void *output_ptr, const size_t *me
     for (size_t output_idx = 0; output_idx < num_els; output_idx++) {
         f64_t sum_squares = 0.0;
 
-        size_t output_indices[16];
+        size_t output_indices[output_shape_len + 1];
         size_t temp = output_idx;
         for (int d = (int)output_shape_len - 1; d >= 0; d--) {
             output_indices[d] = temp % output_shape[d];
             temp /= output_shape[d];
         }
 
-        size_t input_indices[16];
+        size_t input_indices[num_dims + 1];
         if (keep_dim) {
             for (size_t i = 0; i < num_dims; i++) {
                 input_indices[i] = output_indices[i];
@@ -2052,14 +2052,14 @@ REDUCE_LOGSUM_OP(f64_t, f64)
         }                                                                                          \
                                                                                                    \
         for (size_t output_idx = 0; output_idx < num_els; output_idx++) {                          \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -2156,14 +2156,14 @@ REDUCE_LOGSUM_OP(f64_t, f64)
         }                                                                                          \
                                                                                                    \
         for (size_t output_idx = 0; output_idx < num_els; output_idx++) {                          \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -2277,14 +2277,14 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
             int32_t max_idx = 0;                                                                   \
             bool first = true;                                                                     \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -2370,14 +2370,14 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
             int32_t max_idx = 0;                                                                   \
             bool first = true;                                                                     \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -2471,14 +2471,14 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
             int32_t min_idx = 0;                                                                   \
             bool first = true;                                                                     \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -2564,14 +2564,14 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
             int32_t min_idx = 0;                                                                   \
             bool first = true;                                                                     \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -2700,14 +2700,14 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
         for (size_t output_idx = 0; output_idx < num_els; output_idx++) {                          \
             bool result = false;                                                                   \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
@@ -2795,14 +2795,14 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
         for (size_t output_idx = 0; output_idx < num_els; output_idx++) {                          \
             bool result = true;                                                                    \
                                                                                                    \
-            size_t output_indices[16];                                                             \
+            size_t output_indices[output_shape_len + 1];                                           \
             size_t temp = output_idx;                                                              \
             for (int d = (int)output_shape_len - 1; d >= 0; d--) {                                 \
                 output_indices[d] = temp % output_shape[d];                                        \
                 temp /= output_shape[d];                                                           \
             }                                                                                      \
                                                                                                    \
-            size_t input_indices[16];                                                              \
+            size_t input_indices[num_dims + 1];                                                    \
             if (keep_dim) {                                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     input_indices[i] = output_indices[i];                                          \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_scan.c b/crates/hodu_cpu_kernels/kernels/ops_scan.c
index c5a53f1..598a99b 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_scan.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_scan.c
@@ -18,7 +18,7 @@
         }                                                                                          \
                                                                                                    \
         /* Compute output strides (contiguous row-major) */                                        \
-        size_t out_strides[16];                                                                    \
+        size_t out_strides[num_dims];                                                              \
         out_strides[num_dims - 1] = 1;                                                             \
         for (size_t d = num_dims - 1; d > 0; d--) {                                                \
             out_strides[d - 1] = out_strides[d] * shape[d];                                        \
@@ -92,7 +92,7 @@ IMPL_CUMSUM(i64_t, i64)
         }                                                                                          \
                                                                                                    \
         /* Compute output strides (contiguous row-major) */                                        \
-        size_t out_strides[16];                                                                    \
+        size_t out_strides[num_dims];                                                              \
         out_strides[num_dims - 1] = 1;                                                             \
         for (size_t d = num_dims - 1; d > 0; d--) {                                                \
             out_strides[d - 1] = out_strides[d] * shape[d];                                        \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_windowing.c b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
index 183e749..53b4984 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_windowing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
@@ -62,7 +62,7 @@
         const size_t *output_shape = metadata + 2 + 6 * num_dims + 1;                              \
                                                                                                    \
         for (size_t out_idx = 0; out_idx < num_els; out_idx++) {                                   \
-            size_t out_coords[16];                                                                 \
+            size_t out_coords[num_dims + 1];                                                       \
             size_t tmp = out_idx;                                                                  \
             for (int i = (int)num_dims - 1; i >= 0; i--) {                                         \
                 out_coords[i] = tmp % output_shape[i];                                             \
@@ -77,7 +77,7 @@
             }                                                                                      \
                                                                                                    \
             for (size_t win_idx = 0; win_idx < window_size; win_idx++) {                           \
-                size_t window_coords[16];                                                          \
+                size_t window_coords[num_dims + 1];                                                \
                 size_t tmp_win = win_idx;                                                          \
                 for (int i = (int)num_dims - 1; i >= 0; i--) {                                     \
                     window_coords[i] = tmp_win % window_shape[i];                                  \
@@ -85,7 +85,7 @@
                 }                                                                                  \
                                                                                                    \
                 bool in_bounds = true;                                                             \
-                size_t input_coords[16];                                                           \
+                size_t input_coords[num_dims + 1];                                                 \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     size_t padded_pos = out_coords[i] * strides[i] + window_coords[i];             \
                     size_t pad_before = padding[i * 2];                                            \
@@ -149,7 +149,7 @@
         const size_t *output_shape = metadata + 2 + 6 * num_dims + 1;                              \
                                                                                                    \
         for (size_t out_idx = 0; out_idx < num_els; out_idx++) {                                   \
-            size_t out_coords[16];                                                                 \
+            size_t out_coords[num_dims + 1];                                                       \
             size_t tmp = out_idx;                                                                  \
             for (int i = (int)num_dims - 1; i >= 0; i--) {                                         \
                 out_coords[i] = tmp % output_shape[i];                                             \
@@ -163,7 +163,7 @@
             }                                                                                      \
                                                                                                    \
             for (size_t win_idx = 0; win_idx < window_size; win_idx++) {                           \
-                size_t window_coords[16];                                                          \
+                size_t window_coords[num_dims + 1];                                                \
                 size_t tmp_win = win_idx;                                                          \
                 for (int i = (int)num_dims - 1; i >= 0; i--) {                                     \
                     window_coords[i] = tmp_win % window_shape[i];                                  \
@@ -171,7 +171,7 @@
                 }                                                                                  \
                                                                                                    \
                 bool in_bounds = true;                                                             \
-                size_t input_coords[16];                                                           \
+                size_t input_coords[num_dims + 1];                                                 \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     size_t padded_pos = out_coords[i] * strides[i] + window_coords[i];             \
                     size_t pad_before = padding[i * 2];                                            \
-- 
2.43.0


From 2703d97a3fbdedba074d917d7b4dfe944b1b561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 37/89] fix: relu has kernels for the signed integers its type
 check admits

---
 crates/hodu_cpu_kernels/kernels/ops_unary.c      | 4 ++++
 crates/hodu_cpu_kernels/src/kernels/ops_unary.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 5bfb36d..ee78924 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -1647,6 +1647,7 @@ IMPL_UNARY_CMP_SCALAR_TO_BOOL(u64_t, u64, ge_scalar, x >= const_val)
 
 // I8
 IMPL_UNARY_OP(i8_t, i8, neg, -x)
+IMPL_UNARY_OP(i8_t, i8, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i8_t, i8, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i8_t, i8, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i8_t, i8, softsign, (i8_t)((float)x / (1.0f + fabsf((float)x))))
@@ -1671,6 +1672,7 @@ IMPL_UNARY_CMP_SCALAR_TO_BOOL(i8_t, i8, ge_scalar, x >= const_val)
 
 // I16
 IMPL_UNARY_OP(i16_t, i16, neg, -x)
+IMPL_UNARY_OP(i16_t, i16, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i16_t, i16, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i16_t, i16, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i16_t, i16, softsign, (i16_t)((float)x / (1.0f + fabsf((float)x))))
@@ -1695,6 +1697,7 @@ IMPL_UNARY_CMP_SCALAR_TO_BOOL(i16_t, i16, ge_scalar, x >= const_val)
 
 // I32
 IMPL_UNARY_OP(i32_t, i32, neg, -x)
+IMPL_UNARY_OP(i32_t, i32, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i32_t, i32, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i32_t, i32, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i32_t, i32, softsign, (i32_t)((float)x / (1.0f + fabsf((float)x))))
@@ -1719,6 +1722,7 @@ IMPL_UNARY_CMP_SCALAR_TO_BOOL(i32_t, i32, ge_scalar, x >= const_val)
 
 // I64
 IMPL_UNARY_OP(i64_t, i64, neg, -x)
+IMPL_UNARY_OP(i64_t, i64, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i64_t, i64, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i64_t, i64, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i64_t, i64, softsign, (i64_t)((double)x / (1.0 + fabs((double)x))))
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
index 93c9d61..f6bdd21 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
@@ -330,10 +330,10 @@ declare_and_dispatch_unary!(
         abs, sign, softsign, square, sqrt, recip, logical_not
     ],
     signed_types: [
-        neg
+        neg, relu
     ],
     float_types: [
-        relu, sigmoid, hardsigmoid, gelu, softplus, silu, hardsilu, mish, selu, celu,
+        sigmoid, hardsigmoid, gelu, softplus, silu, hardsilu, mish, selu, celu,
         sin, cos, tan, asin, acos, atan,
         sinh, cosh, tanh, asinh, acosh, atanh,
         exp, exp2, exp10, ln, log2, log10,
-- 
2.43.0


From fe23c367ce506ff3e261f120af9a2749b7ff13cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 38/89] fix: einsum, det, trace and inv of an empty batch
 compute nothing instead of dividing by zero

---
 crates/hodu_core/src/op_metadatas.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 9bc01df..dde5e73 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -319,7 +319,6 @@ pub fn det_metadata(layout: &Layout) -> HoduResult<Vec<usize>> {
 
     // Compute batch size
     let batch_size: usize = shape.dims()[..ndim - 2].iter().product();
-    let batch_size = if batch_size == 0 { 1 } else { batch_size };
 
     let mut metadata = Vec::with_capacity(3 + 2 * ndim + 1);
 
@@ -372,7 +371,6 @@ pub fn inv_metadata(layout: &Layout) -> HoduResult<Vec<usize>> {
 
     // Compute batch size
     let batch_size: usize = shape.dims()[..ndim - 2].iter().product();
-    let batch_size = if batch_size == 0 { 1 } else { batch_size };
 
     let mut metadata = Vec::with_capacity(3 + 2 * ndim + 1);
 
@@ -425,7 +423,6 @@ pub fn trace_metadata(layout: &Layout) -> HoduResult<Vec<usize>> {
 
     // Compute batch size
     let batch_size: usize = shape.dims()[..ndim - 2].iter().product();
-    let batch_size = if batch_size == 0 { 1 } else { batch_size };
 
     let mut metadata = Vec::with_capacity(3 + 2 * ndim + 1);
 
@@ -1501,7 +1498,7 @@ pub fn einsum_metadata(
     let num_total_indices = parsed.all_indices.len();
     let num_contraction_indices = parsed.contraction_indices.len();
     let output_ndim = output_layout.ndim();
-    let num_output_els = output_layout.size().max(1);
+    let num_output_els = output_layout.size();
 
     let mut metadata = vec![
         num_output_els,
-- 
2.43.0


From 98931a1cbf584a23079bf2c993701f5ae63a80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 39/89] fix: sum_to_shape refuses a target the tensor cannot be
 summed to

---
 crates/hodu_core/src/tensor/ops/reduce.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index ae648ae..bf90283 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -25,6 +25,13 @@ impl Tensor {
         if current_dims == target_dims {
             return Ok(self.clone());
         }
+        if !target_shape.can_broadcast_to(&current_shape) {
+            return Err(HoduError::incompatible_shapes(
+                current_shape,
+                target_shape,
+                Op::Reduce(ReduceOp::Sum),
+            ));
+        }
 
         let mut result = self.clone();
 
-- 
2.43.0


From 3224d1677b5d0d758010b991605bacb3db56f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 40/89] fix: chunk with more chunks than elements neither
 overflows nor loops endlessly

---
 crates/hodu_core/src/tensor/ops/concat_split.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/concat_split.rs b/crates/hodu_core/src/tensor/ops/concat_split.rs
index 902c0da..02dd052 100644
--- a/crates/hodu_core/src/tensor/ops/concat_split.rs
+++ b/crates/hodu_core/src/tensor/ops/concat_split.rs
@@ -254,13 +254,9 @@ impl Tensor {
         }
 
         let chunk_size = dim_size.div_ceil(chunks);
-        let sizes: Vec<usize> = (0..chunks)
-            .map(|i| {
-                let start = (i * chunk_size).min(dim_size);
-                let end = ((i + 1) * chunk_size).min(dim_size);
-                end - start
-            })
-            .filter(|&s| s > 0)
+        let sizes: Vec<usize> = (0..dim_size)
+            .step_by(chunk_size.max(1))
+            .map(|start| chunk_size.min(dim_size - start))
             .collect();
 
         self.split(&sizes, dim_scalar)
-- 
2.43.0


From 6e1d00c781e6e3a92f93b1f9a1d4e341cb682dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 41/89] fix: sizes and ranges that cannot be represented are
 errors, not overflows or aborts

---
 crates/hodu_core/src/tensor/bytes.rs         |  2 +-
 crates/hodu_core/src/tensor/creation.rs      | 43 ++++++++++++--------
 crates/hodu_core/src/tensor/ops/conv.rs      | 24 ++++++++---
 crates/hodu_core/src/tensor/ops/indexing.rs  |  6 +++
 crates/hodu_core/src/tensor/ops/padding.rs   |  6 ++-
 crates/hodu_core/src/tensor/ops/resize.rs    |  1 +
 crates/hodu_core/src/tensor/ops/shape.rs     | 10 ++++-
 crates/hodu_core/src/tensor/ops/windowing.rs | 10 ++++-
 crates/hodu_core/src/types/layout.rs         |  3 +-
 crates/hodu_core/src/types/shape.rs          | 13 ++++++
 10 files changed, 89 insertions(+), 29 deletions(-)

diff --git a/crates/hodu_core/src/tensor/bytes.rs b/crates/hodu_core/src/tensor/bytes.rs
index d94592e..101be41 100644
--- a/crates/hodu_core/src/tensor/bytes.rs
+++ b/crates/hodu_core/src/tensor/bytes.rs
@@ -27,7 +27,7 @@ impl Tensor {
     /// Data is first loaded to CPU, then transferred to the target device if needed.
     pub fn from_bytes(data: &[u8], shape: impl Into<Shape>, dtype: DType, device: Device) -> HoduResult<Self> {
         let shape = shape.into();
-        let expected_size = shape.size() * dtype.size_in_bytes();
+        let expected_size = shape.checked_size()? * dtype.size_in_bytes();
 
         if data.len() != expected_size {
             return Err(HoduError::InvalidArgument(format!(
diff --git a/crates/hodu_core/src/tensor/creation.rs b/crates/hodu_core/src/tensor/creation.rs
index 144b365..c1cd1f8 100644
--- a/crates/hodu_core/src/tensor/creation.rs
+++ b/crates/hodu_core/src/tensor/creation.rs
@@ -153,9 +153,10 @@ impl Tensor {
         let shape = shape.into();
         let data_shape = Shape::from(&data_shape_vec);
 
-        if shape.size() != data_shape.size() {
+        let size = shape.checked_size()?;
+        if size != data_shape.size() {
             return Err(HoduError::SizeMismatch {
-                expected: shape.size(),
+                expected: size,
                 got: data_shape.size(),
             });
         }
@@ -185,7 +186,7 @@ impl Tensor {
         } else {
             get_runtime_device()
         };
-        let storage = BackendDevice::allocate(shape.size(), device, dtype)?;
+        let storage = BackendDevice::allocate(shape.checked_size()?, device, dtype)?;
         let layout = Layout::from_shape(&shape);
         Ok(from_storage(
             storage,
@@ -206,7 +207,7 @@ impl Tensor {
         } else {
             get_runtime_device()
         };
-        let storage = BackendDevice::zeros(shape.size(), device, dtype)?;
+        let storage = BackendDevice::zeros(shape.checked_size()?, device, dtype)?;
         let layout = Layout::from_shape(&shape);
         Ok(from_storage(
             storage,
@@ -227,8 +228,8 @@ impl Tensor {
         } else {
             get_runtime_device()
         };
+        let mut storage = BackendDevice::zeros(shape.checked_size()?, device, dtype)?;
         let layout = Layout::from_shape(&shape);
-        let mut storage = BackendDevice::zeros(shape.size(), device, dtype)?;
         storage.const_set(Scalar::one(dtype), &layout)?;
         Ok(from_storage(
             storage,
@@ -250,7 +251,7 @@ impl Tensor {
         } else {
             get_runtime_device()
         };
-        let mut storage = BackendDevice::zeros(shape.size(), device, value.dtype())?;
+        let mut storage = BackendDevice::zeros(shape.checked_size()?, device, value.dtype())?;
         let layout = Layout::from_shape(&shape);
         storage.const_set(value, &layout)?;
         Ok(from_storage(
@@ -295,22 +296,23 @@ impl Tensor {
                     "invalid range: start, end, and step are inconsistent".to_string(),
                 ));
             }
-            let size = ((end - start).abs() as u128).div_ceil(step.unsigned_abs()) as usize;
+            let size = ((end - start).abs() as u128).div_ceil(step.unsigned_abs());
+            let size = Shape::from(&[usize::try_from(size).unwrap_or(usize::MAX)]).checked_size()?;
             let tensor = int_sequence(size, dtype, |i| start + step * i as i128)?;
             return to_runtime_device(tensor);
         }
         #[cfg(feature = "f64")]
         if dtype == DType::F64 {
             let (start, end, step) = (start.to_f64(), end.to_f64(), step.to_f64());
-            if step == 0.0 {
-                return Err(HoduError::InvalidArgument("step cannot be zero".to_string()));
+            if step == 0.0 || !step.is_finite() {
+                return Err(HoduError::InvalidArgument("step must be finite and not zero".to_string()));
             }
-            if (step > 0.0 && start >= end) || (step < 0.0 && start <= end) {
+            if start.is_nan() || end.is_nan() || (step > 0.0 && start >= end) || (step < 0.0 && start <= end) {
                 return Err(HoduError::InvalidArgument(
                     "invalid range: start, end, and step are inconsistent".to_string(),
                 ));
             }
-            let size = ((end - start) / step).ceil() as usize;
+            let size = Shape::from(&[((end - start) / step).ceil() as usize]).checked_size()?;
             let tensor = f64_sequence(size, |i| start + step * i as f64)?;
             return to_runtime_device(tensor);
         }
@@ -319,10 +321,14 @@ impl Tensor {
         let end_f = end.to_f32();
         let step_f = step.to_f32();
 
-        if step_f == 0.0 {
-            return Err(HoduError::InvalidArgument("step cannot be zero".to_string()));
+        if step_f == 0.0 || !step_f.is_finite() {
+            return Err(HoduError::InvalidArgument("step must be finite and not zero".to_string()));
         }
-        if (step_f > 0.0 && start_f >= end_f) || (step_f < 0.0 && start_f <= end_f) {
+        if start_f.is_nan()
+            || end_f.is_nan()
+            || (step_f > 0.0 && start_f >= end_f)
+            || (step_f < 0.0 && start_f <= end_f)
+        {
             return Err(HoduError::InvalidArgument(
                 "invalid range: start, end, and step are inconsistent".to_string(),
             ));
@@ -334,7 +340,7 @@ impl Tensor {
             get_runtime_device()
         };
 
-        let size = ((end_f - start_f) / step_f).ceil() as usize;
+        let size = Shape::from(&[((end_f - start_f) / step_f).ceil() as usize]).checked_size()?;
         let data: Vec<f32> = (0..size).map(|i| start_f + step_f * i as f32).collect();
 
         let shape = Shape::from(&[size]);
@@ -369,6 +375,7 @@ impl Tensor {
         if steps == 0 {
             return Err(HoduError::InvalidArgument("steps must be greater than 0".to_string()));
         }
+        Shape::from(&[steps]).checked_size()?;
 
         // Integer and double precision ranges do not fit single precision
         if !dtype.is_float() {
@@ -436,7 +443,7 @@ impl Tensor {
             get_runtime_device()
         };
 
-        let mut data = vec![0.0f32; n * m];
+        let mut data = vec![0.0f32; Shape::from(&[n, m]).checked_size()?];
         let diag_len = n.min(m);
         for i in 0..diag_len {
             data[i * m + i] = 1.0;
@@ -479,7 +486,7 @@ impl Tensor {
         } else {
             DType::F32
         };
-        let storage = BackendDevice::rand_uniform(shape.size(), device, dtype, low.to_f32(), high.to_f32())?;
+        let storage = BackendDevice::rand_uniform(shape.checked_size()?, device, dtype, low.to_f32(), high.to_f32())?;
         let layout = Layout::from_shape(&shape);
         Ok(from_storage(
             storage,
@@ -509,7 +516,7 @@ impl Tensor {
         } else {
             DType::F32
         };
-        let storage = BackendDevice::randn(shape.size(), device, dtype, mean.to_f32(), std.to_f32())?;
+        let storage = BackendDevice::randn(shape.checked_size()?, device, dtype, mean.to_f32(), std.to_f32())?;
         let layout = Layout::from_shape(&shape);
         Ok(from_storage(
             storage,
diff --git a/crates/hodu_core/src/tensor/ops/conv.rs b/crates/hodu_core/src/tensor/ops/conv.rs
index bb804bb..403ddbf 100644
--- a/crates/hodu_core/src/tensor/ops/conv.rs
+++ b/crates/hodu_core/src/tensor/ops/conv.rs
@@ -148,7 +148,9 @@ impl Tensor {
         // Calculate layouts before if-else block
         let input_layout = self.layout();
         let weight_layout = weight.layout();
-        let result_layout = Layout::from_shape(&Shape::from(output_shape));
+        let result_shape = Shape::from(output_shape);
+        result_shape.checked_size()?;
+        let result_layout = Layout::from_shape(&result_shape);
         let requires_grad = (self.is_requires_grad() || weight.is_requires_grad()) && validate_requires_grad;
 
         let channels_input = input_dims[1];
@@ -272,7 +274,9 @@ impl Tensor {
         // Calculate layouts before if-else block
         let input_layout = self.layout();
         let weight_layout = weight.layout();
-        let result_layout = Layout::from_shape(&Shape::from(output_shape));
+        let result_shape = Shape::from(output_shape);
+        result_shape.checked_size()?;
+        let result_layout = Layout::from_shape(&result_shape);
         let requires_grad = (self.is_requires_grad() || weight.is_requires_grad()) && validate_requires_grad;
 
         let channels_input = input_dims[1];
@@ -401,7 +405,9 @@ impl Tensor {
         // Calculate layouts before if-else block
         let input_layout = self.layout();
         let weight_layout = weight.layout();
-        let result_layout = Layout::from_shape(&Shape::from(output_shape));
+        let result_shape = Shape::from(output_shape);
+        result_shape.checked_size()?;
+        let result_layout = Layout::from_shape(&result_shape);
         let requires_grad = (self.is_requires_grad() || weight.is_requires_grad()) && validate_requires_grad;
 
         let channels_input = input_dims[1];
@@ -535,7 +541,9 @@ impl Tensor {
         // Calculate layouts before if-else block
         let input_layout = self.layout();
         let weight_layout = weight.layout();
-        let result_layout = Layout::from_shape(&Shape::from(output_shape));
+        let result_shape = Shape::from(output_shape);
+        result_shape.checked_size()?;
+        let result_layout = Layout::from_shape(&result_shape);
         let requires_grad = (self.is_requires_grad() || weight.is_requires_grad()) && validate_requires_grad;
 
         let channels_input = input_dims[1];
@@ -670,7 +678,9 @@ impl Tensor {
         // Calculate layouts before if-else block
         let input_layout = self.layout();
         let weight_layout = weight.layout();
-        let result_layout = Layout::from_shape(&Shape::from(output_shape));
+        let result_shape = Shape::from(output_shape);
+        result_shape.checked_size()?;
+        let result_layout = Layout::from_shape(&result_shape);
         let requires_grad = (self.is_requires_grad() || weight.is_requires_grad()) && validate_requires_grad;
 
         let channels_input = input_dims[1];
@@ -818,7 +828,9 @@ impl Tensor {
         // Calculate layouts before if-else block
         let input_layout = self.layout();
         let weight_layout = weight.layout();
-        let result_layout = Layout::from_shape(&Shape::from(output_shape));
+        let result_shape = Shape::from(output_shape);
+        result_shape.checked_size()?;
+        let result_layout = Layout::from_shape(&result_shape);
         let requires_grad = (self.is_requires_grad() || weight.is_requires_grad()) && validate_requires_grad;
 
         let channels_input = input_dims[1];
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 9073e97..40d1843 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -597,6 +597,11 @@ impl Tensor {
     pub fn onehot<N: Into<Scalar>, A: Into<Scalar>>(&self, num_classes: N, axis: A, dtype: DType) -> HoduResult<Self> {
         let num_classes_scalar = num_classes.into();
         let axis_scalar = axis.into();
+        if num_classes_scalar.to_i64() < 0 {
+            return Err(HoduError::InvalidArgument(
+                "one-hot needs a non-negative number of classes".to_string(),
+            ));
+        }
         let num_classes_usize = num_classes_scalar.to_usize();
         let axis_i32 = axis_scalar.to_i32();
 
@@ -623,6 +628,7 @@ impl Tensor {
             output_dims.push(num_classes_usize);
         }
 
+        Shape::from(output_dims.clone()).checked_size()?;
         let result_layout = Layout::from_shape(&Shape::from(output_dims));
         let self_layout = self.layout();
 
diff --git a/crates/hodu_core/src/tensor/ops/padding.rs b/crates/hodu_core/src/tensor/ops/padding.rs
index 5ee7fdc..ceae844 100644
--- a/crates/hodu_core/src/tensor/ops/padding.rs
+++ b/crates/hodu_core/src/tensor/ops/padding.rs
@@ -47,8 +47,12 @@ impl Tensor {
             let (pb, pa) = padding[i];
             pad_before.push(pb);
             pad_after.push(pa);
-            output_dims.push(input_dims[i] + pb + pa);
+            let padded = pb.checked_add(pa).and_then(|p| p.checked_add(input_dims[i]));
+            output_dims.push(padded.ok_or_else(|| {
+                HoduError::InvalidArgument(format!("padding ({}, {}) of dimension {} overflows", pb, pa, i))
+            })?);
         }
+        Shape::from(output_dims.clone()).checked_size()?;
 
         let pad_value: Scalar = value.into();
 
diff --git a/crates/hodu_core/src/tensor/ops/resize.rs b/crates/hodu_core/src/tensor/ops/resize.rs
index eea603a..517b587 100644
--- a/crates/hodu_core/src/tensor/ops/resize.rs
+++ b/crates/hodu_core/src/tensor/ops/resize.rs
@@ -112,6 +112,7 @@ impl Tensor {
         output_dims.push(input_dims[0]); // batch
         output_dims.push(input_dims[1]); // channels
         output_dims.extend_from_slice(output_size); // spatial dims
+        Shape::from(output_dims.clone()).checked_size()?;
 
         let op_params = OpParams::Resize(ResizeParams {
             output_size: output_size.to_vec(),
diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index a5551d4..37fbf87 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -14,7 +14,7 @@ impl Tensor {
     pub fn reshape(&self, shape: impl Into<Shape>) -> HoduResult<Self> {
         let shape = shape.into();
         let current_size = self.size();
-        let new_size = shape.size();
+        let new_size = shape.checked_size()?;
 
         if current_size != new_size {
             return Err(HoduError::incompatible_shapes(
@@ -422,6 +422,14 @@ impl Tensor {
             });
         }
 
+        let repeated: Option<Vec<usize>> = input_shape
+            .dims()
+            .iter()
+            .zip(repeats)
+            .map(|(&dim, &count)| dim.max(1).checked_mul(count.max(1)))
+            .collect();
+        Shape::from(repeated.unwrap_or_else(|| vec![usize::MAX])).checked_size()?;
+
         // Use tile operation: repeat each element before moving to next
         // For each dimension, we expand then reshape
         let mut result = self.clone();
diff --git a/crates/hodu_core/src/tensor/ops/windowing.rs b/crates/hodu_core/src/tensor/ops/windowing.rs
index dbbffc1..fe239f8 100644
--- a/crates/hodu_core/src/tensor/ops/windowing.rs
+++ b/crates/hodu_core/src/tensor/ops/windowing.rs
@@ -68,7 +68,13 @@ impl Tensor {
         let stride_dims = strides.dims();
         let mut output_dims = Vec::with_capacity(rank);
         for i in 0..rank {
-            let padded_size = input_dims[i] + padding[i].0 + padding[i].1;
+            let (lo, hi) = padding[i];
+            let padded_size = lo
+                .checked_add(hi)
+                .and_then(|p| p.checked_add(input_dims[i]))
+                .ok_or_else(|| {
+                    HoduError::InvalidArgument(format!("padding ({}, {}) of dimension {} overflows", lo, hi, i))
+                })?;
             if window_dims[i] == 0 || stride_dims[i] == 0 || padded_size < window_dims[i] {
                 return Err(HoduError::InvalidArgument(format!(
                     "window {} with stride {} does not fit dimension {} of padded size {}",
@@ -79,6 +85,8 @@ impl Tensor {
             output_dims.push(out_size);
         }
 
+        Shape::from(output_dims.clone()).checked_size()?;
+
         // Flatten padding to [lo, hi, lo, hi, ...]
         let mut padding_flat = Vec::with_capacity(padding.len() * 2);
         for &(lo, hi) in padding {
diff --git a/crates/hodu_core/src/types/layout.rs b/crates/hodu_core/src/types/layout.rs
index 495f701..f130c82 100644
--- a/crates/hodu_core/src/types/layout.rs
+++ b/crates/hodu_core/src/types/layout.rs
@@ -136,7 +136,7 @@ impl Layout {
     /// Reshapes the layout to a new shape (view operation).
     pub fn reshape(&self, new_shape: &Shape) -> HoduResult<Self> {
         let old_size = self.size();
-        let new_size = new_shape.size();
+        let new_size = new_shape.checked_size()?;
 
         // Check that total number of elements is the same
         if old_size != new_size {
@@ -294,6 +294,7 @@ impl Layout {
     /// Broadcasts this layout to a target shape.
     pub fn broadcast_to(&self, target_shape: &Shape) -> HoduResult<Self> {
         let shape = &self.shape;
+        target_shape.checked_size()?;
 
         if shape.ndim() > target_shape.ndim() {
             return Err(HoduError::incompatible_shapes(
diff --git a/crates/hodu_core/src/types/shape.rs b/crates/hodu_core/src/types/shape.rs
index 5681bbe..3b784c6 100644
--- a/crates/hodu_core/src/types/shape.rs
+++ b/crates/hodu_core/src/types/shape.rs
@@ -1,3 +1,4 @@
+use crate::error::{HoduError, HoduResult};
 use smallvec::SmallVec;
 use std::fmt;
 
@@ -69,6 +70,18 @@ impl Shape {
         self.dims.iter().product()
     }
 
+    /// Returns the total number of elements, or an error when elements or strides of this shape
+    /// could not be addressed.
+    pub fn checked_size(&self) -> HoduResult<usize> {
+        const MAX_ELEMENT_SIZE: usize = 8;
+        self.dims
+            .iter()
+            .try_fold(1usize, |size, &dim| size.checked_mul(dim.max(1)))
+            .filter(|&size| size <= isize::MAX as usize / MAX_ELEMENT_SIZE)
+            .map(|_| self.size())
+            .ok_or_else(|| HoduError::InvalidArgument(format!("shape {:?} is too large", self.dims)))
+    }
+
     /// Returns true if this is a scalar (0 dimensions).
     #[inline]
     pub fn is_scalar(&self) -> bool {
-- 
2.43.0


From 5e8c26122bd8f5af6c8019df89853a0ec55ad9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 42/89] fix: padding an empty dimension with copies of its
 elements is an error, not a crash

---
 crates/hodu_core/src/tensor/ops/padding.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/hodu_core/src/tensor/ops/padding.rs b/crates/hodu_core/src/tensor/ops/padding.rs
index ceae844..7c4381e 100644
--- a/crates/hodu_core/src/tensor/ops/padding.rs
+++ b/crates/hodu_core/src/tensor/ops/padding.rs
@@ -53,6 +53,12 @@ impl Tensor {
             })?);
         }
         Shape::from(output_dims.clone()).checked_size()?;
+        if padding_op != PaddingOp::PadConstant && input_shape.size() == 0 && !output_dims.contains(&0) {
+            return Err(HoduError::InvalidArgument(format!(
+                "'{}' padding needs elements to copy, got shape {:?}",
+                mode, input_dims
+            )));
+        }
 
         let pad_value: Scalar = value.into();
 
-- 
2.43.0


From 26c00f9d6976419968d622d2ffb89f2bb350f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 43/89] fix: shifting by the width of the type or more shifts
 all bits out instead of being undefined

---
 crates/hodu_cpu_kernels/kernels/ops_bitwise.c | 68 ++++++++++---------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_bitwise.c b/crates/hodu_cpu_kernels/kernels/ops_bitwise.c
index 535bedb..c1b1462 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_bitwise.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_bitwise.c
@@ -2,6 +2,10 @@
 #include "thread_utils.h"
 #include "types.h"
 
+// Shifting by the width of the type or more moves every bit out
+#define SHIFT_LEFT(x, n) ((size_t)(n) < 8 * sizeof(x) ? (x) << (n) : 0)
+#define SHIFT_RIGHT(x, n) ((size_t)(n) < 8 * sizeof(x) ? (x) >> (n) : (x) < 0 ? -1 : 0)
+
 // ============================================================================
 // BINARY BITWISE OPERATION IMPLEMENTATION MACROS
 // ============================================================================
@@ -267,32 +271,32 @@
 // ============================================================================
 
 // u8
-IMPL_BINARY_BITWISE_OP(u8_t, u8, shl, x << y)
-IMPL_BINARY_BITWISE_OP(u8_t, u8, shr, x >> y)
+IMPL_BINARY_BITWISE_OP(u8_t, u8, shl, SHIFT_LEFT(x, y))
+IMPL_BINARY_BITWISE_OP(u8_t, u8, shr, SHIFT_RIGHT(x, y))
 IMPL_BINARY_BITWISE_OP(u8_t, u8, bitwise_and, x &y)
 IMPL_BINARY_BITWISE_OP(u8_t, u8, bitwise_or, x | y)
 IMPL_BINARY_BITWISE_OP(u8_t, u8, bitwise_xor, x ^ y)
 IMPL_UNARY_BITWISE_OP(u8_t, u8, bitwise_not, ~x)
 
 // u16
-IMPL_BINARY_BITWISE_OP(u16_t, u16, shl, x << y)
-IMPL_BINARY_BITWISE_OP(u16_t, u16, shr, x >> y)
+IMPL_BINARY_BITWISE_OP(u16_t, u16, shl, SHIFT_LEFT(x, y))
+IMPL_BINARY_BITWISE_OP(u16_t, u16, shr, SHIFT_RIGHT(x, y))
 IMPL_BINARY_BITWISE_OP(u16_t, u16, bitwise_and, x &y)
 IMPL_BINARY_BITWISE_OP(u16_t, u16, bitwise_or, x | y)
 IMPL_BINARY_BITWISE_OP(u16_t, u16, bitwise_xor, x ^ y)
 IMPL_UNARY_BITWISE_OP(u16_t, u16, bitwise_not, ~x)
 
 // u32
-IMPL_BINARY_BITWISE_OP(u32_t, u32, shl, x << y)
-IMPL_BINARY_BITWISE_OP(u32_t, u32, shr, x >> y)
+IMPL_BINARY_BITWISE_OP(u32_t, u32, shl, SHIFT_LEFT(x, y))
+IMPL_BINARY_BITWISE_OP(u32_t, u32, shr, SHIFT_RIGHT(x, y))
 IMPL_BINARY_BITWISE_OP(u32_t, u32, bitwise_and, x &y)
 IMPL_BINARY_BITWISE_OP(u32_t, u32, bitwise_or, x | y)
 IMPL_BINARY_BITWISE_OP(u32_t, u32, bitwise_xor, x ^ y)
 IMPL_UNARY_BITWISE_OP(u32_t, u32, bitwise_not, ~x)
 
 // u64
-IMPL_BINARY_BITWISE_OP(u64_t, u64, shl, x << y)
-IMPL_BINARY_BITWISE_OP(u64_t, u64, shr, x >> y)
+IMPL_BINARY_BITWISE_OP(u64_t, u64, shl, SHIFT_LEFT(x, y))
+IMPL_BINARY_BITWISE_OP(u64_t, u64, shr, SHIFT_RIGHT(x, y))
 IMPL_BINARY_BITWISE_OP(u64_t, u64, bitwise_and, x &y)
 IMPL_BINARY_BITWISE_OP(u64_t, u64, bitwise_or, x | y)
 IMPL_BINARY_BITWISE_OP(u64_t, u64, bitwise_xor, x ^ y)
@@ -303,32 +307,32 @@ IMPL_UNARY_BITWISE_OP(u64_t, u64, bitwise_not, ~x)
 // ============================================================================
 
 // i8
-IMPL_BINARY_BITWISE_OP(i8_t, i8, shl, x << y)
-IMPL_BINARY_BITWISE_OP(i8_t, i8, shr, x >> y)
+IMPL_BINARY_BITWISE_OP(i8_t, i8, shl, SHIFT_LEFT(x, y))
+IMPL_BINARY_BITWISE_OP(i8_t, i8, shr, SHIFT_RIGHT(x, y))
 IMPL_BINARY_BITWISE_OP(i8_t, i8, bitwise_and, x &y)
 IMPL_BINARY_BITWISE_OP(i8_t, i8, bitwise_or, x | y)
 IMPL_BINARY_BITWISE_OP(i8_t, i8, bitwise_xor, x ^ y)
 IMPL_UNARY_BITWISE_OP(i8_t, i8, bitwise_not, ~x)
 
 // i16
-IMPL_BINARY_BITWISE_OP(i16_t, i16, shl, x << y)
-IMPL_BINARY_BITWISE_OP(i16_t, i16, shr, x >> y)
+IMPL_BINARY_BITWISE_OP(i16_t, i16, shl, SHIFT_LEFT(x, y))
+IMPL_BINARY_BITWISE_OP(i16_t, i16, shr, SHIFT_RIGHT(x, y))
 IMPL_BINARY_BITWISE_OP(i16_t, i16, bitwise_and, x &y)
 IMPL_BINARY_BITWISE_OP(i16_t, i16, bitwise_or, x | y)
 IMPL_BINARY_BITWISE_OP(i16_t, i16, bitwise_xor, x ^ y)
 IMPL_UNARY_BITWISE_OP(i16_t, i16, bitwise_not, ~x)
 
 // i32
-IMPL_BINARY_BITWISE_OP(i32_t, i32, shl, x << y)
-IMPL_BINARY_BITWISE_OP(i32_t, i32, shr, x >> y)
+IMPL_BINARY_BITWISE_OP(i32_t, i32, shl, SHIFT_LEFT(x, y))
+IMPL_BINARY_BITWISE_OP(i32_t, i32, shr, SHIFT_RIGHT(x, y))
 IMPL_BINARY_BITWISE_OP(i32_t, i32, bitwise_and, x &y)
 IMPL_BINARY_BITWISE_OP(i32_t, i32, bitwise_or, x | y)
 IMPL_BINARY_BITWISE_OP(i32_t, i32, bitwise_xor, x ^ y)
 IMPL_UNARY_BITWISE_OP(i32_t, i32, bitwise_not, ~x)
 
 // i64
-IMPL_BINARY_BITWISE_OP(i64_t, i64, shl, x << y)
-IMPL_BINARY_BITWISE_OP(i64_t, i64, shr, x >> y)
+IMPL_BINARY_BITWISE_OP(i64_t, i64, shl, SHIFT_LEFT(x, y))
+IMPL_BINARY_BITWISE_OP(i64_t, i64, shr, SHIFT_RIGHT(x, y))
 IMPL_BINARY_BITWISE_OP(i64_t, i64, bitwise_and, x &y)
 IMPL_BINARY_BITWISE_OP(i64_t, i64, bitwise_or, x | y)
 IMPL_BINARY_BITWISE_OP(i64_t, i64, bitwise_xor, x ^ y)
@@ -339,33 +343,33 @@ IMPL_UNARY_BITWISE_OP(i64_t, i64, bitwise_not, ~x)
 // ============================================================================
 
 // u8
-IMPL_SCALAR_SHIFT_OP(u8_t, u8, shl_scalar, x << shift)
-IMPL_SCALAR_SHIFT_OP(u8_t, u8, shr_scalar, x >> shift)
+IMPL_SCALAR_SHIFT_OP(u8_t, u8, shl_scalar, SHIFT_LEFT(x, shift))
+IMPL_SCALAR_SHIFT_OP(u8_t, u8, shr_scalar, SHIFT_RIGHT(x, shift))
 
 // u16
-IMPL_SCALAR_SHIFT_OP(u16_t, u16, shl_scalar, x << shift)
-IMPL_SCALAR_SHIFT_OP(u16_t, u16, shr_scalar, x >> shift)
+IMPL_SCALAR_SHIFT_OP(u16_t, u16, shl_scalar, SHIFT_LEFT(x, shift))
+IMPL_SCALAR_SHIFT_OP(u16_t, u16, shr_scalar, SHIFT_RIGHT(x, shift))
 
 // u32
-IMPL_SCALAR_SHIFT_OP(u32_t, u32, shl_scalar, x << shift)
-IMPL_SCALAR_SHIFT_OP(u32_t, u32, shr_scalar, x >> shift)
+IMPL_SCALAR_SHIFT_OP(u32_t, u32, shl_scalar, SHIFT_LEFT(x, shift))
+IMPL_SCALAR_SHIFT_OP(u32_t, u32, shr_scalar, SHIFT_RIGHT(x, shift))
 
 // u64
-IMPL_SCALAR_SHIFT_OP(u64_t, u64, shl_scalar, x << shift)
-IMPL_SCALAR_SHIFT_OP(u64_t, u64, shr_scalar, x >> shift)
+IMPL_SCALAR_SHIFT_OP(u64_t, u64, shl_scalar, SHIFT_LEFT(x, shift))
+IMPL_SCALAR_SHIFT_OP(u64_t, u64, shr_scalar, SHIFT_RIGHT(x, shift))
 
 // i8
-IMPL_SCALAR_SHIFT_OP(i8_t, i8, shl_scalar, x << shift)
-IMPL_SCALAR_SHIFT_OP(i8_t, i8, shr_scalar, x >> shift)
+IMPL_SCALAR_SHIFT_OP(i8_t, i8, shl_scalar, SHIFT_LEFT(x, shift))
+IMPL_SCALAR_SHIFT_OP(i8_t, i8, shr_scalar, SHIFT_RIGHT(x, shift))
 
 // i16
-IMPL_SCALAR_SHIFT_OP(i16_t, i16, shl_scalar, x << shift)
-IMPL_SCALAR_SHIFT_OP(i16_t, i16, shr_scalar, x >> shift)
+IMPL_SCALAR_SHIFT_OP(i16_t, i16, shl_scalar, SHIFT_LEFT(x, shift))
+IMPL_SCALAR_SHIFT_OP(i16_t, i16, shr_scalar, SHIFT_RIGHT(x, shift))
 
 // i32
-IMPL_SCALAR_SHIFT_OP(i32_t, i32, shl_scalar, x << shift)
-IMPL_SCALAR_SHIFT_OP(i32_t, i32, shr_scalar, x >> shift)
+IMPL_SCALAR_SHIFT_OP(i32_t, i32, shl_scalar, SHIFT_LEFT(x, shift))
+IMPL_SCALAR_SHIFT_OP(i32_t, i32, shr_scalar, SHIFT_RIGHT(x, shift))
 
 // i64
-IMPL_SCALAR_SHIFT_OP(i64_t, i64, shl_scalar, x << shift)
-IMPL_SCALAR_SHIFT_OP(i64_t, i64, shr_scalar, x >> shift)
+IMPL_SCALAR_SHIFT_OP(i64_t, i64, shl_scalar, SHIFT_LEFT(x, shift))
+IMPL_SCALAR_SHIFT_OP(i64_t, i64, shr_scalar, SHIFT_RIGHT(x, shift))
-- 
2.43.0


From c5d57054e68e640781d8c78870d3a74c45d5aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 44/89] fix: argmax and argmin of a scalar are 0, not what lies
 beyond the index array

---
 crates/hodu_cpu_kernels/kernels/ops_reduce.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_reduce.c b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
index fc35581..8e72b7c 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_reduce.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
@@ -2317,7 +2317,8 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
+                size_t actual_dim_idx =                                                            \
+                    num_reduce_dims > 0 ? input_indices[reduce_dims[0]] : 0;                       \
                                                                                                    \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
@@ -2410,7 +2411,8 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
+                size_t actual_dim_idx =                                                            \
+                    num_reduce_dims > 0 ? input_indices[reduce_dims[0]] : 0;                       \
                                                                                                    \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
@@ -2511,7 +2513,8 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
+                size_t actual_dim_idx =                                                            \
+                    num_reduce_dims > 0 ? input_indices[reduce_dims[0]] : 0;                       \
                                                                                                    \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
@@ -2604,7 +2607,8 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
+                size_t actual_dim_idx =                                                            \
+                    num_reduce_dims > 0 ? input_indices[reduce_dims[0]] : 0;                       \
                                                                                                    \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
-- 
2.43.0


From 348e2c3d45f8a5cb108937a4b649842a4cdb12b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 45/89] fix: integer determinant of an empty matrix is 1

---
 crates/hodu_cpu_kernels/kernels/ops_linalg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_linalg.c b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
index 4bae1db..903fc70 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_linalg.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
@@ -280,6 +280,9 @@
 /// Determinant modulo 2^64 without divisions (Bird's algorithm), so that integer results are the
 /// exact determinant wrapped to the element type. `scratch` holds 2 * n * n elements.
 static uint64_t det_ring(const uint64_t *a, size_t n, uint64_t *scratch) {
+    if (n == 0) {
+        return 1;
+    }
     uint64_t *x = scratch;
     uint64_t *y = scratch + n * n;
     for (size_t i = 0; i < n * n; i++) {
-- 
2.43.0


From 5e3f3fcb1943325ddc20495dde8eec37fd6ea1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 46/89] fix: losses and dropout have no parameters
 (parameters() recursed without end)

---
 crates/hodu_nn/src/losses/binary_cross_entropy.rs | 8 ++++++++
 crates/hodu_nn/src/losses/cosine_embedding.rs     | 4 ++++
 crates/hodu_nn/src/losses/cross_entropy.rs        | 4 ++++
 crates/hodu_nn/src/losses/huber.rs                | 4 ++++
 crates/hodu_nn/src/losses/kl_div.rs               | 4 ++++
 crates/hodu_nn/src/losses/mae.rs                  | 4 ++++
 crates/hodu_nn/src/losses/mse.rs                  | 4 ++++
 crates/hodu_nn/src/losses/nll.rs                  | 4 ++++
 crates/hodu_nn/src/losses/smooth_l1.rs            | 4 ++++
 crates/hodu_nn/src/modules/dropout.rs             | 3 +++
 10 files changed, 43 insertions(+)

diff --git a/crates/hodu_nn/src/losses/binary_cross_entropy.rs b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
index c428128..3eb870d 100644
--- a/crates/hodu_nn/src/losses/binary_cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
@@ -51,6 +51,10 @@ impl BCELoss {
         // Mean over all elements
         bce.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
 
 #[derive(Module, Clone, Default)]
@@ -81,4 +85,8 @@ impl BCEWithLogitsLoss {
         // Mean over all elements
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/cosine_embedding.rs b/crates/hodu_nn/src/losses/cosine_embedding.rs
index 083351f..f676ebe 100644
--- a/crates/hodu_nn/src/losses/cosine_embedding.rs
+++ b/crates/hodu_nn/src/losses/cosine_embedding.rs
@@ -72,4 +72,8 @@ impl CosineEmbeddingLoss {
 
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/cross_entropy.rs b/crates/hodu_nn/src/losses/cross_entropy.rs
index 6199563..eb1442f 100644
--- a/crates/hodu_nn/src/losses/cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/cross_entropy.rs
@@ -46,4 +46,8 @@ impl CrossEntropyLoss {
         // Mean over batch
         nll.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/huber.rs b/crates/hodu_nn/src/losses/huber.rs
index c642eea..51d4bcf 100644
--- a/crates/hodu_nn/src/losses/huber.rs
+++ b/crates/hodu_nn/src/losses/huber.rs
@@ -35,4 +35,8 @@ impl HuberLoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 12a5762..7592d30 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -51,4 +51,8 @@ impl KLDivLoss {
 
         loss.sum_all()?.div_scalar(input.shape()[0] as f32)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/mae.rs b/crates/hodu_nn/src/losses/mae.rs
index 8c52593..856f0ad 100644
--- a/crates/hodu_nn/src/losses/mae.rs
+++ b/crates/hodu_nn/src/losses/mae.rs
@@ -20,4 +20,8 @@ impl MAELoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/mse.rs b/crates/hodu_nn/src/losses/mse.rs
index f314773..8bd258c 100644
--- a/crates/hodu_nn/src/losses/mse.rs
+++ b/crates/hodu_nn/src/losses/mse.rs
@@ -20,4 +20,8 @@ impl MSELoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/nll.rs b/crates/hodu_nn/src/losses/nll.rs
index 8a32680..328c418 100644
--- a/crates/hodu_nn/src/losses/nll.rs
+++ b/crates/hodu_nn/src/losses/nll.rs
@@ -43,4 +43,8 @@ impl NLLLoss {
         // Mean over batch
         nll.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/smooth_l1.rs b/crates/hodu_nn/src/losses/smooth_l1.rs
index 715157e..acc5f8e 100644
--- a/crates/hodu_nn/src/losses/smooth_l1.rs
+++ b/crates/hodu_nn/src/losses/smooth_l1.rs
@@ -53,4 +53,8 @@ impl SmoothL1Loss {
 
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index c70e039..daaf137 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -26,4 +26,7 @@ impl Dropout {
 
         input.mul(&scaled_mask)
     }
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
-- 
2.43.0


From beb79fc28227f48fcc830f025edf5a582a834b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 47/89] fix: losses select per element instead of multiplying
 by a boolean mask (always an error)

---
 crates/hodu_nn/src/losses/cosine_embedding.rs |  4 +---
 crates/hodu_nn/src/losses/huber.rs            | 12 ++++++------
 crates/hodu_nn/src/losses/smooth_l1.rs        |  2 +-
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/hodu_nn/src/losses/cosine_embedding.rs b/crates/hodu_nn/src/losses/cosine_embedding.rs
index f676ebe..6e348cc 100644
--- a/crates/hodu_nn/src/losses/cosine_embedding.rs
+++ b/crates/hodu_nn/src/losses/cosine_embedding.rs
@@ -66,9 +66,7 @@ impl CosineEmbeddingLoss {
         // mask = (y == 1)
         let mask = y.eq_scalar(one)?;
 
-        let loss = mask
-            .mul(&loss_positive)?
-            .add(&mask.logical_not()?.mul(&loss_negative)?)?;
+        let loss = loss_positive.where3(&mask, &loss_negative)?;
 
         loss.mean_all()
     }
diff --git a/crates/hodu_nn/src/losses/huber.rs b/crates/hodu_nn/src/losses/huber.rs
index 51d4bcf..23f8a84 100644
--- a/crates/hodu_nn/src/losses/huber.rs
+++ b/crates/hodu_nn/src/losses/huber.rs
@@ -16,18 +16,18 @@ impl HuberLoss {
         let diff = pred.sub(target)?;
         let abs_diff = diff.abs()?;
 
+        let delta = self.delta.to_dtype(diff.dtype());
+
         let quadratic_loss = diff
             .pow_scalar(Scalar::from_f32(2.0, diff.dtype()))?
             .div_scalar(Scalar::from_f32(2.0, diff.dtype()))?;
         let linear_loss = abs_diff
-            .mul_scalar(self.delta)?
-            .sub_scalar(self.delta.powi(2) / Scalar::from_f32(2.0, self.delta.dtype()))?;
+            .mul_scalar(delta)?
+            .sub_scalar(delta.powi(2) / Scalar::from_f32(2.0, delta.dtype()))?;
 
-        let mask = abs_diff.le_scalar(self.delta)?;
+        let mask = abs_diff.le_scalar(delta)?;
 
-        let loss = mask
-            .mul(&quadratic_loss)?
-            .add(&mask.logical_not()?.mul(&linear_loss)?)?;
+        let loss = quadratic_loss.where3(&mask, &linear_loss)?;
 
         let pred_shape = pred.shape();
         let batch_size = Scalar::from_f32(pred_shape[0] as f32, diff.dtype());
diff --git a/crates/hodu_nn/src/losses/smooth_l1.rs b/crates/hodu_nn/src/losses/smooth_l1.rs
index acc5f8e..1b10bd2 100644
--- a/crates/hodu_nn/src/losses/smooth_l1.rs
+++ b/crates/hodu_nn/src/losses/smooth_l1.rs
@@ -49,7 +49,7 @@ impl SmoothL1Loss {
 
         // Select based on condition: |x - y| < beta
         let mask = abs_diff.lt_scalar(beta)?;
-        let loss = mask.mul(&quadratic)?.add(&mask.logical_not()?.mul(&linear)?)?;
+        let loss = quadratic.where3(&mask, &linear)?;
 
         loss.mean_all()
     }
-- 
2.43.0


From 5ac0d9bc75ed5a98d6f5e62f7f2f687ead7bce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 48/89] fix: modules convert their scalar settings to the
 element type of their input

---
 crates/hodu_nn/src/losses/binary_cross_entropy.rs |  5 +++--
 crates/hodu_nn/src/losses/kl_div.rs               |  8 +++++---
 crates/hodu_nn/src/losses/mae.rs                  |  2 +-
 crates/hodu_nn/src/modules/activation.rs          |  2 +-
 crates/hodu_nn/src/modules/attention.rs           | 13 +++++++------
 crates/hodu_nn/src/modules/dropout.rs             |  2 +-
 crates/hodu_nn/src/modules/embedding.rs           |  2 +-
 crates/hodu_nn/src/optimizers/adagrad.rs          |  2 +-
 8 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/crates/hodu_nn/src/losses/binary_cross_entropy.rs b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
index 3eb870d..c271398 100644
--- a/crates/hodu_nn/src/losses/binary_cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
@@ -29,8 +29,9 @@ impl BCELoss {
     fn forward(&self, (pred, target): (&Tensor, &Tensor)) -> HoduResult<Tensor> {
         // Clamp predictions to avoid log(0)
         // pred_clamped = clamp(pred, epsilon, 1 - epsilon)
-        let one_minus_eps_scalar = Scalar::one(self.epsilon.dtype()) - self.epsilon;
-        let pred_clamped = pred.clamp(self.epsilon, one_minus_eps_scalar)?;
+        let epsilon = self.epsilon.to_dtype(pred.dtype());
+        let one_minus_eps_scalar = Scalar::one(epsilon.dtype()) - epsilon;
+        let pred_clamped = pred.clamp(epsilon, one_minus_eps_scalar)?;
 
         // BCE = -[target * log(pred) + (1 - target) * log(1 - pred)]
 
diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 7592d30..8adcb83 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -1,5 +1,5 @@
 use crate::module::Module;
-use hodu_core::{error::HoduResult, tensor::Tensor};
+use hodu_core::{error::HoduResult, scalar::Scalar, tensor::Tensor};
 
 /// Kullback-Leibler Divergence Loss.
 ///
@@ -44,12 +44,14 @@ impl KLDivLoss {
             // KL = target * (log(target) - input)
             // To handle target=0, we use: target * log(target) - target * input
             // where target * log(target) = 0 when target = 0 (by convention)
-            let target_log_target = target.mul(&target.ln()?)?;
+            let zero = target.eq_scalar(Scalar::zero(target.dtype()))?;
+            let target_log_target = target.mul(&target.masked_fill(&zero, Scalar::one(target.dtype()))?.ln()?)?;
             let target_input = target.mul(input)?;
             target_log_target.sub(&target_input)?
         };
 
-        loss.sum_all()?.div_scalar(input.shape()[0] as f32)
+        let batch_size = Scalar::new(input.shape()[0]).to_dtype(loss.dtype());
+        loss.sum_all()?.div_scalar(batch_size)
     }
 
     fn parameters(&self) -> Vec<&Tensor> {
diff --git a/crates/hodu_nn/src/losses/mae.rs b/crates/hodu_nn/src/losses/mae.rs
index 856f0ad..b2e0f51 100644
--- a/crates/hodu_nn/src/losses/mae.rs
+++ b/crates/hodu_nn/src/losses/mae.rs
@@ -15,7 +15,7 @@ impl MAELoss {
         let abs_diff = diff.abs()?;
 
         let pred_shape = pred.shape();
-        let batch_size = Scalar::new(pred_shape[0]);
+        let batch_size = Scalar::new(pred_shape[0]).to_dtype(diff.dtype());
         let mean = abs_diff.sum_all()?.div_scalar(batch_size)?;
 
         Ok(mean)
diff --git a/crates/hodu_nn/src/modules/activation.rs b/crates/hodu_nn/src/modules/activation.rs
index 1f6bdda..93857ae 100644
--- a/crates/hodu_nn/src/modules/activation.rs
+++ b/crates/hodu_nn/src/modules/activation.rs
@@ -227,7 +227,7 @@ impl RReLU {
             // Training mode: use random alpha for each element
             let lower_f32 = self.lower.to_f32();
             let upper_f32 = self.upper.to_f32();
-            Tensor::rand_uniform_like(input, lower_f32, upper_f32)?
+            Tensor::rand_uniform_like(input, lower_f32, upper_f32)?.to_dtype(dtype)?
         } else {
             // Evaluation mode: use average of lower and upper bounds
             let avg = (self.lower.to_f32() + self.upper.to_f32()) / 2.0;
diff --git a/crates/hodu_nn/src/modules/attention.rs b/crates/hodu_nn/src/modules/attention.rs
index c083b92..fa07e8a 100644
--- a/crates/hodu_nn/src/modules/attention.rs
+++ b/crates/hodu_nn/src/modules/attention.rs
@@ -34,7 +34,7 @@ pub fn scaled_dot_product_attention(
     let scale = 1.0 / d_k.sqrt();
 
     // QK^T / sqrt(d_k)
-    let attn_weights = query.matmul(&key.transpose(-2, -1)?)?.mul_scalar(scale)?;
+    let attn_weights = query.matmul(&key.transpose(-2, -1)?)?.mul_scalar(Scalar::new(scale).to_dtype(query.dtype()))?;
 
     // Apply causal mask if needed
     let attn_weights = if is_causal {
@@ -50,7 +50,7 @@ pub fn scaled_dot_product_attention(
     // Apply attention mask if provided (0 = mask out, 1 = attend)
     let attn_weights = if let Some(mask) = attn_mask {
         let neg_inf = get_neg_inf(query.dtype());
-        attn_weights.masked_fill(&mask.eq_scalar(0.0)?, neg_inf)?
+        attn_weights.masked_fill(&mask.eq_scalar(Scalar::zero(mask.dtype()))?, neg_inf)?
     } else {
         attn_weights
     };
@@ -82,14 +82,15 @@ fn create_causal_mask(seq_len_q: usize, seq_len_k: usize) -> HoduResult<Tensor>
 }
 
 /// Get negative infinity for masking based on dtype
-fn get_neg_inf(dtype: DType) -> f64 {
-    match dtype {
+fn get_neg_inf(dtype: DType) -> Scalar {
+    let value = match dtype {
         DType::F32 => f32::NEG_INFINITY as f64,
         #[cfg(feature = "f64")]
         DType::F64 => f64::NEG_INFINITY,
         DType::F16 | DType::BF16 => -65504.0,
         _ => -1e9,
-    }
+    };
+    Scalar::new(value).to_dtype(dtype)
 }
 
 /// Apply dropout to tensor
@@ -97,7 +98,7 @@ fn apply_dropout(x: &Tensor, p: f64) -> HoduResult<Tensor> {
     let random = Tensor::rand_uniform_like(x, 0.0, 1.0)?;
     let mask = random.gt_scalar(p)?.to_dtype(x.dtype())?;
     let scale = 1.0 / (1.0 - p);
-    let scaled_mask = mask.mul_scalar(scale)?;
+    let scaled_mask = mask.mul_scalar(Scalar::new(scale).to_dtype(x.dtype()))?;
     x.mul(&scaled_mask)
 }
 
diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index daaf137..4370c66 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -21,7 +21,7 @@ impl Dropout {
         // Training mode: apply dropout
         let random = Tensor::rand_uniform_like(input, 0.0, 1.0)?;
         let mask = random.gt_scalar(self.p)?.to_dtype(input.dtype())?;
-        let scale = 1.0 / (1.0 - self.p.to_f32());
+        let scale = Scalar::new(1.0 / (1.0 - self.p.to_f64())).to_dtype(input.dtype());
         let scaled_mask = mask.mul_scalar(scale)?;
 
         input.mul(&scaled_mask)
diff --git a/crates/hodu_nn/src/modules/embedding.rs b/crates/hodu_nn/src/modules/embedding.rs
index 4e8e6fb..257789e 100644
--- a/crates/hodu_nn/src/modules/embedding.rs
+++ b/crates/hodu_nn/src/modules/embedding.rs
@@ -136,7 +136,7 @@ impl Embedding {
         let norm = squared_sum.sqrt()?;
 
         // scale = min(max_norm / norm, 1.0)
-        let max_norm_tensor = Tensor::full(norm.shape(), max_norm)?;
+        let max_norm_tensor = Tensor::full(norm.shape(), max_norm.to_dtype(embeddings.dtype()))?;
         let scale = max_norm_tensor.div(&norm)?;
 
         // Clamp scale to maximum of 1.0
diff --git a/crates/hodu_nn/src/optimizers/adagrad.rs b/crates/hodu_nn/src/optimizers/adagrad.rs
index 08f5dd2..d4d4ab1 100644
--- a/crates/hodu_nn/src/optimizers/adagrad.rs
+++ b/crates/hodu_nn/src/optimizers/adagrad.rs
@@ -65,7 +65,7 @@ impl Adagrad {
             } else {
                 self.v = parameters
                     .iter()
-                    .map(|param| Tensor::full_like(param, self.initial_accumulator_value))
+                    .map(|param| Tensor::full_like(param, self.initial_accumulator_value.to_dtype(param.dtype())))
                     .collect::<HoduResult<Vec<_>>>()?;
             }
         }
-- 
2.43.0


From b70940c9b9f28765680bd64fa2f471257ac9a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 49/89] fix: class losses insert the class axis at the
 configured dimension

---
 crates/hodu_nn/src/losses/cross_entropy.rs | 6 +++---
 crates/hodu_nn/src/losses/nll.rs           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/hodu_nn/src/losses/cross_entropy.rs b/crates/hodu_nn/src/losses/cross_entropy.rs
index eb1442f..f883edc 100644
--- a/crates/hodu_nn/src/losses/cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/cross_entropy.rs
@@ -31,14 +31,14 @@ impl CrossEntropyLoss {
         let gather_dim = if self.dim < 0 { rank + self.dim } else { self.dim };
 
         // Gather the log probabilities for the correct classes
-        // target shape: [...] -> unsqueeze to [..., 1] at gather_dim
-        let target_unsqueezed = target.unsqueeze(-1)?;
+        // target shape: [...] -> unsqueeze to [..., 1, ...] at gather_dim
+        let target_unsqueezed = target.unsqueeze(gather_dim)?;
 
         // Gather along class dimension
         let gathered = log_probs.gather(gather_dim as i64, &target_unsqueezed)?;
 
         // Remove the extra dimension
-        let gathered_squeezed = gathered.squeeze(&[-1])?;
+        let gathered_squeezed = gathered.squeeze(&[gather_dim])?;
 
         // Negative log likelihood
         let nll = gathered_squeezed.neg()?;
diff --git a/crates/hodu_nn/src/losses/nll.rs b/crates/hodu_nn/src/losses/nll.rs
index 328c418..9047f0e 100644
--- a/crates/hodu_nn/src/losses/nll.rs
+++ b/crates/hodu_nn/src/losses/nll.rs
@@ -28,14 +28,14 @@ impl NLLLoss {
         let gather_dim = if self.dim < 0 { rank + self.dim } else { self.dim };
 
         // Gather the log probabilities for the correct classes
-        // target shape: [...] -> unsqueeze to [..., 1] at gather_dim
-        let target_unsqueezed = target.unsqueeze(-1)?;
+        // target shape: [...] -> unsqueeze to [..., 1, ...] at gather_dim
+        let target_unsqueezed = target.unsqueeze(gather_dim)?;
 
         // Gather along class dimension
         let gathered = log_probs.gather(gather_dim, &target_unsqueezed)?;
 
         // Remove the extra dimension
-        let gathered_squeezed = gathered.squeeze(&[-1])?;
+        let gathered_squeezed = gathered.squeeze(&[gather_dim])?;
 
         // Negative log likelihood
         let nll = gathered_squeezed.neg()?;
-- 
2.43.0


From e102290264b24daba09f0d50e9bd50814fdc2aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 50/89] fix: Adam corrects the bias once, by beta^t

---
 crates/hodu_nn/src/optimizers/adam.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_nn/src/optimizers/adam.rs b/crates/hodu_nn/src/optimizers/adam.rs
index 8780329..76312df 100644
--- a/crates/hodu_nn/src/optimizers/adam.rs
+++ b/crates/hodu_nn/src/optimizers/adam.rs
@@ -54,14 +54,13 @@ impl Adam {
 
             let mut beta1_t = beta1;
             let mut beta2_t = beta2;
-            for _ in 0..self.t {
+            for _ in 1..self.t {
                 beta1_t = beta1_t * beta1;
                 beta2_t = beta2_t * beta2;
             }
 
             let one_minus_beta1_t = one - beta1_t;
             let one_minus_beta2_t = one - beta2_t;
-            let lr_t = lr * (one_minus_beta2_t.sqrt()) / one_minus_beta1_t;
 
             let one_minus_beta1 = one - beta1;
             let one_minus_beta2 = one - beta2;
@@ -78,7 +77,7 @@ impl Adam {
 
             // Update parameters
             let step = m_hat.div(&v_hat.sqrt()?.add_scalar(epsilon)?)?;
-            param.set_(&param.sub(&step.mul_scalar(lr_t)?)?)?;
+            param.set_(&param.sub(&step.mul_scalar(lr)?)?)?;
         }
 
         Ok(())
-- 
2.43.0


From 13c299b0831b992ee64a2c4ab07f2592b10a5112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 51/89] fix: train! and eval! are usable outside the crate

---
 crates/hodu_nn/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_nn/src/lib.rs b/crates/hodu_nn/src/lib.rs
index 02c167d..d77bd7c 100644
--- a/crates/hodu_nn/src/lib.rs
+++ b/crates/hodu_nn/src/lib.rs
@@ -38,18 +38,18 @@ pub use optimizers::{
     sgd::SGD,
 };
 
-pub(crate) mod state {
+#[doc(hidden)]
+pub mod state {
     use std::sync::Mutex;
 
     #[derive(Debug, Clone, Copy, PartialEq)]
-    pub(crate) enum State {
+    pub enum State {
         Training,
         Evaluation,
     }
 
     static STATE: Mutex<State> = Mutex::new(State::Training);
 
-    #[allow(dead_code)]
     pub fn set_state(new_state: State) {
         *STATE.lock().unwrap() = new_state;
     }
@@ -63,7 +63,7 @@ pub(crate) mod state {
 #[macro_export]
 macro_rules! train {
     () => {
-        state::set_state(state::State::Training);
+        $crate::state::set_state($crate::state::State::Training);
     };
 }
 
@@ -71,6 +71,6 @@ macro_rules! train {
 #[macro_export]
 macro_rules! eval {
     () => {
-        state::set_state(state::State::Evaluation);
+        $crate::state::set_state($crate::state::State::Evaluation);
     };
 }
-- 
2.43.0


From 046140a89c78348764848abef85d7c77958fade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 52/89] fix: one-hot class check builds without the i64 feature

---
 crates/hodu_core/src/tensor/ops/indexing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 40d1843..4f40e21 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -597,7 +597,7 @@ impl Tensor {
     pub fn onehot<N: Into<Scalar>, A: Into<Scalar>>(&self, num_classes: N, axis: A, dtype: DType) -> HoduResult<Self> {
         let num_classes_scalar = num_classes.into();
         let axis_scalar = axis.into();
-        if num_classes_scalar.to_i64() < 0 {
+        if num_classes_scalar.to_isize() < 0 {
             return Err(HoduError::InvalidArgument(
                 "one-hot needs a non-negative number of classes".to_string(),
             ));
-- 
2.43.0


From 68f5578b523efbc7a12eb6804a2b20db5a45b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 53/89] fix: dropout builds without the f64 feature

---
 crates/hodu_nn/src/modules/dropout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index 4370c66..61fac62 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -21,7 +21,7 @@ impl Dropout {
         // Training mode: apply dropout
         let random = Tensor::rand_uniform_like(input, 0.0, 1.0)?;
         let mask = random.gt_scalar(self.p)?.to_dtype(input.dtype())?;
-        let scale = Scalar::new(1.0 / (1.0 - self.p.to_f64())).to_dtype(input.dtype());
+        let scale = Scalar::new(1.0 / (1.0 - self.p.to_f32())).to_dtype(input.dtype());
         let scaled_mask = mask.mul_scalar(scale)?;
 
         input.mul(&scaled_mask)
-- 
2.43.0


From f6306c264d1a573a4e6ccc94137dcdcad33cefbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 54/89] fix: dropout compares the random draw with p in the
 draw's dtype

---
 crates/hodu_nn/src/modules/dropout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index 61fac62..dc1eb5c 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -20,7 +20,7 @@ impl Dropout {
 
         // Training mode: apply dropout
         let random = Tensor::rand_uniform_like(input, 0.0, 1.0)?;
-        let mask = random.gt_scalar(self.p)?.to_dtype(input.dtype())?;
+        let mask = random.gt_scalar(self.p.to_dtype(random.dtype()))?.to_dtype(input.dtype())?;
         let scale = Scalar::new(1.0 / (1.0 - self.p.to_f32())).to_dtype(input.dtype());
         let scaled_mask = mask.mul_scalar(scale)?;
 
-- 
2.43.0


From 9b31f7279eea1d551da21473b956514f530e5afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 55/89] fix: embedding max_norm takes the norm over the
 embedding dimension with norm_type

---
 crates/hodu_nn/src/modules/embedding.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/crates/hodu_nn/src/modules/embedding.rs b/crates/hodu_nn/src/modules/embedding.rs
index 257789e..d90513a 100644
--- a/crates/hodu_nn/src/modules/embedding.rs
+++ b/crates/hodu_nn/src/modules/embedding.rs
@@ -124,24 +124,13 @@ impl Embedding {
     }
 
     fn apply_max_norm(&self, embeddings: &Tensor, max_norm: Scalar) -> HoduResult<Tensor> {
-        // Compute L2 norm along the embedding dimension (last dimension)
+        // Compute the norm along the embedding dimension (last dimension)
         // embeddings shape: [num_indices, embedding_dim]
-        let embedding_dim = embeddings.shape().last().unwrap();
+        let norm = embeddings.norm(self.norm_type, &[-1], true)?;
 
-        // squared_sum = sum(x^2, dim=-1, keepdim=true)
-        let squared = embeddings.mul(embeddings)?;
-        let squared_sum = squared.sum(&[embedding_dim - 1], true)?;
-
-        // norm = sqrt(squared_sum)
-        let norm = squared_sum.sqrt()?;
-
-        // scale = min(max_norm / norm, 1.0)
+        // scale = max_norm / max(norm, max_norm), which is at most 1.0
         let max_norm_tensor = Tensor::full(norm.shape(), max_norm.to_dtype(embeddings.dtype()))?;
-        let scale = max_norm_tensor.div(&norm)?;
-
-        // Clamp scale to maximum of 1.0
-        let one = Tensor::full(scale.shape(), Scalar::one(embeddings.dtype()))?;
-        let scale = scale.minimum(&one)?;
+        let scale = max_norm_tensor.div(&norm.maximum(&max_norm_tensor)?)?;
 
         // Apply scaling: embeddings * scale
         embeddings.mul(&scale)
-- 
2.43.0


From 60bf5fa771b000cd28069e71388b3c98d4481419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 56/89] fix: a data loader accepts every shuffle seed

---
 crates/hodu_datasets/src/data/dataloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_datasets/src/data/dataloader.rs b/crates/hodu_datasets/src/data/dataloader.rs
index 03d375e..fe91461 100644
--- a/crates/hodu_datasets/src/data/dataloader.rs
+++ b/crates/hodu_datasets/src/data/dataloader.rs
@@ -187,7 +187,7 @@ impl<D: Dataset> DataLoader<D> {
         use rand::rngs::SmallRng;
 
         let length = self.indices.len();
-        let seed_base = self.seed.unwrap_or(0) + self.epoch;
+        let seed_base = self.seed.unwrap_or(0).wrapping_add(self.epoch);
         let mut rng = SmallRng::seed_from_u64(seed_base);
 
         for i in (1..length).rev() {
-- 
2.43.0


From 2229e32d1deedabcb29a6b834bcde6e52beb056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 57/89] fix: collating inconsistent items is an error, not a
 panic

---
 crates/hodu_datasets/src/data/dataloader.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/hodu_datasets/src/data/dataloader.rs b/crates/hodu_datasets/src/data/dataloader.rs
index fe91461..1c3a299 100644
--- a/crates/hodu_datasets/src/data/dataloader.rs
+++ b/crates/hodu_datasets/src/data/dataloader.rs
@@ -5,6 +5,10 @@ use super::dataset::Dataset;
 
 pub type CollateFn = fn(Vec<DataItem>) -> HoduResult<Batch>;
 
+fn inconsistent_items() -> hodu_core::error::HoduError {
+    hodu_core::error::HoduError::InternalError("Inconsistent items in batch".into())
+}
+
 pub fn default_collate(items: Vec<DataItem>) -> HoduResult<Batch> {
     if items.is_empty() {
         return Err(hodu_core::error::HoduError::InternalError(
@@ -17,10 +21,10 @@ pub fn default_collate(items: Vec<DataItem>) -> HoduResult<Batch> {
             let tensors: Vec<Tensor> = items
                 .into_iter()
                 .map(|item| match item {
-                    DataItem::Single(t) => t,
-                    _ => panic!("Inconsistent data types in batch"),
+                    DataItem::Single(t) => Ok(t),
+                    _ => Err(inconsistent_items()),
                 })
-                .collect();
+                .collect::<HoduResult<_>>()?;
 
             let refs: Vec<&Tensor> = tensors.iter().collect();
             let batched = Tensor::stack(&refs, 0)?;
@@ -36,7 +40,7 @@ pub fn default_collate(items: Vec<DataItem>) -> HoduResult<Batch> {
                         data_tensors.push(d);
                         label_tensors.push(l);
                     },
-                    _ => panic!("Inconsistent data types in batch"),
+                    _ => return Err(inconsistent_items()),
                 }
             }
 
@@ -56,13 +60,13 @@ pub fn default_collate(items: Vec<DataItem>) -> HoduResult<Batch> {
                 match item {
                     DataItem::Multiple(tensors) => {
                         if tensors.len() != num_tensors {
-                            panic!("Inconsistent number of tensors in batch");
+                            return Err(inconsistent_items());
                         }
                         for (i, tensor) in tensors.into_iter().enumerate() {
                             tensor_vecs[i].push(tensor);
                         }
                     },
-                    _ => panic!("Inconsistent data types in batch"),
+                    _ => return Err(inconsistent_items()),
                 }
             }
 
-- 
2.43.0


From 4c0b437268607a71b2967de1229d0bdbe05156b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 58/89] fix: a failed collate does not lose its batch

---
 crates/hodu_datasets/src/data/dataloader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/hodu_datasets/src/data/dataloader.rs b/crates/hodu_datasets/src/data/dataloader.rs
index 1c3a299..1fbe24c 100644
--- a/crates/hodu_datasets/src/data/dataloader.rs
+++ b/crates/hodu_datasets/src/data/dataloader.rs
@@ -253,9 +253,8 @@ impl<D: Dataset> DataLoader<D> {
             items.push(self.dataset.get(idx)?);
         }
 
-        self.current_idx = end_idx;
-
         let batch = (self.collate_fn)(items)?;
+        self.current_idx = end_idx;
         Ok(Some(batch))
     }
 
-- 
2.43.0


From 7d8c75f94852469da4ef90b7329df758926bc6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 59/89] fix: a data loader with batch size 0 reports an error
 instead of dividing by zero

---
 crates/hodu_datasets/src/data/dataloader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_datasets/src/data/dataloader.rs b/crates/hodu_datasets/src/data/dataloader.rs
index 1fbe24c..f028e4d 100644
--- a/crates/hodu_datasets/src/data/dataloader.rs
+++ b/crates/hodu_datasets/src/data/dataloader.rs
@@ -210,7 +210,9 @@ impl<D: Dataset> DataLoader<D> {
 
     pub fn num_batches(&self) -> usize {
         let len = self.dataset.len();
-        if self.drop_last {
+        if self.batch_size == 0 {
+            0
+        } else if self.drop_last {
             len / self.batch_size
         } else {
             len.div_ceil(self.batch_size)
@@ -242,6 +244,11 @@ impl<D: Dataset> DataLoader<D> {
         if !self.has_next() {
             return Ok(None);
         }
+        if self.batch_size == 0 {
+            return Err(hodu_core::error::HoduError::InternalError(
+                "batch_size must be positive".into(),
+            ));
+        }
 
         let start_idx = self.current_idx;
         let end_idx = (start_idx + self.batch_size).min(self.dataset.len());
-- 
2.43.0


From 95780b414c66f95db496acdb2d84389d2468eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 60/89] fix: batch iteration ends after an error instead of
 repeating it forever

---
 crates/hodu_datasets/src/data/dataloader.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_datasets/src/data/dataloader.rs b/crates/hodu_datasets/src/data/dataloader.rs
index f028e4d..7a50cd3 100644
--- a/crates/hodu_datasets/src/data/dataloader.rs
+++ b/crates/hodu_datasets/src/data/dataloader.rs
@@ -266,22 +266,33 @@ impl<D: Dataset> DataLoader<D> {
     }
 
     pub fn iter_batches(&mut self) -> DataLoaderIterator<'_, D> {
-        DataLoaderIterator { loader: self }
+        DataLoaderIterator {
+            loader: self,
+            failed: false,
+        }
     }
 }
 
 pub struct DataLoaderIterator<'a, D: Dataset> {
     loader: &'a mut DataLoader<D>,
+    failed: bool,
 }
 
 impl<'a, D: Dataset> Iterator for DataLoaderIterator<'a, D> {
     type Item = HoduResult<Batch>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.failed {
+            return None;
+        }
         match self.loader.next_batch() {
             Ok(Some(batch)) => Some(Ok(batch)),
             Ok(None) => None,
-            Err(e) => Some(Err(e)),
+            Err(e) => {
+                // The loader keeps its position, so continuing would repeat the error forever
+                self.failed = true;
+                Some(Err(e))
+            },
         }
     }
 }
-- 
2.43.0


From 20aa0e3ae126398e5d6779d17a9ad766775390c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 61/89] fix: random_split with a fraction above one keeps every
 sample in the first part

---
 crates/hodu_datasets/src/data/dataset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_datasets/src/data/dataset.rs b/crates/hodu_datasets/src/data/dataset.rs
index b256684..16501bb 100644
--- a/crates/hodu_datasets/src/data/dataset.rs
+++ b/crates/hodu_datasets/src/data/dataset.rs
@@ -134,7 +134,7 @@ where
     use rand::rngs::SmallRng;
 
     let total_len = dataset.len();
-    let train_len = (total_len as f32 * train_size) as usize;
+    let train_len = ((total_len as f32 * train_size) as usize).min(total_len);
 
     let mut indices: Vec<usize> = (0..total_len).collect();
 
-- 
2.43.0


From fdefea499533f3644828fc258f10e1949a829424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 62/89] fix: a tensor dataset refuses every index outside it

---
 crates/hodu_datasets/src/data/dataset.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/hodu_datasets/src/data/dataset.rs b/crates/hodu_datasets/src/data/dataset.rs
index 16501bb..8b58880 100644
--- a/crates/hodu_datasets/src/data/dataset.rs
+++ b/crates/hodu_datasets/src/data/dataset.rs
@@ -35,6 +35,14 @@ impl TensorDataset {
     }
 
     fn get(&self, index: usize) -> HoduResult<DataItem> {
+        if index >= self.len() {
+            return Err(hodu_core::error::HoduError::InternalError(format!(
+                "Index {} out of bounds for dataset of length {}",
+                index,
+                self.len()
+            )));
+        }
+
         let data_item = self
             .data
             .slice(0, index as isize, Some((index + 1) as isize), 1)?
-- 
2.43.0


From 6c5507e72c0a9e409c9389dabb63e2ead863173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 63/89] fix: extracting snapshot constants does not leak a copy
 of each

---
 .../hodu_core/src/snapshot/capture/board.rs   | 36 +------------------
 1 file changed, 1 insertion(+), 35 deletions(-)

diff --git a/crates/hodu_core/src/snapshot/capture/board.rs b/crates/hodu_core/src/snapshot/capture/board.rs
index b619052..b7b66c7 100644
--- a/crates/hodu_core/src/snapshot/capture/board.rs
+++ b/crates/hodu_core/src/snapshot/capture/board.rs
@@ -276,18 +276,6 @@ impl CaptureBoard {
     }
 
     fn extract_constants(constant_ids: HashSet<TensorId>, offset: usize) -> Vec<crate::snapshot::SnapshotConstant> {
-        fn to_bytes<T>(vec: Vec<T>) -> Vec<u8> {
-            let len = vec.len() * core::mem::size_of::<T>();
-            let ptr = vec.as_ptr() as *const u8;
-            let mut bytes = Vec::with_capacity(len);
-            unsafe {
-                core::ptr::copy_nonoverlapping(ptr, bytes.as_mut_ptr(), len);
-                bytes.set_len(len);
-            }
-            core::mem::forget(vec);
-            bytes
-        }
-
         constant_ids
             .into_iter()
             .filter_map(|tensor_id| {
@@ -295,29 +283,7 @@ impl CaptureBoard {
                 let dtype = tensor.dtype();
                 let shape = tensor.shape();
 
-                let data = match dtype {
-                    DType::BOOL => to_bytes(tensor.to_flatten_vec::<bool>().ok()?),
-                    DType::F8E4M3 => to_bytes(tensor.to_flatten_vec::<float8::F8E4M3>().ok()?),
-                    #[cfg(feature = "f8e5m2")]
-                    DType::F8E5M2 => to_bytes(tensor.to_flatten_vec::<float8::F8E5M2>().ok()?),
-                    DType::BF16 => to_bytes(tensor.to_flatten_vec::<half::bf16>().ok()?),
-                    DType::F16 => to_bytes(tensor.to_flatten_vec::<half::f16>().ok()?),
-                    DType::F32 => to_bytes(tensor.to_flatten_vec::<f32>().ok()?),
-                    #[cfg(feature = "f64")]
-                    DType::F64 => to_bytes(tensor.to_flatten_vec::<f64>().ok()?),
-                    DType::U8 => tensor.to_flatten_vec::<u8>().ok()?,
-                    #[cfg(feature = "u16")]
-                    DType::U16 => to_bytes(tensor.to_flatten_vec::<u16>().ok()?),
-                    DType::U32 => to_bytes(tensor.to_flatten_vec::<u32>().ok()?),
-                    #[cfg(feature = "u64")]
-                    DType::U64 => to_bytes(tensor.to_flatten_vec::<u64>().ok()?),
-                    DType::I8 => to_bytes(tensor.to_flatten_vec::<i8>().ok()?),
-                    #[cfg(feature = "i16")]
-                    DType::I16 => to_bytes(tensor.to_flatten_vec::<i16>().ok()?),
-                    DType::I32 => to_bytes(tensor.to_flatten_vec::<i32>().ok()?),
-                    #[cfg(feature = "i64")]
-                    DType::I64 => to_bytes(tensor.to_flatten_vec::<i64>().ok()?),
-                };
+                let data = tensor.to_bytes().ok()?;
 
                 Some(crate::snapshot::SnapshotConstant {
                     id: SnapshotTensorId(tensor_id.as_usize() - offset),
-- 
2.43.0


From 2bab7c9f775507f8325ccf82b1660003298247cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 64/89] fix: a constant captured as a target is part of the
 snapshot

---
 .../hodu_core/src/snapshot/capture/board.rs   | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/crates/hodu_core/src/snapshot/capture/board.rs b/crates/hodu_core/src/snapshot/capture/board.rs
index b7b66c7..b6965f7 100644
--- a/crates/hodu_core/src/snapshot/capture/board.rs
+++ b/crates/hodu_core/src/snapshot/capture/board.rs
@@ -149,7 +149,7 @@ impl CaptureBoard {
             .collect();
 
         let offset = Self::compute_id_offset(&board.inputs, &board.targets, &filtered_ops);
-        let constant_ids = Self::find_constants(&board.inputs, &filtered_ops, &reachable);
+        let constant_ids = Self::find_constants(&board.inputs, &board.targets, &filtered_ops, &reachable);
         let snapshot_constants = Self::extract_constants(constant_ids, offset);
 
         let snapshot_inputs = board
@@ -256,23 +256,20 @@ impl CaptureBoard {
 
     fn find_constants(
         inputs: &[CapturedInput],
+        targets: &[CapturedTarget],
         filtered_ops: &[CapturedOp],
         reachable: &HashSet<TensorId>,
     ) -> HashSet<TensorId> {
         let input_ids: HashSet<_> = inputs.iter().map(|i| i.tensor_id).collect();
         let op_output_ids: HashSet<_> = filtered_ops.iter().map(|op| op.output_id).collect();
 
-        let mut constant_ids = HashSet::new();
-        for op in filtered_ops {
-            for &input_id in &op.input_ids {
-                if reachable.contains(&input_id) && !input_ids.contains(&input_id) && !op_output_ids.contains(&input_id)
-                {
-                    constant_ids.insert(input_id);
-                }
-            }
-        }
-
-        constant_ids
+        // Whatever a node or a target refers to and nothing else provides
+        filtered_ops
+            .iter()
+            .flat_map(|op| op.input_ids.iter().copied())
+            .chain(targets.iter().map(|target| target.tensor_id))
+            .filter(|id| reachable.contains(id) && !input_ids.contains(id) && !op_output_ids.contains(id))
+            .collect()
     }
 
     fn extract_constants(constant_ids: HashSet<TensorId>, offset: usize) -> Vec<crate::snapshot::SnapshotConstant> {
-- 
2.43.0


From 3900309a19eee6dbee366b316853dc3824e8e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 65/89] fix: JSON tensors keep NaN and infinities

---
 crates/hodu_core/src/format/json.rs | 84 +++++++++++------------------
 1 file changed, 31 insertions(+), 53 deletions(-)

diff --git a/crates/hodu_core/src/format/json.rs b/crates/hodu_core/src/format/json.rs
index 23bf41f..366533c 100644
--- a/crates/hodu_core/src/format/json.rs
+++ b/crates/hodu_core/src/format/json.rs
@@ -201,6 +201,25 @@ fn str_to_dtype(s: &str) -> HoduResult<DType> {
     }
 }
 
+/// JSON has no numbers for the non-finite values; they are written as strings
+fn float_to_json(v: f64) -> Value {
+    serde_json::Number::from_f64(v)
+        .map(Value::Number)
+        .unwrap_or_else(|| Value::String(v.to_string()))
+}
+
+fn json_to_float(v: &Value) -> Option<f64> {
+    if let Some(v) = v.as_f64() {
+        return Some(v);
+    }
+    match v.as_str()? {
+        "NaN" => Some(f64::NAN),
+        "inf" => Some(f64::INFINITY),
+        "-inf" => Some(f64::NEG_INFINITY),
+        _ => None,
+    }
+}
+
 fn tensor_data_to_json(tensor: &Tensor) -> HoduResult<Value> {
     match tensor.dtype() {
         DType::BOOL => {
@@ -210,76 +229,38 @@ fn tensor_data_to_json(tensor: &Tensor) -> HoduResult<Value> {
         DType::F8E4M3 => {
             let data: Vec<F8E4M3> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(f32::from(v) as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(f32::from(v) as f64)).collect(),
             ))
         },
         #[cfg(feature = "f8e5m2")]
         DType::F8E5M2 => {
             let data: Vec<F8E5M2> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(f32::from(v) as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(f32::from(v) as f64)).collect(),
             ))
         },
         DType::BF16 => {
             let data: Vec<bf16> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v.to_f64())
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v.to_f64())).collect(),
             ))
         },
         DType::F16 => {
             let data: Vec<f16> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v.to_f64())
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v.to_f64())).collect(),
             ))
         },
         DType::F32 => {
             let data: Vec<f32> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v as f64)).collect(),
             ))
         },
         #[cfg(feature = "f64")]
         DType::F64 => {
             let data: Vec<f64> = tensor.to_flatten_vec()?;
-            Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
-            ))
+            Ok(Value::Array(data.into_iter().map(float_to_json).collect()))
         },
         DType::U8 => {
             let data: Vec<u8> = tensor.to_flatten_vec()?;
@@ -357,7 +338,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<F8E4M3> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(|f| F8E4M3::from_f32(f as f32))
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -369,7 +350,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<F8E5M2> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(|f| F8E5M2::from_f32(f as f32))
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -380,7 +361,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<bf16> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(bf16::from_f64)
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -391,7 +372,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<f16> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(f16::from_f64)
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -402,7 +383,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<f32> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(|f| f as f32)
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -413,10 +394,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
         DType::F64 => {
             let values: Vec<f64> = data
                 .iter()
-                .map(|v| {
-                    v.as_f64()
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
-                })
+                .map(|v| json_to_float(v).ok_or_else(|| HoduError::DeserializationFailed("Expected number".into())))
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
         },
-- 
2.43.0


From 5f42191c61ac495cde99fbd1077883872db57f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 66/89] fix: JSON integers outside the element type are an
 error instead of wrapping

---
 crates/hodu_core/src/format/json.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/hodu_core/src/format/json.rs b/crates/hodu_core/src/format/json.rs
index 366533c..fdd48f2 100644
--- a/crates/hodu_core/src/format/json.rs
+++ b/crates/hodu_core/src/format/json.rs
@@ -403,7 +403,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u8)
+                        .and_then(|n| u8::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -415,7 +415,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u16)
+                        .and_then(|n| u16::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -426,7 +426,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u32)
+                        .and_then(|n| u32::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -448,7 +448,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i8)
+                        .and_then(|n| i8::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -460,7 +460,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i16)
+                        .and_then(|n| i16::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -471,7 +471,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i32)
+                        .and_then(|n| i32::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
-- 
2.43.0


From 9cc946de911010c36de549d9567cce6cef952384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 67/89] fix: tensor data of an overflowing shape is invalid
 instead of a panic

---
 crates/hodu_plugin/src/tensor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_plugin/src/tensor.rs b/crates/hodu_plugin/src/tensor.rs
index 7ff600d..959726c 100644
--- a/crates/hodu_plugin/src/tensor.rs
+++ b/crates/hodu_plugin/src/tensor.rs
@@ -175,8 +175,10 @@ impl TensorData {
 
     /// Check if tensor data is valid (size matches shape * dtype)
     pub fn is_valid(&self) -> bool {
-        let expected_size = self.numel() * self.dtype.size_in_bytes();
-        self.data.len() == expected_size
+        self.shape
+            .iter()
+            .try_fold(self.dtype.size_in_bytes(), |size, &dim| size.checked_mul(dim))
+            == Some(self.data.len())
     }
 
     /// Get tensor rank (number of dimensions)
-- 
2.43.0


From 53f5e4370ad85c5fb8ae2f993d6281077ec50023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 68/89] fix: loading a snapshot rejects inconsistent constants
 and layouts

---
 crates/hodu_core/src/snapshot.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/snapshot.rs b/crates/hodu_core/src/snapshot.rs
index 51289f1..6bf6c13 100644
--- a/crates/hodu_core/src/snapshot.rs
+++ b/crates/hodu_core/src/snapshot.rs
@@ -96,7 +96,35 @@ impl Snapshot {
 
     #[cfg(feature = "serde")]
     pub fn from_bytes(data: &[u8]) -> crate::error::HoduResult<Self> {
-        postcard::from_bytes(data).map_err(|e| crate::error::HoduError::DeserializationFailed(e.to_string()))
+        let snapshot: Self =
+            postcard::from_bytes(data).map_err(|e| crate::error::HoduError::DeserializationFailed(e.to_string()))?;
+        snapshot.validate()?;
+        Ok(snapshot)
+    }
+
+    /// Checks that constants hold exactly their elements and that layouts have one stride per dimension
+    #[cfg(feature = "serde")]
+    fn validate(&self) -> crate::error::HoduResult<()> {
+        let invalid = |what: &str| {
+            Err(crate::error::HoduError::DeserializationFailed(format!(
+                "Invalid snapshot: {what}"
+            )))
+        };
+
+        for constant in &self.constants {
+            let size = constant.shape.checked_size()? * constant.dtype.size_in_bytes();
+            if constant.data.len() != size {
+                return invalid("constant data does not match its shape and dtype");
+            }
+        }
+        for node in &self.nodes {
+            for layout in node.input_layouts.iter().chain([&node.output_layout]) {
+                if layout.strides().len() != layout.ndim() {
+                    return invalid("layout strides do not match its shape");
+                }
+            }
+        }
+        Ok(())
     }
 
     #[cfg(feature = "serde")]
-- 
2.43.0


From f7520a5d768a14a8238be97024d8c63f12b6eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 69/89] fix: captured constants of any layout, top-k and unique
 outputs are consistent in a snapshot

---
 .../hodu_core/src/snapshot/capture/board.rs   | 45 ++++++++++++++++++-
 crates/hodu_core/src/tensor/core.rs           |  5 +++
 crates/hodu_core/src/tensor/ops/indexing.rs   | 25 +++++++----
 3 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/crates/hodu_core/src/snapshot/capture/board.rs b/crates/hodu_core/src/snapshot/capture/board.rs
index b6965f7..e5a0602 100644
--- a/crates/hodu_core/src/snapshot/capture/board.rs
+++ b/crates/hodu_core/src/snapshot/capture/board.rs
@@ -5,7 +5,7 @@ use crate::{
     tensor::{tensor_from_id, Tensor, TensorId},
     types::{DType, Layout, Shape, SymbolicLayout},
 };
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
@@ -150,6 +150,7 @@ impl CaptureBoard {
 
         let offset = Self::compute_id_offset(&board.inputs, &board.targets, &filtered_ops);
         let constant_ids = Self::find_constants(&board.inputs, &board.targets, &filtered_ops, &reachable);
+        let filtered_ops = Self::compact_layouts(filtered_ops, &constant_ids);
         let snapshot_constants = Self::extract_constants(constant_ids, offset);
 
         let snapshot_inputs = board
@@ -179,7 +180,7 @@ impl CaptureBoard {
 
                 SnapshotNode {
                     op: op.op,
-                    params: op.params,
+                    params: op.params.map(|params| Self::normalize_params(params, offset)),
                     input_ids: op
                         .input_ids
                         .into_iter()
@@ -272,6 +273,46 @@ impl CaptureBoard {
             .collect()
     }
 
+    /// Tensors named by parameters are named by the same ids as everywhere else in the snapshot
+    fn normalize_params(mut params: OpParams, offset: usize) -> OpParams {
+        match &mut params {
+            OpParams::TopK(p) => p.indices_id = p.indices_id.normalized(offset),
+            OpParams::Unique(p) => {
+                p.inverse_id = p.inverse_id.normalized(offset);
+                p.counts_id = p.counts_id.normalized(offset);
+            },
+            _ => {},
+        }
+        params
+    }
+
+    /// Constants are stored compactly, so what reads them must not expect the layout they had in memory
+    fn compact_layouts(mut ops: Vec<CapturedOp>, constant_ids: &HashSet<TensorId>) -> Vec<CapturedOp> {
+        // How far the elements of a view of a constant move
+        let mut shifts: HashMap<TensorId, usize> = HashMap::new();
+
+        for op in &mut ops {
+            let mut view_shift = None;
+            for (id, layout) in op.input_ids.iter().zip(&mut op.input_layouts) {
+                if constant_ids.contains(id) {
+                    view_shift = Some(layout.offset());
+                    *layout = Layout::from_shape(layout.shape());
+                } else if let Some(&shift) = shifts.get(id) {
+                    view_shift = Some(shift);
+                    layout.set_offset(layout.offset() - shift);
+                }
+            }
+
+            // Views are only taken of contiguous tensors: their strides do not depend on the constant's
+            if let (Op::Shape(_) | Op::ShapeScalars(_), Some(shift)) = (&op.op, view_shift) {
+                op.output_layout.set_offset(op.output_layout.offset() - shift);
+                shifts.insert(op.output_id, shift);
+            }
+        }
+
+        ops
+    }
+
     fn extract_constants(constant_ids: HashSet<TensorId>, offset: usize) -> Vec<crate::snapshot::SnapshotConstant> {
         constant_ids
             .into_iter()
diff --git a/crates/hodu_core/src/tensor/core.rs b/crates/hodu_core/src/tensor/core.rs
index 41616f7..e48ef01 100644
--- a/crates/hodu_core/src/tensor/core.rs
+++ b/crates/hodu_core/src/tensor/core.rs
@@ -22,6 +22,11 @@ impl TensorId {
     pub fn as_usize(&self) -> usize {
         self.0
     }
+
+    /// The same id counted from `offset`
+    pub(crate) fn normalized(self, offset: usize) -> Self {
+        Self(self.0 - offset)
+    }
 }
 
 #[repr(transparent)]
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 4f40e21..0b17a13 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -806,15 +806,22 @@ impl Tensor {
                 dynamic_count_dim: Some(dynamic_dim_id),
             });
 
-            crate::snapshot::capture::capture_operation_with_symbolic(
-                Op::Indexing(IndexingOp::Unique),
-                Some(op_params),
-                vec![self.id()],
-                values_id,
-                vec![self_layout],
-                max_values_layout,
-                Some(values_symbolic_layout),
-            )?;
+            // Every output is captured as an operation of its own
+            for (output_id, output_layout, symbolic_layout) in [
+                (values_id, max_values_layout, Some(values_symbolic_layout.clone())),
+                (inverse_id, inverse_layout, None),
+                (counts_id, max_counts_layout, Some(values_symbolic_layout)),
+            ] {
+                crate::snapshot::capture::capture_operation_with_symbolic(
+                    Op::Indexing(IndexingOp::Unique),
+                    Some(op_params.clone()),
+                    vec![self.id()],
+                    output_id,
+                    vec![self_layout.clone()],
+                    output_layout,
+                    symbolic_layout,
+                )?;
+            }
 
             Ok((values_tensor, inverse_tensor, counts_tensor))
         } else {
-- 
2.43.0


From d8f841d85f01d55870688aae687e742bea99db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 70/89] fix: work for which a kernel cannot create a thread is
 done by the caller

---
 .../hodu_cpu_kernels/kernels/thread_utils.h   | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/thread_utils.h b/crates/hodu_cpu_kernels/kernels/thread_utils.h
index 3e42197..cd5dc43 100644
--- a/crates/hodu_cpu_kernels/kernels/thread_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/thread_utils.h
@@ -58,13 +58,23 @@ static inline size_t get_optimal_threads(size_t workload_size, size_t min_work_p
 // Thread abstraction layer
 #if defined(HAVE_PTHREAD)
 // POSIX threads
-typedef pthread_t thread_t;
+typedef struct {
+    pthread_t handle;
+    int started;
+} thread_t;
 
+// Work for which no thread can be created is done by the caller
 static inline int thread_create(thread_t *thread, void *(*start_routine)(void *), void *arg) {
-    return pthread_create(thread, NULL, start_routine, arg);
+    thread->started = pthread_create(&thread->handle, NULL, start_routine, arg) == 0;
+    if (!thread->started) {
+        start_routine(arg);
+    }
+    return 0;
 }
 
-static inline int thread_join(thread_t thread) { return pthread_join(thread, NULL); }
+static inline int thread_join(thread_t thread) {
+    return thread.started ? pthread_join(thread.handle, NULL) : 0;
+}
 
 #elif defined(HAVE_WIN32_THREADS)
 // Windows native threads
@@ -87,23 +97,26 @@ static inline unsigned __stdcall win32_thread_wrapper(void *arg) {
     return 0;
 }
 
+// Work for which no thread can be created is done by the caller
 static inline int thread_create(thread_t *thread, void *(*start_routine)(void *), void *arg) {
+    *thread = 0;
     win32_thread_args_t *wrapper_args = (win32_thread_args_t *)malloc(sizeof(win32_thread_args_t));
-    if (!wrapper_args) {
-        return -1;
+    if (wrapper_args) {
+        wrapper_args->start_routine = start_routine;
+        wrapper_args->arg = arg;
+        *thread = (HANDLE)_beginthreadex(NULL, 0, win32_thread_wrapper, wrapper_args, 0, NULL);
     }
-    wrapper_args->start_routine = start_routine;
-    wrapper_args->arg = arg;
-
-    *thread = (HANDLE)_beginthreadex(NULL, 0, win32_thread_wrapper, wrapper_args, 0, NULL);
     if (*thread == 0) {
         free(wrapper_args);
-        return -1;
+        start_routine(arg);
     }
     return 0;
 }
 
 static inline int thread_join(thread_t thread) {
+    if (thread == 0) {
+        return 0;
+    }
     WaitForSingleObject(thread, INFINITE);
     CloseHandle(thread);
     return 0;
-- 
2.43.0


From aafb2462652c81fd921dfb2b30c6857c6a7019f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 71/89] fix: a tape entry that replaces another releases what
 that one held

---
 crates/hodu_core/src/tensor/gradient/tape.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/tensor/gradient/tape.rs b/crates/hodu_core/src/tensor/gradient/tape.rs
index 54feeeb..01f7002 100644
--- a/crates/hodu_core/src/tensor/gradient/tape.rs
+++ b/crates/hodu_core/src/tensor/gradient/tape.rs
@@ -57,7 +57,10 @@ pub(super) fn push_entry(context_id: ContextId, entry: TapeEntry) {
         tensor::retain(id);
     }
     let output_id = entry.output_id;
-    lock().entry(context_id).or_default().insert(output_id, entry);
+    let replaced = lock().entry(context_id).or_default().insert(output_id, entry);
+    for id in replaced.iter().flat_map(TapeEntry::held_ids) {
+        tensor::release(id);
+    }
     tensor::with_tensor_mut(output_id, |t| t.recorded_in = Some(context_id));
 }
 
-- 
2.43.0


From 3b70f73b7c81baea4def78de2aea33c45df821f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 72/89] fix: a plugin call ends within its time limit and
 ignores the answers to earlier requests

---
 crates/hodu_plugin_runtime/src/client.rs | 37 +++++++++++++++---------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index dd40e43..e380dec 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -14,7 +14,7 @@ use std::process::{Child, ChildStdin};
 use std::sync::atomic::{AtomicI64, Ordering};
 use std::sync::mpsc::{self, RecvTimeoutError};
 use std::sync::{Arc, Mutex};
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 /// Default timeout for RPC requests (5 minutes)
 pub const DEFAULT_TIMEOUT: Duration = Duration::from_secs(300);
@@ -266,10 +266,6 @@ impl PluginClient {
         R: serde::de::DeserializeOwned,
     {
         let id_num = self.next_id.fetch_add(1, Ordering::SeqCst);
-        let id = RequestId::Number(id_num);
-
-        // Track current request ID for cancellation
-        self.current_request_id.store(id_num, Ordering::SeqCst);
 
         let params_value = params
             .map(|p| serde_json::to_value(p))
@@ -280,20 +276,34 @@ impl PluginClient {
             jsonrpc: JSONRPC_VERSION.to_string(),
             method: method.to_string(),
             params: params_value,
-            id: id.clone(),
+            id: RequestId::Number(id_num),
         };
 
+        // Track current request ID for cancellation
+        self.current_request_id.store(id_num, Ordering::SeqCst);
+        let result = self.exchange(&request);
+        self.current_request_id.store(0, Ordering::SeqCst);
+        result
+    }
+
+    fn exchange<R: serde::de::DeserializeOwned>(&mut self, request: &Request) -> Result<R, ClientError> {
+        let started = Instant::now();
+
         // Send request
         {
             let mut stdin = self.stdin.lock().map_err(|_| ClientError::LockError)?;
-            let json = serde_json::to_string(&request).map_err(ClientError::Serialize)?;
+            let json = serde_json::to_string(request).map_err(ClientError::Serialize)?;
             writeln!(stdin, "{}", json).map_err(ClientError::Io)?;
             stdin.flush().map_err(ClientError::Io)?;
         }
 
         // Read response, handling notifications along the way
         loop {
-            let line = match self.line_receiver.recv_timeout(self.timeout) {
+            let remaining = self
+                .timeout
+                .checked_sub(started.elapsed())
+                .ok_or(ClientError::Timeout(self.timeout))?;
+            let line = match self.line_receiver.recv_timeout(remaining) {
                 Ok(Ok(line)) => line,
                 Ok(Err(e)) => return Err(ClientError::Io(e)),
                 Err(RecvTimeoutError::Timeout) => return Err(ClientError::Timeout(self.timeout)),
@@ -317,14 +327,15 @@ impl PluginClient {
                 continue; // Keep reading for the actual response
             }
 
-            // It's a response - clear current request ID
-            self.current_request_id.store(0, Ordering::SeqCst);
-
             let response: Response = serde_json::from_str(&line).map_err(|e| ClientError::Parse(e.to_string()))?;
 
             // Verify ID matches
-            if response.id != id {
-                return Err(ClientError::IdMismatch);
+            if response.id != request.id {
+                match response.id {
+                    // The answer to a request that was given up, or to a cancellation
+                    RequestId::Number(n) if (1..self.next_id.load(Ordering::SeqCst)).contains(&n) => continue,
+                    _ => return Err(ClientError::IdMismatch),
+                }
             }
 
             // Check for error
-- 
2.43.0


From 53ae38947c3392ec27baf423f994bf4287421849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 73/89] fix: a plugin that does not read its input no longer
 blocks the caller

---
 crates/hodu_plugin_runtime/src/client.rs | 48 ++++++++++++++----------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index e380dec..529fed5 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -10,7 +10,7 @@ use hodu_plugin::rpc::{
 };
 use hodu_plugin::PLUGIN_VERSION;
 use std::io::{BufRead, BufReader, Write};
-use std::process::{Child, ChildStdin};
+use std::process::Child;
 use std::sync::atomic::{AtomicI64, Ordering};
 use std::sync::mpsc::{self, RecvTimeoutError};
 use std::sync::{Arc, Mutex};
@@ -25,7 +25,7 @@ pub type NotificationHandler = Box<dyn Fn(&str, Option<&serde_json::Value>) + Se
 /// Handle for cancelling requests from another thread (e.g., signal handler)
 #[derive(Clone)]
 pub struct CancellationHandle {
-    stdin: Arc<Mutex<ChildStdin>>,
+    line_sender: mpsc::Sender<String>,
     current_request_id: Arc<AtomicI64>,
     next_id: Arc<AtomicI64>,
 }
@@ -47,17 +47,14 @@ impl CancellationHandle {
             RequestId::Number(self.next_id.fetch_add(1, Ordering::SeqCst)),
         );
 
-        let mut stdin = self.stdin.lock().map_err(|_| ClientError::LockError)?;
         let json = serde_json::to_string(&request).map_err(ClientError::Serialize)?;
-        writeln!(stdin, "{}", json).map_err(ClientError::Io)?;
-        stdin.flush().map_err(ClientError::Io)?;
-        Ok(())
+        self.line_sender.send(json).map_err(|_| ClientError::ConnectionClosed)
     }
 }
 
 /// JSON-RPC client for communicating with a plugin process
 pub struct PluginClient {
-    stdin: Arc<Mutex<ChildStdin>>,
+    line_sender: mpsc::Sender<String>,
     line_receiver: mpsc::Receiver<Result<String, std::io::Error>>,
     next_id: Arc<AtomicI64>,
     current_request_id: Arc<AtomicI64>,
@@ -68,11 +65,13 @@ pub struct PluginClient {
 impl PluginClient {
     /// Create a new client from a spawned child process
     pub fn new(child: &mut Child) -> Result<Self, ClientError> {
-        let stdin = child.stdin.take().ok_or(ClientError::NoStdin)?;
+        let mut stdin = child.stdin.take().ok_or(ClientError::NoStdin)?;
         let stdout = child.stdout.take().ok_or(ClientError::NoStdout)?;
 
         // Spawn a reader thread that sends lines through a channel
         let (tx, rx) = mpsc::channel();
+        let write_errors = Arc::new(Mutex::new(Some(tx.clone())));
+        let at_eof = Arc::clone(&write_errors);
         std::thread::spawn(move || {
             let mut reader = BufReader::new(stdout);
             loop {
@@ -90,10 +89,26 @@ impl PluginClient {
                     },
                 }
             }
+            if let Ok(mut sender) = at_eof.lock() {
+                sender.take();
+            }
+        });
+
+        // And a writer thread, because a plugin that does not read its input must not block the caller
+        let (line_sender, lines) = mpsc::channel::<String>();
+        std::thread::spawn(move || {
+            for line in lines {
+                if let Err(e) = writeln!(stdin, "{}", line).and_then(|_| stdin.flush()) {
+                    if let Some(sender) = write_errors.lock().ok().and_then(|mut sender| sender.take()) {
+                        let _ = sender.send(Err(e));
+                    }
+                    break;
+                }
+            }
         });
 
         Ok(Self {
-            stdin: Arc::new(Mutex::new(stdin)),
+            line_sender,
             line_receiver: rx,
             next_id: Arc::new(AtomicI64::new(1)),
             current_request_id: Arc::new(AtomicI64::new(0)),
@@ -110,7 +125,7 @@ impl PluginClient {
     /// Get a cancellation handle for use from another thread (e.g., Ctrl+C handler)
     pub fn cancellation_handle(&self) -> CancellationHandle {
         CancellationHandle {
-            stdin: Arc::clone(&self.stdin),
+            line_sender: self.line_sender.clone(),
             current_request_id: Arc::clone(&self.current_request_id),
             next_id: Arc::clone(&self.next_id),
         }
@@ -159,11 +174,8 @@ impl PluginClient {
             None,
             RequestId::Number(self.next_id.fetch_add(1, Ordering::SeqCst)),
         );
-        let mut stdin = self.stdin.lock().map_err(|_| ClientError::LockError)?;
         let json = serde_json::to_string(&request).map_err(ClientError::Serialize)?;
-        writeln!(stdin, "{}", json).map_err(ClientError::Io)?;
-        stdin.flush().map_err(ClientError::Io)?;
-        Ok(())
+        self.line_sender.send(json).map_err(|_| ClientError::ConnectionClosed)
     }
 
     // ========================================================================
@@ -290,12 +302,8 @@ impl PluginClient {
         let started = Instant::now();
 
         // Send request
-        {
-            let mut stdin = self.stdin.lock().map_err(|_| ClientError::LockError)?;
-            let json = serde_json::to_string(request).map_err(ClientError::Serialize)?;
-            writeln!(stdin, "{}", json).map_err(ClientError::Io)?;
-            stdin.flush().map_err(ClientError::Io)?;
-        }
+        let json = serde_json::to_string(request).map_err(ClientError::Serialize)?;
+        self.line_sender.send(json).map_err(|_| ClientError::ConnectionClosed)?;
 
         // Read response, handling notifications along the way
         loop {
-- 
2.43.0


From 559c23d14e51fb758dbc7c0e43935e7a0f4da90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 74/89] fix: plugin processes that fail to start or ignore the
 shutdown request are ended

---
 crates/hodu_plugin_runtime/src/backend.rs | 18 +++++++++++-------
 crates/hodu_plugin_runtime/src/client.rs  | 18 ++++++++++++++++++
 crates/hodu_plugin_runtime/src/format.rs  | 18 +++++++++++-------
 crates/hodu_plugin_runtime/src/lib.rs     |  2 +-
 hodu-cli/src/plugins/process.rs           | 19 ++++++++++++-------
 5 files changed, 53 insertions(+), 22 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/backend.rs b/crates/hodu_plugin_runtime/src/backend.rs
index 0826ab9..ec0ecb6 100644
--- a/crates/hodu_plugin_runtime/src/backend.rs
+++ b/crates/hodu_plugin_runtime/src/backend.rs
@@ -3,7 +3,7 @@
 //! This module provides the runtime for loading and executing backend plugins.
 //! Backend plugins handle model inference execution and AOT compilation.
 
-use crate::client::{CancellationHandle, ClientError, PluginClient, DEFAULT_TIMEOUT};
+use crate::client::{stop_plugin, CancellationHandle, ClientError, PluginClient, DEFAULT_TIMEOUT};
 use crate::registry::{PluginEntry, PluginRegistry, RegistryError};
 use hodu_plugin::rpc::InitializeResult;
 use std::collections::HashMap;
@@ -124,16 +124,20 @@ impl PluginManager {
         client.set_timeout(self.timeout);
 
         // Initialize
-        let info = client.initialize().map_err(ManagerError::Client)?;
-
-        Ok(ManagedPlugin { child, client, info })
+        match client.initialize() {
+            Ok(info) => Ok(ManagedPlugin { child, client, info }),
+            Err(e) => {
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(ManagerError::Client(e))
+            },
+        }
     }
 
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ManagerError> {
-        if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
-            let _ = managed.child.wait();
+        if let Some(managed) = self.processes.remove(name) {
+            stop_plugin(managed.child, managed.client);
         }
         Ok(())
     }
diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index 529fed5..cb5a32b 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -19,6 +19,9 @@ use std::time::{Duration, Instant};
 /// Default timeout for RPC requests (5 minutes)
 pub const DEFAULT_TIMEOUT: Duration = Duration::from_secs(300);
 
+/// How long a plugin may take to shut down
+const SHUTDOWN_GRACE: Duration = Duration::from_secs(3);
+
 /// Notification handler callback type
 pub type NotificationHandler = Box<dyn Fn(&str, Option<&serde_json::Value>) + Send>;
 
@@ -378,6 +381,21 @@ impl PluginClient {
     }
 }
 
+/// Stop a plugin process: asks it to shut down, and ends it when it does not
+pub fn stop_plugin(mut child: Child, mut client: PluginClient) {
+    let _ = client.shutdown();
+    drop(client); // Closes its input
+    let asked = Instant::now();
+    while asked.elapsed() < SHUTDOWN_GRACE {
+        match child.try_wait() {
+            Ok(None) => std::thread::sleep(Duration::from_millis(5)),
+            _ => return,
+        }
+    }
+    let _ = child.kill();
+    let _ = child.wait();
+}
+
 /// Client errors
 #[derive(Debug)]
 pub enum ClientError {
diff --git a/crates/hodu_plugin_runtime/src/format.rs b/crates/hodu_plugin_runtime/src/format.rs
index 37fe072..2fc83e5 100644
--- a/crates/hodu_plugin_runtime/src/format.rs
+++ b/crates/hodu_plugin_runtime/src/format.rs
@@ -3,7 +3,7 @@
 //! This module provides the runtime for loading and executing format plugins.
 //! Format plugins handle loading and saving models and tensors in various file formats.
 
-use crate::client::{ClientError, PluginClient, DEFAULT_TIMEOUT};
+use crate::client::{stop_plugin, ClientError, PluginClient, DEFAULT_TIMEOUT};
 use crate::registry::{PluginEntry, PluginRegistry, RegistryError};
 use hodu_plugin::rpc::InitializeResult;
 use std::collections::HashMap;
@@ -135,16 +135,20 @@ impl PluginManager {
         client.set_timeout(self.timeout);
 
         // Initialize
-        let info = client.initialize().map_err(ManagerError::Client)?;
-
-        Ok(ManagedPlugin { child, client, info })
+        match client.initialize() {
+            Ok(info) => Ok(ManagedPlugin { child, client, info }),
+            Err(e) => {
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(ManagerError::Client(e))
+            },
+        }
     }
 
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ManagerError> {
-        if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
-            let _ = managed.child.wait();
+        if let Some(managed) = self.processes.remove(name) {
+            stop_plugin(managed.child, managed.client);
         }
         Ok(())
     }
diff --git a/crates/hodu_plugin_runtime/src/lib.rs b/crates/hodu_plugin_runtime/src/lib.rs
index 0ce713e..ed6bc45 100644
--- a/crates/hodu_plugin_runtime/src/lib.rs
+++ b/crates/hodu_plugin_runtime/src/lib.rs
@@ -30,7 +30,7 @@ mod registry;
 mod runtime;
 mod types;
 
-pub use client::{CancellationHandle, ClientError, PluginClient, DEFAULT_TIMEOUT};
+pub use client::{stop_plugin, CancellationHandle, ClientError, PluginClient, DEFAULT_TIMEOUT};
 pub use registry::{detect_plugin_type, PluginDetectError, PluginRegistry, RegistryError};
 #[cfg(all(feature = "format", feature = "backend"))]
 pub use runtime::{Model, Runtime, RuntimeError};
diff --git a/hodu-cli/src/plugins/process.rs b/hodu-cli/src/plugins/process.rs
index 34811a3..fa1c399 100644
--- a/hodu-cli/src/plugins/process.rs
+++ b/hodu-cli/src/plugins/process.rs
@@ -6,7 +6,8 @@
 use crate::output;
 use hodu_plugin::rpc::{methods, InitializeResult, LogParams};
 use hodu_plugin_runtime::{
-    CancellationHandle, ClientError, PluginClient, PluginEntry, PluginRegistry, RegistryError, DEFAULT_TIMEOUT,
+    stop_plugin, CancellationHandle, ClientError, PluginClient, PluginEntry, PluginRegistry, RegistryError,
+    DEFAULT_TIMEOUT,
 };
 use std::collections::HashMap;
 use std::path::PathBuf;
@@ -142,16 +143,20 @@ impl PluginManager {
         client.set_notification_handler(Box::new(cli_notification_handler));
 
         // Initialize
-        let info = client.initialize().map_err(ProcessError::Client)?;
-
-        Ok(ManagedPlugin { child, client, info })
+        match client.initialize() {
+            Ok(info) => Ok(ManagedPlugin { child, client, info }),
+            Err(e) => {
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(ProcessError::Client(e))
+            },
+        }
     }
 
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ProcessError> {
-        if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
-            let _ = managed.child.wait();
+        if let Some(managed) = self.processes.remove(name) {
+            stop_plugin(managed.child, managed.client);
         }
         Ok(())
     }
-- 
2.43.0


From 73ae88bc1fb36b8a33307141efe5f9563f92676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 75/89] fix: a plugin result of null is a result

---
 crates/hodu_plugin/src/rpc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_plugin/src/rpc.rs b/crates/hodu_plugin/src/rpc.rs
index 6f7fb3a..6442277 100644
--- a/crates/hodu_plugin/src/rpc.rs
+++ b/crates/hodu_plugin/src/rpc.rs
@@ -28,13 +28,18 @@ pub struct Request {
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct Response {
     pub jsonrpc: String,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(default, deserialize_with = "present", skip_serializing_if = "Option::is_none")]
     pub result: Option<serde_json::Value>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub error: Option<RpcError>,
     pub id: RequestId,
 }
 
+/// A result of `null` is a result
+fn present<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<Option<serde_json::Value>, D::Error> {
+    serde_json::Value::deserialize(deserializer).map(Some)
+}
+
 /// JSON-RPC notification message (no id, no response expected)
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct Notification {
-- 
2.43.0


From 164bfd2d1132f9ca1cf21c795a34e0f884a74ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 76/89] fix: malformed protocol versions are not compatible

---
 crates/hodu_plugin_runtime/src/client.rs | 26 +++++++++---------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index cb5a32b..440629f 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -417,24 +417,18 @@ pub enum ClientError {
 /// - For 0.x.y: major.minor must match (unstable API)
 /// - For >= 1.0.0: major must match
 fn is_protocol_compatible(v1: &str, v2: &str) -> bool {
-    let parts1: Vec<u32> = v1.split('.').filter_map(|s| s.parse().ok()).collect();
-    let parts2: Vec<u32> = v2.split('.').filter_map(|s| s.parse().ok()).collect();
-
-    let (major1, minor1) = (
-        parts1.first().copied().unwrap_or(0),
-        parts1.get(1).copied().unwrap_or(0),
-    );
-    let (major2, minor2) = (
-        parts2.first().copied().unwrap_or(0),
-        parts2.get(1).copied().unwrap_or(0),
-    );
-
-    if major1 == 0 || major2 == 0 {
+    let major_minor = |v: &str| {
+        let mut parts = v.split('.').map(|s| s.parse::<u32>().ok());
+        (parts.next().flatten(), parts.next().flatten())
+    };
+
+    match (major_minor(v1), major_minor(v2)) {
         // Pre-1.0: major.minor must match
-        major1 == major2 && minor1 == minor2
-    } else {
+        ((Some(0), Some(minor1)), (Some(0), Some(minor2))) => minor1 == minor2,
+        ((Some(0), _), _) => false,
         // Post-1.0: major must match
-        major1 == major2
+        ((Some(major1), _), (Some(major2), _)) => major1 == major2,
+        _ => false,
     }
 }
 
-- 
2.43.0


From c1b0dd62168f1bae944f545a0b4f30b1dbb007c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 77/89] fix: the inputs of a run are not shared with other runs
 and stay in its directory

---
 crates/hodu_plugin_runtime/src/runtime.rs | 27 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/runtime.rs b/crates/hodu_plugin_runtime/src/runtime.rs
index aea0cbb..863b776 100644
--- a/crates/hodu_plugin_runtime/src/runtime.rs
+++ b/crates/hodu_plugin_runtime/src/runtime.rs
@@ -25,6 +25,7 @@ use hodu_core::types::DType;
 use hodu_plugin::rpc::TensorInput;
 use hodu_plugin::tensor::PluginDType;
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 /// High-level runtime for model loading and execution
 pub struct Runtime {
@@ -147,12 +148,11 @@ impl Runtime {
         };
 
         // Prepare inputs - save to temp files
-        let temp_dir = std::env::temp_dir().join("hodu_runtime");
-        std::fs::create_dir_all(&temp_dir).map_err(|e| RuntimeError::Io(e.to_string()))?;
+        let temp_dir = TempDir::new()?;
 
         let mut tensor_inputs = Vec::new();
-        for (name, tensor) in inputs {
-            let input_path = temp_dir.join(format!("{}.hdt", name));
+        for (index, (name, tensor)) in inputs.iter().enumerate() {
+            let input_path = temp_dir.0.join(format!("input_{}.hdt", index));
             hdt::save(tensor, &input_path)
                 .map_err(|e| RuntimeError::Other(format!("Failed to save input tensor: {}", e)))?;
 
@@ -194,6 +194,25 @@ impl Runtime {
     }
 }
 
+/// Directory for the input files of one run
+struct TempDir(PathBuf);
+
+impl TempDir {
+    fn new() -> Result<Self, RuntimeError> {
+        static COUNTER: AtomicUsize = AtomicUsize::new(0);
+        let run = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let path = std::env::temp_dir().join(format!("hodu_runtime_{}_{}", std::process::id(), run));
+        std::fs::create_dir_all(&path).map_err(|e| RuntimeError::Io(e.to_string()))?;
+        Ok(Self(path))
+    }
+}
+
+impl Drop for TempDir {
+    fn drop(&mut self) {
+        let _ = std::fs::remove_dir_all(&self.0);
+    }
+}
+
 /// A loaded model ready for execution
 pub struct Model {
     snapshot_path: PathBuf,
-- 
2.43.0


From 7e6eef440c9ddd0770a0f26e65239fd51ab0f6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 78/89] fix: a failed or interrupted save keeps the saved
 plugin registry

---
 crates/hodu_plugin_runtime/src/registry.rs | 36 ++++++++++++----------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/registry.rs b/crates/hodu_plugin_runtime/src/registry.rs
index 660c4c7..eefa8a1 100644
--- a/crates/hodu_plugin_runtime/src/registry.rs
+++ b/crates/hodu_plugin_runtime/src/registry.rs
@@ -3,8 +3,10 @@
 pub use super::types::{DetectedPluginType, PluginEntry, PluginType};
 use fs2::FileExt;
 use serde::{Deserialize, Serialize};
-use std::fs::OpenOptions;
+use std::fs::{File, OpenOptions};
+use std::io::Write;
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 /// Plugin registry stored in ~/.hodu/plugins.json
 #[derive(Debug, Clone, Serialize, Deserialize, Default)]
@@ -39,7 +41,7 @@ impl PluginRegistry {
             .map_err(|e| RegistryError::Io(e.to_string()))?;
 
         // Acquire shared lock for reading
-        file.lock_shared().map_err(|e| RegistryError::Lock(e.to_string()))?;
+        FileExt::lock_shared(&file).map_err(|e| RegistryError::Lock(e.to_string()))?;
 
         let content = std::fs::read_to_string(path).map_err(|e| RegistryError::Io(e.to_string()))?;
 
@@ -49,29 +51,29 @@ impl PluginRegistry {
         Ok(registry)
     }
 
-    /// Save registry to file with exclusive lock
+    /// Save registry to file
     pub fn save(&self, path: &Path) -> Result<(), RegistryError> {
         // Ensure parent directory exists
         if let Some(parent) = path.parent() {
             std::fs::create_dir_all(parent).map_err(|e| RegistryError::Io(e.to_string()))?;
         }
 
-        let file = OpenOptions::new()
-            .write(true)
-            .create(true)
-            .truncate(true)
-            .open(path)
-            .map_err(|e| RegistryError::Io(e.to_string()))?;
-
-        // Acquire exclusive lock for writing
-        file.lock_exclusive().map_err(|e| RegistryError::Lock(e.to_string()))?;
-
         let content = serde_json::to_string_pretty(self).map_err(|e| RegistryError::Serialize(e.to_string()))?;
 
-        std::fs::write(path, content).map_err(|e| RegistryError::Io(e.to_string()))?;
-
-        // Lock released when file is dropped
-        Ok(())
+        // Write the whole new file beside the old one and then replace it, so that a failure leaves the old one
+        let path = std::fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+        static COUNTER: AtomicUsize = AtomicUsize::new(0);
+        let save = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let mut temp_path = path.as_os_str().to_os_string();
+        temp_path.push(format!(".{}.{}.tmp", std::process::id(), save));
+
+        let written = File::create(&temp_path)
+            .and_then(|mut file| file.write_all(content.as_bytes()).and_then(|_| file.sync_all()))
+            .and_then(|_| std::fs::rename(&temp_path, &path));
+        if written.is_err() {
+            let _ = std::fs::remove_file(&temp_path);
+        }
+        written.map_err(|e| RegistryError::Io(e.to_string()))
     }
 
     /// Get default registry path (~/.hodu/plugins.json)
-- 
2.43.0


From cb477397710d5c0900857fcc882ee0d8d81b90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 79/89] fix: a plugin server survives bad input and panics, and
 answers every request with its id

---
 hodu-plugin-sdk/src/server.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/hodu-plugin-sdk/src/server.rs b/hodu-plugin-sdk/src/server.rs
index 5553a39..d63b058 100644
--- a/hodu-plugin-sdk/src/server.rs
+++ b/hodu-plugin-sdk/src/server.rs
@@ -10,6 +10,7 @@ use crate::PLUGIN_VERSION;
 use serde::{de::DeserializeOwned, Serialize};
 use std::collections::HashMap;
 use std::io::{BufRead, BufReader, Write};
+use std::panic::{catch_unwind, AssertUnwindSafe};
 
 // ============================================================================
 // Notification helpers (can be called from handlers)
@@ -162,13 +163,14 @@ impl PluginServer {
         let mut stdout = std::io::stdout();
         let reader = BufReader::new(stdin.lock());
 
-        for line in reader.lines() {
+        for line in reader.split(b'\n') {
             let line = line?;
+            let line = line.strip_suffix(b"\r").unwrap_or(&line);
             if line.is_empty() {
                 continue;
             }
 
-            let response = self.handle_message(&line);
+            let response = self.handle_message(line);
             if let Some(resp) = response {
                 let json = serde_json::to_string(&resp)?;
                 writeln!(stdout, "{}", json)?;
@@ -179,10 +181,9 @@ impl PluginServer {
         Ok(())
     }
 
-    fn handle_message(&mut self, line: &str) -> Option<Response> {
-        // Parse request
-        let request: Request = match serde_json::from_str(line) {
-            Ok(req) => req,
+    fn handle_message(&mut self, line: &[u8]) -> Option<Response> {
+        let value: serde_json::Value = match serde_json::from_slice(line) {
+            Ok(value) => value,
             Err(e) => {
                 return Some(Response::error(
                     RequestId::Number(0),
@@ -191,6 +192,23 @@ impl PluginServer {
             },
         };
 
+        // A notification is not answered
+        if value.get("id").is_none() && value.get("method").is_some_and(|method| method.is_string()) {
+            return None;
+        }
+
+        // Parse request
+        let id = value.get("id").and_then(|id| serde_json::from_value(id.clone()).ok());
+        let request: Request = match serde_json::from_value(value) {
+            Ok(req) => req,
+            Err(e) => {
+                return Some(Response::error(
+                    id.unwrap_or(RequestId::Number(0)),
+                    RpcError::invalid_request(e.to_string()),
+                ));
+            },
+        };
+
         let id = request.id.clone();
 
         // Handle based on method
@@ -204,7 +222,9 @@ impl PluginServer {
                 if !self.initialized {
                     Err(RpcError::new(error_codes::INVALID_REQUEST, "Server not initialized"))
                 } else if let Some(handler) = self.handlers.get(method) {
-                    handler(request.params)
+                    // A panic in a handler fails its request only
+                    catch_unwind(AssertUnwindSafe(|| handler(request.params)))
+                        .unwrap_or_else(|_| Err(RpcError::internal_error("Handler panicked")))
                 } else {
                     Err(RpcError::method_not_found(method))
                 }
-- 
2.43.0


From cafa439bcf43b7383656e666d8569f51a331d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 80/89] fix: a JSON input of a run is read like any JSON tensor
 file

---
 hodu-cli/src/tensor/loader.rs | 110 ++++------------------------------
 1 file changed, 12 insertions(+), 98 deletions(-)

diff --git a/hodu-cli/src/tensor/loader.rs b/hodu-cli/src/tensor/loader.rs
index 807d12e..3c9b854 100644
--- a/hodu-cli/src/tensor/loader.rs
+++ b/hodu-cli/src/tensor/loader.rs
@@ -1,6 +1,7 @@
 //! Tensor loading utilities
 
-use hodu_core::format::hdt;
+use hodu_core::format::{hdt, json};
+use hodu_core::tensor::Tensor;
 use hodu_plugin::{PluginDType, TensorData};
 use std::path::PathBuf;
 
@@ -9,22 +10,22 @@ pub fn load_tensor_file(
     expected_shape: &[usize],
     expected_dtype: PluginDType,
 ) -> Result<TensorData, Box<dyn std::error::Error>> {
-    let ext = path.extension().and_then(|e| e.to_str()).unwrap_or("");
+    let ext = path.extension().and_then(|e| e.to_str()).unwrap_or("").to_lowercase();
 
-    match ext {
-        "hdt" => load_tensor_hdt(path, expected_shape, expected_dtype),
-        "json" => load_tensor_json(path, expected_shape, expected_dtype),
-        _ => Err(format!("Unsupported tensor format: .{}\nSupported: .hdt, .json", ext).into()),
-    }
+    let tensor = match ext.as_str() {
+        "hdt" => hdt::load(path).map_err(|e| format!("Failed to load HDT file: {}", e))?,
+        "json" => json::load(path).map_err(|e| format!("Failed to load JSON file: {}", e))?,
+        _ => return Err(format!("Unsupported tensor format: .{}\nSupported: .hdt, .json", ext).into()),
+    };
+
+    check_tensor(&tensor, expected_shape, expected_dtype)
 }
 
-fn load_tensor_hdt(
-    path: &PathBuf,
+fn check_tensor(
+    tensor: &Tensor,
     expected_shape: &[usize],
     expected_dtype: PluginDType,
 ) -> Result<TensorData, Box<dyn std::error::Error>> {
-    let tensor = hdt::load(path).map_err(|e| format!("Failed to load HDT file: {}", e))?;
-
     let shape: Vec<usize> = tensor.shape().dims().to_vec();
     let dtype: PluginDType = core_dtype_to_plugin(tensor.dtype());
 
@@ -52,59 +53,6 @@ fn load_tensor_hdt(
     Ok(TensorData::new(data, shape, dtype))
 }
 
-fn load_tensor_json(
-    path: &PathBuf,
-    expected_shape: &[usize],
-    expected_dtype: PluginDType,
-) -> Result<TensorData, Box<dyn std::error::Error>> {
-    let content = std::fs::read_to_string(path)?;
-    let json: serde_json::Value = serde_json::from_str(&content)?;
-
-    let obj = json
-        .as_object()
-        .ok_or("JSON must be an object with shape, dtype, data")?;
-
-    let shape: Vec<usize> = obj
-        .get("shape")
-        .and_then(|v| v.as_array())
-        .ok_or("Missing 'shape' field")?
-        .iter()
-        .map(|v| v.as_u64().map(|n| n as usize).ok_or("Invalid shape dimension"))
-        .collect::<Result<Vec<_>, _>>()?;
-
-    if shape != expected_shape {
-        return Err(format!(
-            "Shape mismatch: file has {:?}, model expects {:?}",
-            shape, expected_shape
-        )
-        .into());
-    }
-
-    let dtype_str = obj
-        .get("dtype")
-        .and_then(|v| v.as_str())
-        .ok_or("Missing 'dtype' field")?;
-    let dtype = str_to_plugin_dtype(dtype_str)?;
-
-    if dtype != expected_dtype {
-        return Err(format!(
-            "DType mismatch: file has {}, model expects {}",
-            dtype.name(),
-            expected_dtype.name()
-        )
-        .into());
-    }
-
-    let data_arr = obj
-        .get("data")
-        .and_then(|v| v.as_array())
-        .ok_or("Missing 'data' field")?;
-
-    let data = json_array_to_bytes(data_arr, dtype)?;
-
-    Ok(TensorData::new(data, shape, dtype))
-}
-
 pub fn str_to_plugin_dtype(s: &str) -> Result<PluginDType, Box<dyn std::error::Error>> {
     s.parse::<PluginDType>().map_err(|e| e.into())
 }
@@ -129,37 +77,3 @@ fn core_dtype_to_plugin(dtype: hodu_core::types::DType) -> PluginDType {
         DType::I64 => PluginDType::I64,
     }
 }
-
-fn json_array_to_bytes(arr: &[serde_json::Value], dtype: PluginDType) -> Result<Vec<u8>, Box<dyn std::error::Error>> {
-    let mut bytes = Vec::with_capacity(arr.len() * dtype.size_in_bytes());
-
-    match dtype {
-        PluginDType::F32 => {
-            for v in arr {
-                let f = v.as_f64().ok_or("Expected number")? as f32;
-                bytes.extend_from_slice(&f.to_le_bytes());
-            }
-        },
-        PluginDType::F64 => {
-            for v in arr {
-                let f = v.as_f64().ok_or("Expected number")?;
-                bytes.extend_from_slice(&f.to_le_bytes());
-            }
-        },
-        PluginDType::I32 => {
-            for v in arr {
-                let n = v.as_i64().ok_or("Expected integer")? as i32;
-                bytes.extend_from_slice(&n.to_le_bytes());
-            }
-        },
-        PluginDType::I64 => {
-            for v in arr {
-                let n = v.as_i64().ok_or("Expected integer")?;
-                bytes.extend_from_slice(&n.to_le_bytes());
-            }
-        },
-        _ => return Err(format!("Unsupported dtype for JSON input: {}", dtype.name()).into()),
-    }
-
-    Ok(bytes)
-}
-- 
2.43.0


From 3135e4176e7708338c0fa749567d58551bc7a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 81/89] fix: names from arguments and plugins do not lead
 outside the directories of the CLI

---
 hodu-cli/src/commands/clean.rs          | 7 +++++++
 hodu-cli/src/commands/plugin.rs         | 3 ++-
 hodu-cli/src/commands/plugin/install.rs | 5 +++++
 hodu-cli/src/lib.rs                     | 1 +
 hodu-cli/src/names.rs                   | 9 +++++++++
 hodu-cli/src/tensor/saver.rs            | 7 +++++++
 6 files changed, 31 insertions(+), 1 deletion(-)
 create mode 100644 hodu-cli/src/names.rs

diff --git a/hodu-cli/src/commands/clean.rs b/hodu-cli/src/commands/clean.rs
index d999ef5..f239e6e 100644
--- a/hodu-cli/src/commands/clean.rs
+++ b/hodu-cli/src/commands/clean.rs
@@ -1,5 +1,6 @@
 //! Clean command - remove cached build artifacts
 
+use crate::names::is_plain_name;
 use crate::output;
 use clap::Args;
 use std::path::PathBuf;
@@ -20,6 +21,12 @@ pub struct CleanArgs {
 }
 
 pub fn execute(args: CleanArgs) -> Result<(), Box<dyn std::error::Error>> {
+    if let Some(backend) = &args.backend {
+        if !is_plain_name(backend) {
+            return Err(format!("Invalid backend name: '{}'", backend).into());
+        }
+    }
+
     let hodu_dir = dirs::home_dir()
         .ok_or("Could not determine home directory")?
         .join(".hodu");
diff --git a/hodu-cli/src/commands/plugin.rs b/hodu-cli/src/commands/plugin.rs
index e4d2e6e..5038d66 100644
--- a/hodu-cli/src/commands/plugin.rs
+++ b/hodu-cli/src/commands/plugin.rs
@@ -5,6 +5,7 @@
 mod install;
 mod update;
 
+use crate::names::is_plain_name;
 use crate::output;
 use crate::plugins::{PluginManager, PluginRegistry, PluginSource};
 use clap::{Args, Subcommand};
@@ -527,7 +528,7 @@ fn remove_plugin(args: RemoveArgs) -> Result<(), Box<dyn std::error::Error>> {
 
     output::removing(&format!("{} v{}", name, version));
 
-    if plugin_dir.exists() {
+    if is_plain_name(&name) && plugin_dir.exists() {
         std::fs::remove_dir_all(&plugin_dir)?;
     }
 
diff --git a/hodu-cli/src/commands/plugin/install.rs b/hodu-cli/src/commands/plugin/install.rs
index 42357de..1a03fcf 100644
--- a/hodu-cli/src/commands/plugin/install.rs
+++ b/hodu-cli/src/commands/plugin/install.rs
@@ -1,5 +1,6 @@
 //! Plugin installation logic
 
+use crate::names::is_plain_name;
 use crate::output;
 use crate::plugins::{
     detect_plugin_type, DetectedPluginType, PluginCapabilities, PluginEntry, PluginRegistry, PluginSource, PluginType,
@@ -330,6 +331,10 @@ pub fn install_from_path(
         }
     };
 
+    if !is_plain_name(&name) {
+        return Err(format!("Invalid plugin name: '{}'", name).into());
+    }
+
     // Check plugin protocol version compatibility
     let host_parts: Vec<u32> = PLUGIN_VERSION.split('.').filter_map(|s| s.parse().ok()).collect();
     let plugin_parts: Vec<u32> = plugin_version.split('.').filter_map(|s| s.parse().ok()).collect();
diff --git a/hodu-cli/src/lib.rs b/hodu-cli/src/lib.rs
index 69e22ca..d9682d1 100644
--- a/hodu-cli/src/lib.rs
+++ b/hodu-cli/src/lib.rs
@@ -1,4 +1,5 @@
 pub mod commands;
+pub mod names;
 pub mod output;
 pub mod plugins;
 pub mod tensor;
diff --git a/hodu-cli/src/names.rs b/hodu-cli/src/names.rs
new file mode 100644
index 0000000..1663512
--- /dev/null
+++ b/hodu-cli/src/names.rs
@@ -0,0 +1,9 @@
+//! Names used as file or directory names
+
+use std::path::{Component, Path};
+
+/// Check that a name is a single path component, so joining it to a directory stays in that directory
+pub fn is_plain_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    matches!(components.next(), Some(Component::Normal(c)) if c == name) && components.next().is_none()
+}
diff --git a/hodu-cli/src/tensor/saver.rs b/hodu-cli/src/tensor/saver.rs
index 19a3795..1de978f 100644
--- a/hodu-cli/src/tensor/saver.rs
+++ b/hodu-cli/src/tensor/saver.rs
@@ -1,5 +1,6 @@
 //! Tensor saving utilities
 
+use crate::names::is_plain_name;
 use hodu_core::format::{hdt, json};
 use hodu_core::tensor::Tensor;
 use hodu_core::types::{DType, Device as CoreDevice, Shape};
@@ -12,6 +13,12 @@ pub fn save_outputs(
     save_dir: &Path,
     format: &str,
 ) -> Result<(), Box<dyn std::error::Error>> {
+    for name in outputs.keys() {
+        if !is_plain_name(name) {
+            return Err(format!("Cannot save output '{}': not a file name", name).into());
+        }
+    }
+
     std::fs::create_dir_all(save_dir)?;
 
     for (name, data) in outputs {
-- 
2.43.0


From cfbbe90a312dd50ed9a3e604e5003f4d908900b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 82/89] fix: the input files of hodu run are removed and not
 named after the inputs

---
 hodu-cli/src/commands/run.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/hodu-cli/src/commands/run.rs b/hodu-cli/src/commands/run.rs
index 97dc5d5..7e27c6a 100644
--- a/hodu-cli/src/commands/run.rs
+++ b/hodu-cli/src/commands/run.rs
@@ -166,9 +166,10 @@ pub fn execute(args: RunArgs) -> Result<(), Box<dyn std::error::Error>> {
     let inputs = parse_inputs(&all_inputs, &snapshot)?;
 
     // Save input tensors to temp files and create TensorInput refs
+    let temp_dir = TempDir::new()?;
     let mut input_refs = Vec::new();
-    for (name, tensor_data) in &inputs {
-        let temp_path = std::env::temp_dir().join(format!("hodu_input_{}_{}.hdt", name, std::process::id()));
+    for (index, (name, tensor_data)) in inputs.iter().enumerate() {
+        let temp_path = temp_dir.0.join(format!("input_{}.hdt", index));
         save_tensor_data(tensor_data, &temp_path)?;
         input_refs.push(TensorInput {
             name: name.clone(),
@@ -271,6 +272,23 @@ pub fn execute(args: RunArgs) -> Result<(), Box<dyn std::error::Error>> {
     Ok(())
 }
 
+/// Directory for the input files of one run
+struct TempDir(PathBuf);
+
+impl TempDir {
+    fn new() -> std::io::Result<Self> {
+        let path = std::env::temp_dir().join(format!("hodu_run_{}", std::process::id()));
+        std::fs::create_dir_all(&path)?;
+        Ok(Self(path))
+    }
+}
+
+impl Drop for TempDir {
+    fn drop(&mut self) {
+        let _ = std::fs::remove_dir_all(&self.0);
+    }
+}
+
 fn parse_inputs(
     input_args: &[String],
     snapshot: &Snapshot,
-- 
2.43.0


From 4f8b25f1870118e0d5b425c1b314acd653215c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 83/89] fix: hodu run only uses a complete library built for
 the same device and backend version

---
 hodu-cli/src/commands/run.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hodu-cli/src/commands/run.rs b/hodu-cli/src/commands/run.rs
index 7e27c6a..1990315 100644
--- a/hodu-cli/src/commands/run.rs
+++ b/hodu-cli/src/commands/run.rs
@@ -194,11 +194,15 @@ pub fn execute(args: RunArgs) -> Result<(), Box<dyn std::error::Error>> {
         .ok();
     }
 
-    // Compute cache key from snapshot content
+    // Compute cache key from snapshot content and what the library is built for
     let snapshot_content = std::fs::read(&snapshot_path).map_err(|e| format!("Failed to read snapshot: {}", e))?;
     let mut hasher = Sha256::new();
     hasher.update(&snapshot_content);
     hasher.update(current_target_triple().as_bytes());
+    for part in [&device, &backend_plugin.version] {
+        hasher.update([0]);
+        hasher.update(part.as_bytes());
+    }
     let snapshot_hash = hex::encode(hasher.finalize());
 
     // Determine library extension and cache path
@@ -223,13 +227,20 @@ pub fn execute(args: RunArgs) -> Result<(), Box<dyn std::error::Error>> {
     let start = std::time::Instant::now();
     if !library_path.exists() {
         output::compiling(&format!("{} ({})", model_name, device));
-        backend_client.build(
+        // Build under another name, so that only a complete library is found in the cache
+        let build_path = cache_dir.join(format!("{}.{}.tmp.{}", snapshot_hash, std::process::id(), lib_ext));
+        let built = backend_client.build(
             path_to_str(&snapshot_path)?,
             &current_target_triple(),
             &device,
             "sharedlib",
-            path_to_str(&library_path)?,
-        )?;
+            path_to_str(&build_path)?,
+        );
+        if let Err(e) = built {
+            let _ = std::fs::remove_file(&build_path);
+            return Err(e.into());
+        }
+        std::fs::rename(&build_path, &library_path).map_err(|e| format!("Backend did not produce a library: {}", e))?;
     } else {
         output::cached(&format!("{}", model_name));
     }
-- 
2.43.0


From d63331bbf28abf72e38ddadfaf548c1a8c5965aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 84/89] fix: hodu convert keeps a snapshot converted onto
 itself and removes its temporary file

---
 hodu-cli/src/commands/convert.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hodu-cli/src/commands/convert.rs b/hodu-cli/src/commands/convert.rs
index 28f8a17..f050c4a 100644
--- a/hodu-cli/src/commands/convert.rs
+++ b/hodu-cli/src/commands/convert.rs
@@ -103,8 +103,9 @@ fn convert_model(
 
     // Step 2: Save to output format
     if output_ext == "hdss" {
-        // Just copy the snapshot
-        std::fs::copy(&snapshot_path, &args.output)?;
+        // Just copy the snapshot (copying a file onto itself would empty it)
+        let content = std::fs::read(&snapshot_path)?;
+        std::fs::write(&args.output, content)?;
     } else {
         // Use model format plugin to save
         let plugin = registry
@@ -191,10 +192,14 @@ fn convert_tensor(
             let temp_path = std::env::temp_dir().join(format!("hodu_convert_{}.hdt", std::process::id()));
             save_tensor_data(&tensor_data, &temp_path)?;
 
-            let client = manager.get_plugin(&plugin.name)?;
-            client.save_tensor(path_to_str(&temp_path)?, path_to_str(&args.output)?)?;
+            let saved = path_to_str(&temp_path).and_then(|temp| {
+                let client = manager.get_plugin(&plugin.name)?;
+                client.save_tensor(temp, path_to_str(&args.output)?)?;
+                Ok(())
+            });
 
             let _ = std::fs::remove_file(&temp_path);
+            saved?;
         },
     }
 
-- 
2.43.0


From b0fc059aa82bfdcf867c347b5ad8c8cc18ab675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 85/89] fix: the broadcast shape of two shapes aligns their
 last dimensions and keeps empty ones

---
 crates/hodu_core/src/types/shape.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/hodu_core/src/types/shape.rs b/crates/hodu_core/src/types/shape.rs
index 3b784c6..13d2247 100644
--- a/crates/hodu_core/src/types/shape.rs
+++ b/crates/hodu_core/src/types/shape.rs
@@ -113,17 +113,20 @@ impl Shape {
         let mut result_dims = SmallVec::with_capacity(max_ndim);
 
         for i in 0..max_ndim {
-            let lhs_idx = lhs.ndim().saturating_sub(max_ndim - i);
-            let rhs_idx = rhs.ndim().saturating_sub(max_ndim - i);
-
-            let lhs_dim = lhs.dims.get(lhs_idx).copied().unwrap_or(1);
-            let rhs_dim = rhs.dims.get(rhs_idx).copied().unwrap_or(1);
+            // Dimensions are aligned from the last one
+            let aligned = |shape: &Shape| {
+                (i + shape.ndim())
+                    .checked_sub(max_ndim)
+                    .map_or(1, |idx| shape.dims[idx])
+            };
+            let lhs_dim = aligned(lhs);
+            let rhs_dim = aligned(rhs);
 
             if lhs_dim != rhs_dim && lhs_dim != 1 && rhs_dim != 1 {
                 return None;
             }
 
-            result_dims.push(lhs_dim.max(rhs_dim));
+            result_dims.push(if lhs_dim == 1 { rhs_dim } else { lhs_dim });
         }
 
         Some(Shape { dims: result_dims })
-- 
2.43.0


From 350ebe1c986a5a90eb79b129158df1871193ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 86/89] fix: a symbolic layout keeps its offset when it becomes
 a layout

---
 crates/hodu_core/src/types/symbolic_layout.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_core/src/types/symbolic_layout.rs b/crates/hodu_core/src/types/symbolic_layout.rs
index 492bdde..adafb55 100644
--- a/crates/hodu_core/src/types/symbolic_layout.rs
+++ b/crates/hodu_core/src/types/symbolic_layout.rs
@@ -108,7 +108,9 @@ impl SymbolicLayout {
     pub fn to_concrete(&self) -> Option<Layout> {
         if self.is_fully_concrete() {
             let shape = self.shape.to_concrete()?;
-            Some(Layout::new(shape, self.strides.to_vec()))
+            let mut layout = Layout::new(shape, self.strides.to_vec());
+            layout.set_offset(self.offset);
+            Some(layout)
         } else {
             None
         }
@@ -118,7 +120,9 @@ impl SymbolicLayout {
     /// Returns None if any dynamic dimension lacks a max_bound
     pub fn to_max_layout(&self) -> Option<Layout> {
         let max_shape = self.shape.to_max_shape()?;
-        Some(Layout::new(max_shape, self.strides.to_vec()))
+        let mut layout = Layout::new(max_shape, self.strides.to_vec());
+        layout.set_offset(self.offset);
+        Some(layout)
     }
 
     /// Computes contiguous strides using max_bound for dynamic dimensions
-- 
2.43.0


From f3572099cee09554b08d3bde51a96bf880ff1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 87/89] fix: nested data with an empty part deeper inside has a
 shape instead of panicking

---
 crates/hodu_core/src/into/flatten.rs | 359 +++++++--------------------
 1 file changed, 91 insertions(+), 268 deletions(-)

diff --git a/crates/hodu_core/src/into/flatten.rs b/crates/hodu_core/src/into/flatten.rs
index 3243de9..86bfd7c 100644
--- a/crates/hodu_core/src/into/flatten.rs
+++ b/crates/hodu_core/src/into/flatten.rs
@@ -96,10 +96,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0]
-                } else {
-                    vec![self.len(), self[0].len(), self[0][0].len()]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 3],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -134,10 +137,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0, 0]
-                } else {
-                    vec![self.len(), self[0].len(), self[0][0].len(), self[0][0][0].len()]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 4],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -178,16 +184,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0, 0, 0]
-                } else {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                    ]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 5],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -234,17 +237,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0, 0, 0, 0]
-                } else {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        self[0][0][0][0][0].len(),
-                    ]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 6],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -297,18 +296,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0, 0, 0, 0, 0]
-                } else {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        self[0][0][0][0][0].len(),
-                        self[0][0][0][0][0][0].len(),
-                    ]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 7],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -369,19 +363,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0, 0, 0, 0, 0, 0]
-                } else {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        self[0][0][0][0][0].len(),
-                        self[0][0][0][0][0][0].len(),
-                        self[0][0][0][0][0][0][0].len(),
-                    ]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 8],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -673,12 +661,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0]
-                } else if self[0].is_empty() {
-                    vec![self.len(), 0, 0]
-                } else {
-                    vec![self.len(), self[0].len(), self[0][0].len()]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 3],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -705,14 +694,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0, 0]
-                } else if self[0].is_empty() {
-                    vec![self.len(), 0, 0, 0]
-                } else if self[0][0].is_empty() {
-                    vec![self.len(), self[0].len(), 0, 0]
-                } else {
-                    vec![self.len(), self[0].len(), self[0][0].len(), self[0][0][0].len()]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 4],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -741,22 +729,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0, 0, 0]
-                } else if self[0].is_empty() {
-                    vec![self.len(), 0, 0, 0, 0]
-                } else if self[0][0].is_empty() {
-                    vec![self.len(), self[0].len(), 0, 0, 0]
-                } else if self[0][0][0].is_empty() {
-                    vec![self.len(), self[0].len(), self[0][0].len(), 0, 0]
-                } else {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                    ]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 5],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -787,32 +766,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0, 0, 0, 0]
-                } else if self[0].is_empty() {
-                    vec![self.len(), 0, 0, 0, 0, 0]
-                } else if self[0][0].is_empty() {
-                    vec![self.len(), self[0].len(), 0, 0, 0, 0]
-                } else if self[0][0][0].is_empty() {
-                    vec![self.len(), self[0].len(), self[0][0].len(), 0, 0, 0]
-                } else if self[0][0][0][0].is_empty() {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        0,
-                        0,
-                    ]
-                } else {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        self[0][0][0][0][0].len(),
-                    ]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 6],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -845,44 +805,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0, 0, 0, 0, 0]
-                } else if self[0].is_empty() {
-                    vec![self.len(), 0, 0, 0, 0, 0, 0]
-                } else if self[0][0].is_empty() {
-                    vec![self.len(), self[0].len(), 0, 0, 0, 0, 0]
-                } else if self[0][0][0].is_empty() {
-                    vec![self.len(), self[0].len(), self[0][0].len(), 0, 0, 0, 0]
-                } else if self[0][0][0][0].is_empty() {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        0,
-                        0,
-                        0,
-                    ]
-                } else if self[0][0][0][0][0].is_empty() {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        0,
-                        0,
-                    ]
-                } else {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        self[0][0][0][0][0].len(),
-                        self[0][0][0][0][0][0].len(),
-                    ]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 7],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -917,58 +846,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0, 0, 0, 0, 0, 0]
-                } else if self[0].is_empty() {
-                    vec![self.len(), 0, 0, 0, 0, 0, 0, 0]
-                } else if self[0][0].is_empty() {
-                    vec![self.len(), self[0].len(), 0, 0, 0, 0, 0, 0]
-                } else if self[0][0][0].is_empty() {
-                    vec![self.len(), self[0].len(), self[0][0].len(), 0, 0, 0, 0, 0]
-                } else if self[0][0][0][0].is_empty() {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        0,
-                        0,
-                        0,
-                        0,
-                    ]
-                } else if self[0][0][0][0][0].is_empty() {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        0,
-                        0,
-                        0,
-                    ]
-                } else if self[0][0][0][0][0][0].is_empty() {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        self[0][0][0][0][0].len(),
-                        0,
-                        0,
-                    ]
-                } else {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        self[0][0][0][0][0].len(),
-                        self[0][0][0][0][0][0].len(),
-                        self[0][0][0][0][0][0][0].len(),
-                    ]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 8],
                 }
             }
             fn get_dtype(&self) -> DType {
@@ -1005,74 +889,13 @@ macro_rules! into_flattened_impl {
                 flat
             }
             fn get_shape_vec(&self) -> Vec<usize> {
-                if self.is_empty() {
-                    vec![0, 0, 0, 0, 0, 0, 0, 0, 0]
-                } else if self[0].is_empty() {
-                    vec![self.len(), 0, 0, 0, 0, 0, 0, 0, 0]
-                } else if self[0][0].is_empty() {
-                    vec![self.len(), self[0].len(), 0, 0, 0, 0, 0, 0, 0]
-                } else if self[0][0][0].is_empty() {
-                    vec![self.len(), self[0].len(), self[0][0].len(), 0, 0, 0, 0, 0, 0]
-                } else if self[0][0][0][0].is_empty() {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        0,
-                        0,
-                        0,
-                        0,
-                        0,
-                    ]
-                } else if self[0][0][0][0][0].is_empty() {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        0,
-                        0,
-                        0,
-                        0,
-                    ]
-                } else if self[0][0][0][0][0][0].is_empty() {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        self[0][0][0][0][0].len(),
-                        0,
-                        0,
-                        0,
-                    ]
-                } else if self[0][0][0][0][0][0][0].is_empty() {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        self[0][0][0][0][0].len(),
-                        self[0][0][0][0][0][0].len(),
-                        0,
-                        0,
-                    ]
-                } else {
-                    vec![
-                        self.len(),
-                        self[0].len(),
-                        self[0][0].len(),
-                        self[0][0][0].len(),
-                        self[0][0][0][0].len(),
-                        self[0][0][0][0][0].len(),
-                        self[0][0][0][0][0][0].len(),
-                        self[0][0][0][0][0][0][0].len(),
-                        self[0][0][0][0][0][0][0][0].len(),
-                    ]
+                match self.first() {
+                    Some(part) => {
+                        let mut shape = vec![self.len()];
+                        shape.extend(part.get_shape_vec());
+                        shape
+                    },
+                    None => vec![0; 9],
                 }
             }
             fn get_dtype(&self) -> DType {
-- 
2.43.0


From 6c16f5fa48e9d704a3ccfe018e4a111fde3ab5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 88/89] fix: nested data whose parts differ in length is
 refused instead of giving a tensor with too few elements

---
 crates/hodu_core/src/into/flatten.rs    | 75 +++++++++++++++++++++++++
 crates/hodu_core/src/tensor/creation.rs | 13 +++++
 2 files changed, 88 insertions(+)

diff --git a/crates/hodu_core/src/into/flatten.rs b/crates/hodu_core/src/into/flatten.rs
index 86bfd7c..0bb7983 100644
--- a/crates/hodu_core/src/into/flatten.rs
+++ b/crates/hodu_core/src/into/flatten.rs
@@ -9,6 +9,10 @@ pub trait IntoFlattened: Sized {
 
     fn to_flatten_vec(self) -> Vec<Self::Elem>;
     fn get_shape_vec(&self) -> Vec<usize>;
+    /// Whether all parts of every nesting level have the shape `get_shape_vec` reports for them.
+    fn is_rectangular(&self) -> bool {
+        true
+    }
     fn get_dtype(&self) -> DType;
     fn to_cpu_storage(self) -> CpuStorage;
 }
@@ -70,6 +74,9 @@ macro_rules! into_flattened_impl {
                     vec![self.len(), self[0].len()]
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                self.iter().all(|row| row.len() == self[0].len())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -105,6 +112,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 3],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -146,6 +158,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 4],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -193,6 +210,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 5],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -246,6 +268,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 6],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -305,6 +332,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 7],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -372,6 +404,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 8],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -639,6 +676,9 @@ macro_rules! into_flattened_impl {
                     vec![self.len(), self[0].len()]
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                self.iter().all(|row| row.len() == self[0].len())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -670,6 +710,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 3],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -703,6 +748,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 4],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -738,6 +788,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 5],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -775,6 +830,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 6],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -814,6 +874,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 7],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -855,6 +920,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 8],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
@@ -898,6 +968,11 @@ macro_rules! into_flattened_impl {
                     None => vec![0; 9],
                 }
             }
+            fn is_rectangular(&self) -> bool {
+                let shape = self.get_shape_vec();
+                self.iter()
+                    .all(|part| part.get_shape_vec() == shape[1..] && part.is_rectangular())
+            }
             fn get_dtype(&self) -> DType {
                 $dtype
             }
diff --git a/crates/hodu_core/src/tensor/creation.rs b/crates/hodu_core/src/tensor/creation.rs
index c1cd1f8..62d8c24 100644
--- a/crates/hodu_core/src/tensor/creation.rs
+++ b/crates/hodu_core/src/tensor/creation.rs
@@ -121,6 +121,17 @@ fn f64_sequence(size: usize, value: impl Fn(usize) -> f64) -> HoduResult<Tensor>
     ))
 }
 
+/// Nested data has a shape only if the parts of each level have the same one.
+fn ensure_rectangular<T: IntoFlattened>(data: &T) -> HoduResult<()> {
+    if data.is_rectangular() {
+        Ok(())
+    } else {
+        Err(HoduError::InvalidArgument(
+            "nested data has parts of different lengths".to_string(),
+        ))
+    }
+}
+
 impl Tensor {
     // ========================================================================
     // From Data
@@ -132,6 +143,7 @@ impl Tensor {
         } else {
             get_runtime_device()
         };
+        ensure_rectangular(&data)?;
         let shape = Shape::from(&data.get_shape_vec());
         let layout = Layout::from_shape(&shape);
         let storage = BackendDevice::storage_from_flatten(data, device)?;
@@ -149,6 +161,7 @@ impl Tensor {
         } else {
             get_runtime_device()
         };
+        ensure_rectangular(&data)?;
         let data_shape_vec = data.get_shape_vec();
         let shape = shape.into();
         let data_shape = Shape::from(&data_shape_vec);
-- 
2.43.0


From 7fe1ef35c809ad1a1549262d2238264837a756e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 89/89] fix: a cancellation cannot reach the plugin before the
 request it names

---
 crates/hodu_plugin_runtime/src/client.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index 440629f..abae514 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -294,7 +294,11 @@ impl PluginClient {
             id: RequestId::Number(id_num),
         };
 
-        // Track current request ID for cancellation
+        // Send request
+        let json = serde_json::to_string(&request).map_err(ClientError::Serialize)?;
+        self.line_sender.send(json).map_err(|_| ClientError::ConnectionClosed)?;
+
+        // Track current request ID for cancellation (once sent, so that a cancellation cannot overtake its request)
         self.current_request_id.store(id_num, Ordering::SeqCst);
         let result = self.exchange(&request);
         self.current_request_id.store(0, Ordering::SeqCst);
@@ -304,10 +308,6 @@ impl PluginClient {
     fn exchange<R: serde::de::DeserializeOwned>(&mut self, request: &Request) -> Result<R, ClientError> {
         let started = Instant::now();
 
-        // Send request
-        let json = serde_json::to_string(request).map_err(ClientError::Serialize)?;
-        self.line_sender.send(json).map_err(|_| ClientError::ConnectionClosed)?;
-
         // Read response, handling notifications along the way
         loop {
             let remaining = self
-- 
2.43.0


From d7973fa5c6210148a9284ba5bb9a08dcc72cb562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 01/51] fix: quantize and dequantize 32 bit data types without
 int32 overflow

---
 core/itcl_quantization/quantization/operators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 7807f74..5882046 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -149,7 +149,7 @@ class Quantization(Generic[T]):
         Returns:
             np.ndarray: Dequantized Numpy Array
         """
-        return (np.array(data, dtype=np.int32) - zero_point) * scale
+        return (np.array(data, dtype=np.int64) - zero_point) * scale
 
     def round(self, data: input_type, extra=0.5) -> np.ndarray:
         """Rounds a numpy array of float64 quantized values to their nearest int8 value
@@ -158,8 +158,10 @@ class Quantization(Generic[T]):
             arr (np.ndarray): Numpy array of float64 quantized values.
         """
         rounded_data = np.floor(np.array(data) + extra)
+        # int32 can not hold the upper half of uint32
+        int_dtype = "int32" if self.dtype.max() <= np.iinfo(np.int32).max else "int64"
 
-        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype("int32")
+        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype(int_dtype)
 
     def float_activation(
         self,
-- 
2.43.0


From 3402d003824767bfef26cd172bdb54c3950fc2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 02/51] fix: do not truncate a LUT whose activation returns an
 integer first

---
 core/itcl_quantization/quantization/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 5882046..51be448 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -174,7 +174,8 @@ class Quantization(Generic[T]):
         )
         float_input = self.dequantize(quantized_input, input_zp, input_s)
 
-        apply_fn = np.vectorize(activation_fn)
+        # Without otypes, the dtype of the first result would truncate the other ones
+        apply_fn = np.vectorize(activation_fn, otypes=[np.float64])
 
         return apply_fn(float_input)
 
-- 
2.43.0


From 5ca1972c342e21fef8aa2da20edbcc78192ccc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 03/51] fix: tail thresholds of an asymmetric reduced LUT

---
 core/itcl_quantization/quantization/lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index ab1e261..d437310 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -135,8 +135,9 @@ class ReducedLUT:
         # Adjust the individual intervals if we are working with the tail
         if reverse:
             # intervals.reverse()
+            # The thresholds are indexes of the full LUT, lut might be a slice of its tail
             for i in range(len(intervals)):
-                intervals[i] = (len(lut) - intervals[i][0], intervals[i][1])
+                intervals[i] = (len(self.lut) - intervals[i][0], intervals[i][1])
 
         return shift, intervals
 
-- 
2.43.0


From 5edaee6c6d9c67c388101c2089accb372b22d48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 04/51] fix: iterate over a deserialized reduced LUT

---
 core/itcl_quantization/quantization/lut.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index d437310..d2268ee 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -175,6 +175,12 @@ class ReducedLUT:
         reduced_lut.right_tuples = json_lut["tail"]["tuples"]
         reduced_lut.reduced_lut = json_lut["reduced_lut"]
 
+        # Expand the LUT, as it is required to iterate over it
+        lut_len = reduced_lut.left_shift + len(reduced_lut.reduced_lut)
+        if reduced_lut.right_tuples:
+            lut_len = reduced_lut.right_tuples[-1][0] + reduced_lut.right_shift
+        reduced_lut.lut = [reduced_lut[i] for i in range(lut_len)]
+
         return reduced_lut
 
 
-- 
2.43.0


From c629b0ca2b41968e04ffd4fbd31e0d1d7f1005cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 05/51] fix: rescale the quantized RELU from the input zero
 point and saturate

---
 inference_engine/itcl_inference_engine/layers/common/relu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/common/relu.py b/inference_engine/itcl_inference_engine/layers/common/relu.py
index e48da1e..ca2af9c 100644
--- a/inference_engine/itcl_inference_engine/layers/common/relu.py
+++ b/inference_engine/itcl_inference_engine/layers/common/relu.py
@@ -2,6 +2,7 @@ import numpy as np
 from itcl_quantization.json.specification import Operator
 
 from itcl_inference_engine.layers.common.layer import ILayer
+from itcl_inference_engine.util.quantization import int8_quantization
 
 
 class RELU(ILayer):
@@ -34,6 +35,6 @@ class RELU(ILayer):
 
         y = (input_.astype(np.int16)).clip(min=self.input_zp)
 
-        relu = (self.output_zp + self.k * (y - self.output_zp)).astype(np.int8)
+        relu = self.output_zp + self.k * (y - self.input_zp)
 
-        return relu
+        return int8_quantization.round(relu).astype(np.int8)
-- 
2.43.0


From 8101ffbd70659cda2994a3dcb20d1e9cc41cb188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 06/51] fix: normalize each row of the ONNX Softmax without
 overflowing

---
 .../itcl_inference_engine/layers/onnx/softmax.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
index 06a19f5..49787e6 100644
--- a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
+++ b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
@@ -32,4 +32,7 @@ class Softmax(IOperator):
             np.ndarray: Float32 output tensor (Each value should be between 0 and 1)
         """
 
-        return np.exp(input_) / np.sum(np.exp(input_))
+        # Shifted by the maximum, as the exponential of a large input overflows
+        exp = np.exp(input_ - np.max(input_, axis=-1, keepdims=True))
+
+        return exp / np.sum(exp, axis=-1, keepdims=True)
-- 
2.43.0


From 0ead2c12aa3d8336f465377e27b67c29483bed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 07/51] fix: take into account the zero point of the LSTM
 states

---
 .../itcl_inference_engine/layers/itclq/lstm.py        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index 37f146a..bbfcee0 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -269,9 +269,11 @@ class LSTM(ILayer):
         # batch, window_len, n_features =  -> w, b , n
         input_norm = (input_ - self._input_zp).swapaxes(0, 1)
 
-        # Create the initial hidden state and cell state
-        hidden_state = [np.zeros((1, self._n_cells), dtype=np.int64)]
-        cell_state = np.zeros((1, self._n_cells), dtype=np.int64)
+        # Create the initial hidden state and cell state (the zero point is the real value 0)
+        hidden_state = [
+            np.full((1, self._n_cells), self._hidden_state_zp, dtype=np.int64)
+        ]
+        cell_state = np.full((1, self._n_cells), self._cell_state_zp, dtype=np.int64)
 
         inter = LSTMIntermediateTensors()
 
@@ -291,7 +293,8 @@ class LSTM(ILayer):
             for i, (recurrent_kernel, bias, M2) in enumerate(
                 zip(self._recurrent_kernel, bias_add, self._M2)
             ):
-                recurrent_add_large = (hidden_state[-1] @ recurrent_kernel) + bias
+                hidden_norm = hidden_state[-1] - self._hidden_state_zp
+                recurrent_add_large = (hidden_norm @ recurrent_kernel) + bias
                 recurrent_add.append(
                     (recurrent_add_large * M2 + self._recurrent_add_zp[i])
                     .clip(
-- 
2.43.0


From e17acaf5d9f21ec85664ca405bd44afe506a3274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 08/51] fix: keep the result of uint32 scalar arithmetic an
 integer

---
 .../quantization/operators.py                 | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 51be448..c8535c8 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -240,6 +240,11 @@ class Dtype:
     def max(self) -> number:
         return np.iinfo(self.dtype).max
 
+    def __clip(self, value):
+        # Typed limits: python ints would promote an uint64 scalar to float64
+        to_dtype = np.dtype(self.dtype).type
+        return np.clip(value, to_dtype(self.min()), to_dtype(self.max()))
+
     def __double_dtype(self):
         return np.dtype(f"{self.type}{min(64, self.bits * 2)}")
 
@@ -256,7 +261,7 @@ class Dtype:
         next = Dtype.from_dtype(larger.__double_dtype())
         a = np.array(self.value).astype(next.dtype)
         b = np.array(other.value).astype(next.dtype)
-        res = np.clip(a + b, next.min(), next.max())
+        res = next.__clip(a + b)
         dtype = larger.dtype
 
         # If overflow: Upgrade the dtype to the next higher dtype
@@ -270,11 +275,7 @@ class Dtype:
 
         a = np.array(self.value).astype(next.dtype)
         b = np.array(other.value).astype(next.dtype)
-        res = np.clip(
-            a - b,
-            next.min(),
-            next.max(),
-        )
+        res = next.__clip(a - b)
 
         dtype = larger.dtype
 
@@ -297,11 +298,7 @@ class Dtype:
 
         a = np.array(self.value).astype(next.dtype)
         b = np.array(other.value).astype(next.dtype)
-        res = np.clip(
-            a * b,
-            next.min(),
-            next.max(),
-        )
+        res = next.__clip(a * b)
 
         dtype = larger.dtype
         if self.__has_overflow(res, self):
-- 
2.43.0


From 14fa44e430c253b0fa6cd52e806c9f9b4f7de008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 09/51] fix: widen the LSTM input before removing its zero
 point

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index bbfcee0..376f68d 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -267,7 +267,7 @@ class LSTM(ILayer):
     def infer(self, input_: np.ndarray) -> np.ndarray:
 
         # batch, window_len, n_features =  -> w, b , n
-        input_norm = (input_ - self._input_zp).swapaxes(0, 1)
+        input_norm = (input_.astype(np.int64) - self._input_zp).swapaxes(0, 1)
 
         # Create the initial hidden state and cell state (the zero point is the real value 0)
         hidden_state = [
-- 
2.43.0


From 3f8508a5fdd6fd744ac3f7fd1b3dd0b16512262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 10/51] fix: dequantize a tensor node with its zero point

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 58e7d0f..dacafa0 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -479,7 +479,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         Returns:
             np.ndarray: A float tensor
         """
-        return self.quantized * self.scale + self.zero_point
+        return self.quant.dequantize(self.quantized, self.zero_point, self.scale)
 
     def _requantize(self):
         """Requantization Function"""
-- 
2.43.0


From 7c25794a9682e63505315ecad484098f1e9e0bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 11/51] fix: derive the default rounding policy in double
 precision

---
 .../itcl_quantizer/equalizers/adaround/irounding_policy.py     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py b/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
index 3d05b3d..8033521 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
@@ -29,5 +29,6 @@ def get_base_rounding(tensor: np.ndarray, scale: float) -> np.ndarray:
     Returns:
         np.ndarray: _description_
     """
-    tensor = tensor / scale
+    # Same precision as Quantization.quantize, the policy is applied to its floor
+    tensor = np.array(tensor).astype(np.float64) / scale
     return np.where(np.floor(tensor + 0.5) > tensor, 1, 0)
-- 
2.43.0


From 5c57f918c6a6777e6b6e4e9796de38f2607b9056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 12/51] fix: keep the LUT of a node in step with its parameters
 and rounding policy

---
 .../keras/layers/activations.py               |  8 +++++++
 .../itcl_quantizer/tensor_extractor/tensor.py | 21 +++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index d5d3890..124a4d5 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -89,6 +89,14 @@ def quantize_activation_node(
         .exclude_tensor()
     )
 
+    # On output scale update: Create again the LUT that returns values of this node
+    if lut := input_node.LUT:
+        output_node.on_quant_param_update.append(
+            lambda _: lut._update_out_qparams(
+                output_node.scale, output_node.zero_point
+            )
+        )
+
     operator = Operator(
         activation_name, activation_name, [input_node], [output_node], fn
     )
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index dacafa0..610c7a0 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -56,11 +56,16 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         self._quant = quant
         self._fn = fn
 
-        self._rounding_policy = get_base_rounding(
-            quant.float_activation(fn, input_s, input_zp), output_s
-        )
+        self._reset_rounding()
         self._create()
 
+    def _reset_rounding(self):
+        """Round To Nearest rounding policy of the current parameters"""
+        self._rounding_policy = self._og_rounding_policy = get_base_rounding(
+            self._quant.float_activation(self._fn, self._input_s, self._input_zp),
+            self._output_s,
+        )
+
     def _create(self):
         """Create the LUT"""
         self._LUT = self._quant.create_LUT(
@@ -87,7 +92,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         """
         self._input_s = input_s
         self._input_zp = input_zp
-        self._create()
+        self._update()
 
     def _update_out_qparams(self, output_s: float, output_zp: int):
         """Update the out node quantiation parameters
@@ -98,6 +103,13 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         """
         self._output_s = output_s
         self._output_zp = output_zp
+        self._update()
+
+    def _update(self):
+        """Create again the LUT, a policy that was not replaced keeps rounding to nearest"""
+        if self._rounding_policy is self._og_rounding_policy:
+            self._reset_rounding()
+        self._create()
 
     @property
     def offset(
@@ -155,6 +167,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
     @rounding_policy.setter
     def rounding_policy(self, policy: np.ndarray):
         self._rounding_policy = policy
+        self._create()
 
     def as_json(self) -> LUTJson:
         """Serializes the LUT class as a serializable dictionary k:str, v: Any
-- 
2.43.0


From 1b6bc88fba16c67db000737a71054ffbb797eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 13/51] fix: keep rounding a node to nearest after its
 parameters change

---
 .../itcl_quantizer/tensor_extractor/tensor.py   | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 610c7a0..25b4b22 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -434,6 +434,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
 
     def reset_rounding(self):
         """Reset the rounding policy to Round To Nearest"""
+        self._og_rounding_policy = get_base_rounding(self._fp_tensor, self.scale)
         self.rounding_policy = self._og_rounding_policy
 
     @property
@@ -496,12 +497,16 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
 
     def _requantize(self):
         """Requantization Function"""
-        self._quantized = self.quant.quantize(
-            self._fp_tensor,
-            self.zero_point,
-            self.scale,
-            rounding_policy=self._rounding_policy,
-        )
+        if self._rounding_policy is self._og_rounding_policy:
+            # The policy was not replaced, keep rounding to nearest
+            self.reset_rounding()
+        else:
+            self._quantized = self.quant.quantize(
+                self._fp_tensor,
+                self.zero_point,
+                self.scale,
+                rounding_policy=self._rounding_policy,
+            )
         super()._requantize()
 
     def _tensor_json(self) -> TensorJson | None:
-- 
2.43.0


From 2b0ec82e7854871bf935b76cd161d57dbaf74c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 14/51] fix: return serializable scales from the distributions

---
 .../itcl_quantizer/quantizer/distributions/distribution.py     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 91a7b11..97433c9 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -168,7 +168,8 @@ class Distribution:
             scale = 1.0
             zero_point = 0
 
-        return scale, zero_point
+        # numpy scalars can not be serialized
+        return float(scale), int(zero_point)
 
     def compare(
         self,
-- 
2.43.0


From 3f892cf820ff7c5275018510785e73b7ed553488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 15/51] fix: quantize a distribution that only holds zeros

---
 .../itcl_quantizer/quantizer/distributions/distribution.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 97433c9..753809a 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -146,7 +146,10 @@ class Distribution:
             q_min = -q_max
 
         scale = (max_ - min_) / (q_max - q_min)
-        zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
+        # Without a range (all zeros) the scale is 0 and any zero point is valid
+        zero_point = (
+            round((min_ * q_max - max_ * q_min) / (min_ - max_)) if min_ < max_ else 0
+        )
 
         if force_zp is not None:
             zero_point = force_zp
-- 
2.43.0


From 80c7baddc0e9c9cb3cd80d816f4d942278c439bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 16/51] fix: describe the dense output node with the output of
 the layer

---
 .../tensor_extractor/keras/layers/keras_dense.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
index 9ef5a17..d515ce4 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
@@ -221,7 +221,7 @@ class KerasDense(AbstractLayer):
         return self.__quantize_bias_from_params(bias_s, bias_zp)
 
     def __quantize_bias_add_from_params(
-        self, float_input: np.ndarray, scale: float, zp: int
+        self, float_output: np.ndarray, scale: float, zp: int
     ) -> NodeTensorTensor:
         return (
             Node(
@@ -230,7 +230,7 @@ class KerasDense(AbstractLayer):
                 f"{self.__layer_name}/BiasAdd",
                 self.__q_bias_add,
             )
-            .with_tensor(float_input)
+            .with_tensor(float_output)
             .exclude_batch_dimension()
             .exclude_tensor()
         )
@@ -260,7 +260,7 @@ class KerasDense(AbstractLayer):
 
         out_s, out_zp = out_dist.quantize(self.__q_bias_add)
         return (
-            self.__quantize_bias_add_from_params(float_input, out_s, out_zp),
+            self.__quantize_bias_add_from_params(np.array(float_output), out_s, out_zp),
             float_output,
         )
 
-- 
2.43.0


From c5cc7eacfc81415d8a1ee54521e5e314d7776054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 17/51] fix: calibrate the layer after a fused activation on
 activated data

---
 .../tensor_extractor/keras/layers/activations.py           | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index 124a4d5..42f8f24 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -54,12 +54,13 @@ def quantize_activation_node(
     """
     activation_name = activation_name.upper()
 
-    if activation_name in SKIP_FUNCTIONS:
-        return None, input_data
-
     # Override the function if possible
     fn = OVERRIDE_FUNCTIONS.get(activation_name, fn)
 
+    if activation_name in SKIP_FUNCTIONS:
+        # No operator is required, but the next layer receives the activated data
+        return None, np.array(fn(input_data))
+
     # infer the float input_data
     activated_data = fn(input_data)
 
-- 
2.43.0


From 5fb21f27de8ae488328bcb4311bd9c5bbe91235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 18/51] fix: calibrate a fused RELU on activated data

---
 .../tensor_extractor/keras/layers/keras_dense.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
index d515ce4..421ffaa 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
@@ -254,7 +254,11 @@ class KerasDense(AbstractLayer):
         layer.activation = None
         float_output = layer(float_input)
         # Get and trim the distribution:
-        out_dist = Distribution(float_output)
+        if fused_relu(self.__activation_name):
+            # The output range applies the fused activation, it only holds activated values
+            out_dist = Distribution(np.array(self.__activation_fn(float_output)))
+        else:
+            out_dist = Distribution(float_output)
 
         out_dist = self.__bias_add_trim(out_dist)
 
-- 
2.43.0


From 3c1eac132986a45b255627d7fa7f55bf384b572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 19/51] fix: do not discard a rounding policy without loss

---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index 23cbbda..d5d71c2 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -128,7 +128,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
             Tuple[List[np.ndarray], float]: _description_
         """
         neigh, energy = super().anneal()
-        return self._to_minima(neigh, energy or sys.maxsize)
+        return self._to_minima(neigh, sys.maxsize if energy is None else energy)
 
     def energy(self) -> float:
         """Function that calculates the energy or loss
-- 
2.43.0


From 4e05a26fc398d6c7398c15f896c98377de5379b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 20/51] fix: flip the rounding of any element of a matrix

---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index d5d71c2..e395422 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -68,7 +68,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
         new_state = []
 
         while True:
-            new_permutation = (*[randrange(start=0, stop=len(t)) for t in self.state],)
+            new_permutation = (*[randrange(start=0, stop=t.size) for t in self.state],)
             if not new_permutation in self._past_permutations:
                 break
 
-- 
2.43.0


From e76d4c6109367b9dff4698dec37a86b9780f8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 21/51] fix: anneal the parameters of the nodes of the network

---
 .../itcl_quantizer/equalizers/param_equalizer/annealer.py  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
index 663ac02..1b57a2a 100644
--- a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
@@ -42,7 +42,9 @@ class ParamEqAnnealer(AbstractParamOptimizer, Annealer):
         """
         best, cost = super().anneal()
 
-        return best, cost
+        # The annealer works on copies of the nodes
+        self.copy(self._tensors, best, requantize=True)
+        return self._tensors, cost
 
     def energy(self) -> float:
         """Function that calculates the energy or loss
@@ -51,6 +53,9 @@ class ParamEqAnnealer(AbstractParamOptimizer, Annealer):
             float: loss
         """
 
+        if self.state is not self._tensors:
+            # The annealer works on copies of the nodes
+            self.copy(self._tensors, self.state, requantize=True)
         energy: float = self._cost_fn(self.state)
         return energy
 
-- 
2.43.0


From b68aa7401e9acbafa66b859dfd59a96c2db46080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 22/51] fix: calibrate the LSTM input gate with its own values

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 156767e..44f96fd 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -419,7 +419,7 @@ class KerasLSTM(AbstractLayer):
         input_gate_op, _ = quantize_activation_node(
             tf.math.sigmoid,
             ACTIVATION_NAMES.SIGMOID,
-            recurrent_add[: self._n_units],
+            recurrent_add[:, :, : self._n_units],
             self._q_activation,
             input_gate,
         )
-- 
2.43.0


From 3600381935826b007f56c950773a3e759c25a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 23/51] fix: report the bias add of the LSTM

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 44f96fd..7bb1e6d 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -688,7 +688,7 @@ class LSTM:
         return LSTMResult(
             hidden_state=np.array(h[1:]),  # Remove the initial scale
             cell_state=np.array(previous_c),
-            bias_add=np.array(previous_recurrent_add),
+            bias_add=np.array(previous_bias_add),
             recurrent_add=np.array(previous_recurrent_add),
             input_gate=np.array(previous_i),
             forget_gate=np.array(previous_f),
-- 
2.43.0


From 003b774798422ef7b6581d46fee06fa90a90b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 24/51] fix: equalize and round networks with LSTM layers

---
 .../tensor_extractor/keras/layers/keras_lstm.py             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 7bb1e6d..e114252 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -517,7 +517,7 @@ class KerasLSTM(AbstractLayer):
             input_data=lstm_states.result,
             out_node=hidden_node,
             operators=[lstm_op],
-            layer=self._layer,
+            layer=self,
         )
 
         if is_debug_mode():
@@ -561,7 +561,9 @@ class KerasLSTM(AbstractLayer):
             ],
         )
 
-        AdaRound(optimizer_factory(), cost_fn, self, results).round(tensors)
+        AdaRound(
+            optimizer_factory(), cost_fn, self, results, float_input=None
+        ).round(tensors)
 
 
 class MinMaxList(list):
-- 
2.43.0


From ae9456ce1d663737136f2d782f0ccea9d27a603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 25/51] fix: update the bias scale of the LSTM with its input
 and kernel

---
 .../tensor_extractor/keras/layers/keras_lstm.py        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index e114252..4c2f9ec 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -401,6 +401,16 @@ class KerasLSTM(AbstractLayer):
         recurrent_kernel_nodes = self._quantize_recurrent_kernel()
         bias_nodes = self._quantize_bias(input_node.scale, kernel_nodes)
 
+        # On kernel/input scale update: Update the bias scale and requantize the BIAS
+        for kernel_node, bias_node in zip(kernel_nodes, bias_nodes):
+            update_bias_scale_fn = (
+                lambda _, kernel=kernel_node, bias=bias_node: bias.update_quant_parameters(
+                    input_node.scale * kernel.scale, bias.zero_point
+                )
+            )
+            kernel_node.on_quant_param_update.append(update_bias_scale_fn)
+            input_node.on_quant_param_update.append(update_bias_scale_fn)
+
         # Quantize the intermediate Nodes
         hidden_node = self._quantize_hidden_state(lstm_states.hidden_state)
 
-- 
2.43.0


From 52e44998e62e168337b4d3dbc5b0a3c936a2bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 26/51] fix: clip the requested percentage of each tail of the
 distribution

---
 quantizer/itcl_quantizer/optimizers/fixed_percent.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quantizer/itcl_quantizer/optimizers/fixed_percent.py b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
index b339a63..560cb8c 100644
--- a/quantizer/itcl_quantizer/optimizers/fixed_percent.py
+++ b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
@@ -9,11 +9,10 @@ class FixedPercentOptimizer(IOptimizer):
 
     def trim(self, distribution: Distribution) -> Distribution:
 
-        bins = distribution.get_bin_edges()
         fp_array = distribution._sorted_a
-        low_percent = np.percentile(fp_array, self.__percent)
-        high_percent = np.percentile(fp_array, 1 - self.__percent)
+        low_percent = np.quantile(fp_array, self.__percent)
+        high_percent = np.quantile(fp_array, 1 - self.__percent)
 
         clipped_array = fp_array.clip(low_percent, high_percent)
 
-        return Distribution(clipped_array, bins=bins)
+        return Distribution(clipped_array)
-- 
2.43.0


From 7862a0f6d451707439f322608cdfc4b5a0abde00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 27/51] fix: convert the keras layers without bias

---
 model_converters/keras2json/keras2json/layers/conv2d.py | 3 ++-
 model_converters/keras2json/keras2json/layers/dense.py  | 2 +-
 model_converters/keras2json/keras2json/layers/lstm.py   | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/model_converters/keras2json/keras2json/layers/conv2d.py b/model_converters/keras2json/keras2json/layers/conv2d.py
index 6df1aac..9cd2074 100644
--- a/model_converters/keras2json/keras2json/layers/conv2d.py
+++ b/model_converters/keras2json/keras2json/layers/conv2d.py
@@ -13,7 +13,8 @@ class Conv2d(ILayer):
         weights: list[np.ndarray] = layer.get_weights()
 
         W = weights[0]
-        B = weights[1]
+        # if there is no bias, create one
+        B = weights[1] if len(weights) > 1 else np.zeros(W.shape[-1])
         strides: tuple[int, int] = tuple(layer.strides)
         padding = 0 if "valid" in str(layer.padding).lower() else 1
 
diff --git a/model_converters/keras2json/keras2json/layers/dense.py b/model_converters/keras2json/keras2json/layers/dense.py
index 67f8625..a7d0b9f 100644
--- a/model_converters/keras2json/keras2json/layers/dense.py
+++ b/model_converters/keras2json/keras2json/layers/dense.py
@@ -19,7 +19,7 @@ class Dense(ILayer):
         if len(weights) > 1:
             self._bias: np.ndarray = np.array(weights[1])
         else:
-            self._bias = np.zeros(len(self._kernel))
+            self._bias = np.zeros(self._kernel.shape[1])
 
     def _dense(self) -> Operator :
 
diff --git a/model_converters/keras2json/keras2json/layers/lstm.py b/model_converters/keras2json/keras2json/layers/lstm.py
index 5512a58..56fcadf 100644
--- a/model_converters/keras2json/keras2json/layers/lstm.py
+++ b/model_converters/keras2json/keras2json/layers/lstm.py
@@ -30,7 +30,8 @@ class LSTM(ILayer):
 
         W_full = weights[0].T
         U_full = weights[1].T
-        B_full = weights[2]
+        # if there is no bias, create one
+        B_full = weights[2] if len(weights) > 2 else np.zeros(4 * n_units)
 
         # print(U_full.shape)
         # print(B_full.reshape())
-- 
2.43.0


From bcea89d5dce18cfcc0591c158e145f4d4aa0ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 28/51] fix: find the first ONNX value info

---
 .../onnx2json/helpers/nodeBuilders/buildBaseNode.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
index 6885aeb..8d604c1 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
@@ -81,7 +81,7 @@ def build_base_node(model, tensor_id) -> Node:
     id2idx = {init.name: i for i, init in enumerate(model.graph.value_info)}
     idx = id2idx.get(tensor_id)
     
-    if idx: # The tensor id is expected to be in the model
+    if idx is not None: # The tensor id is expected to be in the model
         layer_info = model.graph.value_info[idx]
 
     # Some tensors, like the input and output tensors, are not in the model body
-- 
2.43.0


From b795f525c2072b220caf32a8dbf650ccb65a0401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 29/51] fix: describe the outputs of the ONNX model

---
 model_converters/onnx2json/2json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index 4dacdcd..0b7079c 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -29,7 +29,7 @@ def model2json(model) -> JsonNetwork:
         "engine": "ONNX",
         "graph": graph.build_graph(),
         "input": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_in)} for _in in model.graph.input],
-        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.input],
+        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.output],
     }
 
 
-- 
2.43.0


From 2038c1f23a961c020d182f3855d6ad48278df5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 30/51] fix: tabulate the sigmoid of large negative values

---
 .../onnx2json/helpers/nodeBuilders/QLinearSigmoid.py        | 6 +++++-
 .../tflite2json/itcl_tflite2json/operators/SigmoidLUT.py    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py b/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py
index 5764176..46279b9 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py
@@ -22,7 +22,11 @@ class QLinearSigmoid(IBuilder):
         )
 
 
-sigmoid = lambda x: 1 / (1 + math.exp(-x))
+def sigmoid(x: float) -> float:
+    if x >= 0:
+        return 1 / (1 + math.exp(-x))
+    # exp(-x) overflows
+    return math.exp(x) / (1 + math.exp(x))
 
 
 class SigmoidLUT(IBuilder):
diff --git a/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py b/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py
index e2985bc..bdff491 100644
--- a/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py
+++ b/model_converters/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py
@@ -11,7 +11,11 @@ from itcl_quantization.quantization.lut import ReducedLUT
 from itcl_tflite2json.util.settings import settings
 
 # A function that takes in a value (x) and returns the sigmoid of that value.
-sigmoid_fn = lambda x: 1 / (1 + math.exp(-x))
+def sigmoid_fn(x: float) -> float:
+    if x >= 0:
+        return 1 / (1 + math.exp(-x))
+    # exp(-x) overflows
+    return math.exp(x) / (1 + math.exp(x))
 
 class SigmoidLUT(BaseOperator):
     def __init__(
-- 
2.43.0


From f4dddb9eb0cd12cd75d8da8af3e8e63b763126ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 31/51] fix: round tiny negative values up with a rounding
 policy

---
 core/itcl_quantization/quantization/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index c8535c8..bb19b92 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -130,8 +130,10 @@ class Quantization(Generic[T]):
         float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)
 
         if rounding_policy is not None:
+            # Floor before adding anything, a tiny negative value would be lost
+            floor_res = np.floor(np.array(data).astype(np.float64) / scale) + zero_point
             try:
-                return self.round(float_res + rounding_policy, extra=0)
+                return self.round(floor_res + rounding_policy, extra=0)
             except ValueError:
                 logging.warning(
                     "Invalid quantization rounding policy, rounding to nearest"
-- 
2.43.0


From 56939fd13e0181370b835060e28fa7f03c982b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 32/51] fix: round the QUBO layers against their output before
 the activation

---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index 1ab2674..37f8ad8 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -66,17 +66,16 @@ class QUBOAnnealer(IRoundOptimizer):
         kernel, bias = dense_layer.get_weights()
         input_f = self._input_data
         input_f = np.array(input_f)
-        output_f = self._results.input_data
-        output_f = np.array(output_f)
-        # output_f = TODO
-         
         kernel_roundp = tensors[0]  # todo: update
         bias_roundp = tensors[1]  # todo: update
         
         assert self._results.operators
 
         q_dense_op = self._results.operators[0]
-    
+
+        # The output of the dense layer, without its activation
+        output_f = np.array(q_dense_op.outputs[0].fp_tensor)
+
         q_kernel = q_dense_op.inputs[1]
         kernel_s, kernel_zp = q_kernel.scale, q_kernel.zero_point
         q_bias = q_dense_op.inputs[2]
-- 
2.43.0


From 503839a77be6ada096b9e5616fe04cfeb668656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 33/51] fix: build the QUBO of the layers in double precision

---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index 37f8ad8..6f74bdb 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -63,9 +63,9 @@ class QUBOAnnealer(IRoundOptimizer):
         """
   
         dense_layer: KerasDense = self._layer  # type: ignore
-        kernel, bias = dense_layer.get_weights()
-        input_f = self._input_data
-        input_f = np.array(input_f)
+        # In double precision, as the tensors are quantized
+        kernel, bias = (np.array(w, dtype=np.float64) for w in dense_layer.get_weights())
+        input_f = np.array(self._input_data, dtype=np.float64)
         kernel_roundp = tensors[0]  # todo: update
         bias_roundp = tensors[1]  # todo: update
         
@@ -74,7 +74,7 @@ class QUBOAnnealer(IRoundOptimizer):
         q_dense_op = self._results.operators[0]
 
         # The output of the dense layer, without its activation
-        output_f = np.array(q_dense_op.outputs[0].fp_tensor)
+        output_f = np.array(q_dense_op.outputs[0].fp_tensor, dtype=np.float64)
 
         q_kernel = q_dense_op.inputs[1]
         kernel_s, kernel_zp = q_kernel.scale, q_kernel.zero_point
-- 
2.43.0


From b0475170604f32d9eb8a9f149b183d6b3966e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 34/51] fix: count colliding values, not repeated ones

---
 quantizer/itcl_quantizer/util/collisions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/util/collisions.py b/quantizer/itcl_quantizer/util/collisions.py
index fdcf9ba..ad49d77 100644
--- a/quantizer/itcl_quantizer/util/collisions.py
+++ b/quantizer/itcl_quantizer/util/collisions.py
@@ -16,7 +16,10 @@ def calc_collisions(fp_tensor: np.ndarray, q_tensor: np.ndarray, epsilon: int) -
     """
     rounded_fp = np.around(fp_tensor, decimals=epsilon) if epsilon > 0 else fp_tensor
 
-    _, counts_fp = np.unique(rounded_fp, return_counts=True)
-    _, counts_q = np.unique(q_tensor, return_counts=True)
+    # Distinct (quantized, float) pairs: equal floats do not collide
+    pairs = np.stack([np.ravel(q_tensor), np.ravel(rounded_fp)], axis=1)
+    distinct_pairs = np.unique(pairs, axis=0)
 
-    return (counts_q * (counts_q != 1)).sum() - (counts_fp - 1).sum()
+    _, counts_q = np.unique(distinct_pairs[:, 0], return_counts=True)
+
+    return int(counts_q[counts_q != 1].sum())
-- 
2.43.0


From 04fbea4a52796a38184344f6e1f1201e86ad7566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 35/51] fix: split the FPGA input into chunks that fit the max
 batch size

---
 demo/demo_lib/demo_lib/fpga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index 541aea2..b83226e 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -57,7 +57,8 @@ class InferFPGAMQTT(InferFPGA):
 
         self._client.publish(self._model_topic, json_net, qos=self._qos)
 
-        n_splits = len(x) // self._max_batch_size
+        # Rounded up, no chunk can exceed the max batch size
+        n_splits = -(-len(x) // self._max_batch_size)
 
         chunk_resuts = []
 
-- 
2.43.0


From cc88edd75c4a3553698d5eaeb40d7ab51e74fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 36/51] fix: tabulate the activation in its own data type

---
 .../tensor_extractor/keras/layers/activations.py |  2 +-
 .../itcl_quantizer/tensor_extractor/tensor.py    | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index 42f8f24..47d4f63 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -80,7 +80,7 @@ def quantize_activation_node(
     # Create and save the LUT (if possible)
     if activation_name in LUT_FUNCTIONS and not skip_lut:
         activation_name += "LUT"
-        input_node.with_lut(fn, out_s, out_zp)
+        input_node.with_lut(fn, out_s, out_zp, out_quant=quantization)
 
     # Create the output node
     output_node = (
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 25b4b22..b1f37c4 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -36,6 +36,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         output_s: float,
         output_zp: int,
         reduced_depth: int = 3,
+        output_quant: Quantization | None = None,
     ) -> None:
         """_summary_
 
@@ -47,6 +48,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
             output_s (float): Output Scale (Calculated from the distribution of the activated data)
             output_zp (int): Output ZP (...)
             reduced_depth (int, optional): Depth of the Reduced LUT. Defaults to 3.
+            output_quant (Quantization, optional): Quantization of the activated values. Defaults to the one of the input.
         """
         self._input_s = input_s
         self._input_zp = input_zp
@@ -54,6 +56,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         self._output_zp = output_zp
         self._reduced_depth = reduced_depth
         self._quant = quant
+        self._output_quant = output_quant or quant
         self._fn = fn
 
         self._reset_rounding()
@@ -68,14 +71,12 @@ class NodeLUT(ISerializable, IRoundingPolicy):
 
     def _create(self):
         """Create the LUT"""
-        self._LUT = self._quant.create_LUT(
-            self._fn,
-            self._input_s,
-            self._input_zp,
-            self._output_s,
+        self._LUT = self._output_quant.quantize(
+            self._quant.float_activation(self._fn, self._input_s, self._input_zp),
             self._output_zp,
+            self._output_s,
             rounding_policy=self._rounding_policy,
-        )
+        ).tolist()
         self._offset = -self._quant.min_value()
         self._quant = self._quant
 
@@ -300,6 +301,7 @@ class NodeTensorBase(ISerializable):
         out_scale: float,
         out_zp: int,
         reduced_depth=3,
+        out_quant: Quantization | None = None,
     ) -> Self:
         """Adds a LUT to the node
 
@@ -308,6 +310,7 @@ class NodeTensorBase(ISerializable):
             out_scale (float): Output Node Scale
             out_zp (int): Output Node Zero Point
             reduced_depth (int, optional): Reduced Depth. Defaults to 3, 0 to disable.
+            out_quant (Quantization, optional): Output Quantization. Defaults to the one of the node.
 
         Returns:
             Self: _description_
@@ -320,6 +323,7 @@ class NodeTensorBase(ISerializable):
             out_scale,
             out_zp,
             reduced_depth,
+            out_quant,
         )
         return self
 
-- 
2.43.0


From 69fb7037717a386785ffa176cf8c91d94d2a140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 37/51] fix: accumulate the ONNX matrix multiplication in 64
 bits

---
 .../itcl_inference_engine/layers/onnx/q_linear_mmul.py       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/onnx/q_linear_mmul.py b/inference_engine/itcl_inference_engine/layers/onnx/q_linear_mmul.py
index 9576d3b..46b7ab9 100644
--- a/inference_engine/itcl_inference_engine/layers/onnx/q_linear_mmul.py
+++ b/inference_engine/itcl_inference_engine/layers/onnx/q_linear_mmul.py
@@ -92,8 +92,9 @@ class QLinearMatMul(IOperator):
         Returns:
             np.ndarray uint8: Matrix Multiplication Result.
         """
-        i = input_.astype(np.int32) - self.__i_zp  # As int32
-        w = self.__w.astype(np.int32) - self.__w_zp  # As int32
+        # In 64 bits, a long sum of products does not fit in 32
+        i = input_.astype(np.int64) - self.__i_zp
+        w = self.__w.astype(np.int64) - self.__w_zp
 
         int32mmul = np.round(self.__M * np.matmul(i, w)) + self.__o_zp
 
-- 
2.43.0


From 5670eea4530051e0eade0a6ee9917f08072632f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:49 +0000
Subject: [PATCH 38/51] fix: multiply narrow integer arrays by the fixed-point
 multiplier in 64 bits

---
 inference_engine/itcl_inference_engine/util/floating.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inference_engine/itcl_inference_engine/util/floating.py b/inference_engine/itcl_inference_engine/util/floating.py
index f9c7d89..7bfe28a 100644
--- a/inference_engine/itcl_inference_engine/util/floating.py
+++ b/inference_engine/itcl_inference_engine/util/floating.py
@@ -33,5 +33,9 @@ class FloatingIntegerApprox(Generic[E]):
         if not self._integer_only:
             return other * self._fp  # type: ignore
 
+        if isinstance(other, (np.ndarray, np.integer)):
+            # The product does not fit in a narrower container
+            other = other.astype(np.int64)  # type: ignore
+
         res = other * self._q + self._round
         return res >> self._shift  # type: ignore
-- 
2.43.0


From 76bfc43751d801294dceda6c905d547bfc882096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 39/51] fix: keep the limits of the bins of narrow data as
 floats

---
 .../quantizer/distributions/distribution.py               | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 753809a..1d763cb 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -226,7 +226,13 @@ class Distribution:
             len(bin_content_view) == bin
         ), f"Bin Content lenght is {len(bin_content_view)} but should be {bin}"
 
-        return Bin(bin_content_view[0], bin_content_view[-1], bin, bin_content_view)
+        # As floats, the range of narrow data does not fit in their own data type
+        return Bin(
+            float(bin_content_view[0]),
+            float(bin_content_view[-1]),
+            bin,
+            bin_content_view,
+        )
 
     def __len__(self) -> int:
         """
-- 
2.43.0


From 8e4ff9ba903834e744ef491058a54eb7b4e32ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 40/51] fix: clip the tails of narrow data in floats

---
 quantizer/itcl_quantizer/optimizers/fixed_percent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/optimizers/fixed_percent.py b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
index 560cb8c..8171092 100644
--- a/quantizer/itcl_quantizer/optimizers/fixed_percent.py
+++ b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
@@ -9,7 +9,8 @@ class FixedPercentOptimizer(IOptimizer):
 
     def trim(self, distribution: Distribution) -> Distribution:
 
-        fp_array = distribution._sorted_a
+        # As floats, the quantiles of narrow data overflow their own data type
+        fp_array = distribution._sorted_a.astype(np.float64)
         low_percent = np.quantile(fp_array, self.__percent)
         high_percent = np.quantile(fp_array, 1 - self.__percent)
 
-- 
2.43.0


From 52e137dad5accdf5dd966cdc90a2798cee6f9a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 41/51] fix: index the look-up table of an activation in 64
 bits

---
 inference_engine/itcl_inference_engine/layers/common/lut.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/common/lut.py b/inference_engine/itcl_inference_engine/layers/common/lut.py
index 5b421ad..cf9496d 100644
--- a/inference_engine/itcl_inference_engine/layers/common/lut.py
+++ b/inference_engine/itcl_inference_engine/layers/common/lut.py
@@ -65,4 +65,6 @@ class LUTActivation(IOperator):
         Returns:
             np.ndarray fp32: Dequantized tensor Ouput
         """
-        return self.__apply_lut_vectorize(input_ + self.__offset)
+        # Widened, the index of a code might not fit in the data type of the codes
+        index = np.add(input_, self.__offset, dtype=np.int64)
+        return self.__apply_lut_vectorize(index)
-- 
2.43.0


From 5b269494b382226426a485561c82768d0e8a3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 42/51] fix: remove the zero point of the dense weights in 64
 bits

---
 .../itcl_inference_engine/layers/tflite/fullyconnected.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
index 7004cfd..fd38750 100644
--- a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
+++ b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
@@ -112,7 +112,8 @@ class FullyConnected(ILayer):
             input_s, weight_s, output_s
         )
 
-        weights = weights - weight_zp
+        # Widened, the difference of two codes does not fit in their data type
+        weights = np.array(weights).astype(np.int64) - weight_zp
 
         return FullyConnected(
             input_zp,
-- 
2.43.0


From 4eb8b1012ba4fefbc25a05c7d589a012f72bb738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:29 +0000
Subject: [PATCH 43/51] fix: reject float names as integer data types

---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index bb19b92..232422c 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -30,7 +30,7 @@ LUT_TYPE = TypeVar("LUT_TYPE", number, np.ndarray)
 
 
 class GenericDtype:
-    ALLOWED_STR_TYPES = ["int", "float", "uint"]
+    ALLOWED_STR_TYPES = ["int", "uint"]
 
     def __init__(self, dtype: q_dtypes):
         if isinstance(dtype, str):
-- 
2.43.0


From a20d72b9d906be595c701f2577393c42c7bbfb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 44/51] fix: quantize the LSTM layers without bias

---
 .../keras/layers/keras_lstm.py                | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 4c2f9ec..b32e169 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -29,6 +29,14 @@ from .activations import quantize_activation_node
 LSTM_GATES = ["input", "forget", "cell", "output"]
 
 
+def _get_weights(layer) -> tuple[NPFP32, NPFP32, NPFP32]:
+    """Kernel, recurrent kernel and bias of a LSTM layer, zeros if it has no bias"""
+    weights = [np.array(w) for w in layer.get_weights()]
+    kernel, recurrent_kernel = weights[:2]
+    bias = weights[2] if len(weights) > 2 else np.zeros_like(kernel[0])
+    return kernel, recurrent_kernel, bias
+
+
 class KerasLSTM(AbstractLayer):
     """Keras LSTM Quantization Class"""
 
@@ -47,9 +55,10 @@ class KerasLSTM(AbstractLayer):
     ) -> None:
         self._layer = layer
         self._layer_name = layer.name
-        self._K: NPFP32 = np.array(layer.get_weights()[0])  # kernel
-        self._U: NPFP32 = np.array(layer.get_weights()[1])  # recurrent_kernel
-        self._B: NPFP32 = np.array(layer.get_weights()[2])  # bias
+        kernel, recurrent_kernel, bias = _get_weights(layer)
+        self._K: NPFP32 = kernel
+        self._U: NPFP32 = recurrent_kernel
+        self._B: NPFP32 = bias
         self._n_units: int = layer.units
 
         self._return_sequences: bool = layer.return_sequences
@@ -611,9 +620,7 @@ class LSTMResult:
 class LSTM:
     def __init__(self, layer: tf.keras.layers.LSTM, min_max_mode: bool = False) -> None:
         self._layer = layer
-        self._W = np.array(layer.get_weights()[0])
-        self._U = np.array(layer.get_weights()[1])
-        self._b = np.array(layer.get_weights()[2])
+        self._W, self._U, self._b = _get_weights(layer)
         self._n_units = layer.units
 
         self._return_sequences = layer.return_sequences
-- 
2.43.0


From e18bfef168c4e2fab2f5f3e5e66d6fee1d3629c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 45/51] fix: find the overflow of typed matrices

any() over the comparison of a matrix raises ValueError.
---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 232422c..81efd72 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -290,7 +290,7 @@ class Dtype:
     def __has_overflow(value: Union[np.ndarray, number], larger: "Dtype"):
 
         if isinstance(value, np.ndarray):
-            return any(value > larger.max()) or any(value < larger.min())
+            return np.any(value > larger.max()) or np.any(value < larger.min())
 
         return value > larger.max() or value < larger.min()
 
-- 
2.43.0


From 42cc1513bc10f56e03670b87a3bb66cfb55bcaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 46/51] fix: convert only the ONNX models of the folder

The program opened every file of the folder for writing before it read it as
a model: other files, and the documents of an earlier run, were emptied.
---
 model_converters/onnx2json/2json.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index 0b7079c..7f8484c 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -12,12 +12,16 @@ def main():
 
 
     for model in os.listdir("../../models/mnist/uint8"):
+        # The folder also holds the documents of previous runs
+        if not model.endswith(".onnx"):
+            continue
+
         input = os.path.join("../../models/mnist/uint8", model)
         output = input.replace("onnx", "json")
 
+        network = model2json(onnx.load(input))
         with open(output, "w") as f:
-            model = onnx.load(input)
-            json.dump(model2json(model), f)
+            json.dump(network, f)
 
 
 
-- 
2.43.0


From f05a8759a61377372a76184b95eb3c2ab7e561fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:39 +0000
Subject: [PATCH 47/51] fix: the KL divergence does not change its histograms
 and takes integer ones

---
 quantizer/itcl_quantizer/quantizer/metrics/noise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/metrics/noise.py b/quantizer/itcl_quantizer/quantizer/metrics/noise.py
index edd3a39..028b0fe 100644
--- a/quantizer/itcl_quantizer/quantizer/metrics/noise.py
+++ b/quantizer/itcl_quantizer/quantizer/metrics/noise.py
@@ -6,8 +6,9 @@ from scipy.special import kl_div
 
 def kl_divergence(p: np.ndarray, q: np.ndarray) -> float:
 
-    p[p == 0] = 1e-10
-    q[q == 0] = 1e-10
+    # The caller keeps its histograms, and integer ones have no 1e-10
+    p = np.where(p == 0, 1e-10, p)
+    q = np.where(q == 0, 1e-10, q)
     return kl_div(p, q).sum()
 
 
-- 
2.43.0


From 9f427ed09e606da91d1f06921e0ad20b19f2798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:39 +0000
Subject: [PATCH 48/51] fix: the scipy trimming takes the parameters of the
 type it optimizes for

---
 quantizer/itcl_quantizer/optimizers/scipy_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py b/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
index 60cd419..8a68e70 100644
--- a/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
+++ b/quantizer/itcl_quantizer/optimizers/scipy_optimizer.py
@@ -35,7 +35,7 @@ class ScipyOptimizer(IOptimizer):
 
             trimmed = distribution[x[0] : x[1]]
 
-            s, zp = trimmed.quantize()
+            s, zp = trimmed.quantize(Q)
             quant_arr = Q.quantize(distribution._sorted_a, zp, s)
             dequant_arr = Q.dequantize(quant_arr, zp, s)
             trimmed_quant = Distribution(dequant_arr, bins=edges)
-- 
2.43.0


From d04819b08b3f2d05aa2eb97d2b2a809aaacf0e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:39 +0000
Subject: [PATCH 49/51] fix: reducing a histogram keeps groups of empty bins
 empty instead of NaN

---
 quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py b/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
index 82441e8..2865a2d 100644
--- a/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
+++ b/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
@@ -71,7 +71,8 @@ class KLDivergenceOptimizer(IOptimizer):
 
             mask_slice = np.array(mask[idx : idx + bins_per_reduced_bin])
 
-            expanded_bin = mask_slice * (bin.sum() / np.array(mask_slice).sum())
+            # A group without items stays empty
+            expanded_bin = mask_slice * (bin.sum() / max(np.array(mask_slice).sum(), 1))
 
             expanded_bins.extend(expanded_bin)
 
-- 
2.43.0


From c7821d3413255529cab80734bf8a0280977cedae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:39 +0000
Subject: [PATCH 50/51] fix: the entropy threshold counts the bins from the
 first candidate and from the lowest edge

---
 quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py b/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
index 2865a2d..21f574d 100644
--- a/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
+++ b/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
@@ -41,9 +41,13 @@ class KLDivergenceOptimizer(IOptimizer):
             ), f"{len(candidate_dist)} != {len(reference_dist)}"
             divergence.append(kl_divergence(reference_dist, candidate_dist))
 
-        m = np.argmin(divergence)
+        # The first candidate keeps as many bins as the target
+        m = self.__target_bin_count + np.argmin(divergence)
 
-        threshold = (m + 0.5) * distribution.get_bin_size()
+        # The bins start at the lowest edge
+        threshold = (
+            distribution.get_bin_edges()[0] + (m + 0.5) * distribution.get_bin_size()
+        )
 
         print(threshold)
 
-- 
2.43.0


From 6c77adcc8bce98c7a05d75d46e9d2df936e9d4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:09 +0000
Subject: [PATCH 51/51] fix: the document of a model keeps the name of the
 model up to its suffix

---
 model_converters/keras2json/_main.py                          | 2 +-
 model_converters/onnx2json/2json.py                           | 2 +-
 model_converters/tflite2json/itcl_tflite2json/_tflite2json.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/model_converters/keras2json/_main.py b/model_converters/keras2json/_main.py
index 2e15110..b37e138 100644
--- a/model_converters/keras2json/_main.py
+++ b/model_converters/keras2json/_main.py
@@ -8,7 +8,7 @@ def _main():
 
     for model_path in Path("models").glob("*.h5"):
 
-        out_path = str(model_path).replace(".h5", ".json")
+        out_path = str(model_path.with_suffix(".json"))
 
         model = keras.models.load_model(model_path, compile=False)
 
diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index 7f8484c..93aa3c7 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -17,7 +17,7 @@ def main():
             continue
 
         input = os.path.join("../../models/mnist/uint8", model)
-        output = input.replace("onnx", "json")
+        output = os.path.splitext(input)[0] + ".json"
 
         network = model2json(onnx.load(input))
         with open(output, "w") as f:
diff --git a/model_converters/tflite2json/itcl_tflite2json/_tflite2json.py b/model_converters/tflite2json/itcl_tflite2json/_tflite2json.py
index 33b163c..0e07676 100644
--- a/model_converters/tflite2json/itcl_tflite2json/_tflite2json.py
+++ b/model_converters/tflite2json/itcl_tflite2json/_tflite2json.py
@@ -42,7 +42,7 @@ def main():
     for file in Path("../models").glob("*.tflite"):
         
         #file = "../models/mnist/tflite/mnist_high_complexity_float32_tanh_quant_deq_in_out_layers.tflite"
-        out = str(file).replace("tflite", "json")
+        out = str(file.with_suffix(".json"))
 
         print("Loading model from:", file)
         interpreter = tfl.Interpreter(model_path=str(file))
-- 
2.43.0


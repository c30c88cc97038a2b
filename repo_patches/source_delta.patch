From 4d9247094af84b6cc9358b568428809c7efd8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 01/52] fix: ring-buffer index and receptive field of dilated
 temporal pooling

---
 continual/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 215a761..1a475a4 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -191,7 +191,7 @@ class _PoolNd(CoModule, nn.Module):
         buffer[index] = pooled_frame
 
         next_buffer = buffer  # .clone() if self.training else buffer.detach()
-        next_index = (index + 1) % self.kernel_size[0]
+        next_index = (index + 1) % len(buffer)
         next_stride_index = stride_index + 1
         if next_stride_index > 0:
             next_stride_index = next_stride_index % self.stride[0]
@@ -220,7 +220,7 @@ class _PoolNd(CoModule, nn.Module):
 
     @property
     def receptive_field(self) -> int:
-        return self.dilation[0] * self.kernel_size[0]
+        return self.dilation[0] * (self.kernel_size[0] - 1) + 1
 
 
 class AvgPool1d(nn.AvgPool1d, _PoolNd):
-- 
2.43.0


From 6d246fa419e1a61f12a7ad86dae2beaad9d9ff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:07 +0000
Subject: [PATCH 02/52] fix: max pooling pads the temporal dimension with
 negative infinity by default, as documented

---
 continual/pooling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 1a475a4..a924379 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -659,7 +659,7 @@ class MaxPool1d(nn.MaxPool1d, _PoolNd):
     @staticmethod
     def build_from(
         module: nn.MaxPool1d,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         **kwargs,
     ) -> "MaxPool1d":
         return MaxPool1d(
@@ -749,7 +749,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
         dilation: _size_2_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _pair(kernel_size)
         self.stride = _pair(stride if (stride is not None) else kernel_size)
@@ -780,7 +780,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool2d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool2d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool2d":
         return MaxPool2d(
             **{
@@ -873,7 +873,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
         dilation: _size_3_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _triple(kernel_size)
         self.stride = _triple(stride if (stride is not None) else kernel_size)
@@ -904,7 +904,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool3d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool3d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool3d":
         return MaxPool3d(
             **{
-- 
2.43.0


From 0aaf9032efd45d3144c524434eb52a18b4d99ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:41 +0000
Subject: [PATCH 03/52] fix: honour divisor_override of AvgPool2d and AvgPool3d
 in the step modes

---
 continual/pooling.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index a924379..28ecbc6 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -35,6 +35,21 @@ def unity(x: Tensor) -> Tensor:
     return x
 
 
+def avg_pool_with_divisor(
+    x: Tensor, divisor: int, temporal_size: int, kernel_size, stride, padding, ceil_mode
+) -> Tensor:
+    """Spatial sum over `divisor`, scaled so that the subsequent temporal average over
+    `temporal_size` frames yields the sum over the full pooling region over `divisor`."""
+    is_1d = len(kernel_size) == 1
+    if is_1d:
+        x = x.unsqueeze(-1)
+        kernel_size, stride, padding = (*kernel_size, 1), (*stride, 1), (*padding, 0)
+    x = temporal_size * F.avg_pool2d(
+        x, kernel_size, stride, padding, ceil_mode, divisor_override=divisor
+    )
+    return x.squeeze(-1) if is_1d else x
+
+
 class PoolType(Enum):
     AVG = "avg"
     MAX = "max"
@@ -413,6 +428,16 @@ class AvgPool2d(nn.AvgPool2d, _PoolNd):
                 padding=self.padding[1:],
                 ceil_mode=self.ceil_mode,
                 count_include_pad=self.count_include_pad,
+            )
+            if self.divisor_override is None
+            else partial(
+                avg_pool_with_divisor,
+                divisor=self.divisor_override,
+                temporal_size=self.kernel_size[0],
+                kernel_size=self.kernel_size[1:],
+                stride=self.stride[1:],
+                padding=self.padding[1:],
+                ceil_mode=self.ceil_mode,
             ),
             num_input_dims=2,
             kernel_size=self.kernel_size,
@@ -543,7 +568,16 @@ class AvgPool3d(nn.AvgPool3d, _PoolNd):
                 padding=self.padding[1:],
                 ceil_mode=self.ceil_mode,
                 count_include_pad=self.count_include_pad,
-                divisor_override=self.divisor_override,
+            )
+            if self.divisor_override is None
+            else partial(
+                avg_pool_with_divisor,
+                divisor=self.divisor_override,
+                temporal_size=self.kernel_size[0],
+                kernel_size=self.kernel_size[1:],
+                stride=self.stride[1:],
+                padding=self.padding[1:],
+                ceil_mode=self.ceil_mode,
             ),
             num_input_dims=3,
             kernel_size=self.kernel_size,
-- 
2.43.0


From 7a31cf2bb44adbd6420610f698d25d71c9cbb403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:34 +0000
Subject: [PATCH 04/52] fix: keep the stride count of temporal kernels of size
 one, and align strided parallel branches by delaying their input

---
 continual/container.py | 12 ++++++++++--
 continual/conv.py      |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 9960a5b..155f8d5 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -142,6 +142,14 @@ def co_add_module(self, name: str, module: Optional["nn.Module"]) -> None:
     nn.Module.add_module(self, name, module)
 
 
+def delay_module(module: CoModule, delay: int) -> "Sequential":
+    """Delay a module by a number of input steps"""
+    if num_from(getattr(module, "stride", 1)) == 1:
+        return Sequential(module, Delay(delay))
+    # The output of a strided module is sparse in time. Delay its input instead.
+    return Sequential(OrderedDict([("delay", Delay(delay)), ("0", module)]))
+
+
 class Broadcast(CoModule, nn.Module):
     """Broadcast one input stream to multiple output streams.
 
@@ -275,7 +283,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        delay_module(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
@@ -813,7 +821,7 @@ class BroadcastReduce(Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        delay_module(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
diff --git a/continual/conv.py b/continual/conv.py
index 697d445..7390e39 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -160,7 +160,8 @@ class _ConvCoNd(CoModule, _ConvNd):
         self.stride_index = torch.tensor(0)
 
     def get_state(self) -> Optional[State]:
-        if len(self.state_buffer) > 0:
+        # A kernel of temporal size one has an empty buffer, but still counts strides
+        if len(self.state_buffer) > 0 or self.state_buffer.dim() > 1:
             return (self.state_buffer, self.state_index, self.stride_index)
         return None
 
-- 
2.43.0


From eaccb911fed70efb18565f1f8b6ebd961c8bfecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:02 +0000
Subject: [PATCH 05/52] fix: accept regular modules directly in Parallel and
 BroadcastReduce

---
 continual/container.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 155f8d5..bfeb50d 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -132,14 +132,17 @@ class FlattenableStateDict:
         return load_state_dict(self, state_dict, strict, flatten)
 
 
-def co_add_module(self, name: str, module: Optional["nn.Module"]) -> None:
+def co_convert(module: "nn.Module") -> CoModule:
     if not CoModule.is_valid(module):
         # Attempt automatic conversion
         from continual.convert import continual  # break cyclical import
 
         module = continual(module)
+    return module
+
 
-    nn.Module.add_module(self, name, module)
+def co_add_module(self, name: str, module: Optional["nn.Module"]) -> None:
+    nn.Module.add_module(self, name, co_convert(module))
 
 
 def delay_module(module: CoModule, delay: int) -> "Sequential":
@@ -272,9 +275,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
         nn.Module.__init__(self)
 
         if len(args) == 1 and isinstance(args[0], OrderedDict):
-            modules = [(key, module) for key, module in args[0].items()]
+            modules = [(key, co_convert(module)) for key, module in args[0].items()]
         else:
-            modules = [(str(idx), module) for idx, module in enumerate(args)]
+            modules = [(str(idx), co_convert(module)) for idx, module in enumerate(args)]
 
         if auto_delay:
             # If there is a delay mismatch, automatically add delay to match the longest
@@ -806,9 +809,9 @@ class BroadcastReduce(Sequential):
         nn.Module.__init__(self)
 
         if len(args) == 1 and isinstance(args[0], OrderedDict):
-            modules = [(key, module) for key, module in args[0].items()]
+            modules = [(key, co_convert(module)) for key, module in args[0].items()]
         else:
-            modules = [(str(idx), module) for idx, module in enumerate(args)]
+            modules = [(str(idx), co_convert(module)) for idx, module in enumerate(args)]
 
         assert (
             len(modules) > 1
@@ -879,7 +882,7 @@ class BroadcastReduce(Sequential):
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_step"):
+            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
                 outs.append(m(input, update_state=update_state))  # == m.forward_step
         if all(isinstance(o, Tensor) for o in outs):
             return self.reduce(outs)
@@ -889,7 +892,7 @@ class BroadcastReduce(Sequential):
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_steps"):
+            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
                 # m.forward_steps
                 outs.append(m(input, pad_end=pad_end, update_state=update_state))
 
@@ -898,7 +901,7 @@ class BroadcastReduce(Sequential):
     def forward(self, input: Tensor) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward"):
+            with temporary_parameter(m, "call_mode", _callmode("forward")):
                 outs.append(apply_forward(m, input))
 
         return self.reduce(outs)
-- 
2.43.0


From 2345e050d6f6ede46ea23c94eec162c44601b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 06/52] fix: use the stepped state for end padding when
 forward_steps does not update the state

---
 continual/module.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index c64accf..ed48835 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -275,9 +275,8 @@ class CoModule(ABC):
 
         if pad_end:
             # Don't save state for the end-padding
-            opt_state = self.get_state()
-            if opt_state is not None:
-                state = _clone_first(opt_state)
+            if state is not None:
+                state = _clone_first(state)
 
             for t, i in enumerate(
                 [self._make_padding(input[:, :, -1]) for _ in range(self.padding[0])]
-- 
2.43.0


From 5f82b2c002720303fd6c30143f5d279c5af2e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:45 +0000
Subject: [PATCH 07/52] fix: allow multi-head attention steps with
 update_state=False on a clean state

---
 continual/multihead_attention/mha_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index f65cf8c..390dde8 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -460,6 +460,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
+        backup_state = None
         if not update_state and tmp_state:
             backup_state = _clone_state(tmp_state)
 
@@ -472,7 +473,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         if update_state:
             self.set_state(tmp_state)
-        elif tmp_state is not None:
+        elif backup_state is not None:
             self.set_state(backup_state)
 
         return o
@@ -514,6 +515,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
+        backup_state = None
         if not update_state and tmp_state:
             backup_state = _clone_state(tmp_state)
 
-- 
2.43.0


From c9478a2cac12e36998c0feb624e37f46bf94c957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:55 +0000
Subject: [PATCH 08/52] fix: output shape of single-output attention
 forward_steps when batch_first=False

---
 continual/multihead_attention/single_output_mha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 819b09a..1739ab5 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -393,7 +393,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
         )
 
         if isinstance(o, Tensor):
-            o = o.squeeze(2)
+            o = o.squeeze(2 if self.batch_first else 1)
             if self.embed_dim_second:
                 o = o.transpose(1, 2)  # N T E -> N E T
 
-- 
2.43.0


From 9f1b57e7378dbf8696e0ca323e35b48f1e5b1d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:04 +0000
Subject: [PATCH 09/52] fix: use the separate projection weights in attention
 steps when kdim or vdim differ

---
 continual/multihead_attention/mha_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index 390dde8..0d2d02b 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -415,6 +415,10 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
             self.out_proj.weight,
             self.out_proj.bias,
             training=self.training,
+            use_separate_proj_weight=not self._qkv_same_embed_dim,
+            q_proj_weight=self.q_proj_weight,
+            k_proj_weight=self.k_proj_weight,
+            v_proj_weight=self.v_proj_weight,
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-- 
2.43.0


From 6b5c396f4acdb8216525ef2da7edcd55846e0d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:29 +0000
Subject: [PATCH 10/52] fix: ring-buffer order of the residual in retroactive
 transformer encoder layers

---
 continual/transformer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 21dcc4f..1abe7d9 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -91,12 +91,14 @@ class RetroactiveUnity(Delay):
         buffer[index % (self.delay + 1)] = input
         new_index = index + 1
         if new_index > 0:
-            new_index = new_index % self.delay
+            new_index = new_index % (self.delay + 1)
 
         # Get output
         output = None
         if index >= 0:
-            output = buffer.clone().roll(shifts=int(-index - 1), dims=0)
+            # Order from oldest to newest
+            tot = self.delay + 1
+            output = buffer[torch.remainder(torch.arange(tot) + index + 1, tot)]
             idx = (
                 self.time_dim + len(output.shape)
                 if self.time_dim < 0
-- 
2.43.0


From 2a06c16f96f61437b89d9887cb5ada45a68bc944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:02 +0000
Subject: [PATCH 11/52] fix: construct the intermediate layers of a
 TransformerEncoder with three or more layers

---
 continual/transformer.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 1abe7d9..db9e51f 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -408,23 +408,6 @@ def RetroactiveTransformerEncoderLayer(
     )
 
 
-# TODO: impl
-def StepLocalTransformerEncoderLayer(
-    d_model: int,
-    nhead: int,
-    dim_feedforward: int = 2048,
-    dropout: float = 0.1,
-    activation: Union[nn.Module, Callable[[Tensor], Tensor]] = nn.functional.relu,
-    layer_norm_eps: float = 1e-5,
-    # batch_first: bool = True,
-    # norm_first: bool = False,
-    device=None,
-    dtype=None,
-    sequence_len: int = None,
-):
-    ...
-
-
 def TransformerEncoderLayerFactory(
     d_model: int,
     nhead: int,
@@ -484,7 +467,8 @@ def TransformerEncoderLayerFactory(
             MhaType.SINGLE_OUTPUT_FORWARD: partial(
                 SingleOutputTransformerEncoderLayer, single_output_forward=True
             ),
-            MhaType.REGULAR: StepLocalTransformerEncoderLayer,
+            # Computes the regular (full) attention during forward
+            MhaType.REGULAR: SingleOutputTransformerEncoderLayer,
         }[MhaType(mha_type)]
 
         return factory_fn(
-- 
2.43.0


From f9b3b399d13351f23ab1d6d8e2a208ea11a942de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:35 +0000
Subject: [PATCH 12/52] fix: support the gelu activation in transformer encoder
 layers

---
 continual/convert.py     | 3 ++-
 continual/transformer.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 8e80149..05461f1 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -1,7 +1,7 @@
 """ Register modules with conversion system and 3rd-party libraries """
 
 from functools import wraps
-from types import FunctionType
+from types import BuiltinFunctionType, FunctionType
 from typing import Callable, Type, Union
 
 from torch import Tensor, nn
@@ -273,6 +273,7 @@ register(nn.Sequential, Sequential)
 
 # Closure
 register(FunctionType, Lambda)
+register(BuiltinFunctionType, Lambda)
 
 # RNN
 register(nn.RNN, RNN)
diff --git a/continual/transformer.py b/continual/transformer.py
index db9e51f..69f9542 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -457,7 +457,7 @@ def TransformerEncoderLayerFactory(
     if activation in {"relu", "gelu"}:
         activation = {
             "relu": nn.functional.relu,
-            "gelu": nn.functional.relu,
+            "gelu": nn.functional.gelu,
         }[activation]
 
     def TransformerEncoderLayer(mha_type: MhaType):
-- 
2.43.0


From 5e9269d58209a85c0176f9137134f33ae8cecc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:04 +0000
Subject: [PATCH 13/52] fix: delay the residual of single-output transformer
 encoder layers with an earlier query index

---
 continual/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 69f9542..fae12c3 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -8,7 +8,7 @@ from torch import Tensor, nn
 
 from continual.delay import State as DelayState
 
-from .closure import Identity, Lambda
+from .closure import Lambda
 from .container import BroadcastReduce, Residual, Sequential
 from .delay import Delay, PaddingMode
 from .linear import Linear
@@ -272,7 +272,7 @@ def SingleOutputTransformerEncoderLayer(
                         "residual",
                         SelectOrDelay(mha.delay)
                         if single_output_forward
-                        else Identity(),
+                        else Delay(mha.delay),
                     ),
                     (
                         "self_attn",
-- 
2.43.0


From 32bd4e795ac3f8b300e5e5faf725a0f484f3b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 14/52] fix: restore the enclosing call mode when nested
 call_mode contexts exit

---
 continual/module.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index ed48835..f859951 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -1,6 +1,7 @@
 import functools
 import itertools
 from abc import ABC
+from contextlib import contextmanager
 from enum import Enum
 from typing import List, Optional, Tuple, Union
 
@@ -76,17 +77,14 @@ class _CallModeContext(object):
         self.cur = _callmode("forward")
         self.prev = None
 
+    @contextmanager
     def __call__(self, value: Union[str, int, torch.Tensor]):
-        self.prev = self.cur
-        self.cur = _callmode(value)
-        return self
-
-    def __enter__(self):
-        pass
-
-    def __exit__(self, *args, **kwargs):
-        self.cur = self.prev
-        self.prev = None
+        outer = (self.cur, self.prev)
+        self.cur, self.prev = _callmode(value), self.cur
+        try:
+            yield self
+        finally:
+            self.cur, self.prev = outer
 
 
 call_mode = _CallModeContext()
-- 
2.43.0


From bf8413527fc97fd298ef1c91a48641ced1d345d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 15/52] fix: resolve call modes given as integers and call
 modes of copied modules

---
 continual/module.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index f859951..15bc062 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -51,7 +51,7 @@ def _callmode(cm) -> torch.Tensor:
     if isinstance(cm, str):
         cm = CALL_MODES[cm.lower()]
     elif isinstance(cm, int):
-        cm = torch.tensor(int)
+        cm = list(CALL_MODES.values())[cm]
     return cm
 
 
@@ -341,13 +341,16 @@ class CoModule(ABC):
         Returns:
             [type]: [description]
         """
-        _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
+        _call_mode = _callmode(
+            call_mode.cur if call_mode.prev is not None else self.call_mode
+        )
+        # Look up by value, as tensor identity is lost if the module is copied
         forward_call = {
-            (True, _callmode("forward")): self._slow_forward,
-            (False, _callmode("forward")): self.forward,
-            (False, _callmode("forward_steps")): self.forward_steps,
-            (False, _callmode("forward_step")): self.forward_step,
-        }[(bool(torch._C._get_tracing_state()), _call_mode)]
+            (True, int(_callmode("forward"))): self._slow_forward,
+            (False, int(_callmode("forward"))): self.forward,
+            (False, int(_callmode("forward_steps"))): self.forward_steps,
+            (False, int(_callmode("forward_step"))): self.forward_step,
+        }[(bool(torch._C._get_tracing_state()), int(_call_mode))]
 
         # If we don't have any hooks, we want to skip the rest of the logic in
         # this function, and just call forward.
-- 
2.43.0


From b46e14c91d601c4c15fbc59360eb32d8f1ad0c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 16/52] fix: pass keyword arguments on to converted modules

---
 continual/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index 05461f1..1e5b176 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -106,7 +106,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
             else getattr(module, "call_mode", _callmode("forward"))
         )
         if _call_mode == _callmode("forward"):
-            return orig_forward(*args, *kwargs)
+            return orig_forward(*args, **kwargs)
         return CoModule._call_impl(module, *args, **kwargs)
 
     module.forward = forward_with_callmode
-- 
2.43.0


From 6263994284c96aae760f3bc345dc27322632d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:59 +0000
Subject: [PATCH 17/52] fix: restore temporarily set attributes, such as the
 call mode, when an exception is raised

---
 continual/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index 0136b5e..fccdcae 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -50,12 +50,13 @@ def temporary_parameter(obj, attr: str, val):
 
     rsetattr(obj, attr, val)
 
-    yield obj
-
-    if do_del:
-        delattr(obj, attr)
-    else:
-        rsetattr(obj, attr, prev_val)
+    try:
+        yield obj
+    finally:
+        if do_del:
+            delattr(obj, attr)
+        else:
+            rsetattr(obj, attr, prev_val)
 
 
 class _FlatStateDict(object):
-- 
2.43.0


From 8698e6a9eccb3c9280b3798b79dc79fd0a3296b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:22 +0000
Subject: [PATCH 18/52] fix: run a TransformerEncoder within a call_mode
 context

---
 continual/transformer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index fae12c3..902ddc0 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -12,6 +12,7 @@ from .closure import Lambda
 from .container import BroadcastReduce, Residual, Sequential
 from .delay import Delay, PaddingMode
 from .linear import Linear
+from .module import call_mode
 from .multihead_attention import (
     RetroactiveMultiheadAttention,
     SingleOutputMultiheadAttention,
@@ -117,7 +118,9 @@ class RetroactiveLambda(Lambda):
     """
 
     def forward(self, input: Tensor) -> Tensor:
-        return Lambda.forward(self, input)
+        # The function sees all tokens at once in each of the call modes
+        with call_mode("forward"):
+            return Lambda.forward(self, input)
 
     def forward_step(self, input: Tensor, *args, **kwargs) -> Tensor:
         return self.forward(input)
-- 
2.43.0


From 8ad0de522d6fe468d47fcf8c192980b64e48e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:31 +0000
Subject: [PATCH 19/52] fix: treat auto_shrink="centered" like auto_shrink=True
 when stepping a Delay

---
 continual/delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/delay.py b/continual/delay.py
index 69aea83..f67ec52 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -70,7 +70,7 @@ class Delay(CoModule, torch.nn.Module):
         state_buffer = torch.stack([padding for _ in range(self.delay)], dim=0)
         state_index = torch.tensor(
             -2 * self.delay
-            if self.auto_shrink and isinstance(self.auto_shrink, bool)
+            if self.auto_shrink in {True, "centered"}
             else -self.delay
         )
         return state_buffer, state_index
-- 
2.43.0


From 49afcc9b6554f631a441905980f5f5ccc15f62e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:45 +0000
Subject: [PATCH 20/52] fix: do not flush a shrinking Delay with end padding

---
 continual/delay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/delay.py b/continual/delay.py
index f67ec52..ea6fbf3 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -120,7 +120,9 @@ class Delay(CoModule, torch.nn.Module):
         if self._delay == 0:
             return input
 
-        with temporary_parameter(self, "padding", (self.delay,)):
+        # A shrinking delay leaves out the steps held back at the end of the sequence
+        padding = 0 if self.auto_shrink else self.delay
+        with temporary_parameter(self, "padding", (padding,)):
             output = CoModule.forward_steps(self, input, pad_end, update_state)
 
         return output
-- 
2.43.0


From ca443a227c6f35cd8fcdfce6af246f43db35a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:16 +0000
Subject: [PATCH 21/52] fix: pass streams without an output through subsequent
 parallel modules

---
 continual/container.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/continual/container.py b/continual/container.py
index bfeb50d..0c72f55 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -329,7 +329,10 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
         prev_state = prev_state or [None for _ in range(len(self))]
         outs, next_state = [], []
         for i, module in enumerate(self):
-            out, n_state = module._forward_step(inputs[i], prev_state=prev_state[i])
+            # Streams are empty until the preceding modules produce outputs
+            out, n_state = None, prev_state[i]
+            if inputs[i] is not None:
+                out, n_state = module._forward_step(inputs[i], prev_state=prev_state[i])
             outs.append(out)
             next_state.append(n_state)
         return outs, next_state
@@ -337,6 +340,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     def forward_step(self, inputs: List[T], update_state=True) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:
+                outs.append(None)
+                continue
             with temporary_parameter(m, "call_mode", _callmode("forward_step")):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
@@ -346,6 +352,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     ) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:
+                outs.append(None)
+                continue
             with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
-- 
2.43.0


From 4fba9516686b07a3e28d846a17dee025c70e20fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:26 +0000
Subject: [PATCH 22/52] fix: do not convert modules again which already are
 continual

---
 continual/convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index 1e5b176..4afc8a6 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -224,7 +224,8 @@ def continual(module: nn.Module) -> CoModule:
         ))
 
     """
-    if isinstance(module, CoModule):
+    # Also covers modules that were enhanced with `forward_stepping` previously
+    if isinstance(module, CoModule) or CoModule.is_valid(module):
         return module
 
     if type(module) in NAIVE_MAPPING:
-- 
2.43.0


From 95d04c925f77dd76fd99e8472a49ad2cf5ebb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 23/52] fix: convert Dropout1d, as documented

---
 continual/convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/continual/convert.py b/continual/convert.py
index 4afc8a6..355b18a 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -154,6 +154,7 @@ NAIVE_MAPPING = {
     nn.GroupNorm,
     # >> Dropout modules
     nn.Dropout,
+    nn.Dropout1d,
     nn.Dropout2d,
     nn.Dropout3d,
     nn.AlphaDropout,
-- 
2.43.0


From 1b57354337d6386cb53e599a45c02f01982a1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:46 +0000
Subject: [PATCH 24/52] fix: keep the dtype and device of converted
 convolutions

---
 continual/conv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/continual/conv.py b/continual/conv.py
index 7390e39..c934869 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -418,6 +418,8 @@ class Conv1d(_ConvCoNd):
                     groups=module.groups,
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
                 **kwargs,
@@ -518,6 +520,8 @@ class Conv2d(_ConvCoNd):
                     groups=module.groups,
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
                 **kwargs,
@@ -618,6 +622,8 @@ class Conv3d(_ConvCoNd):
                     groups=module.groups,
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
                 **kwargs,
-- 
2.43.0


From 2a827af1c4c34f167c409867ad85d163d4225761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:48 +0000
Subject: [PATCH 25/52] fix: get and set the state of
 RecyclingPositionalEncoding

---
 continual/positional_encoding.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index b55bfd5..9ccf8ec 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -189,8 +189,13 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
         return output, (state_index,)
 
     def init_state(self) -> State:
-        self.state_index = torch.tensor(0)
-        return (self.state_index,)
+        return (torch.tensor(0),)
 
     def clean_state(self):
-        self.state_index = torch.tensor(0)
+        (self.state_index,) = self.init_state()
+
+    def get_state(self) -> State:
+        return (self.state_index,)
+
+    def set_state(self, state: State):
+        (self.state_index,) = state
-- 
2.43.0


From 463e2caf8b82a0751fe48510b307b3ad9ed1655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:58 +0000
Subject: [PATCH 26/52] fix: pass update_state, pad_end, and the functional
 state of both branches through Conditional

---
 continual/container.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 0c72f55..cd4e600 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1067,26 +1067,35 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_step(input, update_state)
+            return self._modules["0"].forward_step(input, update_state=update_state)
         elif "1" in self._modules:
-            return self._modules["1"].forward_step(input, update_state)
+            return self._modules["1"].forward_step(input, update_state=update_state)
         return input
 
     def _forward_step(
         self, input: Tensor, prev_state: Optional[State] = None
     ) -> Tuple[Tensor, Optional[State]]:
         prev_state = prev_state or [None, None]
+        next_state = list(prev_state)
         if self.predicate(self, input):
-            return self._modules["0"]._forward_step(input, prev_state[0])
+            input, next_state[0] = self._modules["0"]._forward_step(
+                input, prev_state[0]
+            )
         elif "1" in self._modules:
-            return self._modules["1"]._forward_step(input, prev_state[1])
-        return input, prev_state
+            input, next_state[1] = self._modules["1"]._forward_step(
+                input, prev_state[1]
+            )
+        return input, next_state
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_steps(input)
+            return self._modules["0"].forward_steps(
+                input, pad_end=pad_end, update_state=update_state
+            )
         elif "1" in self._modules:
-            return self._modules["1"].forward_steps(input)
+            return self._modules["1"].forward_steps(
+                input, pad_end=pad_end, update_state=update_state
+            )
         return input
 
     @property
-- 
2.43.0


From b63d1574c47c68bce475dca2a028e333b208445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:07 +0000
Subject: [PATCH 27/52] fix: clean the state of Conditional and reflect its
 branches in padding, stride, and receptive field

---
 continual/container.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index cd4e600..5190c7f 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1039,10 +1039,6 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
         # Ensure modules have the same delay
         self._delay = max(on_true.delay, getattr(on_false, "delay", 0))
-        self._receptive_field = max(
-            on_true.receptive_field, getattr(on_false, "receptive_field", 1)
-        )
-
         self.add_module(
             "0",
             on_true
@@ -1058,6 +1054,10 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
                 else Sequential(Delay(self._delay - on_false.delay), on_false),
             )
 
+        self._receptive_field = max(
+            m.receptive_field for m in self._modules.values()
+        )
+
     def forward(self, input: Tensor) -> Tensor:
         if self.predicate(self, input):
             return apply_forward(self._modules["0"], input)
@@ -1114,5 +1114,17 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def receptive_field(self) -> int:
         return self._receptive_field
 
+    @property
+    def stride(self) -> Tuple[int]:
+        return (num_from(self._modules["0"].stride),)
+
+    @property
+    def padding(self) -> Tuple[int]:
+        return (max(num_from(m.padding) for m in self._modules.values()),)
+
+    def clean_state(self):
+        for m in self._modules.values():
+            m.clean_state()
+
     def extra_repr(self):
         return f"predicate={function_repr(self.predicate)}"
-- 
2.43.0


From 763dc9bfde4945cbe3fd80e6840f1b007bb14432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 28/52] fix: keep flattening state dicts when a nested
 flat_state_dict context exits

---
 continual/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index fccdcae..c6e1a99 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -63,13 +63,17 @@ class _FlatStateDict(object):
     """Context-manager state holder."""
 
     def __init__(self):
-        self.flatten = False
+        self.depth = 0
+
+    @property
+    def flatten(self) -> bool:
+        return self.depth > 0
 
     def __enter__(self):
-        self.flatten = True
+        self.depth += 1
 
     def __exit__(self, *args, **kwargs):
-        self.flatten = False
+        self.depth -= 1
 
 
 flat_state_dict = _FlatStateDict()
-- 
2.43.0


From 1069611e765e21e40a30436c178259a9df02ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 29/52] fix: name the input delay of strided parallel branches
 without shadowing the delay attribute

---
 continual/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/container.py b/continual/container.py
index 5190c7f..c5f645f 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -150,7 +150,7 @@ def delay_module(module: CoModule, delay: int) -> "Sequential":
     if num_from(getattr(module, "stride", 1)) == 1:
         return Sequential(module, Delay(delay))
     # The output of a strided module is sparse in time. Delay its input instead.
-    return Sequential(OrderedDict([("delay", Delay(delay)), ("0", module)]))
+    return Sequential(OrderedDict([("input_delay", Delay(delay)), ("0", module)]))
 
 
 class Broadcast(CoModule, nn.Module):
-- 
2.43.0


From d3a4fcbd2bafb8f2a4fd66ec4154373f94cda9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 30/52] fix: resolve a call mode assigned by name on converted
 modules

---
 continual/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 355b18a..3d8cb19 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -100,10 +100,10 @@ def forward_stepping(module: nn.Module, dim: int = 2):
     module.call_mode = _callmode("forward")
 
     def forward_with_callmode(*args, **kwargs):
-        _call_mode = (
+        _call_mode = _callmode(
             call_mode.cur
             if call_mode.prev is not None
-            else getattr(module, "call_mode", _callmode("forward"))
+            else getattr(module, "call_mode", "forward")
         )
         if _call_mode == _callmode("forward"):
             return orig_forward(*args, **kwargs)
-- 
2.43.0


From 28ff26eae68352b960a13747afa665a4d5903b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 31/52] fix: ONNX export leaves the training mode of the model
 as it was

---
 continual/onnx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/onnx.py b/continual/onnx.py
index fb5d37d..35cda20 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -254,6 +254,8 @@ class OnnxWrapper(torch.nn.Module):
     def __init__(self, model: CoModule):
         super().__init__()
         self.model = model
+        # The exporter restores the mode of the wrapper, and thereby that of the model
+        self.training = model.training
 
     def forward(self, x: torch.Tensor, *states: torch.Tensor):
         shaped_state, _ = _shape_list(states, self.model._state_shape)
-- 
2.43.0


From 1ff6917807500d94255822c992faba33b74db174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 32/52] fix: ONNX export marks the batch dimension of each
 state

---
 continual/conv.py                                  | 4 ++--
 continual/delay.py                                 | 2 +-
 continual/module.py                                | 3 ++-
 continual/multihead_attention/retroactive_mha.py   | 2 +-
 continual/multihead_attention/single_output_mha.py | 2 +-
 continual/onnx.py                                  | 9 +++++++--
 continual/pooling.py                               | 2 +-
 continual/positional_encoding.py                   | 2 +-
 continual/rnn.py                                   | 6 +++---
 continual/skip.py                                  | 2 +-
 10 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/continual/conv.py b/continual/conv.py
index c934869..3abfbc2 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -134,11 +134,11 @@ class _ConvCoNd(CoModule, _ConvNd):
             return 3
 
     @property
-    def _dynamic_state_inds(self) -> List[bool]:
+    def _dynamic_state_inds(self) -> List[int]:
         if self._stateless:
             return []
         else:
-            return [True, False, False]
+            return [1, -1, -1]
 
     def init_state(
         self,
diff --git a/continual/delay.py b/continual/delay.py
index ea6fbf3..3945fde 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -41,7 +41,7 @@ class Delay(CoModule, torch.nn.Module):
 
     @property
     def _dynamic_state_inds(self):
-        return [True, False] if self.delay > 0 else []
+        return [1, -1] if self.delay > 0 else []
 
     def __init__(
         self,
diff --git a/continual/module.py b/continual/module.py
index 15bc062..8aebca5 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -114,7 +114,8 @@ class CoModule(ABC):
     padding: Tuple[int, ...] = (0,)
     _make_padding = torch.zeros_like
     _state_shape: int = 0
-    _dynamic_state_inds: List[bool] = []
+    # Batch dimension of each state (-1 if there is none)
+    _dynamic_state_inds: List[int] = []
     _call_mode = _callmode("forward")
 
     def __init_subclass__(cls) -> None:
diff --git a/continual/multihead_attention/retroactive_mha.py b/continual/multihead_attention/retroactive_mha.py
index 415f45b..fe204a3 100644
--- a/continual/multihead_attention/retroactive_mha.py
+++ b/continual/multihead_attention/retroactive_mha.py
@@ -204,7 +204,7 @@ class RetroactiveMultiheadAttention(MultiheadAttentionBase):
 
     _state_shape = 6
     #                     d_mem, AV_mem, Q_mem, K_T_mem, V_mem ,state_index
-    _dynamic_state_inds = [True, True, True, True, True, False]
+    _dynamic_state_inds = [0, 0, 0, 0, 0, -1]
 
     def __init__(
         self,
diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 1739ab5..7854f52 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -179,7 +179,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
 
     _state_shape = 4
     #                      Q_mem, K_T_mem, V_mem, stride_index
-    _dynamic_state_inds = [True, True, True, False]
+    _dynamic_state_inds = [0, 0, 0, -1]
 
     def __init__(
         self,
diff --git a/continual/onnx.py b/continual/onnx.py
index 35cda20..5e37734 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -277,7 +277,12 @@ class OnnxWrapper(torch.nn.Module):
 
     @property
     def state_dynamic_axes(self) -> Dict[str, List[int]]:
-        isdyn = flatten(self.model._dynamic_state_inds)
-        ins = {sn: {0: "batch"} for sn, i in zip(self.state_input_names, isdyn) if i}
+        dims = flatten(self.model._dynamic_state_inds)
+        # Attention states have batch and heads in one dimension. Name them individually
+        ins = {
+            sn: {dim: f"batch_{sn}"}
+            for sn, dim in zip(self.state_input_names, dims)
+            if dim >= 0
+        }
         outs = {self._i2o_name(k): v for k, v in ins.items()}
         return {**ins, **outs}
diff --git a/continual/pooling.py b/continual/pooling.py
index 28ecbc6..aea9914 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -72,7 +72,7 @@ class _PoolNd(CoModule, nn.Module):
     """
 
     _state_shape = 3
-    _dynamic_state_inds = [True, False, False]
+    _dynamic_state_inds = [1, -1, -1]
 
     def __init__(
         self,
diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index 9ccf8ec..b2b7d6a 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -131,7 +131,7 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
     """
 
     _state_shape = 1
-    _dynamic_state_inds = [False]
+    _dynamic_state_inds = [-1]
 
     def __init__(
         self,
diff --git a/continual/rnn.py b/continual/rnn.py
index 905cc51..18266f5 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -114,7 +114,7 @@ class RNN(CoModule, nn.RNN):
     """
 
     _state_shape = 1
-    _dynamic_state_inds = [True]
+    _dynamic_state_inds = [1]
 
     def __init__(
         self,
@@ -332,7 +332,7 @@ class GRU(CoModule, nn.GRU):
         assert torch.allclose(last, output[:, :, -1])
     """
     _state_shape = 1
-    _dynamic_state_inds = [True]
+    _dynamic_state_inds = [1]
 
     def __init__(
         self,
@@ -586,7 +586,7 @@ class LSTM(CoModule, nn.LSTM):
         assert torch.allclose(last, output[:, :, -1])
     """
     _state_shape = 2
-    _dynamic_state_inds = [True, True]
+    _dynamic_state_inds = [1, 1]
 
     def __init__(
         self,
diff --git a/continual/skip.py b/continual/skip.py
index 8bfd308..76d7cfd 100644
--- a/continual/skip.py
+++ b/continual/skip.py
@@ -23,7 +23,7 @@ class Skip(CoModule, torch.nn.Module):
 
     @property
     def _dynamic_state_inds(self):
-        return [False]
+        return [-1]
 
     def __init__(self, steps: int):
         assert steps > 0
-- 
2.43.0


From d4caeb0bd7db339cfb4bfee081188802008d8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:37 +0000
Subject: [PATCH 33/52] fix: run full backward hooks and hooks with keyword
 arguments on continual modules

---
 continual/module.py | 51 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 8aebca5..e75f612 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -6,6 +6,7 @@ from enum import Enum
 from typing import List, Optional, Tuple, Union
 
 import torch
+import torch.nn.modules.module as torch_module
 import torch.utils.hooks as hooks
 from torch import Tensor
 from torch.nn.modules.module import (
@@ -14,6 +15,12 @@ from torch.nn.modules.module import (
     _global_forward_pre_hooks,
 )
 
+# Not available in older versions of PyTorch
+_global_backward_pre_hooks = getattr(torch_module, "_global_backward_pre_hooks", {})
+_global_forward_hooks_with_kwargs = getattr(
+    torch_module, "_global_forward_hooks_with_kwargs", {}
+)
+
 __all__ = ["CoModule", "call_mode"]
 
 # First element is a value buffer, while others are indexes
@@ -353,25 +360,40 @@ class CoModule(ABC):
             (False, int(_callmode("forward_step"))): self.forward_step,
         }[(bool(torch._C._get_tracing_state()), int(_call_mode))]
 
+        # Not available in older versions of PyTorch
+        self_backward_pre_hooks = getattr(self, "_backward_pre_hooks", {})
+        pre_hooks_with_kwargs = getattr(self, "_forward_pre_hooks_with_kwargs", {})
+        hooks_with_kwargs = getattr(self, "_forward_hooks_with_kwargs", {})
+
         # If we don't have any hooks, we want to skip the rest of the logic in
         # this function, and just call forward.
         if not (
             self._backward_hooks
+            or self_backward_pre_hooks
             or self._forward_hooks
             or self._forward_pre_hooks
             or _global_backward_hooks
+            or _global_backward_pre_hooks
             or _global_forward_hooks
             or _global_forward_pre_hooks
         ):
             return forward_call(*input, **kwargs)
         # Do not call functions when jit is used
         full_backward_hooks, non_full_backward_hooks = [], []
+        backward_pre_hooks = []
+        if self_backward_pre_hooks or _global_backward_pre_hooks:
+            backward_pre_hooks = self._get_backward_pre_hooks()
         if self._backward_hooks or _global_backward_hooks:
             full_backward_hooks, non_full_backward_hooks = self._get_backward_hooks()
         if _global_forward_pre_hooks or self._forward_pre_hooks:
-            for hook in itertools.chain(
-                _global_forward_pre_hooks.values(), self._forward_pre_hooks.values()
+            for hook_id, hook in itertools.chain(
+                _global_forward_pre_hooks.items(), self._forward_pre_hooks.items()
             ):
+                if hook_id in pre_hooks_with_kwargs:
+                    result = hook(self, input, kwargs)
+                    if result is not None:
+                        input, kwargs = result
+                    continue
                 result = hook(self, input)
                 if result is not None:
                     if not isinstance(result, tuple):
@@ -379,16 +401,29 @@ class CoModule(ABC):
                     input = result
 
         bw_hook = None
-        if full_backward_hooks:
-            bw_hook = hooks.BackwardHook(self, full_backward_hooks)
+        if backward_pre_hooks:
+            bw_hook = hooks.BackwardHook(self, full_backward_hooks, backward_pre_hooks)
+        elif full_backward_hooks:
+            bw_hook = (
+                hooks.BackwardHook(self, full_backward_hooks, [])
+                if hasattr(self, "_backward_pre_hooks")
+                else hooks.BackwardHook(self, full_backward_hooks)
+            )
+        if bw_hook:
             input = bw_hook.setup_input_hook(input)
 
         result = forward_call(*input, **kwargs)
         if _global_forward_hooks or self._forward_hooks:
-            for hook in itertools.chain(
-                _global_forward_hooks.values(), self._forward_hooks.values()
+            for hook_id, hook in itertools.chain(
+                _global_forward_hooks.items(), self._forward_hooks.items()
             ):
-                hook_result = hook(self, input, result)
+                if (
+                    hook_id in hooks_with_kwargs
+                    or hook_id in _global_forward_hooks_with_kwargs
+                ):
+                    hook_result = hook(self, input, kwargs, result)
+                else:
+                    hook_result = hook(self, input, result)
                 if hook_result is not None:
                     result = hook_result
 
@@ -396,7 +431,7 @@ class CoModule(ABC):
             result = bw_hook.setup_output_hook(result)
 
         # Handle the non-full backward hooks
-        if non_full_backward_hooks:
+        if non_full_backward_hooks and result is not None:
             var = result
             while not isinstance(var, torch.Tensor):
                 if isinstance(var, dict):
-- 
2.43.0


From 1e455fad6fd6436c3201e42ede2907e2614536e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:30 +0000
Subject: [PATCH 34/52] fix: let modules enhanced with forward_stepping be
 copied, and run their hooks once in the step modes

---
 continual/convert.py | 98 ++++++++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 3d8cb19..ecfdecd 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -1,6 +1,6 @@
 """ Register modules with conversion system and 3rd-party libraries """
 
-from functools import wraps
+from functools import partial
 from types import BuiltinFunctionType, FunctionType
 from typing import Callable, Type, Union
 
@@ -51,67 +51,67 @@ def forward_stepping(module: nn.Module, dim: int = 2):
         dim (int, optional): The dimension to unsqueeze during `forward_step`. Defaults to 2.
     """
 
-    def _forward_step(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, prev_state=None) -> Tensor:
-            return func(x.unsqueeze(dim)).squeeze(dim), prev_state
-
-        return call
-
-    def forward_step(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, update_state=True) -> Tensor:
-            return func(x.unsqueeze(dim)).squeeze(dim)
-
-        return call
-
-    def forward_steps(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, pad_end=False, update_state=True) -> Tensor:
-            x = func(x)
-            return x
-
-        return call
-
-    def dummy(*args, **kwargs):
-        ...  # pragma: no cover
-
-    @staticmethod
-    def build_from(mod):  # pragma: no cover
-        return module.__class__()
-
     # module.__class__.__bases__ = (*module.__class__.__bases__, CoModule)
-    orig_forward = module.forward
-    module.forward_steps = forward_steps(module.forward)
-    module.forward_step = forward_step(module.forward)
-    module._forward_step = _forward_step(module.forward)
+    # Partial functions follow along when the module is copied
+    func = module.forward
+    if getattr(func, "__func__", None) is getattr(type(module), "forward", None):
+        func = partial(type(module).forward, module)
+    module.forward_steps = partial(_enhanced_forward_steps, func)
+    module.forward_step = partial(_enhanced_forward_step, func, dim)
+    module._forward_step = partial(_enhanced_step_with_state, func, dim)
     module.delay = 0
     module.receptive_field = 1
     module.stride = tuple(getattr(module, "stride", [1]))
     module.padding = tuple(getattr(module, "padding", [0]))
-    module.build_from = build_from
-    module.get_state = dummy
-    module.set_state = dummy
-    module.clean_state = dummy
+    module.build_from = partial(_enhanced_build_from, type(module))
+    module.get_state = _dummy
+    module.set_state = _dummy
+    module.clean_state = _dummy
     module._state_shape = 0
     module._dynamic_state_inds = []
 
     # Call mode
     module.call_mode = _callmode("forward")
+    module.forward = partial(_enhanced_forward, module, func)
 
-    def forward_with_callmode(*args, **kwargs):
-        _call_mode = _callmode(
-            call_mode.cur
-            if call_mode.prev is not None
-            else getattr(module, "call_mode", "forward")
-        )
-        if _call_mode == _callmode("forward"):
-            return orig_forward(*args, **kwargs)
-        return CoModule._call_impl(module, *args, **kwargs)
+    return module
 
-    module.forward = forward_with_callmode
 
-    return module
+def _enhanced_step_with_state(
+    func: Callable[[Tensor], Tensor], dim: int, x: Tensor, prev_state=None
+) -> Tensor:
+    return func(x.unsqueeze(dim)).squeeze(dim), prev_state
+
+
+def _enhanced_forward_step(
+    func: Callable[[Tensor], Tensor], dim: int, x: Tensor, update_state=True
+) -> Tensor:
+    return func(x.unsqueeze(dim)).squeeze(dim)
+
+
+def _enhanced_forward_steps(
+    func: Callable[[Tensor], Tensor], x: Tensor, pad_end=False, update_state=True
+) -> Tensor:
+    return func(x)
+
+
+def _enhanced_forward(module: nn.Module, func: Callable, *args, **kwargs):
+    _call_mode = _callmode(
+        call_mode.cur
+        if call_mode.prev is not None
+        else getattr(module, "call_mode", "forward")
+    )
+    return [func, module.forward_steps, module.forward_step][int(_call_mode)](
+        *args, **kwargs
+    )
+
+
+def _enhanced_build_from(cls: Type[nn.Module], module):  # pragma: no cover
+    return cls()
+
+
+def _dummy(*args, **kwargs):
+    ...  # pragma: no cover
 
 
 # A mapping from torch.nn modules to continual modules
-- 
2.43.0


From 2b1ff945f0ee427162e7b15a56cf54eb49aa8e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:47 +0000
Subject: [PATCH 35/52] fix: run hooks on the branches of Conditional in the
 step modes

---
 continual/container.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index c5f645f..b897448 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1067,10 +1067,13 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_step(input, update_state=update_state)
+            m = self._modules["0"]
         elif "1" in self._modules:
-            return self._modules["1"].forward_step(input, update_state=update_state)
-        return input
+            m = self._modules["1"]
+        else:
+            return input
+        with temporary_parameter(m, "call_mode", _callmode("forward_step")):
+            return m(input, update_state=update_state)  # == m.forward_step
 
     def _forward_step(
         self, input: Tensor, prev_state: Optional[State] = None
@@ -1089,14 +1092,14 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_steps(
-                input, pad_end=pad_end, update_state=update_state
-            )
+            m = self._modules["0"]
         elif "1" in self._modules:
-            return self._modules["1"].forward_steps(
-                input, pad_end=pad_end, update_state=update_state
-            )
-        return input
+            m = self._modules["1"]
+        else:
+            return input
+        with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            # == m.forward_steps
+            return m(input, pad_end=pad_end, update_state=update_state)
 
     @property
     def _state_shape(self):
-- 
2.43.0


From 3bc5cbc5aaf0c7778273ba49b6f53d2e2fadaac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:44 +0000
Subject: [PATCH 36/52] fix: compute gradients through the steps of pooling
 modules

---
 continual/pooling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/pooling.py b/continual/pooling.py
index aea9914..95756ec 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -203,6 +203,8 @@ class _PoolNd(CoModule, nn.Module):
 
         pooled_frame = self._spatial_pool_fn(input)
         buffer, index, stride_index = prev_state or self.init_state(pooled_frame)
+        if pooled_frame.requires_grad or buffer.requires_grad:
+            buffer = buffer.clone()  # Autograd may need the previous values
         buffer[index] = pooled_frame
 
         next_buffer = buffer  # .clone() if self.training else buffer.detach()
-- 
2.43.0


From e629569ced186ab59a24dae3328f0add881a4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 37/52] fix: run the parts of containers in the mode of an
 explicit method call within a call_mode context

---
 continual/container.py | 45 ++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index b897448..8556d74 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict, abc
+from contextlib import contextmanager
 from enum import Enum
 from functools import reduce, wraps
 from typing import Callable, List, Optional, Sequence, Tuple, TypeVar, Union, overload
@@ -8,7 +9,7 @@ from torch import Tensor, nn
 
 from .delay import Delay
 from .logging import getLogger
-from .module import CoModule, PaddingMode, _callmode
+from .module import CoModule, PaddingMode, _callmode, call_mode
 from .skip import Skip
 from .utils import (
     function_repr,
@@ -55,6 +56,17 @@ ReductionFunc = Callable[[Sequence[Tensor]], Tensor]
 ReductionFuncOrEnum = Union[Reduction, ReductionFunc, str]
 
 
+@contextmanager
+def temporary_call_mode(module: CoModule, mode: str):
+    """Let calls of `module` run in `mode`, also within a `call_mode` context of another mode"""
+    with temporary_parameter(module, "call_mode", _callmode(mode)):
+        if call_mode.prev is None:
+            yield
+        else:
+            with call_mode(mode):
+                yield
+
+
 def apply_forward(module: CoModule, input: Tensor):
     if isinstance(module, nn.RNNBase):
         return module.forward(input)[0]
@@ -343,7 +355,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
             if inputs[i] is None:
                 outs.append(None)
                 continue
-            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
+            with temporary_call_mode(m, "forward_step"):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
 
@@ -355,14 +367,14 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
             if inputs[i] is None:
                 outs.append(None)
                 continue
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with temporary_call_mode(m, "forward_steps"):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
 
     def forward(self, inputs: List[T]) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with temporary_call_mode(m, "forward"):
                 outs.append(apply_forward(m, inputs[i]))
         return outs
 
@@ -652,14 +664,14 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
 
     def forward(self, input):
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with temporary_call_mode(m, "forward"):
                 input = apply_forward(m, input)
         return input
 
     def forward_step(self, input, update_state=True):
         for module in self:
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(module, "call_mode", _callmode("forward_step")):
+            with temporary_call_mode(module, "forward_step"):
                 input = module(
                     input, update_state=update_state
                 )  # == module.forward_step
@@ -690,7 +702,7 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
             if not type(input) in {Tensor, list} or len(input) == 0:
                 return None  # pragma: no cover
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with temporary_call_mode(m, "forward_steps"):
                 # == m.forward_steps
                 input = m(input, pad_end=pad_end, update_state=update_state)
 
@@ -891,7 +903,7 @@ class BroadcastReduce(Sequential):
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
+            with temporary_call_mode(m, "forward_step"):
                 outs.append(m(input, update_state=update_state))  # == m.forward_step
         if all(isinstance(o, Tensor) for o in outs):
             return self.reduce(outs)
@@ -901,7 +913,7 @@ class BroadcastReduce(Sequential):
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with temporary_call_mode(m, "forward_steps"):
                 # m.forward_steps
                 outs.append(m(input, pad_end=pad_end, update_state=update_state))
 
@@ -910,7 +922,7 @@ class BroadcastReduce(Sequential):
     def forward(self, input: Tensor) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with temporary_call_mode(m, "forward"):
                 outs.append(apply_forward(m, input))
 
         return self.reduce(outs)
@@ -1060,10 +1072,13 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward(self, input: Tensor) -> Tensor:
         if self.predicate(self, input):
-            return apply_forward(self._modules["0"], input)
+            m = self._modules["0"]
         elif "1" in self._modules:
-            return apply_forward(self._modules["1"], input)
-        return input
+            m = self._modules["1"]
+        else:
+            return input
+        with temporary_call_mode(m, "forward"):
+            return apply_forward(m, input)
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         if self.predicate(self, input):
@@ -1072,7 +1087,7 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
             m = self._modules["1"]
         else:
             return input
-        with temporary_parameter(m, "call_mode", _callmode("forward_step")):
+        with temporary_call_mode(m, "forward_step"):
             return m(input, update_state=update_state)  # == m.forward_step
 
     def _forward_step(
@@ -1097,7 +1112,7 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
             m = self._modules["1"]
         else:
             return input
-        with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+        with temporary_call_mode(m, "forward_steps"):
             # == m.forward_steps
             return m(input, pad_end=pad_end, update_state=update_state)
 
-- 
2.43.0


From df327abaae0eb5dc3c6ae083c34c7bf2c5e1554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:10 +0000
Subject: [PATCH 38/52] fix: run hooks on recurrent modules in the forward pass
 of containers

---
 continual/container.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 8556d74..be4a965 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -68,9 +68,10 @@ def temporary_call_mode(module: CoModule, mode: str):
 
 
 def apply_forward(module: CoModule, input: Tensor):
+    output = module(input)
     if isinstance(module, nn.RNNBase):
-        return module.forward(input)[0]
-    return module(input)
+        output = output[0]  # Leave out the hidden state
+    return output
 
 
 def reduce_sum(inputs: Sequence[Tensor]) -> Tensor:
-- 
2.43.0


From 61915419c7f97725070878098ac4a16291f0d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:14 +0000
Subject: [PATCH 39/52] fix: let modules without delay be warmed up

---
 continual/module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/module.py b/continual/module.py
index e75f612..5656379 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -327,6 +327,8 @@ class CoModule(ABC):
         Args:
             step_shape (Sequence[int]): input shape with which to warm the model up, including batch size.
         """
+        if self.delay <= 0:
+            return  # The first step already yields an output
         step_shape = (*step_shape[:2], self.delay, *step_shape[2:])
         dummy = self._make_padding(torch.zeros(step_shape, dtype=torch.float))
         self.forward_steps(dummy)
-- 
2.43.0


From da8e349d4565a4671544d37b1920f8c616191e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 40/52] fix: count the additions of dot-product attention

---
 continual/multihead_attention/mha_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index 0d2d02b..cbaf93d 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -609,7 +609,7 @@ def scaled_dot_prod_attn_flops(
     if include_muls:
         flops += 2 * n * n * d + 2 * n * d
     if include_adds:
-        flops += 2 * n * n - n * d - n
+        flops += 2 * n * n * d - n * d - n
     if include_exps:
         flops += n * n
 
-- 
2.43.0


From ac2ca11d624cffec33b76dadc371c387a2805c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 41/52] fix: count attention operations in the call mode in
 effect, also on copies

---
 continual/multihead_attention/mha_base.py          |  7 ++++++-
 continual/multihead_attention/retroactive_mha.py   | 14 +++++++-------
 continual/multihead_attention/single_output_mha.py | 14 +++++++-------
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index cbaf93d..a3c0a60 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -6,7 +6,7 @@ import torch.nn.functional as F
 from torch import Tensor
 from torch.nn.modules.activation import MultiheadAttention
 
-from continual.module import CoModule
+from continual.module import CALL_MODES, CoModule, call_mode
 
 State = List[Tensor]
 
@@ -553,6 +553,11 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
     def receptive_field(self) -> int:
         return self.sequence_len
 
+    def _effective_call_mode(self) -> str:
+        cm = call_mode.cur if call_mode.prev is not None else self.call_mode
+        # Look up by value, as tensor identity is lost if the module is copied
+        return list(CALL_MODES)[int(cm)]
+
     @classmethod
     def build_from(cls, module: MultiheadAttention, sequence_len: int, **kwargs):
         comodule = cls(
diff --git a/continual/multihead_attention/retroactive_mha.py b/continual/multihead_attention/retroactive_mha.py
index fe204a3..947f166 100644
--- a/continual/multihead_attention/retroactive_mha.py
+++ b/continual/multihead_attention/retroactive_mha.py
@@ -6,7 +6,6 @@ import torch
 from torch import Tensor
 
 from continual.logging import getLogger
-from continual.module import _callmode
 
 from .mha_base import MultiheadAttentionBase, scaled_dot_prod_attn_flops
 
@@ -375,12 +374,13 @@ class RetroactiveMultiheadAttention(MultiheadAttentionBase):
 
     def flops(self, include_muls=True, include_adds=False, include_exps=False):
         f = 0
+        mode = self._effective_call_mode()
 
         # Linear projection
         steps_taken = {
-            _callmode("forward"): self.sequence_len,
-            _callmode("forward_step"): 1,
-        }[self.call_mode]
+            "forward": self.sequence_len,
+            "forward_step": 1,
+        }[mode]
 
         f += (
             steps_taken
@@ -400,9 +400,9 @@ class RetroactiveMultiheadAttention(MultiheadAttentionBase):
 
         # Multi-head Scaled Dot-Product Attention
         f += self.num_heads * {
-            _callmode("forward"): scaled_dot_prod_attn_flops,
-            _callmode("forward_step"): retractive_scaled_dot_prod_attn_step_flops,
-        }[self.call_mode](
+            "forward": scaled_dot_prod_attn_flops,
+            "forward_step": retractive_scaled_dot_prod_attn_step_flops,
+        }[mode](
             self.sequence_len,
             self.embed_dim // self.num_heads,
             include_muls,
diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 7854f52..0fe8d7c 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -7,7 +7,6 @@ import torch.nn.functional as F
 from torch import Tensor
 
 from continual.logging import getLogger
-from continual.module import _callmode
 
 from .mha_base import MultiheadAttentionBase, scaled_dot_prod_attn_flops
 
@@ -401,14 +400,15 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
 
     def flops(self, include_muls=True, include_adds=False, include_exps=False):
         f = 0
+        mode = self._effective_call_mode()
 
         # Linear projection
         steps_taken = {
-            _callmode("forward"): 1
+            "forward": 1
             if self.single_output_forward
             else self.sequence_len,
-            _callmode("forward_step"): 1,
-        }[self.call_mode]
+            "forward_step": 1,
+        }[mode]
 
         f += (
             steps_taken
@@ -427,11 +427,11 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
 
         # Multi-head Scaled Dot-Product Attention
         f += self.num_heads * {
-            _callmode("forward"): single_output_scaled_dot_prod_attn_flops
+            "forward": single_output_scaled_dot_prod_attn_flops
             if self.single_output_forward
             else scaled_dot_prod_attn_flops,
-            _callmode("forward_step"): single_output_scaled_dot_prod_attn_flops,
-        }[self.call_mode](
+            "forward_step": single_output_scaled_dot_prod_attn_flops,
+        }[mode](
             self.sequence_len,
             self.embed_dim // self.num_heads,
             include_muls,
-- 
2.43.0


From 080af104dd7391eb840f031dff6510de896d8bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:20 +0000
Subject: [PATCH 42/52] fix: retroactive attention over a single token

---
 continual/multihead_attention/retroactive_mha.py |  3 ++-
 continual/transformer.py                         | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/continual/multihead_attention/retroactive_mha.py b/continual/multihead_attention/retroactive_mha.py
index 947f166..7ccad98 100644
--- a/continual/multihead_attention/retroactive_mha.py
+++ b/continual/multihead_attention/retroactive_mha.py
@@ -98,7 +98,8 @@ def _scaled_dot_product_attention_step(
 
     # Update Q_mem and K_mem
     Q_mem_new = torch.roll(Q_mem, shifts=-1, dims=(1,))
-    Q_mem_new[:, -1] = q_step
+    if Q_mem.shape[1] > 0:
+        Q_mem_new[:, -1] = q_step
 
     K_T_mem_new = torch.roll(K_T_mem, shifts=-1, dims=(2,))
     K_T_mem_new[:, :, -1] = k_step
diff --git a/continual/transformer.py b/continual/transformer.py
index 902ddc0..86caac7 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -12,7 +12,7 @@ from .closure import Lambda
 from .container import BroadcastReduce, Residual, Sequential
 from .delay import Delay, PaddingMode
 from .linear import Linear
-from .module import call_mode
+from .module import CoModule, call_mode
 from .multihead_attention import (
     RetroactiveMultiheadAttention,
     SingleOutputMultiheadAttention,
@@ -83,6 +83,10 @@ class RetroactiveUnity(Delay):
     def _forward_step(
         self, input: Tensor, prev_state: DelayState
     ) -> Tuple[Tensor, DelayState]:
+        if self._delay == 0:
+            # Nothing is cached besides the current step
+            return input.unsqueeze(self.time_dim), prev_state
+
         if prev_state is None:
             buffer, index = self.init_state(input)
         else:
@@ -111,6 +115,16 @@ class RetroactiveUnity(Delay):
 
         return output, (buffer, new_index)
 
+    def forward_step(self, input: Tensor, update_state=True) -> Optional[Tensor]:
+        return CoModule.forward_step(self, input, update_state)
+
+    def forward_steps(
+        self, input: Tensor, pad_end=False, update_state=True
+    ) -> Optional[Tensor]:
+        if self._delay == 0:
+            return CoModule.forward_steps(self, input, pad_end, update_state)
+        return Delay.forward_steps(self, input, pad_end, update_state)
+
 
 class RetroactiveLambda(Lambda):
     """
-- 
2.43.0


From 3141cbed0f428ecaa5356c7a578ef1500b20761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 43/52] fix: count the projections of single-output attention
 over the whole sequence

---
 .../multihead_attention/single_output_mha.py  | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 0fe8d7c..62300dd 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -403,27 +403,25 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
         mode = self._effective_call_mode()
 
         # Linear projection
-        steps_taken = {
+        queries = {
             "forward": 1
             if self.single_output_forward
             else self.sequence_len,
             "forward_step": 1,
         }[mode]
+        # Keys and values are projected for the whole sequence during forward
+        keys = {"forward": self.sequence_len, "forward_step": 1}[mode]
+        projections = queries + 2 * keys
 
-        f += (
-            steps_taken
-            * self.embed_dim
-            * self.embed_dim
-            * 3  # Assuming equal len for Q, K, and V
-        )
+        f += projections * self.embed_dim * self.embed_dim
         if include_adds:
-            f += 3 * steps_taken * self.embed_dim * (self.embed_dim - 1)
+            f += projections * self.embed_dim * (self.embed_dim - 1)
 
         if self.in_proj_bias is not None:
-            f += 3 * steps_taken * self.embed_dim
+            f += projections * self.embed_dim
 
             if include_adds:
-                f += 3 * steps_taken * self.embed_dim
+                f += projections * self.embed_dim
 
         # Multi-head Scaled Dot-Product Attention
         f += self.num_heads * {
@@ -440,7 +438,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
         )
 
         # Linear projection
-        f += 1 * self.embed_dim * (self.embed_dim + 1)
+        f += queries * self.embed_dim * (self.embed_dim + 1)
 
         return f
 
-- 
2.43.0


From 995d4542001078ff48880fb93d9c2ff539c3607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:27 +0000
Subject: [PATCH 44/52] fix: keep the state of recurrent modules in buffers, so
 that it moves along with the module

---
 continual/rnn.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/continual/rnn.py b/continual/rnn.py
index 18266f5..81e2cf3 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -191,7 +191,8 @@ class RNN(CoModule, nn.RNN):
     def set_state(self, state: State):
         if isinstance(state, Tensor):
             state = (state,)
-        self._hidden_state = state[0]
+        # Buffers follow the module to other devices and data types
+        self.register_buffer("_hidden_state", state[0], persistent=False)
 
     def forward(
         self, input: Union[Tensor, PackedSequence], hx: Optional[Tensor] = None
@@ -406,7 +407,8 @@ class GRU(CoModule, nn.GRU):
     def set_state(self, state: State):
         if isinstance(state, Tensor):
             state = (state,)
-        self._hidden_state = state[0]
+        # Buffers follow the module to other devices and data types
+        self.register_buffer("_hidden_state", state[0], persistent=False)
 
     def forward(
         self, input: Union[Tensor, PackedSequence], hx: Optional[Tensor] = None
@@ -663,7 +665,10 @@ class LSTM(CoModule, nn.LSTM):
             return (self._hidden_state, self._cell_state)
 
     def set_state(self, state: LSTMState):
-        self._hidden_state, self._cell_state = state
+        hidden_state, cell_state = state
+        # Buffers follow the module to other devices and data types
+        self.register_buffer("_hidden_state", hidden_state, persistent=False)
+        self.register_buffer("_cell_state", cell_state, persistent=False)
 
     def forward(
         self,
-- 
2.43.0


From be45a3302e34a600bb0402fff14213439605673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:33 +0000
Subject: [PATCH 45/52] fix: warm up in the precision and on the device of the
 parameters

---
 continual/module.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/continual/module.py b/continual/module.py
index 5656379..82ceb10 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -330,7 +330,14 @@ class CoModule(ABC):
         if self.delay <= 0:
             return  # The first step already yields an output
         step_shape = (*step_shape[:2], self.delay, *step_shape[2:])
-        dummy = self._make_padding(torch.zeros(step_shape, dtype=torch.float))
+        # Match the precision and device of the parameters
+        params = self.parameters() if isinstance(self, torch.nn.Module) else ()
+        like = next(
+            (p for p in params if p.is_floating_point()),
+            torch.empty(0, dtype=torch.float),
+        )
+        zeros = torch.zeros(step_shape, dtype=like.dtype, device=like.device)
+        dummy = self._make_padding(zeros)
         self.forward_steps(dummy)
 
     @property
-- 
2.43.0


From 0b0a8788aacf372074a6f74ef85e5a356d0c7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:42 +0000
Subject: [PATCH 46/52] fix: resolve paddings of convolutions that are given by
 name

---
 continual/conv.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/continual/conv.py b/continual/conv.py
index 3abfbc2..575a1a1 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -41,6 +41,24 @@ State = Tuple[Tensor, Tensor, Tensor]
 __all__ = ["Conv1d", "Conv2d", "Conv3d"]
 
 
+def _named_padding(
+    padding: str,
+    kernel_size: Tuple[int, ...],
+    stride: Tuple[int, ...],
+    dilation: Tuple[int, ...],
+) -> Tuple[int, ...]:
+    """Sizes of the paddings that torch.nn specifies by name"""
+    assert padding in {"same", "valid"}, f"Unknown padding '{padding}'"
+    if padding == "valid":
+        return (0,) * len(kernel_size)
+    assert all(s == 1 for s in stride), "padding='same' requires a stride of one"
+    total = [d * (k - 1) for k, d in zip(kernel_size, dilation)]
+    assert all(
+        p % 2 == 0 for p in total
+    ), "padding='same' with even kernel sizes is not supported currently."
+    return tuple(p // 2 for p in total)
+
+
 class _ConvCoNd(CoModule, _ConvNd):
     def __init__(
         self,
@@ -66,8 +84,11 @@ class _ConvCoNd(CoModule, _ConvNd):
         ), "The ConvClass should be a subclass of `_ConvNd`"
 
         kernel_size = size_fn(kernel_size)
-        padding = size_fn(padding)
         stride = size_fn(stride)
+        dilation = size_fn(dilation)
+        if isinstance(padding, str):
+            padding = _named_padding(padding, kernel_size, stride, dilation)
+        padding = size_fn(padding)
 
         self._ConvClass = ConvClass
         self._conv_func = conv_func
@@ -79,7 +100,6 @@ class _ConvCoNd(CoModule, _ConvNd):
                 f"Temporal stride of {stride[0]} will result in skipped outputs every {stride[0] - 1} / {stride[0]} steps"
             )
 
-        dilation = size_fn(dilation)
         assert dilation[0] == 1, "Temporal dilation > 1 is not supported currently."
 
         self.padding_mode = PaddingMode(padding_mode).value
-- 
2.43.0


From c7e4bf163c11e5b48eff551702d4585625a02a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:10 +0000
Subject: [PATCH 47/52] fix: refuse to convert bidirectional recurrent modules,
 whose reverse direction was dropped

---
 continual/rnn.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/continual/rnn.py b/continual/rnn.py
index 81e2cf3..3079662 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -154,6 +154,9 @@ class RNN(CoModule, nn.RNN):
 
     @staticmethod
     def build_from(module: nn.RNN, **kwargs) -> "RNN":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = RNN(
             **{
                 **dict(
@@ -371,6 +374,9 @@ class GRU(CoModule, nn.GRU):
 
     @staticmethod
     def build_from(module: nn.GRU, **kwargs) -> "GRU":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = GRU(
             **{
                 **dict(
@@ -628,6 +634,9 @@ class LSTM(CoModule, nn.LSTM):
 
     @staticmethod
     def build_from(module: nn.LSTM, **kwargs) -> "LSTM":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = LSTM(
             **{
                 **dict(
-- 
2.43.0


From eea3b4bd892b12fad971498de0fa4df597fcc1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:44 +0000
Subject: [PATCH 48/52] fix: refuse to convert transformer encoders that
 normalise first, instead of ignoring it

---
 continual/transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index 86caac7..2b9bce6 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -585,6 +585,9 @@ class TransformerEncoder(Sequential):
 
         # Create model
         tel = trans_enc.layers[0]
+        assert not any(
+            layer.norm_first for layer in trans_enc.layers
+        ), "`norm_first == True` is not supported for a Continual module"
         layer_factory = TransformerEncoderLayerFactory(
             d_model=tel.self_attn.embed_dim,
             nhead=tel.self_attn.num_heads,
-- 
2.43.0


From 4c7b5c25341e6666663534e11cb7644e7150092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:08 +0000
Subject: [PATCH 49/52] fix: pass packed sequences through recurrent modules,
 as documented

---
 continual/rnn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/continual/rnn.py b/continual/rnn.py
index 3079662..190a8cb 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -200,6 +200,8 @@ class RNN(CoModule, nn.RNN):
     def forward(
         self, input: Union[Tensor, PackedSequence], hx: Optional[Tensor] = None
     ) -> Tuple[Union[Tensor, PackedSequence], Tensor]:
+        if isinstance(input, PackedSequence):
+            return nn.RNN.forward(self, input, hx)
         input = input.swapaxes(1, 2)  # B, C, T -> B, T, C
         output, hidden = nn.RNN.forward(self, input, hx)
         output = output.swapaxes(1, 2)  # B, T, C -> B, C, T
@@ -419,6 +421,8 @@ class GRU(CoModule, nn.GRU):
     def forward(
         self, input: Union[Tensor, PackedSequence], hx: Optional[Tensor] = None
     ) -> Tuple[Union[Tensor, PackedSequence], Tensor]:
+        if isinstance(input, PackedSequence):
+            return nn.GRU.forward(self, input, hx)
         input = input.swapaxes(1, 2)  # B, C, T -> B, T, C
         output, hidden = nn.GRU.forward(self, input, hx)
         output = output.swapaxes(1, 2)  # B, T, C -> B, C, T
@@ -684,6 +688,8 @@ class LSTM(CoModule, nn.LSTM):
         input: Union[Tensor, PackedSequence],
         hx: Optional[Tuple[Tensor, Tensor]] = None,
     ) -> Tuple[Union[Tensor, PackedSequence], LSTMState]:
+        if isinstance(input, PackedSequence):
+            return nn.LSTM.forward(self, input, hx)
         input = input.swapaxes(1, 2)  # B, C, T -> B, T, C
         output, hidden = nn.LSTM.forward(self, input, hx)
         output = output.swapaxes(1, 2)  # B, T, C -> B, C, T
-- 
2.43.0


From 05a301c0f7c1b2218a805e6512605c6a7b94e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:14 +0000
Subject: [PATCH 50/52] fix: let tensors of a subclass of Tensor through
 Sequential

---
 continual/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index be4a965..971f2d3 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -676,7 +676,7 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
                 input = module(
                     input, update_state=update_state
                 )  # == module.forward_step
-            if not type(input) in {Tensor, list}:
+            if not isinstance(input, (Tensor, list)):
                 return None
         return input
 
@@ -700,7 +700,7 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True):
         for m in self:
-            if not type(input) in {Tensor, list} or len(input) == 0:
+            if not isinstance(input, (Tensor, list)) or len(input) == 0:
                 return None  # pragma: no cover
             # ptflops only works when __call__ is triggered
             with temporary_call_mode(m, "forward_steps"):
-- 
2.43.0


From b426a773a6560b73e6ed2b7cfbe9a2397bfc2d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:16 +0000
Subject: [PATCH 51/52] fix: give each transformer encoder layer its own
 activation parameters

---
 continual/transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 2b9bce6..3453996 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict
+from copy import deepcopy
 from enum import Enum
 from functools import partial, reduce
 from typing import Callable, Optional, Sequence, Tuple, Union
@@ -493,7 +494,7 @@ def TransformerEncoderLayerFactory(
             nhead,
             dim_feedforward,
             dropout,
-            activation,
+            deepcopy(activation),  # May have parameters, which are not shared
             layer_norm_eps,
             # batch_first
             # norm_first
-- 
2.43.0


From 7e8635a46edb8d532399d39112999e01f143b5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:25 +0000
Subject: [PATCH 52/52] fix: step adaptive 2d pooling whose spatial output size
 is None, as documented

---
 continual/pooling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 95756ec..1173ff5 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -1002,9 +1002,9 @@ class AdaptiveAvgPool2d(nn.AdaptiveAvgPool2d, _PoolNd):
         _PoolNd.__init__(
             self,
             temporal_pool=PoolType.AVG,
-            spatial_pool_fn=partial(
-                F.adaptive_avg_pool1d, output_size=self.output_size[1]
-            ),
+            spatial_pool_fn=unity
+            if self.output_size[1] is None  # Same size as the input
+            else partial(F.adaptive_avg_pool1d, output_size=self.output_size[1]),
             num_input_dims=2,
             kernel_size=(kernel_size, None),
             stride=(stride, None),
@@ -1155,7 +1155,9 @@ class AdaptiveMaxPool2d(nn.AdaptiveMaxPool2d, _PoolNd):
         _PoolNd.__init__(
             self,
             temporal_pool=PoolType.MAX,
-            spatial_pool_fn=partial(
+            spatial_pool_fn=unity
+            if self.output_size[1] is None  # Same size as the input
+            else partial(
                 F.adaptive_max_pool1d,
                 output_size=self.output_size[1],
                 return_indices=False,
-- 
2.43.0


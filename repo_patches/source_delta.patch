From cd4171b72b04d339487deb4d1cf81c5e434baf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 01/62] fix: restore temporary parameters when the wrapped code
 raises

---
 continual/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index 0136b5e..fccdcae 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -50,12 +50,13 @@ def temporary_parameter(obj, attr: str, val):
 
     rsetattr(obj, attr, val)
 
-    yield obj
-
-    if do_del:
-        delattr(obj, attr)
-    else:
-        rsetattr(obj, attr, prev_val)
+    try:
+        yield obj
+    finally:
+        if do_del:
+            delattr(obj, attr)
+        else:
+            rsetattr(obj, attr, prev_val)
 
 
 class _FlatStateDict(object):
-- 
2.43.0


From 79ff03578897c504bdd464e208bfa8644f82e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 02/62] fix: accept integer call modes and call modes of copied
 modules

---
 continual/module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/module.py b/continual/module.py
index c64accf..c0057cc 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -50,7 +50,7 @@ def _callmode(cm) -> torch.Tensor:
     if isinstance(cm, str):
         cm = CALL_MODES[cm.lower()]
     elif isinstance(cm, int):
-        cm = torch.tensor(int)
+        cm = list(CALL_MODES.values())[cm]
     return cm
 
 
@@ -345,6 +345,8 @@ class CoModule(ABC):
             [type]: [description]
         """
         _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
+        # The lookup is by identity, so copies (e.g. by deepcopy) must be canonicalised
+        _call_mode = _callmode(int(_call_mode))
         forward_call = {
             (True, _callmode("forward")): self._slow_forward,
             (False, _callmode("forward")): self.forward,
-- 
2.43.0


From fe630c25fa76dc6a0ae65757bd1b00b38fe0d891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 03/62] fix: let call_mode contexts nest

---
 continual/module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index c0057cc..33189ea 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -75,18 +75,20 @@ class _CallModeContext(object):
     def __init__(self):
         self.cur = _callmode("forward")
         self.prev = None
+        self._outer = []  # Enclosing contexts
 
     def __call__(self, value: Union[str, int, torch.Tensor]):
+        new = _callmode(value)
+        self._outer.append((self.cur, self.prev))
         self.prev = self.cur
-        self.cur = _callmode(value)
+        self.cur = new
         return self
 
     def __enter__(self):
         pass
 
     def __exit__(self, *args, **kwargs):
-        self.cur = self.prev
-        self.prev = None
+        self.cur, self.prev = self._outer.pop()
 
 
 call_mode = _CallModeContext()
-- 
2.43.0


From 512646a749edfb3ca2d420636819479097a85521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:12 +0000
Subject: [PATCH 04/62] fix: explicit forward_step(s) calls of containers
 override call_mode contexts

---
 continual/container.py | 29 +++++++++++++++++++----------
 continual/module.py    | 11 +++++++++++
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 9960a5b..422034c 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict, abc
+from contextlib import contextmanager
 from enum import Enum
 from functools import reduce, wraps
 from typing import Callable, List, Optional, Sequence, Tuple, TypeVar, Union, overload
@@ -8,7 +9,7 @@ from torch import Tensor, nn
 
 from .delay import Delay
 from .logging import getLogger
-from .module import CoModule, PaddingMode, _callmode
+from .module import CoModule, PaddingMode, _callmode, call_mode
 from .skip import Skip
 from .utils import (
     function_repr,
@@ -55,6 +56,14 @@ ReductionFunc = Callable[[Sequence[Tensor]], Tensor]
 ReductionFuncOrEnum = Union[Reduction, ReductionFunc, str]
 
 
+@contextmanager
+def temporary_call_mode(module: CoModule, mode: str):
+    """Select the call mode of a module irrespective of any `co.call_mode` context"""
+    with call_mode.suspended():
+        with temporary_parameter(module, "call_mode", _callmode(mode)):
+            yield module
+
+
 def apply_forward(module: CoModule, input: Tensor):
     if isinstance(module, nn.RNNBase):
         return module.forward(input)[0]
@@ -326,7 +335,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     def forward_step(self, inputs: List[T], update_state=True) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
+            with temporary_call_mode(m, "forward_step"):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
 
@@ -335,14 +344,14 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     ) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with temporary_call_mode(m, "forward_steps"):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
 
     def forward(self, inputs: List[T]) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with temporary_call_mode(m, "forward"):
                 outs.append(apply_forward(m, inputs[i]))
         return outs
 
@@ -632,14 +641,14 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
 
     def forward(self, input):
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with temporary_call_mode(m, "forward"):
                 input = apply_forward(m, input)
         return input
 
     def forward_step(self, input, update_state=True):
         for module in self:
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(module, "call_mode", _callmode("forward_step")):
+            with temporary_call_mode(module, "forward_step"):
                 input = module(
                     input, update_state=update_state
                 )  # == module.forward_step
@@ -670,7 +679,7 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
             if not type(input) in {Tensor, list} or len(input) == 0:
                 return None  # pragma: no cover
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with temporary_call_mode(m, "forward_steps"):
                 # == m.forward_steps
                 input = m(input, pad_end=pad_end, update_state=update_state)
 
@@ -871,7 +880,7 @@ class BroadcastReduce(Sequential):
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_step"):
+            with temporary_call_mode(m, "forward_step"):
                 outs.append(m(input, update_state=update_state))  # == m.forward_step
         if all(isinstance(o, Tensor) for o in outs):
             return self.reduce(outs)
@@ -881,7 +890,7 @@ class BroadcastReduce(Sequential):
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_steps"):
+            with temporary_call_mode(m, "forward_steps"):
                 # m.forward_steps
                 outs.append(m(input, pad_end=pad_end, update_state=update_state))
 
@@ -890,7 +899,7 @@ class BroadcastReduce(Sequential):
     def forward(self, input: Tensor) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward"):
+            with temporary_call_mode(m, "forward"):
                 outs.append(apply_forward(m, input))
 
         return self.reduce(outs)
diff --git a/continual/module.py b/continual/module.py
index 33189ea..053a9df 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -1,6 +1,7 @@
 import functools
 import itertools
 from abc import ABC
+from contextlib import contextmanager
 from enum import Enum
 from typing import List, Optional, Tuple, Union
 
@@ -90,6 +91,16 @@ class _CallModeContext(object):
     def __exit__(self, *args, **kwargs):
         self.cur, self.prev = self._outer.pop()
 
+    @contextmanager
+    def suspended(self):
+        """Temporarily let the ``call_mode`` attribute of each module decide"""
+        cur, prev = self.cur, self.prev
+        self.cur, self.prev = _callmode("forward"), None
+        try:
+            yield
+        finally:
+            self.cur, self.prev = cur, prev
+
 
 call_mode = _CallModeContext()
 
-- 
2.43.0


From e8965694421d0eabca55d4e2c9380e552e5b7463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 05/62] fix: pad the end of the given input also when
 update_state=False

---
 continual/module.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 053a9df..cef34f6 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -288,9 +288,8 @@ class CoModule(ABC):
 
         if pad_end:
             # Don't save state for the end-padding
-            opt_state = self.get_state()
-            if opt_state is not None:
-                state = _clone_first(opt_state)
+            if state is not None:
+                state = _clone_first(state)
 
             for t, i in enumerate(
                 [self._make_padding(input[:, :, -1]) for _ in range(self.padding[0])]
-- 
2.43.0


From f9c9089fa49658d9d8484a6601cedcdb60ec75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 06/62] fix: accept Parameter and other Tensor subclasses in
 Sequential stepping

---
 continual/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 422034c..5f7194d 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -652,7 +652,7 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
                 input = module(
                     input, update_state=update_state
                 )  # == module.forward_step
-            if not type(input) in {Tensor, list}:
+            if not isinstance(input, (Tensor, list)):
                 return None
         return input
 
@@ -676,7 +676,7 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True):
         for m in self:
-            if not type(input) in {Tensor, list} or len(input) == 0:
+            if not isinstance(input, (Tensor, list)) or len(input) == 0:
                 return None  # pragma: no cover
             # ptflops only works when __call__ is triggered
             with temporary_call_mode(m, "forward_steps"):
-- 
2.43.0


From 192138727c24272c1322096aec969a0cc84b52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 07/62] fix: keep the stride phase of convolutions with
 temporal kernel size 1

---
 continual/conv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/conv.py b/continual/conv.py
index 697d445..dce5949 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -160,7 +160,8 @@ class _ConvCoNd(CoModule, _ConvNd):
         self.stride_index = torch.tensor(0)
 
     def get_state(self) -> Optional[State]:
-        if len(self.state_buffer) > 0:
+        # The buffer is empty, but has all dimensions, for kernel_size[0] == 1
+        if self.state_buffer.dim() > 1:
             return (self.state_buffer, self.state_index, self.stride_index)
         return None
 
-- 
2.43.0


From 733bca297b861f0986f3c89192bb4ffe75eed8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 08/62] fix: pad max pooling with negative infinity by default

---
 continual/pooling.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 215a761..dc8cf0e 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -659,7 +659,7 @@ class MaxPool1d(nn.MaxPool1d, _PoolNd):
     @staticmethod
     def build_from(
         module: nn.MaxPool1d,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         **kwargs,
     ) -> "MaxPool1d":
         return MaxPool1d(
@@ -749,7 +749,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
         dilation: _size_2_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _pair(kernel_size)
         self.stride = _pair(stride if (stride is not None) else kernel_size)
@@ -780,7 +780,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool2d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool2d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool2d":
         return MaxPool2d(
             **{
@@ -873,7 +873,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
         dilation: _size_3_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _triple(kernel_size)
         self.stride = _triple(stride if (stride is not None) else kernel_size)
@@ -904,7 +904,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool3d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool3d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool3d":
         return MaxPool3d(
             **{
@@ -1110,7 +1110,7 @@ class AdaptiveMaxPool2d(nn.AdaptiveMaxPool2d, _PoolNd):
         stride: int = 1,
         padding: int = 0,
         dilation: int = 1,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.output_size = _pair(output_size)
         self.return_indices = False
@@ -1139,7 +1139,7 @@ class AdaptiveMaxPool2d(nn.AdaptiveMaxPool2d, _PoolNd):
         stride: int = 1,
         padding: int = 0,
         dilation: int = 1,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         output_size: _size_2_t = None,
     ) -> "AdaptiveMaxPool2d":
         return AdaptiveMaxPool2d(
@@ -1189,7 +1189,7 @@ class AdaptiveMaxPool3d(nn.AdaptiveMaxPool3d, _PoolNd):
         stride: int = 1,
         padding: int = 0,
         dilation: int = 1,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.output_size = _triple(output_size)
         self.return_indices = False
@@ -1218,7 +1218,7 @@ class AdaptiveMaxPool3d(nn.AdaptiveMaxPool3d, _PoolNd):
         stride: int = 1,
         padding: int = 0,
         dilation: int = 1,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         output_size: _size_3_t = None,
     ) -> "AdaptiveMaxPool3d":
         return AdaptiveMaxPool3d(
-- 
2.43.0


From 2408806905875504d7aac6364ad8a32dde103ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 09/62] fix: temporal dilation in pooling over streams longer
 than the buffer

---
 continual/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index dc8cf0e..46fcc4f 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -191,7 +191,7 @@ class _PoolNd(CoModule, nn.Module):
         buffer[index] = pooled_frame
 
         next_buffer = buffer  # .clone() if self.training else buffer.detach()
-        next_index = (index + 1) % self.kernel_size[0]
+        next_index = (index + 1) % len(buffer)
         next_stride_index = stride_index + 1
         if next_stride_index > 0:
             next_stride_index = next_stride_index % self.stride[0]
@@ -220,7 +220,7 @@ class _PoolNd(CoModule, nn.Module):
 
     @property
     def receptive_field(self) -> int:
-        return self.dilation[0] * self.kernel_size[0]
+        return self.dilation[0] * (self.kernel_size[0] - 1) + 1
 
 
 class AvgPool1d(nn.AvgPool1d, _PoolNd):
-- 
2.43.0


From 30d7723f470209e87a84cf8bd9b58e32a6b8dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 10/62] fix: refuse to convert bidirectional recurrent networks

---
 continual/rnn.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/continual/rnn.py b/continual/rnn.py
index 905cc51..66dec33 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -154,6 +154,9 @@ class RNN(CoModule, nn.RNN):
 
     @staticmethod
     def build_from(module: nn.RNN, **kwargs) -> "RNN":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = RNN(
             **{
                 **dict(
@@ -370,6 +373,9 @@ class GRU(CoModule, nn.GRU):
 
     @staticmethod
     def build_from(module: nn.GRU, **kwargs) -> "GRU":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = GRU(
             **{
                 **dict(
@@ -626,6 +632,9 @@ class LSTM(CoModule, nn.LSTM):
 
     @staticmethod
     def build_from(module: nn.LSTM, **kwargs) -> "LSTM":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = LSTM(
             **{
                 **dict(
-- 
2.43.0


From ed17b63d5efa887cdcd897b028870d7f8c1b4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 11/62] fix: allow peeking (update_state=False) at attention
 modules without state

---
 continual/multihead_attention/mha_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index f65cf8c..358675d 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -418,7 +418,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-            stride_index += 1
+            stride_index = stride_index + 1
 
         new_state = (*new_state, stride_index)
 
@@ -459,6 +459,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
             value = query
 
         tmp_state = self.get_state()
+        backup_state = None
 
         if not update_state and tmp_state:
             backup_state = _clone_state(tmp_state)
@@ -472,7 +473,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         if update_state:
             self.set_state(tmp_state)
-        elif tmp_state is not None:
+        elif backup_state is not None:
             self.set_state(backup_state)
 
         return o
@@ -513,6 +514,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
             query, key, value = [x.transpose(1, 0) for x in (query, key, value)]
 
         tmp_state = self.get_state()
+        backup_state = None
 
         if not update_state and tmp_state:
             backup_state = _clone_state(tmp_state)
-- 
2.43.0


From eeb2c63acd76f40146e663dc4db7c4f72517d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 12/62] fix: wrap the buffer of RetroactiveUnity at its actual
 length

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 21dcc4f..79a7722 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -91,7 +91,7 @@ class RetroactiveUnity(Delay):
         buffer[index % (self.delay + 1)] = input
         new_index = index + 1
         if new_index > 0:
-            new_index = new_index % self.delay
+            new_index = new_index % (self.delay + 1)
 
         # Get output
         output = None
-- 
2.43.0


From 051be7ec983070ea65099171dcab30b014997741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 13/62] fix: use gelu when the gelu activation is requested

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 79a7722..c0bb763 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -472,7 +472,7 @@ def TransformerEncoderLayerFactory(
     if activation in {"relu", "gelu"}:
         activation = {
             "relu": nn.functional.relu,
-            "gelu": nn.functional.relu,
+            "gelu": nn.functional.gelu,
         }[activation]
 
     def TransformerEncoderLayer(mha_type: MhaType):
-- 
2.43.0


From 9db499eb1d925b4c2de5221adaf804794935a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 14/62] fix: treat auto_shrink="centered" like True during
 stepping

---
 continual/delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/delay.py b/continual/delay.py
index 69aea83..f67ec52 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -70,7 +70,7 @@ class Delay(CoModule, torch.nn.Module):
         state_buffer = torch.stack([padding for _ in range(self.delay)], dim=0)
         state_index = torch.tensor(
             -2 * self.delay
-            if self.auto_shrink and isinstance(self.auto_shrink, bool)
+            if self.auto_shrink in {True, "centered"}
             else -self.delay
         )
         return state_buffer, state_index
-- 
2.43.0


From 5cae63c91f3b420ada2d10cab0f272c6fa5c207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:47 +0000
Subject: [PATCH 15/62] fix: do not flush a shrinking delay with pad_end=True

---
 continual/delay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/delay.py b/continual/delay.py
index f67ec52..6c8d3b0 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -120,7 +120,9 @@ class Delay(CoModule, torch.nn.Module):
         if self._delay == 0:
             return input
 
-        with temporary_parameter(self, "padding", (self.delay,)):
+        # Frames left in the buffer are not part of the output when shrinking
+        padding = 0 if self.auto_shrink else self.delay
+        with temporary_parameter(self, "padding", (padding,)):
             output = CoModule.forward_steps(self, input, pad_end, update_state)
 
         return output
-- 
2.43.0


From 22987a40a2980515a33f116155aca8d28fbe369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 16/62] fix: pass keyword arguments on to converted modules

---
 continual/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index 8e80149..fde95c8 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -106,7 +106,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
             else getattr(module, "call_mode", _callmode("forward"))
         )
         if _call_mode == _callmode("forward"):
-            return orig_forward(*args, *kwargs)
+            return orig_forward(*args, **kwargs)
         return CoModule._call_impl(module, *args, **kwargs)
 
     module.forward = forward_with_callmode
-- 
2.43.0


From 29727c09abd5365d8d41ad0b0f4a1cb73f8efc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 17/62] fix: run hooks of converted modules once per call

---
 continual/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index fde95c8..d917475 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -107,7 +107,10 @@ def forward_stepping(module: nn.Module, dim: int = 2):
         )
         if _call_mode == _callmode("forward"):
             return orig_forward(*args, **kwargs)
-        return CoModule._call_impl(module, *args, **kwargs)
+        # Hooks are already handled by `module.__call__`
+        if _call_mode == _callmode("forward_steps"):
+            return module.forward_steps(*args, **kwargs)
+        return module.forward_step(*args, **kwargs)
 
     module.forward = forward_with_callmode
 
-- 
2.43.0


From 7226a27d18e2fcb66ef3bfd0c02a2d117fd6e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 18/62] fix: do not convert a module twice

---
 continual/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index d917475..946444a 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -227,8 +227,8 @@ def continual(module: nn.Module) -> CoModule:
         ))
 
     """
-    if isinstance(module, CoModule):
-        return module
+    if isinstance(module, CoModule) or CoModule.is_valid(module):
+        return module  # Already continual
 
     if type(module) in NAIVE_MAPPING:
         return forward_stepping(module)
-- 
2.43.0


From c68861e0d3ab816e3aab202160b6079cbf0a8c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 19/62] fix: export to ONNX without input and output names

---
 continual/onnx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/onnx.py b/continual/onnx.py
index fb5d37d..7228f7e 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -209,6 +209,8 @@ def export(
         model, CoModule
     ), f"The passed model of type {type(model)} should be a CoModule"
     omodel = OnnxWrapper(model)
+    input_names = list(input_names or [])
+    output_names = list(output_names or [])
     torch.onnx.export(
         model=omodel,
         args=args,
-- 
2.43.0


From 3a37531d6f8ab7d9cca529e93db962f58c1015a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 20/62] fix: pass missing outputs through consecutive Parallel
 modules

---
 continual/container.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index 5f7194d..eef9d53 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -327,6 +327,10 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
         prev_state = prev_state or [None for _ in range(len(self))]
         outs, next_state = [], []
         for i, module in enumerate(self):
+            if inputs[i] is None:  # No output from the preceding module yet
+                outs.append(None)
+                next_state.append(prev_state[i])
+                continue
             out, n_state = module._forward_step(inputs[i], prev_state=prev_state[i])
             outs.append(out)
             next_state.append(n_state)
@@ -335,6 +339,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     def forward_step(self, inputs: List[T], update_state=True) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:  # No output from the preceding module yet
+                outs.append(None)
+                continue
             with temporary_call_mode(m, "forward_step"):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
@@ -344,6 +351,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     ) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:  # No output from the preceding module yet
+                outs.append(None)
+                continue
             with temporary_call_mode(m, "forward_steps"):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
-- 
2.43.0


From 7e1deb73555df4043f30cb0f1cd763b1c8d47804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 21/62] fix: align the delay of strided parallel branches

---
 continual/container.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index eef9d53..a43ab0a 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -284,7 +284,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        delayed(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
@@ -745,6 +745,14 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
         return self
 
 
+def delayed(module: CoModule, delay: int) -> Sequential:
+    """Delay the outputs of a module by a number of (input) steps"""
+    if num_from(getattr(module, "stride", 1)) == 1:
+        return Sequential(module, Delay(delay))
+    # Behind a strided module, a Delay would count output steps
+    return Sequential(OrderedDict([("1", Delay(delay)), ("0", module)]))
+
+
 class BroadcastReduce(Sequential):
     """Broadcast an input to parallel modules and reduce.
     This module is a shorthand for::
@@ -832,7 +840,7 @@ class BroadcastReduce(Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        delayed(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
-- 
2.43.0


From 6748a73644127f776f95e5e428faa2020034e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 22/62] fix: pass call mode, padding and state arguments on in
 Conditional

---
 continual/container.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index a43ab0a..aef71a7 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1067,34 +1067,48 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward(self, input: Tensor) -> Tensor:
         if self.predicate(self, input):
-            return apply_forward(self._modules["0"], input)
+            module = self._modules["0"]
         elif "1" in self._modules:
-            return apply_forward(self._modules["1"], input)
-        return input
+            module = self._modules["1"]
+        else:
+            return input
+        with temporary_call_mode(module, "forward"):
+            return apply_forward(module, input)
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_step(input, update_state)
+            module = self._modules["0"]
         elif "1" in self._modules:
-            return self._modules["1"].forward_step(input, update_state)
-        return input
+            module = self._modules["1"]
+        else:
+            return input
+        with temporary_call_mode(module, "forward_step"):
+            return module(input, update_state=update_state)
 
     def _forward_step(
         self, input: Tensor, prev_state: Optional[State] = None
     ) -> Tuple[Tensor, Optional[State]]:
-        prev_state = prev_state or [None, None]
+        next_state = list(prev_state or [None for _ in self._modules])
         if self.predicate(self, input):
-            return self._modules["0"]._forward_step(input, prev_state[0])
+            i = 0
         elif "1" in self._modules:
-            return self._modules["1"]._forward_step(input, prev_state[1])
-        return input, prev_state
+            i = 1
+        else:
+            return input, next_state
+        output, next_state[i] = self._modules[str(i)]._forward_step(
+            input, prev_state=next_state[i]
+        )
+        return output, next_state
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_steps(input)
+            module = self._modules["0"]
         elif "1" in self._modules:
-            return self._modules["1"].forward_steps(input)
-        return input
+            module = self._modules["1"]
+        else:
+            return input
+        with temporary_call_mode(module, "forward_steps"):
+            return module(input, pad_end=pad_end, update_state=update_state)
 
     @property
     def _state_shape(self):
-- 
2.43.0


From 63d67637cac2bb6f6195588871037cd70729c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 23/62] fix: report padding and stride of and clean the state
 in Conditional

---
 continual/container.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index aef71a7..6781990 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1126,5 +1126,20 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def receptive_field(self) -> int:
         return self._receptive_field
 
+    @property
+    def stride(self) -> Tuple[int]:
+        return getattr(self._modules["0"], "stride", (1,))
+
+    @property
+    def padding(self) -> Tuple[int]:
+        return (
+            max(getattr(m, "padding", (0,))[0] for m in self._modules.values()),
+        )
+
+    def clean_state(self):
+        for m in self._modules.values():
+            if hasattr(m, "clean_state"):
+                m.clean_state()
+
     def extra_repr(self):
         return f"predicate={function_repr(self.predicate)}"
-- 
2.43.0


From 615330c06d77160e75a481494855a2c433505abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 24/62] fix: do not change the state of pooling in-place during
 training

---
 continual/pooling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 46fcc4f..f4c3c5b 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -188,9 +188,9 @@ class _PoolNd(CoModule, nn.Module):
 
         pooled_frame = self._spatial_pool_fn(input)
         buffer, index, stride_index = prev_state or self.init_state(pooled_frame)
-        buffer[index] = pooled_frame
+        next_buffer = buffer.clone() if self.training else buffer
+        next_buffer[index] = pooled_frame
 
-        next_buffer = buffer  # .clone() if self.training else buffer.detach()
         next_index = (index + 1) % len(buffer)
         next_stride_index = stride_index + 1
         if next_stride_index > 0:
@@ -199,9 +199,9 @@ class _PoolNd(CoModule, nn.Module):
         output = None
         if stride_index == self.stride[0] - 1:
             if self.dilation[0] == 1:
-                frame_selection = buffer
+                frame_selection = next_buffer
             else:
-                frame_selection = buffer.index_select(
+                frame_selection = next_buffer.index_select(
                     dim=0,
                     index=torch.remainder(
                         self._frame_index_selection + next_index, len(buffer)
-- 
2.43.0


From 8245f5e0e9f43fdc60cc235d6064476c9c8c2478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 25/62] fix: report the delay of Skip

---
 continual/skip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/skip.py b/continual/skip.py
index 8bfd308..d1a2393 100644
--- a/continual/skip.py
+++ b/continual/skip.py
@@ -61,11 +61,11 @@ class Skip(CoModule, torch.nn.Module):
 
     @property
     def receptive_field(self) -> int:
-        return 1
+        return self.steps + 1
 
     @property
     def delay(self) -> int:
-        return 0
+        return self.steps
 
     @property
     def stride(self) -> Tuple[int]:
-- 
2.43.0


From bd32b0cef04d544fb89479b4026c4c71e2c212d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 26/62] fix: get and set the state of
 RecyclingPositionalEncoding

---
 continual/positional_encoding.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index b55bfd5..f2c2673 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -189,8 +189,13 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
         return output, (state_index,)
 
     def init_state(self) -> State:
-        self.state_index = torch.tensor(0)
-        return (self.state_index,)
+        return (torch.tensor(0),)
 
     def clean_state(self):
         self.state_index = torch.tensor(0)
+
+    def get_state(self) -> State:
+        return (self.state_index,)
+
+    def set_state(self, state: State):
+        self.state_index = state[0]
-- 
2.43.0


From 5558f3df2cb0bbca358fb25968a69328f76a496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 27/62] fix: let flat_state_dict contexts nest

---
 continual/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/continual/utils.py b/continual/utils.py
index fccdcae..bfc0f07 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -64,12 +64,15 @@ class _FlatStateDict(object):
 
     def __init__(self):
         self.flatten = False
+        self._depth = 0  # Number of enclosing contexts
 
     def __enter__(self):
+        self._depth += 1
         self.flatten = True
 
     def __exit__(self, *args, **kwargs):
-        self.flatten = False
+        self._depth -= 1
+        self.flatten = self._depth > 0
 
 
 flat_state_dict = _FlatStateDict()
-- 
2.43.0


From 5eb479fe395af9891411370d37b190b0b262981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 28/62] fix: run the hooks of recurrent modules in forward of
 containers

---
 continual/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/container.py b/continual/container.py
index 6781990..06deefe 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -66,7 +66,7 @@ def temporary_call_mode(module: CoModule, mode: str):
 
 def apply_forward(module: CoModule, input: Tensor):
     if isinstance(module, nn.RNNBase):
-        return module.forward(input)[0]
+        return module(input)[0]
     return module(input)
 
 
-- 
2.43.0


From 74e1b79be876e88950bc25e1973a70098a5e6285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 29/62] fix: pass takes_time on in RetroactiveLambda.build_from

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index c0bb763..ee7d34b 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -132,7 +132,7 @@ class RetroactiveLambda(Lambda):
     def build_from(
         fn: Callable[[Tensor], Tensor], takes_time=False
     ) -> "RetroactiveLambda":
-        return RetroactiveLambda(fn, takes_time)
+        return RetroactiveLambda(fn, takes_time=takes_time)
 
 
 class NaiveResidual(nn.Module):
-- 
2.43.0


From 9bb3bf7a0634bd2987b15f7b1d9e2db0b18e652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 30/62] fix: refuse to convert transformer encoders with
 norm_first=True

---
 continual/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index ee7d34b..d2a1e62 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -582,6 +582,7 @@ class TransformerEncoder(Sequential):
 
         # Create model
         tel = trans_enc.layers[0]
+        assert not tel.norm_first, "Conversion with norm_first=True is not supported."
         layer_factory = TransformerEncoderLayerFactory(
             d_model=tel.self_attn.embed_dim,
             nhead=tel.self_attn.num_heads,
-- 
2.43.0


From 22d0a76435715d0e53f6e67b645b3225d048893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 31/62] fix: let copies of converted modules be independent

---
 continual/convert.py | 106 ++++++++++++++++++++-----------------------
 1 file changed, 50 insertions(+), 56 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 946444a..2c6cdf8 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -1,8 +1,7 @@
 """ Register modules with conversion system and 3rd-party libraries """
 
-from functools import wraps
-from types import FunctionType
-from typing import Callable, Type, Union
+from types import FunctionType, MethodType
+from typing import Type, Union
 
 from torch import Tensor, nn
 
@@ -35,6 +34,43 @@ __all__ = [
 ]
 
 
+def _forward_step(module: nn.Module, x: Tensor, update_state=True) -> Tensor:
+    dim = module._step_dim
+    return module._regular_forward(x.unsqueeze(dim)).squeeze(dim)
+
+
+def _forward_step_stateless(module: nn.Module, x: Tensor, prev_state=None):
+    return _forward_step(module, x), prev_state
+
+
+def _forward_steps(
+    module: nn.Module, x: Tensor, pad_end=False, update_state=True
+) -> Tensor:
+    return module._regular_forward(x)
+
+
+def _forward_with_callmode(module: nn.Module, *args, **kwargs):
+    _call_mode = (
+        call_mode.cur
+        if call_mode.prev is not None
+        else getattr(module, "call_mode", _callmode("forward"))
+    )
+    if _call_mode == _callmode("forward"):
+        return module._regular_forward(*args, **kwargs)
+    # Hooks are already handled by `module.__call__`
+    if _call_mode == _callmode("forward_steps"):
+        return module.forward_steps(*args, **kwargs)
+    return module.forward_step(*args, **kwargs)
+
+
+def _build_from(module: nn.Module, mod: nn.Module):  # pragma: no cover
+    return module.__class__()
+
+
+def _dummy(*args, **kwargs):
+    ...  # pragma: no cover
+
+
 def forward_stepping(module: nn.Module, dim: int = 2):
     """Enhances torch.nn.Module with `forward_step` and `forward_steps`
 
@@ -51,68 +87,26 @@ def forward_stepping(module: nn.Module, dim: int = 2):
         dim (int, optional): The dimension to unsqueeze during `forward_step`. Defaults to 2.
     """
 
-    def _forward_step(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, prev_state=None) -> Tensor:
-            return func(x.unsqueeze(dim)).squeeze(dim), prev_state
-
-        return call
-
-    def forward_step(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, update_state=True) -> Tensor:
-            return func(x.unsqueeze(dim)).squeeze(dim)
-
-        return call
-
-    def forward_steps(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, pad_end=False, update_state=True) -> Tensor:
-            x = func(x)
-            return x
-
-        return call
-
-    def dummy(*args, **kwargs):
-        ...  # pragma: no cover
-
-    @staticmethod
-    def build_from(mod):  # pragma: no cover
-        return module.__class__()
-
-    # module.__class__.__bases__ = (*module.__class__.__bases__, CoModule)
-    orig_forward = module.forward
-    module.forward_steps = forward_steps(module.forward)
-    module.forward_step = forward_step(module.forward)
-    module._forward_step = _forward_step(module.forward)
+    # Methods are bound to the module, so that they follow it if it is copied
+    module._regular_forward = module.forward
+    module._step_dim = dim
+    module.forward_steps = MethodType(_forward_steps, module)
+    module.forward_step = MethodType(_forward_step, module)
+    module._forward_step = MethodType(_forward_step_stateless, module)
     module.delay = 0
     module.receptive_field = 1
     module.stride = tuple(getattr(module, "stride", [1]))
     module.padding = tuple(getattr(module, "padding", [0]))
-    module.build_from = build_from
-    module.get_state = dummy
-    module.set_state = dummy
-    module.clean_state = dummy
+    module.build_from = MethodType(_build_from, module)
+    module.get_state = _dummy
+    module.set_state = _dummy
+    module.clean_state = _dummy
     module._state_shape = 0
     module._dynamic_state_inds = []
 
     # Call mode
     module.call_mode = _callmode("forward")
-
-    def forward_with_callmode(*args, **kwargs):
-        _call_mode = (
-            call_mode.cur
-            if call_mode.prev is not None
-            else getattr(module, "call_mode", _callmode("forward"))
-        )
-        if _call_mode == _callmode("forward"):
-            return orig_forward(*args, **kwargs)
-        # Hooks are already handled by `module.__call__`
-        if _call_mode == _callmode("forward_steps"):
-            return module.forward_steps(*args, **kwargs)
-        return module.forward_step(*args, **kwargs)
-
-    module.forward = forward_with_callmode
+    module.forward = MethodType(_forward_with_callmode, module)
 
     return module
 
-- 
2.43.0


From 968385d32177524a69b5f7f30f0bec886a149bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 32/62] fix: squeeze the query dimension of attention without
 batch_first

---
 continual/multihead_attention/single_output_mha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 819b09a..1739ab5 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -393,7 +393,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
         )
 
         if isinstance(o, Tensor):
-            o = o.squeeze(2)
+            o = o.squeeze(2 if self.batch_first else 1)
             if self.embed_dim_second:
                 o = o.transpose(1, 2)  # N T E -> N E T
 
-- 
2.43.0


From 890526772bae9d740f414f949cd81f0948c9faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 33/62] fix: keep dtype and device when converting convolutions

---
 continual/conv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/continual/conv.py b/continual/conv.py
index dce5949..071c7bb 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -419,6 +419,8 @@ class Conv1d(_ConvCoNd):
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                 ),
                 **kwargs,
             }
@@ -519,6 +521,8 @@ class Conv2d(_ConvCoNd):
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                 ),
                 **kwargs,
             }
@@ -619,6 +623,8 @@ class Conv3d(_ConvCoNd):
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                 ),
                 **kwargs,
             }
-- 
2.43.0


From a6307042dd46599064bf8e09e796d0715e496ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:08 +0000
Subject: [PATCH 34/62] fix: convert modules with dropout in the training mode
 they are in

---
 continual/multihead_attention/mha_base.py | 2 +-
 continual/rnn.py                          | 6 +++---
 continual/transformer.py                  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index 358675d..71d6ed6 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -591,7 +591,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
                 comodule.bias_k.copy_(module.bias_k)
             if module.bias_v is not None:
                 comodule.bias_v.copy_(module.bias_v)
-        return comodule
+        return comodule.train(module.training)
 
 
 def scaled_dot_prod_attn_flops(
diff --git a/continual/rnn.py b/continual/rnn.py
index 66dec33..c6fca9e 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -177,7 +177,7 @@ class RNN(CoModule, nn.RNN):
         with torch.no_grad():
             for ours, theirs in zip(comodule._flat_weights, module._flat_weights):
                 ours.copy_(theirs)
-        return comodule
+        return comodule.train(module.training)
 
     @property
     def delay(self) -> int:
@@ -395,7 +395,7 @@ class GRU(CoModule, nn.GRU):
         with torch.no_grad():
             for ours, theirs in zip(comodule._flat_weights, module._flat_weights):
                 ours.copy_(theirs)
-        return comodule
+        return comodule.train(module.training)
 
     @property
     def delay(self) -> int:
@@ -655,7 +655,7 @@ class LSTM(CoModule, nn.LSTM):
         with torch.no_grad():
             for ours, theirs in zip(comodule._flat_weights, module._flat_weights):
                 ours.copy_(theirs)
-        return comodule
+        return comodule.train(module.training)
 
     @property
     def delay(self) -> int:
diff --git a/continual/transformer.py b/continual/transformer.py
index d2a1e62..9ff9226 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -634,4 +634,4 @@ class TransformerEncoder(Sequential):
 
         net.load_state_dict(new_sd)
 
-        return net
+        return net.train(trans_enc.training)
-- 
2.43.0


From 73944137323e7c6d05415e70fbc575806bbcc59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 35/62] fix: accept activations which are built-in functions in
 single-output encoder layers

---
 continual/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 9ff9226..c5a85a6 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -244,7 +244,9 @@ def SingleOutputTransformerEncoderLayer(
                 ),
                 (
                     "activation",
-                    activation,
+                    activation
+                    if isinstance(activation, nn.Module)
+                    else Lambda(activation, takes_time=True),
                 ),
                 (
                     "dropout",
-- 
2.43.0


From 37b06f3bfe45a22960d87c39383e1aa28288c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 36/62] fix: apply divisor_override of average pooling to the
 spatio-temporal window in steps

---
 continual/pooling.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index f4c3c5b..e9a3dfe 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -35,6 +35,24 @@ def unity(x: Tensor) -> Tensor:
     return x
 
 
+def scaled_sum_pool(
+    x: Tensor, scale: float, kernel_size, stride, padding, ceil_mode: bool
+) -> Tensor:
+    """Sum over 1d or 2d spatial windows, multiplied by a scale"""
+    fill = 2 - len(kernel_size)
+    if fill:
+        x = x.unsqueeze(-2)
+    x = F.avg_pool2d(
+        x,
+        (1,) * fill + tuple(kernel_size),
+        (1,) * fill + tuple(stride),
+        (0,) * fill + tuple(padding),
+        ceil_mode,
+        divisor_override=1,
+    )
+    return (x.squeeze(-2) if fill else x) * scale
+
+
 class PoolType(Enum):
     AVG = "avg"
     MAX = "max"
@@ -413,6 +431,15 @@ class AvgPool2d(nn.AvgPool2d, _PoolNd):
                 padding=self.padding[1:],
                 ceil_mode=self.ceil_mode,
                 count_include_pad=self.count_include_pad,
+            )
+            if not divisor_override
+            else partial(
+                scaled_sum_pool,
+                scale=self.kernel_size[0] / divisor_override,
+                kernel_size=self.kernel_size[1:],
+                stride=self.stride[1:],
+                padding=self.padding[1:],
+                ceil_mode=self.ceil_mode,
             ),
             num_input_dims=2,
             kernel_size=self.kernel_size,
@@ -543,7 +570,15 @@ class AvgPool3d(nn.AvgPool3d, _PoolNd):
                 padding=self.padding[1:],
                 ceil_mode=self.ceil_mode,
                 count_include_pad=self.count_include_pad,
-                divisor_override=self.divisor_override,
+            )
+            if not divisor_override
+            else partial(
+                scaled_sum_pool,
+                scale=self.kernel_size[0] / divisor_override,
+                kernel_size=self.kernel_size[1:],
+                stride=self.stride[1:],
+                padding=self.padding[1:],
+                ceil_mode=self.ceil_mode,
             ),
             num_input_dims=3,
             kernel_size=self.kernel_size,
-- 
2.43.0


From cf0f4cb8b2070576fd5fa54c094fdccf5e09c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 37/62] fix: delay the residual of single-output encoder layers
 with a query index

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index c5a85a6..c82049c 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -272,7 +272,7 @@ def SingleOutputTransformerEncoderLayer(
                         "residual",
                         SelectOrDelay(mha.delay)
                         if single_output_forward
-                        else Identity(),
+                        else (Delay(mha.delay) if mha.delay else Identity()),
                     ),
                     (
                         "self_attn",
-- 
2.43.0


From f4742bed44c1fe768ebbc7d6a43d07030f2f7a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 38/62] fix: warm_up of modules without delay feeds no empty
 sequence

---
 continual/module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/module.py b/continual/module.py
index cef34f6..475486a 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -334,6 +334,8 @@ class CoModule(ABC):
         Args:
             step_shape (Sequence[int]): input shape with which to warm the model up, including batch size.
         """
+        if self.delay == 0:
+            return  # No steps to warm up with
         step_shape = (*step_shape[:2], self.delay, *step_shape[2:])
         dummy = self._make_padding(torch.zeros(step_shape, dtype=torch.float))
         self.forward_steps(dummy)
-- 
2.43.0


From 4af3e7e9b2a103be895e832541adc287d0bddef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 39/62] fix: names as call_mode of converted modules

---
 continual/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index 2c6cdf8..f6c4c2c 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -53,7 +53,7 @@ def _forward_with_callmode(module: nn.Module, *args, **kwargs):
     _call_mode = (
         call_mode.cur
         if call_mode.prev is not None
-        else getattr(module, "call_mode", _callmode("forward"))
+        else _callmode(getattr(module, "call_mode", "forward"))
     )
     if _call_mode == _callmode("forward"):
         return module._regular_forward(*args, **kwargs)
-- 
2.43.0


From 4f599e4e9329e3f3ed4b60b30dce070a84423fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 40/62] fix: call_mode contexts of a thread do not affect other
 threads

---
 continual/module.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 475486a..6ba8ea7 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -1,5 +1,6 @@
 import functools
 import itertools
+import threading
 from abc import ABC
 from contextlib import contextmanager
 from enum import Enum
@@ -55,10 +56,11 @@ def _callmode(cm) -> torch.Tensor:
     return cm
 
 
-class _CallModeContext(object):
+class _CallModeContext(threading.local):
     """Context-manager which temporarily specifies a call_mode
 
-    When the call_mode context is used, the ``__call__`` function of continual modules with be set accordingly
+    When the call_mode context is used, the ``__call__`` function of continual modules with be set accordingly.
+    Like ``torch.no_grad``, it applies to the current thread only.
 
     Example::
 
-- 
2.43.0


From 1e66976d2aaf8c89d447acc6d5a2f7ec99825e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 41/62] fix: refuse conversion of max pooling which returns
 indices

---
 continual/pooling.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/continual/pooling.py b/continual/pooling.py
index e9a3dfe..3db532d 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -697,6 +697,9 @@ class MaxPool1d(nn.MaxPool1d, _PoolNd):
         temporal_fill: PaddingMode = "neg_inf",
         **kwargs,
     ) -> "MaxPool1d":
+        assert (
+            not module.return_indices
+        ), "`return_indices == True` is not supported for a Continual module"
         return MaxPool1d(
             **{
                 **dict(
@@ -817,6 +820,9 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
     def build_from(
         module: nn.MaxPool2d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool2d":
+        assert (
+            not module.return_indices
+        ), "`return_indices == True` is not supported for a Continual module"
         return MaxPool2d(
             **{
                 **dict(
@@ -941,6 +947,9 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
     def build_from(
         module: nn.MaxPool3d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool3d":
+        assert (
+            not module.return_indices
+        ), "`return_indices == True` is not supported for a Continual module"
         return MaxPool3d(
             **{
                 **dict(
@@ -1177,6 +1186,9 @@ class AdaptiveMaxPool2d(nn.AdaptiveMaxPool2d, _PoolNd):
         temporal_fill: PaddingMode = "neg_inf",
         output_size: _size_2_t = None,
     ) -> "AdaptiveMaxPool2d":
+        assert (
+            not module.return_indices
+        ), "`return_indices == True` is not supported for a Continual module"
         return AdaptiveMaxPool2d(
             output_size=output_size or module.output_size,
             kernel_size=kernel_size,
@@ -1256,6 +1268,9 @@ class AdaptiveMaxPool3d(nn.AdaptiveMaxPool3d, _PoolNd):
         temporal_fill: PaddingMode = "neg_inf",
         output_size: _size_3_t = None,
     ) -> "AdaptiveMaxPool3d":
+        assert (
+            not module.return_indices
+        ), "`return_indices == True` is not supported for a Continual module"
         return AdaptiveMaxPool3d(
             output_size=output_size or module.output_size,
             kernel_size=kernel_size,
-- 
2.43.0


From 32b30bdadde4b77e6561fc3fc80d62047d868c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:21 +0000
Subject: [PATCH 42/62] fix: refuse conversion of softmax and GLU over the
 temporal dimension

---
 continual/convert.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index f6c4c2c..b8d7510 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -129,7 +129,6 @@ NAIVE_MAPPING = {
     nn.ELU,
     nn.CELU,
     nn.SELU,
-    nn.GLU,  # has dim
     nn.GELU,
     nn.Hardshrink,
     nn.LeakyReLU,
@@ -139,10 +138,7 @@ NAIVE_MAPPING = {
     nn.PReLU,
     nn.Softsign,
     nn.Tanhshrink,
-    nn.Softmin,  # has dim
-    nn.Softmax,  # has dim
     nn.Softmax2d,
-    nn.LogSoftmax,
     # >> Norm modules
     nn.BatchNorm1d,
     nn.BatchNorm2d,
@@ -173,7 +169,18 @@ def _instance_norm_condition(
     )
 
 
+def _dim_condition(module: Union[nn.GLU, nn.Softmin, nn.Softmax, nn.LogSoftmax]):
+    assert module.dim != 2, (
+        f"{module} must not operate on the temporal dimension (dim=2)"
+        + _circumvent_message
+    )
+
+
 CONDITIONAL_MAPPING = {
+    nn.GLU: _dim_condition,
+    nn.Softmin: _dim_condition,
+    nn.Softmax: _dim_condition,
+    nn.LogSoftmax: _dim_condition,
     nn.InstanceNorm1d: _instance_norm_condition,
     nn.InstanceNorm2d: _instance_norm_condition,
     nn.InstanceNorm3d: _instance_norm_condition,
-- 
2.43.0


From fd553c1bb84003a11f2763920df1df8353747a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:51 +0000
Subject: [PATCH 43/62] fix: steps of adaptive 2d pooling with unspecified
 spatial size

---
 continual/pooling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 3db532d..a3cb0a2 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -1010,9 +1010,9 @@ class AdaptiveAvgPool2d(nn.AdaptiveAvgPool2d, _PoolNd):
         _PoolNd.__init__(
             self,
             temporal_pool=PoolType.AVG,
-            spatial_pool_fn=partial(
-                F.adaptive_avg_pool1d, output_size=self.output_size[1]
-            ),
+            spatial_pool_fn=unity
+            if self.output_size[1] is None  # Same as that of the input
+            else partial(F.adaptive_avg_pool1d, output_size=self.output_size[1]),
             num_input_dims=2,
             kernel_size=(kernel_size, None),
             stride=(stride, None),
@@ -1163,7 +1163,9 @@ class AdaptiveMaxPool2d(nn.AdaptiveMaxPool2d, _PoolNd):
         _PoolNd.__init__(
             self,
             temporal_pool=PoolType.MAX,
-            spatial_pool_fn=partial(
+            spatial_pool_fn=unity
+            if self.output_size[1] is None  # Same as that of the input
+            else partial(
                 F.adaptive_max_pool1d,
                 output_size=self.output_size[1],
                 return_indices=False,
-- 
2.43.0


From b5217f82d425c16d326dbb7c2ec98bd16ef63581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 44/62] fix: position of RecyclingPositionalEncoding unchanged
 by failing calls

---
 continual/positional_encoding.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index f2c2673..e1c7407 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -154,15 +154,16 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
             torch.arange(T, device=input.device).unsqueeze(0) + self.state_index
         ) % self.pe.num_embeddings
 
+        position_embeddings = self.pe(position_ids).transpose(1, 2)
+        output = input + position_embeddings
+
         index_update = (
             self.forward_update_index_steps
             if update_index_steps is None
             else update_index_steps
         )
         self.state_index = (self.state_index + index_update) % self.pe.num_embeddings
-
-        position_embeddings = self.pe(position_ids).transpose(1, 2)
-        return input + position_embeddings
+        return output
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         return self.forward(
-- 
2.43.0


From 09aeec04166aaed7fe92550b4e62a2df4f001448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 45/62] fix: order of RetroactiveUnity frames is not a constant
 in traced models

The roll was recorded with the amount of the traced step, so an exported
two-layer TransformerEncoder was wrong from the second step on.
---
 continual/transformer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index c82049c..b4a80f6 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -96,7 +96,14 @@ class RetroactiveUnity(Delay):
         # Get output
         output = None
         if index >= 0:
-            output = buffer.clone().roll(shifts=int(-index - 1), dims=0)
+            # Oldest frame first. The order is computed from the index tensor to
+            # keep it from becoming a constant in traced (e.g. ONNX) models
+            output = buffer[
+                torch.remainder(
+                    torch.arange(self.delay + 1, device=buffer.device) + index + 1,
+                    self.delay + 1,
+                )
+            ]
             idx = (
                 self.time_dim + len(output.shape)
                 if self.time_dim < 0
-- 
2.43.0


From 451194bdb2dc3b828bb8c34a4c291f0525181e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 46/62] fix: pass the state by name in OnnxWrapper

The second argument of attention modules is the key.
---
 continual/onnx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/onnx.py b/continual/onnx.py
index 7228f7e..5efbd04 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -260,7 +260,7 @@ class OnnxWrapper(torch.nn.Module):
     def forward(self, x: torch.Tensor, *states: torch.Tensor):
         shaped_state, _ = _shape_list(states, self.model._state_shape)
 
-        out, next_states = self.model._forward_step(x, shaped_state)
+        out, next_states = self.model._forward_step(x, prev_state=shaped_state)
         return (out, *flatten(next_states, remove_none=False))
 
     @staticmethod
-- 
2.43.0


From 7345f48a75b0fdeb6cd4567aa6457078f077f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 47/62] fix: names of the dynamic axes of states in
 co.onnx.export

The first dimension of frame buffers and hidden states is not the batch
dimension. Naming it so made ONNX Runtime reuse buffers of another size or
refuse other batch sizes.
---
 continual/onnx.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/continual/onnx.py b/continual/onnx.py
index 5efbd04..99d5c05 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -278,6 +278,12 @@ class OnnxWrapper(torch.nn.Module):
     @property
     def state_dynamic_axes(self) -> Dict[str, List[int]]:
         isdyn = flatten(self.model._dynamic_state_inds)
-        ins = {sn: {0: "batch"} for sn, i in zip(self.state_input_names, isdyn) if i}
+        # The batch dimension is either the first or second one (e.g. in buffers of
+        # frames). The other must not be named "batch" as well, as it has another size
+        ins = {
+            sn: {0: f"{sn}_dim0", 1: f"{sn}_dim1"}
+            for sn, i in zip(self.state_input_names, isdyn)
+            if i
+        }
         outs = {self._i2o_name(k): v for k, v in ins.items()}
         return {**ins, **outs}
-- 
2.43.0


From ef5c19df21280886f805d71f23b822afb60eda8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:44 +0000
Subject: [PATCH 48/62] fix: names of states in co.onnx.export without input
 names

The names of the states were given to the inputs from the first one on, so
that connecting s0 and ns0 connected the output to the input.
---
 continual/onnx.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/continual/onnx.py b/continual/onnx.py
index 99d5c05..36d14ea 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -102,9 +102,9 @@ def export(
                 False and in training mode if model.training is True.
             * ``TrainingMode.TRAINING``: export the model in training mode. Disables optimizations
                 which might interfere with training.
-        input_names (list of str, default empty list): names to assign to the
+        input_names (list of str, default ["input"]): names to assign to the
             input nodes of the graph, in order.
-        output_names (list of str, default empty list): names to assign to the
+        output_names (list of str, default ["output"]): names to assign to the
             output nodes of the graph, in order.
         operator_export_type (enum, default OperatorExportTypes.ONNX):
             * ``OperatorExportTypes.ONNX``: Export all ops as regular ONNX ops
@@ -209,8 +209,8 @@ def export(
         model, CoModule
     ), f"The passed model of type {type(model)} should be a CoModule"
     omodel = OnnxWrapper(model)
-    input_names = list(input_names or [])
-    output_names = list(output_names or [])
+    input_names = list(input_names or ["input"])
+    output_names = list(output_names or ["output"])
     torch.onnx.export(
         model=omodel,
         args=args,
-- 
2.43.0


From 0454622f5b77f85c1139d818f80c280fd10a1a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 49/62] fix: co.onnx.export leaves the training mode of the
 model as it was

---
 continual/onnx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/onnx.py b/continual/onnx.py
index 36d14ea..38d5d8e 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -256,6 +256,8 @@ class OnnxWrapper(torch.nn.Module):
     def __init__(self, model: CoModule):
         super().__init__()
         self.model = model
+        # torch.onnx.export restores the training mode found here
+        self.training = model.training
 
     def forward(self, x: torch.Tensor, *states: torch.Tensor):
         shaped_state, _ = _shape_list(states, self.model._state_shape)
-- 
2.43.0


From 8fe0d777af25cf6aa4a2de2f3fd3aa215f44e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:49 +0000
Subject: [PATCH 50/62] fix: backward hooks, backward pre-hooks and hooks with
 kwargs on continual modules

torch.utils.hooks.BackwardHook takes the pre-hooks since torch 2.0, and steps
without output broke (non-full) backward hooks.
---
 continual/module.py | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 6ba8ea7..2908209 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -9,6 +9,7 @@ from typing import List, Optional, Tuple, Union
 import torch
 import torch.utils.hooks as hooks
 from torch import Tensor
+from torch.nn.modules import module as nn_module
 from torch.nn.modules.module import (
     _global_backward_hooks,
     _global_forward_hooks,
@@ -17,6 +18,12 @@ from torch.nn.modules.module import (
 
 __all__ = ["CoModule", "call_mode"]
 
+# Not available for torch<2.0
+_global_backward_pre_hooks = getattr(nn_module, "_global_backward_pre_hooks", {})
+_global_forward_hooks_with_kwargs = getattr(
+    nn_module, "_global_forward_hooks_with_kwargs", {}
+)
+
 # First element is a value buffer, while others are indexes
 State = Tuple[Tensor, Tensor, Tensor]
 
@@ -374,8 +381,10 @@ class CoModule(ABC):
         # this function, and just call forward.
         if not (
             self._backward_hooks
+            or getattr(self, "_backward_pre_hooks", None)
             or self._forward_hooks
             or self._forward_pre_hooks
+            or _global_backward_pre_hooks
             or _global_backward_hooks
             or _global_forward_hooks
             or _global_forward_pre_hooks
@@ -385,10 +394,19 @@ class CoModule(ABC):
         full_backward_hooks, non_full_backward_hooks = [], []
         if self._backward_hooks or _global_backward_hooks:
             full_backward_hooks, non_full_backward_hooks = self._get_backward_hooks()
+        backward_pre_hooks = []
+        if _global_backward_pre_hooks or getattr(self, "_backward_pre_hooks", None):
+            backward_pre_hooks = self._get_backward_pre_hooks()
         if _global_forward_pre_hooks or self._forward_pre_hooks:
-            for hook in itertools.chain(
-                _global_forward_pre_hooks.values(), self._forward_pre_hooks.values()
+            with_kwargs = getattr(self, "_forward_pre_hooks_with_kwargs", {})
+            for hook_id, hook in itertools.chain(
+                _global_forward_pre_hooks.items(), self._forward_pre_hooks.items()
             ):
+                if hook_id in with_kwargs:
+                    result = hook(self, input, kwargs)
+                    if result is not None:
+                        input, kwargs = result
+                    continue
                 result = hook(self, input)
                 if result is not None:
                     if not isinstance(result, tuple):
@@ -396,19 +414,32 @@ class CoModule(ABC):
                     input = result
 
         bw_hook = None
-        if full_backward_hooks:
-            bw_hook = hooks.BackwardHook(self, full_backward_hooks)
+        if full_backward_hooks or backward_pre_hooks:
+            bw_hooks = [full_backward_hooks]
+            if hasattr(self, "_backward_pre_hooks"):
+                bw_hooks.append(backward_pre_hooks)
+            bw_hook = hooks.BackwardHook(self, *bw_hooks)
             input = bw_hook.setup_input_hook(input)
 
         result = forward_call(*input, **kwargs)
         if _global_forward_hooks or self._forward_hooks:
-            for hook in itertools.chain(
-                _global_forward_hooks.values(), self._forward_hooks.values()
+            with_kwargs = getattr(self, "_forward_hooks_with_kwargs", {})
+            for hook_id, hook in itertools.chain(
+                _global_forward_hooks.items(), self._forward_hooks.items()
             ):
-                hook_result = hook(self, input, result)
+                if (
+                    hook_id in with_kwargs
+                    or hook_id in _global_forward_hooks_with_kwargs
+                ):
+                    hook_result = hook(self, input, kwargs, result)
+                else:
+                    hook_result = hook(self, input, result)
                 if hook_result is not None:
                     result = hook_result
 
+        if result is None:
+            return result  # No output from this step, hence nothing to backpropagate
+
         if bw_hook:
             result = bw_hook.setup_output_hook(result)
 
-- 
2.43.0


From 4d93aea908a298e539148c033bc06ba4377c677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 51/62] fix: flops of attention modules in a co.call_mode
 context

---
 continual/module.py                                | 11 ++++++++---
 continual/multihead_attention/retroactive_mha.py   |  6 +++---
 continual/multihead_attention/single_output_mha.py |  6 +++---
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 2908209..2c04c7a 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -114,6 +114,13 @@ class _CallModeContext(threading.local):
 call_mode = _CallModeContext()
 
 
+def active_call_mode(module: "CoModule") -> torch.Tensor:
+    """Call mode, with which a call of the module would be executed now"""
+    cm = call_mode.cur if call_mode.prev is not None else module.call_mode
+    # Lookups are by identity, so copies (e.g. by deepcopy) must be canonicalised
+    return _callmode(int(cm))
+
+
 def _clone_first(state: State) -> State:
     # return (state[0].clone(), state[1], state[2])
     return (state[0].clone(),) + state[1:]
@@ -367,9 +374,7 @@ class CoModule(ABC):
         Returns:
             [type]: [description]
         """
-        _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
-        # The lookup is by identity, so copies (e.g. by deepcopy) must be canonicalised
-        _call_mode = _callmode(int(_call_mode))
+        _call_mode = active_call_mode(self)
         forward_call = {
             (True, _callmode("forward")): self._slow_forward,
             (False, _callmode("forward")): self.forward,
diff --git a/continual/multihead_attention/retroactive_mha.py b/continual/multihead_attention/retroactive_mha.py
index 415f45b..d78e173 100644
--- a/continual/multihead_attention/retroactive_mha.py
+++ b/continual/multihead_attention/retroactive_mha.py
@@ -6,7 +6,7 @@ import torch
 from torch import Tensor
 
 from continual.logging import getLogger
-from continual.module import _callmode
+from continual.module import _callmode, active_call_mode
 
 from .mha_base import MultiheadAttentionBase, scaled_dot_prod_attn_flops
 
@@ -380,7 +380,7 @@ class RetroactiveMultiheadAttention(MultiheadAttentionBase):
         steps_taken = {
             _callmode("forward"): self.sequence_len,
             _callmode("forward_step"): 1,
-        }[self.call_mode]
+        }[active_call_mode(self)]
 
         f += (
             steps_taken
@@ -402,7 +402,7 @@ class RetroactiveMultiheadAttention(MultiheadAttentionBase):
         f += self.num_heads * {
             _callmode("forward"): scaled_dot_prod_attn_flops,
             _callmode("forward_step"): retractive_scaled_dot_prod_attn_step_flops,
-        }[self.call_mode](
+        }[active_call_mode(self)](
             self.sequence_len,
             self.embed_dim // self.num_heads,
             include_muls,
diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 1739ab5..2901592 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -7,7 +7,7 @@ import torch.nn.functional as F
 from torch import Tensor
 
 from continual.logging import getLogger
-from continual.module import _callmode
+from continual.module import _callmode, active_call_mode
 
 from .mha_base import MultiheadAttentionBase, scaled_dot_prod_attn_flops
 
@@ -408,7 +408,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
             if self.single_output_forward
             else self.sequence_len,
             _callmode("forward_step"): 1,
-        }[self.call_mode]
+        }[active_call_mode(self)]
 
         f += (
             steps_taken
@@ -431,7 +431,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
             if self.single_output_forward
             else scaled_dot_prod_attn_flops,
             _callmode("forward_step"): single_output_scaled_dot_prod_attn_flops,
-        }[self.call_mode](
+        }[active_call_mode(self)](
             self.sequence_len,
             self.embed_dim // self.num_heads,
             include_muls,
-- 
2.43.0


From 619c8faffbdd35fc188e1f10af05b609fcbdc785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:18 +0000
Subject: [PATCH 52/62] fix: refuse a query_index before the first token of the
 sequence

---
 continual/multihead_attention/single_output_mha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 2901592..71fd01a 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -225,7 +225,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
             forward_returns_attn_mask,
             embed_dim_second,
         )
-        assert query_index < sequence_len
+        assert -sequence_len <= query_index < sequence_len
         self.query_index = query_index
         self.single_output_forward = single_output_forward
         self.register_buffer("Q_mem", torch.tensor([]), persistent=False)
-- 
2.43.0


From 9fa3e8a2f421b213f05dd0bab69d22a91b514798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:33 +0000
Subject: [PATCH 53/62] fix: Linear with a spatial channel_dim projects the
 same dimension in forward_step

---
 continual/linear.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/continual/linear.py b/continual/linear.py
index 7f2f3cf..dcf24c1 100644
--- a/continual/linear.py
+++ b/continual/linear.py
@@ -77,21 +77,27 @@ class Linear(CoModule, nn.Linear):
         return nn.Linear.extra_repr(self) + f", channel_dim={self.channel_dim}"
 
     def forward(self, input: Tensor) -> Tensor:
-        if self.channel_dim != -1:
-            input = input.swapaxes(self.channel_dim, -1)
+        return self._project(input, self.channel_dim)
+
+    def _project(self, input: Tensor, channel_dim: int) -> Tensor:
+        if channel_dim != -1:
+            input = input.swapaxes(channel_dim, -1)
 
         output = linear(input, self.weight, self.bias)  # Assumes channel-last
 
-        if self.channel_dim != -1:
-            output = output.swapaxes(self.channel_dim, -1)
+        if channel_dim != -1:
+            output = output.swapaxes(channel_dim, -1)
 
         return output
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
-        return self.forward(input)
+        return self._forward_step(input)[0]
 
     def _forward_step(self, input: Tensor, prev_state=None) -> Tensor:
-        return self.forward(input), prev_state
+        channel_dim = self.channel_dim
+        if channel_dim > 2:
+            channel_dim -= 1  # Steps have no temporal dimension (dim=2)
+        return self._project(input, channel_dim), prev_state
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         return self.forward(input)
-- 
2.43.0


From 337119ffb50827665503bb653923eefdece2aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:33 +0000
Subject: [PATCH 54/62] fix: warm_up with the dtype and device of the module

---
 continual/module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/continual/module.py b/continual/module.py
index 2c04c7a..2bfc9e4 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -353,7 +353,12 @@ class CoModule(ABC):
         if self.delay == 0:
             return  # No steps to warm up with
         step_shape = (*step_shape[:2], self.delay, *step_shape[2:])
-        dummy = self._make_padding(torch.zeros(step_shape, dtype=torch.float))
+        dummy = torch.zeros(step_shape, dtype=torch.float)
+        for p in itertools.chain(self.parameters(), self.buffers()):
+            if p.is_floating_point():
+                dummy = dummy.to(device=p.device, dtype=p.dtype)
+                break
+        dummy = self._make_padding(dummy)
         self.forward_steps(dummy)
 
     @property
-- 
2.43.0


From a9b347612f5a1eafa7d342973ee53e9e2681d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:22 +0000
Subject: [PATCH 55/62] fix: Sequential.append replaced a module of a slice
 whose name it took

---
 continual/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/continual/container.py b/continual/container.py
index 06deefe..f564468 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -741,7 +741,10 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
         Args:
             module (nn.Module): module to append
         """
-        self.add_module(str(len(self)), module)
+        idx = len(self)
+        while str(idx) in self._modules:  # e.g. in a slice, which keeps its names
+            idx += 1
+        self.add_module(str(idx), module)
         return self
 
 
-- 
2.43.0


From 57731dc4b99302c00cfe4982cf877aa0ead6a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:43 +0000
Subject: [PATCH 56/62] fix: text of modules with functors, partials of modules
 and lambdas without source or with brackets

---
 continual/utils.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index bfc0f07..a13871c 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -206,14 +206,16 @@ def function_repr(fn):
     if fn is None:
         return ""
 
-    if isinstance(fn, nn.Module):
-        fn.__name__ = fn.__repr__()
-
     if isinstance(fn, partial):
         fn = fn.func
+    if isinstance(fn, nn.Module) or not hasattr(fn, "__name__"):
+        return repr(fn)
     s = fn.__name__
     if s == "<lambda>":
-        s = getsource(fn)
+        try:
+            s = getsource(fn)
+        except OSError:  # Source code is not available, e.g. in interactive sessions
+            return s
         s = s[s.find("lambda") :]
 
         # first ':'
@@ -222,11 +224,11 @@ def function_repr(fn):
         stack = 0
         for c in s[i + 1 :]:
             i += 1
-            if c == "(":
+            if c in "([{":
                 stack += 1
-            elif c == ")":
+            elif c in ")]}":
                 stack -= 1
-            if (stack == 0 and c == ",") or (stack == -1 and c == ")"):
+            if (stack == 0 and c == ",") or stack == -1:
                 break
 
         s = s[:i]
-- 
2.43.0


From ae5a975c0597f27d5d39c3756e70fbaccf99552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:11 +0000
Subject: [PATCH 57/62] fix: hidden states of RNN, GRU and LSTM follow the
 module to another device or type

---
 continual/rnn.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/continual/rnn.py b/continual/rnn.py
index c6fca9e..17cc3e6 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -151,6 +151,7 @@ class RNN(CoModule, nn.RNN):
             device=device,
             dtype=dtype,
         )
+        self.register_buffer("_hidden_state", None, persistent=False)
 
     @staticmethod
     def build_from(module: nn.RNN, **kwargs) -> "RNN":
@@ -184,11 +185,10 @@ class RNN(CoModule, nn.RNN):
         return 0
 
     def clean_state(self):
-        if hasattr(self, "_hidden_state"):
-            del self._hidden_state
+        self._hidden_state = None
 
     def get_state(self) -> Optional[State]:
-        if hasattr(self, "_hidden_state"):
+        if self._hidden_state is not None:
             return (self._hidden_state,)
 
     def set_state(self, state: State):
@@ -370,6 +370,7 @@ class GRU(CoModule, nn.GRU):
             device=device,
             dtype=dtype,
         )
+        self.register_buffer("_hidden_state", None, persistent=False)
 
     @staticmethod
     def build_from(module: nn.GRU, **kwargs) -> "GRU":
@@ -402,11 +403,10 @@ class GRU(CoModule, nn.GRU):
         return 0
 
     def clean_state(self):
-        if hasattr(self, "_hidden_state"):
-            del self._hidden_state
+        self._hidden_state = None
 
     def get_state(self) -> Optional[State]:
-        if hasattr(self, "_hidden_state"):
+        if self._hidden_state is not None:
             return (self._hidden_state,)
 
     def set_state(self, state: State):
@@ -629,6 +629,8 @@ class LSTM(CoModule, nn.LSTM):
             device=device,
             dtype=dtype,
         )
+        self.register_buffer("_hidden_state", None, persistent=False)
+        self.register_buffer("_cell_state", None, persistent=False)
 
     @staticmethod
     def build_from(module: nn.LSTM, **kwargs) -> "LSTM":
@@ -662,13 +664,11 @@ class LSTM(CoModule, nn.LSTM):
         return 0
 
     def clean_state(self):
-        if hasattr(self, "_hidden_state"):
-            del self._hidden_state
-        if hasattr(self, "_cell_state"):
-            del self._cell_state
+        self._hidden_state = None
+        self._cell_state = None
 
     def get_state(self) -> Optional[LSTMState]:
-        if hasattr(self, "_hidden_state") and hasattr(self, "_cell_state"):
+        if self._hidden_state is not None and self._cell_state is not None:
             return (self._hidden_state, self._cell_state)
 
     def set_state(self, state: LSTMState):
-- 
2.43.0


From 263ca27f142fc8af537e78be66d3cb71c0f60ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:11 +0000
Subject: [PATCH 58/62] fix: RecyclingPositionalEncoding keeps its index, and
 CyclicPositionalEncoding its pattern, on the device of the module

---
 continual/positional_encoding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index e1c7407..fae75e3 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -71,7 +71,7 @@ class CyclicPositionalEncoding(nn.Module):
                     np.linspace(0, num, num_embeddings + 1, dtype="int")
                 ][:num_embeddings]
 
-        pattern = torch.from_numpy(x).type(torch.FloatTensor)
+        pattern = torch.tensor(x, dtype=torch.float)
         pattern_sum = torch.zeros_like(pattern)
 
         # Averaging the adjacient embeddings if needed (optional, almost the same performance)
@@ -190,10 +190,10 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
         return output, (state_index,)
 
     def init_state(self) -> State:
-        return (torch.tensor(0),)
+        return (torch.tensor(0, device=self.state_index.device),)
 
     def clean_state(self):
-        self.state_index = torch.tensor(0)
+        self.state_index = torch.tensor(0, device=self.state_index.device)
 
     def get_state(self) -> State:
         return (self.state_index,)
-- 
2.43.0


From 26dc69e3c837238f37ef0403f777467975ac70e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:11 +0000
Subject: [PATCH 59/62] fix: convolutions and dilated pooling index their
 states on the device of those

---
 continual/conv.py    | 4 +++-
 continual/pooling.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/continual/conv.py b/continual/conv.py
index 071c7bb..f930473 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -246,7 +246,9 @@ class _ConvCoNd(CoModule, _ConvNd):
             x_out = x_out + (
                 torch.sum(
                     buffer[
-                        torch.remainder(torch.arange(tot) + index, tot),
+                        torch.remainder(
+                            torch.arange(tot, device=index.device) + index, tot
+                        ),
                         :,
                         :,
                         torch.arange(tot - 1, -1, -1),
diff --git a/continual/pooling.py b/continual/pooling.py
index a3cb0a2..db0e680 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -222,7 +222,8 @@ class _PoolNd(CoModule, nn.Module):
                 frame_selection = next_buffer.index_select(
                     dim=0,
                     index=torch.remainder(
-                        self._frame_index_selection + next_index, len(buffer)
+                        self._frame_index_selection.to(buffer.device) + next_index,
+                        len(buffer),
                     ),
                 )
             output = self._reshaped_temporal_pool_fn(frame_selection)
-- 
2.43.0


From 66a44de574735583eaab23fda92625ad58065b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:11 +0000
Subject: [PATCH 60/62] fix: clean_state of Delay and pooling keeps the type
 the module was put in

---
 continual/delay.py   | 2 +-
 continual/pooling.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/delay.py b/continual/delay.py
index 6c8d3b0..f9625ae 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -76,7 +76,7 @@ class Delay(CoModule, torch.nn.Module):
         return state_buffer, state_index
 
     def clean_state(self):
-        self.state_buffer = torch.tensor([], device=self.state_buffer.device)
+        self.state_buffer = self.state_buffer.new_empty(0)
         self.state_index = torch.tensor(0)
 
     def get_state(self):
diff --git a/continual/pooling.py b/continual/pooling.py
index db0e680..0a0c333 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -184,7 +184,7 @@ class _PoolNd(CoModule, nn.Module):
         return state_buffer, state_index, stride_index
 
     def clean_state(self):
-        self.state_buffer = torch.tensor([], device=self.state_buffer.device)
+        self.state_buffer = self.state_buffer.new_empty(0)
         self.state_index = torch.tensor(0)
         self.stride_index = torch.tensor(0)
 
-- 
2.43.0


From 8afdc07c266ee39bd5dc274af0d1afff132f2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:03 +0000
Subject: [PATCH 61/62] fix: let modules be pickled

Pools, reductions, constants and encoders held functions defined inside
functions, so that torch.save(model) failed. Networks with converted
modules were saved, but could not be loaded.
---
 continual/closure.py     |  6 ++-
 continual/container.py   | 20 +++++----
 continual/convert.py     | 15 ++++---
 continual/pooling.py     | 97 ++++++++++++++++++++++++++--------------
 continual/transformer.py | 14 +++---
 5 files changed, 95 insertions(+), 57 deletions(-)

diff --git a/continual/closure.py b/continual/closure.py
index 77f7bba..ffe2a1b 100644
--- a/continual/closure.py
+++ b/continual/closure.py
@@ -201,13 +201,17 @@ def Identity(*args, **kwargs) -> Lambda:
     return Lambda(_unity, takes_time=True)
 
 
+def _constant(x: Tensor, constant: float):
+    return constant * torch.ones_like(x)
+
+
 def Constant(constant: float) -> Lambda:
     """Returns ``constant * torch.ones_like(input)``.
 
     Arguments:
         constant: Constant value to return.
     """
-    return Lambda(lambda x: constant * torch.ones_like(x), takes_time=True)
+    return Lambda(partial(_constant, constant=constant), takes_time=True)
 
 
 def Zero() -> Lambda:
diff --git a/continual/container.py b/continual/container.py
index f564468..2652060 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1,7 +1,7 @@
 from collections import OrderedDict, abc
 from contextlib import contextmanager
 from enum import Enum
-from functools import reduce, wraps
+from functools import partial, reduce, update_wrapper
 from typing import Callable, List, Optional, Sequence, Tuple, TypeVar, Union, overload
 
 import torch
@@ -105,14 +105,15 @@ def reduce_max(inputs: Sequence[Tensor]) -> Tensor:
     return reduce(torch.max, inputs[1:], inputs[0])
 
 
-def nonempty(fn: ReductionFunc) -> ReductionFunc:
-    @wraps(fn)
-    def wrapped(inputs: Sequence[Tensor]) -> Tensor:
-        if any(inp is None or inp.shape[0] == 0 for inp in inputs):
-            return None  # pragma: no cover
-        return fn(inputs)
+def _reduce_nonempty(fn: ReductionFunc, inputs: Sequence[Tensor]) -> Tensor:
+    if any(inp is None or inp.shape[0] == 0 for inp in inputs):
+        return None  # pragma: no cover
+    return fn(inputs)
+
 
-    return wrapped
+def nonempty(fn: ReductionFunc) -> ReductionFunc:
+    # A partial of a module-level function, so that modules can be pickled
+    return update_wrapper(partial(_reduce_nonempty, fn), fn)
 
 
 class FlattenableStateDict:
@@ -947,7 +948,8 @@ class BroadcastReduce(Sequential):
                 m.clean_state()
 
     def extra_repr(self):
-        return f"reduce={self.reduce.__name__}"
+        name = getattr(self.reduce, "__name__", None) or repr(self.reduce.args[0])
+        return f"reduce={name}"
 
 
 def Residual(
diff --git a/continual/convert.py b/continual/convert.py
index b8d7510..06c615f 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -1,6 +1,7 @@
 """ Register modules with conversion system and 3rd-party libraries """
 
-from types import FunctionType, MethodType
+from functools import partial
+from types import FunctionType
 from typing import Type, Union
 
 from torch import Tensor, nn
@@ -87,17 +88,17 @@ def forward_stepping(module: nn.Module, dim: int = 2):
         dim (int, optional): The dimension to unsqueeze during `forward_step`. Defaults to 2.
     """
 
-    # Methods are bound to the module, so that they follow it if it is copied
+    # Functions are bound to the module, so that they follow it if it is copied or pickled
     module._regular_forward = module.forward
     module._step_dim = dim
-    module.forward_steps = MethodType(_forward_steps, module)
-    module.forward_step = MethodType(_forward_step, module)
-    module._forward_step = MethodType(_forward_step_stateless, module)
+    module.forward_steps = partial(_forward_steps, module)
+    module.forward_step = partial(_forward_step, module)
+    module._forward_step = partial(_forward_step_stateless, module)
     module.delay = 0
     module.receptive_field = 1
     module.stride = tuple(getattr(module, "stride", [1]))
     module.padding = tuple(getattr(module, "padding", [0]))
-    module.build_from = MethodType(_build_from, module)
+    module.build_from = partial(_build_from, module)
     module.get_state = _dummy
     module.set_state = _dummy
     module.clean_state = _dummy
@@ -106,7 +107,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
 
     # Call mode
     module.call_mode = _callmode("forward")
-    module.forward = MethodType(_forward_with_callmode, module)
+    module.forward = partial(_forward_with_callmode, module)
 
     return module
 
diff --git a/continual/pooling.py b/continual/pooling.py
index 0a0c333..5b452d0 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -53,6 +53,57 @@ def scaled_sum_pool(
     return (x.squeeze(-2) if fill else x) * scale
 
 
+# Functions are defined at module level, so that modules can be pickled
+def max_pool1d(*args, **kwargs) -> Tensor:
+    return F.max_pool1d(*args, **kwargs)
+
+
+def max_pool2d(*args, **kwargs) -> Tensor:
+    return F.max_pool2d(*args, **kwargs)
+
+
+def adaptive_max_pool1d(*args, **kwargs) -> Tensor:
+    return F.adaptive_max_pool1d(*args, **kwargs)
+
+
+def adaptive_max_pool2d(*args, **kwargs) -> Tensor:
+    return F.adaptive_max_pool2d(*args, **kwargs)
+
+
+def pooling_with_1d_reshape(
+    temporal_pool_fn: Callable[[Tensor], Tensor], frame_selection: Tensor
+) -> Tensor:
+    _, B, C = frame_selection.shape
+    x = temporal_pool_fn(
+        frame_selection.permute(1, 2, 0)  # T, B, C -> B, C, T
+    ).reshape(B, C)
+    return x
+
+
+def pooling_with_2d_reshape(
+    temporal_pool_fn: Callable[[Tensor], Tensor], frame_selection: Tensor
+) -> Tensor:
+    T, B, C, S = frame_selection.shape
+    x = frame_selection.permute(1, 3, 2, 0)  # B, S, C, T
+    x = x.reshape(B * S, C, T)
+    x = temporal_pool_fn(x)
+    x = x.reshape(B, S, C)
+    x = x.permute(0, 2, 1)  # B, C, S
+    return x
+
+
+def pooling_with_3d_reshape(
+    temporal_pool_fn: Callable[[Tensor], Tensor], frame_selection: Tensor
+) -> Tensor:
+    T, B, C, H, W = frame_selection.shape
+    x = frame_selection.permute(1, 3, 4, 2, 0)  # B, H, W, C, T
+    x = x.reshape(B * H * W, C, T)
+    x = temporal_pool_fn(x)
+    x = x.reshape(B, H, W, C)
+    x = x.permute(0, 3, 1, 2)  # B, C, H, W
+    return x
+
+
 class PoolType(Enum):
     AVG = "avg"
     MAX = "max"
@@ -123,36 +174,14 @@ class _PoolNd(CoModule, nn.Module):
         }[temporal_pool](1)
 
         # Select forward reshape mode depending on dimensionality
-        def pooling_with_1d_reshape(frame_selection: Tensor) -> Tensor:
-            _, B, C = frame_selection.shape
-            x = self._temporal_pool_fn(
-                frame_selection.permute(1, 2, 0)  # T, B, C -> B, C, T
-            ).reshape(B, C)
-            return x
-
-        def pooling_with_2d_reshape(frame_selection: Tensor) -> Tensor:
-            T, B, C, S = frame_selection.shape
-            x = frame_selection.permute(1, 3, 2, 0)  # B, S, C, T
-            x = x.reshape(B * S, C, T)
-            x = self._temporal_pool_fn(x)
-            x = x.reshape(B, S, C)
-            x = x.permute(0, 2, 1)  # B, C, S
-            return x
-
-        def pooling_with_3d_reshape(frame_selection: Tensor) -> Tensor:
-            T, B, C, H, W = frame_selection.shape
-            x = frame_selection.permute(1, 3, 4, 2, 0)  # B, H, W, C, T
-            x = x.reshape(B * H * W, C, T)
-            x = self._temporal_pool_fn(x)
-            x = x.reshape(B, H, W, C)
-            x = x.permute(0, 3, 1, 2)  # B, C, H, W
-            return x
-
-        self._reshaped_temporal_pool_fn = {
-            1: pooling_with_1d_reshape,
-            2: pooling_with_2d_reshape,
-            3: pooling_with_3d_reshape,
-        }[num_input_dims]
+        self._reshaped_temporal_pool_fn = partial(
+            {
+                1: pooling_with_1d_reshape,
+                2: pooling_with_2d_reshape,
+                3: pooling_with_3d_reshape,
+            }[num_input_dims],
+            self._temporal_pool_fn,
+        )
 
         if self.dilation[0] > 1:
             self._frame_index_selection = torch.tensor(
@@ -801,7 +830,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
             self,
             temporal_pool=PoolType.MAX,
             spatial_pool_fn=partial(
-                F.max_pool1d,
+                max_pool1d,
                 kernel_size=self.kernel_size[1:],
                 stride=self.stride[1:],
                 padding=self.padding[1:],
@@ -928,7 +957,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
             self,
             temporal_pool=PoolType.MAX,
             spatial_pool_fn=partial(
-                F.max_pool2d,
+                max_pool2d,
                 kernel_size=self.kernel_size[1:],
                 stride=self.stride[1:],
                 padding=self.padding[1:],
@@ -1167,7 +1196,7 @@ class AdaptiveMaxPool2d(nn.AdaptiveMaxPool2d, _PoolNd):
             spatial_pool_fn=unity
             if self.output_size[1] is None  # Same as that of the input
             else partial(
-                F.adaptive_max_pool1d,
+                adaptive_max_pool1d,
                 output_size=self.output_size[1],
                 return_indices=False,
             ),
@@ -1249,7 +1278,7 @@ class AdaptiveMaxPool3d(nn.AdaptiveMaxPool3d, _PoolNd):
             self,
             temporal_pool=PoolType.MAX,
             spatial_pool_fn=partial(
-                F.adaptive_max_pool2d,
+                adaptive_max_pool2d,
                 output_size=self.output_size[1:],
                 return_indices=False,
             ),
diff --git a/continual/transformer.py b/continual/transformer.py
index b4a80f6..48b30f4 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -25,6 +25,14 @@ __all__ = [
 ]
 
 
+def unity(x: Tensor) -> Tensor:
+    return x
+
+
+def squeeze_last(x: Tensor) -> Tensor:
+    return x.squeeze(-1)
+
+
 class MhaType(Enum):
     """Type of Multi-head Attention
     Supported tupes are:
@@ -569,12 +577,6 @@ class TransformerEncoder(Sequential):
                 )
             )
 
-            def unity(x):
-                return x
-
-            def squeeze_last(x):
-                return x.squeeze(-1)
-
             layers.append(
                 Lambda(unity, None, squeeze_last, squeeze_last, takes_time=True)
             )
-- 
2.43.0


From aaa0f7a606df507d1cbf3226e330cb0d13fc819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:30 +0000
Subject: [PATCH 62/62] fix: flattening of state dicts selected in a thread
 does not affect other threads

---
 continual/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index a13871c..954f908 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -1,3 +1,4 @@
+import threading
 from collections import OrderedDict, abc
 from contextlib import contextmanager
 from functools import partial, reduce
@@ -59,8 +60,8 @@ def temporary_parameter(obj, attr: str, val):
             rsetattr(obj, attr, prev_val)
 
 
-class _FlatStateDict(object):
-    """Context-manager state holder."""
+class _FlatStateDict(threading.local):
+    """Context-manager state holder. Each thread has its own."""
 
     def __init__(self):
         self.flatten = False
-- 
2.43.0


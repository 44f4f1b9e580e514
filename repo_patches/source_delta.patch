From cf5c6132b87ca5b927f70d1fa1f9add3dd6b7084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 01/12] fix: give ACTStates.error_mode a default and keep it
 out of the traced leaves

Every builder, editor and controller constructs ACTStates without error_mode,
so no controller could be created; replace() called validators that do not exist.
---
 src/jax_act/core/states.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index bfcd207..629a7b0 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -145,13 +145,8 @@ class ACTStates:
 
         if depression_constant is None:
             depression_constant = self.depression_constant
-        else:
-            depression_constant = self.validate_depression_constant(depression_constant)
         if error_mode is None:
             error_mode = self.error_mode
-        else:
-            error_mode = self.validate_error_mode(error_mode)
-
 
         return ACTStates(epsilon,
                          iterations,
@@ -171,7 +166,7 @@ class ACTStates:
     accumulators: Dict[str, PyTree]
     updates: Dict[str, Optional[PyTree]]
     depression_constant: float
-    error_mode: str
+    error_mode: str = "standard"
 
 # We define the functions to represent states as a pytree,
 # and then register the tree.
@@ -182,6 +177,9 @@ class ACTStates:
 def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
     state = asdict(state)
 
+    # The error mode is a static string, which cannot be a leaf under jit.
+    error_mode = state.pop("error_mode")
+
     aux_out = []
     values = []
     for key, value in state.items():
@@ -189,14 +187,15 @@ def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
 
         aux_out.append(aux)
         values.append(value)
-    return zip(state.keys(), values), aux_out
+    return zip(state.keys(), values), (aux_out, error_mode)
 
 def state_unflatten(aux_data: Any, flat_state: Any) -> ACTStates:
 
+    aux_data, error_mode = aux_data
     values = []
     for value, tree_def in zip(flat_state, aux_data):
         value = jax.tree_util.tree_unflatten(tree_def, value)
         values.append(value)
-    return ACTStates(*values)
+    return ACTStates(*values, error_mode)
 
 jax.tree_util.register_pytree_with_keys(ACTStates, state_flatten, state_unflatten)
\ No newline at end of file
-- 
2.43.0


From eb3e539cace9232389a2d391705d3e18bdbe800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 02/12] fix: reset_batches broadcasts against the leaf, so
 pytree accumulators can be reset

---
 src/jax_act/core/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 94a4456..bde8c1a 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -396,7 +396,7 @@ class ACT_Controller(Immutable):
                 #
                 # Then reset to defaults where appropriate and return.
                 broadcastable_selector = utils.setup_left_broadcast(unhalted_batch_selector,
-                                                                    accumulator)
+                                                                    accumulator_leaf)
                 broadcastable_selector = jnp.broadcast_to(broadcastable_selector, accumulator_leaf.shape)
                 return jax.lax.select(broadcastable_selector,
                                      accumulator_leaf,
-- 
2.43.0


From 7039439c23952886f564f72ff1bf8b378f51c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 03/12] fix: viewer transforms show the updates, not the
 defaults, under updates

---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5cfb5bb..5141c82 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -116,7 +116,7 @@ class ACTViewer(Immutable):
 
             updates = {name: jax.tree_util.tree_map(update_applier, value)
                         for name, value
-                        in self.defaults.items()}
+                        in self.updates.items()}
 
         except Exception as err:
             msg = "An issue occurred in using the provided function"
-- 
2.43.0


From 6cea510335fbd9cddbc1dd6819812c3db29bf190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 04/12] fix: masked viewer entries are zero even where the data
 is nan or inf

---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5141c82..ea16802 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -155,7 +155,7 @@ class ACTViewer(Immutable):
 
         def update_function(tensor: jnp.ndarray)->jnp.ndarray:
             broadcastable_mask = utils.setup_left_broadcast(mask, tensor)
-            return broadcastable_mask*tensor
+            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))
 
         return self.transform(update_function)
 
-- 
2.43.0


From 841835ab89798b8a2f0656a22e0cc91c0f439414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 05/12] fix: contract validation checks the returned controller
 for uncommitted updates

---
 src/jax_act/layers/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/layers/core.py b/src/jax_act/layers/core.py
index 58aa6f7..896b93d 100644
--- a/src/jax_act/layers/core.py
+++ b/src/jax_act/layers/core.py
@@ -302,7 +302,7 @@ class ContractValidationWrapper:
             new_controller, _ = update
             self._validate_is_controller(new_controller, context_message)
             self._validate_is_novel_controller(controller, new_controller, context_message)
-            self._validate_all_act_updates_committed(controller, context_message)
+            self._validate_all_act_updates_committed(new_controller, context_message)
 
         self._execute_validation(validate)
         return update
-- 
2.43.0


From 83bf9391897513496a1e57a21fe7b1af5b1e38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 06/12] fix: iterate_act keeps the accumulator dtype, so it may
 differ from the core dtype

---
 src/jax_act/core/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index bde8c1a..8406f61 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -230,6 +230,7 @@ class ACT_Controller(Immutable):
         # only accumulators which have not already reached a halting state get updated.
 
         new_accumulators = accumulator_value + halting_probabilities * update_value
+        new_accumulators = new_accumulators.astype(accumulator_value.dtype)
         return jax.lax.select(halted_batches, accumulator_value, new_accumulators)
 
 
-- 
2.43.0


From e267ef2cecc512ac8c3be8791c3dccec1fe1f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 07/12] fix: iterate_act leaves the cumulative probability of
 halted batches alone

---
 src/jax_act/core/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 8406f61..0ec4966 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -181,6 +181,7 @@ class ACT_Controller(Immutable):
         # of the halting probabilities and the current cumulative probabilities
 
         probabilities = self.probabilities + halting_probabilities
+        probabilities = jax.lax.select(self.halted_batches, self.probabilities, probabilities)
 
         return halting_probabilities, residuals, probabilities
 
-- 
2.43.0


From 43cfcafc1115138da6351a7252229ba8c2dcf047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 08/12] fix: flattening a state keeps accumulators that are
 dataclass pytrees intact

---
 src/jax_act/core/states.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 629a7b0..1995966 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -6,7 +6,7 @@ import textwrap
 
 import jax
 from enum import Enum
-from dataclasses import dataclass, asdict
+from dataclasses import dataclass, fields
 from typing import Dict, Optional, Any, Tuple, Callable, List
 from jax import numpy as jnp
 from jax.experimental import checkify
@@ -175,7 +175,8 @@ class ACTStates:
 # the keys from the state, and doing the reverse to put
 # everything back together.
 def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
-    state = asdict(state)
+    # Shallow, as asdict would turn accumulators which are dataclass pytrees into dicts
+    state = {field.name : getattr(state, field.name) for field in fields(state)}
 
     # The error mode is a static string, which cannot be a leaf under jit.
     error_mode = state.pop("error_mode")
-- 
2.43.0


From 1d7a3c33890412165bceb0e222e257a962f28b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:23 +0000
Subject: [PATCH 09/12] fix: editor setters reject None in place of a tensor

---
 src/jax_act/core/tensoreditor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 8a1741b..5264e32 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -252,6 +252,14 @@ class TensorEditor(Immutable):
         original_leaves = jax.tree_util.tree_leaves(original)
         new_leaves = jax.tree_util.tree_leaves(new)
 
+        # None is a node without leaves, so the structure check lets it stand in for a leaf
+        msg = f"""
+        The original had {len(original_leaves)} leaves. However, the
+        proposed replacement has {len(new_leaves)} leaves.
+        """
+        msg = utils.format_error_message(msg, info)
+        checkify.check(len(original_leaves) == len(new_leaves), msg)
+
         for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):
             # Check if leaf has same shape
             msg = f"""
-- 
2.43.0


From e50d733146299e2822a2ba63455691fb79c071bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:43 +0000
Subject: [PATCH 10/12] fix: a depression constant of another precision leaves
 the probability dtype alone

---
 src/jax_act/core/controller.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 0ec4966..4a88b27 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -150,9 +150,12 @@ class ACT_Controller(Immutable):
         :return: The updated cumulative probabilities
         """
         # We begin by depressing or increasing the probablity by
-        # the stored away depression constant.
+        # the stored away depression constant. The constant may come
+        # back from a checkpoint or a transform as an array of another
+        # precision, which must not change the dtype of the probabilities.
 
-        halting_probabilities = self.depression_constant*halting_probabilities
+        dtype = halting_probabilities.dtype
+        halting_probabilities = (self.depression_constant*halting_probabilities).astype(dtype)
 
         # We need to know what batches are just now halting
         # to capture that information in the residuals, and
-- 
2.43.0


From 2c89b514d670fe9bc401181badd907b878a11a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 11/12] fix: merge_pytrees refuses trees of different size with
 assertions disabled too

---
 src/jax_act/core/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 8ab623c..65bd335 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -256,7 +256,14 @@ def merge_pytrees(function: Callable[[Any,
     primary_leaves = jax.tree_util.tree_flatten(primary_tree)[0]
     auxilary_leaves = jax.tree_util.tree_flatten(auxilary_tree)[0]
 
-    assert len(primary_leaves) == len(auxilary_leaves)  # Just a quick sanity check.
+    # Not an assert, since those are stripped under 'python -O' and zip would
+    # then quietly drop the additional leaves.
+    if len(primary_leaves) != len(auxilary_leaves):
+        msg = f"""
+        The pytrees to merge do not have the same number of leaves. The primary
+        tree has {len(primary_leaves)}, but the auxilary tree has {len(auxilary_leaves)}.
+        """
+        raise ValueError(textwrap.dedent(msg))
 
     new_leaves = []
     for primary_leaf, aux_leaf in zip(primary_leaves, auxilary_leaves):
-- 
2.43.0


From 15cc491c125d87a8ee697fd920d3ce5cfcba903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:02 +0000
Subject: [PATCH 12/12] fix: resetting a halted lane turned a statistic which
 is not finite into nan instead of zero

The statistics were reset by multiplying with the selector, which leaves nan
where XLA does not happen to rewrite the product into a selection (bfloat16
controllers, and any dtype under jax.disable_jit).
---
 src/jax_act/core/controller.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 4a88b27..4999933 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -374,11 +374,12 @@ class ACT_Controller(Immutable):
 
         unhalted_batch_selector = ~self.halted_batches
 
-        # Multiplying by zero resets the probabilities and iteration statistics.
+        # Selecting zero resets the probabilities and iteration statistics. (Multiplying
+        # by zero would not: a statistic which is not finite would turn into nan)
 
-        iterators = self.iterations*unhalted_batch_selector
-        probabilities = self.probabilities*unhalted_batch_selector
-        residuals = self.residuals*unhalted_batch_selector
+        iterators = jnp.where(unhalted_batch_selector, self.iterations, 0)
+        probabilities = jnp.where(unhalted_batch_selector, self.probabilities, 0)
+        residuals = jnp.where(unhalted_batch_selector, self.residuals, 0)
 
         accumulators = {}
         for name in self.accumulators.keys():
-- 
2.43.0


From 1c236ea18c95a04ec88563315051462699660f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 01/73] fix: bottom-up structure with depth 0 (unbound
 variable, misplaced sum layer)

---
 simple_einet/einet.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index b26470e..633cb31 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -404,25 +404,18 @@ class Einet(nn.Module):
             intermediate_layers.append(layer)
 
         if self.config.depth == 0:
-            # Create a single sum layer
-            layer = SumLayer(
-                num_sums_in=self.config.num_leaves,
-                num_features=1,
-                num_sums_out=self.config.num_classes,
-                num_repetitions=self.config.num_repetitions,
-                dropout=self.config.dropout,
-            )
-            intermediate_layers.append(layer)
+            # No intermediate layers: the root sum is placed directly on top of the leaves
+            _num_sums_out = self.config.num_leaves
 
         # Construct final root product layer
         root_sum = SumLayer(
             num_sums_in=_num_sums_out,
             num_sums_out=self.config.num_classes,
-            num_features=intermediate_layers[-1].num_features_out,
+            num_features=in_features,
             num_repetitions=self.config.num_repetitions,
         )
         root_product = RootProductLayer(
-            num_features=intermediate_layers[-1].num_features_out, num_repetitions=self.config.num_repetitions
+            num_features=in_features, num_repetitions=self.config.num_repetitions
         )
 
         intermediate_layers.append(root_sum)
-- 
2.43.0


From 211d26f0ca25e73c9dc2336b49e34a7670ef2cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 02/73] fix: einsum layer returned NaN for a region whose
 children all have zero probability

---
 simple_einet/layers/einsum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index bb6e6a6..6c732b0 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -127,9 +127,12 @@ class EinsumLayer(AbstractSumLayer):
         right_log_prob = x[:, 1::2]
 
         # Prepare for LogEinsumExp trick (see paper for details)
+        # (a region in which every child has zero probability has maximum -inf: subtract nothing there instead)
         left_prob_max = torch.max(left_log_prob, dim=2, keepdim=True)[0]
+        left_prob_max = left_prob_max.masked_fill(torch.isneginf(left_prob_max), 0.0)
         left_prob = torch.exp(left_log_prob - left_prob_max)
         right_prob_max = torch.max(right_log_prob, dim=2, keepdim=True)[0]
+        right_prob_max = right_prob_max.masked_fill(torch.isneginf(right_prob_max), 0.0)
         right_prob = torch.exp(right_log_prob - right_prob_max)
 
         # Project weights into valid space
-- 
2.43.0


From 2b305f2fd4747885511622277d4d4bc1e942dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 03/73] fix: Bernoulli leaves could not be sampled and had no
 get_params

---
 simple_einet/layers/distributions/bernoulli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/bernoulli.py b/simple_einet/layers/distributions/bernoulli.py
index 7b52e05..e147f51 100644
--- a/simple_einet/layers/distributions/bernoulli.py
+++ b/simple_einet/layers/distributions/bernoulli.py
@@ -3,6 +3,7 @@ from torch import distributions as dist
 from torch import nn
 
 from simple_einet.layers.distributions.abstract_leaf import AbstractLeaf
+from simple_einet.sampling_utils import SamplingContext
 
 
 class Bernoulli(AbstractLeaf):
@@ -26,6 +27,9 @@ class Bernoulli(AbstractLeaf):
         # Create bernoulli parameters
         self.probs = nn.Parameter(torch.randn(1, num_channels, num_features, num_leaves, num_repetitions))
 
-    def _get_base_distribution(self):
+    def _get_base_distribution(self, ctx: SamplingContext = None):
         # Use sigmoid to ensure, that probs are in valid range
         return dist.Bernoulli(probs=torch.sigmoid(self.probs))
+
+    def get_params(self):
+        return self.probs.unsqueeze(-1)
-- 
2.43.0


From a5e151eeb921b17e000eee9e36e994ab90ae25bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 04/73] fix: class of a sample was drawn from random weights
 instead of the uniform prior / the class posterior given the evidence

---
 simple_einet/einet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 633cb31..3b4cb16 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -195,6 +195,10 @@ class Einet(nn.Module):
             # Remove repetition index
             x = x.squeeze(-1)
 
+        # Let the class sampling root see the class likelihoods if sampling is conditioned on evidence
+        if self.config.num_classes > 1 and self._class_sampling_root._is_input_cache_enabled:
+            self._class_sampling_root(x.unsqueeze(-1))
+
         # Remove feature dimension
         x = x.squeeze(1)
 
@@ -332,7 +336,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
@@ -458,7 +462,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
-- 
2.43.0


From 49f199ab3fdc1e09785f8998fce18f9ced0b8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 05/73] fix: sampling with a list of classes and differentiable
 sampling with given classes failed

---
 simple_einet/einet.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 3b4cb16..ea1da90 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -581,6 +581,12 @@ class Einet(nn.Module):
         if evidence is not None:
             # Set n to the number of samples in the evidence
             num_samples = evidence.shape[0]
+        elif isinstance(class_index, list):
+            # One sample per given class
+            assert num_samples is None or num_samples == len(
+                class_index
+            ), f"Number of samples ({num_samples}) does not match number of given classes ({len(class_index)})."
+            num_samples = len(class_index)
         elif num_samples is None:
             num_samples = 1
 
@@ -616,24 +622,14 @@ class Einet(nn.Module):
                     if isinstance(class_index, list):
                         # A list of classes was given, one element for each sample
                         indices = torch.tensor(class_index, device=self.__device).view(-1, 1)
-                        if is_differentiable:
-                            # TODO: Test this
-                            # One hot encode
-                            indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
-                            indices.requireds_grad_(True)  # Enable gradients
-                        num_samples = indices.shape[0]
                     else:
                         indices = torch.empty(size=(num_samples, 1), dtype=torch.long, device=self.__device)
                         indices.fill_(class_index)
-                        if is_differentiable:
-                            # TODO: Test this
-                            # One hot encode
-                            indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
-                            indices.requires_grad_(True)  # Enable gradients
+
+                    if is_differentiable:
+                        # One hot encode: [num_samples, 1, num_classes]
+                        indices = torch.nn.functional.one_hot(indices, self.config.num_classes).float()
+                        indices.requires_grad_(True)  # Enable gradients
 
                     ctx.indices_out = indices
                 else:
-- 
2.43.0


From c9404ab33f1cf47a1bbafd55981c61a14faf9702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 06/73] fix: single-repetition leaf layer assigned component
 choices to the wrong features when sampling

---
 simple_einet/layers/factorized_leaf.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index bfffc05..d86a3bc 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -333,11 +333,7 @@ class FactorizedLeafSimple(AbstractLayer):
         if ctx.is_differentiable:
 
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
-            indices_out = indices_out.reshape(
-                indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
-            )
+            indices_out = indices_out.repeat_interleave(self.cardinality, dim=1)
 
             # Invert permutation
             indices_out = indices_out[:, self.inverse_permutation]
@@ -350,9 +346,8 @@ class FactorizedLeafSimple(AbstractLayer):
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
-            indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
+            indices_out = indices_out.repeat_interleave(self.cardinality, dim=1)
+            indices_out = indices_out.unsqueeze(1).expand(-1, self.base_leaf.num_channels, -1)
 
             # Invert permutation
             indices_out = indices_out[:, :, self.inverse_permutation]
@@ -373,11 +368,7 @@ class FactorizedLeafSimple(AbstractLayer):
         num_params = params.shape[-1]  # Number of parameters, e.g. 2 for Normal (mu and sigma)
         if ctx.is_differentiable:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
-            indices_out = indices_out.reshape(
-                indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
-            )
+            indices_out = indices_out.repeat_interleave(self.cardinality, dim=1)
 
             # Invert permutation
             indices_out = indices_out[:, self.inverse_permutation]
@@ -392,9 +383,8 @@ class FactorizedLeafSimple(AbstractLayer):
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
-            indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
+            indices_out = indices_out.repeat_interleave(self.cardinality, dim=1)
+            indices_out = indices_out.unsqueeze(1).expand(-1, self.base_leaf.num_channels, -1)
 
             # Invert permutation
             indices_out = indices_out[:, :, self.inverse_permutation]
-- 
2.43.0


From 0ab5523cf5df77ab75f9a789bad3432ee0b8dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 07/73] fix: forward ignored the random feature assignment when
 every leaf region has one feature, sampling did not

---
 simple_einet/layers/factorized_leaf.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index d86a3bc..b61c30d 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -83,9 +83,6 @@ class FactorizedLeaf(AbstractLayer):
         # Factorize input channels
         x = x.sum(dim=1)
 
-        if self.num_features == self.num_features_out:
-            return x
-
         # Merge scopes by naive factorization
         x = torch.einsum("bicr,ior->bocr", x, self.scopes)
 
-- 
2.43.0


From 306a0c904b5806a154c92ba8e832af447473c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 08/73] fix: differentiable leaf parameters of a
 single-repetition model used a wrong broadcast dimension

---
 simple_einet/layers/factorized_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index b61c30d..4dd4599 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -376,7 +376,7 @@ class FactorizedLeafSimple(AbstractLayer):
 
             indices_out = indices_out.unsqueeze(-1)
             params = params.squeeze(-2)  # remove repetition index
-            indices_out = indices_out.unsqueeze(-1)  # make space for num_channels dim
+            indices_out = indices_out.unsqueeze(1)  # make space for num_channels dim
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-- 
2.43.0


From ca847f4849ccd53656bdf4c9c32ce29bcde5c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 09/73] fix: sampling with multivariate normal leaves
 (component choice was not spread over the features of a leaf)

---
 simple_einet/layers/factorized_leaf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 4dd4599..6d64601 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -138,6 +138,7 @@ class FactorizedLeaf(AbstractLayer):
             scopes = index_one_hot(scopes, index=r_idx, dim=-1)
 
             indices_in = index_one_hot(indices_out.unsqueeze(1), index=scopes.unsqueeze(-1), dim=2)
+            indices_in = indices_in.repeat_interleave(self.base_leaf.cardinality, dim=1)
             indices_in = indices_in.unsqueeze(1)  # make space for channel dim
             samples = index_one_hot(samples, index=indices_in, dim=-1)
         else:
@@ -149,7 +150,7 @@ class FactorizedLeaf(AbstractLayer):
             indices_in_gather = indices_in_gather.view(ctx.num_samples, 1, -1, 1)
 
             indices_in_gather = indices_in_gather.expand(-1, self.base_leaf.num_channels, -1, -1)
-            indices_in_gather = indices_in_gather.repeat(1, 1, self.base_leaf.cardinality, 1)
+            indices_in_gather = indices_in_gather.repeat_interleave(self.base_leaf.cardinality, dim=2)
             samples = samples.gather(dim=-1, index=indices_in_gather)
             samples.squeeze_(-1)  # Remove num_leaves dimension
         return samples
@@ -339,6 +340,9 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, : -self.num_dummy_nodes]
 
+            # Every leaf covers #cardinality consecutive features
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=1)
+
             indices_out = indices_out.unsqueeze(1)  # make space for channel dim
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
@@ -353,6 +357,9 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, :, : -self.num_dummy_nodes]
 
+            # Every leaf covers #cardinality consecutive features
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=2)
+
             indices_out = indices_out.unsqueeze(-1)
             samples = samples.gather(index=indices_out, dim=-1)
             samples = samples.squeeze(-1)
-- 
2.43.0


From 5d73cdf4d2df69b0d2f79a4926db46d8c73c0e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 10/73] fix: non-contiguous (e.g. channels-last) inputs and
 evidence raised

---
 simple_einet/einet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index ea1da90..ae1e9f3 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -136,7 +136,7 @@ class Einet(nn.Module):
             x = x.unsqueeze(1)
 
         if x.dim() == 4:  # [N, C, H, W]
-            x = x.view(x.shape[0], self.config.num_channels, -1)
+            x = x.reshape(x.shape[0], self.config.num_channels, -1)
 
         assert x.dim() == 3
         assert (
@@ -677,14 +677,14 @@ class Einet(nn.Module):
                 # First make a copy such that the original object is not changed
                 evidence = evidence.clone().float()
                 shape_evidence = evidence.shape
-                evidence = evidence.view_as(samples)
+                evidence = evidence.reshape(samples.shape)
                 if marginalized_scopes is None:
                     mask = torch.isnan(evidence)
                     evidence[mask] = samples[mask].to(evidence.dtype)
                 else:
                     evidence[:, :, marginalized_scopes] = samples[:, :, marginalized_scopes].to(evidence.dtype)
 
-                evidence = evidence.view(shape_evidence)
+                evidence = evidence.reshape(shape_evidence)
                 return evidence
             else:
                 return samples
-- 
2.43.0


From fc592a92fa0400545b80bd18fadace93aa58524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 11/73] fix: float64 inputs with missing values, or to models
 with several repetitions, raised

---
 simple_einet/einet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index ae1e9f3..ca7d9b8 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -146,6 +146,9 @@ class Einet(nn.Module):
             x.shape[2] == self.config.num_features
         ), f"Number of features in input ({x.shape[0]}) does not match number of features specified in config ({self.config.num_features})."
 
+        # Evaluate in the precision of the model (e.g. if the input is a float64 tensor)
+        x = x.to(next(self.parameters()).dtype)
+
         # Apply leaf distributions (replace marginalization indicators with 0.0 first)
         # If cache_index is set, try to retrieve the cached leaf log-likelihoods
         if cache_index is not None and cache_index in self._leaf_cache:
-- 
2.43.0


From 9ccfd0b08bb1cfcab4f75b0bb60ec4538b211919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 12/73] fix: mode of a binomial leaf with success probability
 one was total_count + 1

---
 simple_einet/layers/distributions/abstract_leaf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 6b1edc4..c34bd28 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -77,7 +77,8 @@ def dist_mode(distribution: dist.Distribution, ctx: SamplingContext = None) -> t
     elif isinstance(distribution, dist.Binomial) or isinstance(distribution, DifferentiableBinomial):
         mode = distribution.probs.clone()
         total_count = distribution.total_count
-        mode = torch.floor(mode * (total_count + 1))
+        # For a success probability of (numerically) one, floor(p * (n + 1)) would be n + 1
+        mode = torch.floor(mode * (total_count + 1)).clamp(max=total_count)
         if mode.shape[0] == 1:
             return mode.repeat(ctx.num_samples, 1, 1, 1, 1)
         else:
-- 
2.43.0


From 0097ea9f5fe5bc8e3d548e80e378fdbc233f8015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 13/73] fix: a failing evidence query left input caches enabled
 and the seeded random state in place

---
 simple_einet/conv_pc.py        | 37 +++++++++++++++++-----------------
 simple_einet/sampling_utils.py | 37 +++++++++++++++++-----------------
 2 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 6ce7473..d56b11b 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -115,29 +115,30 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in model.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = model.log_likelihood(x=evidence)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
+    try:
+        # Run forward pass in given context
+        with context():
+            if evidence is not None:
+                # Enter
+                for module in model.modules():
+                    if hasattr(module, "_enable_input_cache"):
+                        module._enable_input_cache()
+
+                _ = model.log_likelihood(x=evidence)
+
+            # Run in context (nothing needs to be yielded)
+            yield
+    finally:
+        # Exit (also if the forward pass or the body of the context raised an exception)
         if evidence is not None:
             for module in model.modules():
                 if hasattr(module, "_enable_input_cache"):
                     module._disable_input_cache()
 
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 class SumConv(nn.Module):
diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 852731e..f8c843a 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -45,29 +45,30 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in spn.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = spn(evidence, marginalized_scopes)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
+    try:
+        # Run forward pass in given context
+        with context():
+            if evidence is not None:
+                # Enter
+                for module in spn.modules():
+                    if hasattr(module, "_enable_input_cache"):
+                        module._enable_input_cache()
+
+                _ = spn(evidence, marginalized_scopes)
+
+            # Run in context (nothing needs to be yielded)
+            yield
+    finally:
+        # Exit (also if the forward pass or the body of the context raised an exception)
         if evidence is not None:
             for module in spn.modules():
                 if hasattr(module, "_enable_input_cache"):
                     module._disable_input_cache()
 
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 @dataclass
-- 
2.43.0


From 043cbec8713a087bcb11772bafec13dcaa46eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 14/73] fix: dropout in sum and linsum layers raised or removed
 all children of a region

---
 simple_einet/layers/linsum.py | 8 ++++----
 simple_einet/layers/sum.py    | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index ecd47ac..e971856 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -90,11 +90,11 @@ class LinsumLayer(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+            invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
             while invalid_index.any():
                 # Resample only invalid indices
                 dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+                invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
             dropout_indices = torch.log(1 - dropout_indices)
             prod_output = prod_output + dropout_indices
 
@@ -290,11 +290,11 @@ class LinsumLayer2(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+            invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
             while invalid_index.any():
                 # Resample only invalid indices
                 dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+                invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
             dropout_indices = torch.log(1 - dropout_indices)
             prod_output = prod_output + dropout_indices
 
diff --git a/simple_einet/layers/sum.py b/simple_einet/layers/sum.py
index 4080716..417dcdb 100644
--- a/simple_einet/layers/sum.py
+++ b/simple_einet/layers/sum.py
@@ -68,11 +68,11 @@ class SumLayer(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(x.shape)
-            invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
+            invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
             while invalid_index.any():
                 # Resample only invalid indices
                 dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
+                invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
             dropout_indices = torch.log(1 - dropout_indices)
             x = x + dropout_indices
 
-- 
2.43.0


From 10152cb0497f31eb017b8b8cfaf89c8df07cf836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 15/73] fix: dropout was ignored by einsum layers and applied
 to the outputs of linsum2 layers

---
 simple_einet/layers/einsum.py | 11 +++++++++--
 simple_einet/layers/linsum.py | 22 +++++++++++-----------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index 6c732b0..1b90c63 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -64,6 +64,7 @@ class EinsumLayer(AbstractSumLayer):
             num_repetitions=num_repetitions,
             num_sums_in=num_sums_in,
             num_sums_out=num_sums_out,
+            dropout=dropout,
         )
 
         # Create index map from flattened to coordinates (only needed in sampling)
@@ -115,8 +116,14 @@ class EinsumLayer(AbstractSumLayer):
 
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(x.shape).bool()
-            x[dropout_indices] = np.NINF
+            dropout_indices = self._bernoulli_dist.sample(x.shape)
+            invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
+            while invalid_index.any():
+                # Resample only invalid indices
+                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
+                invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
+            dropout_indices = torch.log(1 - dropout_indices)
+            x = x + dropout_indices
 
         # Dimensions
         N, D, C, R = x.size()
diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index e971856..1996a35 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -272,6 +272,17 @@ class LinsumLayer2(AbstractSumLayer):
         if self._is_input_cache_enabled:
             self._input_cache["x"] = x
 
+        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
+        if self.dropout > 0.0 and self.training:
+            dropout_indices = self._bernoulli_dist.sample(x.shape)
+            invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
+            while invalid_index.any():
+                # Resample only invalid indices
+                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
+                invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
+            dropout_indices = torch.log(1 - dropout_indices)
+            x = x + dropout_indices
+
         # Get log weights
         log_weights = logits_to_log_weights(self.logits, dim=1).unsqueeze(0)
         x = x.unsqueeze(3)
@@ -287,17 +298,6 @@ class LinsumLayer2(AbstractSumLayer):
 
         prod_output = left + right  # N x D/2 x Sout x 1 x R
 
-        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
-        if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
-            while invalid_index.any():
-                # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = (dropout_indices.sum(2, keepdim=True) == dropout_indices.shape[2]).expand_as(dropout_indices)
-            dropout_indices = torch.log(1 - dropout_indices)
-            prod_output = prod_output + dropout_indices
-
         return prod_output
 
     def _sample_from_weights(self, ctx, log_weights):
-- 
2.43.0


From 64da0022dfe62aabefab23b2c96f1ab1699d9d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 16/73] fix: preprocessing for binomial leaves scaled the
 caller's batch in place

---
 models_pl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models_pl.py b/models_pl.py
index 57fcfeb..528209c 100644
--- a/models_pl.py
+++ b/models_pl.py
@@ -120,7 +120,7 @@ class LitModel(pl.LightningModule, ABC):
     def preprocess(self, data: torch.Tensor):
         """Preprocess data before passing it to the model."""
         if self.cfg.dist == Dist.BINOMIAL:
-            data *= 255.0
+            data = data * 255.0
 
         return data
 
-- 
2.43.0


From 8987b5f374f2f6dde5223ea17724030edf67b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 17/73] fix: convolutional circuits with a single leaf channel
 raised (leaf dimension squeezed away)

---
 simple_einet/conv_pc.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index d56b11b..3533bb2 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -639,9 +639,6 @@ class ConvPc(nn.Module):
         # Factorize data input channels
         x = x.sum(1)
 
-        # Remove empty repetition dimension (artifact from Einet implementation)
-        x = x.squeeze(-1)
-
         # Permute from (N, H, W, C) to (N, C, H, W)
         x = x.permute(0, 3, 1, 2)
 
-- 
2.43.0


From 79b458197f92baf9dc4a65998f962dec2c5986e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 18/73] fix: sampling a convolutional circuit with evidence
 called a method that does not exist

---
 simple_einet/conv_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 3533bb2..c978f0c 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -124,7 +124,7 @@ def sampling_context(
                     if hasattr(module, "_enable_input_cache"):
                         module._enable_input_cache()
 
-                _ = model.log_likelihood(x=evidence)
+                _ = model(evidence)
 
             # Run in context (nothing needs to be yielded)
             yield
-- 
2.43.0


From ff5632e38c09dc23efffdee15c39ac4b62077631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 19/73] fix: SumConv normalised the selected weights over
 pixels instead of input channels when sampling

---
 simple_einet/conv_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index c978f0c..272935e 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -263,7 +263,7 @@ class SumConv(nn.Module):
         logits = logits.permute(0, 1, 2, 4, 3, 5)  # 0 1 2 4 3 5 -> 0 1 2 3 4 5
         logits = logits.contiguous().view(N, Ci, H, W)
 
-        log_weights = logits_to_log_weights(logits, dim=2, temperature=ctx.temperature_sums)
+        log_weights = logits_to_log_weights(logits, dim=1, temperature=ctx.temperature_sums)
         return log_weights
         log_weights_2 = log_weights
 
-- 
2.43.0


From 2b9be9f231cf12f0a621fdf2b642088cd4c63f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 20/73] fix: convolutional circuits raised on float64 and on
 non-contiguous inputs and evidence

---
 simple_einet/conv_pc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 272935e..1cc5955 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -630,7 +630,11 @@ class ConvPc(nn.Module):
         return next(self.parameters()).device
 
     def _forward_leaf_data(self, x):
-        x = x.view(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
+        x = x.reshape(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
+
+        # Evaluate in the precision of the model (e.g. if the input is a float64 tensor)
+        x = x.to(next(self.parameters()).dtype)
+
         x = self.leaf_data(x, marginalized_scopes=None)
         x = x.view(
             x.size(0), self.data_shape.channels, self.data_shape.height, self.data_shape.width, self.config.channels[0]
@@ -723,10 +727,10 @@ class ConvPc(nn.Module):
             # First make a copy such that the original object is not changed
             evidence = evidence.clone().float()
             shape_evidence = evidence.shape
-            evidence = evidence.view_as(samples)
+            evidence = evidence.reshape(samples.shape)
             mask = torch.isnan(evidence)
             evidence[mask] = samples[mask].to(evidence.dtype)
-            evidence = evidence.view(shape_evidence)
+            evidence = evidence.reshape(shape_evidence)
 
             return evidence
         else:
-- 
2.43.0


From d5a961a37a72d4a3b5870c4d19de42456d8f1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 21/73] fix: convolutional circuits ignored marginalized_scopes
 when sampling with evidence

---
 simple_einet/conv_pc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 1cc5955..09ece3d 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -676,6 +676,13 @@ class ConvPc(nn.Module):
         if num_samples is None and evidence is not None:
             num_samples = evidence.size(0)
 
+        if evidence is not None and marginalized_scopes is not None:
+            # Marginalized scopes are missing pixels
+            shape_evidence = evidence.shape
+            evidence = evidence.float().reshape(num_samples, self.data_shape.channels, -1).clone()
+            evidence[:, :, marginalized_scopes] = torch.nan
+            evidence = evidence.reshape(shape_evidence)
+
         ctx = SamplingContext(
             num_samples=num_samples,
             mpe_at_leaves=mpe_at_leaves,
-- 
2.43.0


From bf5ac6133e6ddd3a282e60bc8699b6ac16bcec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 22/73] fix: mixture weights of trailing empty clusters were
 dropped at initialisation, non-contiguous data raised

---
 simple_einet/mixture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index b8bab3a..4bdaa8e 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -56,8 +56,8 @@ class Mixture(nn.Module):
             data = torch.cat(l, dim=0).to(device)
 
         data = data.float()  # input has to be [n, d]
-        predictions = self._kmeans.fit_predict(data.view(data.shape[0], -1))
-        counts = torch.bincount(predictions)
+        predictions = self._kmeans.fit_predict(data.reshape(data.shape[0], -1))
+        counts = torch.bincount(predictions, minlength=self.n_components)
         self.mixture_weights.data = counts / counts.sum()
 
         self.centroids.data = self._kmeans.centroids
-- 
2.43.0


From fd03b9e32def2b73e893a3b9ae6112655cd1eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 23/73] fix: mixtures ignored the channels of multi-channel
 data in centroids and marginalized scopes

---
 simple_einet/mixture.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 4bdaa8e..64981f1 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -26,10 +26,12 @@ class Mixture(nn.Module):
         for _ in range(n_components):
             if isinstance(config, EinetConfig):
                 model = Einet(config)
-                self.num_features = config.num_features
+                self.num_features = config.num_features * config.num_channels
+                self.num_channels = config.num_channels
             elif isinstance(config, ConvPcConfig):
                 assert data_shape is not None, "data_shape must not be None (required for ConvPc)"
                 self.num_features = data_shape.num_pixels * data_shape.channels
+                self.num_channels = data_shape.channels
                 model = ConvPc(config, data_shape)
             else:
                 raise ValueError(f"Unknown model config type: {type(config)}")
@@ -69,7 +71,9 @@ class Mixture(nn.Module):
     def _predict_cluster(self, x, marginalized_scopes: Optional[List[int]] = None):
         x = x.view(x.shape[0], -1)  # input needs to be [n, d]
         if marginalized_scopes is not None:
-            keep_idx = list(sorted([i for i in range(self.num_features) if i not in marginalized_scopes]))
+            # A scope is a feature/pixel index: it is removed in each of the (flattened, leading) channels
+            num_scopes = self.num_features // self.num_channels
+            keep_idx = [i for i in range(self.num_features) if i % num_scopes not in marginalized_scopes]
             centroids = self.centroids[:, keep_idx]
             x = x[:, keep_idx]
         else:
-- 
2.43.0


From ea536fa5d24196d52c8ef38f11b96c2ff5f55da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 24/73] fix: mixtures assigned rows with missing (NaN) or
 non-contiguous values to an arbitrary cluster or raised

---
 simple_einet/mixture.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 64981f1..a3566b8 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -69,7 +69,7 @@ class Mixture(nn.Module):
             self.centroids.data = self.centroids.data * self.config.leaf_kwargs["total_count"]
 
     def _predict_cluster(self, x, marginalized_scopes: Optional[List[int]] = None):
-        x = x.view(x.shape[0], -1)  # input needs to be [n, d]
+        x = x.reshape(x.shape[0], -1)  # input needs to be [n, d]
         if marginalized_scopes is not None:
             # A scope is a feature/pixel index: it is removed in each of the (flattened, leading) channels
             num_scopes = self.num_features // self.num_channels
@@ -78,6 +78,11 @@ class Mixture(nn.Module):
             x = x[:, keep_idx]
         else:
             centroids = self.centroids
+
+        if torch.isnan(x).any():
+            # Compare rows with missing values to the centroids on their observed entries only
+            return (x.float().unsqueeze(1) - centroids.unsqueeze(0)).square().nansum(-1).argmin(-1)
+
         return self._kmeans.max_sim(a=x.float(), b=centroids)[1]
 
     def _separate_data_by_cluster(self, x: torch.Tensor, marginalized_scope: List[int]):
-- 
2.43.0


From ffcd3ba7096faf6d632226f1ff899afbe227d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 25/73] fix: mixture likelihoods ignored the marginalized
 scopes in the components

---
 simple_einet/conv_pc.py | 8 ++++----
 simple_einet/mixture.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 09ece3d..a719e1c 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -629,13 +629,13 @@ class ConvPc(nn.Module):
         """Small hack to obtain the current device."""
         return next(self.parameters()).device
 
-    def _forward_leaf_data(self, x):
+    def _forward_leaf_data(self, x, marginalized_scopes: List[int] | None = None):
         x = x.reshape(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
 
         # Evaluate in the precision of the model (e.g. if the input is a float64 tensor)
         x = x.to(next(self.parameters()).dtype)
 
-        x = self.leaf_data(x, marginalized_scopes=None)
+        x = self.leaf_data(x, marginalized_scopes=marginalized_scopes)
         x = x.view(
             x.size(0), self.data_shape.channels, self.data_shape.height, self.data_shape.width, self.config.channels[0]
         )
@@ -648,9 +648,9 @@ class ConvPc(nn.Module):
 
         return x
 
-    def forward(self, x: torch.Tensor | None = None):
+    def forward(self, x: torch.Tensor | None = None, marginalized_scopes: List[int] | None = None):
         # Apply leaf distributions (replace marginalization indicators with 0.0 first)
-        x = self._forward_leaf_data(x)
+        x = self._forward_leaf_data(x, marginalized_scopes)
 
         for layer in self.layers:
             x = layer(x)
diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index a3566b8..e244a35 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -105,7 +105,7 @@ class Mixture(nn.Module):
         data_idxs_all = []
         for cluster_idx, data_list in separated_data.items():
             data_tensor = torch.stack(data_list, dim=0)
-            lls = self.models[cluster_idx](data_tensor)
+            lls = self.models[cluster_idx](data_tensor, marginalized_scope)
 
             data_idxs = separated_idxs[cluster_idx]
             for data_idx, ll in zip(data_idxs, lls):
-- 
2.43.0


From 00ed58965e8738615d9110bdcf935a5b4f97f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 26/73] fix: unconditional mixture samples ignored the seed and
 the drawn cluster order, MPE ignored num_samples

---
 simple_einet/mixture.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index e244a35..55f3653 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -148,26 +148,31 @@ class Mixture(nn.Module):
 
         if is_mpe:
             # Take cluster idx with largest weights
-            cluster_idxs = [self.mixture_weights.argmax().item()]
+            cluster_idxs = [self.mixture_weights.argmax().item()] * num_samples
         else:
             if num_samples_per_cluster is not None:
                 cluster_idxs = torch.arange(self.n_components).repeat_interleave(num_samples_per_cluster).tolist()
             else:
-                # Sample from categorical over weights
-                cluster_idxs = (
-                    torch.distributions.Categorical(probs=self.mixture_weights).sample((num_samples,)).tolist()
-                )
+                # Sample from categorical over weights (with an own generator if a seed is given: the components
+                # start their own random stream from the seed and the global random state is left alone)
+                generator = None
+                if seed is not None:
+                    generator = torch.Generator(device=self.mixture_weights.device).manual_seed(seed + 1)
+                cluster_idxs = torch.multinomial(
+                    self.mixture_weights, num_samples, replacement=True, generator=generator
+                ).tolist()
 
         if evidence is None:
             # Sample without evidence
-            separated_idxs = defaultdict(int)
-            for cluster_idx in cluster_idxs:
-                separated_idxs[cluster_idx] += 1
+            separated_idxs = defaultdict(list)
+            for sample_idx, cluster_idx in enumerate(cluster_idxs):
+                separated_idxs[cluster_idx].append(sample_idx)
 
             samples_all = []
-            for cluster_idx, num_samples_cluster in separated_idxs.items():
+            sample_idxs_all = []
+            for cluster_idx, sample_idxs in separated_idxs.items():
                 samples = self.models[cluster_idx].sample(
-                    num_samples_cluster,
+                    len(sample_idxs),
                     class_index=class_index,
                     evidence=evidence,
                     is_mpe=is_mpe,
@@ -178,14 +183,12 @@ class Mixture(nn.Module):
                     mpe_at_leaves=mpe_at_leaves,
                 )
                 samples_all.append(samples)
+                sample_idxs_all.extend(sample_idxs)
 
             samples = torch.cat(samples_all, dim=0)
 
-            # Sort results into original order as observed in the batch
-            L = [(cluster_idxs[i], i) for i in range(len(cluster_idxs))]
-            L.sort()
-            _, permutation = zip(*L)
-            permutation = torch.tensor(permutation, device=samples.device).view(-1)
+            # Sort results into the order in which the clusters were drawn
+            permutation = torch.tensor(sample_idxs_all, device=samples.device).argsort()
             samples_all = torch.cat(samples_all)
             samples_sorted = samples_all[permutation]
             samples = samples_sorted
-- 
2.43.0


From 3bb0f9fef60d81e6c2b555613431bbbca00387f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 27/73] fix: conditional mixture samples ignored seed and
 mpe_at_leaves

---
 simple_einet/mixture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 55f3653..d4ec026 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -207,6 +207,8 @@ class Mixture(nn.Module):
                     temperature_leaves=temperature_leaves,
                     temperature_sums=temperature_sums,
                     marginalized_scopes=marginalized_scopes,
+                    seed=seed,
+                    mpe_at_leaves=mpe_at_leaves,
                 )
 
                 evidence_idxs = separated_idxs[cluster_idx]
-- 
2.43.0


From f74cb1277d38eeb52702e9ffeb8948e0e6150c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 28/73] fix: check_valid ignored bounds of zero (e.g. negative
 depth or dropout were accepted)

---
 simple_einet/type_checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/type_checks.py b/simple_einet/type_checks.py
index 6394610..f98d10b 100644
--- a/simple_einet/type_checks.py
+++ b/simple_einet/type_checks.py
@@ -47,12 +47,12 @@ def _check_bounds(value: Any, expected_type, lower_bound=None, upper_bound=None)
         OutOfBoundsException: If the value is outside the specified bounds.
     """
     # Check lower bound
-    if lower_bound:
+    if lower_bound is not None:
         if not value >= expected_type(lower_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
     # Check upper bound
-    if upper_bound:
+    if upper_bound is not None:
         if not value < expected_type(upper_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
-- 
2.43.0


From 625b1f772212349dee9d2a8365752b579b141d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 29/73] fix: RatNormal ignored an upper mean bound of zero

---
 simple_einet/layers/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/normal.py b/simple_einet/layers/distributions/normal.py
index 5a8273b..759b16c 100644
--- a/simple_einet/layers/distributions/normal.py
+++ b/simple_einet/layers/distributions/normal.py
@@ -105,7 +105,7 @@ class RatNormal(AbstractLeaf):
         else:
             sigma = 1.0
         means = self.means
-        if self.max_mean:
+        if self.max_mean is not None:
             assert self.min_mean is not None
             mean_range = self.max_mean - self.min_mean
             means = torch.sigmoid(self.means) * mean_range + self.min_mean
-- 
2.43.0


From a7e176b9a117cf8c6c0685d4f75390e4a663dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 30/73] fix: check_valid compared bounds in the data type of a
 tensor (negative bounds wrapped around for unsigned tensors)

---
 simple_einet/type_checks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/type_checks.py b/simple_einet/type_checks.py
index f98d10b..bc63990 100644
--- a/simple_einet/type_checks.py
+++ b/simple_einet/type_checks.py
@@ -46,6 +46,9 @@ def _check_bounds(value: Any, expected_type, lower_bound=None, upper_bound=None)
     Raises:
         OutOfBoundsException: If the value is outside the specified bounds.
     """
+    # Compare as Python numbers (a tensor would convert the bounds to its own, possibly unsigned, data type)
+    value = expected_type(value)
+
     # Check lower bound
     if lower_bound is not None:
         if not value >= expected_type(lower_bound):
-- 
2.43.0


From 9da3e8a910b1b5459b10d5a058dff7e0c9693df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 31/73] fix: MultiDistributionLayer accepted scopes with
 duplicate and missing features

---
 simple_einet/layers/distributions/multidistribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/multidistribution.py b/simple_einet/layers/distributions/multidistribution.py
index 5eefab4..3feea2f 100644
--- a/simple_einet/layers/distributions/multidistribution.py
+++ b/simple_einet/layers/distributions/multidistribution.py
@@ -41,7 +41,9 @@ class MultiDistributionLayer(AbstractLeaf):
             for scope in scopes:
                 all_scopes.append(scope)
 
-        assert len(all_scopes) == num_features
+        assert sorted(all_scopes) == list(
+            range(num_features)
+        ), f"The scopes must contain each of the {num_features} features exactly once but were {all_scopes}."
         scope_list = []
         dists = []
         for scopes, dist_class, dist_kwargs in scopes_to_dist:
-- 
2.43.0


From e2df012a7900d64d454fa5774e43d37e7ce5cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 32/73] fix: exposed parameters of a MultiDistributionLayer
 with unsorted scopes were not in feature order

---
 simple_einet/layers/distributions/multidistribution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/multidistribution.py b/simple_einet/layers/distributions/multidistribution.py
index 3feea2f..8ba8075 100644
--- a/simple_einet/layers/distributions/multidistribution.py
+++ b/simple_einet/layers/distributions/multidistribution.py
@@ -141,4 +141,10 @@ class MultiDistributionLayer(AbstractLeaf):
                 new_shape = list(p.shape)
                 new_shape[-1] = max_num_params - p.shape[-1]
                 params[i] = torch.cat([p, torch.zeros(new_shape, device=p.device, dtype=p.dtype)], dim=-1)
-        return torch.cat(params, dim=2)
+        params = torch.cat(params, dim=2)
+
+        # If inversion is necessary, permute features to obtain the original order
+        if self.needs_inversion:
+            params = params[:, :, self.inverted_index]
+
+        return params
-- 
2.43.0


From 4819f0f25cefd0010de3aa3bd3170899c4968aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 33/73] fix: samples of discrete piecewise linear leaves were
 the index of the value instead of the value

---
 simple_einet/layers/distributions/piecewise_linear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index a7f54eb..2cd4230 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -319,7 +319,9 @@ class PiecewiseLinearDist:
                             # Sample from a categorical distribution
                             ys_i_wo_tails = ys_i[1:-1]  # Cut off the tail breaks
                             dist = torch.distributions.Categorical(probs=ys_i_wo_tails)
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = dist.sample(sample_shape)
+                            idxs = dist.sample(sample_shape)
+                            # Map from the index of the value to the value itself
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = xs_i[1:-1][idxs]
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Compute the CDF for this piecewise function
                             cdf = self._compute_cdf(xs_i, ys_i)
-- 
2.43.0


From a649e6651a326be0f5fe7fb74afccf73886b8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 34/73] fix: samples of continuous piecewise linear leaves were
 uniform within a segment instead of following the linear density

---
 simple_einet/layers/distributions/piecewise_linear.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 2cd4230..2e0f400 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -335,13 +335,17 @@ class PiecewiseLinearDist:
                             # Clamp indices to be within valid range
                             indices = torch.clamp(indices, 1, len(xs_i) - 1)
 
-                            # Perform linear interpolation to get the sample value
+                            # Invert the CDF in this segment: the density is linear, so that the CDF is quadratic
                             x0, x1 = xs_i[indices - 1], xs_i[indices]
+                            y0, y1 = ys_i[indices - 1], ys_i[indices]
                             cdf0, cdf1 = cdf[indices - 1], cdf[indices]
-                            slope = (x1 - x0) / (cdf1 - cdf0 + 1e-8)  # Avoid division by zero
+                            frac = (u - cdf0) / (cdf1 - cdf0).clamp(min=1e-12)  # Avoid division by zero
+                            frac = frac.clamp(0.0, 1.0)
+                            root = torch.sqrt(y0**2 + frac * (y1**2 - y0**2))
+                            t = frac * (y0 + y1) / (y0 + root).clamp(min=1e-12)
 
                             # Compute the sampled value
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = x0 + slope * (u - cdf0)
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = x0 + t * (x1 - x0)
                         else:
                             raise ValueError(f"Unknown data type: {self.domains[i_feature].data_type}")
 
-- 
2.43.0


From 0d8f63c08b62ffa91cbfa4ab824cd4d601881ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 35/73] fix: initialisation of piecewise linear leaves raised
 for empty trailing clusters and for non-contiguous data

---
 simple_einet/layers/distributions/piecewise_linear.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 2e0f400..cd4fde1 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -89,14 +89,15 @@ class PiecewiseLinear(AbstractLeaf):
 
             # Cluster data into num_leaves clusters
             kmeans = KMeans(n_clusters=self.num_leaves, mode="euclidean", verbose=0, init_method="random")
-            kmeans.fit(data.view(data.shape[0], -1).float())
+            data_flat = data.reshape(data.shape[0], -1).float()
+            kmeans.fit(data_flat)
 
-            predictions = kmeans.predict(data.view(data.shape[0], -1).float())
-            counts = torch.bincount(predictions)
+            predictions = kmeans.predict(data_flat)
+            counts = torch.bincount(predictions, minlength=self.num_leaves)
             self.mixture_weights[i_repetition] = counts / counts.sum()
 
             # Get cluster assigments for each datapoint
-            cluster_idxs = kmeans.max_sim(a=data.view(data.shape[0], -1).float(), b=kmeans.centroids)[1]
+            cluster_idxs = kmeans.max_sim(a=data_flat, b=kmeans.centroids)[1]
             for cluster_idx in range(self.num_leaves):
 
                 # Select data for this cluster
@@ -112,7 +113,7 @@ class PiecewiseLinear(AbstractLeaf):
                     for i_channel in range(self.num_channels):
 
                         # Select relevant data
-                        data_subset = cluster_data[:, i_channel, i_feature].view(cluster_data.shape[0], 1).float()
+                        data_subset = cluster_data[:, i_channel, i_feature].reshape(cluster_data.shape[0], 1).float()
 
                         # Construct histogram
                         if self.domains[i_feature].data_type == DataType.DISCRETE:
-- 
2.43.0


From 65a3fbc00dca194bb3715233fb615f8b9760f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 36/73] fix: continuous piecewise linear leaves of an empty
 cluster had NaN densities

---
 .../layers/distributions/piecewise_linear.py         | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index cd4fde1..1c260e9 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -136,10 +136,14 @@ class PiecewiseLinear(AbstractLeaf):
                             # Find histogram bins using numpys "auto" logic
                             bins, _ = _get_bin_edges_torch(data_subset)
 
-                            # Construct histogram
-                            densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
-                                data.device
-                            )
+                            if data_subset.shape[0] == 0:
+                                # If there is no data in this cluster, set the density to uniform
+                                densities = torch.ones(len(bins) - 1, device=data.device)
+                            else:
+                                # Construct histogram
+                                densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
+                                    data.device
+                                )
                             breaks = bins
                             mids = ((breaks + torch.roll(breaks, shifts=-1, dims=0)) / 2)[:-1]
                         else:
-- 
2.43.0


From 8536fc280247e9f5dc5cabddf4cbece69593fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 37/73] fix: discrete piecewise linear leaves were not
 normalised if values are not one unit apart

---
 .../layers/distributions/piecewise_linear.py      | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 1c260e9..94817a7 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -127,10 +127,9 @@ class PiecewiseLinear(AbstractLeaf):
                                 # If there is no data in this cluster, set the density to uniform
                                 densities = torch.ones(len(mids), device=data.device) / len(mids)
                             else:
-                                # Compute counts
-                                densities = torch.histogram(data_subset.cpu(), bins=breaks.cpu(), density=True).hist.to(
-                                    data.device
-                                )
+                                # Compute relative counts
+                                densities = torch.histogram(data_subset.cpu(), bins=breaks.cpu()).hist.to(data.device)
+                                densities = densities / densities.sum()
 
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Find histogram bins using numpys "auto" logic
@@ -184,8 +183,12 @@ class PiecewiseLinear(AbstractLeaf):
                         x = torch.tensor(x, device=data.device)  # , requires_grad=True)
                         y = torch.tensor(y, device=data.device)  # , requires_grad=True)
 
-                        # Compute AUC using the trapeziod rule
-                        auc = torch.trapezoid(x=x, y=y)
+                        if self.domains[i_feature].data_type == DataType.DISCRETE:
+                            # The values of a discrete domain are not necessarily one unit apart
+                            auc = y.sum()
+                        else:
+                            # Compute AUC using the trapeziod rule
+                            auc = torch.trapezoid(x=x, y=y)
 
                         # Normalize y to sum to 1 using AUC
                         y = y / auc
-- 
2.43.0


From c9a4c4aa690cda1e0113e1fc6327cdad35fead47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 38/73] fix: smoothing of continuous piecewise linear leaves
 depended on the unit of the data

---
 simple_einet/layers/distributions/piecewise_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 94817a7..8f5467b 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -153,6 +153,9 @@ class PiecewiseLinear(AbstractLeaf):
                             n_samples = data_subset.shape[0]
                             n_bins = len(breaks) - 1
                             counts = densities * n_samples
+                            if self.domains[i_feature].data_type == DataType.CONTINUOUS:
+                                # Densities of a continuous domain are relative to the width of the bins
+                                counts = counts * torch.diff(breaks)
                             densities = (counts + self.alpha) / (n_samples + n_bins * self.alpha)
 
                         assert len(densities) + 1 == len(breaks)
-- 
2.43.0


From 7910d9143b20e94a2ef49c6bfe2de6b09b230c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 39/73] fix: double-precision convolutional circuits raised
 (product kernel in single precision)

---
 simple_einet/conv_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index a719e1c..e400ffa 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -403,7 +403,7 @@ class ProdConv(nn.Module):
         assert W % Kw == 0, f"Input width must be divisible by kernel size. Width was {W} and kernel size was {Kw}"
 
         # Construct a kernel with ones as weights
-        ones = torch.ones(C, 1, Kh, Kw, device=x.device)
+        ones = torch.ones(C, 1, Kh, Kw, device=x.device, dtype=x.dtype)
 
         # Apply the kernel to the input
         x = F.conv2d(x, ones, groups=C, stride=(Kh, Kw), padding=0, bias=None)
-- 
2.43.0


From 6e9ecd744cbedf77af9aab2221b5ba88fea59c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 40/73] fix: categorical leaves derived from a configuration
 lacked the highest pixel value

---
 simple_einet/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/dist.py b/simple_einet/dist.py
index 9181db8..66b2bb5 100644
--- a/simple_einet/dist.py
+++ b/simple_einet/dist.py
@@ -92,7 +92,7 @@ def get_distribution(dist: Dist, cfg):
         leaf_kwargs = {"total_count": 2**cfg.n_bits - 1}
     elif dist == Dist.CATEGORICAL:
         leaf_type = Categorical
-        leaf_kwargs = {"num_bins": 2**cfg.n_bits - 1}
+        leaf_kwargs = {"num_bins": 2**cfg.n_bits}
     elif dist == Dist.MULTIVARIATE_NORMAL:
         leaf_type = MultivariateNormal
         leaf_kwargs = {"cardinality": cfg.multivariate_cardinality}
-- 
2.43.0


From 92a5080d30237f05af5eaae17d50ab980d43e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 41/73] fix: data statistics of the leaf initialisation
 weighted batches of different size equally, ignored the variance between
 batches and were NaN for a batch of one

---
 simple_einet/sampling_utils.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index f8c843a..ffd5af6 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -306,22 +306,23 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
 
     Returns: None
     """
-    stats_mean = None
-    stats_var = None
+    count = 0
+    stats_mean = 0.0
+    stats_sq = 0.0  # Sum of squared deviations from the mean
 
-    # Compute mean and std
+    # Compute mean and variance over all batches (of possibly different sizes)
     for batch in tqdm(dataloader, desc="Leaf Parameter Initialization"):
         data, label = batch
-        if stats_mean == None:
-            stats_mean = data.mean(dim=0)
-            stats_var = data.var(dim=0)
-        else:
-            stats_mean += data.mean(dim=0)
-            stats_var += data.var(dim=0)
+        data = data.double()
+        n = data.shape[0]
+        delta = data.mean(dim=0) - stats_mean
+        stats_sq = stats_sq + ((data - data.mean(dim=0)) ** 2).sum(dim=0) + delta**2 * count * n / (count + n)
+        stats_mean = stats_mean + delta * n / (count + n)
+        count += n
 
     # Normalize
-    stats_mean /= len(dataloader)
-    stats_var /= len(dataloader)
+    stats_var = (stats_sq / max(count - 1, 1)).float()
+    stats_mean = stats_mean.float()
 
     from simple_einet.layers.distributions.normal import Normal
     from simple_einet.einet import Einet
-- 
2.43.0


From 6d74e7dcb52d29aacc7e5edd6d6b60f965c3630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 42/73] fix: leaf initialisation from data raised for bottom-up
 structures

---
 simple_einet/sampling_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index ffd5af6..3eed510 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -337,25 +337,28 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
         else:
             raise ValueError(f"Invalid einet type: {type(einet)} -- must be Einet or EinetMixture.")
 
+        # The leaf layer is not factorized in bottom-up structures
+        leaves = [getattr(net.leaf, "base_leaf", net.leaf) for net in einets]
+
         # Reshape to match leaf parameters
         stats_mean_v = (
             stats_mean.view(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
-            .view_as(einets[0].leaf.base_leaf.means)
+            .view_as(leaves[0].means)
         )
         stats_var_v = (
             stats_var.view(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
-            .view_as(einets[0].leaf.base_leaf.logvar)
+            .view_as(leaves[0].logvar)
         )
 
         # Set leaf parameters
-        for net in einets:
+        for leaf in leaves:
             # Add noise to ensure that values are not completely equal along repetitions and einets
-            net.leaf.base_leaf.means.data = stats_mean_v + 0.1 * torch.normal(
+            leaf.means.data = stats_mean_v + 0.1 * torch.normal(
                 torch.zeros_like(stats_mean_v), torch.std(stats_mean_v)
             )
-            net.leaf.base_leaf.logvar.data = torch.log(
+            leaf.logvar.data = torch.log(
                 stats_var_v
                 + 1e-3
                 + torch.clamp(0.1 * torch.normal(torch.zeros_like(stats_var_v), torch.std(stats_var_v)), min=0.0)
-- 
2.43.0


From b7ba9a3785c91a7feea376afdce9302b7a1cfc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 43/73] fix: leaf initialisation from non-contiguous (e.g.
 channels-last) data raised

---
 simple_einet/sampling_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 3eed510..89a9859 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -342,12 +342,12 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
 
         # Reshape to match leaf parameters
         stats_mean_v = (
-            stats_mean.view(-1, 1, 1)
+            stats_mean.reshape(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
             .view_as(leaves[0].means)
         )
         stats_var_v = (
-            stats_var.view(-1, 1, 1)
+            stats_var.reshape(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
             .view_as(leaves[0].logvar)
         )
-- 
2.43.0


From ad5ad9b3c8b8b29a81e6d53f34b9ec8afdc9854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 44/73] fix: number of classes of the digits data set was
 unknown (KeyError)

---
 simple_einet/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index eac31dd..32ecf1e 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -153,6 +153,7 @@ def get_data_num_classes(dataset_name: str) -> int:
         "covtype": 7,
         "breast_cancer": 2,
         "wine": 3,
+        "digits": 10,
     }[dataset_name]
 
 
-- 
2.43.0


From 10e5411e5309b495ad6519074ad3a1c08170cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 45/73] fix: data set fmnist-16 has metadata but could not be
 loaded

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 32ecf1e..a6a02f5 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -493,7 +493,7 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         dataset_val = torch.utils.data.TensorDataset(torch.tensor(X_val), torch.tensor(y_val))
         dataset_test = torch.utils.data.TensorDataset(torch.tensor(X_test), torch.tensor(y_test))
 
-    elif dataset_name == "fmnist" or dataset_name == "fmnist-32":
+    elif dataset_name == "fmnist" or dataset_name == "fmnist-32" or dataset_name == "fmnist-16":
         if normalize:
             transform.transforms.append(transforms.Normalize([0.5], [0.5]))
 
-- 
2.43.0


From f5bf8a9776bcb55bc078023b697f327358c5b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 46/73] fix: synthetic circles were drawn from the global
 random state (different data on every call)

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index a6a02f5..beb1257 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -205,7 +205,7 @@ def generate_data(dataset_name: str, n_samples: int = 1000) -> Tuple[torch.Tenso
         data, y = datasets.make_moons(n_samples=n_samples, noise=0.1, random_state=0)
 
     elif tag == "circles":
-        data, y = datasets.make_circles(n_samples=n_samples, factor=0.5, noise=0.05)
+        data, y = datasets.make_circles(n_samples=n_samples, factor=0.5, noise=0.05, random_state=0)
 
     elif tag == "aniso":
         # Anisotropicly distributed data
-- 
2.43.0


From 4f2dc274fc46fd16e0722806715a968929c67da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 47/73] fix: projection of the 20newsgroup data depended on the
 global random state (different data on every call)

---
 simple_einet/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index beb1257..47dad40 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -631,6 +631,7 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         # Do dimensionality reduction with PCA
         pca = PCA(
             n_components=50,
+            random_state=42,
         )
         logger.info("Running PCA with 50 components on 20newsgroup dataset")
         t0 = time.time()
-- 
2.43.0


From 92a252fbd546775e1cf36ac3062ceb9a2fd02a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 48/73] fix: number of classes of synthetic data sets with more
 than two clusters

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 47dad40..1b20735 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -124,7 +124,7 @@ def get_data_num_classes(dataset_name: str) -> int:
         int: Number of classes.
     """
     if "synth" in dataset_name:
-        return 2
+        return {"3-clusters": 3, "9-clusters": 9, "aniso": 3, "varied": 3}.get(dataset_name.replace("synth-", ""), 2)
 
     if dataset_name in DEBD:
         return 0
-- 
2.43.0


From 6457d73aac0a43fbab992c227359d13af99a3546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 49/73] fix: synthetic data has two features, not two channels
 of one feature

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 1b20735..b5762e0 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -78,7 +78,7 @@ def get_data_shape(dataset_name: str) -> Shape:
         Tuple[int, int, int]: Tuple of [channels, height, width].
     """
     if "synth" in dataset_name:
-        return Shape(2, 1, 1)
+        return Shape(1, 2, 1)
 
     if dataset_name in DEBD:
         shape = DEBD_shapes[dataset_name]["train"]
-- 
2.43.0


From 8e87eaa359b13aa6b3bd4aec591def7c49921ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 50/73] fix: validation and test parts of synthetic data sets
 were identical and overlapped the training part

---
 simple_einet/data.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index b5762e0..5c3e9b2 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -385,17 +385,17 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
 
     # Select the datasets
     if "synth" in dataset_name:
+        # Generate all data at once, such that train, val and test are disjoint
+        X, labels = generate_data(dataset_name, n_samples=5000)
+
         # Train
-        X, labels = generate_data(dataset_name, n_samples=3000)
-        dataset_train = torch.utils.data.TensorDataset(X, labels)
+        dataset_train = torch.utils.data.TensorDataset(X[:3000], labels[:3000])
 
         # Val
-        X, labels = generate_data(dataset_name, n_samples=1000)
-        dataset_val = torch.utils.data.TensorDataset(X, labels)
+        dataset_val = torch.utils.data.TensorDataset(X[3000:4000], labels[3000:4000])
 
         # Test
-        X, labels = generate_data(dataset_name, n_samples=1000)
-        dataset_test = torch.utils.data.TensorDataset(X, labels)
+        dataset_test = torch.utils.data.TensorDataset(X[4000:], labels[4000:])
 
     elif dataset_name == "mnist" or dataset_name == "mnist-32" or dataset_name == "mnist-16":
         if normalize:
-- 
2.43.0


From bd5a7eae0f9b1054145010a1fd9caf63e3f59eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 51/73] fix: synth-varied raised with scikit-learn 1.3
 (center_box must be a tuple)

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 5c3e9b2..2c23254 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -225,7 +225,7 @@ def generate_data(dataset_name: str, n_samples: int = 1000) -> Tuple[torch.Tenso
             n_samples=n_samples,
             cluster_std=[0.5, 0.1, 0.3],
             random_state=0,
-            center_box=[-2, 2],
+            center_box=(-2, 2),
         )
     else:
         raise ValueError(f"Invalid synthetic dataset name: {tag}.")
-- 
2.43.0


From f3ba815877aadf7e0b2dba0c0cab446ee882af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 52/73] fix: linsum2 layers with an odd number of features
 dropped the choice of the last feature when sampling

---
 simple_einet/layers/linsum.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index 1996a35..0cd2362 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -317,11 +317,6 @@ class LinsumLayer2(AbstractSumLayer):
 
             indices = indices.view(ctx.num_samples, -1)
 
-
-        if self._pad > 0:
-            # Cut off dummy marginalized RVs
-            indices = indices[:, : -self._pad]
-
         return indices
 
     def _condition_weights_on_evidence(self, ctx, log_weights):
-- 
2.43.0


From ac6ae548726178131e1d69d49f5e481caec00ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 53/73] fix: mixing layers over several features could not be
 conditioned on evidence

---
 simple_einet/layers/mixing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/mixing.py b/simple_einet/layers/mixing.py
index ac244a2..32346a4 100644
--- a/simple_einet/layers/mixing.py
+++ b/simple_einet/layers/mixing.py
@@ -83,11 +83,11 @@ class MixingLayer(AbstractSumLayer):
 
         # Index lls at correct repetitions
         if ctx.is_differentiable:
-            p_idxs = ctx.indices_out.view(ctx.num_samples, 1, self.num_sums_out, 1)
+            p_idxs = ctx.indices_out.view(ctx.num_samples, self.num_features, self.num_sums_out, 1)
             lls = index_one_hot(lls, index=p_idxs, dim=2)
         else:
             p_idxs = ctx.indices_out[..., None, None]
-            p_idxs = p_idxs.expand(-1, 1, 1, self.num_sums_in)
+            p_idxs = p_idxs.expand(-1, -1, 1, self.num_sums_in)
             lls = lls.gather(dim=2, index=p_idxs).squeeze(2)
 
         log_prior = log_weights
-- 
2.43.0


From 64e6683fc8b851ab4af0e22c1352cddffe91eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 54/73] fix: product and cross-product layers could not be
 sampled (the context has no is_root)

---
 simple_einet/layers/product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/product.py b/simple_einet/layers/product.py
index 24d127b..4d74430 100644
--- a/simple_einet/layers/product.py
+++ b/simple_einet/layers/product.py
@@ -114,7 +114,7 @@ class ProductLayer(AbstractLayer):
         """
 
         # If this is a root node
-        if ctx.is_root:
+        if ctx.indices_out is None:
             if self.num_repetitions == 1:
                 # If there is only a single repetition, create new sampling context
                 ctx.indices_out = torch.zeros(ctx.num_samples, 1, dtype=int, device=self._device)
@@ -259,7 +259,7 @@ class CrossProductLayer(AbstractLayer):
         """
 
         # If this is a root node
-        if ctx.is_root:
+        if ctx.indices_out is None:
             if self.num_repetitions == 1:
                 # If there is only a single repetition, create new sampling context
                 ctx.indices_out = torch.zeros(ctx.num_samples, 1, dtype=int, device=self._device)
-- 
2.43.0


From 814f9b78ce31976e34efd6ebc03aae6f4d207849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 55/73] fix: cross-product layers with an odd number of
 features raised (no padding)

---
 simple_einet/layers/product.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/simple_einet/layers/product.py b/simple_einet/layers/product.py
index 4d74430..a5b0a47 100644
--- a/simple_einet/layers/product.py
+++ b/simple_einet/layers/product.py
@@ -174,7 +174,8 @@ class CrossProductLayer(AbstractLayer):
         cardinality = 2  # Fixed to binary graphs for now
         self.cardinality = check_valid(cardinality, int, 2, in_features + 1)
         self._out_features = np.ceil(self.num_features / self.cardinality).astype(int)
-        self._pad = 0
+        # Number of marginalized nodes which have to be padded if in_features is odd
+        self._pad = self._out_features * self.cardinality - self.num_features
 
         # Collect scopes for each product child
         self._scopes = [[] for _ in range(self.cardinality)]
@@ -219,12 +220,8 @@ class CrossProductLayer(AbstractLayer):
         Returns:
             torch.Tensor: Output of shape [batch, ceil(in_features/2), channel * channel].
         """
-        # Check if padding to next power of 2 is necessary
-        if self.num_features != x.shape[1]:
-            # Compute necessary padding to the next power of 2
-            self._pad = 2 ** np.ceil(np.log2(x.shape[1])).astype(np.int) - x.shape[1]
-
-            # Pad marginalized node
+        # Pad marginalized nodes on the right if in_features is odd
+        if self._pad > 0:
             x = F.pad(x, pad=[0, 0, 0, 0, 0, self._pad], mode="constant", value=0.0)
 
         # Dimensions
-- 
2.43.0


From d96a6377dd1a39a2f8cafa930cf23ccf34758213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 56/73] fix: mixtures could not be sampled with one class per
 sample

---
 simple_einet/mixture.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index d4ec026..225b486 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -171,9 +171,14 @@ class Mixture(nn.Module):
             samples_all = []
             sample_idxs_all = []
             for cluster_idx, sample_idxs in separated_idxs.items():
+                # Select the classes of the samples of this cluster if one class per sample is given
+                class_index_cluster = class_index
+                if isinstance(class_index, list):
+                    class_index_cluster = [class_index[i] for i in sample_idxs]
+
                 samples = self.models[cluster_idx].sample(
                     len(sample_idxs),
-                    class_index=class_index,
+                    class_index=class_index_cluster,
                     evidence=evidence,
                     is_mpe=is_mpe,
                     temperature_leaves=temperature_leaves,
-- 
2.43.0


From 4fa4dcb8c7321f908056636d97c6d7c33abf82b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 57/73] fix: main.py trained classifiers on unnormalised class
 likelihoods (the posterior was computed and discarded)

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 42598c0..4db28b7 100644
--- a/main.py
+++ b/main.py
@@ -64,7 +64,7 @@ def train(args, model: Union[Einet, Mixture], device, train_loader, optimizer, e
         outputs = model(data)
 
         if args.classification:
-            model.posterior(data)
+            outputs = model.posterior(data)
             loss = F.nll_loss(outputs, target, reduction="mean")
         else:
             loss = log_likelihoods(outputs).mean()
-- 
2.43.0


From 77974ab3364e51d0b165ca09310a09fee6e13fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 58/73] fix: main.py evaluation raised if the last batch had a
 single row

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 4db28b7..77189b5 100644
--- a/main.py
+++ b/main.py
@@ -120,7 +120,7 @@ def test(model, device, loader, tag):
 
             lls = log_likelihoods(outputs)
             test_loss += -1 * lls.sum()
-            test_losses += lls.squeeze().cpu().tolist()
+            test_losses += lls.view(-1).cpu().tolist()
 
             if args.classification:
                 _, predicted = outputs.max(1)
-- 
2.43.0


From 79e081535cbba8a8f72d600b6b9bc041a92f9226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 59/73] fix: main.py raised for bottom-up structures (leaf
 layer has no base_leaf)

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 77189b5..7a7f2d9 100644
--- a/main.py
+++ b/main.py
@@ -193,7 +193,7 @@ if __name__ == "__main__":
         sum(p.numel() for p in model.parameters() if p.requires_grad),
     )
 
-    has_gauss_dist = type(model.leaf.base_leaf) in (Normal, RatNormal)
+    has_gauss_dist = leaf_type in (Normal, RatNormal)
 
     # Optimize Einet parameters (weights and leaf params)
     optimizer = torch.optim.Adam(model.parameters(), lr=args.lr)
-- 
2.43.0


From 6939ae662caeb89deb0ae54a88eb13b049635f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 60/73] fix: main.py raised with recent torch versions (StepLR
 has no verbose argument)

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 7a7f2d9..122e4fd 100644
--- a/main.py
+++ b/main.py
@@ -197,7 +197,7 @@ if __name__ == "__main__":
 
     # Optimize Einet parameters (weights and leaf params)
     optimizer = torch.optim.Adam(model.parameters(), lr=args.lr)
-    lr_scheduler = torch.optim.lr_scheduler.StepLR(optimizer, step_size=2, gamma=1e-1, verbose=True)
+    lr_scheduler = torch.optim.lr_scheduler.StepLR(optimizer, step_size=2, gamma=1e-1)
 
     model, optimizer = fabric.setup(model, optimizer)
 
-- 
2.43.0


From 68d905279a1642d5ef5dbf975b09575339f9fbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 61/73] fix: main_pl.py could not initialise mixtures without a
 GPU

---
 main_pl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_pl.py b/main_pl.py
index b6b687f..4ea3ac4 100644
--- a/main_pl.py
+++ b/main_pl.py
@@ -119,7 +119,7 @@ def main(cfg: DictConfig):
         if cfg.mixture:
             # If we chose a mixture of einets, we need to initialize the mixture weights
             logger.info("Initializing Einet mixture weights")
-            model.spn.initialize(dataloader=train_loader, device=devices[0])
+            model.spn.initialize(dataloader=train_loader, device=devices[0] if accelerator == "gpu" else "cpu")
 
         if cfg.init_leaf_data:
             logger.info("Initializing leaf distributions from data statistics")
-- 
2.43.0


From 663e0889d33576147d0a3e22c878ed074a872e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 62/73] fix: training wrappers fed 8-bit values to binomial
 leaves of any bit depth and unscaled pixels to categorical leaves

---
 models_pl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/models_pl.py b/models_pl.py
index 528209c..17eb320 100644
--- a/models_pl.py
+++ b/models_pl.py
@@ -15,6 +15,7 @@ from simple_einet.data import get_data_shape
 from simple_einet.dist import Dist, get_distribution
 from simple_einet.einet import EinetConfig, Einet
 from simple_einet.mixture import Mixture
+from simple_einet.utils import reduce_bits
 
 # Translate the dataloader index to the dataset name
 DATALOADER_ID_TO_SET_NAME = {0: "train", 1: "val", 2: "test"}
@@ -119,8 +120,8 @@ class LitModel(pl.LightningModule, ABC):
 
     def preprocess(self, data: torch.Tensor):
         """Preprocess data before passing it to the model."""
-        if self.cfg.dist == Dist.BINOMIAL:
-            data = data * 255.0
+        if self.cfg.dist in (Dist.BINOMIAL, Dist.CATEGORICAL):
+            data = reduce_bits(data, self.cfg.n_bits)
 
         return data
 
-- 
2.43.0


From cdd52ba644210cf53ea76e93d6c7b77e126e6d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 63/73] fix: main.py raised when reconstructing images with
 several channels (scopes are pixels, not pixels of channels)

---
 main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 122e4fd..334f223 100644
--- a/main.py
+++ b/main.py
@@ -306,8 +306,8 @@ if __name__ == "__main__":
                 ###################
                 # reconstructions #
                 ###################
-                image_scope = np.array(range(np.prod(list(data_shape)))).reshape(data_shape)
-                marginalized_scopes = list(image_scope[:, 0 : round(data_shape[-1] / 2), :].reshape(-1))
+                image_scope = np.array(range(num_features)).reshape(data_shape[1:])
+                marginalized_scopes = list(image_scope[0 : round(data_shape[-1] / 2), :].reshape(-1))
 
                 num_samples = 1
                 reconstructions = None
-- 
2.43.0


From 94ab12e97395cda91bbdaf3d04d27ecd0d0054a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 64/73] fix: observed values of double-precision evidence were
 rounded to single precision in samples

---
 simple_einet/conv_pc.py | 4 ++--
 simple_einet/einet.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index e400ffa..9c74ea8 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -679,7 +679,7 @@ class ConvPc(nn.Module):
         if evidence is not None and marginalized_scopes is not None:
             # Marginalized scopes are missing pixels
             shape_evidence = evidence.shape
-            evidence = evidence.float().reshape(num_samples, self.data_shape.channels, -1).clone()
+            evidence = evidence.to(torch.promote_types(evidence.dtype, torch.float)).reshape(num_samples, self.data_shape.channels, -1).clone()
             evidence[:, :, marginalized_scopes] = torch.nan
             evidence = evidence.reshape(shape_evidence)
 
@@ -732,7 +732,7 @@ class ConvPc(nn.Module):
 
         if evidence is not None:
             # First make a copy such that the original object is not changed
-            evidence = evidence.clone().float()
+            evidence = evidence.clone().to(torch.promote_types(evidence.dtype, torch.float))
             shape_evidence = evidence.shape
             evidence = evidence.reshape(samples.shape)
             mask = torch.isnan(evidence)
diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index ca7d9b8..740ad90 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -678,7 +678,7 @@ class Einet(nn.Module):
 
             if evidence is not None:
                 # First make a copy such that the original object is not changed
-                evidence = evidence.clone().float()
+                evidence = evidence.clone().to(torch.promote_types(evidence.dtype, torch.float))
                 shape_evidence = evidence.shape
                 evidence = evidence.reshape(samples.shape)
                 if marginalized_scopes is None:
-- 
2.43.0


From 4f69db8021a31a02e23ed7dcfc82e4d202ac820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 65/73] fix: seed_all_rng without a seed raised (datetime is
 the module)

---
 exp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp_utils.py b/exp_utils.py
index 7bb3432..8c2052a 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -229,7 +229,7 @@ def seed_all_rng(seed=None):
         seed (int): if None, will use a strong random seed.
     """
     if seed is None:
-        seed = os.getpid() + int(datetime.now().strftime("%S%f")) + int.from_bytes(os.urandom(2), "big")
+        seed = os.getpid() + int(datetime.datetime.now().strftime("%S%f")) + int.from_bytes(os.urandom(2), "big")
         logger.info("Using a generated random seed {}".format(seed))
     np.random.seed(seed)
     torch.manual_seed(seed)
-- 
2.43.0


From 7a36afa0c64ebadd80b40a06a849c0ee1e566d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 66/73] fix: ensure_dir raised for a file name without
 directory

---
 exp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp_utils.py b/exp_utils.py
index 8c2052a..40ced20 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -159,7 +159,7 @@ def ensure_dir(path: str):
     """
 
     d = os.path.dirname(path)
-    if not os.path.exists(d):
+    if d and not os.path.exists(d):
         os.makedirs(d)
 
 
-- 
2.43.0


From b950ede0d5e94f3dae0665ac26ceae270e58d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 67/73] fix: bits per dimension of discrete distributions were
 corrected by the bin size as if they were densities

---
 simple_einet/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/utils.py b/simple_einet/utils.py
index 58936ff..9c274d3 100644
--- a/simple_einet/utils.py
+++ b/simple_einet/utils.py
@@ -45,8 +45,8 @@ def calc_bpd(log_p: Tensor, image_shape: Tuple[int, int, int], has_gauss_dist: b
         bpd = (-bpd / (np.log(2) * n_pixels)).mean()
 
     else:
-        bpd = log_p - np.log(n_bins) * n_pixels
-        bpd = (-bpd / (np.log(2) * n_pixels)).mean()
+        # The log-probability of discrete values needs no correction for the size of the bins
+        bpd = (-log_p / (np.log(2) * n_pixels)).mean()
 
     return bpd
 
-- 
2.43.0


From 2818e12d2b390c991a26b45b5236449036a954ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 68/73] fix: single-repetition circuits could have empty leaf
 regions (several dummy nodes in one group)

---
 simple_einet/layers/factorized_leaf.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 6d64601..1e51dc2 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -245,7 +245,16 @@ class FactorizedLeafSimple(AbstractLayer):
         self.num_dummy_nodes = self.cardinality * self.num_features_out - self.num_features
 
         # Idea: pad input with "rest" number of dummy nodes
-        permutation = torch.randperm(n=self.num_features + self.num_dummy_nodes)
+        permutation = torch.randperm(n=self.num_features)
+        if self.num_dummy_nodes > 0:
+            # At most one dummy node per group, such that no group is empty and group sizes differ by at most one
+            is_dummy = torch.zeros(self.num_features_out, self.cardinality, dtype=torch.bool)
+            is_dummy[torch.randperm(n=self.num_features_out)[: self.num_dummy_nodes], -1] = True
+            is_dummy = is_dummy.view(-1)
+            padded = torch.empty(len(is_dummy), dtype=torch.long)
+            padded[~is_dummy] = permutation
+            padded[is_dummy] = torch.arange(self.num_features, len(is_dummy))
+            permutation = padded
         self.register_buffer("permutation", permutation)
 
         # Invert permutation
-- 
2.43.0


From 4b1d63618f0901b4d26cd8563f07091cd35837f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 69/73] fix: marginalised scopes given as a list raised for
 multivariate leaves

---
 simple_einet/layers/distributions/abstract_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index c34bd28..41eae25 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -255,7 +255,7 @@ class AbstractLeaf(AbstractLayer, ABC):
 
             # Adjust for leaf cardinality
             if self.cardinality > 1:
-                s = marginalized_scopes.div(self.cardinality, rounding_mode="floor")
+                s = s.div(self.cardinality, rounding_mode="floor")
 
             x[:, :, s] = self.marginalization_constant
         else:
-- 
2.43.0


From bea78cfc7ed98602cf7024db187addecd0e6bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 70/73] fix: the third run of one name wrote into the results
 directory of the second

---
 exp_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exp_utils.py b/exp_utils.py
index 40ced20..ff9f10f 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -88,10 +88,13 @@ def make_results_dir(
         dirname,
     )
 
-    if remove_if_exists:
-        if os.path.exists(experiment_dir):
-            print("Directory already exists, adding _2 to the name")
-            experiment_dir += "_2"
+    if remove_if_exists and os.path.exists(experiment_dir):
+        # Never mix the files of two runs: use the first free name
+        suffix = 2
+        while os.path.exists(f"{experiment_dir}_{suffix}"):
+            suffix += 1
+        print(f"Directory already exists, adding _{suffix} to the name")
+        experiment_dir += f"_{suffix}"
     os.makedirs(experiment_dir, exist_ok=True)
     return experiment_dir + "/"
 
-- 
2.43.0


From 02ee48a6a09dc76c72503e8fbd8d0fe86109d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 71/73] fix: combine marginalized_scopes with missing values
 given as nans

---
 simple_einet/einet.py                              | 9 ++++-----
 simple_einet/layers/distributions/abstract_leaf.py | 7 ++++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 740ad90..54aec60 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -681,11 +681,10 @@ class Einet(nn.Module):
                 evidence = evidence.clone().to(torch.promote_types(evidence.dtype, torch.float))
                 shape_evidence = evidence.shape
                 evidence = evidence.reshape(samples.shape)
-                if marginalized_scopes is None:
-                    mask = torch.isnan(evidence)
-                    evidence[mask] = samples[mask].to(evidence.dtype)
-                else:
-                    evidence[:, :, marginalized_scopes] = samples[:, :, marginalized_scopes].to(evidence.dtype)
+                mask = torch.isnan(evidence)
+                if marginalized_scopes is not None:
+                    mask[:, :, marginalized_scopes] = True
+                evidence[mask] = samples[mask].to(evidence.dtype)
 
                 evidence = evidence.reshape(shape_evidence)
                 return evidence
diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 41eae25..17e2338 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -258,9 +258,10 @@ class AbstractLeaf(AbstractLayer, ABC):
                 s = s.div(self.cardinality, rounding_mode="floor")
 
             x[:, :, s] = self.marginalization_constant
-        else:
-            if torch.any(mask := torch.isnan(x)):
-                x[mask] = self.marginalization_constant
+
+        # Missing values may also be given as nans
+        if torch.any(mask := torch.isnan(x)):
+            x[mask] = self.marginalization_constant
 
         return x
 
-- 
2.43.0


From b4f7cfd268f6ef5c7c49106238e2d8185162db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 72/73] fix: keep initial weights finite when torch.rand
 returns exactly 0

The logarithm of 0 made one weight in 16 million -inf: sum and einsum layers of a
few million weights were then built with infinite parameters and differentiable
sampling returned NaN.
---
 simple_einet/abstract_layers.py | 4 ++--
 simple_einet/conv_pc.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/simple_einet/abstract_layers.py b/simple_einet/abstract_layers.py
index 514931f..0b78081 100644
--- a/simple_einet/abstract_layers.py
+++ b/simple_einet/abstract_layers.py
@@ -130,8 +130,8 @@ class AbstractSumLayer(AbstractLayer):
         self.num_sums_in = check_valid(num_sums_in, int, 1)
         self.num_sums_out = check_valid(num_sums_out, int, 1)
 
-        # Weights of this layer as unnormalized log probabilities
-        self.logits = nn.Parameter(torch.log(torch.rand(self.weight_shape())))
+        # Weights of this layer as unnormalized log probabilities (torch.rand includes 0: keep its logarithm finite)
+        self.logits = nn.Parameter(torch.log(torch.rand(self.weight_shape()).clamp_min(1e-8)))
 
         # Dropout
         self.dropout = nn.Parameter(torch.tensor(check_valid(dropout, float, 0.0, 1.0)), requires_grad=False)
diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 9c74ea8..96bfa0e 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -147,7 +147,7 @@ class SumConv(nn.Module):
         self.in_channels = in_channels
         self.out_channels = out_channels
         self.kernel_size = kernel_size
-        self.logits = nn.Parameter(torch.log(torch.rand(out_channels, in_channels, kernel_size, kernel_size)))
+        self.logits = nn.Parameter(torch.log(torch.rand(out_channels, in_channels, kernel_size, kernel_size).clamp_min(1e-8)))
 
         # Input cache
         self._is_input_cache_enabled = False
@@ -305,7 +305,7 @@ class SumLayer(nn.Module):
         self.out_channels = out_channels
         self.height = height
         self.width = width
-        self.logits = nn.Parameter(torch.log(torch.rand(out_channels, in_channels, height, width)))
+        self.logits = nn.Parameter(torch.log(torch.rand(out_channels, in_channels, height, width).clamp_min(1e-8)))
 
         # Input cache
         self._is_input_cache_enabled = False
-- 
2.43.0


From d558cf7b99da55593034d79f4460956e8eadd5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:30 +0000
Subject: [PATCH 73/73] fix: ConvPc rejects invalid configurations when it is
 built, as Einet does

---
 simple_einet/conv_pc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 96bfa0e..6c10536 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -537,6 +537,7 @@ class ConvPc(nn.Module):
     def __init__(self, config: ConvPcConfig, data_shape: Shape):
 
         super().__init__()
+        config.assert_valid()
         self.config = config
         self.data_shape = data_shape
 
-- 
2.43.0


From 410467bfa9487087b6d05ca491d466b018ae7599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 01/14] fix: invert the two sublayers of an RQSpline layer in
 reverse order

forward applies the affine sublayer and then the spline; inverse undid them
in the same order, so inverse(forward(x)) != x once the affine is trained.
---
 src/flowMC/resource/model/nf_model/rqSpline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index d101252..20a180f 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -479,9 +479,9 @@ class MaskedCouplingRQSpline(NFModel):
         def f(carry, data):
             x, log_det = carry
             layers = eqx.combine(data, statics)
-            x, log_det_i = layers[0].inverse(x, condition)
-            log_det += log_det_i
             x, log_det_i = layers[1].inverse(x, condition)
+            log_det += log_det_i
+            x, log_det_i = layers[0].inverse(x, condition)
             return (x, log_det + log_det_i), None
 
         (x, log_det), _ = jax.lax.scan(f, (x, log_det), dynamics, reverse=True)
-- 
2.43.0


From be9dfb5b5856cb583082be9f626c13ae67a93d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 02/14] fix: RealNVP.log_prob uses the base distribution it
 samples from

---
 src/flowMC/resource/model/nf_model/realNVP.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 38211ca..d1080b3 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -217,9 +217,7 @@ class RealNVP(NFModel):
         # TODO: Check whether taking away vmap hurts accuracy.
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
-        log_det = log_det + jax.scipy.stats.multivariate_normal.logpdf(
-            y, jnp.zeros(self.n_features), jnp.eye(self.n_features)
-        )
+        log_det = log_det + self.base_dist.log_prob(y)
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From 8d11f728b03d70658f293a454be61116c0006034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 03/14] fix: include the whitening Jacobian in the flow
 log-density

---
 src/flowMC/resource/model/nf_model/realNVP.py  | 2 ++
 src/flowMC/resource/model/nf_model/rqSpline.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index d1080b3..093cbe5 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -218,6 +218,8 @@ class RealNVP(NFModel):
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
         log_det = log_det + self.base_dist.log_prob(y)
+        # Jacobian of the whitening
+        log_det = log_det - 0.5 * jnp.sum(jnp.log(jnp.diag(self.data_cov)))
         return log_det
 
     def print_parameters(self):
diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index 20a180f..bb9685d 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -501,6 +501,8 @@ class MaskedCouplingRQSpline(NFModel):
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
         log_det = log_det + self.base_dist.log_prob(y)
+        # Jacobian of the whitening
+        log_det = log_det - 0.5 * jnp.sum(jnp.log(jnp.diag(self.data_cov)))
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From 219c6fd5ae8b7dafc077904ebe9ea8fe55469399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 04/14] fix: evaluate the base density of a flow-matching
 sample at its preimage

---
 src/flowMC/resource/model/flowmatching/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index 08935cb..db29b54 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -90,7 +90,7 @@ class Solver(eqx.Module):
         x0, log_p = solve_ode(x1, dt)
         return (
             logpdf(
-                x1,
+                x0,
                 mean=self.model.n_output * jnp.zeros(self.model.n_output),
                 cov=jnp.eye(self.model.n_output),
             )
-- 
2.43.0


From 0b8c4748aa9aa4a211858f3eb54bfbdc5d58a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 05/14] fix: HMC kinetic energy for a mass matrix with
 off-diagonal entries

0.5 * sum(p**2 * metric) weighs p_i**2 by the column sums of the matrix, so
it is not the energy of the momentum drawn from N(0, metric^-1).
---
 src/flowMC/resource/kernel/HMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index 9ed3e97..de1a064 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -118,7 +118,7 @@ class HMC(ProposalBase):
         def kinetic(
             p: Float[Array, " n_dim"], metric: Float[Array, " n_dim"]
         ) -> Float[Array, "1"]:
-            return 0.5 * (p**2 * metric).sum()
+            return 0.5 * jnp.dot(p, jnp.dot(metric, p))
 
         leapfrog_kernel = jax.tree_util.Partial(
             self.leapfrog_kernel, kinetic, potential
-- 
2.43.0


From dc3604e956bafad2887cf42f8e398a0afa2551ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 06/14] fix: HMC with a scalar condition matrix, including the
 default one

The default HMC() raised from jnp.linalg.inv(1) on its first step.
---
 src/flowMC/resource/kernel/HMC.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index de1a064..0805f56 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -120,6 +120,11 @@ class HMC(ProposalBase):
         ) -> Float[Array, "1"]:
             return 0.5 * jnp.dot(p, jnp.dot(metric, p))
 
+        metric = jnp.asarray(self.condition_matrix)
+        if metric.ndim < 2:
+            # A scalar or per-dimension condition stands for a diagonal matrix
+            metric = metric * jnp.eye(position.shape[0])
+
         leapfrog_kernel = jax.tree_util.Partial(
             self.leapfrog_kernel, kinetic, potential
         )
@@ -132,14 +137,14 @@ class HMC(ProposalBase):
         )
         momentum = jnp.dot(
             jax.random.normal(key1, shape=position.shape),
-            jnp.linalg.cholesky(jnp.linalg.inv(self.condition_matrix)).T,
+            jnp.linalg.cholesky(jnp.linalg.inv(metric)).T,
         )
-        H = -log_prob + kinetic(momentum, self.condition_matrix)
+        H = -log_prob + kinetic(momentum, metric)
         proposed_position, proposed_momentum = leapfrog_step(
-            position, momentum, data, self.condition_matrix
+            position, momentum, data, metric
         )
         proposed_PE = potential(proposed_position, data)
-        proposed_ham = proposed_PE + kinetic(proposed_momentum, self.condition_matrix)
+        proposed_ham = proposed_PE + kinetic(proposed_momentum, metric)
         log_acc = H - proposed_ham
         log_uniform = jnp.log(jax.random.uniform(key2))
 
-- 
2.43.0


From 1d23dc07d0032d4c7d591eb5fcd13f9ea1722598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 07/14] fix: a loaded Buffer keeps its cursor, cursor dimension
 and name

---
 src/flowMC/resource/buffers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/buffers.py b/src/flowMC/resource/buffers.py
index 0fc3f25..354dbc8 100644
--- a/src/flowMC/resource/buffers.py
+++ b/src/flowMC/resource/buffers.py
@@ -54,11 +54,18 @@ class Buffer(Resource):
             path + self.name,
             name=self.name,
             data=self.data,
+            cursor=self.cursor,
+            cursor_dim=self.cursor_dim,
         )
 
     def load_resource(self: TBuffer, path: str) -> TBuffer:
         data = np.load(path)
-        buffer: Float[Array, " ..."] = data["data"]
-        result = Buffer(data["name"], buffer.shape)
+        buffer: Float[Array, " ..."] = jnp.asarray(data["data"])
+        result = Buffer(str(data["name"]), buffer.shape)
         result.data = buffer
+        # Files written before the cursor was saved do not have these keys
+        if "cursor" in data:
+            result.cursor = int(data["cursor"])
+        if "cursor_dim" in data:
+            result.cursor_dim = int(data["cursor_dim"])
         return result  # type: ignore
-- 
2.43.0


From 12599a5e6572a8ef897e6d1416249c50db0a43c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 08/14] fix: State.load_resource reads back what save_resource
 wrote

The state is saved as an object array, which np.load refuses by default, and
the constructor got its two arguments in the wrong order.
---
 src/flowMC/resource/states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/states.py b/src/flowMC/resource/states.py
index ca75659..2bdd916 100644
--- a/src/flowMC/resource/states.py
+++ b/src/flowMC/resource/states.py
@@ -58,6 +58,6 @@ class State(Resource):
         )
 
     def load_resource(self: TState, path: str) -> TState:
-        data = np.load(path)
-        result = State(data["name"], data["data"])
+        data = np.load(path, allow_pickle=True)
+        result = State(data["data"].item(), name=str(data["name"]))
         return result  # type: ignore
-- 
2.43.0


From 5e550c707854fd297bac9b08fa9b281ec822864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 09/14] fix: record every thinned sample when thinning does not
 divide n_steps

positions[:, ::thinning] has ceil(n_steps / thinning) entries, but the write
position advanced by the floor, so the last sample of each segment was
overwritten by the next one, and the last segment of a bundle was clamped
into the segment before it.
---
 src/flowMC/resource_strategy_bundle/RQSpline_MALA.py    | 9 +++++----
 src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py | 9 +++++----
 src/flowMC/strategy/take_steps.py                       | 2 +-
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py b/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py
index 0af672b..f9d9bc1 100644
--- a/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py
+++ b/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py
@@ -1,3 +1,4 @@
+from math import ceil
 from typing import Callable
 
 import jax
@@ -55,12 +56,12 @@ class RQSpline_MALA_Bundle(ResourceStrategyBundle):
         verbose: bool = False,
     ):
         n_training_steps = (
-            n_local_steps // local_thinning * n_training_loops
-            + n_global_steps // global_thinning * n_training_loops
+            ceil(n_local_steps / local_thinning) * n_training_loops
+            + ceil(n_global_steps / global_thinning) * n_training_loops
         )
         n_production_steps = (
-            n_local_steps // local_thinning * n_production_loops
-            + n_global_steps // global_thinning * n_production_loops
+            ceil(n_local_steps / local_thinning) * n_production_loops
+            + ceil(n_global_steps / global_thinning) * n_production_loops
         )
         n_total_epochs = n_training_loops * n_epochs
 
diff --git a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
index af97302..835a929 100644
--- a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
+++ b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
@@ -1,3 +1,4 @@
+from math import ceil
 from typing import Callable
 
 import jax
@@ -66,12 +67,12 @@ class RQSpline_MALA_PT_Bundle(ResourceStrategyBundle):
         verbose: bool = False,
     ):
         n_training_steps = (
-            n_local_steps // local_thinning * n_training_loops
-            + n_global_steps // global_thinning * n_training_loops
+            ceil(n_local_steps / local_thinning) * n_training_loops
+            + ceil(n_global_steps / global_thinning) * n_training_loops
         )
         n_production_steps = (
-            n_local_steps // local_thinning * n_production_loops
-            + n_global_steps // global_thinning * n_production_loops
+            ceil(n_local_steps / local_thinning) * n_production_loops
+            + ceil(n_global_steps / global_thinning) * n_production_loops
         )
         n_total_epochs = n_training_loops * n_epochs
 
diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 3d8c114..3f38cad 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -140,7 +140,7 @@ class TakeSteps(Strategy):
         position_buffer.update_buffer(positions, self.current_position)
         log_prob_buffer.update_buffer(log_probs, self.current_position)
         acceptance_buffer.update_buffer(do_accepts, self.current_position)
-        self.current_position += self.n_steps // self.thinning
+        self.current_position += positions.shape[1]
         return rng_key, resources, positions[:, -1]
 
 
-- 
2.43.0


From 21c581debf99438a01dbf97f6c9b00e6d97762ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 10/14] fix: parallel tempering keeps its tempered walkers
 outside training too

With the state out of training, a swap moved a tempered walker into the cold
chain but left a copy of it at its temperature (and dropped the cold walker),
so the cold chain no longer sampled the target.
---
 src/flowMC/strategy/parallel_tempering.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 0d70df1..41ed127 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -120,10 +120,9 @@ class ParallelTempering(Strategy):
             print("Mean acceptance of exchange steps in PT: " + str(mean_accs))
 
         # Update the buffers
-        if state.data["training"]:
-
-            tempered_positions.update_buffer(positions[:, 1:], 0)
+        tempered_positions.update_buffer(positions[:, 1:], 0)
 
+        if state.data["training"]:
             # Adapt the temperatures
             temperatures.update_buffer(
                 eqx.filter_jit(self._adapt_temperature)(temperatures.data, do_accepts),
-- 
2.43.0


From 668a9f378f88a906afdcb2341f04f4458832c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 11/14] fix: TakeGroupSteps evaluates the target on the user's
 data

The target got the data with the kernel's n_steps entry added, so a data key
of that name was replaced and a target that folds over its data saw an extra
leaf; data=None raised.
---
 src/flowMC/strategy/take_steps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 3f38cad..649cca9 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -200,7 +200,8 @@ class TakeGroupSteps(TakeSteps):
             rng_key,
             initial_position,
             logpdf(initial_position, data),
-            logpdf,
-            {**data, "n_steps": self.n_steps},
+            # n_steps is for the kernel: the target sees the data as given
+            lambda x, _: logpdf(x, data),
+            {**(data or {}), "n_steps": self.n_steps},
         )
         return positions, log_probs, do_accepts
-- 
2.43.0


From 9914a267dba04e2ec02239f530098c4bc7654aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 12/14] fix: the masks of RealNVP are not subject to weight
 decay

adamw decays every floating-point array of the model. A mask that is no longer
0 or 1 makes the coupling layers, and so the flow, not invertible.
---
 src/flowMC/resource/model/nf_model/realNVP.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 093cbe5..7c6e822 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -161,9 +161,12 @@ class RealNVP(NFModel):
 
         def make_layer(i: int, key: PRNGKeyArray):
             key, scale_subkey, shift_subkey = jax.random.split(key, 3)
-            mask = jnp.ones(n_features)
-            mask = mask.at[: int(n_features / 2)].set(0)
-            mask = jax.lax.cond(i % 2 == 0, lambda x: 1 - x, lambda x: x, mask)
+            # Boolean, so that the weight decay of an optimizer cannot change it
+            mask = jnp.ones(n_features, dtype=bool)
+            mask = mask.at[: int(n_features / 2)].set(False)
+            mask = jax.lax.cond(
+                i % 2 == 0, lambda x: jnp.logical_not(x), lambda x: x, mask
+            )
             scale_MLP = MLP([n_features, n_hidden, n_features], key=scale_subkey)
             shift_MLP = MLP([n_features, n_hidden, n_features], key=shift_subkey)
             return MaskedCouplingLayer(MLPAffine(scale_MLP, shift_MLP), mask)
-- 
2.43.0


From f7d3ef5efd91ddbf11d7d677389cd881290429ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 13/14] fix: temperature adaptation keeps the ladder below the
 maximum temperature

---
 src/flowMC/strategy/parallel_tempering.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 41ed127..51103f0 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -410,9 +410,6 @@ class ParallelTempering(Strategy):
 
         Returns:
             Float[Array, " n_temps"]: Updated temperatures.
-
-        TODO: The adaptation now let's the temperature to go above the maximum temperature.
-        Need to add a check to prevent this.
         """
         # Adapt the temperature based on the acceptance rate
 
@@ -423,6 +420,7 @@ class ParallelTempering(Strategy):
         damping_factor = (100.0 / do_accept.shape[0]) * (
             acceptance_rate[:-1] - acceptance_rate[1:]
         )
+        damping_factor = jnp.clip(damping_factor, -50.0, 50.0)  # exp stays finite
         new_temperatures = temperatures
         for i in range(1, temperatures.shape[0] - 1):
             new_temperatures = new_temperatures.at[i].set(
@@ -431,5 +429,16 @@ class ParallelTempering(Strategy):
                 * jnp.exp(damping_factor[i - 1])
             )
 
+        # If the adapted rungs would reach the maximum temperature, only take the
+        # fraction of the step that closes half of the gap below it.
+        if temperatures.shape[0] > 2:
+            step = new_temperatures - temperatures
+            room = temperatures[-1] - temperatures[-2]
+            new_temperatures = jnp.where(
+                (step[-2] <= 0) | (step[-2] < room),
+                new_temperatures,
+                temperatures + step * (0.5 * room / step[-2]),
+            )
+
         # jax.debug.print("{} {} {} {}", temperatures, acceptance_rate, damping_factor, new_temperatures )
         return new_temperatures
-- 
2.43.0


From 97a3a3322abaaf61eb33a61a5812fcca3c86d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 14/14] fix: parallel tempering with a single temperature
 raised in the exchange

---
 src/flowMC/strategy/parallel_tempering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 51103f0..cc2190b 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -387,6 +387,8 @@ class ParallelTempering(Strategy):
             print("Exchanging walkers")
 
         log_probs = jax.vmap(logpdf, in_axes=(0, None))(positions, data)
+        if positions.shape[0] < 2:  # A single temperature has nothing to swap with
+            return positions, log_probs, jnp.zeros(0, dtype=bool)
         (key, positions, log_probs, idx, logpdf, temperatures, data), do_accept = (
             jax.lax.scan(
                 self._exchange_step_body,
-- 
2.43.0


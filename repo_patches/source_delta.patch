From 099b533b21f67337f6a6bf3a4c7f57ddc74e9f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 01/40] fix: use the gamma prior's rate in the gamma-poisson
 conjugate posterior

The last input of a GammaRV node is the scale, but the relation added one to
it as if it were the rate.
---
 aemcmc/conjugates.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 2c2617f..4bf21c0 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -41,18 +41,21 @@ def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
 
     """
     # Gamma-poisson observation model
-    alpha_lv, beta_lv = var(), var()
+    # N.B. The last input of a `GammaRV` node is the scale (i.e. `1 / beta`)
+    alpha_lv, scale_lv = var(), var()
     z_rng_lv = var()
     z_size_lv = var()
     z_type_idx_lv = var()
     z_et = etuple(
-        etuplize(at.random.gamma), z_rng_lv, z_size_lv, z_type_idx_lv, alpha_lv, beta_lv
+        etuplize(at.random.gamma), z_rng_lv, z_size_lv, z_type_idx_lv, alpha_lv, scale_lv
     )
     Y_et = etuple(etuplize(at.random.poisson), var(), var(), var(), z_et)
 
     # Posterior distribution for p
     new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
-    new_beta_et = etuple(etuplize(at.add), beta_lv, 1)
+    new_beta_et = etuple(
+        etuplize(at.add), etuple(etuplize(at.reciprocal), scale_lv), 1
+    )
     z_posterior_et = etuple(
         partial(srng.gen, at.random.gamma),
         new_alpha_et,
-- 
2.43.0


From d9362ebfda1332fa40d0745c3702cbcb277104b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 02/40] fix: do not use element-wise conjugate posteriors for
 broadcasted latents

A scalar gamma/beta latent with several observations was assigned a posterior
that ignored all but a single observation per draw (and had the wrong shape).
---
 aemcmc/conjugates.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 4bf21c0..865f8ba 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -14,6 +14,18 @@ from aemcmc.rewriting import sampler_finder, sampler_finder_db
 
 if TYPE_CHECKING:
     from aesara.tensor.random.utils import RandomStream
+    from aesara.tensor.var import TensorVariable
+
+
+def one_observation_per_latent(
+    latent_rv: "TensorVariable", observed_rv: "TensorVariable"
+) -> bool:
+    """Determine whether each element of a latent variable has exactly one observation.
+
+    The relations in this module are element-wise.  They do not apply when
+    `latent_rv` is broadcasted to the shape of `observed_rv`.
+    """
+    return latent_rv.type.broadcastable == observed_rv.type.broadcastable
 
 
 def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_expr):
@@ -85,6 +97,10 @@ def local_gamma_poisson_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     gamma_rv = rv_et[-1].evaled_obj
+
+    if not one_observation_per_latent(gamma_rv, rv_var):
+        return None
+
     gamma_posterior = eval_if_etuple(res)
 
     return [(gamma_rv, gamma_posterior, None)]
@@ -159,6 +175,10 @@ def local_beta_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if not one_observation_per_latent(beta_rv, rv_var):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
@@ -236,6 +256,10 @@ def local_beta_negative_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if not one_observation_per_latent(beta_rv, rv_var):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
-- 
2.43.0


From 4347662cd3efff794e2944c317c2fbfa54cff588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 03/40] fix: draw the horseshoe auxiliaries with the intended
 exponential rates

The rates of the exponential conditionals were passed as scales.
---
 aemcmc/gibbs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 57743eb..6d2a991 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -241,11 +241,14 @@ def horseshoe_posterior(
     lmbda2_inv = at.reciprocal(lambda2)
     tau2_inv = at.reciprocal(tau2)
 
-    upsilon_inv = srng.exponential(1 + lmbda2_inv)
-    zeta_inv = srng.exponential(1 + tau2_inv)
+    # N.B. `RandomStream.exponential` takes a scale (i.e. the inverse of a rate)
+    upsilon_inv = srng.exponential(at.reciprocal(1 + lmbda2_inv))
+    zeta_inv = srng.exponential(at.reciprocal(1 + tau2_inv))
 
     beta2 = beta**2
-    lambda2_inv_new = srng.exponential(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    lambda2_inv_new = srng.exponential(
+        at.reciprocal(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    )
     tau2_inv_new = srng.gamma(
         0.5 * (beta.shape[0] + 1),
         zeta_inv + 0.5 * (beta2 * lambda2_inv_new).sum() / sigma2,
-- 
2.43.0


From d1937c12d3e3d202e92c600ec3966bde0e0e66c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 04/40] fix: use the prior precision in the normal regression
 posteriors

The inverse std. dev. of the regression coefficients was added to the
precision matrix without being squared.
---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 6d2a991..57f1dd7 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -45,7 +45,7 @@ def normal_regression_overdetermined_posterior(
     indices = at.arange(Q.shape[1])
     Q = at.subtensor.set_subtensor(
         Q[indices, indices],
-        at.diag(Q) + lmbdatau_inv,
+        at.diag(Q) + at.square(lmbdatau_inv),
     )
     return multivariate_normal_rue2005(srng, X.T @ (omega * z), Q)
 
@@ -64,7 +64,7 @@ def normal_regression_underdetermined_posterior(
     See `update_beta` for a description of the parameters and return value.
 
     """
-    return multivariate_normal_cong2017(srng, lmbdatau_inv, omega, X, z)
+    return multivariate_normal_cong2017(srng, at.square(lmbdatau_inv), omega, X, z)
 
 
 def normal_regression_posterior(
-- 
2.43.0


From cd97e3f53205060d599aa320ea967d875dc7cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 05/40] fix: support a shared prior std. dev. in the normal
 regression posteriors

A scalar std. dev. made the underdetermined branch index the shape of a
scalar.
---
 aemcmc/gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 57f1dd7..812c837 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -122,6 +122,9 @@ def normal_regression_posterior(
     A sample from :math:`\beta \mid z`.
 
     """
+    # A single std. dev. can be shared by all the coefficients
+    lmbdatau_inv = at.broadcast_to(lmbdatau_inv, (X.shape[1],))
+
     beta_posterior = ifelse(
         X.shape[1] > X.shape[0],
         normal_regression_underdetermined_posterior(srng, omega, lmbdatau_inv, X, z),
-- 
2.43.0


From 74eab59cbbb27992b92ed684cbf10ef750295176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 06/40] fix: let NUTS condition on the values of specialized
 sampling steps

Computing the gradient of a log-density that is conditioned on a
SamplingStep's output raised, so models that combine NUTS with the Gibbs
kernels could not be constructed.  The outputs are constants with respect to
the NUTS position.
---
 aemcmc/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aemcmc/types.py b/aemcmc/types.py
index 67a05d6..fc69bb7 100644
--- a/aemcmc/types.py
+++ b/aemcmc/types.py
@@ -19,6 +19,10 @@ class SamplingStep(OpFromGraph):
     def __init__(self, inputs: List[TensorVariable], outputs: List[TensorVariable]):
         super().__init__(inputs, outputs, inline=True)
 
+    def connection_pattern(self, node):
+        """Sampled values are treated as constants by gradient-based samplers."""
+        return [[False] * len(node.outputs) for _ in node.inputs]
+
 
 @dataclass(frozen=True)
 class Sampler:
-- 
2.43.0


From 516ac9389d69f8646ea95f91cb6f9c4f5bd3b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 07/40] fix: keep the model graph intact for the NUTS sampler

The steps' graphs share nodes with the model graph.  Replacing model variables
in-place in them also replaced those variables in the log-density given to
NUTS.
---
 aemcmc/basic.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 701fc3d..a3c0c86 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -1,6 +1,6 @@
 from typing import Dict, Tuple
 
-from aesara.graph.basic import Apply, Variable
+from aesara.graph.basic import Apply, Variable, clone_get_equiv
 from aesara.graph.fg import FunctionGraph
 from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.var import TensorVariable
@@ -56,6 +56,12 @@ def construct_sampler(
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
     rvs_without_samplers = set()
 
+    # The graphs of the steps share nodes with the model graph and are altered
+    # in-place below, so we keep a copy of the model for the NUTS sampler
+    model_memo = clone_get_equiv(
+        [], fgraph.outputs, copy_inputs=False, copy_orphans=False
+    )
+
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
             continue
@@ -104,18 +110,21 @@ def construct_sampler(
     # Use the NUTS sampler for the remaining variables
     if rvs_without_samplers:
         to_sample_rvs = {
-            rv: posterior_sample_steps[rv] for rv in list(rvs_without_samplers)
+            model_memo[rv]: posterior_sample_steps[rv]
+            for rv in list(rvs_without_samplers)
         }
         realized_values = {
-            rv: vv
+            model_memo[rv]: vv
             for rv, vv in posterior_sample_steps.items()
-            if rv not in to_sample_rvs
+            if rv not in rvs_without_samplers
         }
         (nuts_sample_steps, updates, nuts_parameters) = nuts.construct_sampler(
             srng, to_sample_rvs, realized_values
         )
 
-        posterior_sample_steps.update(nuts_sample_steps)
+        posterior_sample_steps.update(
+            {rv: nuts_sample_steps[model_memo[rv]] for rv in rvs_without_samplers}
+        )
         posterior_updates.update(updates)
         parameters.update(nuts_parameters)
 
-- 
2.43.0


From 39e5e65cec052d2b0c5a40d3a1c3c4910bbea4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 08/40] fix: use a deterministic order for the variables
 sampled with NUTS

---
 aemcmc/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index a3c0c86..9712180 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -54,7 +54,7 @@ def construct_sampler(
     posterior_updates: Dict[Variable, Variable] = {}
 
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
-    rvs_without_samplers = set()
+    rvs_without_samplers = []
 
     # The graphs of the steps share nodes with the model graph and are altered
     # in-place below, so we keep a copy of the model for the NUTS sampler
@@ -69,7 +69,7 @@ def construct_sampler(
         rv_steps = discovered_samplers.get(rv)
 
         if not rv_steps:
-            rvs_without_samplers.add(rv)
+            rvs_without_samplers.append(rv)
             continue
 
         # TODO FIXME: Just choosing one for now, but we should consider them all.
@@ -111,7 +111,7 @@ def construct_sampler(
     if rvs_without_samplers:
         to_sample_rvs = {
             model_memo[rv]: posterior_sample_steps[rv]
-            for rv in list(rvs_without_samplers)
+            for rv in rvs_without_samplers
         }
         realized_values = {
             model_memo[rv]: vv
-- 
2.43.0


From 0726dc864591a44c961cdcda9f872d8622e0b378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 09/40] fix: use the right sign in the Bernoulli regression
 step

---
 aemcmc/gibbs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 812c837..ccb6766 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -757,6 +757,10 @@ def bern_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    # `bern_sigmoid_dot_match` matches `sigmoid(-X @ beta)`, whereas
+    # `bern_normal_posterior` assumes `sigmoid(X @ beta)`
+    X = -X
+
     beta_std = beta_rv.owner.inputs[4]
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
 
-- 
2.43.0


From 89cb5fa482372667374b43275e15d963d27ce867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 10/40] fix: associate the RNGs of the dispersion and NUTS
 steps with their own updates

---
 aemcmc/gibbs.py | 12 +++++-------
 aemcmc/nuts.py  |  7 ++-----
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index ccb6766..a7faa85 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -635,8 +635,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
 
     # Build the `Op` corresponding to the sampling step
-    update_outputs = [h_posterior.owner.inputs[0].default_update]
-    update_outputs.extend(updates.values())
+    h_rng = h_posterior.owner.inputs[0]
+    updates = {h_rng: h_rng.default_update, **updates}
+    update_outputs = list(updates.values())
 
     outputs = [h_posterior] + update_outputs
     inputs = remove_constants([h, p, a, b, y])
@@ -645,11 +646,8 @@ def nbinom_logistic_finder(fgraph, node, srng):
     h_posterior = gibbs(*inputs)
     h_posterior.name = f"{h.name or 'h'}_posterior"
 
-    updates_offset = len(inputs)
-    updates = {
-        h_posterior.owner.inputs[updates_offset]: h_posterior.owner.outputs[1],
-        h_posterior.owner.inputs[updates_offset + 1]: h_posterior.owner.outputs[2],
-    }
+    # N.B. The order of the shared inputs is not the order of the updates
+    updates = dict(zip(updates.keys(), h_posterior.owner.outputs[1:]))
 
     res.append((h, h_posterior, updates))
 
diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 90a7b82..3f22800 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -165,11 +165,8 @@ def construct_sampler(
     posterior = nuts_op(*inputs)
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
 
-    updates_input = posterior[0].owner.inputs[len(inputs) :]
-    updates_output = posterior[len(results) :]
-    updates = {
-        updates_input[i]: update_out for i, update_out in enumerate(updates_output)
-    }
+    # N.B. The order of the shared inputs is not the order of the updates
+    updates = dict(zip(updates.keys(), posterior[len(results) :]))
 
     return results, updates, {nuts_op: parameters}
 
-- 
2.43.0


From d83c52dd1af42aa541c76c3e74171a5670991c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 11/40] fix: only use the horseshoe step for standard horseshoe
 priors

---
 aemcmc/gibbs.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index a7faa85..31763c1 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -2,7 +2,8 @@ from typing import List, Mapping, Optional, Tuple
 
 import aesara
 import aesara.tensor as at
-from aesara.graph.basic import Variable
+import numpy as np
+from aesara.graph.basic import Constant, Variable
 from aesara.graph.rewriting.basic import in2out
 from aesara.graph.rewriting.db import LocalGroupDB
 from aesara.graph.rewriting.unify import eval_if_etuple
@@ -134,6 +135,11 @@ def normal_regression_posterior(
     return beta_posterior
 
 
+def is_constant(var: Variable, value: float) -> bool:
+    """Determine whether every element of a variable is known to be equal to a value."""
+    return isinstance(var, Constant) and bool(np.all(var.data == value))
+
+
 halfcauchy_1_lv, halfcauchy_2_lv = var(), var()
 zero_lv = var()
 horseshoe_pattern = etuple(
@@ -172,6 +178,16 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model is not half-Cauchy distributed."
         )
 
+    if not is_constant(s[zero_lv], 0) or not all(
+        is_constant(halfcauchy.owner.inputs[3], 0)
+        and is_constant(halfcauchy.owner.inputs[4], 1)
+        for halfcauchy in (halfcauchy_1, halfcauchy_2)
+    ):
+        raise ValueError(
+            "Not a horseshoe prior. The normal and half-Cauchy distributions "
+            + "must be centered and the latter must have a unit scale."
+        )
+
     if halfcauchy_1.type.ndim == 0 or all(s == 1 for s in halfcauchy_1.type.shape):
         lmbda_rv = halfcauchy_2
         tau_rv = halfcauchy_1
@@ -184,6 +200,15 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model must be one-dimensional."
         )
 
+    if (
+        graph.type.ndim != 1
+        or lmbda_rv.type.broadcastable != graph.type.broadcastable
+    ):
+        raise ValueError(
+            "Not a horseshoe prior. There must be one local shrinkage parameter "
+            + "for each element of a vector."
+        )
+
     return (lmbda_rv, tau_rv)
 
 
-- 
2.43.0


From 59d55489433d6713137c2ffc7c04763d13ba2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 12/40] fix: only use the regression steps for the models they
 were derived for

---
 aemcmc/gibbs.py | 53 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 31763c1..40d239f 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -3,7 +3,7 @@ from typing import List, Mapping, Optional, Tuple
 import aesara
 import aesara.tensor as at
 import numpy as np
-from aesara.graph.basic import Constant, Variable
+from aesara.graph.basic import Constant, Variable, ancestors
 from aesara.graph.rewriting.basic import in2out
 from aesara.graph.rewriting.db import LocalGroupDB
 from aesara.graph.rewriting.unify import eval_if_etuple
@@ -351,6 +351,35 @@ sigmoid_dot_pattern = etuple(
     etuple(etuplize(at.mul), neg_one_lv, etuple(etuple(Dot), X_lv, beta_lv)),
 )
 
+
+def check_regression(
+    y: TensorVariable, neg_one: Variable, X: Variable, beta: Variable, *others: Variable
+):
+    """Make sure that matched terms form a logistic regression with a normal prior."""
+
+    if not is_constant(neg_one, -1):
+        raise ValueError("The argument to the sigmoid must be minus the dot product.")
+
+    if not (
+        isinstance(X, Variable)
+        and isinstance(beta, Variable)
+        and X.type.ndim == 2
+        and beta.type.ndim == 1
+        and y.type.broadcastable == X.type.broadcastable[:1]
+    ):
+        raise ValueError("The dot product must be between a matrix and a vector.")
+
+    if not (
+        beta.owner
+        and isinstance(beta.owner.op, NormalRV)
+        and is_constant(beta.owner.inputs[3], 0)
+    ):
+        raise ValueError("The coefficients must have a zero-mean normal prior.")
+
+    if beta in ancestors((X,) + others):
+        raise ValueError("The other terms must not depend on the coefficients.")
+
+
 a_lv = var()
 b_lv = var()
 gamma_pattern = etuple(etuplize(at.random.gamma), var(), var(), var(), a_lv, b_lv)
@@ -382,16 +411,15 @@ def nbinom_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a negative binomial regression.")
 
-    if all(s[neg_one_lv].data != -1):
-        raise ValueError(
-            "Not a negative binomial regression. The argument to "
-            + "the sigmoid must be minus the dot product."
-        )
-
     h = eval_if_etuple(s[h_lv])
     beta_rv = eval_if_etuple(s[beta_lv])
     X = eval_if_etuple(s[X_lv])
 
+    try:
+        check_regression(graph, s[neg_one_lv], X, beta_rv, h)
+    except ValueError as e:
+        raise ValueError(f"Not a negative binomial regression. {e}")
+
     return X, h, beta_rv
 
 
@@ -696,15 +724,14 @@ def bern_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a Bernoulli regression.")
 
-    if all(s[neg_one_lv].data != -1):
-        raise ValueError(
-            "Not a Bernoulli regression. The argument to the sigmoid "
-            + "must be minus the dot product."
-        )
-
     beta_rv = eval_if_etuple(s[beta_lv])
     X = eval_if_etuple(s[X_lv])
 
+    try:
+        check_regression(graph, s[neg_one_lv], X, beta_rv)
+    except ValueError as e:
+        raise ValueError(f"Not a Bernoulli regression. {e}")
+
     return X, beta_rv
 
 
-- 
2.43.0


From ad88d93f6b2f1961ebc6d9574c0b8f7b14e5d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 13/40] fix: do not use a conditional step when other variables
 depend on the sampled one

---
 aemcmc/conjugates.py | 14 ++++++++++----
 aemcmc/gibbs.py      | 14 +++++++++++++-
 aemcmc/rewriting.py  | 26 ++++++++++++++++++++++++++
 3 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 865f8ba..83ed574 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -10,7 +10,7 @@ from etuples import etuple, etuplize
 from kanren import eq, lall, run
 from unification import var
 
-from aemcmc.rewriting import sampler_finder, sampler_finder_db
+from aemcmc.rewriting import is_only_dependent, sampler_finder, sampler_finder_db
 
 if TYPE_CHECKING:
     from aesara.tensor.random.utils import RandomStream
@@ -98,7 +98,9 @@ def local_gamma_poisson_posterior(fgraph, node, srng):
 
     gamma_rv = rv_et[-1].evaled_obj
 
-    if not one_observation_per_latent(gamma_rv, rv_var):
+    if not one_observation_per_latent(gamma_rv, rv_var) or not is_only_dependent(
+        fgraph, gamma_rv, node
+    ):
         return None
 
     gamma_posterior = eval_if_etuple(res)
@@ -176,7 +178,9 @@ def local_beta_binomial_posterior(fgraph, node, srng):
 
     beta_rv = rv_et[-1].evaled_obj
 
-    if not one_observation_per_latent(beta_rv, rv_var):
+    if not one_observation_per_latent(beta_rv, rv_var) or not is_only_dependent(
+        fgraph, beta_rv, node
+    ):
         return None
 
     beta_posterior = eval_if_etuple(res)
@@ -257,7 +261,9 @@ def local_beta_negative_binomial_posterior(fgraph, node, srng):
 
     beta_rv = rv_et[-1].evaled_obj
 
-    if not one_observation_per_latent(beta_rv, rv_var):
+    if not one_observation_per_latent(beta_rv, rv_var) or not is_only_dependent(
+        fgraph, beta_rv, node
+    ):
         return None
 
     beta_posterior = eval_if_etuple(res)
diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 40d239f..1f5e3db 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -20,7 +20,7 @@ from aemcmc.dists import (
     multivariate_normal_rue2005,
     polyagamma,
 )
-from aemcmc.rewriting import sampler_finder, sampler_finder_db
+from aemcmc.rewriting import is_only_dependent, sampler_finder, sampler_finder_db
 from aemcmc.types import SamplingStep
 from aemcmc.utils import remove_constants
 
@@ -321,6 +321,9 @@ def normal_horseshoe_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    if not all(is_only_dependent(fgraph, rv, node) for rv in (lambda_rv, tau_rv)):
+        return None
+
     tau2 = tau_rv**2
     lambda2 = lambda_rv**2
     lambda_posterior, tau_posterior = horseshoe_posterior(
@@ -662,6 +665,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    if not is_only_dependent(fgraph, beta_rv, node):
+        return None
+
     beta_std = beta_rv.owner.inputs[4]
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
@@ -683,6 +689,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return res
 
+    if not is_only_dependent(fgraph, h, node):
+        return res
+
     p = at.sigmoid(-X @ beta_posterior)
 
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
@@ -807,6 +816,9 @@ def bern_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    if not is_only_dependent(fgraph, beta_rv, node):
+        return None
+
     # `bern_sigmoid_dot_match` matches `sigmoid(-X @ beta)`, whereas
     # `bern_normal_posterior` assumes `sigmoid(X @ beta)`
     X = -X
diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 73ab76e..e0f0604 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -15,6 +15,7 @@ from aesara.tensor.elemwise import DimShuffle, Elemwise
 from aesara.tensor.random.op import RandomVariable
 from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.rewriting.shape import ShapeFeature
+from aesara.tensor.shape import Shape, Shape_i
 from aesara.tensor.var import TensorVariable
 from cons.core import _car
 from unification.core import _unify
@@ -124,6 +125,31 @@ class SamplerTracker(Feature):
         fgraph.sampler_mappings = self
 
 
+def is_only_dependent(fgraph: FunctionGraph, rv: Variable, node: Apply) -> bool:
+    """Determine whether `node` is the only random variable that depends on the value of `rv`.
+
+    The conditional distribution of `rv` can only be derived from `node` when
+    this is the case.
+    """
+    dependents = set()
+    seen = {rv}
+    to_visit = [rv]
+    while to_visit:
+        var = to_visit.pop()
+        for client, _ in fgraph.clients[var]:
+            if client == "output" or isinstance(client.op, (Shape, Shape_i)):
+                continue
+            if isinstance(client.op, RandomVariable):
+                dependents.add(client)
+                continue
+            for out in client.outputs:
+                if out not in seen:
+                    seen.add(out)
+                    to_visit.append(out)
+
+    return dependents == {node}
+
+
 def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
     """Construct a `NodeRewriter` that identifies sample steps.
 
-- 
2.43.0


From c34b93844a15a0630a656e0e09c1ae8e142952b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 14/40] fix: use the values of the other variables in the
 transforms of the NUTS sampler

The bounds of a transform can depend on other random variables, in which case
they were drawn from their prior instead.
---
 aemcmc/nuts.py | 53 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 3f22800..335736a 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -12,7 +12,7 @@ from aeppl.transforms import (
 )
 from aesara import config
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, graph_inputs
+from aesara.graph.basic import Apply, clone_get_equiv, graph_inputs, io_toposort
 from aesara.graph.type import Constant
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.op import RandomVariable
@@ -85,8 +85,12 @@ def step(
     # when the support of each random variable's distribution is unconstrained. Get
     # the default transform that corresponds to each random variable.
     transforms = {rv: get_transform(rv) for rv in to_sample_rvs}
+    # N.B. The transforms can depend on the values of other random variables
+    initial_rvs_to_values = {**realized_rvs_to_values, **to_sample_rvs}
     transformed_values = [
-        transform_forward(rv, vv, transforms[rv])
+        transform_forward(
+            set_inputs_values(rv, initial_rvs_to_values), vv, transforms[rv]
+        )
         for rv, vv in zip(to_sample_rvs, initial_values)
     ]
 
@@ -94,10 +98,19 @@ def step(
     # of the realized variables. The placeholder nodes are defined in the
     # transformed space and will be replaced by their actual value when building
     # the NUTS kernel.
+    # N.B. We use a copy of the model because `joint_logprob` alters its graph.
+    memo = clone_get_equiv(
+        [],
+        [*to_sample_rvs, *realized_rvs_to_values],
+        copy_inputs=False,
+        copy_orphans=False,
+    )
     logprob, placeholder_values = joint_logprob(
-        *to_sample_rvs.keys(),
-        realized=realized_rvs_to_values,
-        extra_rewrites=TransformValuesRewrite(transforms),
+        *[memo[rv] for rv in to_sample_rvs],
+        realized={memo[rv]: vv for rv, vv in realized_rvs_to_values.items()},
+        extra_rewrites=TransformValuesRewrite(
+            {memo[rv]: transform for rv, transform in transforms.items()}
+        ),
     )
 
     # Algorithms in `AeHMC` work with flat arrays so we need to ravel parameter
@@ -133,10 +146,19 @@ def step(
     # values back to the original space.
     (new_q, *_), updates = nuts_kernel(*initial_state, step_size, inverse_mass_matrix)
     transformed_params = rp_map.unravel_params(new_q)
-    results = {
-        rv: transform_backward(rv, transformed_params[pv], transforms[rv])
-        for rv, pv in zip(to_sample_rvs, placeholder_values)
+    unraveled_params = {
+        rv: transformed_params[pv] for rv, pv in zip(to_sample_rvs, placeholder_values)
     }
+    results: Dict[RandomVariable, TensorVariable] = {}
+    for node in io_toposort([], list(to_sample_rvs)):
+        for rv in node.outputs:
+            if rv in unraveled_params:
+                results[rv] = transform_backward(
+                    set_inputs_values(rv, {**realized_rvs_to_values, **results}),
+                    unraveled_params[rv],
+                    transforms[rv],
+                )
+    results = {rv: results[rv] for rv in to_sample_rvs}
 
     return (
         results,
@@ -180,6 +202,21 @@ def get_transform(rv: TensorVariable):
         return None
 
 
+def set_inputs_values(
+    rv: TensorVariable, rvs_to_values: Dict[TensorVariable, TensorVariable]
+) -> TensorVariable:
+    """Replace the random variables in the inputs of a random variable with values."""
+    memo = clone_get_equiv(
+        list(rvs_to_values),
+        [i for i in rv.owner.inputs if i.owner],
+        copy_inputs=False,
+        copy_orphans=False,
+        memo=dict(rvs_to_values),
+    )
+    new_node = rv.owner.clone_with_new_inputs([memo.get(i, i) for i in rv.owner.inputs])
+    return new_node.outputs[rv.index]
+
+
 def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
     """Push variables to the transformed space."""
     if transform:
-- 
2.43.0


From 3afa726fc79d3a7d2d378370f371478c973a1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 15/40] fix: ignore non-shared RNGs in get_rv_updates

---
 aemcmc/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index de295ec..087c774 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -4,7 +4,6 @@ from typing import TYPE_CHECKING, Dict, Optional, Tuple
 from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import Constant, Variable, ancestors
 from aesara.tensor import as_tensor_variable
-from aesara.tensor.random.type import RandomType
 from aesara.tensor.var import TensorVariable
 
 if TYPE_CHECKING:
@@ -107,7 +106,7 @@ def get_rv_updates(
     rv_updates = {}
 
     for var in ancestors(rvs):
-        if not isinstance(var, SharedVariable) and not isinstance(var.type, RandomType):
+        if not isinstance(var, SharedVariable):
             continue
 
         # TODO: Consider making sure the updates correspond to "in-place"
-- 
2.43.0


From d82bdeae649373f8d60216ba0f9ad4193d5cc134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 16/40] fix: list the NUTS stage after the stages it is
 conditioned on

---
 aemcmc/basic.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 9712180..eed706b 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -128,11 +128,10 @@ def construct_sampler(
         posterior_updates.update(updates)
         parameters.update(nuts_parameters)
 
-    sampling_steps = {
-        new_to_old_rvs[rv]: step
-        for rv, step in posterior_sample_steps.items()
-        if rv not in obs_rvs_to_values
-    }
+    # The steps are inserted in scan order
+    scan_order = [rv for rv in random_vars if rv not in rvs_without_samplers]
+    scan_order += rvs_without_samplers
+    sampling_steps = {new_to_old_rvs[rv]: posterior_sample_steps[rv] for rv in scan_order}
 
     return Sampler(sampling_steps, posterior_updates, parameters), {
         new_to_old_rvs[rv]: init_var for rv, init_var in rvs_to_init_vals.items()
-- 
2.43.0


From cfdaeb9092030338d9c5d3fdc0e9776f41f72291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 17/40] fix: do not fail on negative binomials with a known
 dispersion

---
 aemcmc/gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 1f5e3db..fb9fc72 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -389,6 +389,9 @@ gamma_pattern = etuple(etuplize(at.random.gamma), var(), var(), var(), a_lv, b_l
 
 
 def gamma_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariable]:
+    if graph.owner is None:
+        raise ValueError("Not a gamma prior.")
+
     graph_et = etuplize(graph)
     s = unify(graph_et, gamma_pattern)
     if s is False:
-- 
2.43.0


From a5f4c4c0c0bb8f1755d300e53068e341c3853d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 18/40] fix: do not clone random variables when expanding
 subsumed Elemwises

---
 aemcmc/rewriting.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index e0f0604..f7f6cbb 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -5,7 +5,7 @@ from typing import Callable, Dict, Iterable, List, Optional, Sequence, Set, Tupl
 from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
-from aesara.graph.basic import Apply, Variable, clone_replace, io_toposort
+from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
 from aesara.graph.op import Op
@@ -411,11 +411,17 @@ def inline_SubsumingElemwise(fgraph, node):
     if not op.is_inline:
         return False  # pragma: no cover
 
-    res = clone_replace(
-        op.inner_outputs, {u: v for u, v in zip(op.inner_inputs, node.inputs)}
+    # The inputs' graphs must not be cloned: they generally contain random
+    # variables, and copies of those are not the ones being sampled
+    memo = clone_get_equiv(
+        op.inner_inputs,
+        op.inner_outputs,
+        copy_inputs=False,
+        copy_orphans=False,
+        memo=dict(zip(op.inner_inputs, node.inputs)),
     )
 
-    return res
+    return [memo[out] for out in op.inner_outputs]
 
 
 expand_subsumptions = in2out(inline_SubsumingElemwise)
-- 
2.43.0


From 19bb0a653fec25d18113ec716643d7b07eb9330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 19/40] fix: do not apply Elemwise rewrites to
 SubsumingElemwise

---
 aemcmc/rewriting.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index f7f6cbb..7a3fa19 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -202,8 +202,16 @@ def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
     return decorator
 
 
-class SubsumingElemwise(OpFromGraph, Elemwise):
-    r"""A class representing an `Elemwise` with `DimShuffle`\ed arguments."""
+class SubsumingElemwise(OpFromGraph):
+    r"""A class representing an `Elemwise` with `DimShuffle`\ed arguments.
+
+    This isn't a subclass of `Elemwise`, because it doesn't take the same
+    arguments (i.e. its inputs are not `DimShuffle`\ed and its constant inputs
+    are omitted), so the rewrites for `Elemwise`\s do not apply to it.
+
+    """
+
+    __props__ = Elemwise.__props__
 
     def __init__(self, inputs, outputs, *args, **kwargs):
         # TODO: Mock the `Elemwise` interface just enough for our purposes
@@ -401,7 +409,7 @@ sampler_ir_db.register(
 )
 
 
-@node_rewriter([Elemwise])
+@node_rewriter([SubsumingElemwise])
 def inline_SubsumingElemwise(fgraph, node):
     op = node.op
 
-- 
2.43.0


From 86c9e4081712d1be5507001cead33e6eea6bd648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 20/40] fix: do not subsume Elemwises with both constant and
 multiple other inputs

---
 aemcmc/rewriting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 7a3fa19..7ab901a 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -394,6 +394,12 @@ def local_elemwise_dimshuffle_subsume(fgraph, node):
     new_outputs = node.op.make_node(*subsumed_inputs).outputs
 
     used_inputs = remove_constants(new_inputs)
+
+    if len(used_inputs) > 1 and len(used_inputs) != len(new_inputs):
+        # The remaining inputs would be indistinguishable from the arguments of
+        # an `Elemwise` without the constants (e.g. `2 * x * y` and `x * y`)
+        return None
+
     new_op = SubsumingElemwise(used_inputs, new_outputs, inline=True)
 
     new_out = new_op(*used_inputs)
-- 
2.43.0


From 6768a9b229253660d1f5e13314d8de1dc5a92873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 21/40] fix: do not subsume Elemwises of shared variables

---
 aemcmc/rewriting.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 7ab901a..3233a1f 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -5,6 +5,7 @@ from typing import Callable, Dict, Iterable, List, Optional, Sequence, Set, Tupl
 from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
+from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
@@ -400,6 +401,10 @@ def local_elemwise_dimshuffle_subsume(fgraph, node):
         # an `Elemwise` without the constants (e.g. `2 * x * y` and `x * y`)
         return None
 
+    if any(isinstance(i, SharedVariable) for i in used_inputs):
+        # The inputs of an `OpFromGraph` cannot be shared variables
+        return None
+
     new_op = SubsumingElemwise(used_inputs, new_outputs, inline=True)
 
     new_out = new_op(*used_inputs)
-- 
2.43.0


From bbcdfe3e3567a046f3d6bc72ae0ae90b1075a9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 22/40] fix: do not use the dispersion step for non-scalar
 dispersions

---
 aemcmc/gibbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index fb9fc72..a9f003c 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -692,7 +692,8 @@ def nbinom_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return res
 
-    if not is_only_dependent(fgraph, h, node):
+    # The update was derived for a single dispersion parameter
+    if h.type.ndim > 0 or not is_only_dependent(fgraph, h, node):
         return res
 
     p = at.sigmoid(-X @ beta_posterior)
-- 
2.43.0


From 34c38cf5d80de230f25b20c56525d0a9a05c01a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 23/40] fix: keep the priors of the other steps intact when
 updating a step

---
 aemcmc/basic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index eed706b..5855ede 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -88,8 +88,13 @@ def construct_sampler(
             copy_orphans=False,
         )
 
-        # Update the other sampled random variables in this step's graph
-        sfgraph.replace_all(list(posterior_sample_steps.items()), import_missing=True)
+        # Update the other sampled random variables in this step's graph.
+        # Dependent variables are replaced first, so that the parts of the
+        # model graph that only determine their priors are left untouched and
+        # can be used by the other steps.
+        sfgraph.replace_all(
+            list(reversed(posterior_sample_steps.items())), import_missing=True
+        )
 
         expand_subsumptions.rewrite(sfgraph)
 
-- 
2.43.0


From 03586d3dec6dd7307f050d30c14bef241f7204c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 24/40] fix: support shared variables in sampling steps

---
 aemcmc/types.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/aemcmc/types.py b/aemcmc/types.py
index fc69bb7..098d644 100644
--- a/aemcmc/types.py
+++ b/aemcmc/types.py
@@ -3,7 +3,8 @@ from dataclasses import dataclass, field
 from typing import Dict, List, Optional, Tuple
 
 from aesara.compile.builders import OpFromGraph
-from aesara.graph.basic import Variable
+from aesara.compile.sharedvalue import SharedVariable
+from aesara.graph.basic import Variable, clone_get_equiv, graph_inputs
 from aesara.tensor.var import TensorVariable
 
 
@@ -17,6 +18,29 @@ class SamplingStep(OpFromGraph):
     """
 
     def __init__(self, inputs: List[TensorVariable], outputs: List[TensorVariable]):
+        # The inputs of an `OpFromGraph` cannot be shared variables
+        memo = {i: i.type() for i in inputs if isinstance(i, SharedVariable)}
+
+        if memo:
+            rngs = [
+                i
+                for i in graph_inputs(outputs, inputs)
+                if isinstance(i, SharedVariable)
+                and i not in memo
+                and i.default_update is not None
+            ]
+            clone_get_equiv(
+                [],
+                outputs + [rng.default_update for rng in rngs],
+                copy_inputs=False,
+                copy_orphans=False,
+                memo=memo,
+            )
+            inputs = [memo.get(i, i) for i in inputs]
+            outputs = [memo[out] for out in outputs]
+            for rng in rngs:
+                rng.default_update = memo[rng.default_update]
+
         super().__init__(inputs, outputs, inline=True)
 
     def connection_pattern(self, node):
-- 
2.43.0


From 117bcf206c9b3998912747b9d10680f3825a9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 25/40] fix: support symbolic transition matrices in ffbs_step

Adding a tuple and a symbolic shape is element-wise addition.
---
 aemcmc/ffbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index 6c33bf9..ab005d0 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -78,7 +78,8 @@ def ffbs_step(
 
     # Make sure we have a transition matrix for each element in a state
     # sequence
-    Gammas = at.broadcast_to(Gammas, (N,) + Gammas.shape[-2:])
+    Gammas = at.as_tensor(Gammas)
+    Gammas = at.broadcast_to(Gammas, (N, Gammas.shape[-2], Gammas.shape[-1]))
 
     def forward_step(log_lik_T_n, Gamma_n, alpha_nm1):
         log_lik_n = log_lik_T_n.T
-- 
2.43.0


From d247ccecd7a16ad7f32bccacb3499addb051e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 26/40] fix: keep the forward probabilities of ffbs_step from
 underflowing

The scale was taken from states that cannot be reached, and dividing by the
precision bound let the probabilities decay to zero over several steps.
---
 aemcmc/ffbs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index ab005d0..db7278b 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -2,6 +2,7 @@ from typing import Mapping, Tuple
 
 import aesara
 import aesara.tensor as at
+import numpy as np
 from aesara.tensor.random import RandomStream
 from aesara.tensor.var import TensorVariable
 
@@ -83,11 +84,15 @@ def ffbs_step(
 
     def forward_step(log_lik_T_n, Gamma_n, alpha_nm1):
         log_lik_n = log_lik_T_n.T
-        lik_n = at.exp(log_lik_n - log_lik_n.max())
-        alpha_n = at.dot(alpha_nm1, Gamma_n) * lik_n
+        pred_n = at.dot(alpha_nm1, Gamma_n)
+        # Only the states that can be reached determine the scale; otherwise,
+        # their likelihoods could all underflow
+        log_lik_max = at.switch(at.gt(pred_n, 0), log_lik_n, -np.inf).max()
+        lik_n = at.exp(log_lik_n - log_lik_max)
+        alpha_n = at.switch(at.gt(pred_n, 0), pred_n * lik_n, 0.0)
         alpha_n_sum = at.sum(alpha_n, axis=-1)
         rescaled_alpha_n = at.switch(
-            at.lt(alpha_n_sum, lower_prec_bound), alpha_n / lower_prec_bound, alpha_n
+            at.lt(alpha_n_sum, lower_prec_bound), alpha_n / alpha_n_sum, alpha_n
         )
         return rescaled_alpha_n
 
-- 
2.43.0


From ed30e0d6ff52cd9fe4571d8cbe82b524a2251da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 27/40] fix: keep other sampling steps out of the NUTS step

The NUTS step contained copies of the steps it is conditioned on, and the
generators inside their loops were not advanced.
---
 aemcmc/nuts.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 335736a..43c617c 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -172,7 +172,17 @@ def construct_sampler(
     to_sample_rvs: Dict[RandomVariable, TensorVariable],
     realized_rvs_to_values: Dict[RandomVariable, TensorVariable],
 ) -> Tuple[Dict[RandomVariable, TensorVariable], Dict, Dict[Apply, TensorVariable]]:
-    results, updates, parameters = step(srng, to_sample_rvs, realized_rvs_to_values)
+    # The values computed by other sampling steps are inputs of the `Op`; otherwise,
+    # its inner graph would contain (and update the generators of) these steps
+    computed_values = {
+        vv.clone(): vv for vv in realized_rvs_to_values.values() if vv.owner
+    }
+    placeholders = {vv: placeholder for placeholder, vv in computed_values.items()}
+    results, updates, parameters = step(
+        srng,
+        to_sample_rvs,
+        {rv: placeholders.get(vv, vv) for rv, vv in realized_rvs_to_values.items()},
+    )
 
     # Build an `Op` that represents the NUTS sampling step
     update_outputs = list(updates.values())
@@ -184,7 +194,7 @@ def construct_sampler(
     ]
     nuts_op = NUTSKernel(inputs, outputs)
 
-    posterior = nuts_op(*inputs)
+    posterior = nuts_op(*[computed_values.get(var_in, var_in) for var_in in inputs])
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
 
     # N.B. The order of the shared inputs is not the order of the updates
-- 
2.43.0


From 10aeecc229b251297adeb576f4ebe83d3e5b3de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 28/40] fix: do not evaluate subsumed element-wise operations
 of constants

Constant folding failed (with an error message, or an exception under
on_opt_error=raise) for broadcasted constants.
---
 aemcmc/rewriting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 3233a1f..fcbeaea 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -246,6 +246,10 @@ class SubsumingElemwise(OpFromGraph):
         real_inputs = node.inputs[: len(node.inputs) - len(self.shared_inputs)]
         return Apply(self, real_inputs, [o.clone() for o in node.outputs])
 
+    def do_constant_folding(self, fgraph, node):
+        # This `Op` cannot be evaluated
+        return False
+
     def perform(self, *args, **kwargs):
         raise NotImplementedError(  # pragma: no cover
             "This `OpFromGraph` should have been in-line expanded."
-- 
2.43.0


From 04fb31d1970f8e45261bf19739fb041f4633fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 29/40] fix: keep the number of draws when transforming random
 variables without a size

The non-centered form of a location-scale random variable with vector
parameters and no size drew one standard value for all of its elements, and
the inverse gamma relation lost the shape of its shape parameter.
---
 aemcmc/transforms.py | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/aemcmc/transforms.py b/aemcmc/transforms.py
index 106d586..d7a590c 100644
--- a/aemcmc/transforms.py
+++ b/aemcmc/transforms.py
@@ -1,8 +1,10 @@
 import aesara.tensor as at
+from aesara.graph.rewriting.unify import eval_if_etuple
+from aesara.tensor.extra_ops import broadcast_shape
 from etuples import etuple, etuplize
 from kanren import eq, lall
 from kanren.facts import Relation, fact
-from unification import var
+from unification import isvar, reify, var
 
 location_scale_family = Relation("location-scale-family")
 fact(location_scale_family, at.random.cauchy)
@@ -13,6 +15,29 @@ fact(location_scale_family, at.random.normal)
 fact(location_scale_family, at.random.t)
 
 
+def broadcasted_sizeo(size_expr, param_exprs, full_size_expr):
+    r"""Produce a goal that relates a `size` argument to the size of all the draws.
+
+    A random variable with an empty `size` has as many draws as its parameters
+    have elements after broadcasting.  This number has to be stated when one or
+    more of the parameters are moved out of the random variable.
+
+    """
+
+    def broadcasted_sizeo_goal(S):
+        size, params = reify((size_expr, tuple(param_exprs)), S)
+        params = [eval_if_etuple(param) for param in params]
+
+        if not isvar(size) and not any(isvar(param) for param in params):
+            params = [at.as_tensor(param) for param in params]
+            if at.get_vector_length(size) == 0 and any(p.ndim > 0 for p in params):
+                size = at.as_tensor(broadcast_shape(*params))
+
+        yield from eq(full_size_expr, size)(S)
+
+    return broadcasted_sizeo_goal
+
+
 def location_scale_transform(in_expr, out_expr):
     r"""Produce a goal that represents the action of lifting and sinking
     the scale and location parameters of distributions in the location-scale
@@ -50,6 +75,7 @@ def location_scale_transform(in_expr, out_expr):
     centered_et = etuple(distribution_lv, rng_lv, size_lv, type_idx_lv, mu_lv, sd_lv)
 
     # Non-centered representation
+    std_size_lv = var()
     noncentered_et = etuple(
         etuplize(at.add),
         mu_lv,
@@ -61,7 +87,7 @@ def location_scale_transform(in_expr, out_expr):
                 0,
                 1,
                 rng=rng_lv,
-                size=size_lv,
+                size=std_size_lv,
                 dtype=type_idx_lv,
             ),
         ),
@@ -71,6 +97,7 @@ def location_scale_transform(in_expr, out_expr):
         eq(in_expr, centered_et),
         eq(out_expr, noncentered_et),
         location_scale_family(distribution_lv),
+        broadcasted_sizeo(size_lv, (mu_lv, sd_lv), std_size_lv),
     )
 
 
@@ -100,21 +127,26 @@ def invgamma_exponential(invgamma_expr, invexponential_expr):
 
     """
     c_lv = var()
+    shape_lv = var()
     rng_lv, size_lv, dtype_lv = var(), var(), var()
 
     invgamma_et = etuple(
-        etuplize(at.random.invgamma), rng_lv, size_lv, dtype_lv, at.as_tensor(1.0), c_lv
+        etuplize(at.random.invgamma), rng_lv, size_lv, dtype_lv, shape_lv, c_lv
     )
 
+    exp_size_lv = var()
     exponential_et = etuple(
         etuplize(at.random.exponential),
         c_lv,
         rng=rng_lv,
-        size=size_lv,
+        size=exp_size_lv,
         dtype=dtype_lv,
     )
     invexponential_et = etuple(at.true_divide, at.as_tensor(1.0), exponential_et)
 
     return lall(
-        eq(invgamma_expr, invgamma_et), eq(invexponential_expr, invexponential_et)
+        eq(invgamma_expr, invgamma_et),
+        eq(shape_lv, at.as_tensor(1.0)),
+        eq(invexponential_expr, invexponential_et),
+        broadcasted_sizeo(size_lv, (shape_lv, c_lv), exp_size_lv),
     )
-- 
2.43.0


From 303bd4b96457bca10dec3b17ab1ddf19365d3604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 30/40] fix: recognise horseshoe priors of a single coefficient
 in both orders

With one coefficient the local shrinkage parameter was taken for the global
one when it came first in the product, and the prior was left to NUTS.
---
 aemcmc/gibbs.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index a9f003c..4c25bfc 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -188,28 +188,34 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "must be centered and the latter must have a unit scale."
         )
 
-    if halfcauchy_1.type.ndim == 0 or all(s == 1 for s in halfcauchy_1.type.shape):
-        lmbda_rv = halfcauchy_2
-        tau_rv = halfcauchy_1
-    elif halfcauchy_2.type.ndim == 0 or all(s == 1 for s in halfcauchy_2.type.shape):
-        lmbda_rv = halfcauchy_1
-        tau_rv = halfcauchy_2
-    else:
+    # Both shrinkage parameters can be the global one when there is a single
+    # coefficient
+    candidates = [
+        (lmbda_rv, tau_rv)
+        for lmbda_rv, tau_rv in (
+            (halfcauchy_2, halfcauchy_1),
+            (halfcauchy_1, halfcauchy_2),
+        )
+        if tau_rv.type.ndim == 0 or all(s == 1 for s in tau_rv.type.shape)
+    ]
+
+    if not candidates:
         raise ValueError(
             "Not a horseshoe prior. The global shrinkage parameter "
             + "in your model must be one-dimensional."
         )
 
-    if (
-        graph.type.ndim != 1
-        or lmbda_rv.type.broadcastable != graph.type.broadcastable
-    ):
-        raise ValueError(
-            "Not a horseshoe prior. There must be one local shrinkage parameter "
-            + "for each element of a vector."
-        )
+    for lmbda_rv, tau_rv in candidates:
+        if (
+            graph.type.ndim == 1
+            and lmbda_rv.type.broadcastable == graph.type.broadcastable
+        ):
+            return (lmbda_rv, tau_rv)
 
-    return (lmbda_rv, tau_rv)
+    raise ValueError(
+        "Not a horseshoe prior. There must be one local shrinkage parameter "
+        + "for each element of a vector."
+    )
 
 
 def horseshoe_posterior(
-- 
2.43.0


From 7a98d04e3336844eb35b128506120d65394e2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 31/40] fix: broadcast the parameters of the Polya-Gamma
 distribution

random_polyagamma returns as many values as its first parameter has when both
parameters are vectors and no size is given, and reads non-contiguous vectors
as if they were contiguous (endlessly for broadcasted ones).
---
 aemcmc/dists.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aemcmc/dists.py b/aemcmc/dists.py
index ecf5386..f3d98c5 100644
--- a/aemcmc/dists.py
+++ b/aemcmc/dists.py
@@ -21,6 +21,10 @@ class PolyaGammaRV(RandomVariable):
     @classmethod
     def rng_fn(cls, rng, h, z, size=None):
         bg = rng._bit_generator if isinstance(rng, np.random.RandomState) else rng
+        if size is None:
+            # Without a size, `random_polyagamma` uses the shape of `h` for a
+            # vector `h` and ignores the strides of two vectors
+            size = np.broadcast_shapes(np.shape(h), np.shape(z))
         return random_polyagamma(h, z, size=size, random_state=bg).astype(
             aesara.config.floatX
         )
-- 
2.43.0


From d4db18f55b847c9dfb396fdbca7b84181c1b8259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 32/40] fix: raise ValueError when matching variables without
 an owner

---
 aemcmc/gibbs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 4c25bfc..8e54f57 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -153,6 +153,9 @@ horseshoe_pattern = etuple(
 
 
 def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariable]:
+    if graph.owner is None:
+        raise ValueError("Not a horseshoe prior.")
+
     graph_et = etuplize(graph)
 
     s = unify(graph_et, horseshoe_pattern)
@@ -418,6 +421,9 @@ nbinom_sigmoid_dot_pattern = etuple(
 def nbinom_sigmoid_dot_match(
     graph: TensorVariable,
 ) -> Tuple[TensorVariable, TensorVariable, TensorVariable]:
+    if graph.owner is None:
+        raise ValueError("Not a negative binomial regression.")
+
     graph_et = etuplize(graph)
     s = unify(graph_et, nbinom_sigmoid_dot_pattern)
     if s is False:
@@ -737,6 +743,9 @@ bernoulli_sigmoid_dot_pattern = etuple(
 def bern_sigmoid_dot_match(
     graph: TensorVariable,
 ) -> Tuple[TensorVariable, TensorVariable]:
+    if graph.owner is None:
+        raise ValueError("Not a Bernoulli regression.")
+
     graph_et = etuplize(graph)
 
     s = unify(graph_et, bernoulli_sigmoid_dot_pattern)
-- 
2.43.0


From 4d3f3a1b4edfc709ab505eebf239ec67ee4ee647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 33/40] fix: do not take a squared half-Cauchy variable for a
 horseshoe prior

---
 aemcmc/gibbs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 8e54f57..6f1766d 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -181,6 +181,12 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model is not half-Cauchy distributed."
         )
 
+    if halfcauchy_1 is halfcauchy_2:
+        raise ValueError(
+            "Not a horseshoe prior. The local and global shrinkage parameters "
+            + "must be distinct."
+        )
+
     if not is_constant(s[zero_lv], 0) or not all(
         is_constant(halfcauchy.owner.inputs[3], 0)
         and is_constant(halfcauchy.owner.inputs[4], 1)
-- 
2.43.0


From 8e0b1d7ebd862830cbea469e076d178182b795de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 34/40] fix: support unsigned and boolean design matrices in
 the regression steps

---
 aemcmc/gibbs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 6f1766d..de06dce 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -714,7 +714,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     if h.type.ndim > 0 or not is_only_dependent(fgraph, h, node):
         return res
 
-    p = at.sigmoid(-X @ beta_posterior)
+    p = at.sigmoid(-(X @ beta_posterior))
 
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
 
@@ -846,7 +846,8 @@ def bern_logistic_finder(fgraph, node, srng):
 
     # `bern_sigmoid_dot_match` matches `sigmoid(-X @ beta)`, whereas
     # `bern_normal_posterior` assumes `sigmoid(X @ beta)`
-    X = -X
+    # N.B. Unsigned integers wrap around and booleans do not support negation
+    X = -1.0 * X
 
     beta_std = beta_rv.owner.inputs[4]
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
-- 
2.43.0


From e17f21421fce45e81eb56e5a7ba5c4981f761bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 35/40] fix: do not let trial counts overflow in the
 beta-binomial conjugate posterior

---
 aemcmc/conjugates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 83ed574..f4a4b37 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -146,7 +146,7 @@ def beta_binomial_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
     # Posterior distribution for p
     new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
     new_beta_et = etuple(
-        etuplize(at.sub), etuple(etuplize(at.add), beta_lv, n_lv), observed_rv_expr
+        etuplize(at.add), beta_lv, etuple(etuplize(at.sub), n_lv, observed_rv_expr)
     )
     p_posterior_et = etuple(
         partial(srng.gen, at.random.beta),
-- 
2.43.0


From a236a51aecdb623e518f0b46489595b658ea7e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 36/40] fix: support initial probabilities of lower precision
 in ffbs_step

---
 aemcmc/ffbs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index db7278b..94cfc9d 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -3,6 +3,7 @@ from typing import Mapping, Tuple
 import aesara
 import aesara.tensor as at
 import numpy as np
+from aesara.scalar.basic import upcast
 from aesara.tensor.random import RandomStream
 from aesara.tensor.var import TensorVariable
 
@@ -82,6 +83,12 @@ def ffbs_step(
     Gammas = at.as_tensor(Gammas)
     Gammas = at.broadcast_to(Gammas, (N, Gammas.shape[-2], Gammas.shape[-1]))
 
+    # The forward probabilities must have the type of the initial ones
+    gamma_0_normed = at.cast(
+        gamma_0_normed,
+        upcast(gamma_0_normed.dtype, Gammas.dtype, at.exp(log_lik).dtype),
+    )
+
     def forward_step(log_lik_T_n, Gamma_n, alpha_nm1):
         log_lik_n = log_lik_T_n.T
         pred_n = at.dot(alpha_nm1, Gamma_n)
-- 
2.43.0


From 83b255f480dabac62c4b2d8e6ab4465beccbb893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 37/40] fix: keep the type of the coefficients in the
 regression steps

---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index de06dce..2fd05bd 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -693,7 +693,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
     # Build the `Op` corresponding to the sampling step
-    outputs = [beta_posterior]
+    outputs = [at.cast(beta_posterior, beta_rv.dtype)]
     inputs = remove_constants([beta_rv, beta_std, X, h, y])
     gibbs = NBRegressionGibbsKernel(inputs, outputs)
 
@@ -853,7 +853,7 @@ def bern_logistic_finder(fgraph, node, srng):
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
 
     # Build the `Op` corresponding to the sampling step
-    outputs = [beta_posterior]
+    outputs = [at.cast(beta_posterior, beta_rv.dtype)]
     inputs = remove_constants([beta_rv, beta_std, X, y])
     gibbs = BernoulliRegressionGibbsKernel(inputs, outputs)
 
-- 
2.43.0


From a9387e1629fe55c18f6a90dd3220577d0edcbe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 38/40] fix: support integer precision matrices in
 multivariate_normal_rue2005

---
 aemcmc/dists.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aemcmc/dists.py b/aemcmc/dists.py
index f3d98c5..6df51db 100644
--- a/aemcmc/dists.py
+++ b/aemcmc/dists.py
@@ -4,6 +4,7 @@ import numpy as np
 from aesara.sparse.basic import _is_sparse_variable, dense_from_sparse
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.op import RandomVariable
+from aesara.tensor.type import discrete_dtypes
 from aesara.tensor.var import TensorVariable
 from polyagamma import random_polyagamma
 
@@ -53,6 +54,9 @@ def multivariate_normal_rue2005(rng, b, Q):
     """
     if _is_sparse_variable(Q):
         Q = dense_from_sparse(Q)
+    if Q.type.dtype in discrete_dtypes:
+        # `Cholesky` truncates its result to the type of its input
+        Q = at.cast(Q, aesara.config.floatX)
     L = at.linalg.cholesky(Q)
     w = at.slinalg.solve_triangular(L, b, lower=True)
     u = at.slinalg.solve_triangular(L.T, w, lower=False)
-- 
2.43.0


From 7015a01792f42351e3dd69d2696bd93f8e234330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 39/40] fix: accept the variables of nuts.step in any order

---
 aemcmc/nuts.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 43c617c..a49da1e 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -105,13 +105,27 @@ def step(
         copy_inputs=False,
         copy_orphans=False,
     )
-    logprob, placeholder_values = joint_logprob(
-        *[memo[rv] for rv in to_sample_rvs],
-        realized={memo[rv]: vv for rv, vv in realized_rvs_to_values.items()},
+    # N.B. `joint_logprob` expects the variables in topological order
+    sorted_rvs = [
+        rv
+        for node in io_toposort([], [*to_sample_rvs, *realized_rvs_to_values])
+        for rv in node.outputs
+    ]
+    logprob, sorted_values = joint_logprob(
+        *[memo[rv] for rv in sorted_rvs if rv in to_sample_rvs],
+        realized={
+            memo[rv]: realized_rvs_to_values[rv]
+            for rv in sorted_rvs
+            if rv in realized_rvs_to_values
+        },
         extra_rewrites=TransformValuesRewrite(
             {memo[rv]: transform for rv, transform in transforms.items()}
         ),
     )
+    rvs_to_placeholders = dict(
+        zip((rv for rv in sorted_rvs if rv in to_sample_rvs), sorted_values)
+    )
+    placeholder_values = [rvs_to_placeholders[rv] for rv in to_sample_rvs]
 
     # Algorithms in `AeHMC` work with flat arrays so we need to ravel parameter
     # values to use them as an input to the NUTS kernel. The following creates
-- 
2.43.0


From 4f2d80f51fb601b701ac0899e910f26162525374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:17 +0000
Subject: [PATCH 40/40] fix: tell sampler finders apart by identity rather than
 by name

---
 aemcmc/rewriting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index fcbeaea..6eab751 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -178,7 +178,7 @@ def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
 
             # TODO: This assumes that `node` is a `RandomVariable`-generated `Apply` node
             rv_var = node.outputs[1]
-            key = (f.__name__, rv_var)
+            key = (f, rv_var)
 
             if sampler_mappings is None or key in sampler_mappings.rvs_seen:
                 return None  # pragma: no cover
-- 
2.43.0


From e514005753628f7813a24c52d88bd9a78dd8153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 01/93] fix: integrate_start returns a copy of the initial
 state, not the internal array

---
 dmpbbo/dynamicalsystems/DynamicalSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/DynamicalSystem.py b/dmpbbo/dynamicalsystems/DynamicalSystem.py
index 569bef1..51b384b 100644
--- a/dmpbbo/dynamicalsystems/DynamicalSystem.py
+++ b/dmpbbo/dynamicalsystems/DynamicalSystem.py
@@ -151,7 +151,7 @@ class DynamicalSystem(ABC):
         """
         if y_init is not None:
             self.y_init = y_init
-        x = self._x_init
+        x = self._x_init.copy()
         return x, self.differential_equation(x)
 
     def integrate_step(self, dt, x):
-- 
2.43.0


From b5555dc714ac3009c26f0e4cfc0c25d4f97aa8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 02/93] fix: dynamical systems copy the initial and attractor
 states they are given

---
 dmpbbo/dynamicalsystems/DynamicalSystem.py    | 2 +-
 dmpbbo/dynamicalsystems/ExponentialSystem.py  | 6 +++---
 dmpbbo/dynamicalsystems/RichardsSystem.py     | 2 +-
 dmpbbo/dynamicalsystems/SigmoidSystem.py      | 2 +-
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/DynamicalSystem.py b/dmpbbo/dynamicalsystems/DynamicalSystem.py
index 51b384b..ae78e53 100644
--- a/dmpbbo/dynamicalsystems/DynamicalSystem.py
+++ b/dmpbbo/dynamicalsystems/DynamicalSystem.py
@@ -97,7 +97,7 @@ class DynamicalSystem(ABC):
         """
         if new_x_init.size != self._dim_x:
             raise ValueError(f"x_init must have size {self._dim_x}")
-        self._x_init = np.atleast_1d(new_x_init)
+        self._x_init = np.array(new_x_init, dtype=float, ndmin=1)
 
     @property
     def y_init(self):
diff --git a/dmpbbo/dynamicalsystems/ExponentialSystem.py b/dmpbbo/dynamicalsystems/ExponentialSystem.py
index c900a72..e67e75c 100644
--- a/dmpbbo/dynamicalsystems/ExponentialSystem.py
+++ b/dmpbbo/dynamicalsystems/ExponentialSystem.py
@@ -35,7 +35,7 @@ class ExponentialSystem(DynamicalSystem):
         @param alpha: Decay constant
         """
         super().__init__(1, tau, x_init)
-        self._x_attr = np.atleast_1d(x_attr)
+        self._x_attr = np.array(x_attr, dtype=float, ndmin=1)
         self.alpha = np.asarray(alpha) if isinstance(alpha, list) else alpha
 
     @property
@@ -54,7 +54,7 @@ class ExponentialSystem(DynamicalSystem):
         """
         if y.size != self._dim_y:
             raise ValueError(f"y_attr must have size {self._dim_y}")
-        self._x_attr = np.atleast_1d(y)
+        self._x_attr = np.array(y, dtype=float, ndmin=1)
 
     @property
     def x_attr(self):
@@ -72,7 +72,7 @@ class ExponentialSystem(DynamicalSystem):
         """
         if x.size != self._dim_x:
             raise ValueError(f"y_attr must have size {self._dim_x}")
-        self._x_attr = np.atleast_1d(x)
+        self._x_attr = np.array(x, dtype=float, ndmin=1)
 
     def differential_equation(self, x):
         """ The differential equation which defines the system.
diff --git a/dmpbbo/dynamicalsystems/RichardsSystem.py b/dmpbbo/dynamicalsystems/RichardsSystem.py
index ace433a..8da3cc7 100644
--- a/dmpbbo/dynamicalsystems/RichardsSystem.py
+++ b/dmpbbo/dynamicalsystems/RichardsSystem.py
@@ -31,7 +31,7 @@ class RichardsSystem(DynamicalSystem):
         self._tau = tau  # To avoid flake8 warnings (is already set by super.init above)
         self.alpha = alpha
         self.v = v
-        self.right_asymp = x_attr
+        self.right_asymp = np.array(x_attr, dtype=float) if isinstance(x_attr, np.ndarray) else x_attr
         self.t_infl_ratio = t_infl_ratio
         self.left_asymp = None
 
diff --git a/dmpbbo/dynamicalsystems/SigmoidSystem.py b/dmpbbo/dynamicalsystems/SigmoidSystem.py
index 0c93554..f675b33 100644
--- a/dmpbbo/dynamicalsystems/SigmoidSystem.py
+++ b/dmpbbo/dynamicalsystems/SigmoidSystem.py
@@ -100,7 +100,7 @@ class SigmoidSystem(DynamicalSystem):
         """
         if new_x_init.size != self._dim_x:
             raise ValueError(f"x_init must have size {self._dim_x}")
-        self._x_init = new_x_init
+        self._x_init = np.array(new_x_init, dtype=float, ndmin=1)
         self._Ks_cached = None  # Forces recomputing Ks
 
     @DynamicalSystem.y_init.setter
diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index f02bb6a..11d75c2 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -45,7 +45,7 @@ class SpringDamperSystem(DynamicalSystem):
         @param mass: Mass
         """
         super().__init__(2, tau, y_init)
-        self._y_attr = y_attr
+        self._y_attr = np.array(y_attr, dtype=float, ndmin=1)
         self.damping_coefficient = damping_coefficient
         self.mass = mass
         if spring_constant == "CRITICALLY_DAMPED":
@@ -65,7 +65,7 @@ class SpringDamperSystem(DynamicalSystem):
         """
         if new_y_attr.size != self._dim_y:
             raise ValueError(f"y_attr must have size {self._dim_y}")
-        self._y_attr = np.atleast_1d(new_y_attr)
+        self._y_attr = np.array(new_y_attr, dtype=float, ndmin=1)
 
     def differential_equation(self, x):
         """ The differential equation which defines the system.
-- 
2.43.0


From 5feae347993236580c626ee727d7fd945b07aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 03/93] fix: rate of change of TimeSystem has the shape of its
 state

---
 dmpbbo/dynamicalsystems/TimeSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/TimeSystem.py b/dmpbbo/dynamicalsystems/TimeSystem.py
index 80cdecd..c6e0dc7 100644
--- a/dmpbbo/dynamicalsystems/TimeSystem.py
+++ b/dmpbbo/dynamicalsystems/TimeSystem.py
@@ -59,7 +59,7 @@ class TimeSystem(DynamicalSystem):
         @param x: current state
         @return: xd - rate of change in state
         """
-        xd = np.zeros([1, 1])
+        xd = np.zeros(1)
         if self._count_down:
             if x > 0:
                 xd[0] = -1.0 / self._tau
-- 
2.43.0


From 7c38ed04550bd8575793090d7a8fd47317f9a373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 04/93] fix: analytical solution of SpringDamperSystem with
 non-zero initial velocity

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index 11d75c2..9ad25e1 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -145,7 +145,7 @@ class SpringDamperSystem(DynamicalSystem):
 
         for i_dim in range(self._dim_y):
             y0 = self._x_init[i_dim] - self._y_attr[i_dim]
-            yd0 = self._x_init[self._dim_y + i_dim]
+            yd0 = self._x_init[self._dim_y + i_dim] / self._tau  # z = tau * yd
 
             A = y0  # noqa
             B = yd0 + omega_0s[i_dim] * y0  # noqa
-- 
2.43.0


From e56372839fbe9cc799d2528798dce333c6799248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 05/93] fix: critical damping of SpringDamperSystem takes the
 mass into account

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index 9ad25e1..0216e78 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -48,8 +48,8 @@ class SpringDamperSystem(DynamicalSystem):
         self._y_attr = np.array(y_attr, dtype=float, ndmin=1)
         self.damping_coefficient = damping_coefficient
         self.mass = mass
-        if spring_constant == "CRITICALLY_DAMPED":
-            self.spring_constant = damping_coefficient * damping_coefficient / 4
+        if isinstance(spring_constant, str) and spring_constant == "CRITICALLY_DAMPED":
+            self.spring_constant = damping_coefficient * damping_coefficient / (4 * mass)
         else:
             self.spring_constant = spring_constant
 
-- 
2.43.0


From b7c3a5a85d15b06cbdc4e6dbf2946842c60bdbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:38 +0000
Subject: [PATCH 06/93] fix: RichardsSystem provides y_attr like the other
 attractor systems

---
 dmpbbo/dynamicalsystems/RichardsSystem.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dmpbbo/dynamicalsystems/RichardsSystem.py b/dmpbbo/dynamicalsystems/RichardsSystem.py
index 8da3cc7..ada461c 100644
--- a/dmpbbo/dynamicalsystems/RichardsSystem.py
+++ b/dmpbbo/dynamicalsystems/RichardsSystem.py
@@ -35,6 +35,24 @@ class RichardsSystem(DynamicalSystem):
         self.t_infl_ratio = t_infl_ratio
         self.left_asymp = None
 
+    @property
+    def y_attr(self):
+        """ Return the y part of the attractor state.
+
+        Note that for a RichardsSystem y is equivalent to x.
+        """
+        return self.right_asymp
+
+    @y_attr.setter
+    def y_attr(self, new_y_attr):
+        """ Set the y part of the attractor state.
+
+        Note that for a RichardsSystem y is equivalent to x.
+        """
+        if new_y_attr.size != self._dim_y:
+            raise ValueError(f"y_attr must have size {self._dim_y}")
+        self.right_asymp = np.array(new_y_attr, dtype=float, ndmin=1)
+
     def set_left_asymp(self, left_asymp):
         self.left_asymp = left_asymp
 
-- 
2.43.0


From f1c89b3f6c586142d620e2e1dbffd2bd7f5c3ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:34 +0000
Subject: [PATCH 07/93] fix: parameter vector of a function approximator
 without selected parameters is empty

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 1ae8c97..ff56e10 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -116,7 +116,7 @@ class FunctionApproximator(Parameterizable):
 
     def get_param_vector(self):
         if self._selected_param_names is None:
-            return np.array(0)
+            return np.array([])
 
         """Get a vector containing the values of the selected parameters."""
         if not self.is_trained():
@@ -138,6 +138,9 @@ class FunctionApproximator(Parameterizable):
                 f"({self.get_param_vector_size()}) "
             )
 
+        if self._selected_param_names is None:
+            return
+
         offset = 0
         for label in self._selected_param_names:
             expected_shape = self._model_params[label].shape
-- 
2.43.0


From a981c0a74567fb8137678248dd05c77f5cf81334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:34 +0000
Subject: [PATCH 08/93] fix: set_param_vector works for scalar parameters, e.g.
 the offset of WLS

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index ff56e10..cc54e72 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -144,7 +144,7 @@ class FunctionApproximator(Parameterizable):
         offset = 0
         for label in self._selected_param_names:
             expected_shape = self._model_params[label].shape
-            cur_n_values = np.prod(expected_shape)
+            cur_n_values = int(np.prod(expected_shape))
             cur_values = values[offset : offset + cur_n_values]
             self._model_params[label] = np.reshape(cur_values, expected_shape)
             offset += cur_n_values
@@ -156,7 +156,7 @@ class FunctionApproximator(Parameterizable):
         size = 0
         for label in self._selected_param_names:
             if label in self._model_params:
-                size += np.prod(self._model_params[label].shape)
+                size += int(np.prod(self._model_params[label].shape))
         return size
 
     def _get_axis(self, fig=None):
-- 
2.43.0


From a81bb702d5d6dba4809190d3b0113f3ce5412e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:34 +0000
Subject: [PATCH 09/93] fix: set_param_vector copies the values instead of
 keeping a view of them

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index cc54e72..a6452a8 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -146,7 +146,7 @@ class FunctionApproximator(Parameterizable):
             expected_shape = self._model_params[label].shape
             cur_n_values = int(np.prod(expected_shape))
             cur_values = values[offset : offset + cur_n_values]
-            self._model_params[label] = np.reshape(cur_values, expected_shape)
+            self._model_params[label] = np.array(cur_values, dtype=float).reshape(expected_shape)
             offset += cur_n_values
 
     def get_param_vector_size(self):
-- 
2.43.0


From f11b020539a3003b8834d9feadd01564bd223363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:34 +0000
Subject: [PATCH 10/93] fix: LWR passes its regularization on to the weighted
 least squares regressions

---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 8ea4626..60582da 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -57,8 +57,7 @@ class FunctionApproximatorLWR(FunctionApproximator):
 
         # Prepare the weighted-least squares function approximator
         reg = meta_params["regularization"]
-        wls_meta_params = {"regularization": reg, "use_offset": True}
-        fa_lws = FunctionApproximatorWLS(wls_meta_params)
+        fa_lws = FunctionApproximatorWLS(use_offset=True, regularization=reg)
 
         # Perform one weighted least squares regression for each kernel
         activations = FunctionApproximatorLWR._activations(inputs, model_params)
-- 
2.43.0


From 9dfc722d8bdb277f652370988e44b9cee404432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:34 +0000
Subject: [PATCH 11/93] fix: RBFN and LWR accept a scalar number of basis
 functions for multi-dimensional inputs

---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py  | 2 +-
 dmpbbo/functionapproximators/FunctionApproximatorRBFN.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 60582da..e498d6e 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -50,7 +50,7 @@ class FunctionApproximatorLWR(FunctionApproximator):
         model_params = {"centers": centers, "widths": widths}
 
         # Prepare weighted least squares regressions
-        n_bfs = np.prod(n_bfs_per_dim)
+        n_bfs = centers.shape[0]
         n_dims = centers.shape[1]
         slopes = np.ones([n_bfs, n_dims])
         offsets = np.ones([n_bfs, 1])
diff --git a/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py b/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
index eef020d..ed00a5e 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
@@ -52,7 +52,6 @@ class FunctionApproximatorRBFN(FunctionApproximator):
         # Determine the centers and widths of the basis functions, given the input data range
 
         n_bfs_per_dim = meta_params["n_basis_functions_per_dim"]
-        n_bfs = np.prod(n_bfs_per_dim)
 
         height = meta_params["intersection_height"]
         centers, widths = Gaussian.get_centers_and_widths(inputs, n_bfs_per_dim, height)
@@ -70,7 +69,7 @@ class FunctionApproximatorRBFN(FunctionApproximator):
         fa_lws = FunctionApproximatorWLS(use_offset, meta_params["regularization"])
         wls_model_params = fa_lws.train(activations, targets)
 
-        model_params["weights"] = wls_model_params["slope"].reshape(n_bfs, -1)
+        model_params["weights"] = wls_model_params["slope"].reshape(centers.shape[0], -1)
 
         return model_params
 
-- 
2.43.0


From 81536d5f8c448c75d15105dd0140636230e52d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:34 +0000
Subject: [PATCH 12/93] fix: GPR keeps a copy of its training inputs

---
 dmpbbo/functionapproximators/FunctionApproximatorGPR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorGPR.py b/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
index b2aeb9d..1e957bb 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
@@ -49,7 +49,7 @@ class FunctionApproximatorGPR(FunctionApproximator):
     def _train(inputs, targets, meta_params, **kwargs):
 
         model_params = {
-            "inputs": inputs,
+            "inputs": inputs.copy(),
             "lengths": np.full(inputs.shape, meta_params["lengths"]),
             "max_covariance": meta_params["max_covariance"],
         }
-- 
2.43.0


From 9d7046cc1fca1065be544519ef578e458c70df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 13/93] fix: Dmp does not overwrite the attractor of a goal
 system that requires scaling

---
 dmpbbo/dmps/Dmp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index ab4f99f..1bd3843 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -254,7 +254,8 @@ class Dmp(DynamicalSystem, Parameterizable):
             xd[self.GOAL] = np.zeros(self._dim_y)
         else:
             # Integrate goal system and get current goal state
-            self._goal_system.y_attr = self._y_attr
+            if not self.goal_system_requires_scaling:
+                self._goal_system.y_attr = self._y_attr
             xd[self.GOAL] = self._goal_system.differential_equation(x[self.GOAL])
             if not self.goal_system_requires_scaling:
                 # The goal state is the attractor state of the spring-damper system
-- 
2.43.0


From 5c9ae8768ac2d48db1e1213869b36162abfabcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 14/93] fix: Dmp knows its initial state before y_init is set
 explicitly

---
 dmpbbo/dmps/Dmp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 1bd3843..62df897 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -69,7 +69,8 @@ class Dmp(DynamicalSystem, Parameterizable):
         dim_dmp += y_init.size  # new: damping coefficient system
         super().__init__(1, tau, y_init, dim_dmp)
 
-        self._y_attr = y_attr
+        self._y_init = np.array(y_init, dtype=float)
+        self._y_attr = np.array(y_attr, dtype=float)
         self._function_approximators = function_approximators
 
         transformation_system = kwargs.get("transformation_system", None)
-- 
2.43.0


From 35b4bba81d4684182bccd4dd8a33ea5c136939f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 15/93] fix: Dmp.integrate_start accepts a multi-dimensional
 y_init

---
 dmpbbo/dmps/Dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 62df897..bb487dc 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -197,7 +197,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         @param y_init: The initial state vector (y part)
         @return: x, xd - The first vector of state variables and their rates of change
         """
-        if y_init:
+        if y_init is not None:
             self.y_init = y_init
 
         x = np.zeros(self._dim_x)
-- 
2.43.0


From 384d09291be9b1e1052ffab23f737372c37c7148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 16/93] fix: Dmp copies the y_init and y_attr it is given, and
 y_init returns what was set

---
 dmpbbo/dmps/Dmp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index bb487dc..f0aa463 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -593,7 +593,8 @@ class Dmp(DynamicalSystem, Parameterizable):
         """
         if y_init_new.size != self.dim_dmp():
             raise ValueError("y_init must have same size {self.dim_dmp()}")
-        self._y_init = y_init_new  # noqa defined inside DynamicalSystem.__init__ of
+        self._y_init = np.array(y_init_new, dtype=float)
+        self._x_init[: self._dim_y] = self._y_init  # So that the y_init property returns it
 
         # Set value in all relevant subsystems also
         self._spring_system.y_init = y_init_new
@@ -612,7 +613,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         if y_attr_new.size != self.dim_dmp():
             raise ValueError("y_init must have same size {self.dim_dmp()}")
 
-        self._y_attr = y_attr_new
+        self._y_attr = np.array(y_attr_new, dtype=float)
 
         # Set value in all relevant subsystems also
         if self._goal_system is not None:
-- 
2.43.0


From df74504b7f0d0eaadd5f58f318b498d7bf528a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 17/93] fix: setting tau of a Dmp also sets it in the damping
 system

---
 dmpbbo/dmps/Dmp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index f0aa463..84ee93e 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -585,6 +585,9 @@ class Dmp(DynamicalSystem, Parameterizable):
         if self._goal_system is not None:
             self._goal_system.tau *= tau_scale
 
+        if self._damping_system is not None:
+            self._damping_system.tau *= tau_scale
+
     @DynamicalSystem.y_init.setter
     def y_init(self, y_init_new):
         """ Set the initial state (y-part)
-- 
2.43.0


From 12b255a42dddb629a95d2020b15cc68839813db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 18/93] fix: selecting other parameters of a Dmp deselects the
 goal

---
 dmpbbo/dmps/Dmp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 84ee93e..23fe2d9 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -650,6 +650,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         if isinstance(names, str):
             names = [names]  # Convert to list
 
+        self._selected_param_names = []
         if "goal" in names:
             self._selected_param_names = ["goal"]
             # No need to bother function approximators with it: remove all occurrences
-- 
2.43.0


From 1d948ee62b6e3d23a8ca3f451191d80dd1de5aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 19/93] fix: states_as_pos_vel_acc works for several states, as
 documented

---
 dmpbbo/dmps/Dmp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 23fe2d9..f1939c8 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -544,7 +544,11 @@ class Dmp(DynamicalSystem, Parameterizable):
         @param xd_in:  Derivative of state (n_samples X dim_x)
         @return: positions, velocities and accelerations over time (each n_samples X dim_y)
         """
-        return x_in[self.SPRING_Y], xd_in[self.SPRING_Y], xd_in[self.SPRING_Z] / self._tau
+        return (
+            x_in[..., self.SPRING_Y],
+            xd_in[..., self.SPRING_Y],
+            xd_in[..., self.SPRING_Z] / self._tau,
+        )
 
     def states_as_trajectory(self, ts, x_in, xd_in):
         """Get the output of a DMP dynamical system as a trajectory.
-- 
2.43.0


From 227a81297081a576a736af5c78bef14c098737e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 20/93] fix: Dmp without goal system has no goal to scale

---
 dmpbbo/dmps/Dmp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index f1939c8..0f3f78a 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -132,6 +132,8 @@ class Dmp(DynamicalSystem, Parameterizable):
         self._gating_system = kwargs.get("gating_system", gating_system_default)
         self._goal_system = kwargs.get("goal_system", goal_system_default)
         self._damping_system = kwargs.get("damping_system", damping_system_default)
+        if self._goal_system is None:
+            self.goal_system_requires_scaling = False
 
         # Initialize variables related to scaling of the forcing term
         self._forcing_term_scaling = kwargs.get("forcing_term_scaling", "NO_SCALING")
-- 
2.43.0


From caa288a25df2a7c900a8f9611b0f125355b7c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 21/93] fix: schedule bounds work for arrays, for one bound
 only, and during integration

---
 dmpbbo/dmps/DmpWithSchedules.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index 2bcaa45..a934296 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -139,13 +139,8 @@ class DmpWithSchedules(Dmp):
         if self.min_schedules is None and self.max_schedules is None:
             # No bounds, simply return schedules
             return schedules
-        if schedules.ndim == 1:
-            schedules = schedules.reshape((schedules.shape[0], 1))
-        for i_dim in range(len(self._func_apps_schedules)):
-            min_sched = self.min_schedules[i_dim] if self.min_schedules else None
-            max_sched = self.max_schedules[i_dim] if self.max_schedules else None
-            schedules[:, i_dim] = np.clip(schedules[:, i_dim], min_sched, max_sched)
-        return schedules
+        # The last axis of schedules contains the dimensions (with or without time steps before it)
+        return np.clip(schedules, self.min_schedules, self.max_schedules)
 
     def integrate_start_sched(self, y_init=None):
         """ Start integrating the DMP with schedules with a new initial state.
-- 
2.43.0


From d5a0299984a6934b4704a2f001fae9323468c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 22/93] fix: schedules can be passed explicitly to train_sched

---
 dmpbbo/dmps/DmpWithSchedules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index a934296..66beb45 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -91,7 +91,7 @@ class DmpWithSchedules(Dmp):
 
         xs, _, _, _ = self.analytical_solution()
         inputs = xs[:, self.PHASE]
-        targets = schedules or trajectory.misc
+        targets = schedules if schedules is not None else trajectory.misc
 
         if targets is None:
             raise ValueError(
-- 
2.43.0


From 79a1269003e78a7d162b6595af765b9ec6f40f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 23/93] fix: dim_dmp of DmpContextualTwoStep returns a number

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index ea7369a..e8d4b56 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -166,7 +166,7 @@ class DmpContextualTwoStep(DynamicalSystem):
         return dmp_contextual
 
     def dim_dmp(self):
-        return self.dmp.dim_dmp
+        return self.dmp.dim_dmp()
 
     def set_task_params(self, task_params):
         dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.
-- 
2.43.0


From e0a5c96b4b49636247a3c8fbdd16c01db537de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 24/93] fix: integrate_start of DmpContextualTwoStep sets the
 goal as a vector

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index e8d4b56..899cac8 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -187,13 +187,7 @@ class DmpContextualTwoStep(DynamicalSystem):
         """
 
         # Predict dmp parameters from task parameters using the ppf
-        n_params = self.dmp.get_param_vector_size()
-        param_vector = np.zeros((n_params, 1))
-        for i_param in range(n_params):
-            param_vector[i_param] = self.ppf[i_param].predict(task_params)
-
-        # Set the dmp parameters
-        self.dmp.set_param_vector(param_vector)
+        self.set_task_params(task_params)
 
         return self.dmp.integrate_start(y_init)
 
-- 
2.43.0


From 1a97185a28b4f0c5afe40808ba054a3b0a01a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 25/93] fix: changing tau of a Dmp with sigmoid gating replays
 the same path

---
 dmpbbo/dmps/Dmp.py                       |  5 +++++
 dmpbbo/dynamicalsystems/SigmoidSystem.py | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 0f3f78a..782e852 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -594,6 +594,11 @@ class Dmp(DynamicalSystem, Parameterizable):
         if self._damping_system is not None:
             self._damping_system.tau *= tau_scale
 
+        # The rate of a sigmoid is not relative to its tau, so it has to be scaled also
+        for system in [self._phase_system, self._gating_system, self._goal_system]:
+            if isinstance(system, SigmoidSystem):
+                system.max_rate = system.max_rate / tau_scale
+
     @DynamicalSystem.y_init.setter
     def y_init(self, y_init_new):
         """ Set the initial state (y-part)
diff --git a/dmpbbo/dynamicalsystems/SigmoidSystem.py b/dmpbbo/dynamicalsystems/SigmoidSystem.py
index f675b33..608f8fc 100644
--- a/dmpbbo/dynamicalsystems/SigmoidSystem.py
+++ b/dmpbbo/dynamicalsystems/SigmoidSystem.py
@@ -114,6 +114,23 @@ class SigmoidSystem(DynamicalSystem):
         self.x_init = new_y_init
         self._Ks_cached = None  # Forces recomputing Ks
 
+    @property
+    def max_rate(self):
+        """ Get the maximum rate of change.
+
+        @return: Maximum rate of change
+        """
+        return self._max_rate
+
+    @max_rate.setter
+    def max_rate(self, new_max_rate):
+        """ Set the maximum rate of change.
+
+        @param new_max_rate: Maximum rate of change
+        """
+        self._max_rate = new_max_rate
+        self._Ks_cached = None  # Forces recomputing Ks
+
     def differential_equation(self, x):
         """ The differential equation which defines the system.
 
-- 
2.43.0


From 39bd93d7b209ce568649666104f628833c9187bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 26/93] fix: polynomial trajectory with non-zero initial
 acceleration reaches its final state

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 2310f76..682939d 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -320,8 +320,8 @@ class Trajectory:
         a1 = yd_from
         a2 = ydd_from / 2
 
-        a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
-        a4 = 15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
+        a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
+        a4 = 15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
         a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to - 3 * yd_to + 0.5 * ydd_to
 
         n_time_steps = ts.size
-- 
2.43.0


From 6c308a48d7b6157af3607613d4d97128ec91abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 27/93] fix: polynomial trajectory has the requested boundary
 velocities and accelerations

---
 dmpbbo/dmps/Trajectory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 682939d..18bf514 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -316,6 +316,11 @@ class Trajectory:
         @param ydd_to: Final accelerations
         @return:
         """
+        # The polynomial below is in normalized time, so scale the derivatives accordingly
+        duration = ts[-1] - ts[0]
+        yd_from, ydd_from = yd_from * duration, ydd_from * duration ** 2
+        yd_to, ydd_to = yd_to * duration, ydd_to * duration ** 2
+
         a0 = y_from
         a1 = yd_from
         a2 = ydd_from / 2
-- 
2.43.0


From 6d10af905a2cd1185be27f071bf3b3cd3bd2aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 28/93] fix: minimum-jerk trajectory for times that do not
 start at zero

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 18bf514..3a61139 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -413,8 +413,8 @@ class Trajectory:
         yds = np.zeros([n_time_steps, n_dims])
         ydds = np.zeros([n_time_steps, n_dims])
 
-        D = ts[n_time_steps - 1]  # noqa
-        tss = ts / D
+        D = ts[n_time_steps - 1] - ts[0]  # noqa
+        tss = (ts - ts[0]) / D
 
         A = y_to - y_from  # noqa
 
-- 
2.43.0


From 4914ced9484efcdb8b6695c77918c46f21d91f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 29/93] fix: viapoint trajectory is defined at the requested
 times and passes its viapoint once

---
 dmpbbo/dmps/Trajectory.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 3a61139..178bc1b 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -380,7 +380,7 @@ class Trajectory:
         ydd_to = np.zeros(n_dims)
 
         traj1 = Trajectory.from_polynomial(
-            ts[:viapoint_time_step],
+            ts[: viapoint_time_step + 1],
             y_from,
             yd_from,
             ydd_from,
@@ -393,9 +393,13 @@ class Trajectory:
             ts[viapoint_time_step:], y_viapoint, yd_viapoint, ydd_viapoint, y_to, yd_to, ydd_to
         )
 
-        traj1.append(traj2)
-
-        return traj1
+        # The last sample of traj1 and the first one of traj2 are the same (the viapoint)
+        return cls(
+            ts,
+            np.concatenate((traj1.ys[:-1], traj2.ys)),
+            np.concatenate((traj1.yds[:-1], traj2.yds)),
+            np.concatenate((traj1.ydds[:-1], traj2.ydds)),
+        )
 
     @classmethod
     def from_min_jerk(cls, ts, y_from, y_to):
-- 
2.43.0


From b874ecf6de941df8b0a4ddf57b1d4de596704195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 30/93] fix: mean time step of a trajectory is updated when
 samples are added or removed

---
 dmpbbo/dmps/Trajectory.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 178bc1b..e5f5481 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -214,6 +214,12 @@ class Trajectory:
         """
         return self._ys[-1]
 
+    def _update_dt_mean(self):
+        """ Recompute the mean time step, after samples have been added or removed.
+        """
+        if self._ts.size > 1:
+            self._dt_mean = np.mean(np.diff(self._ts))
+
     def set_start_time_to_zero(self):
         """ Reset all times so that the first time step is 0.0
         """
@@ -275,6 +281,7 @@ class Trajectory:
                 end = np.argmax(self._ts >= end)
 
         self._ts = self._ts[start:end]
+        self._update_dt_mean()
         self._ys = self._ys[start:end, :]
         self._yds = self._yds[start:end, :]
         self._ydds = self._ydds[start:end, :]
@@ -451,6 +458,8 @@ class Trajectory:
             self._misc = None
         else:
             self._misc = np.concatenate((self._misc, trajectory.misc))
+        self._update_dt_mean()
+
     def prepend(self, trajectory):
         """ Prepend another trajectory to this one.
 
@@ -468,6 +477,7 @@ class Trajectory:
             self._misc = None
         else:
             self._misc = np.concatenate((trajectory.misc, self._misc))
+        self._update_dt_mean()
 
     def as_matrix(self):
         """ Return the trajectory as a matrix.
-- 
2.43.0


From 8ac197b7f361e4eb5414317a1804c559df4dc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 31/93] fix: prepending trajectories which do not start at
 zero, or have only one sample

---
 dmpbbo/dmps/Trajectory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index e5f5481..0c7b2c9 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -468,7 +468,8 @@ class Trajectory:
         @param trajectory:  The trajectory to append.
         """
         self.set_start_time_to_zero()
-        self.ts[:] += trajectory.duration + trajectory._dt_mean
+        dt = trajectory.dt_mean if trajectory.length > 1 else self._dt_mean
+        self._ts = self._ts + trajectory.ts[-1] + dt
         self._ts = np.concatenate((trajectory.ts, self._ts))
         self._ys = np.concatenate((trajectory.ys, self._ys))
         self._yds = np.concatenate((trajectory.yds, self._yds))
-- 
2.43.0


From f8f5fbd5023d5f234625d1bf7ccf49b68c7087e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 32/93] fix: padding adds exactly the requested number of
 samples

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 0c7b2c9..f7307f1 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -289,7 +289,7 @@ class Trajectory:
             self._misc = self._misc[start:end, :]
 
     def pad_front(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
+        ts_padding = np.arange(n_padding) * self._dt_mean
         ys_padding = np.tile(self.y_init, (n_padding, 1))
         prepend_traj = Trajectory(
             ts_padding,
@@ -300,7 +300,7 @@ class Trajectory:
         self.prepend(prepend_traj)
 
     def pad_end(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
+        ts_padding = np.arange(n_padding) * self._dt_mean
         ys_padding = np.tile(self.y_final, (n_padding, 1))
         append_traj = Trajectory(
             ts_padding,
-- 
2.43.0


From 77fc4b46cb1c651aa0763c8a00c88ef68a888e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 33/93] fix: padding does not drop the miscellaneous variables

---
 dmpbbo/dmps/Trajectory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index f7307f1..447caca 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -296,6 +296,7 @@ class Trajectory:
             ys_padding,
             np.zeros((n_padding, self.yds.shape[1])),
             np.zeros((n_padding, self.ydds.shape[1])),
+            None if self._misc is None else np.tile(self._misc[0], (n_padding, 1)),
         )
         self.prepend(prepend_traj)
 
@@ -307,6 +308,7 @@ class Trajectory:
             ys_padding,
             np.zeros((n_padding, self.yds.shape[1])),
             np.zeros((n_padding, self.ydds.shape[1])),
+            None if self._misc is None else np.tile(self._misc[-1], (n_padding, 1)),
         )
         self.append(append_traj)
 
-- 
2.43.0


From d2ddb41462f9c0b890b43271bc76e5487910057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 34/93] fix: cropping by time keeps the last sample if it is
 before the end time

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 447caca..094a18e 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -273,9 +273,9 @@ class Trajectory:
                 # Get first index when time is larger than 'start'
                 start = np.argmax(self._ts >= start)
 
-            if end >= self._ts[-1]:
+            if end > self._ts[-1]:
                 # Time 'end' is larger than the last time in the trajectory
-                end = len(self._ts) - 1
+                end = len(self._ts)
             else:
                 # Get first index when time is smaller than 'end'
                 end = np.argmax(self._ts >= end)
-- 
2.43.0


From bdcfb90e67ad47bcd83865e2baaa56841056bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 35/93] fix: one-dimensional misc is treated like
 one-dimensional positions

---
 dmpbbo/dmps/Trajectory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 094a18e..9bd8cc7 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -56,6 +56,8 @@ class Trajectory:
         if misc is not None:
             if n_time_steps != misc.shape[0]:
                 raise ValueError("misc.shape[0] must have size {n_time_steps}")
+            if misc.ndim == 1:
+                misc = misc.reshape((n_time_steps, 1))
 
         self._dim = 1
         if ys.ndim == 2:
@@ -150,6 +152,8 @@ class Trajectory:
     def misc(self, new_misc):
         if new_misc.shape[0] != self.length:
             raise ValueError("new_misc.shape[0] must have size {self.length}")
+        if new_misc.ndim == 1:
+            new_misc = new_misc.reshape((self.length, 1))
         self._misc = new_misc
 
     def has_misc(self):
-- 
2.43.0


From d788dbaf29dbbd317de1a7faefadf87b31aee7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:32 +0000
Subject: [PATCH 36/93] fix: largest eigenvalue of a covariance matrix is a
 real number

---
 dmpbbo/bbo/DistributionGaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/DistributionGaussian.py b/dmpbbo/bbo/DistributionGaussian.py
index 63fc0e1..ab415c8 100644
--- a/dmpbbo/bbo/DistributionGaussian.py
+++ b/dmpbbo/bbo/DistributionGaussian.py
@@ -96,7 +96,7 @@ class DistributionGaussian:
 
         @return: largest eigenvalue of the covariance matrix of this distribution.
         """
-        return max(np.linalg.eigvals(self.covar))
+        return np.max(np.linalg.eigvalsh(self.covar))
 
     def __str__(self):
         """ Get a string representation of an object of this class.
-- 
2.43.0


From 19375cfc67462004e837f29b86b3ff320d6e0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:32 +0000
Subject: [PATCH 37/93] fix: limiting the diagonal of the covariance matrix
 keeps it positive semi-definite

---
 dmpbbo/bbo/updaters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dmpbbo/bbo/updaters.py b/dmpbbo/bbo/updaters.py
index d1ff0aa..98e1c57 100644
--- a/dmpbbo/bbo/updaters.py
+++ b/dmpbbo/bbo/updaters.py
@@ -193,6 +193,10 @@ class UpdaterCovarAdaptation(Updater):
                 if not is_scalar_max:
                     level_max = pow(self.diagonal_max[ii], 2)
                 if covar_new[ii, ii] > level_max:
+                    # Scale the covariances also, so that the matrix remains positive semi-definite
+                    scale = np.sqrt(level_max / covar_new[ii, ii])
+                    covar_new[ii, :] *= scale
+                    covar_new[:, ii] *= scale
                     covar_new[ii, ii] = level_max
 
         # Set a minimum value for the diagonal to avoid pre-mature convergence
-- 
2.43.0


From 531a347c99ba3b70b15b26321a71ec5b60df2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:32 +0000
Subject: [PATCH 38/93] fix: CMA-ES weights for an eliteness larger than the
 number of samples

---
 dmpbbo/bbo/updaters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dmpbbo/bbo/updaters.py b/dmpbbo/bbo/updaters.py
index 98e1c57..781296b 100644
--- a/dmpbbo/bbo/updaters.py
+++ b/dmpbbo/bbo/updaters.py
@@ -248,6 +248,7 @@ def costs_to_weights(costs, weighting_method, eliteness):
         mu = eliteness  # In CMA-ES, eliteness parameter is known as "mu"
         indices = np.argsort(costs)
         weights = np.full(costs.size, 0.0)
+        mu = min(mu, costs.size)  # There cannot be more elite samples than samples
         if weighting_method == "CEM":
             # CEM
             weights[indices[0:mu]] = 1.0 / mu
-- 
2.43.0


From 100d6ec1e291bf2407f1a0f6bfdf2200c0317efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:32 +0000
Subject: [PATCH 39/93] fix: bounded distribution without any bounds can be
 sampled

---
 dmpbbo/bbo/DistributionGaussianBounded.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dmpbbo/bbo/DistributionGaussianBounded.py b/dmpbbo/bbo/DistributionGaussianBounded.py
index 59b451f..3a9dc16 100644
--- a/dmpbbo/bbo/DistributionGaussianBounded.py
+++ b/dmpbbo/bbo/DistributionGaussianBounded.py
@@ -43,5 +43,7 @@ class DistributionGaussianBounded(DistributionGaussian):
 
     def generate_samples(self, n_samples=1):
         samples = super().generate_samples(n_samples)
+        if self.lower_bound is None and self.upper_bound is None:
+            return samples
         clipped_samples = samples.clip(self.lower_bound, self.upper_bound)
         return clipped_samples
-- 
2.43.0


From 7c261ddf8c363c218a624fc48470876f08c6f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 40/93] fix: object asked from disk is isolated from the cache
 of the learning session

---
 dmpbbo/bbo/LearningSession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index e04ad95..0d00281 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -390,7 +390,7 @@ class LearningSession:
 
             self._cache[basename] = obj
 
-            return obj
+            return copy.deepcopy(obj)
 
     def tell(self, obj, name, i_update=None, i_sample=None):
         """ Add an object to the database.
-- 
2.43.0


From 8f20a6f864ef46f1d3f34f86963772abd644e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 41/93] fix: saving an object replaces the one previously saved
 in another format

---
 dmpbbo/bbo/LearningSession.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 0d00281..274a851 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -429,6 +429,12 @@ class LearningSession:
             filename = f"{abs_basename}.json"
             jc.savejson(filename, obj)
 
+        # Remove what was previously saved under this name in another format
+        for extension in ["json", "txt", "csv"]:
+            filename_other = f"{abs_basename}.{extension}"
+            if filename_other != filename and os.path.isfile(filename_other):
+                os.remove(filename_other)
+
         return filename
 
     def save_all(self, directory):
-- 
2.43.0


From 84f2f0d3189e42c0e138a78ebaf42b070fb17d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 42/93] fix: numpy integers can be used as update and sample
 numbers

---
 dmpbbo/bbo/LearningSession.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 274a851..b51b94d 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -324,14 +324,14 @@ class LearningSession:
         @param i_sample:  The sample number to be prepended
         @return: The basename of a file.
         """
-        if isinstance(i_sample, int):
+        if isinstance(i_sample, (int, np.integer)):
             basename = f"{i_sample:03d}_{name}"  # e.g. 0 => "000_name"
         elif i_sample:
             basename = f"{i_sample}_{name}"  # e.g. "eval" => "eval_name"
         else:
             basename = name
 
-        if isinstance(i_update, int):
+        if isinstance(i_update, (int, np.integer)):
             # e.g. "update00023/000_name"
             basename = Path(f"update{i_update:05d}", basename)
 
-- 
2.43.0


From 46f661b22d82c01e8477646a83e7ca59ec6befbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 43/93] fix: number of updates of a learning session includes
 the last one

---
 dmpbbo/bbo/LearningSession.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index b51b94d..7185980 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -302,12 +302,18 @@ class LearningSession:
         @return: The number of updates that have already been performed.
         """
         if not self._root_dir:
-            return self._last_update_added
+            if self._last_update_added is None:
+                return 0
+            return self._last_update_added + 1
         else:
             update_dirs = sorted(glob(str(Path(self._root_dir, "update")) + "[0-9]*"))
+            if len(update_dirs) == 0:
+                return 0
             last_dir = update_dirs[-1]
             update_str = Path(last_dir).name.replace("update", "")
-            return int(update_str)
+            i_update = int(update_str)
+            # The last update may have been prepared only, i.e. still awaits its rollouts
+            return i_update + 1 if self.exists("weights", i_update) else i_update
 
     @staticmethod
     def get_base_name(name, i_update=None, i_sample=None):
-- 
2.43.0


From 9db176906dda2191084ee79ce6b635dcaa98adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 44/93] fix: cost ratio and learning curve plot for cost
 functions without components

---
 dmpbbo/bbo/LearningSession.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 7185980..681fb46 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -459,7 +459,7 @@ class LearningSession:
     def get_cost_ratio(self):
         before, after = self.get_eval_cost_before_after()
         # Only use total cost, not the cost components
-        return after[0] / before[0]
+        return np.atleast_1d(after)[0] / np.atleast_1d(before)[0]
 
     def get_eval_costs(self, i_update):
         """ Get the evaluation cost for a given update.
@@ -537,7 +537,7 @@ class LearningSession:
         costs = []
         for i_update in range(self.get_n_updates()):
             sample_costs = self.get_sample_costs(i_update)
-            costs.extend([c[0] for c in sample_costs])  # Only include sum
+            costs.extend([np.atleast_1d(c)[0] for c in sample_costs])  # Only include sum
         ax.plot(costs, ".", color="gray")
 
         # Plot learning curve itself
-- 
2.43.0


From 6ca0ec5061421ff2a8d6c8e17f1f71b1c1deb586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 45/93] fix: save_all of a learning session on disk saves
 everything

---
 dmpbbo/bbo/LearningSession.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 681fb46..41d0bb0 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -21,6 +21,7 @@ import argparse
 import copy
 import inspect
 import os
+import shutil
 import warnings
 from glob import glob
 from pathlib import Path
@@ -448,6 +449,10 @@ class LearningSession:
 
         @param directory: The directory to save the objects to.
         """
+        root_dir = self._root_dir
+        if root_dir is not None and Path(root_dir).resolve() != Path(directory).resolve():
+            # Objects which have not been asked for yet are not in the cache
+            shutil.copytree(root_dir, directory, dirs_exist_ok=True)
         for basename, obj in self._cache.items():
             LearningSession.save(obj, directory, basename)
 
-- 
2.43.0


From a1a586d35975a6e2ef63e3129f81c577a2cbf888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 46/93] fix: Dmp can be the first object stored in a learning
 session directory

---
 dmpbbo/bbo_of_dmps/LearningSessionTask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dmpbbo/bbo_of_dmps/LearningSessionTask.py b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
index e92d1ad..060ecd2 100644
--- a/dmpbbo/bbo_of_dmps/LearningSessionTask.py
+++ b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
@@ -17,6 +17,7 @@
 """ Module for the LearningSessionTask class. """
 
 import inspect
+import os
 from pathlib import Path
 
 import numpy as np
@@ -55,6 +56,7 @@ class LearningSessionTask(LearningSession):
             if self._root_dir is not None:
                 basename = self.get_base_name(name, i_update, i_sample)
                 abs_basename = Path(self._root_dir, basename)
+                os.makedirs(os.path.dirname(abs_basename), exist_ok=True)
                 jc.savejson(f"{abs_basename}.json", obj)
                 jc.savejson_for_cpp(f"{abs_basename}_for_cpp.json", obj)
 
-- 
2.43.0


From 9104aab0e48e2824316a5ed52c31afa3846cdf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:15 +0000
Subject: [PATCH 47/93] fix: step-by-step optimization with one sample or
 parameter survives a restart

---
 dmpbbo/bbo_of_dmps/step_by_step_optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo_of_dmps/step_by_step_optimization.py b/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
index 646c7c6..5b8cd72 100644
--- a/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
+++ b/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
@@ -16,6 +16,8 @@
 # along with DmpBbo.  If not, see <http://www.gnu.org/licenses/>.
 """ Module with functions to run the optimization of a task in multiple updates. """
 
+import numpy as np
+
 from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
 
 
@@ -126,7 +128,8 @@ def update_step(session, i_update, save_trajectory=False):
     # 3. Update parameters
     print("UPDATING DISTRIBUTION")
     distribution_prev = session.ask("distribution", i_update)
-    samples = session.ask("samples", i_update)
+    # Reshape, because reading one sample or parameter from file yields a one-dimensional array
+    samples = np.reshape(session.ask("samples", i_update), (n_samples, -1))
     updater = session.ask("updater")
 
     distribution_new, weights = updater.update_distribution(
-- 
2.43.0


From 0b7c267bc70761b138b1f177e6347027773d758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:43 +0000
Subject: [PATCH 48/93] fix: C++ dynamical systems and Dmps compile with
 current Eigen and json versions

---
 src/dmp/Dmp.cpp                             | 11 ++++++-----
 src/dynamicalsystems/ExponentialSystem.cpp  |  6 ++++--
 src/dynamicalsystems/SigmoidSystem.cpp      |  3 ++-
 src/dynamicalsystems/SpringDamperSystem.cpp |  6 ++++--
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 6a752e4..8e67c25 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -548,10 +548,10 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
 
   double alpha_spring_damper = j.at("_spring_system").at("damping_coefficient");
 
-  VectorXd y_init = j.at("_y_init");
-  VectorXd y_attr = j.at("_y_attr");
-  // from_json(j.at("_y_init"), y_init);
-  // from_json(j.at("_y_attr"), y_attr);
+  VectorXd y_init;
+  Eigen::from_json(j.at("_y_init"), y_init);
+  VectorXd y_attr;
+  Eigen::from_json(j.at("_y_attr"), y_attr);
 
   ExponentialSystem* goal_system;
   DynamicalSystem *phase_system, *gating_system;
@@ -560,7 +560,8 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   gating_system = j.at("_gating_system").get<DynamicalSystem*>();
 
   string forcing_term_scaling = j.at("_forcing_term_scaling");
-  VectorXd scaling_amplitudes = j.at("_scaling_amplitudes");
+  VectorXd scaling_amplitudes;
+  Eigen::from_json(j.at("_scaling_amplitudes"), scaling_amplitudes);
 
   int n_dims = y_attr.size();
   vector<FunctionApproximator*> function_approximators;
diff --git a/src/dynamicalsystems/ExponentialSystem.cpp b/src/dynamicalsystems/ExponentialSystem.cpp
index 39158a1..18cdccc 100644
--- a/src/dynamicalsystems/ExponentialSystem.cpp
+++ b/src/dynamicalsystems/ExponentialSystem.cpp
@@ -92,8 +92,10 @@ void from_json(const nlohmann::json& j, ExponentialSystem*& obj)
 {
   double tau = j.at("_tau");
   double alpha = j.at("alpha");
-  VectorXd x_init = j.at("_x_init");
-  VectorXd x_attr = j.at("_x_attr");
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
+  VectorXd x_attr;
+  Eigen::from_json(j.at("_x_attr"), x_attr);
 
   obj = new ExponentialSystem(tau, x_init, x_attr, alpha);
 }
diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 0cd2dfd..6355884 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -167,7 +167,8 @@ void from_json(const nlohmann::json& j, SigmoidSystem*& obj)
   double tau = j.at("_tau");
   double max_rate = j.at("_max_rate");
   double inflection_point_time = j.at("_inflection_ratio");
-  VectorXd x_init = j.at("_x_init");
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
 
   obj = new SigmoidSystem(tau, x_init, max_rate, inflection_point_time);
 }
diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index b170029..a6f7654 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -168,8 +168,10 @@ void from_json(const nlohmann::json& j, SpringDamperSystem*& obj)
   double spring_constant = j.at("spring_constant");
   double mass = j.at("mass");
 
-  VectorXd y_attr = j.at("_y_attr");
-  VectorXd x_init = j.at("_x_init");
+  VectorXd y_attr;
+  Eigen::from_json(j.at("_y_attr"), y_attr);
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
   VectorXd y_init = x_init.segment(0, y_attr.size());
 
   obj = new SpringDamperSystem(tau, y_init, y_attr, damping_coefficient,
-- 
2.43.0


From 0692e9d742f38d1de9b5ea947ce026f1d3aba6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 49/93] fix: Dmp without delayed goal system can be read from
 and written to json in C++

---
 src/dmp/Dmp.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 8e67c25..2317c48 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -553,9 +553,10 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   VectorXd y_attr;
   Eigen::from_json(j.at("_y_attr"), y_attr);
 
-  ExponentialSystem* goal_system;
+  ExponentialSystem* goal_system = NULL;
   DynamicalSystem *phase_system, *gating_system;
-  goal_system = j.at("_goal_system").get<ExponentialSystem*>();
+  if (!j.at("_goal_system").is_null())
+    goal_system = j.at("_goal_system").get<ExponentialSystem*>();
   phase_system = j.at("_phase_system").get<DynamicalSystem*>();
   gating_system = j.at("_gating_system").get<DynamicalSystem*>();
 
@@ -584,7 +585,10 @@ void Dmp::to_json_helper(nlohmann::json& j) const
 
   j["_spring_system"]["damping_coefficient"] =
       spring_system_->damping_coefficient();
-  j["_goal_system"] = goal_system_;
+  if (goal_system_ == NULL)
+    j["_goal_system"] = nullptr;
+  else
+    j["_goal_system"] = goal_system_;
   j["_phase_system"] = phase_system_;
   j["_gating_system"] = gating_system_;
   j["_forcing_term_scaling"] = forcing_term_scaling_;
-- 
2.43.0


From b432ba38242e88d4b96a1c103a8db959b7aa8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 50/93] fix: Dmp without function approximators can be
 integrated and printed in C++

---
 src/dmp/Dmp.cpp | 10 +++++++++-
 src/dmp/Dmp.hpp |  7 +++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 2317c48..53b9dec 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -307,6 +307,10 @@ void Dmp::differentialEquation(const Eigen::Ref<const Eigen::VectorXd>& x,
 
   // Compute output of the funciton approximators
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
+    if (!has_function_approximator(i_dim)) {
+      fa_output_prealloc_(0, i_dim) = 0.0;
+      continue;
+    }
     function_approximators_[i_dim]->predictRealTime(x.PHASE,
                                                     fa_output_one_prealloc_);
     fa_output_prealloc_(0, i_dim) = fa_output_one_prealloc_(0, 0);
@@ -420,6 +424,7 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
 
   MatrixXd fa_output_one_dim(n_time_steps, 1);
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
+    if (!has_function_approximator(i_dim)) continue;
     function_approximators_[i_dim]->predict(xs_phase, fa_output_one_dim);
     fa_outputs.col(i_dim) = fa_output_one_dim;
   }
@@ -592,7 +597,10 @@ void Dmp::to_json_helper(nlohmann::json& j) const
   j["_phase_system"] = phase_system_;
   j["_gating_system"] = gating_system_;
   j["_forcing_term_scaling"] = forcing_term_scaling_;
-  j["_function_approximators"] = function_approximators_;
+  j["_function_approximators"] = nullptr;
+  for (int i_dim = 0; i_dim < dim_y(); i_dim++)
+    if (has_function_approximator(i_dim))
+      j["_function_approximators"].push_back(function_approximators_[i_dim]);
   j["class"] = "Dmp";
 }
 
diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index 49a7838..51a95dc 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -424,6 +424,13 @@ class Dmp : public DynamicalSystem {
 
   /** @} */  // end of group_nonlinear
 
+  /** Check if there is a function approximator for a certain dimension. */
+  inline bool has_function_approximator(int i_dim) const
+  {
+    return i_dim < (int)function_approximators_.size() &&
+           function_approximators_[i_dim] != NULL;
+  }
+
   /** Pre-allocated memory to avoid allocating run-time (for real-time). */
   mutable Eigen::VectorXd y_init_prealloc_;
 
-- 
2.43.0


From b512462fbad85a7bc292c8d579fb28ff6fd84ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 51/93] fix: all constructors of the C++ Dmp make room for the
 states of the subsystems

---
 src/dmp/Dmp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 53b9dec..447fcde 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -104,7 +104,7 @@ Dmp::Dmp(int n_dims_dmp,
          double alpha_spring_damper, ExponentialSystem* goal_system,
          DynamicalSystem* phase_system, DynamicalSystem* gating_system,
          std::string scaling, Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       goal_system_(goal_system),
       phase_system_(phase_system),
@@ -120,7 +120,7 @@ Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -133,7 +133,7 @@ Dmp::Dmp(int n_dims_dmp,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -144,7 +144,7 @@ Dmp::Dmp(int n_dims_dmp,
 
 Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          double alpha_spring_damper, ExponentialSystem* goal_system)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_("NO_SCALING"),
       scaling_amplitudes_(VectorXd::Zero(0))
-- 
2.43.0


From e48385c3b04784753e48a379fb083b36c84c6a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 52/93] fix: default gating system of the C++ Dmp is relative
 to tau

---
 src/dmp/Dmp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 447fcde..740868c 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -175,7 +175,7 @@ void Dmp::initSubSystems(std::string dmp_type)
   } else if (dmp_type == "KULVICIUS_2012_JOINING" ||
              dmp_type == "COUNTDOWN_2013") {
     goal_system = new ExponentialSystem(tau(), y_init(), y_attr_, 15);
-    gating_system = new SigmoidSystem(tau(), one_1, -10, 0.9 * tau());
+    gating_system = new SigmoidSystem(tau(), one_1, -10 / tau(), 0.9);
     bool count_down = (dmp_type == "COUNTDOWN_2013");
     phase_system = new TimeSystem(tau(), count_down);
   }
-- 
2.43.0


From 97f7596ceb820f462fd7c9fb3631b1f176c0d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 53/93] fix: spring constant and mass are used in the C++
 Dmp::analyticalSolution

---
 src/dmp/Dmp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 740868c..ee8f64e 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -472,8 +472,9 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
   // THE REST CANNOT BE DONE ANALYTICALLY
 
   // Reset the dynamical system, and get the first state
-  double damping = spring_system_->damping_coefficient();
-  SpringDamperSystem localspring_system_(tau(), y_init(), y_attr_, damping);
+  SpringDamperSystem localspring_system_(
+      tau(), y_init(), y_attr_, spring_system_->damping_coefficient(),
+      spring_system_->spring_constant(), spring_system_->mass());
 
   // Set first attractor state
   localspring_system_.set_y_attr(xs_goal.row(0));
-- 
2.43.0


From b3c2e4b0fb924eef98853e3f649277f924c55f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 54/93] fix: spring constant and mass of a Dmp are read from
 json in C++

---
 src/dmp/Dmp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index ee8f64e..08f9f3f 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -583,6 +583,9 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   obj = new Dmp(tau, y_init, y_attr, function_approximators,
                 alpha_spring_damper, goal_system, phase_system, gating_system,
                 forcing_term_scaling, scaling_amplitudes);
+  obj->spring_system_->set_spring_constant(
+      j.at("_spring_system").at("spring_constant"));
+  obj->spring_system_->set_mass(j.at("_spring_system").at("mass"));
 }
 
 void Dmp::to_json_helper(nlohmann::json& j) const
-- 
2.43.0


From b78709ddfc3f8af2a5b6af8b1b66cbbe0ea32442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 55/93] fix: get_y_init of the C++ Dmp does not allocate memory

---
 src/dmp/Dmp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index 51a95dc..d3a00b1 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -346,8 +346,8 @@ class Dmp : public DynamicalSystem {
    */
   inline void get_y_init(Eigen::VectorXd& y_init) const
   {
-    // x = [y z etc], return only y part
-    y_init = x_init().segment(0, dim_y());
+    // This does not allocate memory, in contrast to x_init()
+    DynamicalSystem::get_y_init(y_init);
   }
 
   /** Set the initial state of the dynamical system.
-- 
2.43.0


From b17ebdebefb146360f6f9f0be92c948eb5a3a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 56/93] fix: set_y_init of the C++ Dmp sets the initial state
 of all subsystems

---
 src/dmp/Dmp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index d3a00b1..bba4d4e 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -355,7 +355,7 @@ class Dmp : public DynamicalSystem {
    */
   inline void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
   {
-    set_x_init(y_init);
+    set_y_init(Eigen::VectorXd(y_init));
   }
 
   /** Read an object from json.
-- 
2.43.0


From 4de7815d177976bae3e2e7a1d5d727d8009ae59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 57/93] fix: set_y_init of the C++ SigmoidSystem recomputes its
 carrying capacity

---
 src/dynamicalsystems/SigmoidSystem.cpp | 6 ++++++
 src/dynamicalsystems/SigmoidSystem.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 6355884..5d75c95 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -62,6 +62,12 @@ void SigmoidSystem::set_x_init(const VectorXd& x_init)
   Ks_ = SigmoidSystem::computeKs(x_init, max_rate_, inflection_point_time);
 }
 
+void SigmoidSystem::set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
+{
+  // For this first order system, y and x are the same
+  set_x_init(y_init);
+}
+
 VectorXd SigmoidSystem::computeKs(const VectorXd& N_0s, double r,
                                   double inflection_point_time_time)
 {
diff --git a/src/dynamicalsystems/SigmoidSystem.hpp b/src/dynamicalsystems/SigmoidSystem.hpp
index a084fce..b8537cd 100644
--- a/src/dynamicalsystems/SigmoidSystem.hpp
+++ b/src/dynamicalsystems/SigmoidSystem.hpp
@@ -63,6 +63,7 @@ class SigmoidSystem : public DynamicalSystem {
 
   void set_tau(double tau);
   void set_x_init(const Eigen::VectorXd& x_init);
+  void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init);
 
   /** Read an object from json.
    *  \param[in]  j   json input
-- 
2.43.0


From f01cdac6f1234a94240e729fae9e7fab68e120dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 58/93] fix: changing tau of a C++ Dmp with sigmoid gating
 replays the same path

---
 src/dmp/Dmp.cpp                        | 19 +++++++++++++------
 src/dynamicalsystems/SigmoidSystem.cpp |  7 +++++++
 src/dynamicalsystems/SigmoidSystem.hpp |  2 ++
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 08f9f3f..15eae15 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -516,15 +516,22 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
   }
 }
 
-void Dmp::set_tau(double tau)
+void Dmp::set_tau(double new_tau)
 {
-  DynamicalSystem::set_tau(tau);
+  // The rate of a sigmoid system is not relative to tau
+  double tau_ratio = tau() / new_tau;
+  for (DynamicalSystem* system : {phase_system_, gating_system_}) {
+    SigmoidSystem* sigmoid = dynamic_cast<SigmoidSystem*>(system);
+    if (sigmoid != NULL) sigmoid->set_max_rate(tau_ratio * sigmoid->max_rate());
+  }
+
+  DynamicalSystem::set_tau(new_tau);
 
   // Set value in all relevant subsystems also
-  spring_system_->set_tau(tau);
-  if (goal_system_ != NULL) goal_system_->set_tau(tau);
-  phase_system_->set_tau(tau);
-  gating_system_->set_tau(tau);
+  spring_system_->set_tau(new_tau);
+  if (goal_system_ != NULL) goal_system_->set_tau(new_tau);
+  phase_system_->set_tau(new_tau);
+  gating_system_->set_tau(new_tau);
 }
 
 void Dmp::set_y_init(const Eigen::VectorXd& y_init)
diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 5d75c95..b69a780 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -54,6 +54,13 @@ void SigmoidSystem::set_tau(double new_tau)
   Ks_ = SigmoidSystem::computeKs(x_init(), max_rate_, inflection_point_time);
 }
 
+void SigmoidSystem::set_max_rate(double max_rate)
+{
+  max_rate_ = max_rate;
+  double inflection_point_time = inflection_ratio_ * tau();
+  Ks_ = SigmoidSystem::computeKs(x_init(), max_rate_, inflection_point_time);
+}
+
 void SigmoidSystem::set_x_init(const VectorXd& x_init)
 {
   assert(x_init.size() == dim());
diff --git a/src/dynamicalsystems/SigmoidSystem.hpp b/src/dynamicalsystems/SigmoidSystem.hpp
index b8537cd..e31c0f5 100644
--- a/src/dynamicalsystems/SigmoidSystem.hpp
+++ b/src/dynamicalsystems/SigmoidSystem.hpp
@@ -62,6 +62,8 @@ class SigmoidSystem : public DynamicalSystem {
                           Eigen::MatrixXd& xds) const;
 
   void set_tau(double tau);
+  double max_rate(void) const { return max_rate_; }
+  void set_max_rate(double max_rate);
   void set_x_init(const Eigen::VectorXd& x_init);
   void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init);
 
-- 
2.43.0


From 66fba749cc9f514173d3ee04d9350c16b152ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 59/93] fix: analytical solution of the C++ SpringDamperSystem
 with non-zero initial velocity

---
 src/dynamicalsystems/SpringDamperSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index a6f7654..e7b74e1 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -124,7 +124,7 @@ void SpringDamperSystem::analyticalSolution(const VectorXd& ts, MatrixXd& xs,
   // Eigen::replicate().
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
     double y0 = x_ini[i_dim] - y_attr_[i_dim];
-    double yd0 = x_ini[dim_y() + i_dim];
+    double yd0 = x_ini[dim_y() + i_dim] / tau();  // Because z = yd*tau
 
     double A = y0;
     double B = yd0 + omega_0 * y0;
-- 
2.43.0


From ae7730aa22973fb3ad0d5431ed429aefd04e8a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 60/93] fix: critical damping of the C++ SpringDamperSystem
 takes the mass into account

---
 src/dynamicalsystems/SpringDamperSystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index e7b74e1..d88b0ed 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -46,7 +46,8 @@ SpringDamperSystem::SpringDamperSystem(double tau, Eigen::VectorXd y_init,
 {
   if (spring_constant_ == CRITICALLY_DAMPED)
     spring_constant_ =
-        damping_coefficient_ * damping_coefficient_ / 4;  // Critically damped
+        damping_coefficient_ * damping_coefficient_ /
+        (4 * mass_);  // Critically damped
 
   // Order 2 system: these variables are half the size of state dimensionality
   y_ = VectorXd(dim() / 2);
-- 
2.43.0


From cb8a9f856c273ee414897cb1586a463d787d8460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 61/93] fix: initial velocity of the SpringDamperSystem is read
 from json in C++

---
 src/dynamicalsystems/SpringDamperSystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index d88b0ed..15325b0 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -177,6 +177,7 @@ void from_json(const nlohmann::json& j, SpringDamperSystem*& obj)
 
   obj = new SpringDamperSystem(tau, y_init, y_attr, damping_coefficient,
                                spring_constant, mass);
+  obj->set_x_init(x_init);
 }
 
 void SpringDamperSystem::to_json_helper(nlohmann::json& j) const
-- 
2.43.0


From 258a888b9a5155f484e5d1013ad2e31c1fb1f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 62/93] fix: C++ minimum-jerk trajectory for times that do not
 start at zero

---
 src/dmp/Trajectory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index be4b8cb..821b6a6 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -149,8 +149,8 @@ Trajectory Trajectory::generateMinJerkTrajectory(const VectorXd& ts,
   MatrixXd ys(n_time_steps, n_dims), yds(n_time_steps, n_dims),
       ydds(n_time_steps, n_dims);
 
-  double D = ts[n_time_steps - 1];
-  ArrayXd tss = (ts / D).array();
+  double D = ts[n_time_steps - 1] - ts[0];
+  ArrayXd tss = (ts.array() - ts[0]) / D;
 
   ArrayXd A = y_to.array() - y_from.array();
 
-- 
2.43.0


From b8dd3bb943eb85ce2fc4da9987be33202b249760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 63/93] fix: C++ polynomial trajectory with non-zero initial
 acceleration reaches its final state

---
 src/dmp/Trajectory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index 821b6a6..ddd12a0 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -180,10 +180,10 @@ Trajectory Trajectory::generatePolynomialTrajectory(
   VectorXd a1 = yd_from;
   VectorXd a2 = ydd_from / 2;
 
-  VectorXd a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to -
+  VectorXd a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to -
                 4 * yd_to + 0.5 * ydd_to;
   VectorXd a4 =
-      15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to;
+      15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to;
   VectorXd a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to -
                 3 * yd_to + 0.5 * ydd_to;
 
-- 
2.43.0


From eb2abd436fd73d40e59fd39e866a8c81611fc425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:34 +0000
Subject: [PATCH 64/93] fix: C++ polynomial trajectory has the requested
 boundary velocities and accelerations

---
 src/dmp/Trajectory.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index ddd12a0..2839265 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -172,10 +172,17 @@ Trajectory Trajectory::generateMinJerkTrajectory(const VectorXd& ts,
 }
 
 Trajectory Trajectory::generatePolynomialTrajectory(
-    const VectorXd& ts, const VectorXd& y_from, const VectorXd& yd_from,
-    const VectorXd& ydd_from, const VectorXd& y_to, const VectorXd& yd_to,
-    const VectorXd& ydd_to)
+    const VectorXd& ts, const VectorXd& y_from, const VectorXd& yd_start,
+    const VectorXd& ydd_start, const VectorXd& y_to, const VectorXd& yd_end,
+    const VectorXd& ydd_end)
 {
+  // The polynomial below is in normalized time: scale derivatives accordingly
+  double duration = ts[ts.size() - 1] - ts[0];
+  VectorXd yd_from = yd_start * duration;
+  VectorXd yd_to = yd_end * duration;
+  VectorXd ydd_from = ydd_start * duration * duration;
+  VectorXd ydd_to = ydd_end * duration * duration;
+
   VectorXd a0 = y_from;
   VectorXd a1 = yd_from;
   VectorXd a2 = ydd_from / 2;
-- 
2.43.0


From b7548b2c35a52d3fe43a6c555e9b35f526e05559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:34 +0000
Subject: [PATCH 65/93] fix: loadMatrix handles trailing whitespace and empty
 lines

---
 src/eigenutils/eigen_file_io.tpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/eigenutils/eigen_file_io.tpp b/src/eigenutils/eigen_file_io.tpp
index 5ecc4ab..dae4553 100644
--- a/src/eigenutils/eigen_file_io.tpp
+++ b/src/eigenutils/eigen_file_io.tpp
@@ -49,16 +49,15 @@ inline bool loadMatrix(
   std::vector<Scalar> v;
   int n_rows = 0;
   while (getline(input, line)) {
-    ++n_rows;
     std::stringstream input_line(line);
-    while (!input_line.eof()) {
-      input_line >> d;
-      v.push_back(d);
-    }
+    size_t n_values_before = v.size();
+    while (input_line >> d) v.push_back(d);
+    // Ignore empty lines
+    if (v.size() > n_values_before) ++n_rows;
   }
   input.close();
 
-  int n_cols = v.size() / n_rows;
+  int n_cols = (n_rows == 0) ? 0 : v.size() / n_rows;
   m = Eigen::Matrix<Scalar, RowsAtCompileTime, ColsAtCompileTime>(n_rows,
                                                                   n_cols);
 
-- 
2.43.0


From 84b4b4c132696cd9a2851b8829acfe3ba30a6f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:34 +0000
Subject: [PATCH 66/93] fix: saveMatrix to a directory reports whether saving
 was successful

---
 src/eigenutils/eigen_file_io.tpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/eigenutils/eigen_file_io.tpp b/src/eigenutils/eigen_file_io.tpp
index dae4553..188f69e 100644
--- a/src/eigenutils/eigen_file_io.tpp
+++ b/src/eigenutils/eigen_file_io.tpp
@@ -92,9 +92,7 @@ inline bool saveMatrix(
   }
 
   filename = directory + "/" + filename;
-  saveMatrix(filename, matrix, overwrite);
-
-  return true;
+  return saveMatrix(filename, matrix, overwrite);
 }
 
 /** Save an Eigen matrix to an ASCII file.
-- 
2.43.0


From a810078e438ccc832fac50346a35d2f4f44f6472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:38 +0000
Subject: [PATCH 67/93] fix: prepending a trajectory to itself keeps times
 increasing

---
 dmpbbo/dmps/Trajectory.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 9bd8cc7..1bf02ee 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -473,10 +473,9 @@ class Trajectory:
 
         @param trajectory:  The trajectory to append.
         """
-        self.set_start_time_to_zero()
         dt = trajectory.dt_mean if trajectory.length > 1 else self._dt_mean
-        self._ts = self._ts + trajectory.ts[-1] + dt
-        self._ts = np.concatenate((trajectory.ts, self._ts))
+        ts_self = (self._ts - self._ts[0]) + (trajectory.ts[-1] + dt)
+        self._ts = np.concatenate((trajectory.ts, ts_self))
         self._ys = np.concatenate((trajectory.ys, self._ys))
         self._yds = np.concatenate((trajectory.yds, self._yds))
         self._ydds = np.concatenate((trajectory.ydds, self._ydds))
-- 
2.43.0


From d1616b94c605c5ae3cf568de5546d668c5e9ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:57:33 +0000
Subject: [PATCH 68/93] fix: setting y_init of a Dmp does not change the values
 its y_init property returned before

---
 dmpbbo/dmps/Dmp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 782e852..51a9a9c 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -608,7 +608,9 @@ class Dmp(DynamicalSystem, Parameterizable):
         if y_init_new.size != self.dim_dmp():
             raise ValueError("y_init must have same size {self.dim_dmp()}")
         self._y_init = np.array(y_init_new, dtype=float)
-        self._x_init[: self._dim_y] = self._y_init  # So that the y_init property returns it
+        # So that the y_init property returns it. A new array, so that the values returned before
+        # by this property do not change.
+        self._x_init = np.concatenate((self._y_init, self._x_init[self._dim_y :]))
 
         # Set value in all relevant subsystems also
         self._spring_system.y_init = y_init_new
-- 
2.43.0


From b93c7e9ed13a72d206982b5087b5cbc299aec24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:08:44 +0000
Subject: [PATCH 69/93] fix: viapoint trajectories in C++ do not fail the join
 assertion because of rounding errors

---
 src/dmp/Trajectory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index 2839265..577d10f 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -254,6 +254,11 @@ Trajectory Trajectory::generatePolynomialTrajectoryThroughViapoint(
   Trajectory traj = Trajectory::generatePolynomialTrajectory(
       ts.segment(0, viapoint_time_step + 1), y_from, yd_from, ydd_from,
       y_viapoint, yd_viapoint, ydd_viapoint);
+  // The last sample is the viapoint only up to rounding errors, which are large
+  // for the accelerations if there is little time until the viapoint.
+  traj.ys_.row(viapoint_time_step) = y_viapoint.transpose();
+  traj.yds_.row(viapoint_time_step) = yd_viapoint.transpose();
+  traj.ydds_.row(viapoint_time_step) = ydd_viapoint.transpose();
   traj.append(Trajectory::generatePolynomialTrajectory(
       ts.segment(viapoint_time_step, n_time_steps - viapoint_time_step),
       y_viapoint, yd_viapoint, ydd_viapoint, y_to, yd_to, ydd_to));
-- 
2.43.0


From e37ad428da3d47ecb86767892eeb878f36e667ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:48 +0000
Subject: [PATCH 70/93] fix: training data saved in a function approximator
 does not change with the arrays passed to train()

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index a6452a8..0d008de 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -51,8 +51,9 @@ class FunctionApproximator(Parameterizable):
         self._model_params = self._train(inputs, targets, self._meta_params, **kwargs)
         self._dim_input = inputs.shape[1]
         if kwargs.get("save_training_data", False):
-            self._inputs_training = inputs
-            self._targets_training = targets
+            # Copies, because the caller may change the arrays after training
+            self._inputs_training = np.array(inputs)
+            self._targets_training = np.array(targets)
         return self._model_params
 
     def predict(self, inputs):
-- 
2.43.0


From 4c229717c354babb91a634bf4c1258222eaa28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:48 +0000
Subject: [PATCH 71/93] fix: plotting a contextual DMP restores the initial
 state, attractor state and parameters of the DMP

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index 899cac8..1fa8ec6 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -242,6 +242,9 @@ class DmpContextualTwoStep(DynamicalSystem):
         hs = []
         cmap = cm.copper  # noqa
         prev_tau = self.dmp.tau
+        prev_y_init = self.dmp.y_init
+        prev_y_attr = self.dmp.y_attr
+        prev_param_vector = self.dmp.get_param_vector()
         for task_param, traj_demo in task_params_and_trajs:
 
             self.dmp.tau = traj_demo.duration
@@ -262,5 +265,8 @@ class DmpContextualTwoStep(DynamicalSystem):
                 ax.axvline(self.dmp.tau, color=color, linewidth=1)
 
         self.dmp.tau = prev_tau
+        self.dmp.y_init = prev_y_init
+        self.dmp.y_attr = prev_y_attr
+        self.dmp.set_param_vector(prev_param_vector)
 
         return hs, axs
-- 
2.43.0


From f1602534b2712e75a6d3f18498455e4d2be19a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:48 +0000
Subject: [PATCH 72/93] fix: plot_learning_curve does not add a label to the
 list of the caller

---
 dmpbbo/bbo/LearningSession.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 41d0bb0..a3f546b 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -113,8 +113,7 @@ def plot_learning_curve(learning_curve, **kwargs):
     ax.set_title("Learning curve")
 
     if cost_labels is not None:
-        cost_labels.insert(0, "total cost")
-        plt.legend(lines, cost_labels)
+        plt.legend(lines, ["total cost", *cost_labels])
 
     plot_update_lines(samples_eval, ax)
 
-- 
2.43.0


From f872fbfdb431cd90a4e51518452d1d4b712638b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:48 +0000
Subject: [PATCH 73/93] fix: plotting an update with one sample that was read
 from file does not raise an IndexError

---
 dmpbbo/bbo/LearningSession.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index a3f546b..aa2c61d 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -180,7 +180,9 @@ def plot_update(distribution, samples, weights, distribution_new, **kwargs):
         distr_new_mean = distribution_new.mean[0:2]
         # distr_new_covar = distribution_new.covar[0:2, 0:2]
         if samples is not None:
-            samples = samples[:, 0:2]
+            # A single sample read from file is one-dimensional
+            samples = np.atleast_2d(samples)[:, 0:2]
+            weights = np.atleast_1d(weights)
 
         if plot_samples:
             max_marker_size = 80
-- 
2.43.0


From e0abee4b7eb2564a6bfd1f1bd18c5bd87b83b0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:59 +0000
Subject: [PATCH 74/93] fix: rollouts of a learning session without a stored
 task can be plotted

---
 dmpbbo/bbo_of_dmps/LearningSessionTask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo_of_dmps/LearningSessionTask.py b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
index 060ecd2..60f51ae 100644
--- a/dmpbbo/bbo_of_dmps/LearningSessionTask.py
+++ b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
@@ -137,7 +137,7 @@ class LearningSessionTask(LearningSession):
         plot_eval = kwargs.get("plot_eval", True)
         plot_samples = kwargs.get("plot_samples", False)
 
-        task = self.ask("task")
+        task = self.ask("task") if self.exists("task") else None
         lines_eval = []
         if plot_eval and self.exists("cost_vars", i_update, "eval"):
             cost_vars = self.ask("cost_vars", i_update, "eval")
-- 
2.43.0


From c54052ec60d941a4a15c342cf6fe4f80a1b0a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:59 +0000
Subject: [PATCH 75/93] fix: a DMP keeps its own copy of the times and
 trajectory it was trained on

---
 dmpbbo/dmps/Dmp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 51a9a9c..8f013cc 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -472,10 +472,11 @@ class Dmp(DynamicalSystem, Parameterizable):
         # This is just a convenience function to be able to call
         # analytical_solution without the "ts" argument.
         if kwargs.get("save_training_data", False):
-            self._trajectory_train = trajectory
+            self._trajectory_train = copy.deepcopy(trajectory)
 
         # Always stored for backwards compatibility.
-        self._ts_train = trajectory.ts
+        # A copy, because the caller may change the trajectory after training.
+        self._ts_train = np.array(trajectory.ts)
 
     def _compute_targets(self, trajectory):
         """Given a trajectory, compute the inputs and targets for the function approximators.
-- 
2.43.0


From 95ffbee102ff7e2430c401edc21b35faf3a991eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:17:04 +0000
Subject: [PATCH 76/93] fix: a function approximator does not plot the data of
 a previous training

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 0d008de..51e66ed 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -54,6 +54,10 @@ class FunctionApproximator(Parameterizable):
             # Copies, because the caller may change the arrays after training
             self._inputs_training = np.array(inputs)
             self._targets_training = np.array(targets)
+        else:
+            # Do not keep the data of a previous call of train(), it would be plotted otherwise
+            self._inputs_training = None
+            self._targets_training = None
         return self._model_params
 
     def predict(self, inputs):
-- 
2.43.0


From 9dfbe4cc9f51fe111ddf47a1bfd1700a497b7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:21:12 +0000
Subject: [PATCH 77/93] fix: costs of a single sample per update read from file
 keep their dimension for the samples

---
 dmpbbo/bbo/LearningSession.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index aa2c61d..e12e57d 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -498,7 +498,11 @@ class LearningSession:
             # One file for each sample
             n = self._n_samples_per_update
             sample_costs = [self.ask("costs", i_update, s) for s in range(n)]
-        return np.array(sample_costs)
+        sample_costs = np.array(sample_costs)
+        if self._n_samples_per_update == 1 and sample_costs.ndim < 2 and sample_costs.shape != (1,):
+            # The costs of a single sample read from file are not two-dimensional
+            sample_costs = sample_costs.reshape((1, -1))
+        return sample_costs
 
     def get_learning_curve(self):
         """ Get the learning curve from this learning session.
-- 
2.43.0


From 0cbd66635bef0c2a55a047f49310d5468b41d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:51:41 +0000
Subject: [PATCH 78/93] fix: demos set the title of their windows with every
 version of matplotlib

---
 demos/python/bbo/demo_bbo.py                              | 2 +-
 demos/python/bbo_of_dmps/arm2D/demo_bbo_of_dmps_arm2D.py  | 2 +-
 demos/python/bbo_of_dmps/demo_bbo_of_dmps.py              | 2 +-
 .../with_schedules/demo_bbo_of_dmps_with_gains.py         | 2 +-
 demos/python/dmps/demo_dmp.py                             | 6 +++---
 demos/python/dmps/demo_dmp_parameterizable.py             | 2 +-
 demos/python/dmps/demo_trajectory.py                      | 8 ++++----
 .../python/dmps/with_schedules/demo_dmp_with_schedules.py | 6 +++---
 .../demo_dmp_with_schedules_parameterizable.py            | 2 +-
 .../functionapproximators/demo_function_approximators.py  | 2 +-
 .../demo_function_approximators_parameterizable.py        | 2 +-
 demos/robot/step1_train_dmp_from_trajectory_file.py       | 2 +-
 12 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/demos/python/bbo/demo_bbo.py b/demos/python/bbo/demo_bbo.py
index 285a6c4..2437ff6 100644
--- a/demos/python/bbo/demo_bbo.py
+++ b/demos/python/bbo/demo_bbo.py
@@ -93,7 +93,7 @@ def main():
             cost_function, distribution, updater, n_updates, n_samples_per_update, cur_directory
         )
         fig = session.plot()
-        fig.canvas.set_window_title(f"Optimization with covar_update={name}")
+        fig.canvas.manager.set_window_title(f"Optimization with covar_update={name}")
 
     plt.show()
 
diff --git a/demos/python/bbo_of_dmps/arm2D/demo_bbo_of_dmps_arm2D.py b/demos/python/bbo_of_dmps/arm2D/demo_bbo_of_dmps_arm2D.py
index 1c07ca0..64ddc28 100644
--- a/demos/python/bbo_of_dmps/arm2D/demo_bbo_of_dmps_arm2D.py
+++ b/demos/python/bbo_of_dmps/arm2D/demo_bbo_of_dmps_arm2D.py
@@ -105,7 +105,7 @@ def main(directory=None):
         task, task_solver, distribution, updater, n_updates, n_samples_per_update, directory
     )
     fig = session.plot()
-    fig.canvas.set_window_title(f"Optimization with covar_update={covar_update}")
+    fig.canvas.manager.set_window_title(f"Optimization with covar_update={covar_update}")
 
     plt.show()
 
diff --git a/demos/python/bbo_of_dmps/demo_bbo_of_dmps.py b/demos/python/bbo_of_dmps/demo_bbo_of_dmps.py
index d650c93..90939f8 100644
--- a/demos/python/bbo_of_dmps/demo_bbo_of_dmps.py
+++ b/demos/python/bbo_of_dmps/demo_bbo_of_dmps.py
@@ -99,7 +99,7 @@ def run_demo(directory, traj):
         task, task_solver, distribution, updater, n_updates, n_samples_per_update, directory
     )
     fig = session.plot()
-    fig.canvas.set_window_title(f"Optimization with covar_update={covar_update}")
+    fig.canvas.manager.set_window_title(f"Optimization with covar_update={covar_update}")
 
 
 def main():
diff --git a/demos/python/bbo_of_dmps/with_schedules/demo_bbo_of_dmps_with_gains.py b/demos/python/bbo_of_dmps/with_schedules/demo_bbo_of_dmps_with_gains.py
index 9be66ba..449525a 100644
--- a/demos/python/bbo_of_dmps/with_schedules/demo_bbo_of_dmps_with_gains.py
+++ b/demos/python/bbo_of_dmps/with_schedules/demo_bbo_of_dmps_with_gains.py
@@ -264,7 +264,7 @@ def run_optimization(stochastic_field, directory=None):
         session.set_style(handle, i_update, n_updates)
 
     window_label = "stochastic" if stochastic_field else "constant"
-    plt.gcf().canvas.set_window_title(window_label + " force field")
+    plt.gcf().canvas.manager.set_window_title(window_label + " force field")
     return session
 
 
diff --git a/demos/python/dmps/demo_dmp.py b/demos/python/dmps/demo_dmp.py
index d7b80a0..cf6007e 100644
--- a/demos/python/dmps/demo_dmp.py
+++ b/demos/python/dmps/demo_dmp.py
@@ -63,10 +63,10 @@ def main():
             xs_step[tt, :], xds_step[tt, :] = dmp.integrate_step(dt, xs_step[tt - 1, :])
 
         dmp.plot(ts, plot_no_forcing_term_also=True, plot_demonstration=traj)
-        plt.gcf().canvas.set_window_title(f"Analytical integration ({dmp_type})")
+        plt.gcf().canvas.manager.set_window_title(f"Analytical integration ({dmp_type})")
 
         dmp.plot(ts, xs_step, xds_step)
-        plt.gcf().canvas.set_window_title(f"Step-by-step integration ({dmp_type})")
+        plt.gcf().canvas.manager.set_window_title(f"Step-by-step integration ({dmp_type})")
 
         lines, axs = traj.plot()
         plt.setp(lines, linestyle="-", linewidth=4, color=(0.8, 0.8, 0.8))
@@ -84,7 +84,7 @@ def main():
 
         plt.legend()
         t = f"Comparison between demonstration and reproduced ({dmp_type})"
-        plt.gcf().canvas.set_window_title(t)
+        plt.gcf().canvas.manager.set_window_title(t)
 
     plt.show()
 
diff --git a/demos/python/dmps/demo_dmp_parameterizable.py b/demos/python/dmps/demo_dmp_parameterizable.py
index e16afc7..34d0814 100644
--- a/demos/python/dmps/demo_dmp_parameterizable.py
+++ b/demos/python/dmps/demo_dmp_parameterizable.py
@@ -70,7 +70,7 @@ def main():
             xs, xds, forcing, fas = dmp.analytical_solution(ts)
             h, _ = dmp.plot(ts, xs, xds, forcing_terms=forcing, fa_outputs=fas, axs=axs)
             plt.setp(h, color=[0.6, 0.0, 0.0], linewidth=1)
-        plt.gcf().canvas.set_window_title(f"Perturbation of  {selected_param_names}")
+        plt.gcf().canvas.manager.set_window_title(f"Perturbation of  {selected_param_names}")
 
     plt.show()
 
diff --git a/demos/python/dmps/demo_trajectory.py b/demos/python/dmps/demo_trajectory.py
index 42dd6c1..398af81 100644
--- a/demos/python/dmps/demo_trajectory.py
+++ b/demos/python/dmps/demo_trajectory.py
@@ -34,11 +34,11 @@ def main():
 
     traj_min_jerk = Trajectory.from_min_jerk(ts, y_first, y_last)
     traj_min_jerk.plot()
-    plt.gcf().canvas.set_window_title("min-jerk trajectory")
+    plt.gcf().canvas.manager.set_window_title("min-jerk trajectory")
 
     traj = Trajectory.from_polynomial(ts, y_first, yd_first, ydd_first, y_last, yd_last, ydd_last)
     traj.plot()
-    plt.gcf().canvas.set_window_title("polynomial trajectory")
+    plt.gcf().canvas.manager.set_window_title("polynomial trajectory")
 
     y_yd_ydd_viapoint = np.array([-0.2, 0.3, 0.0, 0.0, 0, 0])
     viapoint_time = 0.4 * ts[-1]
@@ -50,7 +50,7 @@ def main():
     traj.plot(axs)
     axs[0].plot(viapoint_time, y_yd_ydd_viapoint[0], "ok")
     axs[0].plot(viapoint_time, y_yd_ydd_viapoint[1], "ok")
-    plt.gcf().canvas.set_window_title("polynomial viapoint trajectory")
+    plt.gcf().canvas.manager.set_window_title("polynomial viapoint trajectory")
 
     # Do low-pass filtering
     # Make a noisy trajectory
@@ -69,7 +69,7 @@ def main():
     plt.setp(lines[0], label="filtered trajectory")
     axs[0].legend()
 
-    plt.gcf().canvas.set_window_title("low-pass filtering")
+    plt.gcf().canvas.manager.set_window_title("low-pass filtering")
 
     plt.show()
 
diff --git a/demos/python/dmps/with_schedules/demo_dmp_with_schedules.py b/demos/python/dmps/with_schedules/demo_dmp_with_schedules.py
index 5c11608..6d6eaa0 100644
--- a/demos/python/dmps/with_schedules/demo_dmp_with_schedules.py
+++ b/demos/python/dmps/with_schedules/demo_dmp_with_schedules.py
@@ -82,10 +82,10 @@ def main():
         forcing_terms=forcing_terms_ana,
         fa_outputs=fa_outputs_ana,
     )
-    plt.gcf().canvas.set_window_title(f"Analytical integration")
+    plt.gcf().canvas.manager.set_window_title(f"Analytical integration")
 
     dmp.plot_sched(ts, xs_step, xds_step, schs_step)
-    plt.gcf().canvas.set_window_title(f"Step-by-step integration")
+    plt.gcf().canvas.manager.set_window_title(f"Step-by-step integration")
 
     lines, axs = traj.plot()
     plt.setp(lines, linestyle="-", linewidth=4, color=(0.8, 0.8, 0.8))
@@ -98,7 +98,7 @@ def main():
 
     plt.legend()
     t = f"Comparison between demonstration and reproduced"
-    plt.gcf().canvas.set_window_title(t)
+    plt.gcf().canvas.manager.set_window_title(t)
 
     plt.show()
 
diff --git a/demos/python/dmps/with_schedules/demo_dmp_with_schedules_parameterizable.py b/demos/python/dmps/with_schedules/demo_dmp_with_schedules_parameterizable.py
index 8e16b12..7a4ff0b 100644
--- a/demos/python/dmps/with_schedules/demo_dmp_with_schedules_parameterizable.py
+++ b/demos/python/dmps/with_schedules/demo_dmp_with_schedules_parameterizable.py
@@ -78,7 +78,7 @@ def main():
                 ts, xs, xds, scheds, forcing_terms=forcing, fa_outputs=fas, axs=axs
             )
             plt.setp(h, color=[0.6, 0.0, 0.0], linewidth=1)
-        plt.gcf().canvas.set_window_title(f"Perturbation of  {selected_param_names}")
+        plt.gcf().canvas.manager.set_window_title(f"Perturbation of  {selected_param_names}")
 
     plt.show()
 
diff --git a/demos/python/functionapproximators/demo_function_approximators.py b/demos/python/functionapproximators/demo_function_approximators.py
index 6a92849..bc52d53 100644
--- a/demos/python/functionapproximators/demo_function_approximators.py
+++ b/demos/python/functionapproximators/demo_function_approximators.py
@@ -92,7 +92,7 @@ def train(fa_name, n_dims):
     # Plotting
     h, ax = fa.plot(inputs, targets=targets, plot_residuals=True, plot_model_parameters=True)
     ax.set_title(f"{fa_name} {n_dims}D")
-    plt.gcf().canvas.set_window_title(f"{fa_name} {n_dims}D")
+    plt.gcf().canvas.manager.set_window_title(f"{fa_name} {n_dims}D")
 
 
 def main():
diff --git a/demos/python/functionapproximators/demo_function_approximators_parameterizable.py b/demos/python/functionapproximators/demo_function_approximators_parameterizable.py
index ed5ed1a..52e4a66 100644
--- a/demos/python/functionapproximators/demo_function_approximators_parameterizable.py
+++ b/demos/python/functionapproximators/demo_function_approximators_parameterizable.py
@@ -125,7 +125,7 @@ def train(fa_name, n_dims):
             plt.setp(h, color=[0.5, 0.5, 1.0], linewidth=w / 2)
 
         ax.set_title(f"{fa_name} {n_dims}D\n({noise} noise)")
-        plt.gcf().canvas.set_window_title(f"{fa_name} {n_dims}D")
+        plt.gcf().canvas.manager.set_window_title(f"{fa_name} {n_dims}D")
 
 
 def main():
diff --git a/demos/robot/step1_train_dmp_from_trajectory_file.py b/demos/robot/step1_train_dmp_from_trajectory_file.py
index b6ba689..cee9840 100644
--- a/demos/robot/step1_train_dmp_from_trajectory_file.py
+++ b/demos/robot/step1_train_dmp_from_trajectory_file.py
@@ -116,7 +116,7 @@ def main():
             plt.setp(h_demo, linestyle="-", linewidth=4, color=(0.8, 0.8, 0.8), label=d)
             plt.setp(h_repr, linestyle="--", linewidth=2, color=(0.0, 0.0, 0.5), label="reproduced")
             plt.legend()
-            plt.gcf().canvas.set_window_title(f"Comparison {d}/reproduced  (n_bfs={n_bfs})")
+            plt.gcf().canvas.manager.set_window_title(f"Comparison {d}/reproduced  (n_bfs={n_bfs})")
             plt.gcf().suptitle(f"Comparison {d}/reproduced  (n_bfs={n_bfs})")
             if args.save:
                 plt.gcf().savefig(Path(args.output_directory, f"trajectory_comparison_{n_bfs}.png"))
-- 
2.43.0


From d50fa67975a3c8bbc51c5771c1b7de33f7774834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:51:42 +0000
Subject: [PATCH 79/93] fix: 2D arm uses the link lengths it is given, and
 equal ones by default

---
 demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py b/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py
index 11de431..6de6714 100644
--- a/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py
+++ b/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py
@@ -30,7 +30,7 @@ class TaskSolverDmpArm2D(TaskSolverDmp):
 
     def __init__(self, dmp, dt, integrate_dmp_beyond_tau_factor, link_lengths=None):
         super().__init__(dmp, dt, integrate_dmp_beyond_tau_factor)
-        if link_lengths is not None or len(link_lengths)>0:
+        if link_lengths is None or len(link_lengths) == 0:
             n_dofs = dmp.dim_dmp()
             # Every link has same length, and they sum to 1.0
             link_lengths = np.full(n_dofs, 1.0 / n_dofs)
-- 
2.43.0


From 836d816b1cd26e83dca8b0a552e633583e793cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:51:42 +0000
Subject: [PATCH 80/93] fix: demo of contextual DMP plots the demonstrations

---
 demos/python/dmps/demo_contextual_dmp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/demos/python/dmps/demo_contextual_dmp.py b/demos/python/dmps/demo_contextual_dmp.py
index 5d5e43e..12be324 100644
--- a/demos/python/dmps/demo_contextual_dmp.py
+++ b/demos/python/dmps/demo_contextual_dmp.py
@@ -57,8 +57,7 @@ def main():
         params_and_trajs, fas_dmp, ["weights"], fa_ppf, dmp_type=dmp_type, save_training_data=True
     )
 
-    traj_demos = [pt[1] for pt in params_and_trajs]
-    dmp_contextual.plot(plot_demonstrations=traj_demos, plot_no_forcing_term_also=True)
+    dmp_contextual.plot(params_and_trajs)
     plt.show()
 
 
-- 
2.43.0


From bbe7da24504db689b9c460548e753b64d85208d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:51:42 +0000
Subject: [PATCH 81/93] fix: releasing the ball does not change the recorded
 accelerations of the hand

---
 demos/robot/TaskThrowBall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/robot/TaskThrowBall.py b/demos/robot/TaskThrowBall.py
index c4416fe..cf172bd 100644
--- a/demos/robot/TaskThrowBall.py
+++ b/demos/robot/TaskThrowBall.py
@@ -138,7 +138,7 @@ def run_python_simulation(dmp, y_floor=-0.3):
             # If the ball is in your hand, it moves along with your hand
             ys_ball[ii, :] = ys[ii, :]
             yd_ball = yds[ii, :]
-            ydd_ball = ydds[ii, :]  # noqa
+            ydd_ball = ydds[ii, :].copy()  # noqa
 
             if ts[ii] > 0.6:
                 # Release the ball to throw it!
-- 
2.43.0


From 564d2c5d8bf3ff1b5d8123265e32c98b3857f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:51:42 +0000
Subject: [PATCH 82/93] fix: robot programs write to the file they are told to,
 also with an absolute path

---
 demos/robot/robotExecuteDmp.cpp        | 2 +-
 demos/robot/robotExecuteTrajectory.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/robot/robotExecuteDmp.cpp b/demos/robot/robotExecuteDmp.cpp
index 93e655b..dd33636 100644
--- a/demos/robot/robotExecuteDmp.cpp
+++ b/demos/robot/robotExecuteDmp.cpp
@@ -97,7 +97,7 @@ int main(int n_args, char** args)
   // Save cost_vars to file
   bool overwrite = true;
   cout << "C++ Writing   -> " << cost_vars_filename << endl;
-  saveMatrix("./", cost_vars_filename, cost_vars, overwrite);
+  saveMatrix(cost_vars_filename, cost_vars, overwrite);
 
   delete dmp;
 
diff --git a/demos/robot/robotExecuteTrajectory.cpp b/demos/robot/robotExecuteTrajectory.cpp
index d727f5a..477faab 100644
--- a/demos/robot/robotExecuteTrajectory.cpp
+++ b/demos/robot/robotExecuteTrajectory.cpp
@@ -89,7 +89,7 @@ int main(int n_args, char** args)
   // Save cost_vars to file
   bool overwrite = true;
   cout << "C++ Writing   -> " << cost_vars_filename << endl;
-  saveMatrix("./", cost_vars_filename, cost_vars, overwrite);
+  saveMatrix(cost_vars_filename, cost_vars, overwrite);
 
   return 0;
 }
-- 
2.43.0


From ad8d01b1cea603d3a0c5c50cf0283f2202b9f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:51:42 +0000
Subject: [PATCH 83/93] fix: plot of a single rollout can be saved

---
 demos/robot/plot_rollouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/robot/plot_rollouts.py b/demos/robot/plot_rollouts.py
index 563dcc8..66fb4b2 100644
--- a/demos/robot/plot_rollouts.py
+++ b/demos/robot/plot_rollouts.py
@@ -36,7 +36,7 @@ def main():
     parser.add_argument("--save", action="store_true", help="save result plots to png")
     args = parser.parse_args()
 
-    directory = None
+    directory = os.path.dirname(args.input)
     if os.path.isdir(args.input):
         directory = args.input
         cost_vars_filenames = glob(str(Path(directory, "*cost_vars*.txt")))
-- 
2.43.0


From 31f1e829bd25f9060666cfffa6b9319c6abc6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:51:42 +0000
Subject: [PATCH 84/93] fix: plot of a learning session of a task returns the
 figure handle

---
 dmpbbo/bbo_of_dmps/LearningSessionTask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo_of_dmps/LearningSessionTask.py b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
index 60f51ae..f379ca0 100644
--- a/dmpbbo/bbo_of_dmps/LearningSessionTask.py
+++ b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
@@ -178,4 +178,4 @@ class LearningSessionTask(LearningSession):
         self.plot_rollouts(axs[1])
         self.plot_exploration_curve(axs[2])
         self.plot_learning_curve(axs[3])
-        return axs
+        return axs[0].figure
-- 
2.43.0


From 1d7284d4c3a43e0a5659963f352a55d97fcc8a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:52:46 +0000
Subject: [PATCH 85/93] fix: acceleration cost of the viapoint task does not
 depend on the goal time

---
 demos/python/bbo_of_dmps/TaskViapoint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/python/bbo_of_dmps/TaskViapoint.py b/demos/python/bbo_of_dmps/TaskViapoint.py
index ccf1dff..1482b14 100644
--- a/demos/python/bbo_of_dmps/TaskViapoint.py
+++ b/demos/python/bbo_of_dmps/TaskViapoint.py
@@ -151,8 +151,8 @@ class TaskViapoint(Task):
         if self.goal_weight > 0.0 and self.goal is not None:
             after_goal_indices = ts >= self.goal_time
             ys_after_goal = ys[after_goal_indices, :]
-            n_time_steps = ys_after_goal.shape[0]
-            goal_repeat = np.repeat(np.atleast_2d(self.goal), n_time_steps, axis=0)
+            n_after_goal = ys_after_goal.shape[0]
+            goal_repeat = np.repeat(np.atleast_2d(self.goal), n_after_goal, axis=0)
             delay_cost_mean = np.mean(np.linalg.norm(ys_after_goal - goal_repeat, axis=1))
 
         costs = np.zeros(1 + 4)
-- 
2.43.0


From 8fdca57f72af3a833dc78838e3fe4142251bd482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:59:31 +0000
Subject: [PATCH 86/93] fix: legend of a learning curve is on the axes of the
 learning curve

---
 dmpbbo/bbo/LearningSession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index e12e57d..fa7316e 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -113,7 +113,7 @@ def plot_learning_curve(learning_curve, **kwargs):
     ax.set_title("Learning curve")
 
     if cost_labels is not None:
-        plt.legend(lines, ["total cost", *cost_labels])
+        ax.legend(lines, ["total cost", *cost_labels])
 
     plot_update_lines(samples_eval, ax)
 
-- 
2.43.0


From 9a14a786c610b69f539797dabd2a31de190b86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:05:42 +0000
Subject: [PATCH 87/93] fix: plotting a dynamical system does not change the
 settings of all figures, nor require LaTeX

---
 dmpbbo/dynamicalsystems/DynamicalSystem.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/DynamicalSystem.py b/dmpbbo/dynamicalsystems/DynamicalSystem.py
index ae78e53..4fb3750 100644
--- a/dmpbbo/dynamicalsystems/DynamicalSystem.py
+++ b/dmpbbo/dynamicalsystems/DynamicalSystem.py
@@ -257,10 +257,6 @@ class DynamicalSystem(ABC):
             fig = kwargs.get("fig") or plt.figure(figsize=(5 * n_plots, 4))
             axs = [fig.add_subplot(1, n_plots, p + 1) for p in range(n_plots)]
 
-        # Prepare tex interpretation
-        plt.rc("text", usetex=True)
-        plt.rc("font", family="serif")
-
         if dim_x == dim_y:
 
             lines = axs[0].plot(ts, xs)
-- 
2.43.0


From 2cb578991707d6859b29039bdc2fad272458fdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:05:42 +0000
Subject: [PATCH 88/93] fix: schedules are plotted in the figure of the other
 axes, and the list of axes of the caller is not changed

---
 dmpbbo/dmps/DmpWithSchedules.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index 66beb45..fbcd8dc 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -267,7 +267,7 @@ class DmpWithSchedules(Dmp):
         kwargs["n_subplot_columns"] = 5  # Add column to plot schedule
         lines, axs = super().plot(ts, xs, xds, **kwargs)
 
-        ax = plt.gcf().add_subplot(2, 5, 10)
+        ax = axs[0].figure.add_subplot(2, 5, 10)
 
         h = ax.plot(ts, schedules)
         x = np.mean(ax.get_xlim())
@@ -277,5 +277,4 @@ class DmpWithSchedules(Dmp):
         ax.set_ylabel(r"schedules")
 
         lines.extend(h)
-        axs.append(ax)
-        return lines, axs
+        return lines, [*axs, ax]
-- 
2.43.0


From c773e8eb935a1b820f175af46549383acd9548b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:32:55 +0000
Subject: [PATCH 89/93] fix: a function approximator can be plotted for inputs
 other than those it was trained on

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 51e66ed..ab66ed0 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -348,7 +348,12 @@ class FunctionApproximator(Parameterizable):
                 inputs = self._inputs_training
 
         ax = kwargs.get("ax") or self._get_axis()
-        targets = kwargs.get("targets", self._targets_training)
+        targets = kwargs.get("targets", None)
+        if targets is None:
+            # The targets for training belong to the inputs for training
+            inputs_2d = inputs.reshape(inputs.shape[0], -1)
+            is_training_data = np.array_equal(inputs_2d, self._inputs_training)
+            targets = self._targets_training if is_training_data else []
         plot_residuals = kwargs.get("plot_residuals", True)
         plot_model_parameters = kwargs.get("plot_model_parameters", False)
 
-- 
2.43.0


From f77188a0d29198a37c406f4e33ad7a12f2336904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:33:19 +0000
Subject: [PATCH 90/93] fix: initializing a contextual DMP from a DMP does not
 change the selected parameters of that DMP

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index 1fa8ec6..1ef0a79 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -159,7 +159,8 @@ class DmpContextualTwoStep(DynamicalSystem):
         fas = dmp._function_approximators  # noqa
         dmp_contextual = cls(dmp.tau, dmp.y_init, dmp.y_attr, fas)
         # Replace the dmp that was constructed in the above by the one that was passed.
-        dmp_contextual.dmp = dmp
+        # A copy, because training selects the parameters of the dmp.
+        dmp_contextual.dmp = copy.deepcopy(dmp)
 
         dmp_contextual.train(task_params_and_trajs, param_names, ppf_function_app, **kwargs)
 
-- 
2.43.0


From fa7fda8cdb15ecf495511fdcbf858857d6f15af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:33:19 +0000
Subject: [PATCH 91/93] fix: duration and initial state of a contextual DMP are
 those of its movement

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index 1ef0a79..68b7496 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -166,6 +166,24 @@ class DmpContextualTwoStep(DynamicalSystem):
 
         return dmp_contextual
 
+    @property
+    def tau(self):
+        """ Get the time constant, which is that of the underlying DMP. """
+        return self.dmp.tau
+
+    @tau.setter
+    def tau(self, new_tau):
+        self.dmp.tau = new_tau
+
+    @property
+    def y_init(self):
+        """ Get the initial state (y-part), which is that of the underlying DMP. """
+        return self.dmp.y_init
+
+    @y_init.setter
+    def y_init(self, y_init_new):
+        self.dmp.y_init = y_init_new
+
     def dim_dmp(self):
         return self.dmp.dim_dmp()
 
-- 
2.43.0


From d37b6c4f4e72a6751959fabe8af132c8c90d2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:33:19 +0000
Subject: [PATCH 92/93] fix: policy parameter functions can be plotted for one
 parameter, two task parameters, or without training data

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index 68b7496..4fe957a 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -226,12 +226,14 @@ class DmpContextualTwoStep(DynamicalSystem):
         axs = kwargs.get("axs", None)
         if axs is None:
             n_rows = int(np.ceil(np.sqrt(len(self.ppf))))
-            _, axs = plt.subplots(n_rows, n_rows)
+            subplot_kw = {"projection": "3d"} if self.ppf[0].dim_input() == 2 else {}
+            _, axs = plt.subplots(n_rows, n_rows, squeeze=False, subplot_kw=subplot_kw)
             axs = axs.flatten()
         hs = []
         for i_param, fa in enumerate(self.ppf):
             h, _ = fa.plot(ax=axs[i_param], **kwargs)
-            hs.extend(h)
+            if h is not None:
+                hs.extend(h if isinstance(h, list) else [h])
         return hs, axs
 
     def plot(self, task_params_and_trajs, **kwargs):
-- 
2.43.0


From cff60d764928ad9ac94eb773b875e0f7d8f3b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:01 +0000
Subject: [PATCH 93/93] fix: selection of parameters does not change when the
 caller changes the list of names

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index ab66ed0..8eb98f6 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -117,7 +117,7 @@ class FunctionApproximator(Parameterizable):
         """
         if isinstance(names, str):
             names = [names]  # Convert to list
-        self._selected_param_names = names
+        self._selected_param_names = list(names)
 
     def get_param_vector(self):
         if self._selected_param_names is None:
-- 
2.43.0


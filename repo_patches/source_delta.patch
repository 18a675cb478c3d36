From 511e59bdea3fc1b51734f946722e3a696c8420fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:07 +0000
Subject: [PATCH 01/21] fix: save a State without touching the simulation it
 belongs to

State.save() stripped the force callables of the shared body (and the setup
and constitutive law of the state) for the time of pickling and put them back
only if the write succeeded. A failed or interrupted save therefore left the
running simulation without forces, and a save made from another thread made
them disappear in the middle of a step. Poisson problems, whose callables live
in the temperature sources, could not be saved at all.
---
 conmech/state/state.py | 43 ++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index a4646c8..87002d2 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -6,6 +6,29 @@ import pickle
 
 import numpy as np
 
+from conmech.scene.body_forces import FieldSource
+
+
+class StatePickler(pickle.Pickler):
+    """
+    Leaves user-supplied callables (which in general can not be pickled) out of the file
+    without touching the objects being saved, so the simulation they belong to is not disturbed.
+    """
+
+    def __init__(self, file, root: "State"):
+        super().__init__(file)
+        self.root = root
+
+    def reducer_override(self, obj):
+        if isinstance(obj, FieldSource):
+            return type(obj), (None, obj.cache, obj.timestamp)
+        if obj is self.root:
+            func, args, attributes, *rest = obj.__reduce_ex__(2)
+            return func, args, {**attributes, "setup": None, "constitutive_law": None}, *rest
+        if isinstance(obj, State):
+            return type(None), ()  # other states of the same body are not a part of this one
+        return NotImplemented
+
 
 class State:
     def __init__(self, body):
@@ -110,27 +133,15 @@ class State:
         return copy
 
     def save(self, path):
-        fos = self.body.dynamics.force.outer.source
-        self.body.dynamics.force.outer.source = None
-        fis = self.body.dynamics.force.inner.source
-        self.body.dynamics.force.inner.source = None
-        s = self.setup
-        self.setup = None
-        cl = self.constitutive_law
-        self.constitutive_law = None
-
         with open(path, "wb+") as file:
-            pickle.dump(self, file)
-
-        self.body.dynamics.force.outer.source = fos
-        self.body.dynamics.force.inner.source = fis
-        self.setup = s
-        self.constitutive_law = cl
+            StatePickler(file, root=self).dump(self)
 
     @classmethod
     def load(cls, path):
         with open(path, "rb") as file:
-            return pickle.load(file)
+            state = pickle.load(file)
+        state.body.state = state
+        return state
 
 
 class TemperatureState(State):
-- 
2.43.0


From 89153ab0ab0d688084222cf9a56f020d0547b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:07 +0000
Subject: [PATCH 02/21] fix: replace a saved State atomically

State.save() truncated the previous file before the new one was written, so a
crash or a full disk in the middle of saving destroyed both. Write to a
temporary file beside it, sync it and rename.
---
 conmech/state/state.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index 87002d2..e60e6a4 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -2,7 +2,10 @@
 Created at 18.02.2021
 """
 
+import contextlib
+import os
 import pickle
+import threading
 
 import numpy as np
 
@@ -133,8 +136,19 @@ class State:
         return copy
 
     def save(self, path):
-        with open(path, "wb+") as file:
-            StatePickler(file, root=self).dump(self)
+        # the file under `path` is always complete: either the previous one or the new one
+        path = os.path.realpath(path)
+        temporary = f"{path}.{os.getpid()}-{threading.get_ident()}.tmp"
+        try:
+            with open(temporary, "wb") as file:
+                StatePickler(file, root=self).dump(self)
+                file.flush()
+                os.fsync(file.fileno())
+            os.replace(temporary, path)
+        except BaseException:
+            with contextlib.suppress(OSError):
+                os.remove(temporary)
+            raise
 
     @classmethod
     def load(cls, path):
-- 
2.43.0


From 7d84cf8793c4cd5ed12f2d56fb72207c060cc38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:38 +0000
Subject: [PATCH 03/21] fix: start every solve() of a time dependent solver at
 the initial time

The solvers kept the time at which the previous (or interrupted) solve()
stopped, so solving again with the same solver object applied the forces of
a wrong time and made the first step last from 0 to that time.
---
 conmech/simulations/problem_solver.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 72e097a..210b24f 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -395,6 +395,8 @@ class QuasistaticRelaxation(ProblemSolver):
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
 
+        self.step_solver.current_time = state.time
+
         self.step_solver.b_vector[:] = state.absement.T.ravel().copy()
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.iterate()
@@ -462,6 +464,8 @@ class TimeDependentSolver(ProblemSolver):
         )
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
 
+        self.step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.iterate()
@@ -538,6 +542,9 @@ class TemperatureTimeDependentSolver(ProblemSolver):
         solution = state.velocity.reshape(2, -1)
         solution_t = state.temperature
 
+        self.step_solver.current_time = state.time
+        self.second_step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.t_vector[:] = state.temperature.T.ravel().copy()
@@ -631,6 +638,9 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
         solution = state.velocity.reshape(2, -1)
         solution_t = state.electric_potential
 
+        self.step_solver.current_time = state.time
+        self.second_step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.p_vector[:] = state.electric_potential.T.ravel().copy()
-- 
2.43.0


From 864be8ac8bc77a412c3be4ffca1840b02177548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:38 +0000
Subject: [PATCH 04/21] fix: never pair a cached field source with a wrong time

An interrupt between storing the values and storing their time (or a call to
clear()) left values of one time labelled with another.
---
 conmech/scene/body_forces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conmech/scene/body_forces.py b/conmech/scene/body_forces.py
index 40dd7b9..d8b2ae9 100644
--- a/conmech/scene/body_forces.py
+++ b/conmech/scene/body_forces.py
@@ -50,6 +50,7 @@ class FieldSource:
     def node_source(self, nodes, time: float):
         # pylint: disable=not-callable
         if time != self.timestamp:
+            self.timestamp = None  # the cache is valid only if it was filled to the end
             self.cache = np.array([self.source(nodes[i], time) for i in range(len(nodes))])
             self.timestamp = time
         return self.cache
@@ -62,7 +63,9 @@ class BodyForces:
         self.outer = FieldSource()
 
     def clear(self):
+        self.inner.timestamp = None
         self.inner.cache = None
+        self.outer.timestamp = None
         self.outer.cache = None
 
     def get_integrated_inner_forces(self, time: float):
-- 
2.43.0


From 56f5acae5de995d713a4d8c8df4f922719b7e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:38 +0000
Subject: [PATCH 05/21] fix: do not keep a stale relaxation operator

The key of the cached operator was stored before the operator was computed
(so an interrupt left the operator of another time under it), and it was
stored without a copy, so a relaxation function which reuses its array never
changed the operator.
---
 conmech/dynamics/dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conmech/dynamics/dynamics.py b/conmech/dynamics/dynamics.py
index 13933a3..28e55fb 100644
--- a/conmech/dynamics/dynamics.py
+++ b/conmech/dynamics/dynamics.py
@@ -90,11 +90,12 @@ class Dynamics:
         # TODO handle others
         if isinstance(self.body.properties, ElasticRelaxationProperties):
             relaxation_tensor = self.body.properties.relaxation(time)
-            if (relaxation_tensor != self.__relaxation_tensor).any():
-                self.__relaxation_tensor = relaxation_tensor
+            if np.any(relaxation_tensor != self.__relaxation_tensor):
+                self.__relaxation_tensor = None
                 self.__relaxation = self.factory.get_relaxation_tensor(
                     self._w_matrix, relaxation_tensor
                 )
+                self.__relaxation_tensor = np.copy(relaxation_tensor)
         else:
             raise TypeError("There is no relaxation operator!")
 
-- 
2.43.0


From 1b092e74a31ddf15cccbabe494dd50993609b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:38 +0000
Subject: [PATCH 06/21] fix: pass time to the relaxation statement in global
 optimization

It is required there, so the 'global' method always failed for relaxation.
---
 conmech/solvers/optimization/global_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conmech/solvers/optimization/global_optimization.py b/conmech/solvers/optimization/global_optimization.py
index d76faab..1fd54cc 100644
--- a/conmech/solvers/optimization/global_optimization.py
+++ b/conmech/solvers/optimization/global_optimization.py
@@ -48,6 +48,7 @@ class QuasistaticRelaxedGlobalOptimization(GlobalOptimization):
                 absement=self.b_vector,
                 displacement=self.u_vector,
                 time_step=self.time_step,
+                time=self.current_time,
             )
         )
 
-- 
2.43.0


From 18f922271baf113e0651b0f2f75b129bcf251bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:23 +0000
Subject: [PATCH 07/21] fix: keep the kind of a copied Product

A copy was always a bare Product, so a simulation could not be resumed from a
returned (or saved) state with products: the first step raised
NotImplementedError.
---
 conmech/state/products/product.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conmech/state/products/product.py b/conmech/state/products/product.py
index cd1525c..bed1de2 100644
--- a/conmech/state/products/product.py
+++ b/conmech/state/products/product.py
@@ -30,7 +30,8 @@ class Product:
         return self.copy()
 
     def copy(self) -> "Product":
-        result = Product(self.name)
+        result = type(self).__new__(type(self))
+        result.__dict__.update(self.__dict__)
         result.data = self.data.copy()
         return result
 
-- 
2.43.0


From 870c113c3265798958946888bf27c0894cadf65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:23 +0000
Subject: [PATCH 08/21] fix: recompute stress after the state has changed

The stress computed at the first access was returned for ever, also after
the simulation moved on with the same state.
---
 conmech/state/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index e60e6a4..b160cfb 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -59,6 +59,7 @@ class State:
         *,
         update_absement: bool = False,
     ):
+        self.__stress = None
         self.displacement = displacement_vector.reshape((self.body.mesh.dimension, -1)).T
         self.displaced_nodes[: self.body.mesh.nodes_count, :] = (
             self.body.mesh.nodes[: self.body.mesh.nodes_count, :] + self.displacement[:, :]
@@ -70,6 +71,7 @@ class State:
         self.update_products()
 
     def set_velocity(self, velocity_vector: np.ndarray, time: float, *, update_displacement: bool):
+        self.__stress = None
         self.velocity = velocity_vector.reshape((self.body.mesh.dimension, -1)).T
         if update_displacement:
             dt = time - self.time
-- 
2.43.0


From 67ba0785dcdcde4db7fd6e19667f835e0f54c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:23 +0000
Subject: [PATCH 09/21] fix: copy products of temperature and piezoelectric
 states as well

---
 conmech/state/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index b160cfb..2e3c5ec 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -181,6 +181,7 @@ class TemperatureState(State):
         copy.velocity[:] = self.velocity
         copy.time = self.time
         copy.temperature[:] = self.temperature
+        copy.products = {n: p.copy() for n, p in self.products.items()}
         return copy
 
 
@@ -200,4 +201,5 @@ class PiezoelectricState(State):
         copy.velocity[:] = self.velocity
         copy.time = self.time
         copy.electric_potential[:] = self.electric_potential
+        copy.products = {n: p.copy() for n, p in self.products.items()}
         return copy
-- 
2.43.0


From ad28453111d69795d3d83c02af25556fdfc843f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:23 +0000
Subject: [PATCH 10/21] fix: measure computation time with a monotonic clock

With time.time() it could decrease or jump when the system clock was adjusted.
---
 conmech/solvers/optimization/optimization.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/conmech/solvers/optimization/optimization.py b/conmech/solvers/optimization/optimization.py
index 90236dd..0423df9 100644
--- a/conmech/solvers/optimization/optimization.py
+++ b/conmech/solvers/optimization/optimization.py
@@ -122,7 +122,7 @@ class Optimization(Solver):
         method="BFGS",
         **kwargs,
     ) -> np.ndarray:
-        start = time.time()
+        start = time.perf_counter()
         solution = np.squeeze(initial_guess.copy().reshape(1, -1))
         displacement = np.squeeze(displacement.copy().reshape(1, -1))
         disp = kwargs.get("disp", False)
@@ -140,7 +140,7 @@ class Optimization(Solver):
             self.time_step,
         )
 
-        self.computation_time += time.time() - start
+        self.computation_time += time.perf_counter() - start
 
         if self.minimizer is None and (
             method.lower() in QSMLM_NAMES
@@ -168,9 +168,9 @@ class Optimization(Solver):
             )
             self.computation_time += comp_time
         elif method.lower() in QSMLM_NAMES:
-            start = time.time()
+            start = time.perf_counter()
             solution = self.minimizer(solution, args, 0, 1, maxiter)
-            self.computation_time += time.time() - start
+            self.computation_time += time.perf_counter() - start
         elif any(method.lower().startswith(pref) for pref in GLOBAL_QSMLM_NAMES):
             # pylint: disable=import-outside-toplevel,import-error)
             from kosopt import subgradient
@@ -225,7 +225,7 @@ class Optimization(Solver):
             if method.startswith("gradiented "):
                 subgrad = self.subgradient
                 method = method[len("gradiented ") :]
-            start = time.time()
+            start = time.perf_counter()
             result = scipy.optimize.minimize(
                 self.loss,
                 solution,
@@ -235,7 +235,7 @@ class Optimization(Solver):
                 options={"disp": disp, "maxiter": maxiter},
                 tol=tol,
             )
-            self.computation_time += time.time() - start
+            self.computation_time += time.perf_counter() - start
             solution = result.x
 
         return solution
-- 
2.43.0


From 595d8f06521684ccec73ccbb9767caaf834138b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:21 +0000
Subject: [PATCH 11/21] fix: displace nodes of the initial state

A state returned for step 0 had the initial displacement but nodes which were
not moved by it.
---
 conmech/simulations/problem_solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 210b24f..ab7f50c 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -394,6 +394,7 @@ class QuasistaticRelaxation(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.displaced_nodes[:] = self.body.mesh.nodes + state.displacement
 
         self.step_solver.current_time = state.time
 
@@ -462,6 +463,7 @@ class TimeDependentSolver(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.displaced_nodes[:] = self.body.mesh.nodes + state.displacement
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
 
         self.step_solver.current_time = state.time
@@ -534,6 +536,7 @@ class TemperatureTimeDependentSolver(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.displaced_nodes[:] = self.body.mesh.nodes + state.displacement
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
         state.temperature[:] = initial_temperature(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
@@ -630,6 +633,7 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.displaced_nodes[:] = self.body.mesh.nodes + state.displacement
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
         state.electric_potential[:] = initial_electric_potential(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
@@ -729,6 +733,7 @@ class WaveSolver(ProblemSolver):
             state.displacement[:] = initial_displacement(
                 self.body.mesh.nodes[: self.body.mesh.nodes_count]
             )
+            state.displaced_nodes[:] = self.body.mesh.nodes + state.displacement
             state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
 
         self.step_solver.current_time = state.time
-- 
2.43.0


From 02d047f9fbe3b604f75970f701d025226fb7123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:21 +0000
Subject: [PATCH 12/21] fix: save the figure which was drawn

Drawer titled, saved and closed whatever figure was current in pyplot, which
is not the one it drew into if the caller passed its own figure while another
one is current.
---
 conmech/plotting/drawer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/conmech/plotting/drawer.py b/conmech/plotting/drawer.py
index 4341c57..6ec21f6 100644
--- a/conmech/plotting/drawer.py
+++ b/conmech/plotting/drawer.py
@@ -69,10 +69,10 @@ class Drawer:
             fig.tight_layout()
             plt.show()
         if save:
-            _fig, _axes = self.do_draw(
+            fig, _axes = self.do_draw(
                 fig_axes, field_max, field_min, title, foundation, colorbar=colorbar
             )
-            self.save_plot(save_format, name=save)
+            self.save_plot(save_format, name=save, fig=fig)
 
     def do_draw(
         self,
@@ -107,7 +107,7 @@ class Drawer:
         #
         axes.set_aspect("equal", adjustable="box")
         if title is not None:
-            plt.title(title)
+            axes.set_title(title)
         return fig, axes
 
     def set_axes_limits(self, axes, foundation):
@@ -288,9 +288,10 @@ class Drawer:
         path = f"{directory}/{name}.{format_}"
         return path
 
-    def save_plot(self, format_, name=None):
+    def save_plot(self, format_, name=None, fig=None):
         path = self.get_output_path(self.config, format_, name)
-        plt.savefig(
+        fig = fig or plt.gcf()
+        fig.savefig(
             path,
             transparent=False,
             bbox_inches="tight",
@@ -298,7 +299,7 @@ class Drawer:
             pad_inches=0.1,
             dpi=800,
         )
-        plt.close()
+        plt.close(fig)
 
     def draw_boundary(self, edges, nodes, axes, label="", node_color="k", edge_color="k"):
         graph = nx.Graph()
-- 
2.43.0


From 8e73325704d2166bf5c2dfa5670359a26dbb1af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:00 +0000
Subject: [PATCH 13/21] fix: keep the Schur complement of a relaxation problem
 up to date

Relaxation depends on time, so the left hand side changes in every step.
---
 conmech/solvers/optimization/schur_complement.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conmech/solvers/optimization/schur_complement.py b/conmech/solvers/optimization/schur_complement.py
index 8475e7f..8e8f60d 100644
--- a/conmech/solvers/optimization/schur_complement.py
+++ b/conmech/solvers/optimization/schur_complement.py
@@ -171,6 +171,13 @@ class QuasistaticRelaxed(SchurComplementOptimization):
                 time=self.current_time,
             )
         )
+        # relaxation (so left hand side) depends on time
+        (
+            self._node_relations,
+            self.free_x_contact,
+            self.contact_x_free,
+            self.free_x_free_inverted,
+        ) = self.recalculate_displacement()
         self.node_forces_, self.forces_free = self.recalculate_forces()
 
 
-- 
2.43.0


From 08b911925d5f70b1fe9aa17269f22a442b5a67e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:52 +0000
Subject: [PATCH 14/21] fix: draw an odd number of states in columns

plot_in_columns reserved len(states) // 2 rows of two, one too few when the
number of states is odd.
---
 conmech/plotting/membrane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conmech/plotting/membrane.py b/conmech/plotting/membrane.py
index 7111c3e..09bd58c 100644
--- a/conmech/plotting/membrane.py
+++ b/conmech/plotting/membrane.py
@@ -24,7 +24,7 @@ def plot_in_columns(states: List[State], *args, **kwargs):
         kwargs["in3d"] = False
 
     cols = 2
-    rows = len(states) // 2
+    rows = (len(states) + 1) // 2
     i = 1
     for r in range(1, len(states) + 1):
         ax = fig.add_subplot(rows, cols, i, **extra_kwargs)
-- 
2.43.0


From 26f1ad1407b2ae0e590b2ff6e159451aafd8dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:52 +0000
Subject: [PATCH 15/21] fix: pass the figure to do_plot

plot() failed for every state, since it did not pass the figure.
---
 conmech/plotting/membrane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conmech/plotting/membrane.py b/conmech/plotting/membrane.py
index 09bd58c..9350151 100644
--- a/conmech/plotting/membrane.py
+++ b/conmech/plotting/membrane.py
@@ -68,7 +68,7 @@ def plot_limit_points(
 def plot(state: State, *args, **kwargs):
     fig = plt.figure()
     ax = fig.add_subplot(1, 1, 1, projection="3d")
-    do_plot(state, *args, ax=ax, **kwargs)
+    do_plot(fig, state, *args, ax=ax, **kwargs)
     plt.show()
 
 
-- 
2.43.0


From ed6bfd47e79d0ebd781d963222c7c02dda3c5aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:52 +0000
Subject: [PATCH 16/21] fix: draw all limit points and nothing else

plot_limit_points flushed its buffer only if it held exactly 1000 points after
a time step, and drew stale points from the rest of the buffer as well; more
than 1100 points failed.
---
 conmech/plotting/membrane.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/conmech/plotting/membrane.py b/conmech/plotting/membrane.py
index 9350151..eaf4bab 100644
--- a/conmech/plotting/membrane.py
+++ b/conmech/plotting/membrane.py
@@ -45,17 +45,17 @@ def plot_limit_points(
     finish=True,
     ylim=(0, 1),
 ):
-    buff = np.zeros((2, 1100))  # some extra space for multiple zeros
+    buff = np.zeros((2, 1000))
     buff_size = 0
     for time, zeros in prod.data.items():
         for zero in zeros:  # significant performance improvement
             buff[0, buff_size] = time
             buff[1, buff_size] = zero
             buff_size += 1
-        if buff_size == 1000:
-            plt.scatter(buff[0, :], buff[1, :], s=1, color=color, label=label)
-            label = None
-            buff_size = 0
+            if buff_size == 1000:
+                plt.scatter(buff[0, :], buff[1, :], s=1, color=color, label=label)
+                label = None
+                buff_size = 0
     if buff_size > 0:
         plt.scatter(buff[0, :buff_size], buff[1, :buff_size], s=1, color=color, label=label)
     plt.title(title)
-- 
2.43.0


From daab8089714b4d9a185cdff46970b5dd7e9a64c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 17/21] fix: do not count contact nodes which are Dirichlet
 ones

---
 conmech/mesh/boundaries_factory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conmech/mesh/boundaries_factory.py b/conmech/mesh/boundaries_factory.py
index 2ed8921..bad6f36 100644
--- a/conmech/mesh/boundaries_factory.py
+++ b/conmech/mesh/boundaries_factory.py
@@ -93,7 +93,12 @@ def reorder_boundary_nodes(nodes, elements, is_contact, is_dirichlet):
     # C | D
     # I
     # N
-    nodes, elements, contact_nodes_count = reorder(nodes, elements, is_contact, to_top=True)
+    nodes, elements, contact_nodes_count = reorder(
+        nodes,
+        elements,
+        lambda *args: is_contact(*args) and not is_dirichlet(*args),
+        to_top=True,
+    )
     # C
     # N
     # I
-- 
2.43.0


From df4653c6c90ca353006ba55b2c4176af089908d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 18/21] fix: leave arrays of a mesh description as they are

---
 conmech/mesh/mesh_builders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conmech/mesh/mesh_builders.py b/conmech/mesh/mesh_builders.py
index b9de37c..81f2627 100644
--- a/conmech/mesh/mesh_builders.py
+++ b/conmech/mesh/mesh_builders.py
@@ -7,8 +7,9 @@ from conmech.properties.mesh_description import MeshDescription
 
 def build_mesh(mesh_descr: MeshDescription) -> Tuple[np.ndarray, np.ndarray]:
     raw_mesh = mesh_descr.build()
-    nodes = translate_nodes(nodes=raw_mesh.nodes, mesh_descr=mesh_descr)
-    return nodes, raw_mesh.elements
+    # arrays are modified in place later on, while the description may keep the ones it returned
+    nodes = translate_nodes(nodes=raw_mesh.nodes.copy(), mesh_descr=mesh_descr)
+    return nodes, raw_mesh.elements.copy()
 
 
 def translate_nodes(nodes: np.ndarray, mesh_descr: MeshDescription):
-- 
2.43.0


From d3cb8fc1065ed4dcac9ac5fadacb0e891c234c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:24 +0000
Subject: [PATCH 19/21] fix: let the contact law see prescribed values of
 Dirichlet nodes

---
 conmech/solvers/solver.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/conmech/solvers/solver.py b/conmech/solvers/solver.py
index aa001d4..8105410 100644
--- a/conmech/solvers/solver.py
+++ b/conmech/solvers/solver.py
@@ -81,19 +81,24 @@ class Solver:
         raise NotImplementedError()
 
     def solve(self, initial_guess: np.ndarray, **kwargs) -> np.ndarray:
+        variable_old = self.v_vector.copy()  # TODO: FIXME variable_old
+        self._apply_dirichlet_condition(variable_old)
+
         solution = self._solve_impl(
             initial_guess,
-            variable_old=self.v_vector,
+            variable_old=variable_old,
             displacement=self.u_vector,
-            **kwargs,  # TODO: FIXME variable_old
+            **kwargs,
         )
+        self._apply_dirichlet_condition(solution)
+
+        return solution
 
+    def _apply_dirichlet_condition(self, vector: np.ndarray):
         for dirichlet_cond in self.statement.find_dirichlet_conditions():
             c = self.body.mesh.boundaries.boundaries[dirichlet_cond].node_condition
             node_count = self.body.mesh.nodes_count
             for i, j in self.body.mesh.boundaries.get_all_boundary_indices(
                 dirichlet_cond, node_count, self.statement.dimension_in
             ):
-                solution[i] = c[j]
-
-        return solution
+                vector[i] = c[j]
-- 
2.43.0


From c9e5d1ba4dd353ea8bb133bc4b39571b925a8888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:00 +0000
Subject: [PATCH 20/21] fix: mix up of Lame coefficients in 3D constitutive
 matrices

---
 .../dynamics/factory/_dynamics_factory_3d.py   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/conmech/dynamics/factory/_dynamics_factory_3d.py b/conmech/dynamics/factory/_dynamics_factory_3d.py
index 65411b3..ef5c676 100644
--- a/conmech/dynamics/factory/_dynamics_factory_3d.py
+++ b/conmech/dynamics/factory/_dynamics_factory_3d.py
@@ -152,17 +152,17 @@ class DynamicsFactory3D(AbstractDynamicsFactory):
         return DIMENSION
 
     def calculate_constitutive_matrices(self, W, mu, lambda_):
-        A_11 = (2 * mu + lambda_) * W[0, 0] + mu * W[1, 1] + lambda_ * W[2, 2]
-        A_22 = mu * W[0, 0] + (2 * mu + lambda_) * W[1, 1] + lambda_ * W[2, 2]
-        A_33 = mu * W[0, 0] + lambda_ * W[1, 1] + (2 * mu + lambda_) * W[2, 2]
+        A_11 = (2 * mu + lambda_) * W[0, 0] + mu * W[1, 1] + mu * W[2, 2]
+        A_22 = mu * W[0, 0] + (2 * mu + lambda_) * W[1, 1] + mu * W[2, 2]
+        A_33 = mu * W[0, 0] + mu * W[1, 1] + (2 * mu + lambda_) * W[2, 2]
 
-        A_21 = mu * W[1, 0] + lambda_ * W[0, 1]
-        A_31 = mu * W[2, 0] + lambda_ * W[0, 2]
-        A_32 = mu * W[2, 1] + lambda_ * W[1, 2]
+        A_12 = mu * W[1, 0] + lambda_ * W[0, 1]
+        A_13 = mu * W[2, 0] + lambda_ * W[0, 2]
+        A_23 = mu * W[2, 1] + lambda_ * W[1, 2]
 
-        A_12 = lambda_ * W[1, 0] + mu * W[0, 1]
-        A_13 = lambda_ * W[2, 0] + mu * W[0, 2]
-        A_23 = lambda_ * W[2, 1] + mu * W[1, 2]
+        A_21 = lambda_ * W[1, 0] + mu * W[0, 1]
+        A_31 = lambda_ * W[2, 0] + mu * W[0, 2]
+        A_32 = lambda_ * W[2, 1] + mu * W[1, 2]
 
         return SM3(
             np.block(
-- 
2.43.0


From 81aec40f98f7c6c5f23212f5563557aa6c56bb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:38 +0000
Subject: [PATCH 21/21] fix: gradients of the contact functionals handed to
 gradient-based optimisers

The value in the middle of a contact edge depends on all of its nodes and
the value at a node on that node only; a scalar unknown has no direction;
the dimensions of the statement were not passed on, and an unknown longer
than the system of equations was not cut as it is in the cost functional.
---
 conmech/solvers/optimization/optimization.py |  2 ++
 conmech/solvers/solver_methods.py            | 13 +++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/conmech/solvers/optimization/optimization.py b/conmech/solvers/optimization/optimization.py
index 0423df9..01713ab 100644
--- a/conmech/solvers/optimization/optimization.py
+++ b/conmech/solvers/optimization/optimization.py
@@ -82,6 +82,8 @@ class Optimization(Solver):
         if hasattr(contact_law, "subderivative_normal_direction"):  # TODO
             self.subgradient = make_subgradient(
                 normal_condition=contact_law.subderivative_normal_direction,
+                variable_dimension=statement.dimension_out,
+                problem_dimension=statement.dimension_in,
             )
         else:
             self.subgradient = None
diff --git a/conmech/solvers/solver_methods.py b/conmech/solvers/solver_methods.py
index 5757066..221aa43 100644
--- a/conmech/solvers/solver_methods.py
+++ b/conmech/solvers/solver_methods.py
@@ -315,10 +315,15 @@ def make_subgradient(
                     tangential_condition_bound(vm_normal, static_displacement_normal, dt),
                 )
 
-                for node in edge:
+                for n, node in enumerate(edge):
+                    if node_ == 0:  # value in the middle depends on every node
+                        weight = 1.0 / len(edge)
+                    else:  # value at a node depends on that node only
+                        weight = 1.0 if node_ == n + 1 else 0.0
                     for i in range(variable_dimension):
                         if node < offset:
-                            cost[i * offset + node] += normal_vector[i] / len(edge) * subgrad
+                            direction = 1.0 if variable_dimension == 1 else normal_vector[i]
+                            cost[i * offset + node] += weight * direction * subgrad
 
         return cost
 
@@ -337,10 +342,10 @@ def make_subgradient(
         dt,
     ):
         result = np.zeros_like(var)
+        ind = lhs.shape[0]
         dj = contact_subgradient(
-            var, var_old, u_vector, nodes, contact_boundary, contact_normals, dt
+            var[:ind], var_old, u_vector, nodes, contact_boundary, contact_normals, dt
         )
-        ind = lhs.shape[0]
         if only_boundary:
             result_ = dj
         else:
-- 
2.43.0


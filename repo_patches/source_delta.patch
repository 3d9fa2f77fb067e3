From a18bb142d6ce1add5588e2fd706d2e83f24bc1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:13 +0000
Subject: [PATCH 01/36] fix: a non-converged attempt only ever reduces the
 stepsize

Stepsize.adapt divided the stepsize after a failure and then also applied the
growth rule, so a failure in fewer than 5 iterations left the stepsize unchanged
(endless retry) and a slow failure divided it twice.
---
 festim/stepsize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index f601069..230fadc 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -102,6 +102,8 @@ class Stepsize:
                 self.value.assign(float(self.value) / change_ratio)
                 if float(self.value) < dt_min:
                     raise ValueError("stepsize reached minimal value")
+                # the step is attempted again with the reduced stepsize
+                return
             if nb_it < 5:
                 self.value.assign(float(self.value) * change_ratio)
             else:
-- 
2.43.0


From d0113b08a4b842b2d2c76e83edc04f14a466522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:13 +0000
Subject: [PATCH 02/36] fix: raise instead of retrying forever with a constant
 stepsize

Without an adaptive stepsize a non-converged attempt was repeated unchanged
for ever.
---
 festim/h_transport_problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 24cc3f5..4402966 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -339,6 +339,8 @@ class HTransportProblem:
         while converged is False:
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
+            if not converged and dt.adaptive_stepsize is None:
+                raise ValueError("Solver diverged but the stepsize is not adaptive.")
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
                 dt.adapt(t, nb_it, converged)
 
-- 
2.43.0


From e36c9828672cc0ce89214c48c89861702ebd569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:13 +0000
Subject: [PATCH 03/36] fix: don't skip a milestone when the previous one is
 reached from below

When rounding makes a step land just below a milestone, this milestone was still
considered as the next one and the following milestone was stepped over.
---
 festim/stepsize.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index 230fadc..9159a5a 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -118,9 +118,7 @@ class Stepsize:
         # adapt for next milestone
         next_milestone = self.next_milestone(t)
         if next_milestone is not None:
-            if t + float(self.value) > next_milestone and not np.isclose(
-                t, next_milestone, atol=0
-            ):
+            if t + float(self.value) > next_milestone:
                 self.value.assign((next_milestone - t))
 
     def next_milestone(self, current_time: float):
@@ -136,6 +134,9 @@ class Stepsize:
         if self.milestones is None:
             return None
         for milestone in self.milestones:
-            if current_time < milestone:
+            # a milestone reached within rounding errors is already passed
+            if current_time < milestone and not np.isclose(
+                current_time, milestone, atol=0
+            ):
                 return milestone
         return None
-- 
2.43.0


From 465b229c81b8217d8b961b5c3e1501359c9f7103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:39 +0000
Subject: [PATCH 04/36] fix: the first time step doesn't go beyond the first
 milestone or final_time

The stepsize was only limited after a step, so an initial stepsize larger than
the first milestone (or final_time) stepped over it.
---
 festim/generic_simulation.py | 9 ++++++++-
 festim/stepsize.py           | 9 +++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index beb556f..6ef722a 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -475,6 +475,10 @@ class Simulation:
         if not self.settings.update_jacobian:
             self.h_transport_problem.compute_jacobian()
 
+        # the first step mustn't go beyond the first milestone or final_time
+        self.dt.clip_to_next_milestone(self.t)
+        self.clip_stepsize_to_final_time()
+
         #  Time-stepping
         festim.festim_print("Time stepping...")
         while self.t < self.settings.final_time and not np.isclose(
@@ -516,7 +520,10 @@ class Simulation:
         # Post processing
         self.run_post_processing()
 
-        # avoid t > final_time
+        self.clip_stepsize_to_final_time()
+
+    def clip_stepsize_to_final_time(self):
+        """Reduces the stepsize if needed to avoid t > final_time"""
         next_time = self.t + float(self.dt.value)
         if next_time > self.settings.final_time:
             self.dt.value.assign(self.settings.final_time - self.t)
diff --git a/festim/stepsize.py b/festim/stepsize.py
index 9159a5a..caa5f93 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -116,6 +116,15 @@ class Stepsize:
                     self.value.assign(max_stepsize)
 
         # adapt for next milestone
+        self.clip_to_next_milestone(t)
+
+    def clip_to_next_milestone(self, t):
+        """Reduces the stepsize if needed so that the next milestone isn't
+        stepped over.
+
+        Args:
+            t (float): current time.
+        """
         next_milestone = self.next_milestone(t)
         if next_milestone is not None:
             if t + float(self.value) > next_milestone:
-- 
2.43.0


From ac179cc4db4c2aa9a628160fd8fe4f74a88a58a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:39 +0000
Subject: [PATCH 05/36] fix: a transient heat transfer problem can be
 initialised again

The user's initial condition was overwritten by a fenics.Expression, so a
second initialise() failed.
---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index c520463..8a23afa 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -123,8 +123,8 @@ class HeatTransferProblem(festim.Temperature):
                         )
             else:
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
-                self.initial_condition.value = f.Expression(ccode_T_ini, degree=2, t=0)
-                self.T_n.assign(f.interpolate(self.initial_condition.value, V))
+                T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
+                self.T_n.assign(f.interpolate(T_ini, V))
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
-- 
2.43.0


From 933d37fd1848bae9ebe978528eb1eacdf70c24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:30 +0000
Subject: [PATCH 06/36] fix: keep the previous temperature of a transient heat
 transfer problem

T_n was overwritten by T right after the heat equation was solved, so with
conservation of chemical potential the previous concentration was evaluated with
the new temperature (hydrogen appeared or disappeared). T was also zero until the
first step, so initial concentrations couldn't be converted.
---
 festim/temperature/temperature_solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 8a23afa..3f92ae8 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -125,6 +125,8 @@ class HeatTransferProblem(festim.Temperature):
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
                 T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
                 self.T_n.assign(f.interpolate(T_ini, V))
+            # the current temperature is the initial one until the first step
+            self.T.assign(self.T_n)
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
@@ -260,6 +262,8 @@ class HeatTransferProblem(festim.Temperature):
             t (float): the time
         """
         if self.transient:
+            # T_n has to remain the previous temperature until the next update
+            self.T_n.assign(self.T)
             festim.update_expressions(self.sub_expressions, t)
             # Solve heat transfers
             dT = f.TrialFunction(self.T.function_space())
@@ -272,7 +276,5 @@ class HeatTransferProblem(festim.Temperature):
             self.newton_solver.solve(problem, self.T.vector())
             f.end()
 
-            self.T_n.assign(self.T)
-
     def is_steady_state(self):
         return not self.transient
-- 
2.43.0


From 35610c088c5ffd4e97b36f4cb61cb8c87c94d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:08 +0000
Subject: [PATCH 07/36] fix: a step accepted with a reduced stepsize ends at
 the matching time

After a non-converged attempt the stepsize in the equations was reduced but the
simulation time, the temperature and the time-dependent parameters remained those
of the rejected attempt.
---
 festim/generic_simulation.py  |  4 ++--
 festim/h_transport_problem.py | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 6ef722a..9463f56 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -511,8 +511,8 @@ class Simulation:
         self.t += float(self.dt.value)
         # update temperature
         self.T.update(self.t)
-        # update H problem
-        self.h_transport_problem.update(self.t, self.dt)
+        # update H problem (the time is lower if the stepsize had to be reduced)
+        self.t = self.h_transport_problem.update(self.t, self.dt)
 
         # Display time
         self.display_time()
diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 4402966..2e6f182 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -330,7 +330,12 @@ class HTransportProblem:
         Args:
             t (float): the current time (s)
             dt (festim.Stepsize): the stepsize
+
+        Returns:
+            float: the time that was reached (s). Lower than t if the stepsize
+                had to be reduced for the solver to converge
         """
+        t_n = t - float(dt.value)
         festim.update_expressions(self.expressions, t)
 
         converged = False
@@ -343,6 +348,12 @@ class HTransportProblem:
                 raise ValueError("Solver diverged but the stepsize is not adaptive.")
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
                 dt.adapt(t, nb_it, converged)
+            if not converged:
+                # try again with everything evaluated at the closer time
+                t = t_n + float(dt.value)
+                self.T.T.assign(self.T.T_n)
+                self.T.update(t)
+                festim.update_expressions(self.expressions, t)
 
         # Update previous solutions
         self.update_previous_solutions()
@@ -350,6 +361,8 @@ class HTransportProblem:
         # Solve extrinsic traps formulation
         self.traps.solve_extrinsic_traps()
 
+        return t
+
     def solve_once(self):
         """Solves non linear problem
 
-- 
2.43.0


From 9c6aa858bdafb9db1b40d94ef83ffcfcebd25ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:25 +0000
Subject: [PATCH 08/36] fix: extrinsic trap densities are advanced with the
 stepsize of the step

The stepsize was adapted for the next step before the densities were solved.
---
 festim/h_transport_problem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 2e6f182..b6d4365 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -346,9 +346,8 @@ class HTransportProblem:
             nb_it, converged = self.solve_once()
             if not converged and dt.adaptive_stepsize is None:
                 raise ValueError("Solver diverged but the stepsize is not adaptive.")
-            if dt.adaptive_stepsize is not None or dt.milestones is not None:
-                dt.adapt(t, nb_it, converged)
             if not converged:
+                dt.adapt(t, nb_it, converged)
                 # try again with everything evaluated at the closer time
                 t = t_n + float(dt.value)
                 self.T.T.assign(self.T.T_n)
@@ -361,6 +360,11 @@ class HTransportProblem:
         # Solve extrinsic traps formulation
         self.traps.solve_extrinsic_traps()
 
+        # Change the stepsize for the next step (only now, because the extrinsic
+        # traps have to be solved with the stepsize of this step)
+        if dt.adaptive_stepsize is not None or dt.milestones is not None:
+            dt.adapt(t, nb_it, converged)
+
         return t
 
     def solve_once(self):
-- 
2.43.0


From d90d6586a4474ff986bb2ace5d3fd4bc8aea6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:08 +0000
Subject: [PATCH 09/36] fix: update the time-dependent parameters of extrinsic
 traps

Parameters such as phi_0 or phi given as functions of time were evaluated at
t=0 during the whole simulation.
---
 festim/concentration/traps/extrinsic_trap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/festim/concentration/traps/extrinsic_trap.py b/festim/concentration/traps/extrinsic_trap.py
index 8eeef4d..52b6bd4 100644
--- a/festim/concentration/traps/extrinsic_trap.py
+++ b/festim/concentration/traps/extrinsic_trap.py
@@ -1,5 +1,5 @@
 from festim import Trap, as_constant_or_expression, festim_print
-from fenics import NewtonSolver, MPI
+from fenics import NewtonSolver, MPI, Expression, UserExpression
 
 
 class ExtrinsicTrapBase(Trap):
@@ -51,7 +51,11 @@ class ExtrinsicTrapBase(Trap):
 
         self.newton_solver = None
         for name, val in kwargs.items():
-            setattr(self, name, as_constant_or_expression(val))
+            prm = as_constant_or_expression(val)
+            setattr(self, name, prm)
+            # time-dependent parameters need to be updated
+            if isinstance(prm, (Expression, UserExpression)):
+                self.sub_expressions.append(prm)
         self.density_previous_solution = None
         self.density_test_function = None
 
-- 
2.43.0


From 378861594f0d07f66ce9e628642bba18357fd458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:48 +0000
Subject: [PATCH 10/36] fix: restore a constant stepsize after a milestone

A constant stepsize that was reduced to reach a milestone was never increased
back, however small the last step was.
---
 festim/stepsize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index caa5f93..185fd18 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -114,6 +114,9 @@ class Stepsize:
             if max_stepsize is not None:
                 if float(self.value) > max_stepsize:
                     self.value.assign(max_stepsize)
+        else:
+            # a constant stepsize is only reduced to reach a milestone
+            self.value.assign(self.initial_value)
 
         # adapt for next milestone
         self.clip_to_next_milestone(t)
-- 
2.43.0


From 011e2453a8b3fae51494250f07c24483e7572595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:43 +0000
Subject: [PATCH 11/36] fix: export counters and XDMF files start afresh when a
 model is initialised again

The number of iterations wasn't reset, so derived quantities and XDMF exports of
a second run were made at other time steps, and XDMF checkpoints were appended to
those of the first run.
---
 festim/generic_simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 9463f56..8ea9823 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -414,6 +414,10 @@ class Simulation:
                         q.soret = self.settings.soret
                         q.T = self.T.T
 
+            if isinstance(export, festim.XDMFExport):
+                # start a new file
+                export.append = False
+
             if isinstance(export, festim.TXTExport):
                 # pre-process data depending on the chemical potential flag, trap element type,
                 #  and material borders
@@ -440,6 +444,7 @@ class Simulation:
                             self.dt.milestones.append(time)
                     self.dt.milestones.sort()
 
+        self.exports.nb_iterations = 0
         self.exports.initialise_derived_quantities(
             self.mesh.dx, self.mesh.ds, self.materials
         )
-- 
2.43.0


From 727ec2db28adfd4b6503f7194c1beb8597498512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:43 +0000
Subject: [PATCH 12/36] fix: derived quantities and text exports can be written
 in the current directory

os.makedirs fails with an empty path when the filename has no directory.
---
 festim/exports/derived_quantities/derived_quantities.py | 2 +-
 festim/exports/txt_export.py                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index dec5644..42eec15 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -147,7 +147,7 @@ class DerivedQuantities(list):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # save the data to csv
diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 6137b8b..283fa79 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -201,7 +201,7 @@ class TXTExport(festim.Export):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # if steady, add the corresponding label
-- 
2.43.0


From d7bd679f6df9f333010eb5492cebaecdd985e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:43 +0000
Subject: [PATCH 13/36] fix: accept the borders of a material as a list of one
 pair

check_borders accepts [[0, 1]] but the markers couldn't be created.
---
 festim/materials/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index c88c7be..e8a5b69 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -256,7 +256,7 @@ class Materials(list):
                 return material.id
             # else find the correct material
             else:
-                if isinstance(material.borders[0], list) and len(material.borders) > 1:
+                if isinstance(material.borders[0], list):
                     list_of_borders = material.borders
                 else:
                     list_of_borders = [material.borders]
-- 
2.43.0


From 2e6c5ca28828ee824b74c57f48f85719e2431861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:02 +0000
Subject: [PATCH 14/36] fix: text exports of models with several borders per
 material

The borders given as a list of pairs couldn't be merged with single pairs.
---
 festim/exports/txt_export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 283fa79..921c662 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -154,8 +154,8 @@ class TXTExport(festim.Export):
             borders = []
             for material in materials:
                 if material.borders:
-                    for border in material.borders:
-                        borders.append(border)
+                    # borders can also be a list of pairs of borders
+                    borders.extend(np.ravel(material.borders))
             borders = np.unique(borders)
 
             # Find indices of the closest duplicates to interfaces
-- 
2.43.0


From 26bd85854882e8cc0db2fba976e8ba729d5ba14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:51 +0000
Subject: [PATCH 15/36] fix: materials (and trap sources) with a list of ids

Material.id and the volume of a source can be lists, but traps, conservation of
chemical potential and trap sources failed with an invalid subdomain id.
---
 festim/__init__.py                  |  1 +
 festim/concentration/mobile.py      |  5 +++--
 festim/concentration/theta.py       | 12 ++++++------
 festim/concentration/traps/trap.py  | 17 ++++++++++++-----
 festim/exports/trap_density_xdmf.py |  3 ++-
 festim/helpers.py                   | 12 ++++++++++++
 festim/materials/materials.py       |  6 +++---
 7 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/festim/__init__.py b/festim/__init__.py
index b22e350..d91f1f5 100644
--- a/festim/__init__.py
+++ b/festim/__init__.py
@@ -27,6 +27,7 @@ from .helpers import (
     as_constant,
     as_expression,
     as_constant_or_expression,
+    as_subdomain_id,
     festim_print,
 )
 
diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index af57b0d..c0e59b9 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -4,6 +4,7 @@ from festim import (
     k_B,
     RadioactiveDecay,
     SurfaceKinetics,
+    as_subdomain_id,
     festim_print,
 )
 from fenics import *
@@ -162,14 +163,14 @@ class Mobile(Concentration):
                         * c_m
                         * (density - trap.solution)
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(as_subdomain_id(mat.id))
                     )
                     F_trapping += (
                         p_0
                         * exp(-E_p / k_B / T.T)
                         * trap.solution
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(as_subdomain_id(mat.id))
                     )
         F += -F_trapping
 
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 51fb816..5daab70 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,4 @@
-from festim import Mobile, k_B
+from festim import Mobile, k_B, as_subdomain_id
 import fenics as f
 
 
@@ -32,11 +32,11 @@ class Theta(Mobile):
         F = 0
         for mat in self.materials:
             S = mat.S_0 * f.exp(-mat.E_S / k_B / self.T.T)
-            F += -prev_sol * v * dx(mat.id)
+            F += -prev_sol * v * dx(as_subdomain_id(mat.id))
             if mat.solubility_law == "sievert":
-                F += comp / S * v * dx(mat.id)
+                F += comp / S * v * dx(as_subdomain_id(mat.id))
             elif mat.solubility_law == "henry":
-                F += (comp / S) ** 0.5 * v * dx(mat.id)
+                F += (comp / S) ** 0.5 * v * dx(as_subdomain_id(mat.id))
         f.solve(F == 0, prev_sol, bcs=[])
 
         f.assign(self.previous_solution, prev_sol)
@@ -113,10 +113,10 @@ class Theta(Mobile):
         for mat in materials:
             if mat.solubility_law == "sievert":
                 # for sievert materials c = theta * S
-                F += self.solution * self.S * v * dx(mat.id)
+                F += self.solution * self.S * v * dx(as_subdomain_id(mat.id))
             elif mat.solubility_law == "henry":
                 # for henry materials c = theta**2 * S
-                F += self.solution**2 * self.S * v * dx(mat.id)
+                F += self.solution**2 * self.S * v * dx(as_subdomain_id(mat.id))
 
         self.form_post_processing = F
         self.post_processing_solution = f.Function(V)
diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index 1fef133..d303ec8 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -1,4 +1,11 @@
-from festim import Concentration, k_B, Material, Theta, RadioactiveDecay
+from festim import (
+    Concentration,
+    k_B,
+    Material,
+    Theta,
+    RadioactiveDecay,
+    as_subdomain_id,
+)
 from fenics import *
 import sympy as sp
 
@@ -152,7 +159,7 @@ class Trap(Concentration):
             # add c_t = 0 to the form in this subdomain
             for mat in materials:
                 if mat not in self.materials:
-                    F_trapping += solution * test_function * dx(mat.id)
+                    F_trapping += solution * test_function * dx(as_subdomain_id(mat.id))
 
         for i, mat in enumerate(self.materials):
             if type(self.k_0) is list:
@@ -186,10 +193,10 @@ class Trap(Concentration):
                 * c_0
                 * (density - solution)
                 * test_function
-                * dx(mat.id)
+                * dx(as_subdomain_id(mat.id))
             )
             F_trapping += (
-                p_0 * exp(-E_p / k_B / T.T) * solution * test_function * dx(mat.id)
+                p_0 * exp(-E_p / k_B / T.T) * solution * test_function * dx(as_subdomain_id(mat.id))
             )
 
         self.F_trapping = F_trapping
@@ -205,7 +212,7 @@ class Trap(Concentration):
         for source in self.sources:
             if isinstance(source, RadioactiveDecay):
                 source.value = source.form(self.solution)
-            self.F_source = -source.value * self.test_function * dx(source.volume)
+            self.F_source = -source.value * self.test_function * dx(as_subdomain_id(source.volume))
             self.F += self.F_source
             if isinstance(source.value, (Expression, UserExpression)):
                 self.sub_expressions.append(source.value)
diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 2da2463..86221e4 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -1,4 +1,5 @@
 from festim.exports.xdmf_export import XDMFExport
+from festim import as_subdomain_id
 import fenics as f
 
 
@@ -29,7 +30,7 @@ class TrapDensityXDMF(XDMFExport):
         F = f.inner(u, v) * dx
 
         for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(mat.id)
+            F -= f.inner(self.trap.density[0], v) * dx(as_subdomain_id(mat.id))
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
diff --git a/festim/helpers.py b/festim/helpers.py
index f790050..cd7a342 100644
--- a/festim/helpers.py
+++ b/festim/helpers.py
@@ -44,6 +44,18 @@ def as_constant_or_expression(val):
         return Expression(expr_ccode, degree=2, t=0)
 
 
+def as_subdomain_id(id):
+    """Makes the id (or list of ids) of a volume usable in a fenics.Measure
+
+    Args:
+        id (int, list): the id or list of ids
+
+    Returns:
+        int, tuple: the id or the tuple of ids
+    """
+    return tuple(id) if isinstance(id, list) else id
+
+
 def kJmol_to_eV(energy):
     """Converts an energy value given in units kJ mol^{-1} to eV
 
diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index e8a5b69..c5244a1 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -1,7 +1,7 @@
 from operator import itemgetter
 import warnings
 import numpy as np
-from festim import k_B, Material, HeatTransferProblem
+from festim import k_B, Material, HeatTransferProblem, as_subdomain_id
 import festim
 import fenics as f
 from typing import Union
@@ -299,8 +299,8 @@ class Materials(list):
         dx = mesh.dx
         F = 0
         for mat in self:
-            F += -S * vS * dx(mat.id)
-            F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(mat.id)
+            F += -S * vS * dx(as_subdomain_id(mat.id))
+            F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(as_subdomain_id(mat.id))
         f.solve(F == 0, S, bcs=[])
 
         self.S = S
-- 
2.43.0


From 3ce40469746456be5ef22d6f7f72f72f19416def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:11 +0000
Subject: [PATCH 16/36] fix: export the density of each material of a
 conglomerated trap

TrapDensityXDMF exported the first density in all the materials.
---
 festim/exports/trap_density_xdmf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 86221e4..d85fc46 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -29,8 +29,10 @@ class TrapDensityXDMF(XDMFExport):
         v = f.TestFunction(functionspace)
         F = f.inner(u, v) * dx
 
-        for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(as_subdomain_id(mat.id))
+        for i, mat in enumerate(self.trap.materials):
+            # a conglomerated trap has one density per material
+            density = self.trap.density[i if type(self.trap.k_0) is list else 0]
+            F -= f.inner(density, v) * dx(as_subdomain_id(mat.id))
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
-- 
2.43.0


From db576043e64426bb2661e01d9aedb8e86534bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 17/36] fix: boundary conditions on fields given as "0", "1"...

A flux on field "0" was silently ignored, conflicts between a condition on
"0" and one on 0 weren't detected, and "0" or "1" failed with traps.
---
 festim/boundary_conditions/boundary_condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/boundary_conditions/boundary_condition.py b/festim/boundary_conditions/boundary_condition.py
index 2f23ebc..1ab5a6a 100644
--- a/festim/boundary_conditions/boundary_condition.py
+++ b/festim/boundary_conditions/boundary_condition.py
@@ -15,6 +15,9 @@ class BoundaryCondition:
 
         if field == "solute":
             self.field = 0
+        elif isinstance(field, str) and field.isdigit():
+            # "0", "1"... are the same fields as 0, 1...
+            self.field = int(field)
         else:
             self.field = field
         self.expression = None
-- 
2.43.0


From dcdf0b2c4c80f107c154211fe9954867d3c8a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:16 +0000
Subject: [PATCH 18/36] fix: identify traps by their ids in initial conditions,
 sources and boundary conditions

Exports identify a trap by its id, but initial conditions mixed ids and positions
and sources and boundary conditions used the position in the list of traps.
---
 .../boundary_conditions/dirichlets/dirichlet_bc.py   |  5 ++++-
 festim/generic_simulation.py                         | 12 +++++++-----
 festim/h_transport_problem.py                        |  5 ++++-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/festim/boundary_conditions/dirichlets/dirichlet_bc.py b/festim/boundary_conditions/dirichlets/dirichlet_bc.py
index 3bc72c5..0b2257b 100644
--- a/festim/boundary_conditions/dirichlets/dirichlet_bc.py
+++ b/festim/boundary_conditions/dirichlets/dirichlet_bc.py
@@ -59,6 +59,7 @@ class DirichletBC(BoundaryCondition):
         chemical_pot=False,
         materials=None,
         volume_markers=None,
+        component=None,
     ):
         """creates a list of fenics.DirichletBC and stores it in
         self.dirichlet_bc
@@ -74,6 +75,8 @@ class DirichletBC(BoundaryCondition):
                 chemical_pot is True. Defaults to None.
             volume_markers (fenics.MeshFunction, optional): the volume markers,
                 only needed when chemical_pot is True. Defaults to None.
+            component (int, optional): the component of V corresponding to
+                the field. If None, the field is used. Defaults to None.
         """
         self.dirichlet_bc = []
         self.create_expression(T)
@@ -86,7 +89,7 @@ class DirichletBC(BoundaryCondition):
         if V.num_sub_spaces() == 0:
             funspace = V
         else:  # if only one field, use subspace
-            funspace = V.sub(self.field)
+            funspace = V.sub(self.field if component is None else component)
         for surface in self.surfaces:
             bci = f.DirichletBC(funspace, self.expression, surface_markers, surface)
             self.dirichlet_bc.append(bci)
diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 8ea9823..bcad32e 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -215,9 +215,10 @@ class Simulation:
             "mobile": self.mobile,
             "T": self.T,
         }
-        for i, trap in enumerate(self.traps, 1):
-            field_to_object[i] = trap
-            field_to_object[str(i)] = trap
+        self.traps.assign_traps_ids()
+        for trap in self.traps:
+            field_to_object[trap.id] = trap
+            field_to_object[str(trap.id)] = trap
 
         # set sources
         for source in self.sources:
@@ -239,10 +240,11 @@ class Simulation:
     def check_boundary_conditions(self):
         """Runs a series of checks on the BCs and raise errors accordingly"""
 
+        self.traps.assign_traps_ids()
         valid_fields = (
             ["T", 0, "0"]  # temperature and mobile concentration
-            + [str(i + 1) for i, _ in enumerate(self.traps)]
-            + [i + 1 for i, _ in enumerate(self.traps)]
+            + [str(trap.id) for trap in self.traps]
+            + [trap.id for trap in self.traps]
         )
 
         # collect all DirichletBCs and SurfaceKinetics objects
diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index b6d4365..ff00514 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -204,7 +204,7 @@ class HTransportProblem:
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
             else:
-                trap = self.traps.get_trap(component)
+                trap = self.traps[component - 1]
                 trap.initialise(
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
@@ -306,6 +306,8 @@ class HTransportProblem:
         problem and add them to self.bcs
         """
         self.bcs = []
+        # the traps are identified by their ids
+        field_to_component = {trap.id: i for i, trap in enumerate(self.traps, 1)}
         for bc in self.boundary_conditions:
             if bc.field != "T" and isinstance(bc, festim.DirichletBC):
                 bc.create_dirichletbc(
@@ -315,6 +317,7 @@ class HTransportProblem:
                     chemical_pot=self.settings.chemical_pot,
                     materials=materials,
                     volume_markers=mesh.volume_markers,
+                    component=field_to_component.get(bc.field),
                 )
                 self.bcs += bc.dirichlet_bc
                 self.expressions += bc.sub_expressions
-- 
2.43.0


From db46dc9637f16919003c146b60c28aa0f5d10eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:02 +0000
Subject: [PATCH 19/36] fix: MaximumSurface and MinimumSurface in simulations

They required an argument that was never given, so a simulation exporting them
crashed, and they looked up facets as if they were cells.
---
 .../derived_quantities/derived_quantities.py  |  5 ++++
 .../derived_quantities/derived_quantity.py    | 30 +++++++++++++++++++
 .../derived_quantities/maximum_surface.py     | 17 ++---------
 .../derived_quantities/minimum_surface.py     | 17 ++---------
 festim/exports/exports.py                     |  8 ++++-
 5 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 42eec15..605db28 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -1,6 +1,8 @@
 from festim import (
     MinimumVolume,
     MaximumVolume,
+    MinimumSurface,
+    MaximumSurface,
     DerivedQuantity,
 )
 import fenics as f
@@ -106,6 +108,7 @@ class DerivedQuantities(list):
 
     def assign_measures_to_quantities(self, dx, ds):
         self.volume_markers = dx.subdomain_data()
+        self.surface_markers = ds.subdomain_data()
         for quantity in self:
             quantity.dx = dx
             quantity.ds = ds
@@ -129,6 +132,8 @@ class DerivedQuantities(list):
         for quantity in self:
             if isinstance(quantity, (MaximumVolume, MinimumVolume)):
                 value = quantity.compute(self.volume_markers)
+            elif isinstance(quantity, (MaximumSurface, MinimumSurface)):
+                value = quantity.compute(self.surface_markers)
             else:
                 value = quantity.compute()
 
diff --git a/festim/exports/derived_quantities/derived_quantity.py b/festim/exports/derived_quantities/derived_quantity.py
index 9df98d8..265a0c8 100644
--- a/festim/exports/derived_quantities/derived_quantity.py
+++ b/festim/exports/derived_quantities/derived_quantity.py
@@ -1,4 +1,6 @@
 from festim import Export
+import fenics as f
+import numpy as np
 
 
 class DerivedQuantity(Export):
@@ -96,3 +98,31 @@ class SurfaceQuantity(DerivedQuantity):
         if not isinstance(value, int) or isinstance(value, bool):
             raise TypeError("surface should be an int")
         self._surface = value
+
+    def find_surface_dofs(self, surface_markers):
+        """Finds the degrees of freedom of self.function that are located on
+        the facets marked with self.surface
+
+        Args:
+            surface_markers (fenics.MeshFunction): the facet markers
+
+        Returns:
+            numpy.array: the indices of the degrees of freedom
+        """
+        V = self.function.function_space()
+        mesh = V.mesh()
+        mesh.init(surface_markers.dim(), mesh.topology().dim())
+        dofs = []
+        for facet in f.SubsetIterator(surface_markers, self.surface):
+            facet_coords = [
+                v.point().array()[: mesh.geometry().dim()] for v in f.vertices(facet)
+            ]
+            for cell in f.cells(facet):
+                dof_coords = V.element().tabulate_dof_coordinates(cell)
+                for dof, x in zip(V.dofmap().cell_dofs(cell.index()), dof_coords):
+                    if any(
+                        np.allclose(x, y, rtol=0, atol=1e-10 * cell.h())
+                        for y in facet_coords
+                    ):
+                        dofs.append(dof)
+        return np.unique(dofs)
diff --git a/festim/exports/derived_quantities/maximum_surface.py b/festim/exports/derived_quantities/maximum_surface.py
index e83bc0e..99e8812 100644
--- a/festim/exports/derived_quantities/maximum_surface.py
+++ b/festim/exports/derived_quantities/maximum_surface.py
@@ -1,5 +1,4 @@
 from festim import SurfaceQuantity
-import fenics as f
 import numpy as np
 
 
@@ -45,17 +44,5 @@ class MaximumSurface(SurfaceQuantity):
 
     def compute(self, surface_markers):
         """Maximum of f over subdomains facets marked with self.surface"""
-        V = self.function.function_space()
-
-        dm = V.dofmap()
-
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(surface_markers, self.surface)
-                ]
-            )
-        )
-
-        return np.max(self.function.vector().get_local()[subd_dofs])
+        surf_dofs = self.find_surface_dofs(surface_markers)
+        return np.max(self.function.vector().get_local()[surf_dofs])
diff --git a/festim/exports/derived_quantities/minimum_surface.py b/festim/exports/derived_quantities/minimum_surface.py
index ec81482..70d6fcb 100644
--- a/festim/exports/derived_quantities/minimum_surface.py
+++ b/festim/exports/derived_quantities/minimum_surface.py
@@ -1,5 +1,4 @@
 from festim import SurfaceQuantity
-import fenics as f
 import numpy as np
 
 
@@ -45,17 +44,5 @@ class MinimumSurface(SurfaceQuantity):
 
     def compute(self, surface_markers):
         """Minimum of f over subdomains facets marked with self.surface"""
-        V = self.function.function_space()
-
-        dm = V.dofmap()
-
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(surface_markers, self.surface)
-                ]
-            )
-        )
-
-        return np.min(self.function.vector().get_local()[subd_dofs])
+        surf_dofs = self.find_surface_dofs(surface_markers)
+        return np.min(self.function.vector().get_local()[surf_dofs])
diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 989a4ae..b5fc94e 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -57,7 +57,13 @@ class Exports(list):
                     # check if function has to be projected
                     for quantity in export:
                         if isinstance(
-                            quantity, (festim.MaximumVolume, festim.MinimumVolume)
+                            quantity,
+                            (
+                                festim.MaximumVolume,
+                                festim.MinimumVolume,
+                                festim.MaximumSurface,
+                                festim.MinimumSurface,
+                            ),
                         ):
                             if not isinstance(
                                 label_to_function[quantity.field], f.Function
-- 
2.43.0


From 98502a888673e142cf4fb3d88e0b8e22db7b5bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:32 +0000
Subject: [PATCH 20/36] fix: XDMF exports of fields given as integers

A default label couldn't be made for the fields 0, 1... nor for "0".
---
 festim/exports/xdmf_export.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 14383fa..451e125 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -56,8 +56,10 @@ class XDMFExport(Export):
         if value is None:
             if self.field in field_to_label.keys():
                 self._label = field_to_label[self.field]
-            elif self.field.isdigit():
-                self._label = field_to_label["trap"].replace("i", self.field, 1)
+            elif str(self.field) == "0":
+                self._label = field_to_label["solute"]
+            elif str(self.field).isdigit():
+                self._label = field_to_label["trap"].replace("i", str(self.field), 1)
         else:
             self._label = value
 
-- 
2.43.0


From bce36e6866c42400eb033f6a0d2843248d230894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:48 +0000
Subject: [PATCH 21/36] fix: cylindrical and spherical quantities of the
 retention, or on a new mesh

The radius was taken from the function space of the field, which doesn't exist
for a sum of fields, and was kept when the model was initialised with another mesh.
---
 festim/exports/derived_quantities/derived_quantities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 605db28..4a524a4 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -113,6 +113,9 @@ class DerivedQuantities(list):
             quantity.dx = dx
             quantity.ds = ds
             quantity.n = f.FacetNormal(dx.subdomain_data().mesh())
+            # radius, for quantities in cylindrical or spherical coordinates
+            if hasattr(quantity, "r"):
+                quantity.r = f.SpatialCoordinate(dx.subdomain_data().mesh())[0]
 
     def assign_properties_to_quantities(self, materials):
         """Assign properties attributes to all DerivedQuantity objects
-- 
2.43.0


From f3ee472fbd337771afa2a992d8406b8ca2b6f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:45 +0000
Subject: [PATCH 22/36] fix: SurfaceKinetics with conservation of chemical
 potential

The previous concentration in the surface storage term was theta_n instead of
the concentration theta_n * S(T_n).
---
 festim/concentration/mobile.py |  5 ++++-
 festim/concentration/theta.py  | 17 +++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index c0e59b9..f62eba7 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -220,7 +220,7 @@ class Mobile(Concentration):
                     if isinstance(bc, SurfaceKinetics):
                         bc.create_form(
                             solute,
-                            self.previous_solution,
+                            self.previous_mobile_concentration(),
                             self.test_function,
                             T,
                             ds,
@@ -243,3 +243,6 @@ class Mobile(Concentration):
 
     def mobile_concentration(self):
         return self.solution
+
+    def previous_mobile_concentration(self):
+        return self.previous_solution
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 5daab70..8c472dc 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,5 @@
 from festim import Mobile, k_B, as_subdomain_id
+from festim.materials.materials import ArheniusCoeff
 import fenics as f
 
 
@@ -81,6 +82,22 @@ class Theta(Mobile):
             + self.materials.sievert_marker * sieverts_to_concentration
         )
 
+    def previous_mobile_concentration(self):
+        """Returns the hydrogen concentration at the previous timestep.
+        This is needed for SurfaceKinetics
+
+        Returns:
+            ufl.algebra.Sum: the previous hydrogen mobile concentration
+        """
+        # solubility at the previous temperature
+        S_n = ArheniusCoeff(
+            self.materials, self.volume_markers, self.T.T_n, "S_0", "E_S", degree=2
+        )
+        return (
+            self.materials.henry_marker * self.previous_solution**2 * S_n
+            + self.materials.sievert_marker * self.previous_solution * S_n
+        )
+
     def post_processing_solution_to_concentration(self):
         """Converts the post_processing_solution from theta to mobile
         concentration.
-- 
2.43.0


From 30ac0ac6e400c4023f8279816cdabb33564fce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:03 +0000
Subject: [PATCH 23/36] fix: reject fluxes on trapped concentrations instead of
 ignoring them

---
 festim/generic_simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index bcad32e..79af693 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -258,6 +258,12 @@ class Simulation:
             if bc.field not in valid_fields:
                 raise ValueError(f"{bc.field} is not a valid field for BC")
 
+            # fluxes can't be applied to trapped concentrations
+            if isinstance(bc, festim.FluxBC) and bc.field not in ["T", 0, "0"]:
+                raise ValueError(
+                    f"fluxes can only be applied to the mobile concentration or the temperature, not to field {bc.field}"
+                )
+
             # check SurfaceKinetics in 1D simulations
             if (
                 isinstance(bc, festim.SurfaceKinetics)
-- 
2.43.0


From 4c21d6aaedfcf80bff3b5fe13f97f438d3afc8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 24/36] fix: export the density of a trap when no trap has the
 id 1

---
 festim/exports/exports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index b5fc94e..fd7109d 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -93,10 +93,11 @@ class Exports(list):
                             label_to_function["retention"] = f.project(
                                 label_to_function["retention"], self.V_DG1
                             )
-                    export.function = label_to_function[export.field]
                     if isinstance(export, festim.TrapDensityXDMF):
+                        export.function = label_to_function[export.trap.id]
                         export.write(self.t, dx)
                     else:
+                        export.function = label_to_function[export.field]
                         export.write(self.t)
                     export.append = True
 
-- 
2.43.0


From 38782e41aa60bc4e1ef820d4f64df7b57062476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:40 +0000
Subject: [PATCH 25/36] fix: don't give the id of another trap to a trap
 without id

---
 festim/concentration/traps/traps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/festim/concentration/traps/traps.py b/festim/concentration/traps/traps.py
index f99cec5..a292bd5 100644
--- a/festim/concentration/traps/traps.py
+++ b/festim/concentration/traps/traps.py
@@ -45,9 +45,14 @@ class Traps(list):
             trap.make_materials(materials)
 
     def assign_traps_ids(self):
+        # don't assign the id of another trap
+        used_ids = [trap.id for trap in self]
         for i, trap in enumerate(self, 1):
             if trap.id is None:
+                while i in used_ids:
+                    i += 1
                 trap.id = i
+                used_ids.append(i)
 
     def create_forms(self, mobile, materials, T, dx, dt=None):
         self.F = 0
-- 
2.43.0


From 1f186ab2061c7d8fef87ec9106088c25ac17ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:44 +0000
Subject: [PATCH 26/36] fix: XDMF exports of the last step in steady
 simulations

---
 festim/exports/xdmf_export.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 451e125..41e9f3d 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -148,13 +148,17 @@ class XDMFExport(Export):
 
         Args:
             t (float): the current time
-            final_time (float): the final time of the simulation
+            final_time (float, None): the final time of the simulation, None if
+                steady
             nb_iterations (int): the current number of time steps
 
         Returns:
             bool: True if export should be exported, else False
         """
-        if self.mode == "last" and np.isclose(t, final_time, atol=0):
+        if self.mode == "last" and (
+            final_time is None or np.isclose(t, final_time, atol=0)
+        ):
+            # a steady simulation (final_time is None) only has one step
             return True
         elif isinstance(self.mode, int):
             if nb_iterations % self.mode == 0:
-- 
2.43.0


From 1a879f7f6f23471a5c9e3ca8639fd5fa90e8601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:03 +0000
Subject: [PATCH 27/36] fix: initialise a heat transfer problem again on
 another mesh

---
 festim/temperature/temperature_solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 3f92ae8..761abc6 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -62,6 +62,7 @@ class HeatTransferProblem(festim.Temperature):
         self.boundary_conditions = []
         self.sub_expressions = []
         self.newton_solver = None
+        self._default_newton_solver = None
 
     @property
     def newton_solver(self):
@@ -131,8 +132,12 @@ class HeatTransferProblem(festim.Temperature):
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
 
+        # a solver made for a previous mesh can't be used again
+        if self.newton_solver is self._default_newton_solver:
+            self.newton_solver = None
         if not self.newton_solver:
             self.define_newton_solver()
+            self._default_newton_solver = self.newton_solver
 
         if not self.transient:
             festim.festim_print("Solving stationary heat equation")
-- 
2.43.0


From 857f8d0b4b60f17f2e24941ad416b4e5af0288b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:03 +0000
Subject: [PATCH 28/36] fix: write the exports of a steady simulation run after
 a transient one

---
 festim/generic_simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 79af693..6617c3e 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -500,6 +500,9 @@ class Simulation:
             self.iterate()
 
     def run_steady(self):
+        # there is no final_time, even if a transient simulation was run before
+        self.exports.final_time = None
+
         # Solve steady state
         festim.festim_print("Solving steady state problem...")
 
-- 
2.43.0


From 90d065b4c4b73aeece782f8bb9c5754426515f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:03 +0000
Subject: [PATCH 29/36] fix: evaluate the inputs of a steady simulation at t=0
 after a transient one

---
 festim/generic_simulation.py             | 3 +++
 festim/temperature/temperature_solver.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 6617c3e..5ee6d1f 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -503,6 +503,9 @@ class Simulation:
         # there is no final_time, even if a transient simulation was run before
         self.exports.final_time = None
 
+        # the inputs may have been evaluated at another time in a previous run
+        festim.update_expressions(self.h_transport_problem.expressions, self.t)
+
         # Solve steady state
         festim.festim_print("Solving steady state problem...")
 
diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 761abc6..1a4a11f 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -144,6 +144,8 @@ class HeatTransferProblem(festim.Temperature):
 
             dT = f.TrialFunction(self.T.function_space())
             JT = f.derivative(self.F, self.T, dT)
+            # the inputs may have been evaluated at another time in a previous run
+            festim.update_expressions(self.sub_expressions, 0)
             problem = festim.Problem(JT, self.F, self.dirichlet_bcs)
 
             f.begin(
-- 
2.43.0


From 579cc6619a10c9c3c723093413b4d86998b058b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:38 +0000
Subject: [PATCH 30/36] fix: CustomDirichlet with conservation of chemical
 potential

---
 festim/boundary_conditions/dirichlets/custom_dc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/boundary_conditions/dirichlets/custom_dc.py b/festim/boundary_conditions/dirichlets/custom_dc.py
index fa84daf..5481c60 100644
--- a/festim/boundary_conditions/dirichlets/custom_dc.py
+++ b/festim/boundary_conditions/dirichlets/custom_dc.py
@@ -39,7 +39,7 @@ class CustomDirichlet(DirichletBC):
             **self.prms,
         )
         self.expression = value_BC
-        self.sub_expressions = self.prms.values()
+        self.sub_expressions = list(self.prms.values())
 
     def convert_prms(self):
         """Creates Expressions or Constant for all parameters"""
-- 
2.43.0


From 9f6b78f9f6c374f2b13633b574c9a84cb0da0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:23 +0000
Subject: [PATCH 31/36] fix: checkpoint XDMF files of fields solved with traps
 can be read back

---
 festim/exports/xdmf_export.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 41e9f3d..3d44f07 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -133,8 +133,15 @@ class XDMFExport(Export):
                 msg += "https://github.com/festim-dev/festim/issues/134)"
                 warnings.warn(msg)
 
+            function = self.function
+            V = function.function_space()
+            if len(V.component()) > 0:
+                # a component of a mixed function has to be copied to be readable
+                function = f.interpolate(function, V.collapse())
+                function.rename(self.label, "label")
+
             self.file.write_checkpoint(
-                self.function,
+                function,
                 self.label,
                 t,
                 f.XDMFFile.Encoding.HDF5,
-- 
2.43.0


From b4238d40ae517778361cc354c1ad2cc502b417f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:40 +0000
Subject: [PATCH 32/36] fix: initial concentrations read from files with
 conservation of chemical potential

---
 festim/concentration/theta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 8c472dc..324aafe 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -25,7 +25,9 @@ class Theta(Mobile):
             time_step (int, optional): the time step to read in the XDMF file.
                 Defaults to None.
         """
-        comp = self.get_comp(V, value, label=label, time_step=time_step)
+        # the concentration is discontinuous at the interfaces
+        V_DG1 = f.FunctionSpace(V.mesh(), "DG", 1)
+        comp = self.get_comp(V_DG1, value, label=label, time_step=time_step)
 
         prev_sol = f.Function(V)
         v = f.TestFunction(V)
-- 
2.43.0


From c5924ff63d030166bd721871e483e356a29e75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:19 +0000
Subject: [PATCH 33/36] fix: simulations shared the default lists of sources,
 boundary and initial conditions

---
 festim/generic_simulation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 5ee6d1f..ff66ce2 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -78,13 +78,13 @@ class Simulation:
         self,
         mesh=None,
         materials=None,
-        sources=[],
-        boundary_conditions=[],
+        sources=None,
+        boundary_conditions=None,
         traps=None,
         dt=None,
         settings=None,
         temperature=None,
-        initial_conditions=[],
+        initial_conditions=None,
         exports=None,
         log_level=40,
     ):
@@ -96,12 +96,13 @@ class Simulation:
         self.traps = traps
         self.materials = materials
 
-        self.boundary_conditions = boundary_conditions
-        self.initial_conditions = initial_conditions
+        # (the default lists mustn't be shared by several simulations)
+        self.boundary_conditions = [] if boundary_conditions is None else boundary_conditions
+        self.initial_conditions = [] if initial_conditions is None else initial_conditions
         self.T = temperature
         self.exports = exports
         self.mesh = mesh
-        self.sources = sources
+        self.sources = [] if sources is None else sources
 
         # internal attributes
         self.h_transport_problem = None
-- 
2.43.0


From f6d8268674492b0562e59dbd1c3ac4b6df25980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 34/36] fix: begin a new XDMF file when a model is initialised
 again

The file was opened once, in the constructor: without checkpoints the
times of a previous run were kept in the file of the next one, and a
change of filename or folder was ignored.
---
 festim/generic_simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index ff66ce2..487b716 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -426,6 +426,7 @@ class Simulation:
             if isinstance(export, festim.XDMFExport):
                 # start a new file
                 export.append = False
+                export.define_xdmf_file()
 
             if isinstance(export, festim.TXTExport):
                 # pre-process data depending on the chemical potential flag, trap element type,
-- 
2.43.0


From ce046f101079deb15b483e46781fb44c178d627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 35/36] fix: forget the milestones added for text exports of a
 previous run

The times of the TXTExports were added for good to the milestones of the
stepsize: they were still imposed after the times had been changed.
---
 festim/generic_simulation.py | 7 +++++++
 festim/stepsize.py           | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 487b716..cac9248 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -394,6 +394,12 @@ class Simulation:
 
         self.h_transport_problem.initialise(self.mesh, self.materials, self.dt)
 
+        # forget the milestones that were added for the exports of a previous run
+        if self.dt and self.dt.export_milestones:
+            self.dt.milestones = [
+                t for t in self.dt.milestones if t not in self.dt.export_milestones
+            ]
+
         for export in self.exports:
             if isinstance(export, festim.DerivedQuantities):
                 for q in export:
@@ -452,6 +458,7 @@ class Simulation:
                             msg += "TXTExport.times are added to milestones"
                             warnings.warn(msg)
                             self.dt.milestones.append(time)
+                            self.dt.export_milestones.append(time)
                     self.dt.milestones.sort()
 
         self.exports.nb_iterations = 0
diff --git a/festim/stepsize.py b/festim/stepsize.py
index 185fd18..c103c86 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -76,6 +76,8 @@ class Stepsize:
             self._milestones = sorted(value)
         else:
             self._milestones = value
+        # milestones added by the simulation for its exports
+        self.export_milestones = []
 
     def initialise_value(self):
         """Creates a fenics.Constant object initialised with self.initial_value
-- 
2.43.0


From eac6ce7ff64309f6427438c24f019fef02f8eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:36 +0000
Subject: [PATCH 36/36] fix: find the materials of a trap by name again when
 the materials changed

---
 festim/concentration/traps/trap.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index d303ec8..11171ed 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -71,6 +71,8 @@ class Trap(Concentration):
                     "Accepted types for materials are str or festim.Material"
                 )
         self._materials = value
+        # the names of the materials that weren't given as objects
+        self._materials_names = {}
 
     def make_materials(self, materials):
         """Ensure all entries in self.materials are of type festim.Material
@@ -82,11 +84,17 @@ class Trap(Concentration):
             ValueError: if some duplicates are found
         """
         new_materials = []
+        names = {}
 
         for material in self.materials:
+            # names have to be found again if the materials of the simulation changed
+            material = self._materials_names.get(material, material)
             new_materials.append(materials.find_material(material))
+            if isinstance(material, str):
+                names[new_materials[-1]] = material
 
-        self.materials = new_materials
+        self._materials = new_materials
+        self._materials_names = names
 
         if len(self.materials) != len(list(set(self.materials))):
             raise ValueError("Duplicate materials in trap")
-- 
2.43.0


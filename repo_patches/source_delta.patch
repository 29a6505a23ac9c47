From 88599e177296acead35fd21b675c0c24b4716e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 01/23] fix: impose boundary switching condition only where
 boundary multipliers exist

---
 nosnoc/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 9cd3d64..01bdce0 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -505,7 +505,9 @@ class FiniteElement(FiniteElementBase):
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         # g_z_all constraint for boundary point and continuity of algebraic variables.
-        if not opts.right_boundary_point_explicit and opts.use_fesd:
+        # NOTE: the last finite element of a control stage has no boundary point multipliers.
+        if (not opts.right_boundary_point_explicit and opts.use_fesd and
+                self.fe_idx < opts.Nfe_list[self.ctrl_idx] - 1):
             self.add_constraint(
                 model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))
 
-- 
2.43.0


From c445328fd3ebfd01c2fe50be2387cabefe493b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 02/23] fix: include right boundary point multipliers in cross
 complementarities

---
 nosnoc/problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 01bdce0..c77e065 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -522,7 +522,7 @@ class FiniteElement(FiniteElementBase):
                 theta = self.Theta(stage=j)
                 lam = self.prev_fe.Lambda(stage=-1)
                 comp_vec = ca.vertcat(comp_vec, theta*lam)
-                for jj in range(opts.n_s):
+                for jj in range(len(self.ind_lam)):
                     lam = self.Lambda(stage=jj)
                     comp_vec = ca.vertcat(comp_vec, theta*lam)
         else:
@@ -554,8 +554,8 @@ class FiniteElement(FiniteElementBase):
                 # cross comp with prev_fe
                 self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                             sigma_p, tau, s_elastic)
-                for jj in range(opts.n_s):
-                    # within fe
+                for jj in range(len(self.ind_lam)):
+                    # within fe, including the right boundary point if it exists
                     self.create_complementarity([self.Theta(stage=j)], self.Lambda(stage=jj),
                                                 sigma_p, tau, s_elastic)
         elif opts.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA:
-- 
2.43.0


From fa706ebe0b56d7824ad80ca49469764d4b44753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 03/23] fix: order initial step multipliers as in the parameter
 vector

---
 nosnoc/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 6c7f4a0..9f53bc3 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -296,8 +296,10 @@ class NosnocModel:
                     self.c[ii] - lambda_p[ii] + lambda_n[ii])
                 std_compl_res += ca.transpose(lambda_n[ii]) @ alpha_ii
                 std_compl_res += ca.transpose(lambda_p[ii]) @ (np.ones(n_c_sys[ii]) - alpha_ii)
-                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0),
-                                           ca.fmax(self.c[ii], 0))
+            # NOTE: same order as in FiniteElementZero.Lambda(): first all lambda_n, then all lambda_p
+            lambda00_expr = ca.vertcat(
+                casadi_vertcat_list([-ca.fmin(self.c[ii], 0) for ii in range(n_sys)]),
+                casadi_vertcat_list([ca.fmax(self.c[ii], 0) for ii in range(n_sys)]))
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From 55029b7872ff15d90579ba58917abcd858323cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 04/23] fix: report switch times instead of step sizes

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a2b3628..a1d3fa5 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -534,6 +534,6 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
                 switch_indices.append(i)
             theta_prev = theta
 
-    results["switch_times"] = np.array([time_steps[i] for i in switch_indices])
+    results["switch_times"] = np.array([t_grid[i + 1] for i in switch_indices])
 
     return results
-- 
2.43.0


From 76e8c6ce505fca906f4fcd8fb037c1ed30d927e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 05/23] fix: honour stop_on_failure in NosnocSimLooper.run

---
 nosnoc/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/helpers.py b/nosnoc/helpers.py
index 7d1e377..9d78c4c 100644
--- a/nosnoc/helpers.py
+++ b/nosnoc/helpers.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import numpy as np
 from .solver import NosnocSolver
-from .nosnoc_types import SpeedOfTimeVariableMode
+from .nosnoc_types import SpeedOfTimeVariableMode, Status
 
 
 class NosnocSimLooper:
@@ -93,7 +93,7 @@ class NosnocSimLooper:
             if self.print_level > 0:
                 print(f"Sim step {i + 1}/{self.Nsim}\t status: {results['status']}")
 
-            if (stop_on_failure and results["status"] == "Infeasible_Problem_Detected"):
+            if (stop_on_failure and results["status"] == Status.INFEASIBLE):
                 return False
 
         return True
-- 
2.43.0


From 91ad4e25ff8ec304d346df622bb6443ea40c5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 06/23] fix: support subsystems with different number of
 regions in step reformulation

---
 nosnoc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 9f53bc3..bfbacda 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -250,7 +250,7 @@ class NosnocModel:
                             upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +
                                            S_temp[j, k] * alpha[ii][k])
                     upsilon_temp = ca.vertcat(upsilon_temp, upsilon_ij)
-                upsilon = ca.horzcat(upsilon, upsilon_temp)
+                upsilon.append(upsilon_temp)
 
         # start empty
         g_lift = ca.SX.zeros((0, 1))
@@ -287,7 +287,7 @@ class NosnocModel:
         elif opts.pss_mode == PssMode.STEP:
             for ii in range(n_sys):
                 if self.F is not None:
-                    f_x = f_x + self.F[ii] @ upsilon[:, ii]
+                    f_x = f_x + self.F[ii] @ upsilon[ii]
                     alpha_ii = alpha[ii]
                 else:
                     alpha_ii = self.alpha[ii]
-- 
2.43.0


From 8fe3f2fec619544c34a1feeb50312b2a51d6c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 07/23] fix: create global speed of time variable

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index c77e065..a2c1f7d 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -650,7 +650,7 @@ class NosnocProblem(NosnocFormulationObject):
         # add global speed of time if necessary
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
             sot = ca.SX.sym('sot', 1)
-            self.add_variables(sot, self.ind_sot, self.opts.speed_of_time_min, self.opts.speed_of_time_max, 1.0)
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
 
         # Generate control_stages
         prev_fe = self.fe0
-- 
2.43.0


From 24ee7d4ae9ff2a40e4887d683bc9a9de8440d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 08/23] fix: handle speed of time and boolean variables in
 polishing step

---
 nosnoc/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a1d3fa5..a264262 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -212,7 +212,8 @@ class NosnocSolverBase(ABC):
         ind_set = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p + prob.ind_alpha +
                           prob.ind_theta + prob.ind_mu)
         ind_dont_set = flatten(prob.ind_h + prob.ind_u + prob.ind_x + prob.ind_v_global +
-                               prob.ind_v + prob.ind_z + prob.ind_elastic)
+                               prob.ind_v + prob.ind_z + prob.ind_elastic +
+                               prob.ind_sot + prob.ind_bool)
         # sanity check
         ind_all = ind_set + ind_dont_set
         for iw in range(len(w_guess)):
-- 
2.43.0


From b432605b38b597d14446e988726da3f8d8fca3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 09/23] fix: fix only variables close to zero in polishing step

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a264262..5e0f448 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -220,7 +220,7 @@ class NosnocSolverBase(ABC):
             if iw not in ind_all:
                 raise Exception(f"w[{iw}] = {prob.w[iw]} not handled proprerly")
 
-        w_fix_zero = w_guess < eps_sigma
+        w_fix_zero = np.abs(w_guess) < eps_sigma
         w_fix_zero[ind_dont_set] = False
         ind_fix_zero = np.where(w_fix_zero)[0].tolist()
 
-- 
2.43.0


From f2135e34d9ad46e60d388ba03e8948d032458ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 10/23] fix: reject inequality constraints in least squares
 constraint handling

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index a2c1f7d..5fc5d14 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -855,7 +855,7 @@ class NosnocProblem(NosnocFormulationObject):
         if opts.constraint_handling == ConstraintHandling.LEAST_SQUARES:
             self.g_lsq = copy(self.g)
             for ii in range(casadi_length(self.g)):
-                if self.lbg[ii] != 0.0:
+                if self.lbg[ii] != 0.0 or self.ubg[ii] != 0.0:
                     raise Exception(
                         f"least_squares constraint handling only supported if all lbg, ubg == 0.0, got {self.lbg[ii]=}, {self.ubg[ii]=}, {self.g[ii]=}"
                     )
-- 
2.43.0


From a8c110fe68d99a89a79351306cb4b0ccfab1e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 11/23] fix: impose control stage complementarities in every
 control stage

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 5fc5d14..3411880 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -540,7 +540,7 @@ class FiniteElement(FiniteElementBase):
             stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, z, self.p, self.model.v_global)  # TODO maybe should include stage z
             a, b = ca.horzsplit(stage_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-        if self.fe_idx == opts.N_finite_elements-1:
+        if self.fe_idx == opts.Nfe_list[self.ctrl_idx] - 1:
             ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)
             a, b = ca.horzsplit(ctrl_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-- 
2.43.0


From 8e96020d6837e2f5ffe01a53c4908357e777f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 12/23] fix: impose terminal time for a single control stage
 without equidistant grid

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 3411880..b19e556 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -836,7 +836,7 @@ class NosnocProblem(NosnocFormulationObject):
                 self.cost = sigma_p * self.cost + s_elastic
 
         # Terminal numerical time
-        if opts.N_stages > 1 and opts.use_fesd and not opts.equidistant_control_grid:
+        if opts.use_fesd and not opts.equidistant_control_grid:
             all_h = [fe.h for stage in self.stages for fe in stage]
             self.add_constraint(sum(all_h) - opts.terminal_time)
 
-- 
2.43.0


From 9e65c0ad1494ff23d2d37fa8fcb0b1b94200c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 13/23] fix: collect switching functions of one subsystem in
 auto model

---
 nosnoc/auto_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9b9c05a..9c06053 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -57,7 +57,7 @@ class NosnocAutoModel:
         """
         if self._detect_additive():
             self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=self.c, alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
         else:
             self._reformulate_linear()
             return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u)
-- 
2.43.0


From a962bcefeb9bfd91be5c815bb0fb96489bd4e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 14/23] fix: impose path constraints at every integrator stage
 for g_path_at_stg

---
 nosnoc/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index b19e556..b404be8 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -493,7 +493,9 @@ class FiniteElement(FiniteElementBase):
 
         # Generic path constraints
         end_allowance = 0 if opts.right_boundary_point_explicit else 1
-        if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or opts.g_path_at_fe:
+        # NOTE: if the last stage is the end of the finite element, it is also covered here for g_path_at_stg.
+        if (self.fe_idx == opts.Nfe_list[self.ctrl_idx] - 1 or opts.g_path_at_fe or
+                (opts.g_path_at_stg and opts.right_boundary_point_explicit)):
             end_idx = opts.n_s + end_allowance - 1
             gqj = ocp.g_path_fun(X_fe[end_idx], Uk, self.p, model.v_global)
             self.add_constraint(gqj, ocp.lbg, ocp.ubg)
-- 
2.43.0


From 474cdb82f6331b82e9d2abc4b03846b4226070e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 15/23] fix: report signed objective value

---
 nosnoc/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 5e0f448..9e921ee 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -257,7 +257,7 @@ class NosnocSolverBase(ABC):
             status = solver_stats['return_status']
             nlp_iter = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
             w_opt = sol['x'].full().flatten()
 
             complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
@@ -407,7 +407,7 @@ class NosnocSolver(NosnocSolverBase):
             status = solver_stats['return_status']
             nlp_iter[ii] = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
 
             # process iterate
             w_opt = sol['x'].full().flatten()
@@ -441,7 +441,7 @@ class NosnocSolver(NosnocSolverBase):
 
         # print constraint violation
         if opts.print_level > 1 and opts.constraint_handling == ConstraintHandling.LEAST_SQUARES:
-            threshold = np.max([np.sqrt(cost_val) / 100, opts.comp_tol * 1e2, 1e-5])
+            threshold = np.max([np.sqrt(np.abs(cost_val)) / 100, opts.comp_tol * 1e2, 1e-5])
             g_val = prob.g_fun(w_opt, self.p_val).full().flatten()
             if max(abs(g_val)) > threshold:
                 print("\nconstraint violations:")
-- 
2.43.0


From ef6759f9690de0e45460e0c2a255fcbd071010be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 16/23] fix: set theta for several subsystems

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 9e921ee..2564f5f 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -89,7 +89,7 @@ class NosnocSolverBase(ABC):
                 for sub_idx in prob.ind_theta:
                     for ssub_idx in sub_idx:
                         for sssub_idx in ssub_idx:
-                            prob.w0[sssub_idx] = value[i, :]
+                            prob.w0[flatten(sssub_idx)] = value[i, :]
                         i += 1
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
-- 
2.43.0


From bc33eee0c2e8be96d08ef0d9be4a5167d28f3d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 17/23] fix: collect results for subsystems with different
 number of regions

---
 nosnoc/solver.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 2564f5f..acf754c 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -470,6 +470,13 @@ class NosnocSolver(NosnocSolverBase):
         return results
 
 
+def get_values_per_sys(w: np.ndarray, ind_sys: list):
+    """values of each subsystem, as one array if all subsystems have the same size."""
+    if len(set(len(ind) for ind in ind_sys)) > 1:
+        return [w[ind] for ind in ind_sys]
+    return w[ind_sys]
+
+
 def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> dict:
     opts = prob.opts
 
@@ -485,8 +492,12 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
     if opts.speed_of_time_variables != SpeedOfTimeVariableMode.NONE:
         results["sot"] = [w_opt[ind] for ind in prob.ind_sot]
 
-    results["theta_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_theta)]
-    results["lambda_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_lam)]
+    results["theta_list"] = [
+        get_values_per_sys(w_opt, ind) for ind in get_cont_algebraic_indices(prob.ind_theta)
+    ]
+    results["lambda_list"] = [
+        get_values_per_sys(w_opt, ind) for ind in get_cont_algebraic_indices(prob.ind_lam)
+    ]
     # results["mu_list"] = [w_opt[ind] for ind in ind_mu_all]
     # if opts.pss_mode == PssMode.STEP:
     results["alpha_list"] = [
@@ -531,7 +542,7 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
     else:
         theta_prev = results["theta_list"][0]
         for i, theta in enumerate(results["theta_list"][1:]):
-            if any(np.abs(theta.flatten() - theta_prev.flatten()) > 0.1):
+            if any(np.abs(np.concatenate(theta) - np.concatenate(theta_prev)) > 0.1):
                 switch_indices.append(i)
             theta_prev = theta
 
-- 
2.43.0


From b0e4560946b5542fdd3495d5cd5f359f116063e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 18/23] fix: do not share NLP solver options between NosnocOpts
 instances

---
 nosnoc/nosnoc_opts.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index b69bb1a..81b7514 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -8,6 +8,26 @@ from .utils import validate
 from .nosnoc_types import MpccMode, IrkSchemes, StepEquilibrationMode, CrossComplementarityMode, IrkRepresentation, PssMode, IrkRepresentation, HomotopyUpdateRule, InitializationStrategy, ConstraintHandling, SpeedOfTimeVariableMode
 
 
+def _default_opts_casadi_nlp() -> dict:
+    """Default options of the NLP solver, every NosnocOpts gets its own copy."""
+    return {
+        'print_time': 0,
+        'verbose': False,
+        'ipopt': {
+            'sb': 'yes',
+            'max_iter': 500,
+            'print_level': 0,
+            'bound_relax_factor': 0,
+            'tol': None,
+            'dual_inf_tol': None,
+            'compl_inf_tol': None,
+            'mu_strategy': 'adaptive',
+            'mu_oracle': 'quality-function',
+        },
+        'record_time': True,
+    }
+
+
 def _assign(dictionary, keys, value):
     """Assign a value."""
     for key in keys:
@@ -82,14 +102,7 @@ class NosnocOpts:
     objective_scaling_direct: bool = True
 
     # IPOPT opts
-    opts_casadi_nlp = dict()
-    opts_casadi_nlp['print_time'] = 0
-    opts_casadi_nlp['verbose'] = False
-    opts_casadi_nlp['ipopt'] = dict()
-    opts_casadi_nlp['ipopt']['sb'] = 'yes'
-    opts_casadi_nlp['ipopt']['max_iter'] = 500
-    opts_casadi_nlp['ipopt']['print_level'] = 0
-    opts_casadi_nlp['ipopt']['bound_relax_factor'] = 0
+    opts_casadi_nlp: dict = field(default_factory=_default_opts_casadi_nlp)
     tol_ipopt = property(
         fget=lambda s: s.opts_casadi_nlp['ipopt']['tol'],
         fset=lambda s, v: _assign(
@@ -98,12 +111,6 @@ class NosnocOpts:
         ),
         doc="Ipopt tolerance."
     )
-    opts_casadi_nlp['ipopt']['tol'] = None
-    opts_casadi_nlp['ipopt']['dual_inf_tol'] = None
-    opts_casadi_nlp['ipopt']['compl_inf_tol'] = None
-    opts_casadi_nlp['ipopt']['mu_strategy'] = 'adaptive'
-    opts_casadi_nlp['ipopt']['mu_oracle'] = 'quality-function'
-    opts_casadi_nlp["record_time"] = True
     # opts_casadi_nlp['ipopt']['linear_solver'] = 'ma27'
     # opts_casadi_nlp['ipopt']['linear_solver'] = 'ma57'
 
-- 
2.43.0


From ed3f63daf3eac8ad7b349302721c1aa3073cea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 19/23] fix: quadrature weights of the integral representation
 for one Radau stage

---
 nosnoc/rk_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nosnoc/rk_utils.py b/nosnoc/rk_utils.py
index 5045996..f4afe59 100644
--- a/nosnoc/rk_utils.py
+++ b/nosnoc/rk_utils.py
@@ -1080,9 +1080,15 @@ def generate_butcher_tableu_integral(n_s: int, irk_scheme: IrkSchemes):
         for r in range(n_s + 1):
             C[j, r] = np.polyval(pder, tau_root[r])
 
-        # Evaluate the integral of the polynomial to get the coefficients of the quadrature function
-        pint = np.polyint(coeff)
-        B[j] = np.polyval(pint, 1.0)
+    # Coefficients of the quadrature function: integrate the Lagrange polynomials through the
+    # collocation points, since the quadrature is not evaluated at the initial point tau_root[0].
+    for j in range(1, n_s + 1):
+        coeff = np.array([1.0])
+        for r in range(1, n_s + 1):
+            if not r == j:
+                coeff = np.convolve(coeff, [1, -tau_root[r]])
+                coeff = coeff / (tau_root[j] - tau_root[r])
+        B[j] = np.polyval(np.polyint(coeff), 1.0)
     return B, C, D, tau_root
 
 
-- 
2.43.0


From 6ca371c87aa9585fbac0ae1e55d01247aebffa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 20/23] fix: evaluate RK4 initialization at the integrator
 stages of all finite elements

---
 nosnoc/solver.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index acf754c..9f7404c 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -125,15 +125,18 @@ class NosnocSolverBase(ABC):
         elif opts.initialization_strategy == InitializationStrategy.RK4_SMOOTHENED:
             # print(f"updating w0 with RK4 smoothened")
             # NOTE: assume N_stages = 1 and STEWART
-            dt_fe = opts.terminal_time / (opts.N_stages * opts.N_finite_elements)
+            n_fe = opts.Nfe_list[0]
+            dt_fe = opts.terminal_time / (opts.N_stages * n_fe)
+            # NOTE: irk_time_points contains also the initial point in the integral representation
+            stage_times = opts.irk_time_points[-opts.n_s:]
             irk_time_grid = np.array(
-                [opts.irk_time_points[0]] +
-                [opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)])
+                [stage_times[0]] +
+                [stage_times[k] - stage_times[k - 1] for k in range(1, opts.n_s)])
             rk4_t_grid = dt_fe * irk_time_grid
 
             x_rk4_current = x0
             db_updated_indices = list()
-            for i in range(opts.N_finite_elements):
+            for i in range(n_fe):
                 Xrk4 = rk4_on_timegrid(self.model.f_x_smooth_fun,
                                        x0=x_rk4_current,
                                        t_grid=rk4_t_grid)
-- 
2.43.0


From 225bb955f95e59cd62c50d9946f762ecb14098c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 21/23] fix: report objective value of polished solution

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 9f7404c..c0bc00d 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -270,7 +270,7 @@ class NosnocSolverBase(ABC):
             if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
                 print(f"Warning: IPOPT exited with status {status}")
 
-        return w_opt, cpu_time_nlp, nlp_iter, status
+        return w_opt, cpu_time_nlp, nlp_iter, status, cost_val
 
     def create_function_calculate_vector_field(self, sigma, p=[], v=[]):
         """Create a function to calculate the vector field."""
@@ -436,7 +436,7 @@ class NosnocSolver(NosnocSolverBase):
             sigma_k = self.homotopy_sigma_update(sigma_k)
 
         if opts.do_polishing_step:
-            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status = \
+            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status, cost_val = \
                                             self.polish_solution(self.solver, w_opt)
 
         # collect results
-- 
2.43.0


From 6a52405cd9b5fb58e27082597600ceb27efa3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:23 +0000
Subject: [PATCH 22/23] fix: polishing with subsystems of different number of
 regions

---
 nosnoc/solver.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index c0bc00d..f7ff3ef 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -244,9 +244,6 @@ class NosnocSolverBase(ABC):
                 f"polishing step: setting {len(ind_fix_zero)} variables to 0.0, {len(ind_fix_one)} to 1.0."
             )
         for i_ctrl in range(opts.N_stages):
-            for i_fe in range(opts.Nfe_list[i_ctrl]):
-                w_guess[prob.ind_theta[i_ctrl][i_fe][:]]
-
             sigma_k, tau_val = 0.0, 0.0
             self.setup_p_val(sigma_k, tau_val)
 
-- 
2.43.0


From dc189a39713dfbe9a024fbff31ccce58a4b11f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:38 +0000
Subject: [PATCH 23/23] fix: refuse models whose F, f_x, S and c have
 inconsistent dimensions

---
 nosnoc/model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index bfbacda..6021630 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -150,6 +150,8 @@ class NosnocModel:
             for i, f in enumerate(self.F):
                 if f.shape[1] == 1:
                     raise Warning(f"model.F item {i} is not a switching system!")
+                if f.shape[0] != n_x:
+                    raise ValueError(f"model.F item {i} should have n_x rows.")
 
             if self.g_Stewart:
                 if opts.pss_mode != PssMode.STEWART:
@@ -166,18 +168,26 @@ class NosnocModel:
                     raise ValueError("model.S should be a list.")
                 if len(self.c) != len(self.S):
                     raise ValueError("model.c and model.S should have the same length!")
+                if len(self.F) != len(self.S):
+                    raise ValueError("model.F and model.S should have the same length!")
                 for i, (fi, Si) in enumerate(zip(self.F, self.S)):
                     if fi.shape[1] != Si.shape[0]:
                         raise ValueError(
                             f"model.F item {i} and S {i} should have the same number of columns")
+                    if ca.DM(Si).shape[1] != n_c_sys[i]:
+                        raise ValueError(f"model.S item {i} should have one column for each entry of c {i}")
         else:  # Only check Step because Stewart is not allowed for general inclusions
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
             n_f_sys = [self.f_x[i].shape[1] for i in range(n_sys)]
             if not isinstance(self.c, list):
                 raise ValueError("model.c should be a list.")
-            if casadi_length(casadi_vertcat_list(self.c)) != casadi_length(casadi_vertcat_list(self.alpha)):
+            if len(self.c) != n_sys:
+                raise ValueError("model.c and model.f_x should have the same length!")
+            if [casadi_length(c) for c in self.c] != [casadi_length(alpha) for alpha in self.alpha]:
                 raise ValueError("model.c and model.alpha should have the same length!")
+            if casadi_length(casadi_vertcat_list(self.f_x)) != n_x:
+                raise ValueError("model.f_x should have n_x rows.")
 
         # parameters
         n_p_glob = casadi_length(self.p_global)
-- 
2.43.0


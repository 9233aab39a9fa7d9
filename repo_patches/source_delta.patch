From 5136b1781a7450bd22e9893da012404ccfb83111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 01/47] fix: keep invariant constraints on the same inputs
 after later time steps

The input variables of a mode are ordered latest step first, so an existing
invariant constraint must move to the next block of variables on every step.
It kept constraining the most recent inputs instead, which dropped reachable
states (e.g. x' = -x + u, invariant x <= 0.1).
---
 hylaa/lpinstance.py |  5 +++++
 hylaa/lputil.py     | 22 ++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 495b7ae..1eff89c 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -43,6 +43,9 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         self.cur_vars_offset = None
         self.input_effects_offsets = None # None or 2-tuple, row of input constraints / col of accumulated input effects
 
+        # rows with constraints on the current mode's initial-time and input variables, see lputil.add_init_constraint()
+        self.init_constraint_rows = []
+
         # internal bookkeeping
         self.obj_cols = [] # columns in the LP with an assigned objective coefficient
         self.names = [] # column names
@@ -65,6 +68,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
 
         rv.set_reach_vars(self.dims, self.basis_mat_pos, self.cur_vars_offset, self.input_effects_offsets)
         rv.obj_cols = self.obj_cols.copy()
+        rv.init_constraint_rows = self.init_constraint_rows.copy()
 
         return rv
 
@@ -85,6 +89,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         self.basis_mat_pos = basis_mat_pos
         self.cur_vars_offset = cur_vars_offset #num_cols - dims # right-most variables
         self.input_effects_offsets = input_effects_offsets
+        self.init_constraint_rows = [] # constraints from a previous mode are no longer affected by later steps
 
         self._create_bm_indices()
 
diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index c0a3d12..0ea1f92 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -300,6 +300,26 @@ def add_input_effects_matrix(lpi, input_mat, mode, lgg_beta=None):
 
     lpi.set_constraints_csc(csc, offset=(0, pre_cols))
 
+    _shift_init_constraints(lpi, num_cols)
+
+def _shift_init_constraints(lpi, num_cols):
+    '''
+    shift the input-variable coefficients of existing init constraints to the right by num_cols columns
+
+    The first block of input variables is always the input of the most recent step (the effects are e^{A*0} * B,
+    e^{A*1} * B, ...). When a step is performed, the inputs which an existing constraint talks about are one step
+    older, so they're described by the next block of variables.
+    '''
+
+    first_col = lpi.input_effects_offsets[1] + lpi.dims
+
+    for row_index in lpi.init_constraint_rows:
+        row = lpi.get_row(row_index)
+        cols = [c + num_cols if c >= first_col else c for c in row.indices]
+
+        csr_row_mat = csr_matrix((row.data, cols, row.indptr), dtype=float, shape=row.shape)
+        lpi.set_constraints_csr(csr_row_mat, offset=(row_index, 0))
+
 def check_intersection(lpi, lc, tol=1e-13):
     '''check if there is an intersection between the LP constriants and the LinearConstraint object lc
 
@@ -359,6 +379,7 @@ def add_init_constraint(lpi, vec, rhs, basis_matrix=None, input_effects_list=Non
     if row_index is None:
         row_index = rows
         lpi.add_rows_less_equal([rhs])
+        lpi.init_constraint_rows.append(row_index)
     else:
         # overwrite the old rhs
         lpi.set_constraint_rhs(row_index, rhs)
@@ -440,6 +461,7 @@ def try_replace_init_constraint(lpi, old_row_index, direction, rhs, basis_mat=No
             rows = lpi.get_num_rows()
 
             lpi.set_constraints_csr(old_constraint, offset=(rows - 1, 0))
+            lpi.init_constraint_rows.append(rows - 1)
             is_stronger = False
 
     return new_row_index, is_stronger
-- 
2.43.0


From f47344bdfb1e33e1beb320cb4f368df7c3715680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 02/47] fix: modes with inputs do not have zero dynamics

skip_zero_dynamics_modes dropped the state after one step when A was zero even if the mode had inputs.
---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 4a4d812..10c1aa5 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -237,7 +237,8 @@ class Core(Freezable):
                     self.check_guards() # check guards here, before doing an invariant intersection
 
                     # if the current mode has zero dynamics, remove it here
-                    if cur_state.mode.a_csr.nnz == 0 and self.settings.skip_zero_dynamics_modes:
+                    if cur_state.mode.a_csr.nnz == 0 and cur_state.mode.b_csr is None and \
+                            self.settings.skip_zero_dynamics_modes:
                         self.print_normal("State in mode '{}' with zero dynamics, skipping remaining steps".format( \
                             cur_state.mode.name))
                         self.aggdag.cur_state_left_invariant()
-- 
2.43.0


From 535bd1ba2cc7bd5defe19528899eae770aabe21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 03/47] fix: compare linear constraints by value

almost_equals() raised when the number of nonzeros differed (guard strengthening crashed) and considered
constraints on different variables equal when one of them had no entries.
---
 hylaa/hybrid_automaton.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 7f2166a..e918ec8 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -37,18 +37,9 @@ class LinearConstraint(Freezable):
             rv = False
         elif self.csr.shape != other.csr.shape:
             rv = False
-        elif not (self.csr.indices == other.csr.indices).all():
-            rv = False
-        elif not (self.csr.indptr == self.csr.indptr).all():
-            rv = False
         else:
-            for i in range(len(self.csr.data)):
-                a = self.csr.data[i]
-                b = other.csr.data[i]
-
-                if abs(a - b) > tol:
-                    rv = False
-                    break
+            # the nonzero pattern may differ, so compare the vectors rather than the sparse representation
+            rv = bool((abs(self.csr - other.csr).toarray() <= tol).all())
 
         return rv
 
-- 
2.43.0


From 10c454ae5e6a2fd6ea0511ba7a14d0033236f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 04/47] fix: stop_on_aggregated_error also finishes the
 analysis when the error is concrete

---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 10c1aa5..53f551d 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -86,7 +86,8 @@ class Core(Freezable):
         if self.doing_simulation:
             finished = not self.sim_states and not self.sim_waiting_list
         else:
-            if self.settings.stop_on_aggregated_error and self.result.has_aggregated_error:
+            if self.settings.stop_on_aggregated_error and \
+                    (self.result.has_aggregated_error or self.result.has_concrete_error):
                 finished = True
             elif self.settings.stop_on_concrete_error and self.result.has_concrete_error:
                 finished = True
-- 
2.43.0


From abfbb649f0a033a95dacfb21edb849069ec6bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 05/47] fix: auxiliary columns of an initial set are not part
 of the counterexample's start point

---
 hylaa/lputil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 0ea1f92..a80dbf2 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -123,7 +123,9 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
     lpi.add_rows_equal_zero(dims)
 
     if names is None:
-        names = ["m{}_i{}".format(mode.mode_id, var_index) for var_index in range(csr.shape[1])]
+        names = ["m{}_i{}".format(mode.mode_id, var_index) for var_index in range(dims)]
+        # columns after the first dims are not mode variables (for example, zonotope coefficients)
+        names += ["m{}_z{}".format(mode.mode_id, var_index) for var_index in range(csr.shape[1] - dims)]
         
     names += ["m{}_c{}".format(mode.mode_id, var_index) for var_index in range(dims)]
     
-- 
2.43.0


From 1ce744ad7d48026f6b8a5feada646fb267f8f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 06/47] fix: reaching an error with an approximation model does
 not crash in make_counterexample

---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 53f551d..b3bbe2a 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -120,7 +120,9 @@ class Core(Freezable):
                               f"{self.settings.num_steps}, time {times}")
 
 
-            if self.settings.make_counterexample and not self.result.counterexample:
+            # states of an approximation model are not points of an execution, so they have no counter-example
+            if self.settings.make_counterexample and not self.result.counterexample and \
+                    self.settings.approx_model == HylaaSettings.APPROX_NONE:
                 self.print_verbose("Reached concrete error state; making concrete counter-example")
                 self.result.counterexample = make_counterexample(self.hybrid_automaton, state, t, t_lpi)
 
-- 
2.43.0


From 44caf38e7df350b899d24cc1789192d78381ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 07/47] fix: deaggregated states do not run past the time bound
 during a replay

---
 hylaa/aggdag.py        | 20 +++++++++++++++++++-
 hylaa/deaggregation.py |  2 +-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 906d16a..14bcd9d 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -389,6 +389,22 @@ class AggDagNode(Freezable):
 
         return rv
 
+    def check_time_bound(self, step):
+        '''
+        would advancing to the passed-in step (in the current mode) exceed the time bound? if so, finish this node
+
+        a node being replayed can start later than the aggregated one it came from
+        '''
+
+        state = self.get_cur_state()
+        steps_left = self.aggdag.core.settings.num_steps - state.cur_steps_since_start[0]
+        rv = step - state.cur_step_in_mode > steps_left
+
+        if rv:
+            self.op_list.append(OpLeftInvariant(state.cur_step_in_mode, self, True))
+
+        return rv
+
     def replay_op(self, op_list, i):
         '''
         replay a single operation in the current node
@@ -406,7 +422,9 @@ class AggDagNode(Freezable):
 
         self.aggdag.core.print_verbose(f"replaying {i}: {op}")
 
-        if isinstance(op, OpLeftInvariant):
+        if self.check_time_bound(op.step):
+            self.aggdag.core.print_verbose("Replay reached computation time bound")
+        elif isinstance(op, OpLeftInvariant):
             self.op_list.append(op)
         elif isinstance(op, OpTransition):
             self.replay_op_transition(cur_state, op)
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 85018a0..0175eeb 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -147,7 +147,7 @@ class DeaggregationManager(Freezable):
 
         # advance the children to the current step if in case we only had inv_intersection operations
         for child in self.deagg_children:
-            if not child.node_left_invariant():
+            if not child.node_left_invariant() and not child.check_time_bound(cur_step_in_mode):
                 child.stateset.step(cur_step_in_mode)
 
         if not parent_left_invariant:
-- 
2.43.0


From 077ceeb3207d493871348aee72371281db4b0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 08/47] fix: compute_radius_inf uses the current variables of
 the set

---
 hylaa/lputil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index a80dbf2..9bb9bf2 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -1096,7 +1096,7 @@ def compute_radius_inf(lpi):
 
             lp_result = lpi.minimize(dir_vec)
 
-            max_val = max(max_val, abs(lp_result[n]))
+            max_val = max(max_val, abs(lp_result[lpi.cur_vars_offset + n]))
 
     return max_val
 
-- 
2.43.0


From db368940218dd6268a26816834184022b22f8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 09/47] fix: reorthogonalize_matrix returns orthonormal rows
 and does not modify its input

---
 hylaa/lputil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 9bb9bf2..a9d4bde 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -982,6 +982,8 @@ def reorthogonalize_matrix(mat, dims):
 
     while len(rv) < dims:
         if next_index >= mat.shape[0]:
+            cur_vec = None
+
             # first try to pick orthonormal directions if we can
             for d in range(dims):
                 found_nonzero = False
@@ -999,7 +1001,7 @@ def reorthogonalize_matrix(mat, dims):
             if cur_vec is None:
                 cur_vec = np.random.rand(dims,)
         else:
-            cur_vec = mat[next_index]
+            cur_vec = np.array(mat[next_index], dtype=float) # copy, as it gets modified below
             next_index += 1
 
         # project out the previous vectors
-- 
2.43.0


From f7e4d57a9fb42a60a36f7212862a7be784e0979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 10/47] fix: get_rhs returns the right-hand side of >= rows

---
 hylaa/lpinstance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 1eff89c..f220b67 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -813,7 +813,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
             if row_type in [glpk.GLP_FX, glpk.GLP_UP]:
                 limit = glpk.glp_get_row_ub(self.lp, row + 1)
             elif row_type == glpk.GLP_LO:
-                limit = glpk.glp_get_row_ub(self.lp, row + 1)
+                limit = glpk.glp_get_row_lb(self.lp, row + 1)
             else:
                 raise RuntimeError("Error: Unsupported type ({}) in getRhs() in row {}".format(row_type, row))
 
-- 
2.43.0


From eed80a5a47be3ba61493d1826345bdfadd6051b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 11/47] fix: time elapse at non-consecutive steps with the LGG
 approximation model and inputs

---
 hylaa/time_elapse_expm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index 99df3da..d438312 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -113,16 +113,16 @@ class TimeElapseExpmMult(Freezable):
 
             Timers.tic('expm')
             # compute one step behind, because this is what's used by input effects matrix
-            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size)
+            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size).toarray()
             Timers.toc('expm')
 
             # advance one step to get current basis matrix
-            self.cur_basis_matrix = np.dot(prev_step_mat_exp.toarray(), self.one_step_matrix_exp)
+            self.cur_basis_matrix = np.dot(prev_step_mat_exp, self.one_step_matrix_exp)
 
             # inputs
             if self.b_csc is not None:
                 Timers.tic("input effects")
-                self.cur_input_effects_matrix = prev_step_mat_exp * self.one_step_input_effects_matrix
+                self.cur_input_effects_matrix = np.dot(prev_step_mat_exp, self.one_step_input_effects_matrix)
                 Timers.toc("input effects")
 
                 if self.use_lgg:
-- 
2.43.0


From 9ba99e044717ef5cb480b6196b455d6c45fbc5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 12/47] fix: feasibility check in from_constraints respects the
 constraint types

---
 hylaa/lputil.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index a9d4bde..8af41d9 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -111,7 +111,7 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
 
     assert len(rhs.shape) == 1
     assert csr.shape[0] == len(rhs)
-    assert is_feasible(csr, rhs), "initial constraints are not feasible"
+    assert is_feasible(csr, rhs, types), "initial constraints are not feasible"
     assert (types is None) == (names is None)
 
     if dims is None:
@@ -1026,8 +1026,11 @@ def reorthogonalize_matrix(mat, dims):
 
     return np.array(rv, dtype=float)
 
-def is_feasible(csr, rhs):
-    'are the passed in constraints feasible?'
+def is_feasible(csr, rhs, types=None):
+    '''are the passed in constraints feasible?
+
+    if types is None, then assume all constraints are '<=' constraints
+    '''
 
     if not isinstance(csr, csr_matrix):
         csr = csr_matrix(csr, dtype=float)
@@ -1037,7 +1040,11 @@ def is_feasible(csr, rhs):
     lpi = LpInstance()
     names = ["x{}".format(n) for n in range(csr.shape[1])]
     lpi.add_cols(names)
-    lpi.add_rows_less_equal(rhs)
+
+    if types is None:
+        lpi.add_rows_less_equal(rhs)
+    else:
+        lpi.add_rows_with_types(types, rhs)
 
     lpi.set_constraints_csr(csr)
 
-- 
2.43.0


From 6ae909f0682cf8819167194fd355a1a34eb0c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 13/47] fix: solve LPs which are both primal and dual
 infeasible

---
 hylaa/lpinstance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index f220b67..f778050 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -583,6 +583,10 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
                 params.msg_lev = glpk.GLP_MSG_ON # turn printing on
                 params.tm_lim = 30 * 1000 # second try: 30 second time limit
                 simplex_res = glpk.glp_simplex(self.lp, params)
+        elif glpk.glp_get_status(self.lp) in [glpk.GLP_INFEAS, glpk.GLP_UNDEF]:
+            # inconclusive: the dual simplex stops like this if the LP is both primal and dual infeasible
+            params.meth = glpk.GLP_PRIMAL
+            simplex_res = glpk.glp_simplex(self.lp, params)
 
         # process simplex result
         rv = self._process_simplex_result(simplex_res, columns)
-- 
2.43.0


From 5d2b8db2ceb5d4d33eebca63ab6dbeabaeb85498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 14/47] fix: forget invariant constraint rows when an
 approximation model replaces the set

---
 hylaa/stateset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index bbb3106..e667fc1 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -342,3 +342,7 @@ class StateSet(Freezable):
             self.apply_approx_lgg()
         elif approx_model != HylaaSettings.APPROX_NONE:
             assert f"Unknown approx_model from settings: {approx_model}"
+
+        if approx_model != HylaaSettings.APPROX_NONE:
+            # the lpi was replaced, so the invariant constraints are no longer separate rows
+            self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
-- 
2.43.0


From 8626a24823360a6568ae45fdf4c6fb6a380a8071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 15/47] fix: deaggregation keeps the parts of merged states
 which come from other parents

---
 hylaa/aggdag.py        | 12 ++++++++++++
 hylaa/deaggregation.py | 28 +++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 14bcd9d..b81e110 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -168,6 +168,18 @@ class AggDag(Freezable):
 
         return rv
 
+    def get_node_and_decendants(self, node):
+        'get a list with the passed-in node and all the nodes originating from it'
+
+        rv = [node]
+
+        for cur_node in rv: # rv is extended during the iteration
+            for op in cur_node.op_list:
+                if isinstance(op, OpTransition) and op.child_node is not None and op.child_node not in rv:
+                    rv.append(op.child_node)
+
+        return rv
+
     def remove_node_decendants_from_waiting_list(self, node):
         'remove all waiting list states originating from the passed-in node'
 
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 0175eeb..a063c78 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -46,6 +46,8 @@ class DeaggregationManager(Freezable):
 
         self.replay_step = None # current step during a replay
 
+        self.replaced_nodes = None # set of AggDagNodes (a node and its decendants) being replaced by the current replay
+
     def doing_replay(self):
         'are we in the middle of a refinement replay?'
 
@@ -167,12 +169,34 @@ class DeaggregationManager(Freezable):
                 node = self.aggdag.make_node(ops, child.agg_type_from_parents, child.stateset.aggstring)
                 
                 self.waiting_nodes.append((child, [node]))
-                
+
+            self.keep_ops_from_other_parents()
+
             self.deagg_parent = self.deagg_children = self.replay_step = self.nodes_to_ops = None
 
             #print(".deaggregation calling aggdag.save_viz()")
             #self.aggdag.save_viz()
 
+    def keep_ops_from_other_parents(self):
+        '''
+        if the aggregation doesn't require the same path, the children of a replayed node may have other parents, which
+        are not part of the replay. The corresponding part of the child is put into a separate node.
+        '''
+
+        child_nodes = []
+
+        for op in self.deagg_parent.op_list:
+            if isinstance(op, OpTransition) and op.child_node is not None and op.child_node not in child_nodes:
+                child_nodes.append(op.child_node)
+
+        for child in child_nodes:
+            ops = [op for op in child.parent_ops if op.child_node is child and \
+                   op.parent_node not in self.replaced_nodes]
+
+            if ops:
+                node = self.aggdag.make_node(ops, child.agg_type_from_parents, child.stateset.aggstring)
+                self.waiting_nodes.append((child, [node]))
+
     def update_transition_successors(self, old_op, new_op):
         '''
         during a replay, update a node's successsors recursively
@@ -199,6 +223,8 @@ class DeaggregationManager(Freezable):
         # remove all states in the waiting list that come from this node
         self.aggdag.remove_node_decendants_from_waiting_list(node)
 
+        self.replaced_nodes = set(self.aggdag.get_node_and_decendants(node))
+
         # start to populate waiting_nodes
         self.waiting_nodes.append((node, node.split()))
 
-- 
2.43.0


From f5fbdfc56baf2e110ae7584b6277b888a49e1946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 16/47] fix: confirm infeasibility with a fresh basis

---
 hylaa/lpinstance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index f778050..c2f6524 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -583,7 +583,12 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
                 params.msg_lev = glpk.GLP_MSG_ON # turn printing on
                 params.tm_lim = 30 * 1000 # second try: 30 second time limit
                 simplex_res = glpk.glp_simplex(self.lp, params)
-        elif glpk.glp_get_status(self.lp) in [glpk.GLP_INFEAS, glpk.GLP_UNDEF]:
+        elif glpk.glp_get_status(self.lp) == glpk.GLP_NOFEAS:
+            # after replacing constraints the old basis may be singular without glpk noticing, confirm with a fresh one
+            glpk.glp_std_basis(self.lp)
+            simplex_res = glpk.glp_simplex(self.lp, params)
+
+        if simplex_res == 0 and glpk.glp_get_status(self.lp) in [glpk.GLP_INFEAS, glpk.GLP_UNDEF]:
             # inconclusive: the dual simplex stops like this if the LP is both primal and dual infeasible
             params.meth = glpk.GLP_PRIMAL
             simplex_res = glpk.glp_simplex(self.lp, params)
-- 
2.43.0


From bbc97e414989ef07ebe6e5d905e4b3c517b01cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 17/47] fix: deaggregation applies the approximation model

---
 hylaa/aggdag.py        | 12 +++++++++++-
 hylaa/core.py          |  3 +++
 hylaa/deaggregation.py |  1 +
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index b81e110..a8883b1 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -12,7 +12,7 @@ from hylaa.util import Freezable
 from hylaa.stateset import StateSet
 from hylaa.timerutil import Timers
 from hylaa import lputil, aggregate
-from hylaa.deaggregation import DeaggregationManager, OpInvIntersect, OpLeftInvariant, OpTransition
+from hylaa.deaggregation import DeaggregationManager, OpInvIntersect, OpApproxModel, OpLeftInvariant, OpTransition
 
 class AggDag(Freezable):
     'Aggregation directed acyclic graph (DAG) used to manage the deaggregation process'
@@ -99,6 +99,13 @@ class AggDag(Freezable):
         op = OpInvIntersect(step, self.cur_node, i_index, is_stronger)
         self.cur_node.op_list.append(op)
 
+    def add_approx_model_op(self, step):
+        '''
+        the approximation model was applied to the current state, add the op to the current node's op list
+        '''
+
+        self.cur_node.op_list.append(OpApproxModel(step, self.cur_node))
+
     def make_op_transition(self, t, t_lpi, state, parent_node):
         'make an OpTransition object, can return null if lp solving fails'
 
@@ -440,6 +447,9 @@ class AggDagNode(Freezable):
             self.op_list.append(op)
         elif isinstance(op, OpTransition):
             self.replay_op_transition(cur_state, op)
+        elif isinstance(op, OpApproxModel):
+            cur_state.apply_approx_model(self.aggdag.settings.approx_model)
+            self.op_list.append(OpApproxModel(op.step, self))
         elif isinstance(op, OpInvIntersect):
             # if there is a later invariant intersection with the same hyperplane and it's stronger, skip this one
 
diff --git a/hylaa/core.py b/hylaa/core.py
index b3bbe2a..b3334e7 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -281,6 +281,9 @@ class Core(Freezable):
             else:
                 cur_state.apply_approx_model(self.settings.approx_model)
 
+                if self.settings.approx_model != HylaaSettings.APPROX_NONE:
+                    self.aggdag.add_approx_model_op(cur_state.cur_step_in_mode)
+
         # pause plot
         self.print_verbose("Pausing due to step_pop()")
         self.plotman.pause()
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index a063c78..14b2b10 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -12,6 +12,7 @@ from hylaa.timerutil import Timers
 
 # Operation types
 OpInvIntersect = namedtuple('OpInvIntersect', ['step', 'node', 'i_index', 'is_stronger'])
+OpApproxModel = namedtuple('OpApproxModel', ['step', 'node'])
 OpLeftInvariant = namedtuple('OpLeftInvariant', ['step', 'node', 'reached_time_bound'])
 
 class OpTransition(): # pylint: disable=too-few-public-methods
-- 
2.43.0


From 76b41bfcdbc3b0e71b4f4c3d413f616bbf7c8666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 18/47] fix: pt_to_plot_xy with ydim 0 and with direction
 vectors

---
 hylaa/lpplot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 292c638..0c96310 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -23,13 +23,13 @@ def pt_to_plot_xy(pt, xdim=0, ydim=1, cur_time=0.0):
 
     if isinstance(xdim, int):
         x = pt[xdim]
-    elif xdim:
+    elif xdim is not None:
         assert isinstance(xdim, np.ndarray)
         x = np.dot(pt, xdim)
 
-    if ydim and isinstance(ydim, int):
+    if isinstance(ydim, int):
         y = pt[ydim]
-    elif ydim:
+    elif ydim is not None:
         assert isinstance(ydim, np.ndarray)
         y = np.dot(pt, ydim)
 
-- 
2.43.0


From 09e1f2315e679358afd36c9dafebe75a1f017be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 19/47] fix: vertices of 2-d projections given as direction
 vectors, and of time / time plots

---
 hylaa/lpplot.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 0c96310..f4850b6 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -59,14 +59,12 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
     #try:
     if xdim is None and ydim is None:
-        if abs(cur_time[0] - cur_time[1]) < tol:
-            pts = [[cur_time, cur_time]]
-        else:
-            pts = []
-            pts.append([cur_time.min, cur_time.min])
-            pts.append([cur_time.min, cur_time.max])
-            pts.append([cur_time.max, cur_time.max])
-            pts.append([cur_time.max, cur_time.min])
+        verts = [[cur_time[0], cur_time[0]]]
+
+        if abs(cur_time[0] - cur_time[1]) > tol:
+            verts.append([cur_time[0], cur_time[1]])
+            verts.append([cur_time[1], cur_time[1]])
+            verts.append([cur_time[1], cur_time[0]])
 
     elif xdim is None:
         # plot over time
@@ -117,6 +115,12 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
             verts.append([xmin, cur_time[1]])
     else:
         # 2-d plot
+        if isinstance(xdim, int):
+            xdim = np.array([1.0 if dim == xdim else 0.0 for dim in range(lpi.dims)], dtype=float)
+
+        if isinstance(ydim, int):
+            ydim = np.array([1.0 if dim == ydim else 0.0 for dim in range(lpi.dims)], dtype=float)
+
         bboxw = bbox_widths(lpi, xdim, ydim)
 
         # use bbox to determine acceptable accuracy... might be better to somehow do this
@@ -131,8 +135,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
             d = np.zeros((lpi.dims,), dtype=float)
             # negative here because we want to MAXIMIZE not minimize
 
-            for i, dim_index in enumerate(dim_list):
-                d[dim_index] = -vec[i]
+            for i, direction in enumerate(dim_list):
+                d += -vec[i] * direction
 
             lpi.set_minimize_direction(d)
 
@@ -140,8 +144,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
             rv = []
 
-            for dim in dim_list:
-                rv.append(res[dim])
+            for direction in dim_list:
+                rv.append(np.dot(direction, res))
 
             rv = np.array(rv, dtype=float)
 
@@ -167,18 +171,14 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
     return verts
 
 def bbox_widths(lpi, xdim, ydim):
-    'find and return the bounding box widths of the lp for the passed-in dimensions'
+    'find and return the bounding box widths of the lp for the passed-in directions'
 
     rv = []
-    dims = lpi.dims
+    cols = [lpi.cur_vars_offset + n for n in range(lpi.dims)]
 
-    for dim in [xdim, ydim]:
-        col = lpi.cur_vars_offset + dim
-        min_dir = [1 if i == dim else 0 for i in range(dims)]
-        max_dir = [-1 if i == dim else 0 for i in range(dims)]
-        
-        min_val = lpi.minimize(direction_vec=min_dir, columns=[col])[0]
-        max_val = lpi.minimize(direction_vec=max_dir, columns=[col])[0]
+    for direction in [xdim, ydim]:
+        min_val = np.dot(direction, lpi.minimize(direction_vec=direction, columns=cols))
+        max_val = np.dot(direction, lpi.minimize(direction_vec=-1 * direction, columns=cols))
 
         dx = max_val - min_val
 
-- 
2.43.0


From 9b79f5e395bd567036161d2c3aea6006df193631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 20/47] fix: first step of simulations does not depend on the
 other simulations

---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index b3334e7..50dc452 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -566,7 +566,6 @@ class Core(Freezable):
                     self.sim_states[i] = None
                     continue
 
-                self.sim_should_try_guards = True
                 finished = False
                 
                 # advance time
@@ -575,6 +574,9 @@ class Core(Freezable):
                 obj[1] = pt
                 obj[2] = steps + 1
 
+            # all simulations in sim_states were popped together, after the first step all should try guards
+            self.sim_should_try_guards = True
+
             if finished:
                 self.plotman.commit_cur_sims()
                 self.sim_states = None
-- 
2.43.0


From 91fd8943fec4b39b9bdd35fb1c1e811cb656daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 21/47] fix: simulations with the Unaggregated strategy

---
 hylaa/aggstrat.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hylaa/aggstrat.py b/hylaa/aggstrat.py
index ceb8852..a559ee6 100644
--- a/hylaa/aggstrat.py
+++ b/hylaa/aggstrat.py
@@ -53,6 +53,13 @@ class AggregationStrategy(Freezable):
 
         return None
 
+    def get_simulation_pop_mode(self, sim_waiting_list):
+        '''
+        returns the mode to be popped off the simulation waiting list
+        '''
+
+        return min(sim_waiting_list, key=lambda item: item[2])[0]
+
     def pretransition(self, t, t_lpi, op_transition):
         '''event function, called when taking a transition before the reset is applied
 
-- 
2.43.0


From 31eecbde6191054e4baa8d6ef857b6fd423a5d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 22/47] fix: multiple subplots with a single LabelSettings
 object

---
 hylaa/plotutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 0b8e96b..db95564 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -556,7 +556,7 @@ class PlotManager(Freezable):
             ha = self.core.hybrid_automaton
 
             if not isinstance(self.settings.label, list):
-                self.settings.label = [self.settings.label]
+                self.settings.label = [self.settings.label] * self.num_subplots
 
             # only use title for the first subplot the first plot
             title = self.settings.label[0].title
-- 
2.43.0


From a2bd4ae850c4cdd1dbcf6cc8295eaa36ea0089de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 23/47] fix: get_verts_list returns the vertices of all states

---
 hylaa/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 9a64e9d..f5742e2 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -55,7 +55,7 @@ class PlotData(Freezable):
     def get_verts_list(self, mode_name, plot_index=0):
         'get a list of lists for the passed-in mode'
 
-        return self.mode_to_obj_list[plot_index][mode_name][0]
+        return [obj[0] for obj in self.mode_to_obj_list[plot_index][mode_name]]
 
     def add_state(self, state, verts, plot_index):
         'add a plotted state'
-- 
2.43.0


From 8df52168931ae915a33bec98da8be6eb2dcb6f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 24/47] fix: remove deaggregated states from the data of all
 subplots

---
 hylaa/result.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index f5742e2..4cc1919 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -83,9 +83,6 @@ class PlotData(Freezable):
                     obj_list.pop(index)
                     break
 
-            if found:
-                break
-
         assert found
 
     def get_plot_data(self, x, y, subplot=0):
-- 
2.43.0


From dd470c25e4e001eeeac4cba5c1389741c02d9dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 25/47] fix: replay_counterexample uses the right number of
 points

---
 hylaa/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 4cc1919..a908cf2 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -226,7 +226,7 @@ def replay_counterexample(ce_segment_list, ha, settings):
         der_func = make_der_func(a_mat, b_mat, [])
 
         start = segment.start
-        times = np.linspace(0, segment.steps * step_size, num=segment.steps)
+        times = np.linspace(0, segment.steps * step_size, num=segment.steps + 1)
         tol = 1e-9
         states = odeint(der_func, start, times, col_deriv=True, rtol=tol, atol=tol, mxstep=int(1e7))
 
@@ -254,7 +254,7 @@ def replay_counterexample(ce_segment_list, ha, settings):
         for left, right in zip(lhs, t.guard_rhs):
             assert left <= right + epsilon, "guard was not enabled during replay counterexample"
 
-        assert not t.reset_minkowski_csr, "unimplemented: resets with minkowski sums"
+        assert t.reset_minkowski_csr is None, "unimplemented: resets with minkowski sums"
 
         if t.reset_csr is not None:
             poststate = t.reset_csr * states[-1]
-- 
2.43.0


From 997899bae5396b23b60e8153fcef9ea9770493c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 26/47] fix: check_trace works with Python 3

---
 hylaa/check_trace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 42faeac..7c21c7d 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -90,7 +90,7 @@ def check(a_matrix, b_matrix, step, max_time, start_point, inputs, normal_vec, e
 
     # we want to roughly get the desired number of sample points, so we may need to do multiple
     # samples per input
-    samples_per_input = approx_samples / max(1, len(inputs))
+    samples_per_input = approx_samples // max(1, len(inputs))
     if samples_per_input < 1:
         samples_per_input = 1
 
@@ -233,7 +233,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
         flat_inputs = []
         flat_times = []
 
-        for i in xrange(total_steps-1):
+        for i in range(total_steps-1):
             flat_times += [input_times[i], input_times[i+1]]
             flat_inputs += [inputs[i, :], inputs[i, :]]
 
@@ -242,7 +242,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
             flat_times += [input_times[0], input_times[0]]
             flat_inputs += [inputs[0, :], inputs[0, :]]
 
-        for row in xrange(len(flat_inputs[0])):
+        for row in range(len(flat_inputs[0])):
             ax[1].plot(flat_times, [single_input[row] for single_input in flat_inputs], label="$u_{}$".format(row+1))
 
     ##################
@@ -258,7 +258,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
 
     ##################
     # legend
-    for i in xrange(2 if inputs is not None else 1):
+    for i in range(2 if inputs is not None else 1):
         legend = ax[i].legend(loc='best', numpoints=1)
 
         # Set the fontsize
-- 
2.43.0


From 15c03f49bafde3857d3c0b71ca5b638bad9240c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 27/47] fix: vertices of lower-dimensional sets in three or
 more dimensions

---
 hylaa/kamenev.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/hylaa/kamenev.py b/hylaa/kamenev.py
index 632b49f..8721073 100644
--- a/hylaa/kamenev.py
+++ b/hylaa/kamenev.py
@@ -124,6 +124,21 @@ def get_verts(dims, supp_point_func, epsilon=1e-7):
     if len(init_simplex) < 3:
         return init_simplex # for 0-d and 1-d sets, the init_simplex corners are the only possible extreme points
     
+    if len(init_simplex) <= dims:
+        # lower-dimensional set: find the vertices in coordinates of the affine space which it spans
+        origin = init_simplex[0]
+        basis = np.linalg.qr(np.transpose([pt - origin for pt in init_simplex[1:]]))[0]
+
+        def supp_point_in_span(vec):
+            'support point in coordinates of the affine space'
+
+            return np.dot(supp_point_func(np.dot(basis, vec)) - origin, basis)
+
+        simplex = [np.dot(pt - origin, basis) for pt in init_simplex]
+        rv, _ = _v_h_rep_given_init_simplex(simplex, supp_point_in_span, epsilon=epsilon)
+
+        return np.dot(rv, basis.T) + origin
+
     rv, _ = _v_h_rep_given_init_simplex(init_simplex, supp_point_func, epsilon=epsilon)
 
     return rv
-- 
2.43.0


From 797a7909851795cb2added22535e04b170ba203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 28/47] fix: plotted vertices of line segments which are
 parallel to an axis

---
 hylaa/kamenev.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/kamenev.py b/hylaa/kamenev.py
index 8721073..133cf1f 100644
--- a/hylaa/kamenev.py
+++ b/hylaa/kamenev.py
@@ -58,7 +58,8 @@ def _find_two_points(dims, supp_point_func):
         vec = np.array([1 if i == d else 0 for i in range(dims)], dtype=float)
         p2 = supp_point_func(vec)
 
-        if not np.allclose(p1, p2):
+        # compare only this coordinate: ties may give different points, which need not be extreme points
+        if not np.isclose(p1[d], p2[d]):
             pts = [p1, p2]
             break
 
-- 
2.43.0


From d0ec0b9e75a8377cd9907aca133e859a48f7f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 29/47] fix: modes and transitions keep their own copy of
 right-hand sides

---
 hylaa/hybrid_automaton.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index e918ec8..06f5b25 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -115,8 +115,7 @@ class Mode(Freezable):
         if not isinstance(constraints_csr, csr_matrix):
             constraints_csr = csr_matrix(constraints_csr, dtype=float)
             
-        if not isinstance(constraints_rhs, np.ndarray):
-            constraints_rhs = np.array(constraints_rhs, dtype=float)
+        constraints_rhs = np.array(constraints_rhs, dtype=float) # copy, since the passed-in array may be shared
 
         constraints_rhs.shape = (len(constraints_rhs), ) # flatten rhs into a 1-d array
         assert constraints_csr.shape[1] == self.a_csr.shape[0], \
@@ -211,8 +210,7 @@ class Mode(Freezable):
         if not isinstance(u_constraints_csr, csr_matrix):
             u_constraints_csr = csr_matrix(u_constraints_csr, dtype=float)
             
-        if not isinstance(u_constraints_rhs, np.ndarray):
-            u_constraints_rhs = np.array(u_constraints_rhs, dtype=float)
+        u_constraints_rhs = np.array(u_constraints_rhs, dtype=float) # copy, since the passed-in array may be shared
         
         u_constraints_rhs.shape = (len(u_constraints_rhs), ) # flatten init_rhs into a 1-d array
 
@@ -319,9 +317,9 @@ class Transition(Freezable):
         if not isinstance(guard_csr, csr_matrix):
             guard_csr = csr_matrix(guard_csr, dtype=float)
             
-        if not isinstance(guard_rhs, np.ndarray):
-            guard_rhs = np.array(guard_rhs, dtype=float)
-        
+        guard_rhs = np.array(guard_rhs, dtype=float) # copy, since the passed-in array may be shared
+        guard_rhs.shape = (len(guard_rhs), ) # flatten into a 1-d array
+
         assert self.from_mode.a_csr is not None, "A-matrix not assigned in predecessor mode {}".format(self.from_mode)
 
         if guard_csr.shape[0] > 0:
@@ -330,7 +328,6 @@ class Transition(Freezable):
 
         assert lputil.is_feasible(guard_csr, guard_rhs), "guard constraints were infeasible"
 
-        guard_rhs.shape = (len(guard_rhs), ) # flatten into a 1-d array
         assert guard_rhs.shape[0] == guard_csr.shape[0]
 
         self.guard_csr = guard_csr
-- 
2.43.0


From df16c2a696f14f746fb227b76e2a7e06f8bce34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 30/47] fix: a time-triggered transition at the time bound does
 not drop the next state

---
 hylaa/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 50dc452..139cfd4 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -257,6 +257,7 @@ class Core(Freezable):
         Timers.tic('do_step_pop')
 
         self.plotman.state_popped() # reset certain per-mode plot variables
+        self.took_tt_transition = False # may still be set if the previous state also reached the time bound
         self.aggdag.print_waiting_list()
 
         self.result.last_cur_state = cur_state = self.aggdag.pop_waiting_list()
-- 
2.43.0


From 14e906bd6eb829ffe8b824bf855da031bfdacb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 31/47] fix: states which stay inside the invariant are not
 dropped after a time-triggered transition

---
 hylaa/hybrid_automaton.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 06f5b25..af9c43d 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -791,7 +791,10 @@ def was_tt_taken(state_lpi, t, step_size, num_steps):
 
             #print(". min_val = {}, max_val = {}, rhs = {}".format(min_val, max_val, rhs))
 
-            if abs(max_val - min_val) < epsilon and min_val <= rhs:
+            # the guard direction must decrease: otherwise the state may remain inside the invariant
+            rate = np.dot((row * a_csr).toarray()[0], min_state)
+
+            if abs(max_val - min_val) < epsilon and min_val <= rhs and rate < -epsilon:
                 rv = True
                 
     return rv
-- 
2.43.0


From ca8fd6bba139cfc558fac8fdd600d6918bf60c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 32/47] fix: variables with time-varying inputs are not
 time-triggered

---
 hylaa/hybrid_automaton.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index af9c43d..61ed765 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -607,17 +607,22 @@ def get_tt_vars(mode):
 
     tt_vars = []
 
+    def has_inputs(index):
+        'does the derivative of the variable depend on time-varying inputs?'
+
+        return mode.b_csr is not None and mode.b_csr[index].getnnz() > 0
+
     # find all variables with derivative equal to zero
     constant_vars = []
 
     for i in range(mode.a_csr.shape[0]):
         nonzeros = mode.a_csr[i].getnnz()
 
-        if nonzeros == 0: # row of all zeros
+        if nonzeros == 0 and not has_inputs(i): # row of all zeros
             constant_vars.append(i)
 
     for row_index, row in enumerate(mode.a_csr):
-        if row.getnnz() == 0: # skip constant variables
+        if row.getnnz() == 0 or has_inputs(row_index): # skip constant variables
             continue
 
         all_constant = True
-- 
2.43.0


From 5386196a44a00dc7a2dee86b38b87dbb3c538b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 33/47] fix: accept integer arrays for the constraints of
 minkowski terms in resets

A list of integers was converted, an integer array was kept and made the LP layer
raise a TypeError during the analysis. The array is copied as in set_guard.
---
 hylaa/hybrid_automaton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 61ed765..92bd7d6 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -368,7 +368,8 @@ class Transition(Freezable):
         if reset_minkowski_constraints_csr is not None and not isinstance(reset_minkowski_constraints_csr, csr_matrix):
             reset_minkowski_constraints_csr = csr_matrix(reset_minkowski_constraints_csr, dtype=float)
 
-        if reset_minkowski_constraints_rhs is not None and not isinstance(reset_minkowski_constraints_rhs, np.ndarray):
+        if reset_minkowski_constraints_rhs is not None:
+            # copy, since the passed-in array may be shared (or contain integers)
             reset_minkowski_constraints_rhs = np.array(reset_minkowski_constraints_rhs, dtype=float)
         
         assert reset_csr.shape[1] == self.from_mode.a_csr.shape[0], "reset matrix expected {} columns, got {}".format(
-- 
2.43.0


From 2d2009d90666d403e6e5385951d188230b9bd92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 34/47] fix: check_trace.check() without inputs crashed if
 there is a B matrix

The default inputs were scalars, although one value per input is needed at each step.
---
 hylaa/check_trace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 7c21c7d..3a2754c 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -81,7 +81,8 @@ def check(a_matrix, b_matrix, step, max_time, start_point, inputs, normal_vec, e
     assert abs(total_steps * step - max_time) < 1e-9, "Rounding issue with number of steps"
 
     if inputs is None:
-        inputs = [0] * (total_steps)
+        num_inputs = 0 if b_matrix is None else b_matrix.shape[1]
+        inputs = [[0] * num_inputs] * total_steps
 
     assert len(inputs) <= total_steps, "more inputs({}) than steps({})?".format(len(inputs), total_steps)
 
-- 
2.43.0


From 2aaef4ddbd190a2001b37fd64ade670732fc24de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 35/47] fix: replay_counterexample() did not check jumps
 without a reset

If a transition has the identity reset, the next segment has to start where the previous one ended.
---
 hylaa/result.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index a908cf2..a692b02 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -256,16 +256,15 @@ def replay_counterexample(ce_segment_list, ha, settings):
 
         assert t.reset_minkowski_csr is None, "unimplemented: resets with minkowski sums"
 
-        if t.reset_csr is not None:
-            poststate = t.reset_csr * states[-1]
+        poststate = states[-1] if t.reset_csr is None else t.reset_csr * states[-1]
 
-            if i + 1 < len(ce_segment_list):
-                next_prestate = ce_segment_list[i+1].start
+        if i + 1 < len(ce_segment_list):
+            next_prestate = ce_segment_list[i+1].start
 
-                assert np.allclose(poststate, next_prestate)
-            else:
-                rv.append(poststate)
-                all_times.append(all_times[-1])
+            assert np.allclose(poststate, next_prestate)
+        elif t.reset_csr is not None:
+            rv.append(poststate)
+            all_times.append(all_times[-1])
 
     return rv, all_times
 
-- 
2.43.0


From e511b8a2746140af011d65909c011fc0900541fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 36/47] fix: systems are not reported as safe after an
 aggregated error which was not refined

---
 hylaa/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 139cfd4..53bbcd5 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -427,6 +427,11 @@ class Core(Freezable):
 
         if self.result.has_concrete_error:
             self.print_normal("Result: Error modes are reachable (found counter-example).\n")
+        elif self.result.has_aggregated_error and (self.settings.stop_on_aggregated_error or \
+                                                   not getattr(self.settings.aggstrat, "deaggregate", False)):
+            # the aggregated states were not split, so the error may be real
+            self.print_normal("Result: Error modes are reachable when aggregation (overapproximation) is used, but " + \
+                              "no counter-example was found.\n")
         elif self.result.has_aggregated_error:
             self.print_normal("Result: System is safe, although error modes were reachable when aggregation " + \
                               "(overapproximation) was used.\n")
-- 
2.43.0


From 82a83798e318b1b08057e11577dbf662194904df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:00 +0000
Subject: [PATCH 37/47] fix: an analysis changed the guards of its automaton
 for later analyses with other settings

---
 hylaa/core.py             |  2 ++
 hylaa/hybrid_automaton.py | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 53bbcd5..afc18bb 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -337,6 +337,8 @@ class Core(Freezable):
         for mode in ha.modes.values():
             mode.init_time_elapse(self.settings.step_size)
 
+        ha.restore_guards()
+
         if self.settings.optimize_tt_transitions:
             ha.detect_tt_transitions(self.settings.step_size, self.settings.num_steps, self.print_debug)
 
diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 92bd7d6..4b248dc 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -258,6 +258,8 @@ class Transition(Freezable):
         self.guard_csr = None
         self.guard_rhs = None
 
+        self.given_guard = None # the guard before any analysis, assigned by HybridAutomaton.restore_guards()
+
         self.reset_csr = None
         self.reset_minkowski_csr = None
         self.reset_minkowski_constraints_csr = None
@@ -332,6 +334,8 @@ class Transition(Freezable):
 
         self.guard_csr = guard_csr
         self.guard_rhs = guard_rhs
+        self.given_guard = None
+        self.time_triggered = False
 
     def set_reset(self, reset_csr=None, reset_minkowski_csr=None, reset_minkowski_constraints_csr=None,
                   reset_minkowski_constraints_rhs=None):
@@ -504,6 +508,20 @@ class HybridAutomaton(Freezable):
                 "Transition {} premode has {} dims and postmode has {} dims, but no reset was assigned".format(
                     t, premode_dims, postmode_dims)
 
+    def restore_guards(self):
+        '''
+        Undo any changes to the transitions made by an earlier analysis of this automaton (guard strengthening and 
+        time-triggered transition detection), as these depended on the settings of that analysis
+        '''
+
+        for t in self.transitions:
+            if t.given_guard is None:
+                if t.guard_csr is not None:
+                    t.given_guard = (t.guard_csr, t.guard_rhs.copy(), t.time_triggered)
+            else:
+                t.guard_csr, guard_rhs, t.time_triggered = t.given_guard
+                t.guard_rhs = guard_rhs.copy()
+
     def do_guard_strengthening(self):
         '''
         Strengthen the guards to include the invariants of target modes
-- 
2.43.0


From 3c92d59744cf77bfee0511573c2dead21d311ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:36 +0000
Subject: [PATCH 38/47] fix: markers of small sets can be removed from plots
 (deaggregation crashed with several subplots)

---
 hylaa/plotutil.py |  3 +++
 hylaa/stateset.py | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index db95564..fa3974c 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -343,6 +343,9 @@ class DrawnShapes(Freezable):
             ydata.append(poly_verts[0][1])
             markers.set_xdata(xdata)
             markers.set_ydata(ydata)
+
+            # save the markers in the StateSet
+            stateset.set_plot_path(self.subplot, markers, len(xdata) - 1)
         else:
             polys = self.parent_to_polys.get(mode_name)
 
diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index e667fc1..e16da6b 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -9,6 +9,7 @@ import math
 import numpy as np
 import scipy as sp
 
+from matplotlib.lines import Line2D
 from matplotlib.path import Path
 
 from hylaa import lpplot, lputil
@@ -193,6 +194,8 @@ class StateSet(Freezable):
     def set_plot_path(self, subplot, path_list, path_index):
         '''
         set the matplotlib path object for this stateset at the current step
+
+        path_list is a list of Paths, or a Line2D for a marker
         '''
 
         step = self.cur_step_in_mode
@@ -228,10 +231,20 @@ class StateSet(Freezable):
 
             # for every subplot
             for path_list, index in l:
-                rv.append(path_list[index].vertices)
-
-                # this is what actually removes it from the plot
-                path_list[index] = Path(verts, codes)
+                if isinstance(path_list, Line2D):
+                    # small sets are drawn as markers
+                    xdata = list(path_list.get_xdata())
+                    ydata = list(path_list.get_ydata())
+                    rv.append([(xdata[index], ydata[index])])
+
+                    xdata[index] = ydata[index] = np.nan
+                    path_list.set_xdata(xdata)
+                    path_list.set_ydata(ydata)
+                else:
+                    rv.append(path_list[index].vertices)
+
+                    # this is what actually removes it from the plot
+                    path_list[index] = Path(verts, codes)
 
         return rv
 
-- 
2.43.0


From 03ca00e9769e192e805875270f3977429e0b85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 39/47] fix: stored plot data is refined by deaggregation also
 without a plot

---
 hylaa/plotutil.py | 20 ++++++++++----------
 hylaa/result.py   |  8 +-------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index fa3974c..ed5d991 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -699,6 +699,10 @@ class PlotManager(Freezable):
     def delete_plotted_state(self, stateset, step):
         'delete an already-plotted state'
 
+        # delete it from the result object
+        if self.core.result.plot_data is not None:
+            self.core.result.plot_data.remove_state(stateset, step)
+
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             verts = stateset.del_plot_path(step)
 
@@ -706,27 +710,23 @@ class PlotManager(Freezable):
                 pass # this happens during normal operation (nested deaggregation)
                 #print(f".#######plotutil plot was already deleted: {stateset}")
             else:
-                # delete it from the result object
-                if self.core.result.plot_data is not None:
-                    self.core.result.plot_data.remove_state(stateset, step)
-
                 # plot the verts of the deleted old plotted state
                 self.highlight_states_gray([verts])
 
     def add_plotted_states(self, stateset_list):
         'add the passed-in statesets to be plotted'
 
+        # add it to result as well
+        if self.settings.store_plot_result:
+            for state in stateset_list:
+                for subplot in range(self.num_subplots):
+                    verts = state.verts(self, subplot=subplot)
+                    self.core.result.plot_data.add_state(state, verts, subplot)
 
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             for state in stateset_list:
                 self.add_reachable_poly(state)
 
-                # add it to result as well
-                if self.settings.store_plot_result:
-                    for subplot in range(self.num_subplots):
-                        verts = state.verts(self, subplot=subplot)
-                        self.core.result.plot_data.add_state(state, verts, subplot)
-
             self.highlight_states(stateset_list)
 
     def highlight_states_gray(self, states):
diff --git a/hylaa/result.py b/hylaa/result.py
index a692b02..b92be48 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -67,9 +67,7 @@ class PlotData(Freezable):
         self.mode_to_obj_list[plot_index][mode_name].append(obj)
 
     def remove_state(self, state, step):
-        'remove a state that was previously added'
-
-        found = False
+        'remove a state that was previously added (does nothing if it was already removed)'
 
         for mode_to_obj in self.mode_to_obj_list:
             obj_list = mode_to_obj[state.mode.name]
@@ -78,13 +76,9 @@ class PlotData(Freezable):
                 _, istate, istep, desc = obj
 
                 if istate is state and step == istep:
-                    found = True
-
                     obj_list.pop(index)
                     break
 
-        assert found
-
     def get_plot_data(self, x, y, subplot=0):
         'get the plot data at x, y, or None if not found'
 
-- 
2.43.0


From 6321918b04a3f062d096e8ade18420b5c0c22ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 40/47] fix: Core.run() after simulate() or an interrupted
 run() of the same object reported that the system is safe

---
 hylaa/core.py     | 12 ++++++++++--
 hylaa/plotutil.py |  4 ++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index afc18bb..8632e85 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -359,13 +359,19 @@ class Core(Freezable):
 
         self.result = HylaaResult()
 
+        # nothing is left from an earlier run() or simulate() of this object
+        self.aggdag = AggDag(self.settings, self)
+        self.took_tt_transition = False
+        self.continuous_steps = 0
+        self.doing_simulation = False
+        self.sim_waiting_list = None
+        self.sim_states = None
+
         self.setup_ha(init_state_list[0].mode.ha)
         
         self.plotman.create_plot()
 
         # populate waiting list
-        assert not self.aggdag.waiting_list, "waiting list was not empty"
-
         for state in init_state_list:
             if not state.lpi.is_feasible():
                 self.print_normal("Removed an infeasible initial set in mode {}".format(state.mode.name))
@@ -474,7 +480,9 @@ class Core(Freezable):
         dims = len(box)
         assert dims == init_mode.a_csr.shape[0]
 
+        self.aggdag = AggDag(self.settings, self) # there is no current state from an earlier run()
         self.doing_simulation = True
+        self.sim_states = None
         self.sim_waiting_list = []
 
         for sim_index in range(num_sims[1]):
diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index ed5d991..c018e20 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -545,6 +545,10 @@ class PlotManager(Freezable):
     def create_plot(self):
         'create the plot'
 
+        # the limits of an earlier plot are not the ones of the new axes
+        self.actual_limits = None
+        self.drawn_limits = None
+
         if not self.settings.plot_mode in [PlotSettings.PLOT_NONE]:
             
             self.fig, axes_list = plt.subplots(nrows=self.num_subplots, ncols=1, figsize=self.settings.plot_size, \
-- 
2.43.0


From 79e1637dbc2099b95f80bcf3ec59147204b1b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 41/47] fix: axis limits follow sets which are flat in one
 direction

---
 hylaa/plotutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index c018e20..6b8c8b6 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -520,7 +520,7 @@ class PlotManager(Freezable):
                 lim.ymax = y
 
         is_outside = lim.xmin < drawn.xmin or lim.xmax > drawn.xmax or lim.ymin < drawn.ymin or lim.ymax > drawn.ymax
-        if first_draw or (is_outside and lim.xmin != lim.xmax and lim.ymin != lim.ymax):
+        if first_draw or is_outside:
 
             # expand drawn limits to surpass actual
             dx = lim.xmax - lim.xmin
-- 
2.43.0


From 5cba4110041265a4f6317b42caa03d5325e5d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:02 +0000
Subject: [PATCH 42/47] fix: closing the window of a live plot before the end
 crashed or reported that the system is safe

---
 hylaa/core.py     | 3 +++
 hylaa/plotutil.py | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 8632e85..75a7923 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -440,6 +440,9 @@ class Core(Freezable):
             # the aggregated states were not split, so the error may be real
             self.print_normal("Result: Error modes are reachable when aggregation (overapproximation) is used, but " + \
                               "no counter-example was found.\n")
+        elif not self.is_finished():
+            # for example if the window of a live plot was closed
+            self.print_normal("Result: Computation was stopped before it was finished.\n")
         elif self.result.has_aggregated_error:
             self.print_normal("Result: System is safe, although error modes were reachable when aggregation " + \
                               "(overapproximation) was used.\n")
diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 6b8c8b6..8681932 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -865,7 +865,6 @@ class PlotManager(Freezable):
 
     def anim_iterator(self):
         'generator for the computation iterator'
-        Timers.tic("anim_iterator")
 
         frame_counter = 0
 
@@ -882,8 +881,6 @@ class PlotManager(Freezable):
                 frame_counter += 1
                 yield frame_counter
 
-        Timers.toc("anim_iterator")
-
 
     def compute_and_animate(self):
         'do the computation, plotting during the process'
@@ -958,6 +955,9 @@ class PlotManager(Freezable):
         else:
             interval = 1 if self.settings.plot_mode == PlotSettings.PLOT_VIDEO else 0
 
+            # the window may be closed at any time, so this is not done in anim_iterator()
+            Timers.tic("animate")
+
             self.num_frames_drawn = 0
             self._anim = animation.FuncAnimation(self.fig, self.anim_func, self.anim_iterator, \
                 init_func=self.anim_init_func, interval=interval, blit=True, repeat=False, save_count=sys.maxsize)
@@ -967,6 +967,8 @@ class PlotManager(Freezable):
             else:
                 plt.show()
 
+            Timers.toc("animate")
+
     def run_to_completion(self, compute_plot=True):
         'run to completion, creating the plot at each step'
 
-- 
2.43.0


From 93a16704572764c2f0547ba3756dc98778c36732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 43/47] fix: clicks outside of all sets and during simulations
 crashed in interactive plots

---
 hylaa/plotutil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 8681932..76d78f9 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -918,11 +918,12 @@ class PlotManager(Freezable):
             except ValueError:
                 subplot = None
 
-            if subplot is not None:
+            if subplot is not None and self.core.result.plot_data is not None: # no data is stored in simulations
                 # check which polygon you're in
                 d = self.core.result.plot_data.get_plot_data(x, y, subplot)
 
-                print(d[1:])
+                if d is not None:
+                    print(d[1:])
 
         if self.settings.plot_mode == PlotSettings.PLOT_INTERACTIVE:
             # do one frame
-- 
2.43.0


From aeb0138970c35f4dad094e76a3e41c94fe859efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 44/47] fix: the extra frames of a video stored the last set
 again

---
 hylaa/plotutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 76d78f9..a8ae14c 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -802,7 +802,7 @@ class PlotManager(Freezable):
                 if self.pause_frames <= 0:
                     self.pause_frames = None
                     self.interactive.paused = False
-        else:
+        elif not self.core.is_finished(): # nothing changes in the extra frames of a video
             Timers.tic("frame")
 
             for ds in self.shapes:
-- 
2.43.0


From e0ace5ddd070dc5dc9b66b809eb6e409c1c3d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:33 +0000
Subject: [PATCH 45/47] fix: short simulations crashed plots with a draw_stride

---
 hylaa/plotutil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index a8ae14c..daa699c 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -253,8 +253,9 @@ class DrawnShapes(Freezable):
         paths = lines.get_paths()
 
         for verts in self.cur_sim_lines:
-            codes = [Path.MOVETO] + [Path.LINETO] * (len(verts) - 1)
-            paths.append(Path(verts, codes))
+            if verts: # with draw_stride, a short simulation may not have been drawn at all
+                codes = [Path.MOVETO] + [Path.LINETO] * (len(verts) - 1)
+                paths.append(Path(verts, codes))
 
         self.cur_sim_lines = []
         for line2d in self.cur_sim_line2ds:
-- 
2.43.0


From dc15b5ca41b06c2f8a3c59adf6e872cda896f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:20 +0000
Subject: [PATCH 46/47] fix: highlight removed markers as closed polygons
 (follow-up to 3c92d59)

---
 hylaa/stateset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index e16da6b..35a8197 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -235,7 +235,7 @@ class StateSet(Freezable):
                     # small sets are drawn as markers
                     xdata = list(path_list.get_xdata())
                     ydata = list(path_list.get_ydata())
-                    rv.append([(xdata[index], ydata[index])])
+                    rv.append([(xdata[index], ydata[index])] * 2)
 
                     xdata[index] = ydata[index] = np.nan
                     path_list.set_xdata(xdata)
-- 
2.43.0


From f57eb251dddfbbc0eb306075390c29124de5586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:02 +0000
Subject: [PATCH 47/47] fix: time bounds that are multiples of the step size up
 to float rounding performed an extra step

---
 hylaa/settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/settings.py b/hylaa/settings.py
index a029bc3..ec4cd1a 100644
--- a/hylaa/settings.py
+++ b/hylaa/settings.py
@@ -31,7 +31,8 @@ class HylaaSettings(Freezable):  # pylint: disable=too-few-public-methods
         plot_settings = PlotSettings()
 
         self.step_size = step_size # simulation step size
-        self.num_steps = int(math.ceil(max_time / step_size))
+        # round, since the quotient may be slightly larger than an integer (for example, 1.1 / 0.1)
+        self.num_steps = int(math.ceil(round(max_time / step_size, 9)))
 
         self.plot = plot_settings
         self.stdout = HylaaSettings.STDOUT_NORMAL
-- 
2.43.0


From 91d31e345f7962e4419c383dfc17622a1685e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 01/27] fix: release the generic system's matrices on
 destruction

The destructor was empty, so destroying any stepped GenericRigidBodySystem
tripped the "matrix was destroyed" assertion (or leaked with assertions off).
---
 src/generic_rigid_body_system.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index ed3b956..994e824 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -8,7 +8,24 @@ atg_scs::GenericRigidBodySystem::GenericRigidBodySystem() {
 }
 
 atg_scs::GenericRigidBodySystem::~GenericRigidBodySystem() {
-    /* void */
+    m_iv.J_sparse.destroy();
+    m_iv.J_dot_sparse.destroy();
+    m_iv.sreg0.destroy();
+    m_iv.J_T.destroy();
+    m_iv.M.destroy();
+    m_iv.M_inv.destroy();
+    m_iv.C.destroy();
+    m_iv.ks.destroy();
+    m_iv.kd.destroy();
+    m_iv.q_dot.destroy();
+    m_iv.reg0.destroy();
+    m_iv.reg1.destroy();
+    m_iv.reg2.destroy();
+    m_iv.right.destroy();
+    m_iv.F_ext.destroy();
+    m_iv.F_C.destroy();
+    m_iv.R.destroy();
+    m_iv.lambda.destroy();
 }
 
 void atg_scs::GenericRigidBodySystem::initialize(
-- 
2.43.0


From b09c688418e267f6212adf0188107d8018dd2c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 02/27] fix: report the generic system's constraint forces per
 row and body

The reaction arrays hold two entries per constraint row; indexing them by
row alone reported another row's (or the other body's) force.
---
 src/generic_rigid_body_system.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 994e824..777d9d2 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -97,9 +97,9 @@ void atg_scs::GenericRigidBodySystem::process(double dt, int steps) {
 
         for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
-                constraint->F_x[j][k] = m_state.r_x[i_f];
-                constraint->F_y[j][k] = m_state.r_y[i_f];
-                constraint->F_t[j][k] = m_state.r_t[i_f];
+                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];
+                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];
+                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];
             }
         }
     }
-- 
2.43.0


From 96288b6c0e06ec74c845d22c6d2898cc50e3731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 03/27] fix: RK4 reports the stage-weighted mean of the
 constraint forces

The accumulator started from the previous (possibly uninitialised) reactions,
added dt times the stage reactions to them and covered only half of the
entries, so constraint forces under RK4 depended on heap contents.
---
 src/rk4_ode_solver.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index 7a4a0bf..1a080dd 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -15,6 +15,13 @@ void atg_scs::Rk4OdeSolver::start(SystemState *initial, double dt) {
     m_initialState.copy(initial);
     m_accumulator.copy(initial);
 
+    // Reactions are averaged over the stages, they are not integrated
+    for (int i = 0; i < initial->n_c * 2; ++i) {
+        m_accumulator.r_x[i] = 0.0;
+        m_accumulator.r_y[i] = 0.0;
+        m_accumulator.r_t[i] = 0.0;
+    }
+
     m_stage = RkStage::Stage_1;
 }
 
@@ -88,10 +95,10 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
         m_accumulator.p_y[i] += (m_dt / 6.0) * system->v_y[i] * stageWeight;
     }
 
-    for (int i = 0; i < system->n_c; ++i) {
-        m_accumulator.r_x[i] += (m_dt / 6.0) * system->r_x[i] * stageWeight;
-        m_accumulator.r_y[i] += (m_dt / 6.0) * system->r_y[i] * stageWeight;
-        m_accumulator.r_t[i] += (m_dt / 6.0) * system->r_t[i] * stageWeight;
+    for (int i = 0; i < system->n_c * 2; ++i) {
+        m_accumulator.r_x[i] += system->r_x[i] * stageWeight / 6.0;
+        m_accumulator.r_y[i] += system->r_y[i] * stageWeight / 6.0;
+        m_accumulator.r_t[i] += system->r_t[i] * stageWeight / 6.0;
     }
 
     if (m_stage == RkStage::Stage_4) {
@@ -104,7 +111,7 @@ void atg_scs::Rk4OdeSolver::solve(SystemState *system) {
             system->p_y[i] = m_accumulator.p_y[i];
         }
 
-        for (int i = 0; i < system->n_c; ++i) {
+        for (int i = 0; i < system->n_c * 2; ++i) {
             system->r_x[i] = m_accumulator.r_x[i];
             system->r_y[i] = m_accumulator.r_y[i];
             system->r_t[i] = m_accumulator.r_t[i];
-- 
2.43.0


From 0df7da3897b437715505ac0dd345ebc927c15f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 04/27] fix: RK4 stages advance positions with the previous
 stage's velocity

Each stage overwrote the velocity before using it for the position, which
made the integrator second order (error /4 per halving of dt) for any force
that depends on position or velocity. The tests use constant accelerations,
where the mistake cancels.
---
 src/rk4_ode_solver.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rk4_ode_solver.cpp b/src/rk4_ode_solver.cpp
index 1a080dd..5ee2d58 100644
--- a/src/rk4_ode_solver.cpp
+++ b/src/rk4_ode_solver.cpp
@@ -33,36 +33,36 @@ bool atg_scs::Rk4OdeSolver::step(SystemState *state) {
         case RkStage::Stage_2:
         case RkStage::Stage_3:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i] / 2.0;
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i] / 2.0;
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i] / 2.0;
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;
             }
 
             state->dt = m_dt / 2.0;
             break;
         case RkStage::Stage_4:
             for (int i = 0; i < state->n; ++i) {
-                state->v_theta[i] =
-                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->theta[i] =
                     m_initialState.theta[i] + m_dt * state->v_theta[i];
-                state->v_x[i] =
-                    m_initialState.v_x[i] + m_dt * state->a_x[i];
-                state->v_y[i] =
-                    m_initialState.v_y[i] + m_dt * state->a_y[i];
+                state->v_theta[i] =
+                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];
                 state->p_x[i] =
                     m_initialState.p_x[i] + m_dt * state->v_x[i];
                 state->p_y[i] =
                     m_initialState.p_y[i] + m_dt * state->v_y[i];
+                state->v_x[i] =
+                    m_initialState.v_x[i] + m_dt * state->a_x[i];
+                state->v_y[i] =
+                    m_initialState.v_y[i] + m_dt * state->a_y[i];
             }
 
             state->dt = m_dt;
-- 
2.43.0


From 0a793504fae9e02af209793d7e6ccd1a47dc62a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 05/27] fix: constraints attached to a body outside the system

The Jacobian skips bodies with index -1, but the reaction was still added to
a_x[-1] (a write before the array), and the force reported for that body came
from an entry that is never written.
---
 include/sparse_matrix.h                 |  7 +++++++
 src/generic_rigid_body_system.cpp       | 10 +++++++---
 src/optimized_nsv_rigid_body_system.cpp | 10 +++++++---
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index d9a834c..cdce170 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -127,6 +127,13 @@ namespace atg_scs {
                 return m_matrix[row][entry * T_Stride + slice];
             }
 
+            inline bool isEmpty(int row, int entry) const {
+                assert(row >= 0 && row < m_height);
+                assert(entry >= 0 && entry < T_Entries);
+
+                return m_blockData[row * T_Entries + entry] == 0xFF;
+            }
+
             inline void setEmpty(int row, int col) {
                 assert(row >= 0 && row < m_height);
                 assert(col >= 0 && col < T_Entries);
diff --git a/src/generic_rigid_body_system.cpp b/src/generic_rigid_body_system.cpp
index 777d9d2..ae16e7d 100644
--- a/src/generic_rigid_body_system.cpp
+++ b/src/generic_rigid_body_system.cpp
@@ -216,9 +216,10 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
 
     for (int i = 0; i < m_f; ++i) {
         for (int j = 0; j < 2; ++j) {
-            m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);
-            m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);
-            m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);
+            const bool empty = m_iv.sreg0.isEmpty(i, j);
+            m_state.r_x[i * 2 + j] = empty ? 0.0 : m_iv.sreg0.get(i, j, 0);
+            m_state.r_y[i * 2 + j] = empty ? 0.0 : m_iv.sreg0.get(i, j, 1);
+            m_state.r_t[i * 2 + j] = empty ? 0.0 : m_iv.sreg0.get(i, j, 2);
         }
     }
 
@@ -235,6 +236,9 @@ void atg_scs::GenericRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
diff --git a/src/optimized_nsv_rigid_body_system.cpp b/src/optimized_nsv_rigid_body_system.cpp
index bdd1a1b..289bb1d 100644
--- a/src/optimized_nsv_rigid_body_system.cpp
+++ b/src/optimized_nsv_rigid_body_system.cpp
@@ -231,9 +231,10 @@ void atg_scs::OptimizedNsvRigidBodySystem::processConstraints(
 
     for (int i = 0; i < m_f; ++i) {
         for (int j = 0; j < 2; ++j) {
-            m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);
-            m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);
-            m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);
+            const bool empty = m_iv.sreg0.isEmpty(i, j);
+            m_state.r_x[i * 2 + j] = empty ? 0.0 : m_iv.sreg0.get(i, j, 0);
+            m_state.r_y[i * 2 + j] = empty ? 0.0 : m_iv.sreg0.get(i, j, 1);
+            m_state.r_t[i * 2 + j] = empty ? 0.0 : m_iv.sreg0.get(i, j, 2);
         }
     }
 
@@ -250,6 +251,9 @@ void atg_scs::OptimizedNsvRigidBodySystem::processConstraints(
         for (int j = 0; j < n_f; ++j, ++j_f) {
             for (int k = 0; k < constraint->m_bodyCount; ++k) {
                 const int body = constraint->m_bodies[k]->index;
+
+                if (body == -1) continue;
+
                 m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                 m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                 m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
-- 
2.43.0


From f479bf73c1d6443216bf9fd76a96040bad0ee9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 06/27] fix: springs attached to a body outside the system

The spring supports such anchors when computing its force but then applied
the force to body -1, writing before the force arrays.
---
 src/spring.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/spring.cpp b/src/spring.cpp
index e820e46..d6cccca 100644
--- a/src/spring.cpp
+++ b/src/spring.cpp
@@ -62,21 +62,25 @@ void atg_scs::Spring::apply(SystemState *state) {
     const double v = dx * rel_v_x + dy * rel_v_y;
     const double x = l - m_restLength;
 
-    state->applyForce(
-        m_p1_x,
-        m_p1_y,
-        dx * x * m_ks + rel_v_x * m_kd,
-        dy * x * m_ks + rel_v_y * m_kd,
-        m_body1->index
-    );
-
-    state->applyForce(
-        m_p2_x,
-        m_p2_y,
-        -dx * x * m_ks - rel_v_x * m_kd,
-        -dy * x * m_ks - rel_v_y * m_kd,
-        m_body2->index
-    );
+    if (m_body1->index != -1) {
+        state->applyForce(
+            m_p1_x,
+            m_p1_y,
+            dx * x * m_ks + rel_v_x * m_kd,
+            dy * x * m_ks + rel_v_y * m_kd,
+            m_body1->index
+        );
+    }
+
+    if (m_body2->index != -1) {
+        state->applyForce(
+            m_p2_x,
+            m_p2_y,
+            -dx * x * m_ks - rel_v_x * m_kd,
+            -dy * x * m_ks - rel_v_y * m_kd,
+            m_body2->index
+        );
+    }
 }
 
 void atg_scs::Spring::getEnds(double *x_1, double *y_1, double *x_2, double *y_2) {
-- 
2.43.0


From c8a43be272b311cf5fa7108a2ce8276ebcbdf391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 07/27] fix: removed objects report that they are outside the
 system

A removed body kept its old index, so a spring still attached to it acted on
whichever body took over the slot, or past the end of the state arrays.
---
 src/rigid_body_system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rigid_body_system.cpp b/src/rigid_body_system.cpp
index b32c5f3..ddfd9d3 100644
--- a/src/rigid_body_system.cpp
+++ b/src/rigid_body_system.cpp
@@ -47,6 +47,7 @@ void atg_scs::RigidBodySystem::removeRigidBody(RigidBody *body) {
     m_rigidBodies[body->index] = m_rigidBodies.back();
     m_rigidBodies[body->index]->index = body->index;
     m_rigidBodies.resize(m_rigidBodies.size() - 1);
+    body->index = -1;
 }
 
 atg_scs::RigidBody *atg_scs::RigidBodySystem::getRigidBody(int i) {
@@ -63,6 +64,7 @@ void atg_scs::RigidBodySystem::removeConstraint(Constraint *constraint) {
     m_constraints[constraint->m_index] = m_constraints.back();
     m_constraints[constraint->m_index]->m_index = constraint->m_index;
     m_constraints.resize(m_constraints.size() - 1);
+    constraint->m_index = -1;
 }
 
 void atg_scs::RigidBodySystem::addForceGenerator(ForceGenerator *forceGenerator) {
@@ -74,6 +76,7 @@ void atg_scs::RigidBodySystem::removeForceGenerator(ForceGenerator *forceGenerat
     m_forceGenerators[forceGenerator->m_index] = m_forceGenerators.back();
     m_forceGenerators[forceGenerator->m_index]->m_index = forceGenerator->m_index;
     m_forceGenerators.resize(m_forceGenerators.size() - 1);
+    forceGenerator->m_index = -1;
 }
 
 int atg_scs::RigidBodySystem::getFullConstraintCount() const {
-- 
2.43.0


From 305c65be5b3f9aaa88335e943b3c9f6a7c2c98e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 08/27] fix: direct solver sizes its result for an empty
 problem

Removing the last constraint left the previous solution in place and tripped
a size assertion in the next step.
---
 src/gaussian_elimination_sle_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index daf1422..daa9ac4 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -32,10 +32,10 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     assert(right.getHeight() == m_M.getWidth());
 
-    if (n == 0 || m == 0) return true;
-
     result->resize(1, m);
 
+    if (n == 0 || m == 0) return true;
+
     Matrix &A = m_a;
     A.resize(n, m);
 
-- 
2.43.0


From 93d2160587cbf7e20ed0aa144e8b266cbd9c0b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 09/27] fix: initialise a force generator's index

Bodies and constraints start at -1; the generator's index was left to whatever
the memory contained.
---
 src/force_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/force_generator.cpp b/src/force_generator.cpp
index 598ebb1..58cc689 100644
--- a/src/force_generator.cpp
+++ b/src/force_generator.cpp
@@ -1,7 +1,7 @@
 #include "../include/force_generator.h"
 
 atg_scs::ForceGenerator::ForceGenerator() {
-    /* void */
+    m_index = -1;
 }
 
 atg_scs::ForceGenerator::~ForceGenerator() {
-- 
2.43.0


From 20fde7b82d36103876b6fe37cd3438441617f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 10/27] fix: initialise all of a constraint's body pointers

Only sizeof(int) bytes per pointer were cleared, leaving the second body
pointer uninitialised on 64-bit platforms.
---
 src/constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constraint.cpp b/src/constraint.cpp
index e7549f3..765332a 100644
--- a/src/constraint.cpp
+++ b/src/constraint.cpp
@@ -12,7 +12,7 @@ atg_scs::Constraint::Constraint(int constraintCount, int bodyCount) {
 
     m_index = -1;
 
-    memset(m_bodies, 0, sizeof(int) * MaxBodyCount);
+    memset(m_bodies, 0, sizeof(RigidBody *) * MaxBodyCount);
 
     for (int i = 0; i < MaxConstraintCount; ++i) {
         for (int j = 0; j < MaxBodyCount; ++j) {
-- 
2.43.0


From 0a9a1fe3db71389f963e9ceaafdbb45775120267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 11/27] fix: Gauss-Seidel without limits starts from zero and
 tests convergence

After a size change the iteration started from uninitialised memory, and the
convergence test compared |x| with the previous value instead of measuring
the change: any negative unknown never converged (the generic system then
asserted) and any shrinking one counted as converged after one sweep. The
limited variant already did both correctly.
---
 src/gauss_seidel_sle_solver.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index 40f9f34..a21a2e3 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -25,8 +25,9 @@ bool atg_scs::GaussSeidelSleSolver::solve(
         Matrix *result)
 {
     const int n = right.getHeight();
-    
-    result->resize(1, n);
+    if (result->getHeight() != n) {
+        result->initialize(1, n);
+    }
 
     if (previous != nullptr && previous->getHeight() == n) {
         result->set(previous);
@@ -108,8 +109,8 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
         const double k_next_i =
             (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);
 
-        const double min_k = std::fmax(1E-3, k->get(0, i));
-        const double delta = (std::abs(k_next_i) - min_k) / min_k;
+        const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
+        const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


From 0ebe296192e173a282e54f01a0baca831927a597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 12/27] fix: conjugate gradient no longer reports NaN as a
 solution

On a singular inconsistent problem the residual becomes NaN, which compared as
sufficiently small, and solve() returned true with an infinite result.
---
 src/conjugate_gradient_sle_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 3e14dca..543f582 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -95,7 +95,7 @@ bool atg_scs::ConjugateGradientSleSolver::sufficientlySmall(
     for (int i = 0; i < x.getHeight(); ++i) {
         const double err = x.get(0, i);
         const double t = target.get(0, i);
-        if (std::abs(err) > std::fmax(std::abs(m_maxError * t), m_minError)) {
+        if (!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))) {
             return false;
         }
     }
-- 
2.43.0


From 29aa7c4f5b5f33c91fd0f6637f05c19f4836e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 13/27] fix: direct solver reports a singular problem as
 unsolvable

solve() aborted (or, with assertions off, returned true with NaN) instead of
returning false as its interface and the other solvers do.
---
 src/gaussian_elimination_sle_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index daa9ac4..605dd72 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -79,7 +79,7 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
     }
 
     if (A.get(n - 2, m - 1) == 0) {
-        assert(false);
+        return false;
     }
 
     const double x_m = A.get(n - 1, m - 1) / A.get(n - 2, m - 1);
@@ -101,7 +101,7 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     for (int i = 0; i < m; ++i) {
         if (std::isnan(result->get(0, i)) || std::isinf(result->get(0, i))) {
-            assert(false);
+            return false;
         }
     }
 
-- 
2.43.0


From 1e0dcf070fe67cdf42167dacb625045f1fd314f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 14/27] fix: a destroyed sparse matrix can be used again

destroy() kept the capacity of the freed storage, so the next resize within it
wrote through a null pointer.
---
 include/sparse_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index cdce170..dfbd755 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -69,6 +69,7 @@ namespace atg_scs {
                 m_blockData = nullptr;
 
                 m_width = m_height = 0;
+                m_capacityHeight = 0;
             }
 
             void expand(Matrix *matrix) {
-- 
2.43.0


From 41c561e7ad113bc87b06d2b63f7172d2bbf81895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 15/27] fix: sparse matrices address more than 255 blocks

Block indices were stored in 8 bits with 0xFF meaning empty: constraints on the
256th body were dropped and later ones acted on body index mod 256.
---
 include/sparse_matrix.h | 42 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index dfbd755..4e7e9c4 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -30,7 +30,7 @@ namespace atg_scs {
 
             void initialize(int width, int height) {
                 resize(width, height);
-                memset(m_blockData, 0xFFFFFF, sizeof(uint8_t) * T_Entries * m_height);
+                memset(m_blockData, 0xFF, sizeof(uint16_t) * T_Entries * m_height);
             }
 
             void resize(int width, int height) {
@@ -44,7 +44,7 @@ namespace atg_scs {
 
                     m_data = new double[(size_t)T_Stride * T_Entries * m_capacityHeight];
                     m_matrix = new double *[m_capacityHeight];
-                    m_blockData = new uint8_t[(size_t)m_capacityHeight * T_Entries];
+                    m_blockData = new uint16_t[(size_t)m_capacityHeight * T_Entries];
                 }
 
                 m_height = height;
@@ -77,8 +77,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const uint16_t block = m_blockData[i * T_Entries + j];
+                        if (block == 0xFFFF) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);
@@ -93,8 +93,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t block = m_blockData[i * T_Entries + j];
-                        if (block == 0xFF) continue;
+                        const uint16_t block = m_blockData[i * T_Entries + j];
+                        if (block == 0xFFFF) continue;
                         else {
                             for (int k = 0; k < T_Stride; ++k) {
                                 matrix->set(i, block * T_Stride + k, m_matrix[i][j * T_Stride + k]);
@@ -104,7 +104,7 @@ namespace atg_scs {
                 }
             }
 
-            inline void setBlock(int row, int entry, uint8_t index) {
+            inline void setBlock(int row, int entry, uint16_t index) {
                 assert(row >= 0 && row < m_height);
                 assert(entry >= 0 && entry < T_Entries);
                 assert(index < m_width);
@@ -132,14 +132,14 @@ namespace atg_scs {
                 assert(row >= 0 && row < m_height);
                 assert(entry >= 0 && entry < T_Entries);
 
-                return m_blockData[row * T_Entries + entry] == 0xFF;
+                return m_blockData[row * T_Entries + entry] == 0xFFFF;
             }
 
             inline void setEmpty(int row, int col) {
                 assert(row >= 0 && row < m_height);
                 assert(col >= 0 && col < T_Entries);
 
-                m_blockData[row * T_Entries + col] = 0xFF;
+                m_blockData[row * T_Entries + col] = 0xFFFF;
                 for (int i = 0; i < T_Stride; ++i) {
                     m_matrix[row][col * T_Stride + i] = 0;
                 }
@@ -154,11 +154,11 @@ namespace atg_scs {
                     for (int j = 0; j < b_T.m_height; ++j) {
                         double dot = 0;
                         for (int k = 0; k < T_Entries; ++k) {
-                            const uint8_t block0 = m_blockData[i * T_Entries + k];
-                            if (block0 == 0xFF) continue;
+                            const uint16_t block0 = m_blockData[i * T_Entries + k];
+                            if (block0 == 0xFFFF) continue;
 
                             for (int l = 0; l < T_Entries; ++l) {
-                                const uint8_t block1 = b_T.m_blockData[j * T_Entries + l];
+                                const uint16_t block1 = b_T.m_blockData[j * T_Entries + l];
                                 if (block0 == block1) {
                                     for (int m = 0; m < T_Stride; ++m) {
                                         dot +=
@@ -187,8 +187,8 @@ namespace atg_scs {
                     double v = 0.0;
                     for (int k = 0; k < T_Entries; ++k) {
                         const int offset = k * T_Stride;
-                        const uint8_t block = m_blockData[i * T_Entries + k];
-                        if (block == 0xFF) continue;
+                        const uint16_t block = m_blockData[i * T_Entries + k];
+                        if (block == 0xFFFF) continue;
 
                         for (int l = 0; l < T_Stride; ++l) {
                             const int j = block * T_Stride + l;
@@ -211,8 +211,8 @@ namespace atg_scs {
                         double v = 0.0;
                         for (int k = 0; k < T_Entries; ++k) {
                             const int offset = k * T_Stride;
-                            const uint8_t block = m_blockData[i * T_Entries + k];
-                            if (block == 0xFF) continue;
+                            const uint16_t block = m_blockData[i * T_Entries + k];
+                            if (block == 0xFFFF) continue;
 
                             for (int l = 0; l < T_Stride; ++l) {
                                 v += m_matrix[i][offset + l] * b.get(j, block * T_Stride + l);
@@ -232,8 +232,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const uint16_t index = m_blockData[i * T_Entries + j];
+                        if (index == 0xFFFF) continue;
 
                         target->setBlock(i, j, index);
 
@@ -256,8 +256,8 @@ namespace atg_scs {
 
                 for (int i = 0; i < m_height; ++i) {
                     for (int j = 0; j < T_Entries; ++j) {
-                        const uint8_t index = m_blockData[i * T_Entries + j];
-                        if (index == 0xFF) continue;
+                        const uint16_t index = m_blockData[i * T_Entries + j];
+                        if (index == 0xFFFF) continue;
 
                         target->setBlock(i, j, index);
 
@@ -278,7 +278,7 @@ namespace atg_scs {
         protected:
             double **m_matrix;
             double *m_data;
-            uint8_t *m_blockData;
+            uint16_t *m_blockData;
 
             int m_width;
             int m_height;
-- 
2.43.0


From 58982096c89d0b6e6e857dceed18b52a6debbf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 16/27] fix: bulk set, dot and magnitude respect swapped rows

These walked the storage linearly from the first row, which after a row swap
permutes the data and reads past the end of it.
---
 src/matrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 27de101..16f2f17 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -79,7 +79,9 @@ void atg_scs::Matrix::destroy() {
 }
 
 void atg_scs::Matrix::set(const double *data) {
-    memcpy(m_data, data, sizeof(double) * m_width * m_height);
+    for (int i = 0; i < m_height; ++i) {
+        memcpy(m_matrix[i], &data[i * m_width], sizeof(double) * m_width);
+    }
 }
 
 void atg_scs::Matrix::set(Matrix *reference) {
@@ -231,7 +233,7 @@ double atg_scs::Matrix::vectorMagnitudeSquared() const {
 
     double mag = 0;
     for (int i = 0; i < m_height; ++i) {
-        mag += m_matrix[0][i] * m_matrix[0][i];
+        mag += m_matrix[i][0] * m_matrix[i][0];
     }
 
     return mag;
@@ -244,7 +246,7 @@ double atg_scs::Matrix::dot(Matrix &b) const {
 
     double result = 0;
     for (int i = 0; i < m_height; ++i) {
-        result += m_matrix[0][i] * b.m_matrix[0][i];
+        result += m_matrix[i][0] * b.m_matrix[i][0];
     }
 
     return result;
-- 
2.43.0


From 8385795a76ba9f213663d34c7b05603fa456a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 17/27] fix: dense matrices stay consistent when an allocation
 fails

The capacity was recorded before the storage existed, so after a failed
allocation the next resize wrote through a null pointer; storage allocated
before the failure was leaked.
---
 src/matrix.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 16f2f17..853c0c2 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -43,16 +43,11 @@ void atg_scs::Matrix::resize(int width, int height) {
     else if (width > m_capacityWidth || height > m_capacityHeight) {
         destroy();
 
-        m_capacityWidth = (width > m_capacityWidth)
-            ? width
-            : m_capacityWidth;
+        m_data = new double[(size_t)width * height];
+        m_matrix = new double *[height];
 
-        m_capacityHeight = (height > m_capacityHeight)
-            ? height
-            : m_capacityHeight;
-
-        m_data = new double[(size_t)m_capacityWidth * m_capacityHeight];
-        m_matrix = new double *[m_capacityHeight];
+        m_capacityWidth = width;
+        m_capacityHeight = height;
     }
 
     m_height = height;
@@ -64,7 +59,7 @@ void atg_scs::Matrix::resize(int width, int height) {
 }
 
 void atg_scs::Matrix::destroy() {
-    if (m_matrix == nullptr) {
+    if (m_data == nullptr) {
         return;
     }
 
-- 
2.43.0


From cacea3ebfe7f25118c876ed97b8186ae2013b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 18/27] fix: sparse matrices stay consistent when an allocation
 fails

Same as for dense matrices: record the capacity once the storage exists, and
release partially allocated storage.
---
 include/sparse_matrix.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 4e7e9c4..0948f16 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -38,13 +38,11 @@ namespace atg_scs {
                 else if (height > m_capacityHeight) {
                     destroy();
 
-                    m_capacityHeight = (height > m_capacityHeight)
-                        ? height
-                        : m_capacityHeight;
+                    m_data = new double[(size_t)T_Stride * T_Entries * height];
+                    m_matrix = new double *[height];
+                    m_blockData = new uint16_t[(size_t)height * T_Entries];
 
-                    m_data = new double[(size_t)T_Stride * T_Entries * m_capacityHeight];
-                    m_matrix = new double *[m_capacityHeight];
-                    m_blockData = new uint16_t[(size_t)m_capacityHeight * T_Entries];
+                    m_capacityHeight = height;
                 }
 
                 m_height = height;
@@ -56,7 +54,7 @@ namespace atg_scs {
             }
 
             void destroy() {
-                if (m_matrix == nullptr) {
+                if (m_data == nullptr) {
                     return;
                 }
 
-- 
2.43.0


From c425c10e4875870cc4c28cd8bca05d8c116b7ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 19/27] fix: system state releases zero-length and partially
 allocated arrays

A state with bodies but no constraints (or the reverse) leaked its zero-length
arrays, and a failed allocation left sizes recorded for arrays that do not
exist, so the next step wrote through null pointers.
---
 src/system_state.cpp | 82 +++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 43 deletions(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index d99a821..57e8a38 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -78,60 +78,56 @@ void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
 
     destroy();
 
-    n = bodyCount;
-    n_c = constraintCount;
+    indexMap = new int[constraintCount];
 
-    indexMap = new int[n_c];
+    a_theta = new double[bodyCount];
+    v_theta = new double[bodyCount];
+    theta = new double[bodyCount];
 
-    a_theta = new double[n];
-    v_theta = new double[n];
-    theta = new double[n];
+    a_x = new double[bodyCount];
+    a_y = new double[bodyCount];
+    v_x = new double[bodyCount];
+    v_y = new double[bodyCount];
+    p_x = new double[bodyCount];
+    p_y = new double[bodyCount];
 
-    a_x = new double[n];
-    a_y = new double[n];
-    v_x = new double[n];
-    v_y = new double[n];
-    p_x = new double[n];
-    p_y = new double[n];
+    f_x = new double[bodyCount];
+    f_y = new double[bodyCount];
+    t = new double[bodyCount];
 
-    f_x = new double[n];
-    f_y = new double[n];
-    t = new double[n];
+    m = new double[bodyCount];
 
-    m = new double[n];
+    r_x = new double[(size_t)constraintCount * 2];
+    r_y = new double[(size_t)constraintCount * 2];
+    r_t = new double[(size_t)constraintCount * 2];
 
-    r_x = new double[(size_t)n_c * 2];
-    r_y = new double[(size_t)n_c * 2];
-    r_t = new double[(size_t)n_c * 2];
+    n = bodyCount;
+    n_c = constraintCount;
 }
 
 void atg_scs::SystemState::destroy() {
-    if (n > 0) {
-        freeArray(a_theta);
-        freeArray(v_theta);
-        freeArray(theta);
-
-        freeArray(a_x);
-        freeArray(a_y);
-        freeArray(v_x);
-        freeArray(v_y);
-        freeArray(p_x);
-        freeArray(p_y);
-
-        freeArray(f_x);
-        freeArray(f_y);
-        freeArray(t);
-
-        freeArray(m);
-    }
+    freeArray(a_theta);
+    freeArray(v_theta);
+    freeArray(theta);
 
-    if (n_c > 0) {
-        freeArray(indexMap);
+    freeArray(a_x);
+    freeArray(a_y);
+    freeArray(v_x);
+    freeArray(v_y);
+    freeArray(p_x);
+    freeArray(p_y);
 
-        freeArray(r_x);
-        freeArray(r_y);
-        freeArray(r_t);
-    }
+    freeArray(f_x);
+    freeArray(f_y);
+    freeArray(t);
+
+    freeArray(m);
+
+    freeArray(indexMap);
+
+    freeArray(r_x);
+    freeArray(r_y);
+    freeArray(r_t);
 
     n = 0;
     n_c = 0;
-- 
2.43.0


From 06079f6e2faf562426f3bf7488be513cd0369cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 20/27] fix: copying a smaller state does not read past its end

copy() used the size of the destination, which keeps its capacity: an RK4
solver used by two systems of different sizes read beyond the smaller one.
---
 src/system_state.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/system_state.cpp b/src/system_state.cpp
index 57e8a38..4e9ea4f 100644
--- a/src/system_state.cpp
+++ b/src/system_state.cpp
@@ -47,28 +47,28 @@ void atg_scs::SystemState::copy(const SystemState *state) {
         return;
     }
 
-    std::memcpy((void *)indexMap, (void *)state->indexMap, sizeof(int) * n_c);
+    std::memcpy((void *)indexMap, (void *)state->indexMap, sizeof(int) * state->n_c);
 
-    std::memcpy((void *)a_theta, (void *)state->a_theta, sizeof(double) * n);
-    std::memcpy((void *)v_theta, (void *)state->v_theta, sizeof(double) * n);
-    std::memcpy((void *)theta, (void *)state->theta, sizeof(double) * n);
+    std::memcpy((void *)a_theta, (void *)state->a_theta, sizeof(double) * state->n);
+    std::memcpy((void *)v_theta, (void *)state->v_theta, sizeof(double) * state->n);
+    std::memcpy((void *)theta, (void *)state->theta, sizeof(double) * state->n);
 
-    std::memcpy((void *)a_x, (void *)state->a_x, sizeof(double) * n);
-    std::memcpy((void *)a_y, (void *)state->a_y, sizeof(double) * n);
-    std::memcpy((void *)v_x, (void *)state->v_x, sizeof(double) * n);
-    std::memcpy((void *)v_y, (void *)state->v_y, sizeof(double) * n);
-    std::memcpy((void *)p_x, (void *)state->p_x, sizeof(double) * n);
-    std::memcpy((void *)p_y, (void *)state->p_y, sizeof(double) * n);
+    std::memcpy((void *)a_x, (void *)state->a_x, sizeof(double) * state->n);
+    std::memcpy((void *)a_y, (void *)state->a_y, sizeof(double) * state->n);
+    std::memcpy((void *)v_x, (void *)state->v_x, sizeof(double) * state->n);
+    std::memcpy((void *)v_y, (void *)state->v_y, sizeof(double) * state->n);
+    std::memcpy((void *)p_x, (void *)state->p_x, sizeof(double) * state->n);
+    std::memcpy((void *)p_y, (void *)state->p_y, sizeof(double) * state->n);
 
-    std::memcpy((void *)f_x, (void *)state->f_x, sizeof(double) * n);
-    std::memcpy((void *)f_y, (void *)state->f_y, sizeof(double) * n);
-    std::memcpy((void *)t, (void *)state->t, sizeof(double) * n);
+    std::memcpy((void *)f_x, (void *)state->f_x, sizeof(double) * state->n);
+    std::memcpy((void *)f_y, (void *)state->f_y, sizeof(double) * state->n);
+    std::memcpy((void *)t, (void *)state->t, sizeof(double) * state->n);
 
-    std::memcpy((void *)m, (void *)state->m, sizeof(double) * n);
+    std::memcpy((void *)m, (void *)state->m, sizeof(double) * state->n);
 
-    std::memcpy((void *)r_x, (void *)state->r_x, sizeof(double) * n_c * 2);
-    std::memcpy((void *)r_y, (void *)state->r_y, sizeof(double) * n_c * 2);
-    std::memcpy((void *)r_t, (void *)state->r_t, sizeof(double) * n_c * 2);
+    std::memcpy((void *)r_x, (void *)state->r_x, sizeof(double) * state->n_c * 2);
+    std::memcpy((void *)r_y, (void *)state->r_y, sizeof(double) * state->n_c * 2);
+    std::memcpy((void *)r_t, (void *)state->r_t, sizeof(double) * state->n_c * 2);
 }
 
 void atg_scs::SystemState::resize(int bodyCount, int constraintCount) {
-- 
2.43.0


From 51cc210b396de5f4bea20004e06fb3521c29a628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 21/27] fix: rolling bodies turn by arc length over radius,
 relative to the base

The no-slip row multiplied the travelled distance by the radius instead of
dividing by it, and ignored the rotation of the base, so a body of any radius
but 1 or on a turning base slipped.
---
 src/rolling_constraint.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rolling_constraint.cpp b/src/rolling_constraint.cpp
index 9b37019..d1c8c6b 100644
--- a/src/rolling_constraint.cpp
+++ b/src/rolling_constraint.cpp
@@ -60,7 +60,7 @@ void atg_scs::RollingConstraint::calculate(
 
     const double s = delta_x * dx + delta_y * dy;
 
-    const double C0 = -q6 - s * m_radius;
+    const double C0 = -m_radius * (q6 - q3) - s;
     const double C1 = m_radius - (perp_x * delta_x + perp_y * delta_y);
 
     const double d_origin_x_dq3 = -sin_q3 * m_local_x - cos_q3 * m_local_y;
@@ -100,9 +100,9 @@ void atg_scs::RollingConstraint::calculate(
         (d_delta_y_dq3_dot * dy + d_delta_y_dq3 * dy_dot) +
         (delta_y_dot * d_dy_dq3 + delta_y * d_dy_dq3_dot);
 
-    output->J[0][0] = -ds_dq1 * m_radius;
-    output->J[0][1] = -ds_dq2 * m_radius;
-    output->J[0][2] = -ds_dq3 * m_radius;
+    output->J[0][0] = -ds_dq1;
+    output->J[0][1] = -ds_dq2;
+    output->J[0][2] = m_radius - ds_dq3;
 
     // C1 = m_radius + dy * delta_x - dx * delta_y
     output->J[1][0] = dy * d_delta_x_dq1;
@@ -111,17 +111,17 @@ void atg_scs::RollingConstraint::calculate(
         (d_dy_dq3 * delta_x + dy * d_delta_x_dq3) -
         (d_dx_dq3 * delta_y + dx * d_delta_y_dq3);
 
-    output->J[0][3] = -1 * dx * m_radius;
-    output->J[0][4] = -1 * dy * m_radius;
-    output->J[0][5] = -1;
+    output->J[0][3] = -1 * dx;
+    output->J[0][4] = -1 * dy;
+    output->J[0][5] = -m_radius;
 
     output->J[1][3] = dy * d_delta_x_dq4;
     output->J[1][4] = -dx * d_delta_y_dq5;
     output->J[1][5] = 0;
 
-    output->J_dot[0][0] = -ds_dq1_dot * m_radius;
-    output->J_dot[0][1] = -ds_dq2_dot * m_radius;
-    output->J_dot[0][2] = -ds_dq3_dot * m_radius;
+    output->J_dot[0][0] = -ds_dq1_dot;
+    output->J_dot[0][1] = -ds_dq2_dot;
+    output->J_dot[0][2] = -ds_dq3_dot;
 
     output->J_dot[1][0] = dy_dot * d_delta_x_dq1;
     output->J_dot[1][1] = -dx_dot * d_delta_y_dq2;
@@ -131,8 +131,8 @@ void atg_scs::RollingConstraint::calculate(
         (d_dx_dq3_dot * delta_y + d_dx_dq3 * delta_y_dot) -
         (dx_dot * d_delta_y_dq3 + dx * d_delta_y_dq3_dot);
 
-    output->J_dot[0][3] = -1 * dx_dot * m_radius;
-    output->J_dot[0][4] = -1 * dy_dot * m_radius;
+    output->J_dot[0][3] = -1 * dx_dot;
+    output->J_dot[0][4] = -1 * dy_dot;
     output->J_dot[0][5] = 0;
 
     output->J_dot[1][3] = dy_dot * d_delta_x_dq4;
-- 
2.43.0


From 291368770238faa7f2cce631ff8bc03d1e1e0f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 22/27] fix: links and rolling joints to a body outside the
 system

They read the pose of body -1 from before the state arrays; such a body is a
fixed anchor, as it already is for springs.
---
 src/link_constraint.cpp    | 20 ++++++++++++--------
 src/rolling_constraint.cpp | 26 +++++++++++++++-----------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/link_constraint.cpp b/src/link_constraint.cpp
index 7c2839c..ef769cb 100644
--- a/src/link_constraint.cpp
+++ b/src/link_constraint.cpp
@@ -21,16 +21,20 @@ void atg_scs::LinkConstraint::calculate(
     const int body = m_bodies[0]->index;
     const int linkedBody = m_bodies[1]->index;
 
-    const double q1 = state->p_x[body];
-    const double q2 = state->p_y[body];
-    const double q3 = state->theta[body];
+    // Bodies outside the system are fixed at their own pose
+    const bool bodyFixed = (body == -1);
+    const bool linkedFixed = (linkedBody == -1);
 
-    const double q4 = state->p_x[linkedBody];
-    const double q5 = state->p_y[linkedBody];
-    const double q6 = state->theta[linkedBody];
+    const double q1 = bodyFixed ? m_bodies[0]->p_x : state->p_x[body];
+    const double q2 = bodyFixed ? m_bodies[0]->p_y : state->p_y[body];
+    const double q3 = bodyFixed ? m_bodies[0]->theta : state->theta[body];
 
-    const double q3_dot = state->v_theta[body];
-    const double q6_dot = state->v_theta[linkedBody];
+    const double q4 = linkedFixed ? m_bodies[1]->p_x : state->p_x[linkedBody];
+    const double q5 = linkedFixed ? m_bodies[1]->p_y : state->p_y[linkedBody];
+    const double q6 = linkedFixed ? m_bodies[1]->theta : state->theta[linkedBody];
+
+    const double q3_dot = bodyFixed ? 0.0 : state->v_theta[body];
+    const double q6_dot = linkedFixed ? 0.0 : state->v_theta[linkedBody];
 
     const double cos_q3 = std::cos(q3);
     const double sin_q3 = std::sin(q3);
diff --git a/src/rolling_constraint.cpp b/src/rolling_constraint.cpp
index d1c8c6b..ef0ce3c 100644
--- a/src/rolling_constraint.cpp
+++ b/src/rolling_constraint.cpp
@@ -21,20 +21,24 @@ void atg_scs::RollingConstraint::calculate(
     const int baseBody = m_bodies[0]->index;
     const int rollingBody = m_bodies[1]->index;
 
-    const double q1 = state->p_x[baseBody];
-    const double q2 = state->p_y[baseBody];
-    const double q3 = state->theta[baseBody];
+    // Bodies outside the system are fixed at their own pose
+    const bool baseFixed = (baseBody == -1);
+    const bool rollingFixed = (rollingBody == -1);
 
-    const double q4 = state->p_x[rollingBody];
-    const double q5 = state->p_y[rollingBody];
-    const double q6 = state->theta[rollingBody];
+    const double q1 = baseFixed ? m_bodies[0]->p_x : state->p_x[baseBody];
+    const double q2 = baseFixed ? m_bodies[0]->p_y : state->p_y[baseBody];
+    const double q3 = baseFixed ? m_bodies[0]->theta : state->theta[baseBody];
 
-    const double q1_dot = state->v_x[baseBody];
-    const double q2_dot = state->v_y[baseBody];
-    const double q3_dot = state->v_theta[baseBody];
+    const double q4 = rollingFixed ? m_bodies[1]->p_x : state->p_x[rollingBody];
+    const double q5 = rollingFixed ? m_bodies[1]->p_y : state->p_y[rollingBody];
+    const double q6 = rollingFixed ? m_bodies[1]->theta : state->theta[rollingBody];
 
-    const double q4_dot = state->v_x[rollingBody];
-    const double q5_dot = state->v_y[rollingBody];
+    const double q1_dot = baseFixed ? 0.0 : state->v_x[baseBody];
+    const double q2_dot = baseFixed ? 0.0 : state->v_y[baseBody];
+    const double q3_dot = baseFixed ? 0.0 : state->v_theta[baseBody];
+
+    const double q4_dot = rollingFixed ? 0.0 : state->v_x[rollingBody];
+    const double q5_dot = rollingFixed ? 0.0 : state->v_y[rollingBody];
 
     const double cos_q3 = std::cos(q3);
     const double sin_q3 = std::sin(q3);
-- 
2.43.0


From 7d23472cfbfbe4ceb6f8a4df77ab23381c08488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 23/27] fix: conjugate gradient steps a system without
 constraints

---
 src/conjugate_gradient_sle_solver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 543f582..833c9f6 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -34,7 +34,11 @@ bool atg_scs::ConjugateGradientSleSolver::solve(
     m_Ap.resize(1, n);
     m_x.initialize(1, n);
 
-    if (previous != nullptr && previous->getHeight() == n) {
+    // An unsized previous result (0x0) matches n = 0 in height only
+    if (previous != nullptr
+        && previous->getWidth() == 1
+        && previous->getHeight() == n)
+    {
         m_x.set(previous);
     }
 
-- 
2.43.0


From eef46e5c0f42d0e26e43c58adfa0c95393efc97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 24/27] fix: solvers size the result only once they have one

---
 src/conjugate_gradient_sle_solver.cpp   | 2 --
 src/gaussian_elimination_sle_solver.cpp | 9 ++++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/conjugate_gradient_sle_solver.cpp b/src/conjugate_gradient_sle_solver.cpp
index 833c9f6..b9203db 100644
--- a/src/conjugate_gradient_sle_solver.cpp
+++ b/src/conjugate_gradient_sle_solver.cpp
@@ -42,8 +42,6 @@ bool atg_scs::ConjugateGradientSleSolver::solve(
         m_x.set(previous);
     }
 
-    result->resize(1, n);
-
     m_r.set(&right);
     multiply(J, W, m_x, &m_Ap);
     m_r.madd(m_Ap, -1);
diff --git a/src/gaussian_elimination_sle_solver.cpp b/src/gaussian_elimination_sle_solver.cpp
index 605dd72..f1b3d63 100644
--- a/src/gaussian_elimination_sle_solver.cpp
+++ b/src/gaussian_elimination_sle_solver.cpp
@@ -32,9 +32,10 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
 
     assert(right.getHeight() == m_M.getWidth());
 
-    result->resize(1, m);
-
-    if (n == 0 || m == 0) return true;
+    if (n == 0 || m == 0) {
+        result->resize(1, m);
+        return true;
+    }
 
     Matrix &A = m_a;
     A.resize(n, m);
@@ -82,6 +83,8 @@ bool atg_scs::GaussianEliminationSleSolver::solve(
         return false;
     }
 
+    result->resize(1, m);
+
     const double x_m = A.get(n - 1, m - 1) / A.get(n - 2, m - 1);
     result->set(0, m - 1, x_m);
     for (int i = m - 2; i >= 0; --i) {
-- 
2.43.0


From 780911366399979c7a00baaabbcf6630e10c1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 25/27] fix: Gauss-Seidel reports an empty row as unsolvable

---
 src/gauss_seidel_sle_solver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gauss_seidel_sle_solver.cpp b/src/gauss_seidel_sle_solver.cpp
index a21a2e3..a66d52c 100644
--- a/src/gauss_seidel_sle_solver.cpp
+++ b/src/gauss_seidel_sle_solver.cpp
@@ -111,6 +111,11 @@ double atg_scs::GaussSeidelSleSolver::solveIteration(
 
         const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));
         const double delta = std::abs(k_next_i - k->get(0, i)) / min_k;
+        if (!std::isfinite(delta)) {
+            // An empty row has no solution (or any), this never converges
+            return delta;
+        }
+
         maxDifference = (delta > maxDifference)
             ? delta
             : maxDifference;
-- 
2.43.0


From b545fe72861f8f8f9dbca9ddaae97d53905205b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:58 +0000
Subject: [PATCH 26/27] fix: destroying a sparse matrix without rows resets its
 width

---
 include/sparse_matrix.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/sparse_matrix.h b/include/sparse_matrix.h
index 0948f16..0690340 100644
--- a/include/sparse_matrix.h
+++ b/include/sparse_matrix.h
@@ -54,10 +54,6 @@ namespace atg_scs {
             }
 
             void destroy() {
-                if (m_data == nullptr) {
-                    return;
-                }
-
                 delete[] m_matrix;
                 delete[] m_data;
                 delete[] m_blockData;
-- 
2.43.0


From 39afc4c8b005bd2a15673c75ce3cb8ae549a6b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 27/27] fix: a matrix whose construction failed kept its
 element storage

Constructing a matrix of a given size allocates the elements and then the
table of rows. When the second allocation failed, the elements were never
released: the destructor does not run for an object whose constructor threw.
---
 src/matrix.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 853c0c2..4186d74 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -16,7 +16,14 @@ atg_scs::Matrix::Matrix(int width, int height, double value) {
     m_width = m_height = 0;
     m_capacityWidth = m_capacityHeight = 0;
 
-    initialize(width, height, value);
+    try {
+        initialize(width, height, value);
+    }
+    catch (...) {
+        // The destructor doesn't run for an object whose construction failed
+        destroy();
+        throw;
+    }
 }
 
 atg_scs::Matrix::~Matrix() {
-- 
2.43.0


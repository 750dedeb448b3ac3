From 5b12953a0b24526be985590b7edf2c54e1dba585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 01/33] fix: accumulate 2D posterior scores and qL scores in 64
 bits

Scores were summed in int8 (the type of the data), so they wrapped around for
factor entries that influence more than 127 cells.
---
 lom/_numba/matrix_updates_numba.py |  8 ++++----
 lom/_numba/posterior_score_fcts.py | 32 +++++++++++++++---------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 15b7210..b61f32d 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -563,14 +563,14 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
         # q[0, d] = np.argmax(logconditional[:, d]) + 1
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8[:,:])', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16, int8[:,:])', nopython=True, nogil=True)
 def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     """
     # TODO: numba
     """
     D, L = U.shape
 
-    score = 0
+    score = np.int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for d in range(D):
         if U[d, l] != 1:
@@ -597,11 +597,11 @@ def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     return score
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16, int8)', nopython=True, nogil=True)
 def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     N, L = Z.shape
 
-    score = 0
+    score = np.int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for n in range(N):
         if Z[n, l] != 1:
diff --git a/lom/_numba/posterior_score_fcts.py b/lom/_numba/posterior_score_fcts.py
index 51cae44..d47bf13 100644
--- a/lom/_numba/posterior_score_fcts.py
+++ b/lom/_numba/posterior_score_fcts.py
@@ -8,7 +8,7 @@ from numba import jit
 from numba.types import int64
 
 # OR-AND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -18,7 +18,7 @@ def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -71,7 +71,7 @@ def posterior_score_OR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-AND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -81,7 +81,7 @@ def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -141,7 +141,7 @@ def posterior_score_XOR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NAND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -151,7 +151,7 @@ def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -206,7 +206,7 @@ def posterior_score_XOR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-NAND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -216,7 +216,7 @@ def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] == -1:  # NAND
             continue
@@ -262,7 +262,7 @@ def posterior_score_OR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -272,7 +272,7 @@ def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -313,11 +313,11 @@ def posterior_score_OR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # NAND-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_NAND_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -357,12 +357,12 @@ def posterior_score_NAND_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         num_active = np.int8(0)
         for l_prime in range(L):
@@ -408,11 +408,11 @@ def posterior_score_XOR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NXOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_NXOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
 
     for d in range(D):
         num_active = np.int8(0)
-- 
2.43.0


From c228503b931dbb9d7bb9aa08f1dc0fe2b082f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 02/33] fix: probability of the three-factor OR-XOR model

1 - (p1 + p2 + p3) lost its parentheses, so only the first of the three terms
was subtracted.
---
 lom/_numba/lom_outputs_fuzzy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index f77e4b4..3a2bfde 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -97,9 +97,9 @@ def OR_XOR_product_fuzzy_3d(Z_n, U_d, V_m):
     temp = np.float64(1)
     # this is hard to generalise to arbitrary D
     for l in range(Z_n.shape[0]):
-        temp *= 1 - Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +\
-            U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +\
-            V_m[l] * (1 - Z_n[l]) * (1 - U_d[l])
+        temp *= 1 - (Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +
+                     U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +
+                     V_m[l] * (1 - Z_n[l]) * (1 - U_d[l]))
     return 1 - temp
 
 
-- 
2.43.0


From 8652bbf7eea9f346a292feef5ba36ead5512aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 03/33] fix: lom_generate_data_fast ignored fuzzy=True for most
 models

For three factors (all models but OR-AND) and for operator pairs without a
compiled output it fell back to the crisp generator, which treats every
probability below 1 as 0.
---
 lom/auxiliary_functions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index cd2877b..1b2ec62 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -738,12 +738,16 @@ def get_fuzzy_lop(name='OR'):
 
 def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
     """
-    Factors and generated data are in [-1,1] mapping.
+    Factors and generated data are in [-1,1] mapping, or probabilities in
+    [0,1] if fuzzy is True.
     """
 
-    if model not in implemented_loms():
+    if model not in implemented_loms() or len(factors) not in (2, 3):
         print('Requested model output is not explicitly implemented.\n' +
               'Falling back to slower general implementation.')
+        if fuzzy is True:
+            return (lom_generate_data_fuzzy(
+                [2 * np.asarray(f) - 1 for f in factors], model) + 1) / 2
         return lom_generate_data(factors, model)
 
     if len(factors) == 2:
@@ -756,7 +760,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             out2D = lambda_updates_numba.make_output_function_2d_fuzzy(model)
             return out2D(*[np.array(f, dtype=np.float64) for f in factors])
 
-    elif len(factors) == 3 and model == 'OR-AND':
+    elif len(factors) == 3:
         if fuzzy is False:
             out3D = lambda_updates_numba.make_output_function_3d(model)
             return out3D(*[np.array(f, dtype=np.int8) for f in factors])
@@ -765,9 +769,6 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             out3D = lambda_updates_numba.make_output_function_3d_fuzzy(model)
             return out3D(*[np.array(f, dtype=np.float64) for f in factors])
 
-    else:
-        return lom_generate_data(factors, model)
-
 
 def lom_generate_data(factors, model='OR-AND'):
     """
-- 
2.43.0


From 3bd327b41f7fb9a827e7fcd443f006ab81d12a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 04/33] fix: adding a layer with inverted data negated the
 caller's array

canonise_model multiplied the data in place, so a second model built on the same
array saw negated data, and it failed for a layer that is created from a shape.
---
 lom/auxiliary_functions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 1b2ec62..389d975 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -831,6 +831,11 @@ def canonise_model(model, child):
     Here the model is translated to its canonical form.
     """
 
+    def invert_child(child):
+        # not in place, the array belongs to the caller
+        if child is not None:
+            child.val = -child.val
+
     model_new = replace_equivalent_model(model)
 
     invert_data = False
@@ -942,7 +947,7 @@ def canonise_model(model, child):
     if invert_data is True and invert_factors is False:
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data.\n')
-        child.val *= -1
+        invert_child(child)
 
     if invert_data is False and invert_factors is True:
         print('\n' + model + ' is treated as ' + model_new +
@@ -952,7 +957,7 @@ def canonise_model(model, child):
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data and inverted factors. ' +
               ' (invert factors yourself!)\n')
-        child.val *= -1
+        invert_child(child)
 
     # print warning for OR-NAND models.
     if model_new == 'OR-NAND':
-- 
2.43.0


From df662eeff4a56382b9bc78ac0bfada29d294054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 05/33] fix: 3D sampler for factors with a parent called the
 flip function without the current value

---
 lom/_numba/matrix_updates_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index b61f32d..2ab68d5 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -230,7 +230,7 @@ def make_sampling_fct_onechild_oneparent(model, parent_model):
                         parent_posterior_score_fct(pa1[n, :], pa2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
-                        logit_score + logit_parent_score + logit_prior), Z[n, l]
+                        logit_score + logit_parent_score + logit_prior, Z[n, l])
 
     return sampling_fct
 
-- 
2.43.0


From ad595831fa49bfe71d2e167fd4297d99abca0587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 06/33] fix: samplers with two parents used the second parent's
 model for both

---
 lom/_numba/matrix_updates_numba.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 2ab68d5..b7e43dc 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -280,8 +280,8 @@ def make_sampling_fct_nochild_oneparent(parent_model):
 
 def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if parent_model_1[-2:] == '2D' and parent_model_2[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], ' +
@@ -298,10 +298,10 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                         continue
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_parent_score_1 + logit_parent_score_2 + logit_prior,
@@ -323,11 +323,11 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                             continue
 
                         logit_parent_score_1 = lbda_pa1 *\
-                            parent_posterior_score_fct(
+                            parent_score_fct_1(
                                 pa1_1[n, :], pa1_2[d, :], pa1_3[m, :])
 
                         logit_parent_score_2 = lbda_pa2 *\
-                            parent_posterior_score_fct(
+                            parent_score_fct_2(
                                 pa2_1[n, :], pa2_2[d, :], pa2_3[m, :])
 
                         Z[n, d, m] = flip_metropolised_gibbs_numba(
@@ -342,8 +342,8 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2):
 
     posterior_score_fct = get_posterior_score_fct(model)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if model[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64,' +
@@ -365,10 +365,10 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
                         posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_score + logit_parent_score_1 +
-- 
2.43.0


From e605ec369ce1c13971ef09501e8196274380a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 07/33] fix: sampling a tensor generated by a three-factor
 layer failed, a third parent was ignored

---
 lom/_numba/matrix_updates_numba.py |  7 ++++---
 lom/matrix_update_wrappers.py      | 17 +++++++++++------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index b7e43dc..228ec42 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -259,7 +259,7 @@ def make_sampling_fct_nochild_oneparent(parent_model):
                         logit_parent_score + logit_prior, Z[n, l])
 
     elif parent_model[-2:] == '3D':
-        @jit('void(int8[:,:,:], int8[:,:,:], int8[:,:], int8[:,:], float64, float64)',
+        @jit('void(int8[:,:,:], int8[:,:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)',
              nogil=True, nopython=True, parallel=True)
         def sampling_fct(Z, Z_fixed, pa1, pa2, pa3, lbda_pa, logit_prior):
             N, D, M = Z.shape
@@ -308,8 +308,9 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                         Z[n, l])
 
     elif parent_model_1[-2:] == '3D' and parent_model_2[-2:] == '3D':
-        @jit('void(int8[:,:,:], int8[:,:,:], int8[:,:], int8[:,:], int8[:,:], ' +
-             'float64, int8[:,:], int8[:,:], int8[:,:], float64, float64)',
+        @jit('void(int8[:,:,:], int8[:,:,:], ' +
+             'int8[:,:], int8[:,:], int8[:,:], float64, ' +
+             'int8[:,:], int8[:,:], int8[:,:], float64, float64)',
              nogil=True, nopython=True, parallel=True)
         def sampling_fct(Z, Z_fixed,
                          pa1_1, pa1_2, pa1_3, lbda_pa1,
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 9237f94..7b6f748 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -243,18 +243,23 @@ def get_relatives_models(mat):
 
     parent1_model = None
     parent2_model = None
+    if len(mat.parents) > 2:
+        raise NotImplementedError("More than two parents are not supported.")
     if len(mat.parents) > 0:
-        assert len(mat.parents[0].factors) == 2
-        parent1_model = (mat.parents[0].model + '-2D').replace('-', '_')
+        parent1_model = get_layer_model(mat.parents[0])
     if len(mat.parents) > 1:
-        assert len(mat.parents[1].factors) == 2
-        parent2_model = (mat.parents[1].model + '-2D').replace('-', '_')
-    elif len(mat.parents) > 2:
-        raise NotImplementedError("More than two parents are not supported.")
+        parent2_model = get_layer_model(mat.parents[1])
 
     return model, parent1_model, parent2_model
 
 
+def get_layer_model(layer):
+    """
+    Return model of a layer in 'OR_AND_2D' format
+    """
+    return (layer.model + '-' + str(layer.dimensionality) + 'D').replace('-', '_')
+
+
 # Following functions aren't used. keep for reference
 #
 # def draw_balanced_or(mat):
-- 
2.43.0


From b0150a7987014ed7fb9da45d995b3fc4b4299175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 08/33] fix: changing bernoulli_prior after the first update
 had no effect

---
 lom/matrix_update_wrappers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 7b6f748..7c958d2 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -123,7 +123,6 @@ def get_sampling_fct(mat):
         elif mat.child_axis == 1:
             # return lambda mat: None
             sample = numba_mu.make_sampling_fct_onechild('OR_AND_2D')
-            logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
 
             def LOM_sampler(mat):
                 # numba_mu.draw_OR_AND_2D(
@@ -133,14 +132,12 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
     # assign functions for all classical LFMs
     else:
-        logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
-
         # standard case: one child, no parents
         if p1mod is None and mod is not None:
             sample = numba_mu.make_sampling_fct_onechild(mod)
@@ -153,7 +150,7 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
@@ -171,7 +168,7 @@ def get_sampling_fct(mat):
                     mat.layer.lbda(),
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -185,7 +182,7 @@ def get_sampling_fct(mat):
                     mat.fixed_entries,
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -201,7 +198,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -221,7 +218,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
-- 
2.43.0


From 4c28e33e005e14dd32eec0c499bc7f4f00ccb4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 09/33] fix: infer failed for unfixed matrices that are not
 part of a layer

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index debef3b..ec17265 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -723,7 +723,7 @@ class Machine():
         # allocate memory to save samples
         print('allocating memory to save samples...')
         for mat in mats:
-            if mat.layer.model == 'OR-AND-IBP':
+            if mat.model == 'OR-AND-IBP':
                 mat.allocate_trace_arrays_IBP(no_samples)
             else:
                 mat.allocate_trace_arrays(no_samples)
-- 
2.43.0


From 0b85deb7ec00476948d69d11efd2af81a5d5f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:00 +0000
Subject: [PATCH 10/33] fix: MAX-AND updates mixed up ranks and indices of the
 latent dimensions

---
 lom/_numba/max_machine_sampler.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 479955f..0aaf4ac 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -13,27 +13,29 @@ from lom._numba.lom_outputs import OR_AND_product_expand
 def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
     N, L = Z.shape
     for n in prange(N):
-        for l in range(L):
+        for l_idx in range(L):
+            l = l_sorted[l_idx]
             if Z_fixed[n, l] == 1:
                 continue
             logit_p = posterior_score_MAX_AND_2D(
-                        Z[n, :], U, X[n, :], l, l_sorted, lbda_ratios)
+                        Z[n, :], U, X[n, :], l_idx, l_sorted, lbda_ratios)
             Z[n, l] = flip_metropolised_gibbs_numba(logit_p, Z[n, l])
 
 
-@jit('int32(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])', 
+@jit('float64(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])',
      nopython=True, nogil=True)
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
     Return count of correct/incorrect explanations
     caused by setting Z[n,l] to 1, respecting
     explaining away dependencies.
+    Here, l is the rank of the latent dimension in l_sorted.
     """
     D, L = U.shape
 
-    score = np.int32(0)
+    score = np.float64(0)
     for d in range(D):
-        if U[d, l] != 1:  # AND
+        if U[d, l_sorted[l]] != 1:  # AND
             continue
 
         alrdy_active = False
-- 
2.43.0


From 618203cff0ef19c68fff754005515fb93dada55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 11/33] fix: MAX-AND updates used outdated log ratios after the
 dispersion was set by the user

---
 lom/matrix_update_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 7c958d2..15317ad 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -43,9 +43,11 @@ def get_sampling_fct(mat):
     if mod == 'MAX_AND_2D':
         assert p1mod is None
         assert p2mod is None
-        from lom._numba.max_machine_sampler import draw_MAX_AND_2D
+        from lom._numba.max_machine_sampler import draw_MAX_AND_2D, compute_lbda_ratios
 
         def MAX_AND_2D(mat):
+            # the dispersion may have been changed since the last update
+            compute_lbda_ratios(mat.layer)
             l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
             draw_MAX_AND_2D(
                 mat(),
-- 
2.43.0


From 16fc4f34d0000f94ead5198f2a44cb2a8db1ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 12/33] fix: order of latent dimensions overflowed for MAX-AND
 models with more than 127 of them

---
 lom/_numba/max_machine_sampler.py | 4 ++--
 lom/matrix_update_wrappers.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 0aaf4ac..19856d5 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -8,7 +8,7 @@ from scipy.special import expit
 from lom._numba.matrix_updates_numba import flip_metropolised_gibbs_numba
 from lom._numba.lom_outputs import OR_AND_product_expand
 
-# @jit('void(int8[:,:], int8[:,:], int8[:,:], float64[:], int8[:], float32[:,:,:])',
+# @jit('void(int8[:,:], int8[:,:], int8[:,:], float64[:], int32[:], float32[:,:,:])',
 #      nogil=True, nopython=False, parallel=True)
 def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
     N, L = Z.shape
@@ -22,7 +22,7 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
             Z[n, l] = flip_metropolised_gibbs_numba(logit_p, Z[n, l])
 
 
-@jit('float64(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])',
+@jit('float64(int8[:], int8[:,:], int8[:], int64, int32[:], float32[:, :, :])',
      nopython=True, nogil=True)
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 15317ad..3205873 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -48,7 +48,7 @@ def get_sampling_fct(mat):
         def MAX_AND_2D(mat):
             # the dispersion may have been changed since the last update
             compute_lbda_ratios(mat.layer)
-            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
+            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int32)
             draw_MAX_AND_2D(
                 mat(),
                 mat.fixed_entries,
-- 
2.43.0


From f89d8f049efac5a12496d459949190476bb8a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 13/33] fix: output of MAX-AND layers ignored the clamped unit
 and picked the wrong dispersion

---
 lom/_numba/lom_outputs.py       | 10 ++++++----
 lom/_numba/lom_outputs_fuzzy.py | 23 +++++++++++------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/lom/_numba/lom_outputs.py b/lom/_numba/lom_outputs.py
index 2a4a4f2..f401905 100644
--- a/lom/_numba/lom_outputs.py
+++ b/lom/_numba/lom_outputs.py
@@ -253,10 +253,12 @@ def XOR_NAND_product_3d(u, z, v):
 # TODO: jit it
 def MAX_AND_product_2d(factors, lbdas):
 
-    out = np.zeros([f.shape[0] for f in factors])
+    # cells without active latent dimension are explained by the clamped unit
+    out = np.full([f.shape[0] for f in factors], lbdas[-1], dtype=np.float64)
+    # go from small to large dispersion, such that the largest one remains
     for l_idx in np.argsort(lbdas[:-1]):
-        temp = lbdas[l_idx] * OR_AND_product_expand(
-            *[f[:, l_idx] for f in factors])
-        out[out == 0] = temp[out == 0]
+        active = OR_AND_product_expand(
+            *[f[:, l_idx] for f in factors]) == 1
+        out[active] = lbdas[l_idx]
 
     return out
diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index 3a2bfde..b66c40e 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -210,20 +210,19 @@ def MAX_AND_product_fuzzy(Z, U, lbdas):
     D = U.shape[0]
     L = Z.shape[1]
     out = np.zeros([N, D])  # , dtype=np.float)
+    # latent dimensions from large to small dispersion
+    l_sorted = np.argsort(-lbdas[:L])
     for n in prange(N):
         for d in range(D):
-            acc = 0  # accumulator for sum
-            for l1 in range(L):
-                temp1 = Z[n, l1] * U[d, l1] * lbdas[l1]
-                # check for explaining away
-                prod = 1
-                for l2 in range(L):
-                    if l1 == l2:
-                        continue
-                    temp2 = Z[n, l2] * U[d, l2]
-                    if temp2 * lbdas[l2] > temp1:
-                        prod *= 1 - temp2
-                acc += temp1 * prod
+            acc = 0.0  # accumulator for sum
+            prod = 1.0  # probability that no larger dimension is active
+            for l_idx in range(L):
+                l = l_sorted[l_idx]
+                temp = Z[n, l] * U[d, l]
+                acc += prod * temp * lbdas[l]
+                prod *= 1 - temp
+            # no active dimension -> clamped unit
+            acc += prod * lbdas[L]
             out[n, d] = acc
     return out    
 
-- 
2.43.0


From 258a976ca7c194a7f9162c3ed06182cdaac966d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:00 +0000
Subject: [PATCH 14/33] fix: qL-AND factor updates ignored the dispersion and
 fixed entries

---
 lom/_numba/matrix_updates_numba.py | 16 ++++++++++------
 lom/matrix_update_wrappers.py      |  2 ++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 228ec42..8a1d50b 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -625,8 +625,8 @@ def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     return score
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_Z(Z, U, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
+def sample_qL_factors_Z(Z, Z_fixed, U, X, q, lbda):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -635,15 +635,17 @@ def sample_qL_factors_Z(Z, U, X, q, lbda):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_Z(
+            if Z_fixed[n, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_Z(
                 Z[n, :], U, X[n, :], l, q)
             Z[n, l] = flip_metropolised_gibbs_numba(
                 logit_score, Z[n, l])
     return
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_U(U, Z, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
+def sample_qL_factors_U(U, U_fixed, Z, X, q, lbda):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -653,7 +655,9 @@ def sample_qL_factors_U(U, Z, X, q, lbda):
     D, L = U.shape
     for d in prange(D):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_U(
+            if U_fixed[d, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_U(
                 U[d, :], Z, X[d, :], l, q[0, d])
             U[d, l] = flip_metropolised_gibbs_numba(
                 logit_score, U[d, l])
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 3205873..dc99a60 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -77,6 +77,7 @@ def get_sampling_fct(mat):
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
@@ -88,6 +89,7 @@ def get_sampling_fct(mat):
             def qL_sampler_U(mat):
                 numba_mu.sample_qL_factors_U(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-- 
2.43.0


From 6f807b49040eeca4acf76f87b15244c92099cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:21 +0000
Subject: [PATCH 15/33] fix: no sampler for the thresholds of a qL-AND layer
 with fixed factors

---
 lom/matrix_update_wrappers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index dc99a60..b6aff73 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -24,7 +24,10 @@ def get_sampling_fct(mat):
     # child dimension and mat dimension are aligned.
     mod, p1mod, p2mod = get_relatives_models(mat)
 
-    if mod is not None:
+    # the thresholds of a qL-AND layer are not one of its factors
+    is_threshold = mod == 'qL_AND_2D' and mat is mat.layer.q
+
+    if mod is not None and not is_threshold:
         transpose_order = tuple(
             [mat.child_axis] +
             [s.child_axis for s in mat.siblings])
@@ -71,7 +74,8 @@ def get_sampling_fct(mat):
                 q.layer.lbda(),
                 q.layer.gamma)
 
-        mat.layer.q.sampling_fct = q_sampler
+        if is_threshold:
+            return q_sampler
 
         if mat.child_axis == 0:
             def qL_sampler_Z(mat):
-- 
2.43.0


From 6ecf2bd359acaa318262e7152090d3a0c7b1a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:15 +0000
Subject: [PATCH 16/33] fix: thresholds of qL-AND models were sampled without
 looking at the data

---
 lom/_numba/matrix_updates_numba.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 8a1d50b..fd87db7 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -521,7 +521,7 @@ def random_choice(p):
         acc += p[i]
         if rand_float < acc:
             return np.int8(i + 1)
-    return len(p) + 1
+    return len(p)
 
 
 # @jit('int8(int8[:], int8[:,:], int8[:], float64, float64, float64, int8)',
@@ -533,8 +533,8 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
 
     N, D = X.shape
     q_max = 6
-    p_lbda = np.log(1 + np.exp(lbda))
-    m_lbda = np.log(1 + np.exp(-lbda))
+    p_lbda = -np.log(1 + np.exp(-lbda))  # log-likelihood of a correct prediction
+    m_lbda = p_lbda - lbda  # log-likelihood of a wrong prediction
 
     logconditional = np.zeros((q_max - 1, D), dtype=np.float64)
 
@@ -546,14 +546,18 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
             logconditional[q_new, d] = (q_new + 1) * np.log(gamma) -\
                 gamma - lgamma(q_new + 2)
 
-            # compute loglikelihoods
-            true_predictions = np.sum(np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1)
+            # compute loglikelihoods, unobserved data does not contribute
+            predictions = np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1
+            true_predictions = np.sum(predictions & (X[:, d] == 1)) +\
+                np.sum(~predictions & (X[:, d] == -1))
+            false_predictions = np.sum(predictions & (X[:, d] == -1)) +\
+                np.sum(~predictions & (X[:, d] == 1))
             logconditional[q_new, d] = logconditional[q_new, d] + true_predictions * p_lbda +\
-                (N - true_predictions) * m_lbda
+                false_predictions * m_lbda
 
         # overwrite log-conditional with normalised probability
         # (but avoid allocating new memory)
-        log_p_max = np.max(logconditional)
+        log_p_max = np.max(logconditional[:, d])
         for q_new in prange(q_max - 1):
             logconditional[q_new, d] = np.exp(logconditional[q_new, d] - log_p_max)
 
-- 
2.43.0


From 83e5743c68f4de4396678e45f679467053b69541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:53 +0000
Subject: [PATCH 17/33] fix: OR-AND-IBP updates failed after columns had been
 added

---
 lom/_numba/matrix_updates_numba.py | 11 ++++++++++-
 lom/matrix_update_wrappers.py      | 12 ++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index fd87db7..ca5619f 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -382,11 +382,13 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
     return sampling_fct
 
 
-def sample_2d_IBP(Z, U, X, lbda, q, alpha):
+def sample_2d_IBP(Z, U, X, lbda, q, alpha, U_fixed=None):
     """
     IBP update procedure for 2D OrMachine, drawing U and Z where
     U has flat prior and Z comes from IBP with concentration parameter alpha.
     Z[n,l], U[d,l], X[n,d], q: Bernoulli prior, alpha: IPB concentration parameter.
+    If the mask U_fixed of fixed entries of U is given, it is returned as well
+    with the same columns as U.
     """
 
     # lbda = lr.lbda.val
@@ -436,6 +438,8 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
         # remove marked columns
         Z = Z[:, columns_to_keep]
         U = U[:, columns_to_keep]
+        if U_fixed is not None:
+            U_fixed = U_fixed[:, columns_to_keep]
         L = columns_to_keep.sum()
 
         # draw number of new dishes (columns)
@@ -470,6 +474,8 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
             Z = np.hstack([Z, np.full([N, L_new], fill_value=-1, dtype=np.int8)])
             Z[n, -L_new:] = 1
             U = np.hstack([U, 2 * np.zeros([D, L_new], dtype=np.int8) - 1])
+            if U_fixed is not None:
+                U_fixed = np.hstack([U_fixed, np.zeros([D, L_new], dtype=np.int8)])
 
             # sample the new hidden causes
             for l in list(range(L, L + L_new)):
@@ -483,6 +489,9 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
         # if L_new > 0:
         #     print(L_new, Z.shape[0])
 
+    if U_fixed is not None:
+        return Z, U, U_fixed
+
     return Z, U
 
 # TODO: numba
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index b6aff73..6b0c496 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -117,13 +117,17 @@ def get_sampling_fct(mat):
                 References are overwritten in the function,
                 need to return arrays.
                 """
-                mat.val, mat.siblings[0].val = numba_mu.sample_2d_IBP(
+                sibling = mat.siblings[0]
+                mat.val, sibling.val, sibling.fixed_entries = numba_mu.sample_2d_IBP(
                     mat(),
-                    mat.siblings[0](),
+                    sibling(),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    mat.siblings[0].bernoulli_prior,
-                    mat.layer.alpha)
+                    sibling.bernoulli_prior,
+                    mat.layer.alpha,
+                    sibling.fixed_entries)
+                # single entries of the first factor can not be fixed
+                mat.fixed_entries = np.zeros(mat().shape, dtype=np.int8)
 
             return IBP_sampler
 
-- 
2.43.0


From d5aa6fe809ba8ab361e04b0c148ce7ca1c89b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 18/33] fix: recording OR-AND-IBP samples failed after more
 than ten columns had been added

---
 lom/machine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index ec17265..2f224b9 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -124,6 +124,14 @@ class Trace():
                                  dtype=self().dtype, fill_value=-1)
 
     def update_trace_IBP(self):
+        # more columns than expected
+        extra_columns = self.val.shape[1] - self.trace.shape[2]
+        if extra_columns > 0:
+            self.trace = np.concatenate(
+                [self.trace,
+                 np.full(self.trace.shape[:2] + (extra_columns,),
+                         dtype=self.trace.dtype, fill_value=-1)], axis=2)
+
         self.trace[self.trace_index,
                    :self.val.shape[0],
                    :self.val.shape[1]] = self.val
-- 
2.43.0


From 649701aae52ec77948a423759d1f3a3f1e91553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 19/33] fix: output of qL-AND layers was not a probability and
 ignored noisy_emission

---
 lom/machine.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 2f224b9..af888da 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -409,6 +409,7 @@ class MachineLayer():
                         self.u()[d, :],
                         self.z()[n, :],
                         self.q()[0, d])
+            out = (1 + out) * .5  # map to probability of emitting a 1
 
         else:
             if technique == 'point_estimate':
@@ -444,10 +445,10 @@ class MachineLayer():
                 out /= self.lbda.trace.shape[0]
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
-            # convert to probability of generating a 1
-            if noisy_emission is True:
-                out = out * aux.expit(self.lbda.mean()) +\
-                    (1 - out) * aux.expit(-self.lbda.mean())
+        # convert to probability of generating a 1
+        if noisy_emission is True and self.model != 'MAX-AND':
+            out = out * aux.expit(self.lbda.mean()) +\
+                (1 - out) * aux.expit(-self.lbda.mean())
 
         self.prediction = out
 
-- 
2.43.0


From fbcade5967748094c2722636d97a86722945ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 20/33] fix: output with technique factor_mean_old was not a
 probability

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index af888da..d24fd6a 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -434,6 +434,7 @@ class MachineLayer():
                 out = aux.lom_generate_data_fuzzy(
                     [x.mean() for x in self.factors],
                     self.model)
+                out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
-- 
2.43.0


From bca6f06c14402ae481d75d6e2b78711f0efdddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 21/33] fix: Monte Carlo output failed for layers with fixed
 factors or dispersion

---
 lom/machine.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index d24fd6a..0c79516 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -160,6 +160,15 @@ class Trace():
         else:
             return self()
 
+    def sample(self, t):
+        """
+        Return recorded sample t, or the current state if no trace is defined
+        """
+        if 'trace' in dir(self):
+            return self.trace[t]
+        else:
+            return self()
+
     def check_convergence(self, eps):
         """
         split trace in half and check difference between means < eps
@@ -346,6 +355,13 @@ class MachineLayer():
         return (self.model + '-' + str(len(self.factors)) +
                 'D').replace('-', '_')
 
+    def no_samples(self):
+        """
+        Return number of recorded samples, 1 (the current state) if there are none
+        """
+        return min([x.trace.shape[0] for x in self.factors + [self.lbda]
+                    if 'trace' in dir(x)] or [1])
+
     def output(self,
                technique='factor_map',
                noisy_emission=False,
@@ -388,11 +404,12 @@ class MachineLayer():
                         for x in self.factors], self.lbda())
             elif technique == 'mc':
                 out = np.zeros([x().shape[0] for x in self.factors])
-                for t in range(self.lbda.trace.shape[0]):
+                no_samples = self.no_samples()
+                for t in range(no_samples):
                     out += lom_outputs.MAX_AND_product_2d(
-                        [x.trace[t, :] for x in self.factors],
-                        self.lbda.trace[t])
-                out /= self.lbda.trace.shape[0]
+                        [x.sample(t) for x in self.factors],
+                        self.lbda.sample(t))
+                out /= no_samples
             elif technique == 'factor_mean':
                 out = lom_outputs_fuzzy.MAX_AND_product_fuzzy(
                     .5 * (self.z.mean() + 1),
@@ -439,11 +456,12 @@ class MachineLayer():
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
 
-                for t in range(self.lbda.trace.shape[0]):
-                    out += aux.lom_generate_data_fast([x.trace[t, :]
+                no_samples = self.no_samples()
+                for t in range(no_samples):
+                    out += aux.lom_generate_data_fast([x.sample(t)
                                                        for x in self.factors],
                                                       self.model)
-                out /= self.lbda.trace.shape[0]
+                out /= no_samples
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
         # convert to probability of generating a 1
-- 
2.43.0


From d63ea332b314f7a2069c6f89b39ea105bf50851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 22/33] fix: annealing overshot the target dispersion by one
 step

---
 lom/machine.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 0c79516..b89310e 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -588,6 +588,12 @@ class Machine():
         # first sample without checking for convergence or saving lbda traces
         # this is a 'pre-burn-in-phase'
         pre_burn_in_iter = 0
+
+        if self.anneal is True:
+            if fix_lbda_iters != 0:
+                raise ValueError('fix_lbda_iters should be zero for annealing.')
+            annealing_targets = [lbda() for lbda in lbdas]
+
         while True:
             # stop pre-burn-in if minimum numbers of burn-in iterations is reached
             if pre_burn_in_iter == burn_in_min:
@@ -613,20 +619,8 @@ class Machine():
                 # Anneal lambda for pre_burn_in_iter steps to
                 # it's initially given value.
                 elif self.anneal is True:
-                    try:
-                        assert fix_lbda_iters == 0
-                    except:
-                        raise ValueError('fix_lbda_iters should be zero for annealing.')
-                    # pre-compute annealing steps
-                    if pre_burn_in_iter == fix_lbda_iters + 1:
-                        annealing_lbdas = [np.arange(
-                            lbda() / burn_in_min,
-                            lbda() + 2 * lbda() / burn_in_min,
-                            lbda() / burn_in_min)
-                            for lbda in lbdas]
-
-                    for lbda_idx, lbda in enumerate(lbdas):
-                        lbda.val = annealing_lbdas[lbda_idx][pre_burn_in_iter]
+                    for lbda, target in zip(lbdas, annealing_targets):
+                        lbda.val = target * (pre_burn_in_iter / float(burn_in_min))
 
         # allocate array for lambda traces for burn in detection
         for lbda in lbdas:
-- 
2.43.0


From c6ed21114a441571d778cdd6eea75a891f0cf871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 23/33] fix: first convergence check of the burn-in used an
 uninitialised value

---
 lom/machine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index b89310e..06ffb55 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -640,8 +640,9 @@ class Machine():
                       '\t--\t '.join([x.print_value() for x in lbdas]),
                       end='')
 
-            #  check convergence every convergence_window iterations
-            if burn_in_iter % convergence_window == 0:
+            #  check convergence every convergence_window iterations,
+            #  as soon as they have been recorded
+            if burn_in_iter > 1 and (burn_in_iter - 1) % convergence_window == 0:
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-- 
2.43.0


From 27495bb1e0c229cd330c5b68b5c4acd394ab873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 24/33] fix: burn_in_iters counted a sweep too many and left
 out the initial phase

---
 lom/machine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 06ffb55..11d6fe9 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -669,7 +669,7 @@ class Machine():
 
                     else:
                         # save number of burn in iterations
-                        self.burn_in_iters = burn_in_iter + pre_burn_in_iter
+                        self.burn_in_iters = burn_in_iter - 1 + pre_burn_in_iter
                         break
 
             # stop if maximum number of burn in iterations is reached
@@ -684,7 +684,7 @@ class Machine():
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-                self.burn_in_iters = burn_in_iter
+                self.burn_in_iters = burn_in_iter - 1 + pre_burn_in_iter
                 break
 
             # draw samples # shuffle(mats)
-- 
2.43.0


From 66ea3f73a4e5b5b256638e64a1f804b265583cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 25/33] fix: clean_up_codes skipped the dimension after a
 removed one

---
 lom/auxiliary_functions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 389d975..b0887f5 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -115,22 +115,27 @@ def clean_up_codes(layer, reset=True, clean=False):
     # remove inactive codes
     l = 0
     while l < layer.size:  # need to use while loop because layer.size changes.
+        size = layer.size
         if np.any([np.all(f()[:, l] == -1) for f in layer.factors]):
             cleaning_action(l, layer)
             reduction_applied = True
-        l += 1
+        # after a removal, position l is taken by the next dimension
+        if layer.size == size:
+            l += 1
 
     # remove duplicates
     l = 0
     while l < layer.size:
         l_prime = l + 1
         while l_prime < layer.size:
+            size = layer.size
             for f in layer.factors:
                 if np.all(f()[:, l] == f()[:, l_prime]):
                     reduction_applied = True
                     cleaning_action(l_prime, layer)
                     break
-            l_prime += 1
+            if layer.size == size:
+                l_prime += 1
         l += 1
 
     if reduction_applied is True:
-- 
2.43.0


From ec45dc2f366de0b35d6b8768f18846c73b06d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 26/33] fix: removing a latent dimension left masks of fixed
 entries and MAX-AND dispersions behind

---
 lom/auxiliary_functions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index b0887f5..07faa00 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -157,6 +157,13 @@ def remove_dimension(l_prime, layer):
     # layer.size -= 1
     for f in layer.factors:
         f.val = np.delete(f.val, l_prime, axis=1)
+        f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
+
+    # MAX-AND layers have a dispersion for every latent dimension
+    if layer.model == 'MAX-AND':
+        from lom._numba.max_machine_sampler import compute_lbda_ratios
+        layer.lbda.val = np.delete(layer.lbda(), l_prime)
+        compute_lbda_ratios(layer)
 
 
 def reset_dimension(l_prime, layer):
-- 
2.43.0


From 32367bf5bfd17c98b0238221beba9b70070d35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 27/33] fix: split_train_test failed with the alias np.int
 removed from numpy

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 72c282e..659a99a 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -170,7 +170,7 @@ def split_train_test(tensor, split=.1, balanced=False):
     def index_generator():
         return tuple([np.random.randint(dim) for dim in tensor.shape])
 
-    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=np.int)
+    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=int)
     i = 0
 
     if balanced is False:
-- 
2.43.0


From b5fa39dfa1163bc0fefc52119104b39e53995f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 28/33] fix: add_bernoulli_noise produced values outside of
 {-1,1} for tensors that are not Boolean

---
 lom/auxiliary_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 07faa00..a0ac9a8 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -541,7 +541,9 @@ def add_bernoulli_noise(X, p):
         for d in range(X.shape[1]):
             for m in range(X.shape[2]):
                 if np.random.rand() < p:
-                    X_intern[n, d, m] = ~X_intern[n, d, m]
+                    # Boolean or {-1,0,1} coding
+                    X_intern[n, d, m] = ~X_intern[n, d, m] \
+                        if X.dtype == bool else -X_intern[n, d, m]
 
     return X_intern
 
-- 
2.43.0


From 83b3b6f9be31fb3219c1bd7a2bb0c9962d62cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 29/33] fix: noise functions ignored the given seed

---
 lom/auxiliary_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index a0ac9a8..9506332 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -553,7 +553,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
     print('X needs to be in -1, 1 mapping!')
 
     if seed is None:
-        np.random.seed(np.random.randint(1e4))
+        seed = np.random.randint(1e4)
+    np.random.seed(seed)
 
     X_intern = X.copy()
 
@@ -568,7 +569,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
 def add_bernoulli_noise_2d_biased(X, p_plus, p_minus, seed=None):
 
     if seed is None:
-        np.random.seed(np.random.randint(1e4))
+        seed = np.random.randint(1e4)
+    np.random.seed(seed)
 
     X_intern = X.copy()
 
-- 
2.43.0


From 46bf6af65955ec86774d2a66a334c35836eac4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 30/33] fix: expected_density of XOR-XOR models was wrong for
 more than two factors

---
 lom/auxiliary_functions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 9506332..b259dc1 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1083,10 +1083,9 @@ def expected_density(model, L, K, f):
         d = Inv[0](Inv[1](K * f * invert(f)**(K - 1))**L)
 
     elif model_group == 'XOR-XOR':
-        d = Inv[0](L * (
-            Inv[1](K * f * (invert(f))**(K - 1) *
-                   (f**K + invert(f)**(K)) ** (L - 1))
-        ))
+        # probability that exactly one factor entry is 1
+        p = Inv[1](K * f * invert(f)**(K - 1))
+        d = Inv[0](L * p * invert(p)**(L - 1))
 
     return d
 
-- 
2.43.0


From d841cc6d112d45040ed8dcf03812d75155a96977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 31/33] fix: get_roc_auc failed, the indices of the hidden
 entries were used up by the labels

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index b259dc1..a845a94 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -293,7 +293,7 @@ def get_roc_auc(data, data_train, prediction):
     """
 
     zero_idx = np.where(data_train == 0)
-    zero_idx = zip(list(zero_idx)[0], list(zero_idx)[1])
+    zero_idx = list(zip(list(zero_idx)[0], list(zero_idx)[1]))
     auc = sklearn.metrics.roc_auc_score(
         [data[i, j] == 1 for i, j in zero_idx], [prediction[i, j] for i, j in zero_idx])
 
-- 
2.43.0


From 048a6b43c9ed6c478f184b48e9425c2987274105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 32/33] fix: grid search without given models failed with an
 undefined name

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 659a99a..944f005 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -322,7 +322,7 @@ def LOM_hyperparms_parallel_gridsearch(X,
     import pandas as pd
 
     if machines is None:
-        machines = aux.canonical_loms()
+        machines = lib.canonical_loms()
 
     # train/test split
     make_split = True
-- 
2.43.0


From 78b8059ddabb167689cd7f9a5f585a7ebca98b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 33/33] fix: tables of binomial and beta-binomial log-odds
 failed or had the wrong length

---
 lom/auxiliary_functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index a845a94..797b31b 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -68,11 +68,11 @@ def compute_bp(q, n, N, tau=1):
 
     exp_bp = [(q * (n - k * tau)) / ((1 - q) * (k * tau + 1)) for k in range(n)]
 
-    bp = [np.log(x) if (x > 0) else -np.infty for x in exp_bp]
+    bp = [np.log(x) if (x > 0) else -np.inf for x in exp_bp]
 
     if N != n:
-        bp_new = [-np.infty for i in range(N)]
-        bp_new[:n - 1] = bp
+        bp_new = [-np.inf for i in range(N)]
+        bp_new[:n] = bp
         bp = bp_new
     return np.array(bp, dtype=float)
 
@@ -83,8 +83,8 @@ def compute_bbp(n, a, b):
     beta parameters a, b.
     """
     exp_bbp = [(float((n - k) * (k + a)) /
-                float((k + 1) * (n - k + b - 1))) for k in range(n + 1)]
-    bbp = [np.log(x) if (x > 0) else -np.infty for x in exp_bbp]
+                float((k + 1) * (n - k + b - 1))) for k in range(n)] + [0.]
+    bbp = [np.log(x) if (x > 0) else -np.inf for x in exp_bbp]
     return np.array(bbp, dtype=float)
 
 
-- 
2.43.0


From babf259f7d00e2561d9a709ede996ef3fd8c1275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:54 +0000
Subject: [PATCH 01/43] fix: over-relaxed graphical lasso mixes K with
 +(1-over_relax)*Z

---
 regain/covariance/graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index bbabca1..2c99786 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -159,7 +159,7 @@ def graphical_lasso(
         K = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
 
         # z-update with relaxation
-        K_hat = over_relax * K - (1 - over_relax) * Z
+        K_hat = over_relax * K + (1 - over_relax) * Z
         Z = soft_thresholding_off_diagonal(K_hat + U, lamda=alpha / rho)
 
         # update residuals
-- 
2.43.0


From 0cc1923206a66e04ca171b4c804ceacbc91e9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:28 +0000
Subject: [PATCH 02/43] fix: penalise only off-diagonal entries in the sparse
 update (objective is ||.||_{od,1})

---
 regain/covariance/infimal_convolution_.py                | 4 ++--
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 4 ++--
 regain/covariance/kernel_time_graphical_lasso_.py        | 4 ++--
 regain/covariance/latent_graphical_lasso_.py             | 4 ++--
 regain/covariance/latent_time_graphical_lasso_.py        | 4 ++--
 regain/covariance/latent_time_matrix_decomposition.py    | 4 ++--
 regain/covariance/time_graphical_lasso_.py               | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 63df391..0a51578 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -38,7 +38,7 @@ from six.moves import range
 from sklearn.utils.extmath import squared_norm
 
 from regain.norm import l1_od_norm
-from regain.prox import prox_laplacian, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_laplacian, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 
@@ -122,7 +122,7 @@ def infimal_convolution(
         R = prox_laplacian(S + rho * A, lamda=rho / 2.0)
 
         A = L + R + U
-        K = soft_thresholding(A, lamda=alpha / rho)
+        K = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         A = K - R - U
         A += A.T
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index c15f569..5f83b47 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -47,7 +47,7 @@ from regain.covariance.kernel_time_graphical_lasso_ import (
     objective as obj_ktgl,
     precision_similarity,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -198,7 +198,7 @@ def kernel_latent_time_graphical_lasso(
             A[m:] += Z_M[m][1] - Y_M[m][1]
 
         A /= n_times
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * n_times))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * n_times))
 
         # update W_0
         A = Z_0 - R - X_0
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 9635e3e..7498483 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -48,7 +48,7 @@ from regain.covariance.time_graphical_lasso_ import (
     loss,
 )
 from regain.norm import l1_od_norm
-from regain.prox import prox_logdet, soft_thresholding
+from regain.prox import prox_logdet, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -190,7 +190,7 @@ def kernel_time_graphical_lasso(
         A = K + U_0
         A += A.transpose(0, 2, 1)
         A /= 2.0
-        Z_0 = soft_thresholding(A, lamda=alpha / rho)
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         # update residuals
         U_0 += K - Z_0
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index e33d0ae..a2178c2 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -40,7 +40,7 @@ from regain.covariance.graphical_lasso_ import (
     init_precision,
     objective as obj_gl,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 
@@ -132,7 +132,7 @@ def latent_graphical_lasso(
         R = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
 
         A = L + R + U
-        K = soft_thresholding(A, lamda=alpha / rho)
+        K = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         A = K - R - U
         A += A.T
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index a8a6658..e454333 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -39,7 +39,7 @@ from regain.covariance.time_graphical_lasso_ import (
     init_precision,
     objective as obj_tgl,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -184,7 +184,7 @@ def latent_time_graphical_lasso(
         A[:-1] += Z_1 - X_1
         A[1:] += Z_2 - X_2
         A /= divisor[:, None, None]
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * divisor[:, None, None]))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * divisor[:, None, None]))
 
         # update Z_1, Z_2
         A_1 = Z_0[:-1] + X_1
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index c668df6..ff2dfa5 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -38,7 +38,7 @@ from sklearn.utils.extmath import squared_norm
 
 from regain.covariance.latent_time_graphical_lasso_ import LatentTimeGraphicalLasso
 from regain.norm import l1_od_norm
-from regain.prox import prox_trace_indicator, soft_thresholding
+from regain.prox import prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_input, check_norm_prox
@@ -151,7 +151,7 @@ def latent_time_matrix_decomposition(
         A /= divisor[:, None, None]
         # soft_thresholding_ = partial(soft_thresholding, lamda=alpha / rho)
         # Z_0 = np.array(map(soft_thresholding_, A))
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * divisor[:, None, None]))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * divisor[:, None, None]))
 
         # update Z_1, Z_2
         A_1 = Z_0[:-1] + X_1
diff --git a/regain/covariance/time_graphical_lasso_.py b/regain/covariance/time_graphical_lasso_.py
index f5c3356..23010b1 100644
--- a/regain/covariance/time_graphical_lasso_.py
+++ b/regain/covariance/time_graphical_lasso_.py
@@ -45,7 +45,7 @@ from sklearn.utils.validation import check_X_y
 from regain.covariance.graphical_lasso_ import GraphicalLasso, init_precision
 from regain.math import batch_logdet
 from regain.norm import l1_od_norm
-from regain.prox import prox_logdet, soft_thresholding
+from regain.prox import prox_logdet, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence, error_norm_time
 from regain.validation import check_norm_prox
@@ -201,7 +201,7 @@ def time_graphical_lasso(
         A = K + U_0
         A += A.transpose(0, 2, 1)
         A /= 2.0
-        Z_0 = soft_thresholding(A, lamda=alpha / rho)
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         # other Zs
         A_1 = K[:-1] + U_1
-- 
2.43.0


From 06a75d32ce2693a6c1cd6c68f591c6386303f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:50 +0000
Subject: [PATCH 03/43] fix: report the objective at (K, Z_0) instead of with
 the two swapped

---
 regain/covariance/kernel_time_graphical_lasso_.py | 2 +-
 regain/covariance/time_graphical_lasso_.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 7498483..381c6d4 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -240,7 +240,7 @@ def kernel_time_graphical_lasso(
         )
 
         obj = (
-            objective(n_samples, emp_cov, Z_0, K, Z_M, alpha, kernel, psi)
+            objective(n_samples, emp_cov, K, Z_0, Z_M, alpha, kernel, psi)
             if compute_objective
             else np.nan
         )
diff --git a/regain/covariance/time_graphical_lasso_.py b/regain/covariance/time_graphical_lasso_.py
index 23010b1..c9908b5 100644
--- a/regain/covariance/time_graphical_lasso_.py
+++ b/regain/covariance/time_graphical_lasso_.py
@@ -239,7 +239,7 @@ def time_graphical_lasso(
         )
 
         obj = (
-            objective(n_samples, emp_cov, Z_0, K, Z_1, Z_2, alpha, beta, psi)
+            objective(n_samples, emp_cov, K, Z_0, Z_1, Z_2, alpha, beta, psi)
             if compute_objective
             else np.nan
         )
-- 
2.43.0


From 7d22e050f3686d68253fef986009c24c1ecc4c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:53 +0000
Subject: [PATCH 04/43] fix: n_iter counts the iterations performed in every
 solver

---
 regain/covariance/graphical_lasso_.py                    | 2 +-
 regain/covariance/infimal_convolution_.py                | 2 +-
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 2 +-
 regain/covariance/latent_graphical_lasso_.py             | 2 +-
 regain/covariance/latent_time_graphical_lasso_.py        | 2 +-
 regain/covariance/latent_time_matrix_decomposition.py    | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index 2c99786..9c7e2e9 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -199,7 +199,7 @@ def graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 0a51578..55bb7d2 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -168,5 +168,5 @@ def infimal_convolution(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 5f83b47..b5d07ea 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -388,7 +388,7 @@ def kernel_latent_time_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index a2178c2..09f3baa 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -178,7 +178,7 @@ def latent_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index e454333..27a6a8e 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -344,7 +344,7 @@ def latent_time_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index ff2dfa5..1e4b69f 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -313,7 +313,7 @@ def latent_time_matrix_decomposition(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
-- 
2.43.0


From d403d948ea07a4baf4595ebba937efa7f97a0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:34 +0000
Subject: [PATCH 05/43] fix: missing graphical lasso history stores the
 log-likelihood value and n_iter counts iterations

---
 regain/covariance/missing_graphical_lasso_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index 8596170..bada4f4 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -175,7 +175,7 @@ def missing_graphical_lasso(
         )
         loglik = logl(emp_cov, K)
         diff = old_logl - loglik
-        checks.append(dict(iteration=iter_, log_likelihood=logl, difference=diff))
+        checks.append(dict(iteration=iter_, log_likelihood=loglik, difference=diff))
         if verbose:
             print(
                 "Iter %d: log-likelihood %.4f, difference: %.4f" % (iter_, loglik, diff)
@@ -190,7 +190,7 @@ def missing_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iter_)
+        return_list.append(iter_ + 1)
     return return_list
 
 
-- 
2.43.0


From c95ac07a1978b2e48c7fddca73f73bb8c80434a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:12 +0000
Subject: [PATCH 06/43] fix: temporal kernels can be given as ndarrays (no
 truth value of an array)

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 8 ++++++--
 regain/covariance/kernel_time_graphical_lasso_.py        | 4 +++-
 regain/generalized_linear_model/glm_time_ising.py        | 4 +++-
 regain/generalized_linear_model/glm_time_poisson.py      | 4 +++-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index b5d07ea..b87aff7 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -533,7 +533,9 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                 )
 
         else:
-            kernel_phi = self.kernel_phi or np.identity(self.classes_.size)
+            kernel_phi = self.kernel_phi
+            if kernel_phi is None:
+                kernel_phi = np.identity(self.classes_.size)
             if kernel_phi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_phi size does not match classes of samples, "
@@ -553,7 +555,9 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                     self.classes_[:, None]
                 )
         else:
-            kernel_psi = self.kernel_psi or np.identity(self.classes_.size)
+            kernel_psi = self.kernel_psi
+            if kernel_psi is None:
+                kernel_psi = np.identity(self.classes_.size)
             if kernel_psi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_psi size does not match classes of samples, "
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 381c6d4..768042c 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -544,7 +544,9 @@ class KernelTimeGraphicalLasso(TimeGraphicalLasso):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = self.kernel
+                if kernel is None:
+                    kernel = np.identity(self.classes_.size)
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index e9c3e97..d2b522b 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -502,7 +502,9 @@ class TemporalIsingModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = self.kernel
+                if kernel is None:
+                    kernel = np.identity(self.classes_.size)
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index b7fefea..cabc4f0 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -497,7 +497,9 @@ class TemporalPoissonModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = self.kernel
+                if kernel is None:
+                    kernel = np.identity(self.classes_.size)
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
-- 
2.43.0


From f9bb1229438f859fc4a306c75c497e911e205fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:15 +0000
Subject: [PATCH 07/43] fix: kernel latent estimators pass phi and the temporal
 kernel of the latent part to the solver

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index b87aff7..4bd1b65 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -577,6 +577,7 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
             tol=self.tol,
             rtol=self.rtol,
             psi=self.psi,
+            phi=self.phi,
             max_iter=self.max_iter,
             verbose=self.verbose,
             return_n_iter=True,
@@ -745,6 +746,8 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 kernel_phi = np.eye(n_times)
                 np.fill_diagonal(kernel_phi[:, 1:], self.eta)
                 np.fill_diagonal(kernel_phi[1:], self.eta)
+            else:
+                kernel_phi = self.kernel_phi
 
             # discover best kernel parameter via EM
             # initialise precision matrices, as warm start
@@ -788,12 +791,13 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     alpha=self.alpha,
                     tau=self.tau,
                     rho=self.rho,
-                    kernel_phi=self.kernel_phi,
+                    kernel_phi=kernel_phi,
                     kernel_psi=kernel_psi,
                     n_samples=n_samples,
                     tol=self.tol,
                     rtol=self.rtol,
                     psi=self.psi,
+                    phi=self.phi,
                     max_iter=self.max_iter,
                     verbose=self.verbose,
                     return_n_iter=True,
@@ -877,6 +881,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 tol=self.tol,
                 rtol=self.rtol,
                 psi=self.psi,
+                phi=self.phi,
                 max_iter=self.max_iter,
                 verbose=self.verbose,
                 return_n_iter=True,
-- 
2.43.0


From 780780074855ca862daf5468349808407e0abc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:24 +0000
Subject: [PATCH 08/43] fix: Ising gradient sums over all the samples

---
 regain/generalized_linear_model/glm_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index efab1cc..a10121d 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -76,7 +76,7 @@ def _gradient_ising(X, theta, n, A=None, rho=1, T=0):
             EXT = np.exp(XT)
             E_XT = np.exp(-XT)
             sum_ += (1 / n) * X[i, selector] * ((EXT - E_XT) / (EXT + E_XT) - X[i, r])
-            return sum_
+        return sum_
 
     for ix in range(theta.shape[0]):
         selector = [i for i in range(d) if i != ix]
-- 
2.43.0


From 4858ac04fb78bbf8bb550e65799b3b7883c35fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:28 +0000
Subject: [PATCH 09/43] fix: np.float no longer exists

---
 regain/generalized_linear_model/glm_ising.py   | 2 +-
 regain/generalized_linear_model/glm_poisson.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index a10121d..6989cf4 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -47,7 +47,7 @@ def loss(X, theta):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return float("inf")
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         for i in range(n):
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index 2b577de..8eaed59 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -54,7 +54,7 @@ def objective(X, theta, alpha):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return float("inf")
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         objective += objective_single_variable(X, theta[r, selector], n, r, selector, 0)
-- 
2.43.0


From e216fd61e1f68ef0f6ea20ca1b6c4692e8ddb578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:31 +0000
Subject: [PATCH 10/43] fix: union adjacency symmetrises once, after all the
 neighbourhoods are in

---
 regain/generalized_linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/base.py b/regain/generalized_linear_model/base.py
index 6236d50..4d1df22 100644
--- a/regain/generalized_linear_model/base.py
+++ b/regain/generalized_linear_model/base.py
@@ -22,7 +22,7 @@ def build_adjacency_matrix(neighbours, how="union"):
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
             out[i, where] = arr
-            out = (out + out.T) / 2
+        out = (out + out.T) / 2
     elif how.lower() == "intersection":
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
-- 
2.43.0


From d0c812e56a8ec117520b4a07d94cd168aceb60e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:34 +0000
Subject: [PATCH 11/43] fix: a rejected line-search step restarts from the
 current iterate

---
 regain/generalized_linear_model/glm_ising.py   | 5 +----
 regain/generalized_linear_model/glm_poisson.py | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index 6989cf4..72fba18 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -137,10 +137,7 @@ def _fit(
 
                 if loss_new > diff or np.isinf(loss_new) or np.isnan(loss_new):
                     gamma = update_gamma * gamma
-                    theta = theta_old - gamma * grad
-                    theta = soft_thresholding_off_diagonal(theta, alpha * gamma)
-                    loss_new = loss(X, theta)
-                    diff = loss_old - grad_diff + (diff_theta2 / (2 * gamma))
+                    theta = theta_old
                 else:
                     break
         thetas.append(theta)
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index 8eaed59..ea0cdd6 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -116,10 +116,7 @@ def fit_each_variable(
 
             if loss_new > diff or np.isinf(loss_new) or np.isnan(loss_new):
                 gamma = update_gamma * gamma
-                theta = theta_old - gamma * grad
-                theta = soft_thresholding(theta, alpha * gamma)
-                loss_new = loss_single_variable(X, theta, n, ix, selector)
-                diff = loss_old - grad_diff + (diff_theta2 / (2 * gamma))
+                theta = theta_old
             else:
                 break
         thetas.append(theta)
-- 
2.43.0


From f9dc694628b4c09f119802488e9af1e095f2a42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:37 +0000
Subject: [PATCH 12/43] fix: Gaussian and Poisson GLM estimators honour gamma,
 tol and max_iter

---
 regain/generalized_linear_model/glm_gaussian.py | 4 +++-
 regain/generalized_linear_model/glm_poisson.py  | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_gaussian.py b/regain/generalized_linear_model/glm_gaussian.py
index e476243..84fc497 100644
--- a/regain/generalized_linear_model/glm_gaussian.py
+++ b/regain/generalized_linear_model/glm_gaussian.py
@@ -193,7 +193,9 @@ class Gaussian_GLM_GM(GLM_GM):
         thetas_pred = []
         historys = []
         for ix in range(X.shape[1]):
-            res = fit_each_variable(X, ix, self.alpha)
+            res = fit_each_variable(
+                X, ix, self.alpha, gamma=gamma, tol=self.tol, max_iter=self.max_iter
+            )
             thetas_pred.append(res[0])
             historys.append(res[1:])
         self.precision_ = build_adjacency_matrix(thetas_pred, how=self.reconstruction)
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index ea0cdd6..1a87fb6 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -264,7 +264,13 @@ class PoissonGraphicalModel(GLM_GM, BaseEstimator):
             for ix in range(X.shape[1]):
                 verbose = max(0, self.verbose - 1)
                 res = fit_each_variable(
-                    X, ix, self.alpha, tol=self.tol, verbose=verbose
+                    X,
+                    ix,
+                    self.alpha,
+                    gamma=self.gamma,
+                    tol=self.tol,
+                    max_iter=self.max_iter,
+                    verbose=verbose,
                 )
                 thetas_pred.append(res[0])
                 historys.append(res[1:])
-- 
2.43.0


From c0ef06aceab64e7f2ddf200a710f8ea99ff7dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:26 +0000
Subject: [PATCH 13/43] fix: vector soft-thresholding of zero vectors is zero,
 not NaN

---
 regain/prox.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index 9e1e132..9aff486 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -60,7 +60,8 @@ def soft_thresholding_off_diagonal(a, lamda):
 
 def soft_thresholding_vector(a, lamda):
     """Soft-thresholding for vectors."""
-    return np.maximum(1 - lamda / np.linalg.norm(a, axis=-1, keepdims=True), 0) * a
+    norms = np.linalg.norm(a, axis=-1, keepdims=True)
+    return np.maximum(1 - lamda / np.where(norms > 0, norms, 1), 0) * a
 
 
 def blockwise_soft_thresholding(a, lamda):
@@ -73,7 +74,10 @@ def blockwise_soft_thresholding_symmetric(a, lamda):
     """Proximal operator for l2 norm, for symmetric matrices (last 2 axes)."""
     col_norms = np.linalg.norm(a, axis=-2)
     out = np.matmul(
-        a, create_from_diagonal((1 - lamda / col_norms) * (col_norms > lamda))
+        a,
+        create_from_diagonal(
+            (1 - lamda / np.where(col_norms > 0, col_norms, 1)) * (col_norms > lamda)
+        ),
     )
     return out
 
-- 
2.43.0


From 61988e24898a855aa65e5e3b331fac27265b3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:30 +0000
Subject: [PATCH 14/43] fix: prox of the l-inf norm is computed exactly instead
 of with a generic smooth minimiser

---
 regain/prox.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index 9aff486..a98fcbc 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -87,8 +87,6 @@ def prox_linf_1d(a, lamda):
 
     min ||x||_inf + (1/2t)||x-w||^2
 
-    Since there is no closed-form, we can minimize it with scipy.
-
     Matlab reference
     ------
     %% Perform prox operator:   min_x (1/2t)||x-w||^2 subject to |x|<=radius
@@ -112,19 +110,18 @@ def prox_linf_1d(a, lamda):
         end
     end
     """
-    from scipy.optimize import minimize
-
-    def f(x):
-        return lamda * np.linalg.norm(x, np.inf) + 0.5 * squared_norm(a - x)
-
-    return minimize(f, a).x
+    w_abs = np.abs(a)
+    ws = (np.cumsum(np.sort(w_abs)[::-1]) - lamda) / np.arange(1, a.size + 1)
+    return np.sign(a) * np.minimum(w_abs, max(np.max(ws), 0))
 
 
 def prox_linf(a, lamda):
-    """Proximal operator for l-inf norm."""
+    """Proximal operator for l-inf norm, column-wise."""
+    lamda = np.broadcast_to(lamda, (a.shape[0], 1, 1))
     x = np.zeros_like(a)
     for t in range(a.shape[0]):
-        x[t] = np.array([prox_linf_1d(a[t, :, j], lamda) for j in range(a.shape[1])]).T
+        for j in range(a.shape[2]):
+            x[t, :, j] = prox_linf_1d(a[t, :, j], lamda[t, 0, 0])
     return x
 
 
-- 
2.43.0


From e802a89ba7c8e14b4927fc81b9d574f34c62a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:33 +0000
Subject: [PATCH 15/43] fix: l2 and linf penalties are the column-wise norms
 their proximal operators belong to

---
 regain/norm.py       | 10 ++++++++++
 regain/validation.py |  7 +++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/regain/norm.py b/regain/norm.py
index 1ec5742..a5476dd 100644
--- a/regain/norm.py
+++ b/regain/norm.py
@@ -55,6 +55,16 @@ def l1_od_norm(precision):
     return matrix_l1_norm(precision) - diagonal_sum
 
 
+def l2_norm(precision):
+    """Sum of the l2 norms of the columns."""
+    return np.linalg.norm(precision, axis=-2).sum()
+
+
+def linf_norm(precision):
+    """Sum of the l-inf norms of the columns."""
+    return np.abs(precision).max(axis=-2).sum()
+
+
 def node_penalty(X):
     """Node penalty. See Hallac for details."""
     cons = (
diff --git a/regain/validation.py b/regain/validation.py
index 743836e..9b01797 100644
--- a/regain/validation.py
+++ b/regain/validation.py
@@ -30,14 +30,13 @@
 
 """Validation module for REGAIN."""
 import warnings
-from functools import partial
 
 import numpy as np
 import scipy.sparse as sp
 from sklearn.utils.extmath import squared_norm
 from sklearn.utils.validation import check_array
 
-from regain.norm import l1_norm, node_penalty
+from regain.norm import l1_norm, l2_norm, linf_norm, node_penalty
 from regain.prox import blockwise_soft_thresholding, prox_laplacian, prox_linf, prox_node_penalty, soft_thresholding
 
 
@@ -51,10 +50,10 @@ def check_norm_prox(function):
         norm = l1_norm
     elif function == "l2":
         prox = blockwise_soft_thresholding
-        norm = np.linalg.norm
+        norm = l2_norm
     elif function == "linf":
         prox = prox_linf
-        norm = partial(np.linalg.norm, ord=np.inf)
+        norm = linf_norm
     elif function == "node":
         prox = prox_node_penalty
         norm = node_penalty
-- 
2.43.0


From d50c781d581a039e28598e147cf9f45a9936ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:57 +0000
Subject: [PATCH 16/43] fix: forward-backward lambda line search can be called
 (every criterion)

---
 regain/forward_backward/forward_backward.py      | 4 ++--
 regain/forward_backward/time_graphical_lasso_.py | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/regain/forward_backward/forward_backward.py b/regain/forward_backward/forward_backward.py
index 09d54a3..a49f369 100644
--- a/regain/forward_backward/forward_backward.py
+++ b/regain/forward_backward/forward_backward.py
@@ -131,7 +131,7 @@ def choose_lamda(
         tolerance = _scalar_product(y_minus_x, grad)
         tolerance += delta / gamma * _scalar_product(y_minus_x, y_minus_x)
     elif criterion == "c":
-        objective_x = objective_f(x)
+        objective_x = objective_f(precision=x)
         gx = function_g(x)
         gy = function_g(prox)
         tolerance = (1 - delta) * (gy - gx + _scalar_product(y_minus_x, grad))
@@ -154,7 +154,7 @@ def choose_lamda(
             if loss_diff <= lamda * tolerance and positive_definite(x1):
                 break
         elif criterion == "c":
-            obj_diff = objective_f(x1) - objective_x
+            obj_diff = objective_f(precision=x1) - objective_x
             # if positive_definite(x1) and obj_diff <= lamda * tolerance:
             cond = True
             # COND IS lamda > 0 if min_eigen_y >= 0 else lamda < min_eigen_x / (min_eigen_x - min_eigen_y)
diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index e79df21..a472f17 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -318,7 +318,6 @@ def tgl_forward_backward(
                 p=time_norm,
                 grad=grad,
                 prox=y,
-                vareps=vareps,
             )
             n_linesearch += n_ls
 
-- 
2.43.0


From 312936d883733dfd2bbfa731101ecdc2dbb17d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:00 +0000
Subject: [PATCH 17/43] fix: forward-backward gradient accepts n_samples=None
 like the loss

---
 regain/forward_backward/time_graphical_lasso_.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index a472f17..5c3f590 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -59,7 +59,8 @@ def grad_loss(x, emp_cov, n_samples, x_inv=None, vareps=0):
     if x_inv is None:
         x_inv = np.array([linalg.pinvh(_) for _ in x])
     grad = emp_cov - x_inv
-    grad *= n_samples[:, None, None]
+    if n_samples is not None:
+        grad *= n_samples[:, None, None]
 
     # add coercitive term
     grad += vareps * x
-- 
2.43.0


From 48a3654dac9e07146cc4d61a639061af5faefbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:17 +0000
Subject: [PATCH 18/43] fix: structure_error on a true graph without edges does
 not divide by zero

---
 regain/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index 20c82b6..5f42f4d 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -489,8 +489,8 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
     TP = np.count_nonzero((res == 3).astype(float))
 
     precision = TP / (TP + FP) if TP + FP > 0 else 0
-    recall = TP / (TP + FN)
-    miss_rate = FN / (TP + FN) or 1 - recall
+    recall = TP / (TP + FN) if TP + FN > 0 else 0
+    miss_rate = FN / (TP + FN) if TP + FN > 0 else 1 - recall
     f1 = 2 * precision * recall / (precision + recall) if precision + recall > 0 else 0
 
     accuracy = (TP + TN) / true.size
-- 
2.43.0


From d1c1039ad037839719ceb2c2a5fb2e762fec3daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:19 +0000
Subject: [PATCH 19/43] fix: mean_structure_error averages the mcc too
 (KeyError)

---
 regain/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regain/utils.py b/regain/utils.py
index 5f42f4d..114bbd5 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -576,6 +576,7 @@ def mean_structure_error(true, preds):
         dor=[],
         balanced_accuracy=[],
         average_precision=[],
+        mcc=[],
     )
     for p in preds:
         res = structure_error(true, p, no_diagonal=True)
-- 
2.43.0


From 26b11fd4ab2cc1c798526698694cf574c7d0a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:22 +0000
Subject: [PATCH 20/43] fix: structure_error counts negative entries as edges
 in average precision and mcc

---
 regain/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index 114bbd5..c78a8e3 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -462,8 +462,8 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
         y_true = squareform(true, checks=None)
         y_pred = squareform(pred, checks=None)
 
-    average_precision = average_precision_score(y_true > 0, y_pred)
-    mcc = matthews_corrcoef(y_true > 0, y_pred > 0)
+    average_precision = average_precision_score(y_true != 0, np.abs(y_pred))
+    mcc = matthews_corrcoef(y_true != 0, y_pred != 0)
 
     if thresholding:
         pred[np.abs(pred) < eps] = 0
-- 
2.43.0


From b36ba8beb33ed2d52661fc8777e595cc831db785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:25 +0000
Subject: [PATCH 21/43] fix: accuracy and prevalence without the diagonal are
 fractions of the off-diagonal entries

---
 regain/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index c78a8e3..fde6a57 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -493,8 +493,9 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
     miss_rate = FN / (TP + FN) if TP + FN > 0 else 1 - recall
     f1 = 2 * precision * recall / (precision + recall) if precision + recall > 0 else 0
 
-    accuracy = (TP + TN) / true.size
-    prevalence = (TP + FN) / true.size
+    n_entries = true.size - tn_to_remove
+    accuracy = (TP + TN) / n_entries
+    prevalence = (TP + FN) / n_entries
 
     fall_out = FP / (FP + TN) if (FP + TN) > 0 else 1
     specificity = TN / (FP + TN) if (FP + TN) > 0 else 1.0 - fall_out
-- 
2.43.0


From a0db51ac890b72b687060656357e6b97c117b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:27 +0000
Subject: [PATCH 22/43] fix: spectral error norm (np.linalg has no svdvals)

---
 regain/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regain/utils.py b/regain/utils.py
index fde6a57..e0e1b56 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -373,7 +373,9 @@ def error_norm(
     if norm == "frobenius":
         squared_norm = np.sum(error**2)
     elif norm == "spectral":
-        squared_norm = np.amax(np.linalg.svdvals(np.dot(error.T, error)))
+        squared_norm = np.amax(
+            np.linalg.svd(np.dot(error.T, error), compute_uv=False)
+        )
     else:
         raise NotImplementedError("Only spectral and frobenius norms are implemented")
     # optionally scale the error norm
-- 
2.43.0


From e80c8b0d33a6bdfdacd305fc0383e3a03b472dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:30 +0000
Subject: [PATCH 23/43] fix: convert_data_to_2d supports classes with different
 numbers of samples

---
 regain/utils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index e0e1b56..dcec754 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -284,11 +284,7 @@ def convert_data_to_2d(data):
     to the class is encoded in y.
     """
     X = np.vstack(data)
-    y = (
-        np.array([np.ones(x.shape[0]) * i for i, x in enumerate(data)])
-        .flatten()
-        .astype(int)
-    )
+    y = np.repeat(np.arange(len(data)), [x.shape[0] for x in data])
     return X, y
 
 
-- 
2.43.0


From 75196a15b41e8e0468308d9225d0120abad54f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:57 +0000
Subject: [PATCH 24/43] fix: lasso solvers return the solution alone unless the
 history is asked for

---
 regain/linear_model/group_lasso_.py | 2 +-
 regain/linear_model/lasso_.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index 7e32de5..bf75c17 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -135,7 +135,7 @@ def group_lasso(
         if history[1] < history[3] and history[2] < history[4]:
             break
 
-    return z, hist if return_history else z
+    return (z, hist) if return_history else z
 
 
 def objective(A, b, alpha, groups, x, z):
diff --git a/regain/linear_model/lasso_.py b/regain/linear_model/lasso_.py
index 2dde28e..6a393bc 100644
--- a/regain/linear_model/lasso_.py
+++ b/regain/linear_model/lasso_.py
@@ -117,7 +117,7 @@ def lasso(A, b, lamda=1.0, rho=1.0, alpha=1.0, max_iter=1000, tol=1e-4, rtol=1e-
         if history[1] < history[3] and history[2] < history[4]:
             break
 
-    return z, history if return_history else z
+    return (z, hist) if return_history else z
 
 
 def objective(A, b, alpha, x, z):
-- 
2.43.0


From 54d0149f2bb78c8686a6689e54f56c7e5714b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:00 +0000
Subject: [PATCH 25/43] fix: group lasso shrinks each group by its norm and
 measures the dual residual against the previous iterate

---
 regain/linear_model/group_lasso_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index bf75c17..68a908a 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -36,7 +36,7 @@ import numpy as np
 from six.moves import range
 
 from regain.linear_model.lasso_ import lu_factor
-from regain.prox import soft_thresholding
+from regain.prox import soft_thresholding_vector
 from regain.utils import flatten
 
 
@@ -114,10 +114,10 @@ def group_lasso(
             x /= rho
 
         # % z-update with relaxation
-        zold = z
+        zold = z.copy()
         x_hat = alpha * x + (1 - alpha) * zold
         for group in groups:
-            z[group] = soft_thresholding(x_hat[group] + u[group], lamda / rho)
+            z[group] = soft_thresholding_vector(x_hat[group] + u[group], lamda / rho)
 
         # % u-update
         u += x_hat - z
-- 
2.43.0


From 1f7997d7783f9f147032dc6ab6011a97d1b4f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:41 +0000
Subject: [PATCH 26/43] fix: accept an ndarray as initial precision (comparison
 with a string is elementwise)

---
 regain/covariance/graphical_lasso_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index 9c7e2e9..cea9583 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -58,7 +58,9 @@ def objective(emp_cov, x, z, alpha):
 
 def init_precision(emp_cov, mode="empirical"):
     """Initialize the precision matrix given the empirical covariance."""
-    if mode == "empirical":
+    if isinstance(mode, np.ndarray):
+        K = mode
+    elif mode == "empirical":
         covariance_ = emp_cov.copy()
         covariance_ *= 0.95
         n_features = emp_cov.shape[-1]
@@ -70,8 +72,6 @@ def init_precision(emp_cov, mode="empirical"):
             for i, (c, e) in enumerate(zip(covariance_, emp_cov)):
                 c.flat[:: n_features + 1] = e.flat[:: n_features + 1]
                 K[i] = linalg.pinvh(c)
-    elif isinstance(mode, np.ndarray):
-        K = mode
     else:
         K = np.zeros_like(emp_cov)
 
-- 
2.43.0


From 42b5b228c04eb57dac1e67c9eea4eb3817af03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:04 +0000
Subject: [PATCH 27/43] fix: similarity estimators keep the ker_param they are
 given (clone failed)

---
 regain/covariance/kernel_time_graphical_lasso_.py | 1 +
 regain/generalized_linear_model/glm_time_ising.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 768042c..3ab01c8 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -678,6 +678,7 @@ class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):
             compute_objective=compute_objective,
             return_history=return_history,
             psi=psi,
+            ker_param=ker_param,
             init=init,
         )
         # in this class, `kernel` is either a matrix TxT or None
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index d2b522b..14f5f61 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -665,6 +665,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
             compute_objective=compute_objective,
             return_history=return_history,
             psi=psi,
+            ker_param=ker_param,
         )
         # in this class, `kernel` is either a matrix TxT or None
         # if None, automatically learn all the weights
-- 
2.43.0


From d2613c076f7efa41ae19f4eba30ab06b27cfb3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:16 +0000
Subject: [PATCH 28/43] fix: the gamma line search accepts positive definite
 points only

---
 regain/forward_backward/forward_backward.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regain/forward_backward/forward_backward.py b/regain/forward_backward/forward_backward.py
index a49f369..d99d467 100644
--- a/regain/forward_backward/forward_backward.py
+++ b/regain/forward_backward/forward_backward.py
@@ -87,11 +87,12 @@ def choose_gamma(
 
         if choose == "gamma":
             y_minus_x = prox - x
-            loss_diff = function_f(K=x + lamda * y_minus_x) - fx
+            x1 = x + lamda * y_minus_x
+            loss_diff = function_f(K=x1) - fx
 
             tolerance = _scalar_product(y_minus_x, grad)
             tolerance += delta / gamma * _scalar_product(y_minus_x, y_minus_x)
-            if loss_diff <= lamda * tolerance:
+            if loss_diff <= lamda * tolerance and positive_definite(x1):
                 break
         gamma *= eps
 
-- 
2.43.0


From 0e714384ed83f629550fe034fb33c4208abed618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 29/43] fix: the per-time fits of the temporal Ising and
 Poisson models average over the copies there are

---
 regain/generalized_linear_model/glm_time_ising.py   | 5 +++--
 regain/generalized_linear_model/glm_time_poisson.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 14f5f61..51289ad 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -137,6 +137,7 @@ def _fit_time_ising_model(
         kernel = np.eye(n_times)
 
     K = np.zeros((n_times, n_features, n_features))
+    n_copies = n_times - 1  # copies of each K[t] the constraints introduce
 
     Z_M = {}
     U_M = {}
@@ -165,7 +166,7 @@ def _fit_time_ising_model(
             A[:-m] += Z_M[m][0] - U_M[m][0]
             A[m:] += Z_M[m][1] - U_M[m][1]
 
-        A /= n_times
+        A /= max(n_copies, 1)
         A += A.transpose(0, 2, 1)
         A /= 2.0
         # K_new = np.zeros_like(K)
@@ -182,7 +183,7 @@ def _fit_time_ising_model(
                 compute_objective=True,
                 warm_start=None,
                 rho=rho,
-                T=n_times,
+                T=n_copies,
                 return_history=False,
                 return_n_iter=False,
             )[0]
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index cabc4f0..fb5b52c 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -133,6 +133,7 @@ def _fit_time_poisson_model(
         kernel = np.eye(n_times)
 
     K = np.zeros((n_times, n_features, n_features))
+    n_copies = n_times - 1  # copies of each K[t] the constraints introduce
 
     Z_M = {}
     U_M = {}
@@ -160,7 +161,7 @@ def _fit_time_poisson_model(
             A[:-m] += Z_M[m][0] - U_M[m][0]
             A[m:] += Z_M[m][1] - U_M[m][1]
 
-        A /= n_times
+        A /= max(n_copies, 1)
         A += A.transpose(0, 2, 1)
         A /= 2.0
         # K_new = np.zeros_like(K)
@@ -176,7 +177,7 @@ def _fit_time_poisson_model(
                     tol=tol,
                     verbose=inner_verbose,
                     A=A[t, :, :],
-                    T=n_times,
+                    T=n_copies,
                     rho=rho,
                 )
                 thetas_pred.append(res[0])
-- 
2.43.0


From d11bef4dd2aa84da9428aec11beb9b44f7c92eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:46 +0000
Subject: [PATCH 30/43] fix: the temporal Ising and Poisson objectives add the
 negative log-likelihood

---
 regain/generalized_linear_model/glm_time_ising.py   | 2 +-
 regain/generalized_linear_model/glm_time_poisson.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 51289ad..396f8f2 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -52,7 +52,7 @@ def loss_ising(X, precision, n_samples=None):
         batch_dim = X.shape[0]
         n_samples = np.ones(batch_dim)
 
-    return sum(-ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
+    return sum(ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
 
 
 def objective(X, K, Z_M, alpha, kernel, psi):
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index fb5b52c..000eb7b 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -50,7 +50,7 @@ def loss_poisson(X, K, n_samples=None):
     """Loss function for time-varying poisson model."""
     if n_samples is None:
         n_samples = np.ones(X.shape[0])
-    return sum(-ni * loss(x, k) for x, k, ni in zip(X, K, n_samples))
+    return sum(ni * loss(x, k) for x, k, ni in zip(X, K, n_samples))
 
 
 def objective(X, K, Z_M, alpha, kernel, psi):
-- 
2.43.0


From bb261f4ea666d6655c6315a5eec11354b5f27573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:36 +0000
Subject: [PATCH 31/43] fix: the logistic-regression mode of the Ising model
 passes a non-negative verbosity

---
 regain/generalized_linear_model/glm_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index 72fba18..19f463e 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -293,7 +293,7 @@ class IsingGraphicalModel(GLM_GM, BaseEstimator):
         elif self.mode.lower() == "logistic_regression":
             thetas_pred = []
             for ix in range(X.shape[1]):
-                verbose = min(0, self.verbose - 1)
+                verbose = max(0, self.verbose - 1)
                 selector = np.array([i for i in range(X.shape[1]) if i != ix])
                 print("pd")
                 res = (
-- 
2.43.0


From 725883431b8c780ee21c663b832ad3cd3f2d35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:42 +0000
Subject: [PATCH 32/43] fix: the overlapping group lasso shrinks each group
 from the consensus variable

---
 regain/linear_model/group_lasso_overlap_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/linear_model/group_lasso_overlap_.py b/regain/linear_model/group_lasso_overlap_.py
index 12ddcd8..7b215ee 100644
--- a/regain/linear_model/group_lasso_overlap_.py
+++ b/regain/linear_model/group_lasso_overlap_.py
@@ -42,7 +42,7 @@ from sklearn.utils import check_array, check_X_y, deprecated
 from sklearn.utils.extmath import safe_sparse_dot
 from sklearn.utils.validation import check_is_fitted
 
-from regain.prox import soft_thresholding
+from regain.prox import soft_thresholding, soft_thresholding_vector
 from regain.utils import flatten
 from regain.wrapper.paspal.glopridu import glopridu_algorithm
 
@@ -144,7 +144,7 @@ def group_lasso_overlap(A, b, lamda=1.0, groups=None, rho=1.0, max_iter=100, tol
     for k in range(max_iter):
         # x update
         for i, g in enumerate(groups):
-            x[i] = soft_thresholding(x[i] - y[i] / rho, lamda / rho)
+            x[i] = soft_thresholding_vector(z[g] - y[i] / rho, lamda / rho)
 
         # z update
         zold = z
@@ -561,4 +561,4 @@ def _overlapping_group_lasso(A, b, lamda=1.0, groups=None, rho=1.0, alpha=1.0, m
 
 def objective(A, b, alpha, x, z):
     """Group lasso with overlap objective function."""
-    return 0.5 * np.sum((A.dot(z) - b) ** 2) + alpha * np.linalg.norm(x)
+    return 0.5 * np.sum((A.dot(z) - b) ** 2) + alpha * sum(np.linalg.norm(xi) for xi in x)
-- 
2.43.0


From ff641d2246b46afc9b68c1c783879f841dacc573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:56 +0000
Subject: [PATCH 33/43] fix: make_sin_cos returns the observed precision of
 every time point

---
 regain/datasets/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 1fad232..b8aa655 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -536,6 +536,7 @@ def make_sin_cos(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
     thetas = np.array([np.eye(n_dim_obs) for i in range(T)])
 
     x = np.linspace(0, 2 * np.pi, T)
+    thetas_obs = []
     for i in range(T):
         for r in range(n_dim_obs):
             for c in range(n_dim_obs):
@@ -551,7 +552,7 @@ def make_sin_cos(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
         assert is_pos_def(thetas[i])
         theta_observed = thetas[i] - L
         assert is_pos_def(theta_observed)
-        thetas_obs = [theta_observed]
+        thetas_obs.append(theta_observed)
 
     return thetas, thetas_obs, np.array([L] * T)
 
-- 
2.43.0


From 44a9a3835d14c605d7f8aea9ee7163fdf621d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:56 +0000
Subject: [PATCH 34/43] fix: the l1 updates of the Ising and Poisson graphs
 change the accepted edges only

---
 regain/datasets/ising.py   | 6 +++---
 regain/datasets/poisson.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index c2c9740..006de4c 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -44,9 +44,9 @@ def update_ising_l1(theta_init, no, n_dim_obs, responses=[-1, 1]):
     while np.any(rows == cols):
         rows = np.random.randint(0, n_dim_obs, no)
         cols = np.random.randint(0, n_dim_obs, no)
-        for r, c in zip(rows, cols):
-            theta[r, c] = np.random.choice(responses) if theta[r, c] == 0 else np.random.choice([theta[r, c], 0])
-            theta[c, r] = theta[r, c]
+    for r, c in zip(rows, cols):
+        theta[r, c] = np.random.choice(responses) if theta[r, c] == 0 else np.random.choice([theta[r, c], 0])
+        theta[c, r] = theta[r, c]
     assert np.all(theta == theta.T)
     return theta
 
diff --git a/regain/datasets/poisson.py b/regain/datasets/poisson.py
index be405e7..9f867ae 100644
--- a/regain/datasets/poisson.py
+++ b/regain/datasets/poisson.py
@@ -41,9 +41,9 @@ def update_l1(G, how_many, n_dim_obs):
     while np.any(rows == cols):
         rows = np.random.randint(0, n_dim_obs, how_many)
         cols = np.random.randint(0, n_dim_obs, how_many)
-        for r, c in zip(rows, cols):
-            G[r, c] = np.random.choice([0, G[r, c]])
-            G[c, r] = G[r, c]
+    for r, c in zip(rows, cols):
+        G[r, c] = np.random.choice([0, G[r, c]])
+        G[c, r] = G[r, c]
     assert np.all(G == G.T)
     return G
 
-- 
2.43.0


From 6b99292ff1be95462ff731a79c26a19459efee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:56 +0000
Subject: [PATCH 35/43] fix: direct Ising sampling enumerates the states of the
 graph's variables and draws independent samples

---
 regain/datasets/ising.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index 006de4c..4421bf1 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -152,10 +152,10 @@ def direct_sampling(theta, thresholds, n=1000, beta=1, responses=[0, 1]):
 
     np.fill_diagonal(theta, 0)
 
-    states = [list(seq) for seq in itertools.product(responses, repeat=10)]
+    states = [list(seq) for seq in itertools.product(responses, repeat=theta.shape[0])]
     probabilities = np.exp(-beta * np.array([hamiltonian(theta, s, thresholds) for s in states]))
     probabilities /= np.sum(probabilities)
-    ixs = np.random.choice(np.arange(0, len(states)), n, replace=False, p=probabilities)
+    ixs = np.random.choice(np.arange(0, len(states)), n, replace=True, p=probabilities)
     return [states[i] for i in ixs]
 
 
-- 
2.43.0


From cfc8db36871d4f07ad422a240d2a79a56ea6262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:56 +0000
Subject: [PATCH 36/43] fix: the Ising sampler returns a matrix for a single
 sample too

---
 regain/datasets/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index 4421bf1..add324e 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -335,7 +335,7 @@ def ising_sampler(
 
     # Metropolis Hastings
     elif method.upper() == "MH":
-        res = ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[0, :])
+        res = np.atleast_2d(ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[0, :]))
         for s in range(1, n):
             state = ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[s, :])
             res = np.vstack((res, state))
-- 
2.43.0


From 998d543d0dab9e3e53405708139376dba3925268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:17 +0000
Subject: [PATCH 37/43] fix: the Ising energy counts every pair of variables
 once, as the Gibbs and exact samplers do

---
 regain/datasets/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index add324e..655a68c 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -138,7 +138,7 @@ def hamiltonian(theta, state, thresholds):
     n = theta.shape[0]
     for i in range(n):
         res -= thresholds[i] * state[i]
-        res += np.sum([-theta[i, j] * state[i] * state[j] for j in range(n) if j != i])
+        res += np.sum([-theta[i, j] * state[i] * state[j] for j in range(i + 1, n)])
 
     return res
 
-- 
2.43.0


From b8d26a202e6535d1ef6a54c95122f26c7c21cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 38/43] fix: the Wishart process keeps the Cholesky factor of
 every iteration, not the last one repeated

---
 regain/bayesian/wishart_process_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 7713dde..5b04312 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -156,7 +156,7 @@ def fit(
         loglikes[i] = current_state.log_likelihood
         lps[i] = theta
         if learn_ell:
-            Ls.append(L__)
+            Ls.append(L__.copy())
     return_list = [samples_u, loglikes, lps]
     if learn_ell:
         return_list.append(Ls)
-- 
2.43.0


From f33856b5e48169eae590a5f1ba54b1cdb719229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 39/43] fix: the default scale of the G-Wishart prior has one
 row per variable

---
 regain/bayesian/gwishart_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index e6bd164..6c530d9 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -325,7 +325,7 @@ def GWishartScore(X, G, d0=3, S0=None, score_method="bic", mode="covsel"):
     # %Initialize GW prior structure
     n_samples, n_dim = X.shape
     if S0 is None:
-        S0 = (d0 - 2) * np.diag(np.diag(np.cov(X, bias=True)))
+        S0 = (d0 - 2) * np.diag(np.var(X, axis=0))
 
     GWprior = Bunch(d0=d0, S0=S0, lognormconst=0, lognormconstDiag=0)
 
-- 
2.43.0


From 35e0ebce6c921c68ab1b620fffd1a1eb126368b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 40/43] fix: Laplace scores of graphs normalise the prior
 without any sample

---
 regain/bayesian/gwishart_inference.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 6c530d9..9e98646 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -182,8 +182,8 @@ def GWishartFit(X, G, GWprior, mode="covsel"):
     dn = n_samples + d0
 
     # X'*X - but I dont assume X to be centered
-    emp_cov = empirical_covariance(X)
-    S = n_samples * emp_cov
+    # without samples (prior only) the scatter is null
+    S = n_samples * empirical_covariance(X) if n_samples > 0 else np.zeros((n_dim, n_dim))
     C = (S + S0) / (dn - 2)
 
     if mode == "covsel":
@@ -222,7 +222,7 @@ def compute_score(X, G, P, S, GWprior=None, score_method="bic"):
     logdetP = np.sum(np.log(s))
 
     # % compute loglik
-    loglik = n_samples * log_likelihood(S / n_samples, P)
+    loglik = n_samples * log_likelihood(S / n_samples, P) if n_samples > 0 else 0
 
     num_edges = np.triu(G, 1).sum()
     dof = num_edges + n_dim
-- 
2.43.0


From bbefe1ccf8a789031b88993a91601cf728a43f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 41/43] fix: sign of the trace term in the Laplace
 approximation of the G-Wishart constant

---
 regain/bayesian/gwishart_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 9e98646..7af2f01 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -231,7 +231,7 @@ def compute_score(X, G, P, S, GWprior=None, score_method="bic"):
 
     # % the posterior Sn parameter
     # Sn = (dn - 2) * invP
-    logh = (dn - 2) / 2.0 * (n_dim + logdetP)
+    logh = (dn - 2) / 2.0 * (logdetP - n_dim)
 
     # find full param set V
     Vi, Vj = np.nonzero(np.triu(G))
-- 
2.43.0


From 208c67b75e529028233885e832c327f392f88da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 42/43] fix: covsel returns a gradient of the right length
 outside the positive definite cone

---
 regain/bayesian/gwishart_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 7af2f01..386a2bd 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -147,7 +147,7 @@ def covsel(x, p, nonZero, C):
         g += np.tril(g, -1).T  # add contribution from lower to upper triangle
         g = g[nonZero]
     else:
-        g = 0
+        g = np.zeros_like(x)
     return f, g
 
 
-- 
2.43.0


From 000a976fe32880db618940abe3f4367ca46404ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:35 +0000
Subject: [PATCH 43/43] fix: draw samples of the Wishart distribution

---
 regain/bayesian/wishart_distribution_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_distribution_.py b/regain/bayesian/wishart_distribution_.py
index 523c2bc..68f213b 100755
--- a/regain/bayesian/wishart_distribution_.py
+++ b/regain/bayesian/wishart_distribution_.py
@@ -79,7 +79,7 @@ class WishartDistribution(BaseEstimator):
     def sample(self, n_samples=1):
         # return distributions.rwishart(self.nu, self.psi)
         # return distributions.rwishart(self.nu, self.inv_psi)
-        return stats.wishart(df=self.nu, scale=self.S, size=n_samples)
+        return stats.wishart.rvs(df=self.nu, scale=self.S, size=n_samples)
 
 
 class InverseWishartDistribution(WishartDistribution):
-- 
2.43.0


From 6a300a74d7232fe81df34654e6dacd5dd32057b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 01/30] fix: Matern 5/2 gradient-free kernel: wrong derivative
 wrt theta

---
 gpgradpy/src/kernel/KernelMatern5f2.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index 33914d6..295a7d6 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -117,20 +117,14 @@ class KernelMatern5f2Base:
         
         nu_mat = np.sqrt(nu_mat)
         
-        # Take the inverse of nu_mat without causing error for values of zero
-        # Use 1e-16 as min value, does not change final calculations since
-        # nu_mat[i,j] is zero iff Rtensor[k,i,j] is zero for all 0<=k<=(dim-1) 
-        inv_nu_mat = 1 / (2*np.maximum(nu_mat, 1e-16))
-        # inv_nu_mat = np.divide(0.5, nu_mat, out=np.zeros_like(nu_mat[0,0]), where=nu_mat!=0)
-
         sqrt5      = np.sqrt(5)
         Rtensor_sq = Rtensor**2
-        KernBase   = (1 + sqrt5 * nu_mat + (5.0/3.0) * nu_mat**2) * np.exp(-sqrt5 * nu_mat)
+        mat1       = (5.0/6.0) * (1 + sqrt5 * nu_mat) * np.exp(-sqrt5 * nu_mat)
 
         KernBase_grad_th = np.zeros((dim, n1, n1))
 
         for d in range(dim):
-            KernBase_grad_th[d,:,:] = -sqrt5 * Rtensor_sq[d,:,:] * inv_nu_mat * KernBase
+            KernBase_grad_th[d,:,:] = -Rtensor_sq[d,:,:] * mat1
 
         return KernBase_grad_th
     
-- 
2.43.0


From 6ccd7f301f129c44a6a692e174406f31518b3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 02/30] fix: SqExp and Ma5f2 theta-derivative of the
 gradient-enhanced kernel with a subset of the gradients

---
 gpgradpy/src/kernel/KernelMatern5f2.py | 7 ++++---
 gpgradpy/src/kernel/KernelSqExp.py     | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index 295a7d6..d2c9368 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -562,7 +562,7 @@ class KernelMatern5f2GradMod:
             Rtensor_g1    = Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             Abase_g1      = Abase_gg      = Abase
-            mat1_g1       = mat1 
+            mat1_g1       = mat1_gg       = mat1 
             nu_mat_gg     = nu_mat
         else:
             n_grad        = np.sum(bvec_use_grad)
@@ -577,6 +577,7 @@ class KernelMatern5f2GradMod:
             Abase_gg      = Abase_g1[:, bvec_use_grad]
             
             mat1_g1       = mat1[bvec_use_grad, :]
+            mat1_gg       = mat1_g1[:, bvec_use_grad]
             
             nu_mat_g1     = nu_mat[bvec_use_grad,:]
             nu_mat_gg     = nu_mat_g1[:,bvec_use_grad]
@@ -605,7 +606,7 @@ class KernelMatern5f2GradMod:
             KernGrad_grad_th[d, :n1, rd1:rd2] += term.T
             
             # Covariance grad with grad for case of d == i == j
-            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1
+            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1_gg
             
             for i in range(dim):
                 ri1 = n1 + i * n_grad
@@ -617,7 +618,7 @@ class KernelMatern5f2GradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -((25./3.) * theta[i]) * Rtensor_g1[i] * Rtensor_g1[d] * Abase_g1
+                term = -((25./3.) * theta[i]) * Rtensor_gg[i] * Rtensor_gg[d] * Abase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
                 KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term.T
                 
diff --git a/gpgradpy/src/kernel/KernelSqExp.py b/gpgradpy/src/kernel/KernelSqExp.py
index da085a3..32b4200 100644
--- a/gpgradpy/src/kernel/KernelSqExp.py
+++ b/gpgradpy/src/kernel/KernelSqExp.py
@@ -505,13 +505,14 @@ class KernelSqExpGradMod:
         
         if bvec_use_grad is None:
             n_grad        = n1
-            Rtensor_g1    = Rtensor
+            Rtensor_g1    = Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             KernBase_g1   = KernBase_gg   = KernBase
         else:
             n_grad        = np.sum(bvec_use_grad)
             
             Rtensor_g1    = Rtensor[:, bvec_use_grad,:]
+            Rtensor_gg    = Rtensor_g1[:,:, bvec_use_grad]
             
             Rtensor_sq_g1 = Rtensor_sq[:,bvec_use_grad,:]
             Rtensor_sq_gg = Rtensor_sq_g1[:,:,bvec_use_grad]
@@ -549,7 +550,7 @@ class KernelSqExpGradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -4 * theta[i] * Rtensor[d,:,:] * Rtensor[i,:,:] * KernBase
+                term = -4 * theta[i] * Rtensor_gg[d] * Rtensor_gg[i] * KernBase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
                 KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term
                 
-- 
2.43.0


From c456a21602c135140ced8ec0c317d043a3897405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 03/30] fix: column block width in the x-derivative of the
 gradient-enhanced kernels with a subset of the gradients

---
 gpgradpy/src/kernel/KernelMatern5f2.py | 2 +-
 gpgradpy/src/kernel/KernelRatQuad.py   | 6 +++---
 gpgradpy/src/kernel/KernelSqExp.py     | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index d2c9368..e26b709 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -513,7 +513,7 @@ class KernelMatern5f2GradMod:
                     Rj_til   = Rtensor_g2[j] * theta[j]
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad 
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = -(25/3) * (theta[i]   * delta_ik * Rj_til 
diff --git a/gpgradpy/src/kernel/KernelRatQuad.py b/gpgradpy/src/kernel/KernelRatQuad.py
index 2cdf6d0..4a767d0 100644
--- a/gpgradpy/src/kernel/KernelRatQuad.py
+++ b/gpgradpy/src/kernel/KernelRatQuad.py
@@ -601,7 +601,7 @@ class KernelRatQuadGradMod:
             rk2 = rk1 + n1
             
             ck1 = n2 + k * n2_grad
-            ck2 = ck1 + n2 
+            ck2 = ck1 + n2_grad 
             
             KernGrad_grad_x[k, rk1:rk2, :n2] -= 2 * theta[k] * B_m_alpha_m1
             
@@ -610,7 +610,7 @@ class KernelRatQuadGradMod:
                 ri2 = ri1 + n1
                 
                 ci1 = n2 + i * n2_grad
-                ci2 = ci1 + n2 
+                ci2 = ci1 + n2_grad 
                 
                 # Covariance obj with grad
                 KernGrad_grad_x[k, ri1:ri2, :n2] += (scalar1 * theta[i] * theta[k]) * Rtensor[i,:,:] * Rtensor[k,:,:] * B_m_alpha_m2
@@ -624,7 +624,7 @@ class KernelRatQuadGradMod:
                 
                 for j in range(dim):
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad 
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         += (scalar2 * theta[i] * theta[j] * theta[k]) * Rtensor_g2[i] * Rtensor_g2[j] * Rtensor_g2[k] * B_m_alpha_m3_g2
diff --git a/gpgradpy/src/kernel/KernelSqExp.py b/gpgradpy/src/kernel/KernelSqExp.py
index 32b4200..f690350 100644
--- a/gpgradpy/src/kernel/KernelSqExp.py
+++ b/gpgradpy/src/kernel/KernelSqExp.py
@@ -458,7 +458,7 @@ class KernelSqExpGradMod:
                     delta_ij = int(i == j)
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad 
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = (-4* theta[i] * theta[j] * (delta_ik * Rtensor_g2[j] + delta_jk * Rtensor_g2[i])
-- 
2.43.0


From 51dc21b036b26c84a0e0863745dae215e103d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 04/30] fix: RatQu kernel: value-gradient block when only the
 first set of points has a gradient mask

---
 gpgradpy/src/kernel/KernelRatQuad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/KernelRatQuad.py b/gpgradpy/src/kernel/KernelRatQuad.py
index 4a767d0..f18c6ed 100644
--- a/gpgradpy/src/kernel/KernelRatQuad.py
+++ b/gpgradpy/src/kernel/KernelRatQuad.py
@@ -499,7 +499,7 @@ class KernelRatQuadGradMod:
                 
                 Rtensor_sq_gg   = Rtensor_sq_g1
                 
-                B_m_alpha_m1_g2 = B_m_alpha_m1_g1
+                B_m_alpha_m1_g2 = B_m_alpha_m1
                 B_m_alpha_m1_gg = B_m_alpha_m1_g1
                 
                 B_m_alpha_m2_gg = B_m_alpha_m2_g1
-- 
2.43.0


From 2b4b93476a0fed8d2f0e346d4e7895db5b4e2bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 05/30] fix: surrogate Hessian with a subset of the gradients

---
 gpgradpy/src/eval/GpEvalModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index c6bd211..dc738d4 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -149,7 +149,10 @@ class GpEvalModel(GpMeanFun):
         
         if calc_hess:
             Rtensor   = self.calc_Rtensor(x2model, x_eval_scl, 1)
-            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            if self.use_grad:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel, self.bvec_use_grad) # * sigK
+            else:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
             
         Kxy_invKernEta = linalg.cho_solve(self.KernEta_chofac, Kyx).T
 
@@ -355,7 +358,7 @@ class GpEvalModel(GpMeanFun):
 
     def calc_d2mudx2(self, d2Kxy_dx2):
         
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
+        n_data = self.n_eval + self.n_grad * self.dim if self.use_grad else self.n_eval
         assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2mudx2 can only be used on one point per call'
         
         d2mudx2 = np.matmul(d2Kxy_dx2, self.invKernEta_fdiff[None,:,None])[:,:,0]
@@ -365,7 +368,7 @@ class GpEvalModel(GpMeanFun):
     def calc_d2sigdx2(self, sig, dsigdx, Kxy_invKernEta, dKxy_dx, d2Kxy_dx2, sigK):
         
         # Preliminaries
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
+        n_data = self.n_eval + self.n_grad * self.dim if self.use_grad else self.n_eval
         assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2sigdx2 can only be used on one point per call'
         
         # Calculate d2sig2_dx2
-- 
2.43.0


From 291087c902bcc74e702f937e69d15cd3183316c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 06/30] fix: rescaling after nonlinear-constraint data has been
 set called methods that do not exist

---
 gpgradpy/src/base/Rescaling.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index bb2d613..3bd761c 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -58,16 +58,13 @@ class RescalingXdata:
             self._calc_n_set_scl_obj()
             
         if self._nlc_data_set:
-            self._calc_n_set_scl_nlc_data()
+            self._calc_n_set_scl_nlc()
             
         if self._boxcon_set:
             self._calc_n_set_scl_boxcon()
             
         if self._lincon_set:
             self._calc_n_set_scl_lincon()
-        
-        if self._nlc_data_set:
-            self._calc_n_set_scl_nonlincon()
     
     def _calc_x_shift_n_scale(self, x_shift_in = None, xvec_scale_in = None):
         
-- 
2.43.0


From e248f1a6decef2f0e137e2dd5245d8dcac82216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 07/30] fix: a given x_shift could not be used (ndim and
 atleast_1d misspelt)

---
 gpgradpy/src/base/Rescaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 3bd761c..88441d5 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -81,8 +81,8 @@ class RescalingXdata:
                 x_shift = np.zeros(self.dim)
         else:
             assert x_shift_in.size == self.dim, f'Wrong size for x_shift_in: {x_shift_in.shape}'
-            assert x_shift_in.dim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
-            x_shift = 1 * np.atlest_1d(x_shift_in)
+            assert x_shift_in.ndim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
+            x_shift = 1 * np.atleast_1d(x_shift_in)
         
         if xvec_scale_in is None:
             xvec_scale_in = np.ones(self.dim)
-- 
2.43.0


From 63f512c71c3004ecc53f5461ed1495ae51770373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 08/30] fix: Hessians must be scaled by both coordinate scales

---
 gpgradpy/src/base/Rescaling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 88441d5..cb9a6b5 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -140,7 +140,7 @@ class RescalingObjData:
         
         scale_inv    = 1 / self.xvec_scale[None,:]
         scl_grad_vec = scale_inv    * self.obj_scale
-        scl_hess_vec = scale_inv**2 * self.obj_scale
+        scl_hess_vec = scale_inv.T * scale_inv * self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu_scl       = None if mu_in       is None else (mu_in - self.obj_shift) * self.obj_scale
@@ -165,7 +165,7 @@ class RescalingObjData:
         assert self._obj_data_set, 'Must call set_obj_data prior to this method'
         
         scl_grad_vec = self.xvec_scale[None,:]    / self.obj_scale
-        scl_hess_vec = self.xvec_scale[None,:]**2 / self.obj_scale
+        scl_hess_vec = self.xvec_scale[:,None] * self.xvec_scale[None,:] / self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu       = None if mu_scl       is None else mu_scl  / self.obj_scale + self.obj_shift
@@ -272,7 +272,7 @@ class RescalingNonlincon:
         dsigdx_scl   = None if dsigdx_in is None else dsigdx_in * scl_vec
         
         # Scale the Hessians
-        scl_vec      = normz_xvec_scale_inv**2 * self.nlc_scale
+        scl_vec      = normz_xvec_scale_inv * normz_xvec_scale_inv[0].T * self.nlc_scale
         d2mudx2_scl  = None if d2mudx2_in  is None else d2mudx2_in  * scl_vec
         d2sigdx2_scl = None if d2sigdx2_in is None else d2sigdx2_in * scl_vec
         
@@ -290,7 +290,7 @@ class RescalingNonlincon:
         assert mu_scl.ndim == 2,  f'Unexpected shape for mu_scl of {mu_scl.shape}'
         
         scl_grad_vec  = self.xvec_scale[None,None,:]    / self.nlc_scale
-        scl_hess_vec  = self.xvec_scale[None,None,:]**2 / self.nlc_scale
+        scl_hess_vec  = self.xvec_scale[:,None] * self.xvec_scale[None,None,:] / self.nlc_scale
         
         mu       = None if mu_scl  is None else mu_scl  / self.nlc_scale + self.nlc_shift[None,:]
         sig      = None if sig_scl is None else sig_scl / self.nlc_scale
-- 
2.43.0


From 2bd6f3fd2c90f8e1eef450ba3b5467886146b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 09/30] fix: default nlc_scl_method of set_nlc_data is not an
 available method

---
 gpgradpy/src/base/Rescaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index cb9a6b5..fc80859 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -482,7 +482,7 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         assert self._obj_data_set, 'Must call the method set_obj_data prior to this method'
         return self.obj_scl, self.std_obj_scl, self.grad_scl, self.std_grad_scl
         
-    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = 'dflt_max'):
+    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = 'obj_scl'):
         
         n_eval, self.nlc_n = nlc_val_init.shape
         assert self._xdata_set, 'Must call the method set_xdata prior to set_obj_data'
-- 
2.43.0


From b44a6118f4a0f2d450b0f548048a90a22291f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 10/30] fix: noise vector of a gradient-free GP when the noise
 of the function values is unknown

---
 gpgradpy/src/kernel/Kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 40b6d6d..73307a5 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -333,7 +333,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
                 assert not np.any(np.isnan(std_fval)), f'There are nan values: std_fval = {std_fval}'
                 var_noise = std_fval**2
             else:
-                var_noise = np.full(std_fval.size, hp_vals.var_fval)
+                var_noise = np.full(self.n_eval, hp_vals.var_fval)
             
         else:
             var_noise = np.zeros(self.n_data)
-- 
2.43.0


From 7579bc6426f30101b9ef4b969bcb961c516d0ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 11/30] fix: starting points could not be sampled with the
 newer releases of smt

---
 gpgradpy/src/optz/GpHparaX0.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 5d52a9c..4562043 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -177,7 +177,12 @@ class GpHparaX0:
             hp_x0       = np.linspace(lhs_lb[0], lhs_ub[0], n_x0+2)[1:-1,None]
         else:
             para_limit  = np.array([lhs_lb, lhs_ub]).T
-            sampling    = LHS(xlimits=para_limit, random_state = 1)
+            
+            try:
+                sampling = LHS(xlimits=para_limit, random_state = 1)
+            except AssertionError: # The option random_state was renamed to seed in newer versions of smt
+                sampling = LHS(xlimits=para_limit, seed = 1)
+            
             hp_x0       = sampling(n_x0) 
         
         return hp_x0, hp_optz_bounds
-- 
2.43.0


From 17350a941e129a4a80ad6ea6d0a8b517ce42e6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 12/30] fix: an optimized kernel hyperparameter was an array
 instead of a float and could not be stored

---
 gpgradpy/src/base/GpHpara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 9694678..aa61697 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -78,7 +78,7 @@ class GpHpara:
             theta = None
         
         if hp_optz_info.has_kernel:
-            hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel]
+            hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel][0]
         else:
             hp_kernel = None
         
-- 
2.43.0


From e55cf05a3bc65eb60bc33bd6f5fb4b2607f003a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 13/30] fix: kernel hyperparameter when it is not optimized

---
 gpgradpy/src/base/GpHpara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index aa61697..32d3c7e 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -80,7 +80,7 @@ class GpHpara:
         if hp_optz_info.has_kernel:
             hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel][0]
         else:
-            hp_kernel = None
+            hp_kernel = self.hp_kernel # None if the kernel has no hyperparameter
         
         if hp_optz_info.has_varK:
             assert self.b_has_noisy_data
-- 
2.43.0


From 8164f648637f73ebe1bcaf5c954e415fea2fd33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 14/30] fix: noise was not normalized with varK when the
 surrogate is evaluated

---
 gpgradpy/src/kernel/Kernel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 73307a5..44e9bd7 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -193,10 +193,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             assert hp_vals.varK  is not None, f'varK is not provided and hp_vals.varK is None, hp_vals = {hp_vals}'
             varK = hp_vals.varK 
             
-        if b_normlz_w_varK:
-            varK = 1.0
-        else:
-            assert varK > 0, f'varK must be positive but varK = {varK}'
+        assert varK > 0, f'varK must be positive but varK = {varK}'
             
         assert np.sum(np.isnan(theta)) == 0, f'There are nan values theta = {theta}'
         
@@ -217,6 +214,9 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             
         Kern_w_noise = Kern + np.diag(noise_vec / varK) 
         
+        if b_normlz_w_varK:
+            varK = 1.0 # Kcov is normalized with varK
+        
         if self.wellcond_mtd == 'precon':
             
             assert self.use_grad is True, 'self.wellcond_mtd should be base if use_grad is False'
-- 
2.43.0


From fdd8cc20965c9bf2daa678d442f241436a73b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 15/30] fix: log transformation of the condition number
 gradient when the Cholesky factorization fails

---
 gpgradpy/src/optz/CalcLkd.py |  8 ++++----
 gpgradpy/src/optz/OptzLkd.py | 19 +++++++++----------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/gpgradpy/src/optz/CalcLkd.py b/gpgradpy/src/optz/CalcLkd.py
index 8887f73..fcbf7fb 100644
--- a/gpgradpy/src/optz/CalcLkd.py
+++ b/gpgradpy/src/optz/CalcLkd.py
@@ -314,10 +314,10 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                 lkd_info        = self.calc_lkd_all_w_noise(hp_vals.theta, Kcov_chofac, 
                                                             Kcov_grad_hp, lkd_use_adj_mtd = lkd_use_adj_mtd)
             
-            if calc_cond and calc_grad:
-                lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
-            else:
-                lkd_info.cond = cond_K
+                if calc_cond and calc_grad:
+                    lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
+                else:
+                    lkd_info.cond = cond_K
         else:
             Kern, _, Kern_w_eta, Kern_chofac, cond_K, etaK, idx_etaK_argmax \
                 = self.calc_Kern_w_chofac(Rtensor, hp_vals, calc_cond = calc_cond)
diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 56c5406..7bb82b2 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -57,24 +57,23 @@ class OptzLkd(CalcLkd):
             cond_val  = lkd_info.cond
             cond_grad = lkd_info.cond_grad
             
+            # Adjust gradients for terms being optimized with respect to their log values
+            bvec           = self.hp_info_optz_lkd.bvec_log_optz
+            transformation = 10**hp_vec[bvec] * np.log(10)
+            
+            if cond_grad is not None:
+                cond_grad[bvec] *= transformation
+            
             if b_chofac_good:
                 ln_lkd_val  = lkd_info.ln_lkd 
                 ln_lkd_grad = lkd_info.ln_lkd_grad
                 
-                # Adjust gradients for terms being optimized with respect to their log values
-                if calc_grad:
-                    bvec            = self.hp_info_optz_lkd.bvec_log_optz
-                    log_hp          = hp_vec[bvec]
-                    transformation  = 10**log_hp * np.log(10)
-                    
+                if ln_lkd_grad is not None:
                     ln_lkd_grad[bvec] *= transformation
-                
-                    if self.b_use_cond_cstr:
-                        cond_grad[bvec] *= transformation
             else:
                 # If the Cholesky decomposition fails use the condition number as the obj
                 ln_lkd_val  = -cond_val
-                ln_lkd_grad = -cond_grad
+                ln_lkd_grad = None if (cond_grad is None) else -cond_grad
                 
             # Store values
             self._lkd_val   = ln_lkd_val
-- 
2.43.0


From c6f34a5debd3f8bc9ac9fb35c4ad81ee9bd6c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 16/30] fix: optz_max_init_cond was always nan

---
 gpgradpy/src/optz/OptzLkd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 7bb82b2..27bbc96 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -253,7 +253,7 @@ class OptzLkd(CalcLkd):
             
             if self.b_use_cond_cstr:
                 lkd_val, _, cond_val, = self.calc_store_likelihood(x0_i)[:3]
-                optz_max_init_cond    = np.max((optz_max_init_cond, cond_val))
+                optz_max_init_cond    = np.fmax(optz_max_init_cond, cond_val)
                 if np.isnan(lkd_val):        optz_n_cho_fail += 1
                 if cond_val > self.cond_max: optz_n_cond2big += 1
             
-- 
2.43.0


From 9572501dcb4927aa08930ec29adb27dffcaa3b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 17/30] fix: rescaling method: data was not rescaled between
 the hyperparameter optimizations and their theta was discarded

---
 gpgradpy/src/optz/OptzLkd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 27bbc96..4b142df 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -161,10 +161,14 @@ class OptzLkd(CalcLkd):
                 if (cnt == (max_iter - 1)) or (est_dist2sol < self.cond_vreq_iter_tol):
                     not_done = False
                 else:
+                    # Rescale the data prior to doing another optimization
+                    self.DataScl.set_xscale_data(xvec_scale_in = xvec_scale_new)
+                    
                     x0_hp_vec = np.copy(best_hp)
                     x0_hp_vec[self.hp_info_optz_lkd.idx_theta] = theta_new_xo
                     
                     best_hp,cond_val = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)[:2]
+                    theta_new_xo     = best_hp[self.hp_info_optz_lkd.idx_theta]
                 
                 cnt += 1
                 
-- 
2.43.0


From d877bdcf6a51926a434db2af8247f1bdd50f03da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 18/30] fix: rescale_eta_vary: iterations on the scaling did
 not keep the set minimum distance

---
 gpgradpy/src/base/GpWellCond.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpWellCond.py b/gpgradpy/src/base/GpWellCond.py
index 1d57e25..b7866ab 100644
--- a/gpgradpy/src/base/GpWellCond.py
+++ b/gpgradpy/src/base/GpWellCond.py
@@ -54,7 +54,10 @@ class GpWellCondVreq:
             theta_sol     = hp_theta
             log_theta_sol = np.log10(hp_theta)
             
-        vreq = self.calc_mtd_rescale_origin_vreq(n_eval, self.dim)
+        if self.wellcond_mtd == 'rescale_eta_vary':
+            vreq = self.vmin_rescale_eta_vary
+        else:
+            vreq = self.calc_mtd_rescale_origin_vreq(n_eval, self.dim)
         
         theta_star_v1   = 10**np.mean(log_theta_sol)
         
-- 
2.43.0


From 446b7b404d3cc387362d5ea4e4c69db23036015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 19/30] fix: stored hyperparameters were used with a scaling of
 the data other than the one they are for

---
 gpgradpy/src/base/GpHpara.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 32d3c7e..47192b5 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -53,6 +53,13 @@ class GpHpara:
         
         self.hp_vals = hp_vals
         
+        # The stored theta is for the data with the scaling at iteration i_optz
+        if self.b_use_data_scl:
+            xvec_scale = self.xvec_rescaling_all[i_optz,:]
+            
+            if not np.array_equal(xvec_scale, self.DataScl.xvec_scale):
+                self.DataScl.set_xscale_data(xvec_scale_in = xvec_scale)
+        
     def hp_vec2dataclass(self, hp_optz_info, hp_vec):
         '''
         Parameters
-- 
2.43.0


From 1e1ce6a926fe7ef1b38a4ce8d232aa2720acd2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 20/30] fix: Frobenius condition number of a covariance matrix
 with varK smaller than one

---
 gpgradpy/src/optz/GpHparaCon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaCon.py b/gpgradpy/src/optz/GpHparaCon.py
index 9457df9..a562b07 100644
--- a/gpgradpy/src/optz/GpHparaCon.py
+++ b/gpgradpy/src/optz/GpHparaCon.py
@@ -235,7 +235,7 @@ class GpHparaCon:
         return cond, cond_grad
     
     def calc_cond_fronorm_w_grad(self, Kmat_w_eta, Kmat_chofac, Kmat_grad_hp = None):
-        assert Kmat_w_eta[0,0] > 1, 'Kmat_w_eta should have diagonal entries greater than 1 since it contains the nugget and noise'
+        assert Kmat_w_eta[0,0] > 0, 'Kmat_w_eta should have positive diagonal entries'
         
         n     = Kmat_w_eta.shape[0]
         K_inv = cho_solve(Kmat_chofac, np.eye(n))
-- 
2.43.0


From fff05c0b26a6f0489c26ef297d55dd2e9374124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 21/30] fix: default paths and methods to save the surrogate
 data did not exist

---
 gpgradpy/src/base/GpInfo.py    | 13 ++++++++++++-
 gpgradpy/src/base/GpParaDef.py | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index b5000fe..2f60c2d 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -6,6 +6,7 @@ Created on Sun Jun  6 09:48:36 2021
 @author: andremarchildon
 """
 
+import os
 import numpy as np
 from tabulate import tabulate
 
@@ -31,9 +32,19 @@ class GpInfo:
             print(data2print)
 
         if save2file:
-            self.save_txt_data(data2print, self.path_data_surr_txt, self.path_data_surr_old_txt)
+            self.save_txt_data(data2print, self.path_surr_txt, self.path_surr_old_txt)
 
         return data2print
+    
+    @staticmethod
+    def save_txt_data(data2print, file2save, file2save_old):
+        
+        # Keep the previous file as a backup
+        if os.path.isfile(file2save):
+            os.replace(file2save, file2save_old)
+        
+        with open(file2save, 'w') as file:
+            file.write(data2print)
 
     def info_surr_all_data(self, print2screen=True):
         
diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index 9e09b6e..b49e57a 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -117,7 +117,7 @@ class GpParaDef:
         assert self._save_data, 'If the method init_optz_surr has not been called, then load_data_surr cannot be used'
         
         if all_data is None: 
-            file2load = self.path_data_acq_npz
+            file2load = self.path_surr_npz
             
             if not os.path.isfile(file2load): return 
             
@@ -209,12 +209,21 @@ class GpParaDef:
                      }
 
         if save2file:
-            if file2save     is None: file2save     = self.path_data_surr_npz
-            if file2save_old is None: file2save_old = self.path_data_surr_old_npz
+            if file2save     is None: file2save     = self.path_surr_npz
+            if file2save_old is None: file2save_old = self.path_surr_old_npz
             
             self.save_npz_data(data2save, file2save, file2save_old)
                 
         return data2save
+    
+    @staticmethod
+    def save_npz_data(data2save, file2save, file2save_old):
+        
+        # Keep the previous file as a backup
+        if os.path.isfile(file2save):
+            os.replace(file2save, file2save_old)
+        
+        np.savez(file2save, **data2save)
 
     def store_new_para_surr(self, i_optz, hp_vals, 
                             surr_optz_info = None,   cond_val    = np.nan, 
-- 
2.43.0


From 87caec07769ec5284b6f94d2e06229dfeacd7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 22/30] fix: calc_model_mean_w_data_scl called the kernel and
 the mean function with the wrong arguments

---
 gpgradpy/src/eval/GpEvalModel.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index dc738d4..de6632e 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -399,16 +399,20 @@ class GpEvalModel(GpMeanFun):
                                    xeval_scl, fval_scl, grad_scl = None, 
                                    theta = None, calc_grad = True): 
         
-        Kgrad_xy = self.calc_KernGrad(x2model_scl, xeval_scl, theta)
+        if theta is None:
+            theta = self.hp_vals.theta
+        
+        Rtensor  = self.calc_Rtensor(x2model_scl, xeval_scl, 1)
+        Kgrad_xy = self.calc_KernGrad(Rtensor, theta, self.hp_vals.kernel)
         
         ny = fval_scl.size
         nx = int(Kgrad_xy.shape[0] / (self.dim + 1))
 
-        mean_fval, mean_fgrad = self.eval_mean_fun(xeval_scl, hp_beta, self.use_grad)[:2]
+        mean_fval, mean_fgrad = self.eval_mean_fun(xeval_scl, hp_beta, calc_grad = self.use_grad)[:2]
         mean_fun_vec          = self.make_data_vec(mean_fval, mean_fgrad)
         
         x2model_base_mu_val, x2model_base_mu_grad \
-            = self.eval_mean_fun(x2model_scl, hp_beta, calc_grad)[:2]
+            = self.eval_mean_fun(x2model_scl, hp_beta, calc_grad = calc_grad)[:2]
         
         if self.use_grad:
             assert grad_scl is not None, 'grad_scl should not be None when use_grad is True'
-- 
2.43.0


From 3a56cd400713f2900f3fd822f40a288028e333f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 23/30] fix: gradient-enhanced GP for which no gradient is used
 (empty std_grad) could not be set up

---
 gpgradpy/src/GaussianProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 1a41609..e8dd375 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -315,7 +315,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             self.b_fgrad_zero       = True
         elif self.known_eps_fgrad:
             self.b_optz_var_fgrad   = False 
-            self.b_fgrad_zero       = True if (np.max(std_grad) < 1e-10) else False
+            self.b_fgrad_zero       = True if np.all(std_grad < 1e-10) else False
         else:
             self.b_optz_var_fgrad   = True 
             self.b_fgrad_zero       = False
-- 
2.43.0


From 22d3a0b022e1e3e62eaa11a76c4882de4ff891ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 24/30] fix: derivative of the nugget was missing when the
 nugget depends on the hyperparameters (rescale_eta_vary)

---
 gpgradpy/src/optz/GpHparaGrad.py | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaGrad.py b/gpgradpy/src/optz/GpHparaGrad.py
index 623572d..86ba6e6 100644
--- a/gpgradpy/src/optz/GpHparaGrad.py
+++ b/gpgradpy/src/optz/GpHparaGrad.py
@@ -53,8 +53,32 @@ class GpHparaGrad:
             KernGrad_hp[hp_optz_info.idx_kernel,:,:] \
                 = self.calc_Kern_grad_alpha(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad)
 
+        if self.b_etaK_varies():
+            Kern         = self.calc_Kern(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad, self.bvec_use_grad)
+            KernGrad_hp += self.calc_etaK_w_grad(Kern, KernGrad_hp)[1][:,None,None] * np.eye(self.n_data)
+
         return KernGrad_hp
 
+    def b_etaK_varies(self):
+        # True if the nugget depends on the hyperparameters
+        return (self.cond_eta_is_const is False) and (self.wellcond_mtd != 'precon')
+
+    def calc_etaK_w_grad(self, Kern, Kern_grad_hp = None):
+        '''
+        Nugget when it depends on the maximum sum of the rows of abs(Kern)
+        and its derivative with respect to the hyperparameters.
+        '''
+        
+        idx  = np.argmax(np.sum(np.abs(Kern), axis=1))
+        etaK = np.sum(np.abs(Kern[idx,:])) / (self.cond_max_target - 1)
+        
+        if Kern_grad_hp is None:
+            etaK_grad = None
+        else:
+            etaK_grad = (Kern_grad_hp[:,idx,:] @ np.sign(Kern[idx,:])) / (self.cond_max_target - 1)
+        
+        return etaK, etaK_grad
+
     def calc_Kcov_grad_hp(self, hp_optz_info, hp_vals, Kern, Rtensor):
         '''
         Parameters
@@ -107,6 +131,10 @@ class GpHparaGrad:
             for i in range(self.dim):
                 diag_Kcov_grad_th_i = np.diag(Kcov_grad_th[i])
                 Kcov_grad_th[i]    += np.diag(diag_Kcov_grad_th_i) * eta
+        
+        elif self.b_etaK_varies():
+            Kern          = self.calc_Kern(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad, self.bvec_use_grad)
+            Kcov_grad_th += self.calc_etaK_w_grad(Kern, Kcov_grad_th)[1][:,None,None] * np.eye(self.n_data)
             
         return Kcov_grad_th
 
@@ -123,11 +151,15 @@ class GpHparaGrad:
                 diag_Kcov_grad_alpha_i = np.diag(Kcov_grad_alpha[i])
                 Kcov_grad_alpha[i]    += np.diag(diag_Kcov_grad_alpha_i) * eta
         
+        elif self.b_etaK_varies():
+            Kern             = self.calc_Kern(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad, self.bvec_use_grad)
+            Kcov_grad_alpha += self.calc_etaK_w_grad(Kern, Kcov_grad_alpha)[1][:,None,None] * np.eye(self.n_data)
+        
         return Kcov_grad_alpha
 
     def calc_Kcov_grad_varK(self, hp_vals, Kern):
         
-        eta = self._etaK
+        eta = self.calc_etaK_w_grad(Kern)[0] if self.b_etaK_varies() else self._etaK
         
         if self.wellcond_mtd == 'precon':
             Kcov_der_varK = Kern + eta * np.diag(np.diag(Kern))
-- 
2.43.0


From 626329756bbf8b0c3a484aabcebef9837d2b8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 25/30] fix: condition number of the rescaling methods was not
 the one of the selected hyperparameters and scaling

---
 gpgradpy/src/optz/OptzLkd.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 4b142df..87ae6d8 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -180,6 +180,9 @@ class OptzLkd(CalcLkd):
             
             best_hp_final = np.copy(best_hp)
             best_hp_final[self.hp_info_optz_lkd.idx_theta] = theta_final
+            
+            # The hyperparameters and the scaling are not the ones of the last optimization
+            cond_val = self.calc_cond_hp_vec(best_hp_final)
         else:
             best_hp_final = best_hp
         
@@ -325,12 +328,18 @@ class OptzLkd(CalcLkd):
         
         ''' Calculate the final condition number '''
         
+        cond_val = self.calc_cond_hp_vec(best_hp)
+        
+        return best_hp, cond_val, surr_optz_info
+
+    def calc_cond_hp_vec(self, hp_vec):
+        
         x_scl, Rtensor = self.get_scl_x_w_dist()
-        best_hp_vals = self.hp_vec2dataclass(self.hp_info_optz_lkd, best_hp)
+        best_hp_vals = self.hp_vec2dataclass(self.hp_info_optz_lkd, hp_vec)
         
         if self.b_has_noisy_data:
             cond_val = self.calc_all_K_w_chofac(Rtensor, best_hp_vals, calc_chofac = False, calc_cond = True)[4]
         else:
             cond_val = self.calc_Kern_w_chofac(Rtensor, best_hp_vals, calc_chofac = False, calc_cond = True)[4]
         
-        return best_hp, cond_val, surr_optz_info
+        return cond_val
-- 
2.43.0


From 22af5f0c50a94ca18eedc4f3ac2eecf717c4bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 26/30] fix: hyperparameters could not be optimized when no
 previous hyperparameters are stored

---
 gpgradpy/src/optz/GpHparaX0.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 4562043..83b9a43 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -73,6 +73,14 @@ class GpHparaX0:
         lhs_factor = self.hp_lhs_bound_factor
         box_factor = self.hp_box_bound_factor
         
+        def calc_median(hp_name, hp_init):
+            
+            # The initial hyperparameters are used if there is no previous optimization
+            if (idx_max == 0) or (self._save_data is False):
+                return hp_init
+            else:
+                return np.median(getattr(self, hp_name)[idx_min:idx_max], axis=0)
+        
         ''' Get lb and ub for LHS and box constraints '''
         
         n_hp = hp_optz_info.n_hp
@@ -85,7 +93,7 @@ class GpHparaX0:
         box_ub       = np.full(n_hp, np.nan)
         
         if hp_optz_info.has_theta:
-            para_med = np.median(self.hp_theta_all[idx_min:idx_max, :], axis=0)
+            para_med = calc_median('hp_theta_all', self.hp_theta_init * np.ones(self.dim))
             para_med = np.maximum(para_med, self.hp_theta_range[0])
             para_med = np.minimum(para_med, self.hp_theta_range[1])
             
@@ -98,7 +106,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_theta] = np.minimum(para_med * box_factor, self.hp_theta_range[1])
         
         if hp_optz_info.has_kernel:
-            para_med = np.median(self.hp_kernel_all[idx_min:idx_max])
+            para_med = calc_median('hp_kernel_all', self.hp_kernel_default)
             para_med = np.max((para_med, self.hp_kernel_range[0]))
             para_med = np.min((para_med, self.hp_kernel_range[1]))
             
@@ -111,7 +119,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_kernel] = np.min((para_med * box_factor, self.hp_kernel_range[1]))
         
         if hp_optz_info.has_varK:
-            para_med = np.median(self.hp_varK_all[idx_min:idx_max])
+            para_med = calc_median('hp_varK_all', self.hp_varK_init)
             para_med = np.max((para_med, self.hp_varK_range[0]))
             para_med = np.min((para_med, self.hp_varK_range[1]))
             
@@ -124,7 +132,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_varK] = np.min((para_med * box_factor, self.hp_varK_range[1]))
             
         if hp_optz_info.has_var_fval:
-            para_med = np.max((self.hp_var_fval_range[0], np.median(self.hp_var_fval_all[idx_min:idx_max])))
+            para_med = np.max((self.hp_var_fval_range[0], calc_median('hp_var_fval_all', self.hp_var_fval_init)))
             para_med = np.max((para_med, self.hp_var_fval_range[0]))
             para_med = np.min((para_med, self.hp_var_fval_range[1]))
             
@@ -137,7 +145,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_var_fval] = np.min((para_med * box_factor, self.hp_var_fval_range[1]))
             
         if hp_optz_info.has_var_fgrad:
-            para_med = np.max((self.hp_var_fgrad_range[0], np.median(self.hp_var_fgrad_all[idx_min:idx_max])))
+            para_med = np.max((self.hp_var_fgrad_range[0], calc_median('hp_var_fgrad_all', self.hp_var_fgrad_init)))
             para_med = np.max((para_med, self.hp_var_fgrad_range[0]))
             para_med = np.min((para_med, self.hp_var_fgrad_range[1]))
             
-- 
2.43.0


From 206926a681353909f2bfe2fde25f972699ad5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 27/30] fix: refuse points whose number or dimension does not
 match the function values

---
 gpgradpy/src/GaussianProcess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index e8dd375..b947276 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -264,7 +264,8 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         fval = np.atleast_1d(fval).ravel()
         
         assert x_eval.ndim == 2, f'x_eval must be a 2 array but x_eval.ndim = {x_eval.ndim}'
-        assert n_eval == fval.size, 'No. of points do not match with x_eval and fval'
+        assert x_eval.shape == (n_eval, self.dim), \
+            f'Shape of x_eval is {x_eval.shape} but it should be ({n_eval}, {self.dim})'
         
         if (std_fval is None) or np.any(np.isnan(std_fval)):
             self.known_eps_fval = False
-- 
2.43.0


From e019ee4349d2d46a15626d9add6df8874cf4cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 28/30] fix: constrain the condition number by the cond_max in
 use rather than the one at construction

---
 gpgradpy/src/GaussianProcess.py | 8 ++++++--
 gpgradpy/src/optz/OptzLkd.py    | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index b947276..0683792 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -208,14 +208,18 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             self.b_use_cond_cstr = False
         else:
             self.b_use_cond_cstr = True
-            self.condnum_nlc = NonlinearConstraint(self.return_cond_val, -np.inf, self.cond_max,
-                                                   jac = self.return_cond_grad)
+            self.set_condnum_nlc()
             
         if ('rescale' in self.wellcond_mtd) or ('dflt_v' in self.wellcond_mtd):
             self.b_use_data_scl = True
         else:
             self.b_use_data_scl = False
         
+    def set_condnum_nlc(self):
+        
+        self.condnum_nlc = NonlinearConstraint(self.return_cond_val, -np.inf, self.cond_max,
+                                               jac = self.return_cond_grad)
+        
     def set_data(self, x_eval, fval, std_fval, 
                  grad = None, std_grad = None, bvec_use_grad = None):
         '''
diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 87ae6d8..1796542 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -248,7 +248,11 @@ class OptzLkd(CalcLkd):
         optz_max_init_cond = np.nan
         
         # Set the nonlinear constraints, if any
-        nlc_method = self.condnum_nlc if self.b_use_cond_cstr else []
+        if self.b_use_cond_cstr:
+            self.set_condnum_nlc() # cond_max may have changed since the constraint was last set
+            nlc_method = self.condnum_nlc
+        else:
+            nlc_method = []
 
         ''' Run optimizer '''
         
-- 
2.43.0


From 8fd30aa10568b5a6af5b6d28cdb061d432deaf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 29/30] fix: start from the best conditioned candidate also
 when some have no Cholesky factor

---
 gpgradpy/src/optz/GpHparaX0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 83b9a43..79605d8 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -48,7 +48,7 @@ class GpHparaX0:
                 bvec_cond_no_good = cond_all > (1.2*self.cond_max)
                 
                 # Esure theere is at least one valid initial solution
-                if np.sum(bvec_cond_no_good) == bvec_cond_no_good.size:
+                if np.sum(bvec_cond_no_good) == np.sum(~np.isnan(cond_all)):
                     idx = np.nanargmin(cond_all) 
                     bvec_cond_no_good[idx] = False
                 
-- 
2.43.0


From 054f07eb7171bc02d25c1f610d24a160c3ef2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 30/30] fix: count the starting points without a Cholesky
 factor

---
 gpgradpy/src/optz/OptzLkd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 1796542..7818cd2 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -76,6 +76,8 @@ class OptzLkd(CalcLkd):
                 ln_lkd_grad = None if (cond_grad is None) else -cond_grad
                 
             # Store values
+            self._b_chofac_good = b_chofac_good
+            
             self._lkd_val   = ln_lkd_val
             self._lkd_grad  = ln_lkd_grad
             
@@ -263,9 +265,9 @@ class OptzLkd(CalcLkd):
             ''' Calculate parameters related to the condition number '''
             
             if self.b_use_cond_cstr:
-                lkd_val, _, cond_val, = self.calc_store_likelihood(x0_i)[:3]
+                cond_val              = self.calc_store_likelihood(x0_i)[2]
                 optz_max_init_cond    = np.fmax(optz_max_init_cond, cond_val)
-                if np.isnan(lkd_val):        optz_n_cho_fail += 1
+                if not self._b_chofac_good:  optz_n_cho_fail += 1
                 if cond_val > self.cond_max: optz_n_cond2big += 1
             
             ''' Optimization '''
-- 
2.43.0


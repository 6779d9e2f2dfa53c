From c03e599fbf8960a258bec0ef1631bd538337928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 01/85] fix: sum the coupling term over modes in the blocked
 Cholesky decomposition

_compute_eri_chunk kept the mode index of sum_n g_n,ij g_n,kl, so chols_blocked
raised (or broadcast wrongly) as soon as more than one coupling matrix is given.
---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 899920f..12cd635 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -577,7 +577,7 @@ def _compute_eri_chunk(mol, nao, sj, sl, indices4bas, j, l, delta_max, g=None):
 
     if g is not None:
         # Add the modified term \sum_n g_{n,ij} g_{n,kl} dynamically
-        mod_chunk = numpy.einsum("n,njk->njk", g[:, j, l], g)
+        mod_chunk = numpy.einsum("n,njk->jk", g[:, j, l], g)
         eri_chunk += mod_chunk.reshape(nao * nao)
 
     return eri_chunk / numpy.sqrt(delta_max)
-- 
2.43.0


From 12b8bc52843763e15e9c9593e750a5b2eb919a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 02/85] fix: advance the mode offset in the electron-boson
 local energy

---
 openms/qmc/estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 5a58a9f..948edb8 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -675,6 +675,7 @@ def local_eng_eboson(omega, nboson_states, geb, Gfermions, Gboson):
         a = backend.diag(backend.sqrt(backend.arange(1, mdim)), k=1)
         h_od = a + a.T
         Hb[:, idx:idx+mdim, idx:idx+mdim] += h_od[None, :, :] * zalpha[:, imode][:, None, None]
+        idx += mdim
     eg = backend.einsum("zNM,zNM->z", Hb, Gboson)
     return eg
 
-- 
2.43.0


From c1decd4bf6129dd54e4e0059f805650f922d8a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:09 +0000
Subject: [PATCH 03/85] fix: keep the phase of the hybrid energy when its real
 part is bounded

---
 openms/qmc/propagators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 01f7e8c..9e8f829 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -792,7 +792,7 @@ class Phaseless(PropagatorBase):
         # the hybrid energy scheme
         if self.energy_scheme == "hybrid":
             ehybrid = -(backend.log(ovlp_ratio) + cfb + cmf) / self.dt
-            ehybrid = backend.clip(
+            backend.clip(
                 ehybrid.real,
                 a_min=eshift.real - self.ebound,
                 a_max=eshift.real + self.ebound,
-- 
2.43.0


From 9beb7c348c0c008438284284d7c3a6535f147aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:09 +0000
Subject: [PATCH 04/85] fix: rescale the force bias to the requested bound

---
 openms/qmc/propagators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 9e8f829..04daa0b 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -524,7 +524,7 @@ class Phaseless(PropagatorBase):
 
         # Rescale only non-zero elements
         f_rescaled = fbias.copy()
-        f_rescaled[nonzeros] /= absf[nonzeros]
+        f_rescaled[nonzeros] *= self.bias_bound / absf[nonzeros]
 
         # Apply the rescaling to elements exceeding the max bound
         fbias = backend.where(idx_to_rescale, f_rescaled, fbias)
-- 
2.43.0


From 88863d4c79b258e4699a5eb0a221016af404da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:09 +0000
Subject: [PATCH 05/85] fix: do not share the default walker options between
 runs

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index daa5471..5c9fdb0 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -355,7 +355,7 @@ class QMCbase(object):
             "quantizaiton": "second",
         }
 
-        self.walker_options = gwalker.default_walker_options
+        self.walker_options = dict(gwalker.default_walker_options)
         tmp_walker_options = kwargs.get("walker_options", None)
         # print("tmp_walker_options = ", tmp_walker_options)
         if tmp_walker_options is not None:
-- 
2.43.0


From 5db57188f1737cf5db0926138c0ba0c90c2c7560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:47 +0000
Subject: [PATCH 06/85] fix: keep the phases of the bosonic walkers when they
 are normalised

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 5c9fdb0..10c0b8c 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -736,7 +736,7 @@ class QMCbase(object):
             ortho_walkers = backend.zeros_like(self.walkers.boson_phiw)
             norms = backend.einsum('ij,ij->i', self.walkers.boson_phiw, self.walkers.boson_phiw.conj())
             norms = backend.sqrt(norms)
-            self.walkers.boson_phiw = backend.abs(self.walkers.boson_phiw / norms[:, None])
+            self.walkers.boson_phiw = self.walkers.boson_phiw / norms[:, None]
             # for iw in range(self.walkers.boson_phiw.shape[0]):
             #    ortho_walkers[iw] = backend.linalg.qr(self.walkers.boson_phiw[iw])[0]
             # self.walkers.boson_phiw = ortho_walkers
-- 
2.43.0


From 784328f9e96bc35bde4785e9a8b6a15126b1db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:47 +0000
Subject: [PATCH 07/85] fix: resample the walkers' energies together with the
 walkers

---
 openms/qmc/population_control.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/population_control.py b/openms/qmc/population_control.py
index ce6276d..356febb 100644
--- a/openms/qmc/population_control.py
+++ b/openms/qmc/population_control.py
@@ -499,11 +499,16 @@ def population_control_factory(walkers, method="branching"):
         # print(f"Sum(weights) before control: {backend.sum(walkers.weights):.3f}")
 
         # pack the walker WF (phiwa, phib, boson_phiw) in one list
-        packed_walkers = walkers._pack_walkers()
+        # together with the index of the walker
+        packed_walkers = list(enumerate(walkers._pack_walkers()))
         new_walkers, weights = control_func(packed_walkers, walkers.weights)
 
         # updte walker WF and weights
-        walkers._unpack_walkers(new_walkers)
+        indices = [idx for idx, _ in new_walkers]
+        walkers._unpack_walkers([walker for _, walker in new_walkers])
+        # the energies used in the next weight update belong to the walkers
+        walkers.ehybrid = walkers.ehybrid[indices]
+        walkers.eloc = walkers.eloc[indices]
         walkers.weights = weights
 
         # if MPI, we need to do inter-node redistribution
-- 
2.43.0


From 59310d6c8ae434ae60c137d2039e69c28944de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:39 +0000
Subject: [PATCH 08/85] fix: take all occupied orbitals as the trial in the
 molecular-orbital basis

---
 openms/qmc/trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/trial.py b/openms/qmc/trial.py
index 662c19c..5727031 100644
--- a/openms/qmc/trial.py
+++ b/openms/qmc/trial.py
@@ -773,8 +773,8 @@ class TrialHF(TrialWFBase):
             tmp = backend.identity(nmo)[:, self.mf.mo_occ > 0]
             #self.psia = self.psib = tmp
             # psia and psib may have different size, when nalpha and nbeta are different
-            self.psia = tmp[:, self.nalpha]
-            self.psib = tmp[:, self.nbeta]
+            self.psia = tmp[:, : self.nalpha]
+            self.psib = tmp[:, : self.nbeta]
 
         # print("Debug: nelec  = ", self.mol.nelec)
         # print("Debug: mo_occ = ", self.mf.mo_occ)
-- 
2.43.0


From be3f129ce156376dbfccd2edb03984296dc043fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:41 +0000
Subject: [PATCH 09/85] fix: fill all eight permutations of a two-electron
 integral read from FCIDUMP

---
 openms/qmc/tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 12cd635..643e8e4 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -316,6 +316,11 @@ def read_fcidump(fname, norb):
                 eri[q - 1, p - 1, r - 1, s - 1] = integral
                 eri[p - 1, q - 1, s - 1, r - 1] = integral
                 eri[q - 1, p - 1, s - 1, r - 1] = integral
+                # and (pq|rs)=(rs|pq)
+                eri[r - 1, s - 1, p - 1, q - 1] = integral
+                eri[s - 1, r - 1, p - 1, q - 1] = integral
+                eri[r - 1, s - 1, q - 1, p - 1] = integral
+                eri[s - 1, r - 1, q - 1, p - 1] = integral
             elif p != 0:
                 h1e[p - 1, q - 1] = integral
                 h1e[q - 1, p - 1] = integral
-- 
2.43.0


From 8b52a902d177bcdc53388294d64c993a7f0c04c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:41 +0000
Subject: [PATCH 10/85] fix: analyse constant and anticorrelated energy series

---
 openms/qmc/tools.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 643e8e4..8b2e172 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -664,7 +664,10 @@ def autocorr_func(x, normalize=True):
     acf /= (4 * n)  # Normalization factor
 
     if normalize:
-        acf /= acf[0]  # Normalize to 1 at zero lag
+        if acf[0] > 0.0:
+            acf /= acf[0]  # Normalize to 1 at zero lag
+        else:
+            acf[0] = 1.0  # constant series
 
     return acf
 
@@ -746,6 +749,8 @@ def remove_outliers(data, method="zscore", threshold=10.0):
     if method == "zscore":
         mean = numpy.mean(data)
         std = numpy.std(data)
+        if std == 0.0:  # constant series
+            return data
         z_scores = numpy.abs((data - mean) / std)
         return data[z_scores < threshold]
 
@@ -821,7 +826,7 @@ def analysis_autocorr(y, name="etot", method="zscore", threshold=10.0, verbose=F
         for n, tautocorr in zip(reversed(Ndata), reversed(autocorr_times)):
             print(f"nsamples: {n}, autocorrelation time: {tautocorr}")
 
-    block_size = int(numpy.ceil(autocorr_times[0]))  # Use the estimate with the largest sample size
+    block_size = max(1, int(numpy.ceil(autocorr_times[0])))  # Use the estimate with the largest sample size
     nblocks = len(y_clean) // block_size
     yblocked = [numpy.mean(y_clean[i * block_size : (i + 1) * block_size]) for i in range(nblocks)]
 
-- 
2.43.0


From f5374caa8b466aac1977c7f313da2871aab784f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:41 +0000
Subject: [PATCH 11/85] fix: keep the phase of complex coherent-state
 amplitudes

---
 openms/qmc/trial_boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/trial_boson.py b/openms/qmc/trial_boson.py
index ea5e6b0..9ae3b1e 100644
--- a/openms/qmc/trial_boson.py
+++ b/openms/qmc/trial_boson.py
@@ -174,7 +174,7 @@ class TrivialFock(TrialBosonBase):
 
         print("Build trial in Fock space")
         count = 0
-        self.boson_psi = np.zeros(self.ndim)
+        self.boson_psi = np.zeros(self.ndim, dtype=np.result_type(float, *([] if alpha is None else [np.asarray(alpha)])))
         for n_vec in backend.ndindex(*(self.nfock, ) * self.nmodes):
             if alpha is not None:
                 # Compute coefficient using coherent state expansion
-- 
2.43.0


From ac15293eea25dd3a857eb78854521beeaabaf853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:56 +0000
Subject: [PATCH 12/85] fix: do not normalise the caller's cavity mode vectors
 in place

---
 openms/lib/boson.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 19c10f0..17301b2 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -647,6 +647,7 @@ class Boson(object):
         # as the gfac values, if coupling strengths were not provided
         else:
             m_cnsts = numpy.zeros(self.nmodes)
+            vec = numpy.array(vec, dtype=float) # the caller's vectors are left alone
             for a in range(self.nmodes):
                 cnst = m_cnsts[a] = numpy.sqrt(numpy.dot(vec[a], vec[a]))
                 if cnst > 1e-15: # Prevent division by zero
-- 
2.43.0


From d193a9ca3c49b72f609005a5daaf66926a5488ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:55 +0000
Subject: [PATCH 13/85] fix: differentiate the displacement amplitude between
 neighbouring photon states

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 17301b2..3c7b87d 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -926,7 +926,7 @@ class Boson(object):
 
             # Term 2: A^(m-n) derivative
             tmp2 = 0.0
-            if i_m - i_n > 1:
+            if i_m - i_n > 0:
                 tmp2 = - (i_m - i_n) * (-factor)**(i_m - i_n - 1) * LA
 
             # Term 3: Laguerre polynomial derivative
-- 
2.43.0


From 5fd2eea976efbe1d9c67a4a650c78f88e9e0487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:55 +0000
Subject: [PATCH 14/85] fix: apply the chain rule in the many-photon gradient
 with respect to eta

---
 openms/mqed/scqedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 4b5e6dc..ff2a7aa 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -868,7 +868,7 @@ class RHF(qedhf.RHF):
             ci = self.qed.boson_coeff[idx : idx + mdim, idx]
             pdm = numpy.outer(numpy.conj(ci), ci)
 
-            derivative = self.qed.displacement_deriv(imode, tmp * diff_eta, pdm)
+            derivative = tmp * self.qed.displacement_deriv(imode, tmp * diff_eta, pdm)
 
         # Apply vacuum derivative formula
         else:
-- 
2.43.0


From 9ce2ba52ab40c7fb0fcff07d18a5da1d8f3e231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:55 +0000
Subject: [PATCH 15/85] fix: keep the order of the factors of the Cholesky
 orthogonalisation

---
 openms/mqed/scqedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index ff2a7aa..4dc96ea 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -488,7 +488,7 @@ class RHF(qedhf.RHF):
                                          cholesky_threshold=CHOLESKY_THRESHOLD,
                                          force_pivoted_cholesky=FORCE_PIVOTED_CHOLESKY)
         s1e = self.get_ovlp(self.mol)
-        self.P, self.L = mathlib.full_cholesky_orth(s1e, threshold=1.e-7)
+        self.L, self.P = mathlib.full_cholesky_orth(s1e, threshold=1.e-7)
         self.n_oao = self.P.shape[1]
 
         return self
-- 
2.43.0


From 33096e34f3bd2db9dcc540d58d8eb5b3deaae267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:55 +0000
Subject: [PATCH 16/85] fix: build J and K directly when the integrals do not
 fit in memory

---
 openms/mqed/qedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 12abcb3..559079a 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -585,7 +585,7 @@ class RHF(hf.RHF):
                 self._eri = mol.intor("int2e", aosym="s8")
             vj, vk = hf.dot_eri_dm(self._eri, dm, hermi, with_j, with_k)
         else:
-            vj, vk = RHF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
+            vj, vk = hf.SCF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
 
         if self.qed.add_dse:
             vj_dse, vk_dse = self.get_dse_jk(dm)
-- 
2.43.0


From 0c4ae4f270b03976c2ad3f3192b87d7a4b6bc775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:55 +0000
Subject: [PATCH 17/85] fix: apply a requested level shift in QED-HF

---
 openms/mqed/qedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 559079a..f1a94e7 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -393,7 +393,7 @@ def get_fock(
         params = diis.update(s1e, dm, f, mf, h1e, vhf, var=variables, var_grad=gradients)
         f = mf.set_params(params, fock_shape=f.shape)
     if abs(level_shift_factor) > 1e-4:
-        f = level_shift(s1e, dm * 0.5, f, level_shift_factor) # TODO: will produce error if level_shift is used
+        f = hf.level_shift(s1e, dm * 0.5, f, level_shift_factor)
     return f
 
 
-- 
2.43.0


From d202670de1e3a28dedfa5c9918547f8a990ac1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:55 +0000
Subject: [PATCH 18/85] fix: scale the coupling of every mode by its own
 frequency

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 3c7b87d..fde2aa0 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -372,7 +372,7 @@ def get_integrals4fci(mol, cavity_freq, cavity_mode, lo_method='meta-lowdin', ch
 
     qed.get_gmatao()
     gmat = qed.gmat
-    gmat_bilinear = gmat * numpy.sqrt(cavity_freq/2.0)
+    gmat_bilinear = gmat * numpy.sqrt(numpy.asarray(cavity_freq)/2.0)[:, None, None]
     #gmat_bilinear = -gmat * numpy.sqrt(cavity_freq/2.0)
 
     enuc = mol.energy_nuc()
-- 
2.43.0


From 1a2c6ac6cb116da34d438f33ed87f11b4173f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:08 +0000
Subject: [PATCH 19/85] fix: accept a single frequency given as a number

---
 openms/lib/boson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index fde2aa0..6be67c1 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -580,8 +580,8 @@ class Boson(object):
         # Cavity modes and frequencies
         self.omega = self.nmodes = None
 
-        if isinstance(omega, list):
-            omega = numpy.asarray(omega, dtype=float)
+        if isinstance(omega, (list, float)):
+            omega = numpy.atleast_1d(numpy.asarray(omega, dtype=float))
 
         if not isinstance(omega, (float, numpy.ndarray)):
             err_msg = f"Parameter 'omega' is not float, " + \
-- 
2.43.0


From f2375d61b907b4a5ff247833069692d67d9c4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:41 +0000
Subject: [PATCH 20/85] fix: take up squeezing parameters when the
 transformation strength is fixed

---
 openms/mqed/vtqedhf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 90370b6..2476e61 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -578,7 +578,8 @@ class RHF(scqedhf.RHF):
             )
             self.qed.update_couplings()
 
-        fsize += varsize
+        if self.qed.optimize_varf:
+            fsize += varsize
         if params.size > fsize and self.qed.optimize_vsq:
             self.qed.squeezed_var = params[fsize :].reshape(
                 self.vsq_grad.shape
@@ -603,7 +604,8 @@ class RHF(scqedhf.RHF):
             )
             self.qed.update_couplings()
 
-        fsize += varsize
+        if self.qed.optimize_varf:
+            fsize += varsize
         if self.qed.optimize_vsq and params.size > fsize:
             self.qed.squeezed_var = params[fsize :].reshape(
                 self.vsq_grad.shape
-- 
2.43.0


From 5b0bf247d0e282851baafc9e1c7315d66757b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 21/85] fix: normalise the photon-number amplitudes of the
 electron-photon density

---
 openms/mqed/qedhf.py   | 12 +++++++-----
 openms/mqed/scqedhf.py | 18 +++++++++---------
 openms/mqed/vtqedhf.py | 19 +++++++++----------
 3 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index f1a94e7..6535ac2 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -832,18 +832,20 @@ class RHF(hf.RHF):
         rho_tot = numpy.zeros((nfock, nao, nfock, nao))
         for m in range(nfock):
             for n in range(nfock):
-                # <m | D(z_alpha) |0>
-                zalpha = self.qed.z_alpha[imode]
+                # <m | D(z) |0> with z = - z_alpha / sqrt(2 omega)
+                zalpha = -self.qed.z_alpha[imode] / numpy.sqrt(2.0 * self.qed.omega[imode])
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * zalpha ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
                 rho_tmp = rho * zm * zn
                 # back to AO
                 rho_tot[m, :, n, :] = rho_tmp
 
         rho_e = numpy.einsum("mpmq->pq", rho_tot)
-        rho_b = numpy.einsum("mpnp->mn", rho_tot) / numpy.trace(rho_e)
+        s1e = self.get_ovlp(self.mol)
+        rho_b = numpy.einsum("mpnq,pq->mn", rho_tot, s1e)
+        rho_b /= numpy.einsum("pq,pq->", rho, s1e)
 
         return rho_tot, rho_e, rho_b
 
diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 4dc96ea..4601357 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -1149,27 +1149,27 @@ class RHF(qedhf.RHF):
 
         # transform rho into dipole basis
         U = self.ao2dipole[imode]
-        Uinv = linalg.inv(U)
-        rho_DO = unitary_transform(U, rho)
+        rho_DO = self.get_dm_do(rho, U)
 
         rho_tot = numpy.zeros((nfock, nao, nfock, nao))
         for m in range(nfock):
             for n in range(nfock):
-                # <m | D(z_alpha) |0>
-                zalpha = self.qed.couplings_var[imode] * self.eta[imode]
-                zalpha /= self.qed.omega[imode]
+                # <m | D(z_alpha) |0>; eta contains the coupling strength already
+                zalpha = -self.eta[imode] / self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * (-zalpha) ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-                rho_tmp = unitary_transform(Uinv, rho_tmp)
+                rho_tmp = unitary_transform(U.T, rho_tmp)
                 rho_tot[m, :, n, :] = rho_tmp
 
         rho_e = numpy.einsum("mpmq->pq", rho_tot)
-        rho_b = numpy.einsum("mpnp->mn", rho_tot) / numpy.trace(rho)
+        s1e = self.get_ovlp(self.mol)
+        rho_b = numpy.einsum("mpnq,pq->mn", rho_tot, s1e)
+        rho_b /= numpy.einsum("pq,pq->", rho, s1e)
 
         return rho_tot, rho_e, rho_b
 
diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 2476e61..9165f75 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -646,30 +646,29 @@ class RHF(scqedhf.RHF):
         imode = 0
 
         U = self.ao2dipole[imode]
-        Uinv = linalg.inv(U)
         # transform into Dipole
-        rho_DO = scqedhf.unitary_transform(U, rho)
+        rho_DO = self.get_dm_do(rho, U)
 
         tau = numpy.exp(self.qed.squeezed_var[imode])
         rho_tot = numpy.zeros((nfock, nao, nfock, nao))
         for m in range(nfock):
             for n in range(nfock):
-                # <m | D(z_alpha) |0>
-                zalpha = tau * self.qed.couplings_var[imode] * self.eta[imode]
-                zalpha /= self.qed.omega[imode]
+                # <m | D(z_alpha) |0>; eta contains the coupling strength already
+                zalpha = -tau * self.eta[imode] / self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(math.factorial(m))
-                # zn = z0 * (-zalpha) ** n * numpy.sqrt(math.factorial(n))
-                zn = z0 * (zalpha) ** n * numpy.sqrt(math.factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(math.factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(math.factorial(n))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-                rho_tmp = scqedhf.unitary_transform(Uinv, rho_tmp)
+                rho_tmp = scqedhf.unitary_transform(U.T, rho_tmp)
                 rho_tot[m, :, n, :] = rho_tmp
 
         rho_e = numpy.einsum("mpmq->pq", rho_tot)
-        rho_b = numpy.einsum("mpnp->mn", rho_tot) / numpy.trace(rho_e)
+        s1e = self.get_ovlp(self.mol)
+        rho_b = numpy.einsum("mpnq,pq->mn", rho_tot, s1e)
+        rho_b /= numpy.einsum("pq,pq->", rho, s1e)
 
         return rho_tot, rho_e, rho_b
 
-- 
2.43.0


From ef36dcb0b287da81dee0164394e9258c2875d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 22/85] fix: undefined names in the one- and two-electron
 contractions of QED-FCI

---
 openms/mqed/qedfci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index cc1e913..05b329a 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -105,7 +105,7 @@ def contract_1e(h1e, fcivec, norb, nelec, nmode=0, boson_states=None):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
 
     ci0 = fcivec.reshape(cishape)
-    fcinew = np.zeros_like(ci0)
+    fcinew = numpy.zeros_like(ci0)
 
     # Alpha spin contraction
     for str0, tab in enumerate(link_indexa):
@@ -146,7 +146,7 @@ def contract_2e(eri, fcivec, norb, nelec, nmode, boson_states):
     if isinstance(eri, list):
         g2e_aa = ao2mo.restore(1, eri[0], norb)
         g2e_ab = ao2mo.restore(1, eri[1], norb)
-        g2e_bb = ao2mo.restore(1, eri[2], nsorb)
+        g2e_bb = ao2mo.restore(1, eri[2], norb)
 
         t2a = numpy.dot(g2e_aa.reshape(norb**2, -1), t1a.reshape(norb**2, -1))
         t2a += numpy.dot(g2e_ab.reshape(norb**2, -1), t1b.reshape(norb**2, -1))
-- 
2.43.0


From 6bd0c2001adb79aab5d933d30aad929ad3bc3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 23/85] fix: contract the boson Hamiltonian of several modes in
 QED-FCI

---
 openms/mqed/qedfci.py | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 05b329a..866f8fb 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -347,28 +347,12 @@ def contract_bb(Hbb, fcivec, norb, nelec, nmode, boson_states, zalpha=None):
     ci0 = fcivec.reshape(cishape)
     fcinew = numpy.zeros(cishape)
 
-    #
-    # w_x b^+_x b_x
-    for imode in range(nmode):
-        nboson = boson_states[imode]
-        boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
-        for i in range(1, nboson+1):
-            slices0 = slices_for(imode, nmode, i)
-            fcinew[slices0] += ci0[slices0] * (Hbb[imode] * i)
+    Hbb = numpy.asarray(Hbb)
+    if Hbb.ndim == 1:
+        Hbb = numpy.diag(Hbb)
 
-    # coherent state
-    if zalpha is not None:
-        for imode in range(nmode):
-            nboson = boson_states[imode]
-            boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
-            for i in range(nboson):
-                slices1 = slices_for_cre(imode, nmode, i)
-                slices0 = slices_for(imode, nmode, i)
-                tmp = zalpha[imode] * (boson_cre[i] * Hbb[imode])
-                fcinew[slices1] += tmp * ci0[slices0]
-                fcinew[slices0] += tmp * ci0[slices1]
-    """
-    t1 = numpy.zeros((norb,) + cishape)
+    # Hbb_xy b^+_x b_y
+    t1 = numpy.zeros((nmode,) + cishape)
     for imode in range(nmode):
         nboson = boson_states[imode]
         boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
@@ -386,7 +370,19 @@ def contract_bb(Hbb, fcivec, norb, nelec, nmode, boson_states, zalpha=None):
             slices1 = slices_for_cre(imode, nmode, i)
             slices0 = slices_for(imode, nmode, i)
             fcinew[slices1] += t1[(imode,) + slices0] * boson_cre[i]  # creation
-    """
+
+    # coherent state
+    if zalpha is not None:
+        wz = numpy.dot(Hbb, zalpha)
+        for imode in range(nmode):
+            nboson = boson_states[imode]
+            boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
+            for i in range(nboson):
+                slices1 = slices_for_cre(imode, nmode, i)
+                slices0 = slices_for(imode, nmode, i)
+                tmp = wz[imode] * boson_cre[i]
+                fcinew[slices1] += tmp * ci0[slices0]
+                fcinew[slices0] += tmp * ci0[slices1]
     return fcinew.reshape(fcivec.shape)
 
 
-- 
2.43.0


From 8dbfef6269596c99723890dece8b351fd5c63555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 24/85] fix: make the coherent-state representation of QED-FCI
 usable

---
 openms/mqed/qedfci.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 866f8fb..65b8b5e 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -251,7 +251,7 @@ def absorb_h1e(h1e, eri, norb, nelec, fac=1):
         h2e[:, :, k, k] += f1e
     return h2e * fac
 
-def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states):
+def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states, zalpha=None):
     r""" """
 
     # electronic part
@@ -279,7 +279,7 @@ def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states):
 
     # bosonic term
     # print("Debug-yz: contracting bosonic interaction part")
-    cout += contract_bb(Hbb, cin, norb, nelec, nmode, boson_states)
+    cout += contract_bb(Hbb, cin, norb, nelec, nmode, boson_states, zalpha)
     # print("Debug: c after contract_bb is ", cout)
     t4 = time.time()
 
@@ -666,19 +666,16 @@ def kernel(
         print ("FCI electronic : ", e0)
     if electron_only: return e0, 0.0, 0.0
 
+    zalpha = None
     if coherent_state:
         if nroots > 1:
             dm0 = direct_spin1.make_rdm1(c[0], norb, nelec)
         else:
             dm0 = direct_spin1.make_rdm1(c, norb, nelec)
         # TODO: modify the H1, H2, Heb, Hbb with coherent state representation
-        if Hbb.ndim == 1:
-            zalpha = - numpy.einsum('xpq, qp -> x', Heb, dm0, optimize=True) / Hpp
-            ecore = ecore + np.einsum("x, x ->", Hpp, zalpha**2)
-        else:
-            tmp = -numpy.einsum('xpq, qp -> x', Heb, dm0)
-            zalpha = la.solve(Hbb, tmp)
-            ecore = ecore + np.einsum("xy, x, y ->", Hbb, zalpha, zalpha, optimize=True)
+        tmp = -numpy.einsum('xpq, qp -> x', Heb, dm0)
+        zalpha = numpy.linalg.solve(Hbb, tmp)
+        ecore = ecore + numpy.einsum("xy, x, y ->", Hbb, zalpha, zalpha, optimize=True)
         H1 = H1 + numpy.einsum('xpq, x -> pq', Heb, zalpha * 2, optimize=True)
 
 
@@ -707,7 +704,7 @@ def kernel(
     H2mod =  absorb_h1e(H1, H2, norb, nelec, 0.5)
     print("Debug: norm of modified H2 =", numpy.linalg.norm(H2mod))
     def hop(c):
-        hc = contract_all(H1, H2mod, Heb, Hbb, c, norb, nelec, nmode, boson_states)
+        hc = contract_all(H1, H2mod, Heb, Hbb, c, norb, nelec, nmode, boson_states, zalpha)
         # hc = contract_all(H1, H2, Heb, Hbb, c, norb, nelec, nmode, boson_states)
         return hc.reshape(-1)
 
-- 
2.43.0


From d21dbd444ff12520b8758c72c46d9f77a5baf0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 25/85] fix: size the boson density matrix of QED-FCI by the
 number of modes

---
 openms/mqed/qedfci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 65b8b5e..10a1c5f 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -784,7 +784,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
     ci0 = fcivec.reshape(cishape)
 
-    t1 = numpy.zeros((norb,) + cishape)
+    t1 = numpy.zeros((nmode,) + cishape)
     for imode in range(nmode):
         nboson = boson_states[imode]
         boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
@@ -793,7 +793,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
             slices0 = slices_for(imode, nmode, i)
             t1[(imode,) + slices0] += ci0[slices1] * boson_cre[i]
 
-    rdm1 = lib.dot(t1.reshape(nsite, -1), t1.reshape(nsite, -1).T)
+    rdm1 = lib.dot(t1.reshape(nmode, -1), t1.reshape(nmode, -1).T)
     return rdm1
 
 
-- 
2.43.0


From c3c72182452e8f3682096e636d89f92b4ecfabdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 26/85] fix: transform the initial density of get_integrals4fci
 with the overlap of the basis

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 6be67c1..5121740 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -391,11 +391,11 @@ def get_integrals4fci(mol, cavity_freq, cavity_mode, lo_method='meta-lowdin', ch
     # transform into orthogonal basis
     #
 
+    SC = ovlp.dot(C)
     hcore = transform_ao2mo(hcore, C)
     ovlp = transform_ao2mo(ovlp, C)
     eri = ao2mo.kernel(eri, C)
     Hep = numpy.einsum("Xpq, pm, qn -> Xmn", gmat_bilinear, C, C, optimize=True)
-    SC = ovlp.dot(C)
     dm0 = transform_ao2mo(dm0, SC)
 
     # add DSE into eri
-- 
2.43.0


From d267ac7df582c9ab75d18b216ab3f680440ef799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:01 +0000
Subject: [PATCH 27/85] fix: use the selected array backend in the aggregate
 model

---
 openms/models/aggregates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/models/aggregates.py b/openms/models/aggregates.py
index 4acaf56..2393339 100644
--- a/openms/models/aggregates.py
+++ b/openms/models/aggregates.py
@@ -18,7 +18,7 @@ r"""
 Disordered molecular aggregates.
 """
 
-import openms.lib.backend as bd
+from openms.lib.backend import backend as bd
 import numpy as np  # replace np as bd (TODO)
 import random
 
-- 
2.43.0


From 085bc1af78e3a649e27ba75d2bde4242aac0bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:01 +0000
Subject: [PATCH 28/85] fix: include the repulsion in the symmetric mean-field
 orbitals of the Hubbard-Holstein model

---
 openms/models/hh_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/models/hh_model.py b/openms/models/hh_model.py
index cf5d487..34abebe 100644
--- a/openms/models/hh_model.py
+++ b/openms/models/hh_model.py
@@ -38,9 +38,10 @@ def get_mo(L, N, U, breaksym, bc="p"):
     na = nb = N // 2
     pa0 = numpy.zeros((L, L))
     pb0 = numpy.zeros((L, L))
+    for i in range(L):
+        eri[i, i, i, i] = U
     if breaksym:
         for i in range(L):
-            eri[i, i, i, i] = U
             if i % 2 == 0:
                 pa0[i, i] = 1.0
             else:
-- 
2.43.0


From be08f992d1e3076fb8900b7f5e2e01133fe6f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:01 +0000
Subject: [PATCH 29/85] fix: one bond only in the open two-site
 Hubbard-Holstein model

---
 openms/models/hh_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/models/hh_model.py b/openms/models/hh_model.py
index 34abebe..7cb0e49 100644
--- a/openms/models/hh_model.py
+++ b/openms/models/hh_model.py
@@ -151,7 +151,7 @@ class HHModel(object):
             nn = self._nn(i)
             t[i, nn[0]] = -1.0
             t[i, nn[1]] = -1.0
-        if L == 2:
+        if L == 2 and self.bc == "p":
             t[0, -1] += -1
             t[-1, 0] += -1
         return t
-- 
2.43.0


From 17a6f9a1c43cab2cf9b0dbedfa9ce75f68efe704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:47 +0000
Subject: [PATCH 30/85] fix: interband absorption of each component above its
 own transition

---
 openms/maxwell/hyperbolic.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openms/maxwell/hyperbolic.py b/openms/maxwell/hyperbolic.py
index bb06be7..277e6f0 100644
--- a/openms/maxwell/hyperbolic.py
+++ b/openms/maxwell/hyperbolic.py
@@ -95,9 +95,8 @@ class hyperbolicBase(object):
             sigma = 1j * self.plasmon_freqs / (w + 1j * self.damping)
             tmp = abs((w - self.interband_freqs) / (w + self.interband_freqs))
             tmp = 1j / numpy.pi * numpy.log(tmp)
-            for i in range(self.plasmon_freqs.size):
-                if w > self.plasmon_freqs[i]:
-                    tmp += 1.0
+            # step of each component at its own interband frequency
+            tmp = tmp + (w > self.interband_freqs)
             sigma += tmp * self.interband_strengths
             outstring = format_array_line(sigma)
             print(f"w, sigma = {w:.3f} {outstring}")
-- 
2.43.0


From 890643bb75c7998b2126abdccb148cb7665c0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:16 +0000
Subject: [PATCH 31/85] fix: cavity coupled-cluster equations with several
 modes

---
 openms/mqed/myqedcc_equations.py     | 5 -----
 openms/mqed/myqedcc_equations_opt.py | 5 -----
 openms/mqed/qedcc_equations.py       | 3 ---
 3 files changed, 13 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index b829782..59fedbe 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -804,7 +804,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -1065,7 +1064,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_2w)
 
@@ -1616,7 +1614,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
@@ -2554,7 +2551,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -2846,7 +2842,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_2w)
 
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index a9070b6..cb4eb8f 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -817,7 +817,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -1078,7 +1077,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_2w)
 
@@ -1629,7 +1627,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
@@ -2572,7 +2569,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -2864,7 +2860,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_2w)
 
diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 1936a63..fb2229e 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -591,7 +591,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     if nm == 1: # if single mode, we use faster single mode code (reducing indexing overhead)
         return single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps)
@@ -838,7 +837,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     U2n[1] = numpy.zeros((nm, nm, nvir, nvir, nocc, nocc))
 
@@ -1386,7 +1384,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
-- 
2.43.0


From 0c6ea1c20573b3fc16d2e2873ae92283ff5bc311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:16 +0000
Subject: [PATCH 32/85] fix: mode label of the second-order singles in the
 coupled doubles equations

---
 openms/mqed/myqedcc_equations.py     | 8 ++++----
 openms/mqed/myqedcc_equations_opt.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index 59fedbe..b203922 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -1016,11 +1016,11 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
@@ -2793,11 +2793,11 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index cb4eb8f..0d9b89a 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -1029,11 +1029,11 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
@@ -2811,11 +2811,11 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
-- 
2.43.0


From 2e124a1ffe64ee453f50417df8f30610eb7a2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:16 +0000
Subject: [PATCH 33/85] fix: double counting and mode symmetry in the
 second-order coupled singles equations

---
 openms/mqed/myqedcc_equations.py     | 36 ++++++++++------------------
 openms/mqed/myqedcc_equations_opt.py | 36 ++++++++++------------------
 openms/mqed/qedcc_equations.py       | 10 --------
 3 files changed, 24 insertions(+), 58 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index b203922..4972104 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -696,7 +696,8 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U1n[1] += -1.0*einsum('ji,IJaj->IJai', F.oo, U1nold[1])
     U1n[1] += 1.0*einsum('ab,IJbi->IJai', F.vv, U1nold[1])
 
-    U1n[1] += 2.0*einsum('I,JIai->IJai', w, U1nold[1])
+    U1n[1] += 1.0*einsum('I,JIai->IJai', w, U1nold[1])
+    U1n[1] += 1.0*einsum('J,IJai->IJai', w, U1nold[1])
     #U1n[1] += 1.0*einsum('I,JIai->IJai', w, U1nold[1])
     #U1n[1] += 1.0*einsum('J,IJai->IJai', w, U1nold[1])
 
@@ -726,16 +727,8 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += 0.125*einsum('jkbc,ci,JIbakj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += -0.375*einsum('jkbc,cj,JIbaki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             U1n[1] += -1.0*einsum('Kjb,JK,Iabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
@@ -2408,6 +2401,8 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     #----------------------------
     U1n[1] += einsum('jabi,IJbj->IJai', imds.Wovvo, U1nold[1])
+    # Wovvo only holds half of the oovv*T2 contraction
+    U1n[1] += 0.5*einsum('jkbc,acji,IJbk->IJai', I.oovv, T2old, U1nold[1], optimize = True)
     U1n[1] -= 0.5*einsum('ab,IJbi->IJai', Xvv, U1nold[1])
     U1n[1] -= 0.5*einsum('ji,IJaj->IJai', Xoo, U1nold[1])
 
@@ -2489,33 +2484,23 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         # vovv
         U1n[1] += -0.5*einsum('jkbc,aj,IJcbki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ovvo
-        U1n[1] += -1.0*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ov
-        U1n[1] += 2.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
 
         #vovv
-        U1n[1] += -2.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
         # ovvo
-        U1n[1] += -2.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
-        U1n[1] += 4.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += 2.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -2.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             #U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
@@ -2538,6 +2523,9 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         #U1n[1] += -1.0*einsum('Kjb,bi,IK,Jaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
         #U1n[1] += -1.0*einsum('Kjb,bi,JK,Iaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
 
+    # the terms with a factor 2 stand for the sum over both orders of the modes
+    U1n[1] = 0.5 * (U1n[1] + U1n[1].transpose(1, 0, 2, 3))
+
     return U1n
 
 
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index 0d9b89a..81599d7 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -709,7 +709,8 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U1n[1] += -1.0*einsum('ji,IJaj->IJai', F.oo, U1nold[1])
     U1n[1] += 1.0*einsum('ab,IJbi->IJai', F.vv, U1nold[1])
 
-    U1n[1] += 2.0*einsum('I,JIai->IJai', w, U1nold[1])
+    U1n[1] += 1.0*einsum('I,JIai->IJai', w, U1nold[1])
+    U1n[1] += 1.0*einsum('J,IJai->IJai', w, U1nold[1])
     #U1n[1] += 1.0*einsum('I,JIai->IJai', w, U1nold[1])
     #U1n[1] += 1.0*einsum('J,IJai->IJai', w, U1nold[1])
 
@@ -739,16 +740,8 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += 0.125*einsum('jkbc,ci,JIbakj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += -0.375*einsum('jkbc,cj,JIbaki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             U1n[1] += -1.0*einsum('Kjb,JK,Iabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
@@ -2424,6 +2417,8 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     #----------------------------
     U1n[1] += einsum('jabi,IJbj->IJai', imds.Wovvo, U1nold[1])
+    # Wovvo only holds half of the oovv*T2 contraction
+    U1n[1] += 0.5*einsum('jkbc,acji,IJbk->IJai', I.oovv, T2old, U1nold[1], optimize = True)
     U1n[1] -= 0.5*einsum('ab,IJbi->IJai', Xvv, U1nold[1])
     U1n[1] -= 0.5*einsum('ji,IJaj->IJai', Xoo, U1nold[1])
 
@@ -2505,33 +2500,23 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         # vovv
         U1n[1] += -0.5*einsum('jkbc,aj,IJcbki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ovvo
-        U1n[1] += -1.0*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ov
-        U1n[1] += 2.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
 
         #vovv
-        U1n[1] += -2.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
         # ovvo
-        U1n[1] += -2.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
-        U1n[1] += 4.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += 2.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -2.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             #U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
@@ -2554,6 +2539,9 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         #U1n[1] += -1.0*einsum('Kjb,bi,IK,Jaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
         #U1n[1] += -1.0*einsum('Kjb,bi,JK,Iaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
 
+    # the terms with a factor 2 stand for the sum over both orders of the modes
+    U1n[1] = 0.5 * (U1n[1] + U1n[1].transpose(1, 0, 2, 3))
+
     return U1n
 
 
diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index fb2229e..9c07b7e 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -513,16 +513,6 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
         U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.375*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += 0.125*einsum('jkbc,ci,JIbakj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += 0.625*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.375*einsum('jkbc,cj,JIbaki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             U1n[1] += -1.0*einsum('Kjb,JK,Iabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
-- 
2.43.0


From faf274a9803e1d1ac633817b6bc546facd9a11bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:34 +0000
Subject: [PATCH 34/85] fix: cubic and second-order terms missing from the
 coupled doubles equations

---
 openms/mqed/myqedcc_equations.py     | 40 +++++++++++++++++++++++++++-
 openms/mqed/myqedcc_equations_opt.py | 40 +++++++++++++++++++++++++++-
 openms/mqed/qedcc_equations.py       | 29 +++++++++++++++++++-
 3 files changed, 106 insertions(+), 3 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index 4972104..a4ad92a 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -1430,6 +1430,17 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
 
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,al,di,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,bk,di,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,al,cj,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+
     U2n[1][0,0] = U22
 
     return U2n
@@ -1858,6 +1869,11 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U21 += 1.0 * einsum('kc,ak,bi,cj->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
     U21 += -1.0 * einsum('kc,ak,ci,bj->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
 
+    U21 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+
     U2n[0][0] = U21
 
     if nfock2 < 2: return U2n
@@ -1908,7 +1924,7 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U22 += -1.0 * einsum('bacd,dj,ci->abij', I.vvvv, T1old, U12old, optimize = True)
     U22 += 1.0 * S1old * einsum('ki,bakj->abij', g.oo[0], U22old, optimize = True)
     U22 += -1.0 * S1old * einsum('kj,baki->abij', g.oo[0], U22old, optimize = True)
-    if nfock1 > 2:
+    if nfock1 > 1:
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
         U22 += -1.0 * S2old * einsum('kj,baki->abij', g.oo[0], U21old, optimize = True)
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
@@ -2220,6 +2236,17 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     U2n[1] = numpy.zeros((nm, nm, nvir, nvir, nocc, nocc))
 
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,al,di,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,bk,di,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,al,cj,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+
     U2n[1][0,0] = U22
 
     return U2n
@@ -3221,6 +3248,17 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
 
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,al,di,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,bk,di,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,al,cj,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+
     U2n[1][0,0] = U22
 
     return U2n
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index 81599d7..662c7f1 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -1443,6 +1443,17 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
 
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,al,di,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,bk,di,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,al,cj,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+
     U2n[1][0,0] = U22
 
     return U2n
@@ -1871,6 +1882,11 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U21 += 1.0 * einsum('kc,ak,bi,cj->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
     U21 += -1.0 * einsum('kc,ak,ci,bj->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
 
+    U21 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+
     U2n[0][0] = U21
 
     if nfock2 < 2: return U2n
@@ -1921,7 +1937,7 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U22 += -1.0 * einsum('bacd,dj,ci->abij', I.vvvv, T1old, U12old, optimize = True)
     U22 += 1.0 * S1old * einsum('ki,bakj->abij', g.oo[0], U22old, optimize = True)
     U22 += -1.0 * S1old * einsum('kj,baki->abij', g.oo[0], U22old, optimize = True)
-    if nfock1 > 2:
+    if nfock1 > 1:
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
         U22 += -1.0 * S2old * einsum('kj,baki->abij', g.oo[0], U21old, optimize = True)
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
@@ -2233,6 +2249,17 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     U2n[1] = numpy.zeros((nm, nm, nvir, nvir, nocc, nocc))
 
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,al,di,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,bk,di,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,al,cj,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+
     U2n[1][0,0] = U22
 
     return U2n
@@ -3239,6 +3266,17 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
 
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,al,di,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,bk,di,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,al,cj,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+
     U2n[1][0,0] = U22
 
     return U2n
diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 9c07b7e..24b52a4 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -1197,6 +1197,17 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
 
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,al,di,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,bk,di,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,al,cj,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+
     U2n[1][0,0] = U22
 
     return U2n
@@ -1610,6 +1621,11 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U21 += 1.0 * einsum('kc,ak,bi,cj->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
     U21 += -1.0 * einsum('kc,ak,ci,bj->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
 
+    U21 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+
     U2n[0][0] = U21
 
     if nfock2 < 2: return U2n
@@ -1660,7 +1676,7 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U22 += -1.0 * einsum('bacd,dj,ci->abij', I.vvvv, T1old, U12old, optimize = True)
     U22 += 1.0 * S1old * einsum('ki,bakj->abij', g.oo[0], U22old, optimize = True)
     U22 += -1.0 * S1old * einsum('kj,baki->abij', g.oo[0], U22old, optimize = True)
-    if nfock1 > 2:
+    if nfock1 > 1:
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
         U22 += -1.0 * S2old * einsum('kj,baki->abij', g.oo[0], U21old, optimize = True)
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
@@ -1972,6 +1988,17 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     U2n[1] = numpy.zeros((nm, nm, nvir, nvir, nocc, nocc))
 
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,al,di,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,bk,di,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,al,cj,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+
     U2n[1][0,0] = U22
 
     return U2n
-- 
2.43.0


From 4de174e480134847042634a320765298186d8532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:24 +0000
Subject: [PATCH 35/85] fix: aggregates.tdes used sys without importing it

---
 openms/models/aggregates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/models/aggregates.py b/openms/models/aggregates.py
index 2393339..1120ad1 100644
--- a/openms/models/aggregates.py
+++ b/openms/models/aggregates.py
@@ -21,6 +21,7 @@ Disordered molecular aggregates.
 from openms.lib.backend import backend as bd
 import numpy as np  # replace np as bd (TODO)
 import random
+import sys
 
 
 def linear_spec(elist, state, evals, dip, gamma):
-- 
2.43.0


From 8a03064e87c37c9c1232ab20c54eb8ac86ccf524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:24 +0000
Subject: [PATCH 36/85] fix: DMA kept the transition dipoles of the previous
 disorder realisation

---
 openms/models/aggregates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openms/models/aggregates.py b/openms/models/aggregates.py
index 1120ad1..5502501 100644
--- a/openms/models/aggregates.py
+++ b/openms/models/aggregates.py
@@ -157,6 +157,10 @@ class DMA(object):
         self.evals = self.evals[idx]
         self.evecs = self.evecs[:, idx]
 
+        # dipoles of a previous realisation are no longer valid
+        self.excdipole1 = None
+        self.dipsortidx = None
+
 
     def energies(self):
         r"""Return the lowest Nexc states."""
-- 
2.43.0


From 51279565f33bf9b370fbfe22b929d12c97d6e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:24 +0000
Subject: [PATCH 37/85] fix: coherent-state trial failed with more than 21 Fock
 states

---
 openms/qmc/trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/trial.py b/openms/qmc/trial.py
index 5727031..4ee516c 100644
--- a/openms/qmc/trial.py
+++ b/openms/qmc/trial.py
@@ -613,7 +613,7 @@ def initialize_boson_trial_with_z(zalpha, boson_states):
     for imode in range(nmodes):
         for n in range(boson_states[imode]):
             alpha = zalpha[imode]
-            coeff = (backend.exp(-backend.abs(alpha)**2 / 2) * (alpha**n) / backend.sqrt(factorial(n)))
+            coeff = (backend.exp(-backend.abs(alpha)**2 / 2) * (alpha**n) / backend.sqrt(float(factorial(n))))
             coefficients.append(coeff)
     coefficients = backend.array(coefficients)
     norm_factor = backend.sqrt(backend.sum(backend.abs(coefficients)**2))
-- 
2.43.0


From b5900d64d722bf00a91391b9ed9714822df67ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:24 +0000
Subject: [PATCH 38/85] fix: blocked Cholesky ran past its buffer instead of
 stopping at the factor limit

---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 8b2e172..cc2a6d8 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -547,7 +547,7 @@ def chols_blocked(mol, thresh=1.e-6, max_chol_fac=15,
             print(f"# Iteration {nchol:5d}: delta_max = {delta_max:13.8e}: time = {step_time:13.8e}")
 
         # Stop if maximum number of Cholesky vectors is reached
-        if nchol >= max_chols:
+        if nchol + 1 >= max_chols:
             print("Warning: Maximum number of Cholesky vectors reached.")
             break
 
-- 
2.43.0


From 2a8a051b1f7d0bc4c7600551fc2ff1dc76dc12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:24 +0000
Subject: [PATCH 39/85] fix: read_fcidump stored orbital energies in the
 one-electron integrals

---
 openms/qmc/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index cc2a6d8..1361bcb 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -321,10 +321,10 @@ def read_fcidump(fname, norb):
                 eri[s - 1, r - 1, p - 1, q - 1] = integral
                 eri[r - 1, s - 1, q - 1, p - 1] = integral
                 eri[s - 1, r - 1, q - 1, p - 1] = integral
-            elif p != 0:
+            elif q != 0:
                 h1e[p - 1, q - 1] = integral
                 h1e[q - 1, p - 1] = integral
-            else:
+            elif p == 0:  # (lines with only p are orbital energies)
                 nuc = integral
     return h1e, eri, nuc
 
-- 
2.43.0


From dfc1505b59e5396a1c4fdc1c9e0f96e6c6d0d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:24 +0000
Subject: [PATCH 40/85] fix: QMC with modes of different photon truncations
 failed to build the boson energies

---
 openms/qmc/estimators.py  | 6 ++----
 openms/qmc/propagators.py | 8 ++++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 948edb8..882a835 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -626,11 +626,9 @@ def local_eng_boson_2nd(omega, nboson_states, Gb):
     Gb: ndarray, bosonic green function
     """
     # bosonc energy
-    basis = backend.asarray(
-        [backend.arange(mdim) for mdim in nboson_states]
+    waTa = backend.concatenate(
+        [w * backend.arange(mdim) for w, mdim in zip(omega, nboson_states)]
     )
-
-    waTa = backend.einsum("m, mF->mF", omega, basis).ravel()
     eb = backend.einsum("F,zFF->z", waTa, Gb)
     #print("Debug: Bosonic Gf = ", Gb)
     #print("Debug: waTa =       ", waTa)
diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 04daa0b..6a90ee2 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1131,10 +1131,10 @@ class PhaselessElecBoson(Phaseless):
         self.geb = geb
 
         nmodes = self.system.nmodes
-        basis = backend.asarray(
-            [backend.arange(mdim) for mdim in self.system.nboson_states]
-        )
-        waTa = backend.einsum("m, mF->mF", self.system.boson_freq, basis).ravel()
+        waTa = backend.concatenate([
+            w * backend.arange(mdim)
+            for w, mdim in zip(self.system.boson_freq, self.system.nboson_states)
+        ])
         self.Hb = backend.diag(waTa)
         # logger.debug(self, f"Debug: Hb = {self.Hb}")
 
-- 
2.43.0


From b0079dccf9558f1a17bf6a90d4195ea481c00c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:32 +0000
Subject: [PATCH 41/85] fix: QMC objects built without an energy scheme could
 not propagate

---
 openms/qmc/propagators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 6a90ee2..aee2258 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -293,7 +293,7 @@ class PropagatorBase(object):
         self.dt = dt
         self.verbose = kwargs.get("verbose", 1)
         self.stdout = kwargs.get("stdout", 1)
-        self.energy_scheme = kwargs.get("energy_scheme", "hybrid")
+        self.energy_scheme = kwargs.get("energy_scheme") or "hybrid"
         self.taylor_order = kwargs.get("taylor_order", 6)
         self.bias_bound = kwargs.get("bias_bound", 1.0)
         self.num_fake_fields = kwargs.get("num_fake_fields", 0)
-- 
2.43.0


From 8afda8891096f0d2b14d564711e8077b78551c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 42/85] fix: SC-QED-HF crashed on its condition-number report
 with a singular coupling matrix

---
 openms/lib/scipy_helper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openms/lib/scipy_helper.py b/openms/lib/scipy_helper.py
index 749add0..0851e75 100644
--- a/openms/lib/scipy_helper.py
+++ b/openms/lib/scipy_helper.py
@@ -57,6 +57,7 @@ def remove_linear_dep(mf, threshold=LINEAR_DEP_THRESHOLD,
     """
 
     max_cond = 0.0
+    gconds = []
     s = mf.get_ovlp()
     scond = numpy.max(cond(s))
     if scond > max_cond: max_cond = scond
@@ -71,9 +72,9 @@ def remove_linear_dep(mf, threshold=LINEAR_DEP_THRESHOLD,
         return mf
 
     logger.info(mf, 'Applying remove_linear_dep on SCF object.')
-    logger.debug(mf, 'Overlap condition number %g', cond)
+    logger.debug(mf, 'Overlap condition number %g', scond)
     for a in range(len(gconds)):
-        logger.debug(mf, 'mode #%d gmat condition number %g', ((a+1), gconds[a]))
+        logger.debug(mf, 'mode #%d gmat condition number %g', a+1, gconds[a])
 
     if (max_cond < 1./numpy.finfo(s.dtype).eps and not force_pivoted_cholesky):
         logger.info(mf, 'Using canonical orthogonalization with threshold {}'.format(threshold))
-- 
2.43.0


From 5657d212697a27123da9f9b273f7222a1e0e1792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 43/85] fix: hyperbolic media without interband transitions or
 with a scalar plasmon frequency failed

---
 openms/maxwell/hyperbolic.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openms/maxwell/hyperbolic.py b/openms/maxwell/hyperbolic.py
index 277e6f0..1997986 100644
--- a/openms/maxwell/hyperbolic.py
+++ b/openms/maxwell/hyperbolic.py
@@ -82,7 +82,7 @@ class hyperbolicBase(object):
         self.damping = kwargs.get("damping", 0.1)
         print("damping is", self.damping)
 
-        self.plasmon_freqs = plasmon_freqs
+        self.plasmon_freqs = None if plasmon_freqs is None else numpy.atleast_1d(plasmon_freqs)
 
 
     def get_conductivity(self, wlist):
@@ -93,11 +93,12 @@ class hyperbolicBase(object):
         sigmas = numpy.zeros((len(wlist), len(self.plasmon_freqs)), dtype=numpy.complex128)
         for iw, w in enumerate(wlist):
             sigma = 1j * self.plasmon_freqs / (w + 1j * self.damping)
-            tmp = abs((w - self.interband_freqs) / (w + self.interband_freqs))
-            tmp = 1j / numpy.pi * numpy.log(tmp)
-            # step of each component at its own interband frequency
-            tmp = tmp + (w > self.interband_freqs)
-            sigma += tmp * self.interband_strengths
+            if self.interband_freqs is not None:
+                tmp = abs((w - self.interband_freqs) / (w + self.interband_freqs))
+                tmp = 1j / numpy.pi * numpy.log(tmp)
+                # step of each component at its own interband frequency
+                tmp = tmp + (w > self.interband_freqs)
+                sigma += tmp * self.interband_strengths
             outstring = format_array_line(sigma)
             print(f"w, sigma = {w:.3f} {outstring}")
             sigmas[iw] = sigma
-- 
2.43.0


From 6199161f6db81f385a2b8e55f6830c15d4547d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 44/85] fix: spins ignored the given zero-field splitting
 parameters and shared one coordinate array

---
 openms/spindy/spin.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openms/spindy/spin.py b/openms/spindy/spin.py
index b7bedfe..bca5678 100644
--- a/openms/spindy/spin.py
+++ b/openms/spindy/spin.py
@@ -130,15 +130,15 @@ class Spin(object):
     """
 
     def __init__(self,
-            coord = numpy.zeros(3),
+            coord = None,
             D = 0.0,
             E = 0.0,
             **kwargs):
 
-        self.coord = coord
+        self.coord = numpy.zeros(3) if coord is None else coord
         self.spin = 0.5
-        self.D = 0.0
-        self.E = 0.0
+        self.D = D
+        self.E = E
         self.alpha = None
         self.beta = None
         self._zfs = None
-- 
2.43.0


From b359ed1ad218a73365ef924aca8e7ed6f0a84ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 45/85] fix: kinetic temperature of several molecules called
 the list instead of each molecule

---
 openms/qmd/bomd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmd/bomd.py b/openms/qmd/bomd.py
index 7acd59f..efa8a79 100644
--- a/openms/qmd/bomd.py
+++ b/openms/qmd/bomd.py
@@ -190,7 +190,7 @@ class BaseMD(object):
         ekin = 0
         ndof = 0
         for mol in self.mol:
-            self.mol.get_ekin()
+            mol.get_ekin()
             ekin += mol.ekin
             ndof += mol.ndof
         return ekin * 2.0 / ndof * au2K
-- 
2.43.0


From 8b6684064b5f7a92d29832203c639007babcfa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 46/85] fix: molecules dropped their initial velocities

---
 openms/lib/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openms/lib/misc.py b/openms/lib/misc.py
index 0406034..c95d982 100644
--- a/openms/lib/misc.py
+++ b/openms/lib/misc.py
@@ -284,6 +284,8 @@ class Molecule(mole.Mole):
             print(f"this is model system in {self.ndim} dimension")
 
         self.veloc = None  # velocity
+        if kwargs.get("veloc") is not None:
+            self.veloc = numpy.array(kwargs["veloc"], dtype=float)
         self.mass = None
 
         self.build(**kwargs)
-- 
2.43.0


From 94d6a006af9ad6d6d594e090dd472c306a7fcce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 47/85] fix: VMC kernel referred to a sampler, ansatz and
 optimizer that were never set

---
 openms/qmc/vmc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openms/qmc/vmc.py b/openms/qmc/vmc.py
index cb5826e..cc220a1 100644
--- a/openms/qmc/vmc.py
+++ b/openms/qmc/vmc.py
@@ -159,16 +159,16 @@ class VMCBase(object):
         """
 
         for it in range(n_iter):
-            configs = self.sampler.sample(self.psi, n_samples)
+            configs = self._sampler.sample(self._ansatz, n_samples)
             E_locals = []
             grad_Oks = []
             log_psi_vals = []
             obs_acc = {key: [] for key in self.obs}
 
             for C in configs:
-                log_psi = self.psi.log_psi(C)
-                E_loc = self.ham.local_energy(C, self.psi)
-                grad_Ok = self.psi.gradient(C)
+                log_psi = self._ansatz.log_psi(C)
+                E_loc = self.ham.local_energy(C, self._ansatz)
+                grad_Ok = self._ansatz.gradient(C)
 
                 log_psi_vals.append(log_psi)
                 E_locals.append(E_loc)
@@ -189,7 +189,7 @@ class VMCBase(object):
             g = np.mean((E_locals[:, None] * grad_Oks), axis=0) - E_mean * Ok_mean
 
             # Update parameters
-            self.opt.step(S, g)
+            self._optimizer.step(S, g)
 
             if verbose:
                 print(f"Iteration {it + 1}: Energy = {E_mean:.6f}")
-- 
2.43.0


From 1d5848f33165572543c3b0ab986088c55d7eec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 48/85] fix: mean-field electron-photon coupling of
 coherent-state references ignored the displacement

---
 openms/lib/boson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 5121740..c9120fd 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -2205,6 +2205,8 @@ class Photon(Boson):
         else:
             g = self.gmatso
             mfG = numpy.einsum("Ipq,qp->I", g, ptot)
+            # coupling to the displaced photons
+            mfG -= numpy.sqrt(0.5 * self.omega) * self.z_alpha
 
         return (mfG, mfG)
 
-- 
2.43.0


From 05501c5404ffcd3c64ae9eb5db4980374e6d5112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 49/85] fix: Hartree-Fock energy of the post-HF integrals
 missed half of the dipole self-energy; core Hamiltonian of the caller was
 modified

---
 openms/lib/boson.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index c9120fd..b856f67 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -2069,7 +2069,7 @@ class Photon(Boson):
         if self.pa is None or self.pb is None:
             raise Exception("Cannot build Fock without density ")
 
-        h1 = self._mf.get_hcore()
+        h1 = self._mf.get_hcore().copy()
 
         # add DSE-oei contribution
         if not self.shift:
@@ -2104,6 +2104,9 @@ class Photon(Boson):
         if self.shift:
             return 0.5 * Ehf + self._mf.energy_nuc() + self.const
         else:
+            # tmat has no DSE-oei, half of which is still missing
+            oei = self.add_oei_ao(self.pa + self.pb)
+            Ehf += numpy.einsum("ij,ji->", self.pa + self.pb, oei)
             return 0.5 * Ehf + self._mf.energy_nuc()
 
 
-- 
2.43.0


From a634bbd453cab5724d323aed4b5c16b57dbab4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:18 +0000
Subject: [PATCH 50/85] fix: pair-branching variants kept the wrong walker of a
 pair and lost weight

---
 openms/qmc/population_control.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/openms/qmc/population_control.py b/openms/qmc/population_control.py
index 356febb..6ca3225 100644
--- a/openms/qmc/population_control.py
+++ b/openms/qmc/population_control.py
@@ -73,20 +73,17 @@ def branching_dp_dynamics(walkers, weights, min_weight=0.2, max_weight=2.0):
             r = np.random.rand()
             if r < np.abs(mod_weights[sort_indices[e]]) / wab:
                 # Clone large weight walker
-                # print("cloning large weight walker")
-                new_walkers.append(mod_walkers[sort_indices[s]])
-                new_weights.append(0.5 * wab)
-
-                # Modify original walker
-                mod_weights[sort_indices[e]] = 0.5 * wab
+                clone = sort_indices[e]
             else:
-                # print("cloning small weight walker")
                 # Clone small weight walker
-                new_walkers.append(mod_walkers[sort_indices[e]])
-                new_weights.append(0.5 * wab)
+                clone = sort_indices[s]
 
-                # Modify original walker
-                mod_weights[sort_indices[s]] = 0.5 * wab
+            new_walkers.append(mod_walkers[clone])
+            new_weights.append(0.5 * wab)
+            if s < e:
+                # the clone replaces the other walker of the pair
+                new_walkers.append(mod_walkers[clone])
+                new_weights.append(0.5 * wab)
 
             s += 1
             e -= 1
@@ -148,12 +145,11 @@ def branching_dp_constant(walkers, weights, min_weight=0.2, max_weight=4.0):
             r = np.random.rand()
             if r < np.abs(new_weights[sort_indices[e]]) / wab:
                 # Clone large weight walker
-                new_weights[sort_indices[e]] = 0.5 * wab
-                new_walkers[sort_indices[e]] = new_walkers[sort_indices[s]]
+                new_walkers[sort_indices[s]] = new_walkers[sort_indices[e]]
             else:
                 # Clone small weight walker
-                new_weights[sort_indices[s]] = 0.5 * wab
-                new_walkers[sort_indices[s]] = new_walkers[sort_indices[e]]
+                new_walkers[sort_indices[e]] = new_walkers[sort_indices[s]]
+            new_weights[sort_indices[s]] = new_weights[sort_indices[e]] = 0.5 * wab
 
             s += 1
             e -= 1
-- 
2.43.0


From 2d62db2a0831139d3b6c96e5c823f8a7aeb808bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:46 +0000
Subject: [PATCH 51/85] fix: atoms with an effective core potential got the
 mass of another element

---
 openms/lib/misc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openms/lib/misc.py b/openms/lib/misc.py
index c95d982..084de2a 100644
--- a/openms/lib/misc.py
+++ b/openms/lib/misc.py
@@ -326,10 +326,13 @@ class Molecule(mole.Mole):
         if self.veloc is None:
             self.veloc = numpy.full((self.natm, self.ndim), 0.0)
 
+        # atom_charges() leaves out the core electrons of effective core potentials
         self.mass = numpy.array(
             [
-                data.elements.COMMON_ISOTOPE_MASSES[m] * data.nist.AMU2AU
-                for m in self.atom_charges()
+                data.elements.COMMON_ISOTOPE_MASSES[
+                    data.elements.charge(self.atom_symbol(i))
+                ] * data.nist.AMU2AU
+                for i in range(self.natm)
             ]
         )
 
-- 
2.43.0


From d94c69668dcaa27f289cf2f2c165f6a3c5bf6892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:02 +0000
Subject: [PATCH 52/85] fix: QMC with the photons turned off failed to build
 its photon trial state

---
 openms/qmc/qmc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 10c0b8c..cc30bd8 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -459,8 +459,10 @@ class QMCbase(object):
             logger.debug(self, f"Debug: initial coherent state is  : {zalpha}")
             logger.debug(self, f"Debug: initial bosonic trial WF is: {self.trial.boson_psi}")
         elif self.geb is not None and self.propagator_options["turnoff_bosons"]:
-            self.trial.boson_psi *= 0.0
-            self.trial.boson_psi[0] = 1.0
+            # photon vacuum in every mode
+            self.trial.initialize_boson_trial_with_z(
+                backend.zeros(len(self.geb)), self.mol.nboson_states
+            )
 
         # 3) set up walkers
         t0 = time.time()
-- 
2.43.0


From 51fa446b51f0748111b74359ee78663c95c0c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 53/85] fix: the ranks of a distributed QMC run did not use
 their random seeds

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index cc30bd8..158b627 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -919,7 +919,7 @@ class QMCbase(object):
             # Create a rank-specific seed using SeedSequence
             ss = backend.random.SeedSequence(self.random_seed)
             child_seeds = ss.spawn(self._mpi.size)
-            backend.random.default_rng(child_seeds[self._mpi.rank])
+            backend.random.seed(child_seeds[self._mpi.rank].generate_state(4))
         else:
             backend.random.seed(self.random_seed)
 
-- 
2.43.0


From c44b25b62e0a46b37d6c782674efce59a4ccf5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 54/85] fix: energies of distributed electron-photon QMC runs
 were not summed over the ranks

---
 openms/qmc/propagators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index aee2258..bec4de1 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1207,6 +1207,10 @@ class PhaselessElecBoson(Phaseless):
         etot = backend.dot(walkers.weights, walkers.eloc.real)
         eb = backend.dot(walkers.weights, eb.real)
         eg = backend.dot(walkers.weights, eg.real)
+        if walkers._mpi.size > 1:
+            etot = walkers._mpi.comm.allreduce(etot, op=MPI.SUM)
+            eb = walkers._mpi.comm.allreduce(eb, op=MPI.SUM)
+            eg = walkers._mpi.comm.allreduce(eg, op=MPI.SUM)
 
         logger.debug(self, f"Debug: total energy (unnormalized) is {etot}")
         logger.debug(self, f"Debug: e1 (unnormalized) is {e1}")
-- 
2.43.0


From 314556253fc5c1226a469be4da60d2cee2db1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:08 +0000
Subject: [PATCH 55/85] fix: mean density and displacement of distributed
 electron-photon QMC runs covered one rank only

---
 openms/qmc/generic_walkers.py |  9 ++++++++-
 openms/qmc/propagators.py     | 11 +++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/openms/qmc/generic_walkers.py b/openms/qmc/generic_walkers.py
index ba23203..47c5f0c 100644
--- a/openms/qmc/generic_walkers.py
+++ b/openms/qmc/generic_walkers.py
@@ -344,8 +344,15 @@ class Walkers_so(BaseWalkers):
         # Q_{a, nm} = <m| b^\dag_a + b_a|n>
         Qalpha = backend.zeros(trial.mol.nmodes, dtype=backend.complex128)
         sum_boson_DM = {}
+        norm = backend.sum(self.weights)
+        if self._mpi.size > 1:
+            # the average runs over the walkers of all ranks
+            norm = self._mpi.comm.allreduce(norm, op=MPI.SUM)
         for imode in range(trial.mol.nmodes):
-            sum_boson_DM[imode] = backend.einsum("z, znm->nm", self.weights, boson_mode_DM[imode]) / backend.sum(self.weights)
+            mode_DM = backend.einsum("z, znm->nm", self.weights, boson_mode_DM[imode])
+            if self._mpi.size > 1:
+                mode_DM = self._mpi.comm.allreduce(mode_DM, op=MPI.SUM)
+            sum_boson_DM[imode] = mode_DM / norm
 
         for mode_index, mdim in enumerate(trial.mol.nboson_states):
             Qmat = backend.diag(backend.sqrt(backend.arange(1, mdim)), k = 1) \
diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index bec4de1..351ce31 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1758,10 +1758,13 @@ class PhaselessElecBoson(Phaseless):
         # logger.debug(self, f"walkers.Gf.shape = {walkers.Gf.shape}")
 
         if not self.decouple_bilinear:
-            walkers.rho = (
-                backend.einsum("z, zpq->pq", walkers.weights, walkers.Gf)
-                / backend.sum(walkers.weights)
-            )
+            rho = backend.einsum("z, zpq->pq", walkers.weights, walkers.Gf)
+            norm = backend.sum(walkers.weights)
+            if walkers._mpi.size > 1:
+                # the average runs over the walkers of all ranks
+                rho = walkers._mpi.comm.allreduce(rho, op=MPI.SUM)
+                norm = walkers._mpi.comm.allreduce(norm, op=MPI.SUM)
+            walkers.rho = rho / norm
         # logger.debug(self, f"test DM = {backend.trace(walkers.rho)}")
 
         # get Qalpha in either 1st or 2nd quantization
-- 
2.43.0


From caf521b1422bdc1d1113cef9ad98321b1be14e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 56/85] fix: FDTD refined intervals with fractional starts were
 not sorted

---
 openms/lib/fdtd/parameter.c | 1025 ++++++++++++++++++-----------------
 1 file changed, 513 insertions(+), 512 deletions(-)

diff --git a/openms/lib/fdtd/parameter.c b/openms/lib/fdtd/parameter.c
index 0f22ecf..e0c7bc1 100755
--- a/openms/lib/fdtd/parameter.c
+++ b/openms/lib/fdtd/parameter.c
@@ -1,512 +1,513 @@
-#include "./pFDTD.h"
-
-int m_pml, ma_pml;
-float sigmaCPML, alphaCPML, kappaCPML;
-
-int isize, jsize, ksize;
-int pmlil, pmlir, pmljl, pmljr, pmlkl, pmlkr;
-int lattice_x, lattice_y, lattice_z;
-int max_lattice_nz; // the finest non-uniform grid in the z axis
-float xsize, ysize, zsize;
-float xcenter, ycenter, zcenter;
-float kx, ky, kz;
-float orderxl, orderyl, orderzl;
-float orderxr, orderyr, orderzr;
-float sig_axl, sig_ayl, sig_azl;
-float sig_axr, sig_ayr, sig_azr;
-float ds_x, ds_y, ds_z, dt;
-float dt_nm;
-float *ds_nz;
-float S_factor;
-float pi, eo, uo, ups, light_speed;
-int misize, mjsize, mksize;
-int pisize, pjsize, pksize;
-int cisize, cjsize, cksize;
-int xparity = 0, yparity = 0, zparity = 0; // default
-
-float wave_vector_x, wave_vector_y;
-int use_periodic_x = 0, use_periodic_y = 0; // default
-
-int ngrid_n = 0; // for non_uniform_grid function
-struct ngrid_info *ngrid;
-float *base_z;
-int *base_grid;
-
-int lcm3(int a, int b, int c);
-int lcm2(int m, int n);
-int gcd2(int m, int n);
-float *float_1d_memory_for_parameter(int imax);
-void quick_sort_nz_start(struct ngrid_info *ngrid_s, int left, int right);
-void generate_base_z();
-void generate_base_grid();
-
-void structure_size(float x, float y, float z) {
-  xsize = x;
-  ysize = y;
-  zsize = z;
-}
-
-void lattice_size(int lx, int ly, int lz) {
-  lattice_x = lx;
-  lattice_y = ly;
-  lattice_z = lz;
-
-  ///////////////////////////////////////////
-  //// by default for non_uniform_grid() ////
-  ///////////////////////////////////////////
-  max_lattice_nz = lattice_z;
-}
-
-void non_uniform_grid(char *component, float z_i, float z_f, int nlz) {
-  // only for z direction
-  ngrid_n++;
-
-  ngrid =
-      (struct ngrid_info *)realloc(ngrid, sizeof(struct ngrid_info) * ngrid_n);
-
-  ngrid[ngrid_n - 1].lattice_nz = nlz;
-  ngrid[ngrid_n - 1].nz_start = z_i;
-  ngrid[ngrid_n - 1].nz_end = z_f;
-
-  printf("ngrid_n = %d\n", ngrid_n);
-}
-
-void quick_sort_nz_start(struct ngrid_info *ngrid_s, int left, int right) {
-  int i, j, pivot;
-  struct ngrid_info temp;
-  pivot = ngrid_s[(int)(left + right) / 2].nz_start;
-  i = left;
-  j = right;
-  for (;;) {
-    while ((ngrid_s[i].nz_start < pivot) && (i < right))
-      i++;
-    while (pivot < ngrid_s[j].nz_start)
-      j--;
-    if (i >= j)
-      break;
-    temp = ngrid_s[i];
-    ngrid_s[i] = ngrid_s[j];
-    ngrid_s[j] = temp;
-    i++;
-    j--;
-  }
-  if (left < i - 1)
-    quick_sort_nz_start(ngrid_s, left, i - 1);
-  if (j + 1 < right)
-    quick_sort_nz_start(ngrid_s, j + 1, right);
-}
-
-int non_uniform_z_to_i(float z) {
-  int n = 0;
-
-  /*//////////////////////////////////////////
-  Example : when ngrid_n=3
-  ---------------------------
-
-  lattice_z
-
-  -------end[2]  ----------- base_z[3] & base_grid[3]   <-- index runs to
-  (ngrid_n) non_uniform[2]
-  -------start[2]
-
-  lattice_z
-
-  -------end[1] ----------- base_z[2] & base_grid[2]
-  non_uniform[1]
-  -------start[1]
-
-  lattice_z
-
-  -------end[0]  ----------- base_z[1] & base_grid[1]
-  non_uniform[0]
-  -------start[0]
-
-  lattice_z
-
-  -------------------------- base_z[0] & base_grid[0]
-
-  //////////////////////////////////////////*/
-
-  //////////////////////////////////////////////////////
-  //// no use of non-uniform grid (special treatment)
-  if (ngrid_n == 0) {
-    return (floor(0.5 + (z + 0.5 * zsize) * lattice_z));
-  }
-  //////////////////////////////////////////////////////
-
-  //////////////////////////////////////////////////////
-  //// use of non-uniform grid (when ngrid_n >=1 )
-  while (n < ngrid_n) {
-    if (z <= ngrid[n].nz_start) {
-      return (floor(0.5 + (z - base_z[n]) * lattice_z) + base_grid[n]);
-    } else if ((z > ngrid[n].nz_start) && (z <= ngrid[n].nz_end)) {
-      return (floor(0.5 + ((ngrid[n].nz_start - base_z[n]) * lattice_z +
-                           (z - ngrid[n].nz_start) * ngrid[n].lattice_nz)) +
-              base_grid[n]);
-    } else
-      n++;
-  }
-
-  // if z > base_z[ngrid_n]
-  return (floor(0.5 + ((z - base_z[n]) * lattice_z)) + base_grid[n]);
-  //////////////////////////////////////////////////////
-}
-
-float non_uniform_i_to_z(int i) {
-  int n = 0;
-
-  // Note that this function cannot return the original 'z' value, due to the
-  // rounding (loss of information).
-
-  //////////////////////////////////////////////////////
-  //// no use of non-uniform grid (special treatment)
-  if (ngrid_n == 0) {
-    return (((float)i) / ((float)lattice_z) - 0.5 * zsize);
-  }
-  //////////////////////////////////////////////////////
-
-  while (n < ngrid_n) {
-    if (i <= non_uniform_z_to_i(ngrid[n].nz_start)) {
-      return (((float)(i - base_grid[n])) / ((float)lattice_z) + base_z[n]);
-    } else if ((i > non_uniform_z_to_i(ngrid[n].nz_start)) &&
-               (i <= non_uniform_z_to_i(ngrid[n].nz_end))) {
-      return (((float)(non_uniform_z_to_i(ngrid[n].nz_start) - base_grid[n])) /
-                  ((float)lattice_z) +
-              ((float)(i - non_uniform_z_to_i(ngrid[n].nz_start))) /
-                  ((float)ngrid[n].lattice_nz) +
-              base_z[n]);
-    } else
-      n++;
-  }
-
-  // if i > base_grid[ngrid_n]
-  return (((float)(i - base_grid[n])) / ((float)lattice_z) + base_z[n]);
-}
-
-int ngrid_lattice_nz_z(float z) // returns lattice_nz at the position z
-{
-  int n;
-  int temp_return;
-
-  temp_return = lattice_z;
-
-  if (ngrid_n == 0)
-    return (temp_return);
-
-  for (n = 0; n < ngrid_n; n++) {
-    if ((z > ngrid[n].nz_start) && (z <= ngrid[n].nz_end))
-      temp_return = ngrid[n].lattice_nz;
-  }
-
-  return (temp_return);
-}
-
-int ngrid_lattice_nz_i(int i) // returns lattice_nz at the position i
-{
-  int n;
-  int temp_return;
-
-  temp_return = lattice_z;
-
-  if (ngrid_n == 0)
-    return (temp_return);
-
-  for (n = 0; n < ngrid_n; n++) {
-    if ((i > non_uniform_z_to_i(ngrid[n].nz_start)) &&
-        (i <= non_uniform_z_to_i(ngrid[n].nz_end)))
-      temp_return = ngrid[n].lattice_nz;
-  }
-
-  return (temp_return);
-}
-
-int find_max_lattice_nz() {
-  int max_temp;
-  int scan_i;
-  int present_lattice;
-
-  max_temp = ngrid_lattice_nz_i(0);
-
-  if (ngrid_n == 0)
-    return (max_temp);
-
-  for (scan_i = 0; scan_i <= non_uniform_z_to_i(0.5 * zsize); scan_i++) {
-    present_lattice = ngrid_lattice_nz_i(scan_i);
-    if (present_lattice > max_temp)
-      max_temp = present_lattice;
-  }
-
-  return (max_temp);
-}
-
-void pml_size(int il, int ir, int jl, int jr, int kl, int kr) {
-  pmlil = il;
-  pmlir = ir;
-  pmljl = jl;
-  pmljr = jr;
-  pmlkl = kl;
-  pmlkr = kr;
-  // See the range of position[i][j][k] in memory.c.
-  if (il == 0)
-    pmlil = 0;
-  if (ir == 0)
-    pmlir = 0;
-  if (jl == 0)
-    pmljl = 0;
-  if (jr == 0)
-    pmljr = 0;
-  if (kl == 0)
-    pmlkl = 0;
-  if (kr == 0)
-    pmlkr = 0;
-}
-
-void set_default_parameter(float S) {
-  int lcm_temp;
-  int i;
-  FILE *stream;
-
-  pi = 3.141592;
-  eo = 8.854e-12;
-  uo = pi * 4.0e-7;
-  ups = 1.0;
-  light_speed = 1.0 / sqrt(eo * uo);
-
-  if (ngrid_n >= 2)
-    quick_sort_nz_start(ngrid, 0, ngrid_n - 1);
-
-  ////////////////////////////////////////////////
-  // define base_z[n] & base_grid[n]
-  ///////////////////////////////////////////////
-  generate_base_z();
-  generate_base_grid();
-  ///////////////////////////////////////////////
-
-  max_lattice_nz = find_max_lattice_nz();
-
-  lcm_temp = lcm3(lattice_x, lattice_y, max_lattice_nz);
-
-  ds_x = lcm_temp / lattice_x;
-  ds_y = lcm_temp / lattice_y;
-  ///////////////////////////////////////////////////////////////////////////
-  // in case of using non_uniform_grid(), ds_z takes the smallest feature size
-  ///////////////////////////////////////////////////////////////////////////
-  ds_z = lcm_temp / max_lattice_nz;
-
-  S_factor = S;
-
-  dt = 1 / light_speed /
-       S_factor; // S=Couriant parameter for numerical stability
-  dt_nm = dt * 1e-9;
-
-  orderxl = 3.5;
-  orderyl = 3.5;
-  orderzl = 3.5;
-  orderxr = 3.5;
-  orderyr = 3.5;
-  orderzr = 3.5;
-
-  sig_axl = 1.0;
-  sig_ayl = 1.0;
-  sig_azl = 1.0;
-  sig_axr = 1.0;
-  sig_ayr = 1.0;
-  sig_azr = 1.0;
-
-  kx = 1.0;
-  ky = 1.0;
-  kz = 1.0;
-
-  // parameter for CPML
-  m_pml = 3;
-  ma_pml = 1;
-  sigmaCPML = 0.8 * (m_pml + 1) / (ds_x * 1e-9 * sqrt(uo / eo));
-  alphaCPML = 0.05;
-  kappaCPML = 5.0;
-  printf("sigmaCPML= %f \n", sigmaCPML);
-
-  isize = floor(0.5 + (xsize * lattice_x));
-  jsize = floor(0.5 + (ysize * lattice_y));
-  ////////////////////////////////////
-  ///// for non_uniform_grid() ///////
-  ////////////////////////////////////
-  ksize = non_uniform_z_to_i(0.5 * zsize);
-  printf("non uniform ksize = %d\n", ksize); ////////////
-
-  xcenter = xsize / 2;
-  ycenter = ysize / 2;
-  zcenter = zsize / 2; // always true even with non_uniform_grid()
-
-  misize = isize;
-  pisize = isize - 1;
-  cisize = isize / 2;
-  mjsize = jsize;
-  pjsize = jsize - 1;
-  cjsize = jsize / 2;
-  mksize = ksize;
-  pksize = ksize - 1;
-  cksize =
-      ksize / 2; // in case of using non_uniform_grid(), this will not be used.
-
-  ///////////////////////////////////////////////////
-  //// create non-uniform z-grid map (ds_nz[i]) /////
-  ///////////////////////////////////////////////////
-  ds_nz = float_1d_memory_for_parameter(mksize);
-  for (i = 0; i < mksize; i++)
-    ds_nz[i] = lcm_temp / ngrid_lattice_nz_i(i); //////////
-  ///////////////////////////////////////////////////
-  printf("creating non uniform z map ok\n"); ////////////
-  stream = fopen("dsz_map.dat", "wt");
-  for (i = mksize - 1; i >= 0; i--)
-    fprintf(stream, "%g\n", ds_nz[i]);
-
-  fclose(stream);
-
-  ////// Random number generation //////
-  gsl_rng_env_setup();
-  // In the below, 'rng_type' and 'rng_r' are defined in FDTDvar.h
-  rng_type = gsl_rng_default;
-  rng_r = gsl_rng_alloc(rng_type);
-  gsl_rng_set(rng_r, 1234); // seed value = 1234
-  //////////////////////////////////////
-
-  printf("parameters...ok\n");
-}
-
-void set_sigma_order(float oxl, float oxr, float oyl, float oyr, float ozl,
-                     float ozr) {
-  orderxl = oxl;
-  orderyl = oyl;
-  orderzl = ozl; // default value = 3.5
-  orderxr = oxr;
-  orderyr = oyr;
-  orderzr = ozr; // default value = 3.5
-}
-
-void set_sigma_max(float axl, float axr, float ayl, float ayr, float azl,
-                   float azr) {
-  sig_axl = axl;
-  sig_ayl = ayl;
-  sig_azl = azl; // default value = 1.0
-  sig_axr = axr;
-  sig_ayr = ayr;
-  sig_azr = azr; // default value = 1.0
-}
-
-void set_kappa(float kappa_x, float kappa_y, float kappa_z) {
-  kx = kappa_x; // defaut value = 1.0
-  ky = kappa_y; // defaut value = 1.0
-  kz = kappa_z; // defaut value = 1.0
-}
-
-void Hz_parity(int x, int y, int z) {
-  xparity = x;
-  yparity = y;
-  zparity = z;
-
-  if (xparity == 1 || xparity == -1) {
-    misize = cisize + 2;
-    pisize = cisize + 1;
-  }
-
-  if (yparity == 1 || yparity == -1) {
-    mjsize = cjsize + 2;
-    pjsize = cjsize + 1;
-  }
-
-  if (zparity == 1 || zparity == -1) {
-    mksize = cksize + 2;
-    pksize = cksize + 1;
-  }
-}
-
-void periodic_boundary(int x_on, int y_on, float k_x, float k_y) {
-  if (x_on == 1) {
-    wave_vector_x = k_x;
-    use_periodic_x = x_on; // 1:on, 0:off  default=0
-    misize = isize + 2;
-    pisize = isize + 1;
-    pmlil = -5; // See the range of position[i][j][k] in memory.c
-    pmlir = -5;
-  }
-  if (y_on == 1) {
-    wave_vector_y = k_y;
-    use_periodic_y = y_on;
-    mjsize = jsize + 2;
-    pjsize = jsize + 1;
-    pmljl = -5;
-    pmljr = -5;
-  }
-}
-
-int lcm3(int a, int b, int c) { return (lcm2(a, lcm2(b, c))); }
-
-int lcm2(int m, int n) {
-  return (m * n / gcd2(m, n)); // use the relation ; gcd(m,n)*lcm(m,n)=m*n
-}
-
-int gcd2(int m, int n) {
-  int temp;
-  int r; // remainder
-
-  if (n > m) // Make m>n
-  {
-    temp = m;
-    m = n;
-    n = temp;
-  }
-  while ((r = m % n) != 0) // Euclid algorithm
-  {
-    m = n;
-    n = r;
-  }
-
-  return (n);
-}
-
-float *float_1d_memory_for_parameter(int imax) {
-  int i;
-  float *memory;
-
-  memory = (float *)malloc(sizeof(float) * imax);
-  for (i = 0; i < imax; i++)
-    memory[i] = 0.0;
-
-  return memory;
-}
-
-void generate_base_z() {
-  int i;
-
-  base_z = (float *)malloc(sizeof(float) * (ngrid_n + 1));
-
-  base_z[0] = -0.5 * zsize;
-  printf("base_z[0] = %g\n", base_z[0]);
-
-  for (i = 1; i <= ngrid_n; i++) {
-    base_z[i] = ngrid[i - 1].nz_end;
-    printf("base_z[%d] = %g\n", i, base_z[i]);
-  }
-}
-
-void generate_base_grid() {
-  int i;
-
-  base_grid = (int *)malloc(sizeof(int) * (ngrid_n + 1));
-
-  base_grid[0] = 0;
-  printf("base_grid[0] = %d\n", base_grid[0]);
-
-  for (i = 1; i <= ngrid_n; i++) {
-    if (i == 1)
-      base_grid[1] =
-          (ngrid[0].nz_end - ngrid[0].nz_start) * ngrid[0].lattice_nz +
-          (ngrid[0].nz_start + 0.5 * zsize) * lattice_z;
-    else
-      base_grid[i] = base_grid[i - 1] +
-                     (ngrid[i - 1].nz_end - ngrid[i - 1].nz_start) *
-                         ngrid[i - 1].lattice_nz +
-                     (ngrid[i - 1].nz_start - ngrid[i - 2].nz_end) * lattice_z;
-    printf("base_grid[%d] = %d\n", i, base_grid[i]);
-  }
-}
+#include "./pFDTD.h"
+
+int m_pml, ma_pml;
+float sigmaCPML, alphaCPML, kappaCPML;
+
+int isize, jsize, ksize;
+int pmlil, pmlir, pmljl, pmljr, pmlkl, pmlkr;
+int lattice_x, lattice_y, lattice_z;
+int max_lattice_nz; // the finest non-uniform grid in the z axis
+float xsize, ysize, zsize;
+float xcenter, ycenter, zcenter;
+float kx, ky, kz;
+float orderxl, orderyl, orderzl;
+float orderxr, orderyr, orderzr;
+float sig_axl, sig_ayl, sig_azl;
+float sig_axr, sig_ayr, sig_azr;
+float ds_x, ds_y, ds_z, dt;
+float dt_nm;
+float *ds_nz;
+float S_factor;
+float pi, eo, uo, ups, light_speed;
+int misize, mjsize, mksize;
+int pisize, pjsize, pksize;
+int cisize, cjsize, cksize;
+int xparity = 0, yparity = 0, zparity = 0; // default
+
+float wave_vector_x, wave_vector_y;
+int use_periodic_x = 0, use_periodic_y = 0; // default
+
+int ngrid_n = 0; // for non_uniform_grid function
+struct ngrid_info *ngrid;
+float *base_z;
+int *base_grid;
+
+int lcm3(int a, int b, int c);
+int lcm2(int m, int n);
+int gcd2(int m, int n);
+float *float_1d_memory_for_parameter(int imax);
+void quick_sort_nz_start(struct ngrid_info *ngrid_s, int left, int right);
+void generate_base_z();
+void generate_base_grid();
+
+void structure_size(float x, float y, float z) {
+  xsize = x;
+  ysize = y;
+  zsize = z;
+}
+
+void lattice_size(int lx, int ly, int lz) {
+  lattice_x = lx;
+  lattice_y = ly;
+  lattice_z = lz;
+
+  ///////////////////////////////////////////
+  //// by default for non_uniform_grid() ////
+  ///////////////////////////////////////////
+  max_lattice_nz = lattice_z;
+}
+
+void non_uniform_grid(char *component, float z_i, float z_f, int nlz) {
+  // only for z direction
+  ngrid_n++;
+
+  ngrid =
+      (struct ngrid_info *)realloc(ngrid, sizeof(struct ngrid_info) * ngrid_n);
+
+  ngrid[ngrid_n - 1].lattice_nz = nlz;
+  ngrid[ngrid_n - 1].nz_start = z_i;
+  ngrid[ngrid_n - 1].nz_end = z_f;
+
+  printf("ngrid_n = %d\n", ngrid_n);
+}
+
+void quick_sort_nz_start(struct ngrid_info *ngrid_s, int left, int right) {
+  int i, j;
+  float pivot;
+  struct ngrid_info temp;
+  pivot = ngrid_s[(int)(left + right) / 2].nz_start;
+  i = left;
+  j = right;
+  for (;;) {
+    while ((ngrid_s[i].nz_start < pivot) && (i < right))
+      i++;
+    while (pivot < ngrid_s[j].nz_start)
+      j--;
+    if (i >= j)
+      break;
+    temp = ngrid_s[i];
+    ngrid_s[i] = ngrid_s[j];
+    ngrid_s[j] = temp;
+    i++;
+    j--;
+  }
+  if (left < i - 1)
+    quick_sort_nz_start(ngrid_s, left, i - 1);
+  if (j + 1 < right)
+    quick_sort_nz_start(ngrid_s, j + 1, right);
+}
+
+int non_uniform_z_to_i(float z) {
+  int n = 0;
+
+  /*//////////////////////////////////////////
+  Example : when ngrid_n=3
+  ---------------------------
+
+  lattice_z
+
+  -------end[2]  ----------- base_z[3] & base_grid[3]   <-- index runs to
+  (ngrid_n) non_uniform[2]
+  -------start[2]
+
+  lattice_z
+
+  -------end[1] ----------- base_z[2] & base_grid[2]
+  non_uniform[1]
+  -------start[1]
+
+  lattice_z
+
+  -------end[0]  ----------- base_z[1] & base_grid[1]
+  non_uniform[0]
+  -------start[0]
+
+  lattice_z
+
+  -------------------------- base_z[0] & base_grid[0]
+
+  //////////////////////////////////////////*/
+
+  //////////////////////////////////////////////////////
+  //// no use of non-uniform grid (special treatment)
+  if (ngrid_n == 0) {
+    return (floor(0.5 + (z + 0.5 * zsize) * lattice_z));
+  }
+  //////////////////////////////////////////////////////
+
+  //////////////////////////////////////////////////////
+  //// use of non-uniform grid (when ngrid_n >=1 )
+  while (n < ngrid_n) {
+    if (z <= ngrid[n].nz_start) {
+      return (floor(0.5 + (z - base_z[n]) * lattice_z) + base_grid[n]);
+    } else if ((z > ngrid[n].nz_start) && (z <= ngrid[n].nz_end)) {
+      return (floor(0.5 + ((ngrid[n].nz_start - base_z[n]) * lattice_z +
+                           (z - ngrid[n].nz_start) * ngrid[n].lattice_nz)) +
+              base_grid[n]);
+    } else
+      n++;
+  }
+
+  // if z > base_z[ngrid_n]
+  return (floor(0.5 + ((z - base_z[n]) * lattice_z)) + base_grid[n]);
+  //////////////////////////////////////////////////////
+}
+
+float non_uniform_i_to_z(int i) {
+  int n = 0;
+
+  // Note that this function cannot return the original 'z' value, due to the
+  // rounding (loss of information).
+
+  //////////////////////////////////////////////////////
+  //// no use of non-uniform grid (special treatment)
+  if (ngrid_n == 0) {
+    return (((float)i) / ((float)lattice_z) - 0.5 * zsize);
+  }
+  //////////////////////////////////////////////////////
+
+  while (n < ngrid_n) {
+    if (i <= non_uniform_z_to_i(ngrid[n].nz_start)) {
+      return (((float)(i - base_grid[n])) / ((float)lattice_z) + base_z[n]);
+    } else if ((i > non_uniform_z_to_i(ngrid[n].nz_start)) &&
+               (i <= non_uniform_z_to_i(ngrid[n].nz_end))) {
+      return (((float)(non_uniform_z_to_i(ngrid[n].nz_start) - base_grid[n])) /
+                  ((float)lattice_z) +
+              ((float)(i - non_uniform_z_to_i(ngrid[n].nz_start))) /
+                  ((float)ngrid[n].lattice_nz) +
+              base_z[n]);
+    } else
+      n++;
+  }
+
+  // if i > base_grid[ngrid_n]
+  return (((float)(i - base_grid[n])) / ((float)lattice_z) + base_z[n]);
+}
+
+int ngrid_lattice_nz_z(float z) // returns lattice_nz at the position z
+{
+  int n;
+  int temp_return;
+
+  temp_return = lattice_z;
+
+  if (ngrid_n == 0)
+    return (temp_return);
+
+  for (n = 0; n < ngrid_n; n++) {
+    if ((z > ngrid[n].nz_start) && (z <= ngrid[n].nz_end))
+      temp_return = ngrid[n].lattice_nz;
+  }
+
+  return (temp_return);
+}
+
+int ngrid_lattice_nz_i(int i) // returns lattice_nz at the position i
+{
+  int n;
+  int temp_return;
+
+  temp_return = lattice_z;
+
+  if (ngrid_n == 0)
+    return (temp_return);
+
+  for (n = 0; n < ngrid_n; n++) {
+    if ((i > non_uniform_z_to_i(ngrid[n].nz_start)) &&
+        (i <= non_uniform_z_to_i(ngrid[n].nz_end)))
+      temp_return = ngrid[n].lattice_nz;
+  }
+
+  return (temp_return);
+}
+
+int find_max_lattice_nz() {
+  int max_temp;
+  int scan_i;
+  int present_lattice;
+
+  max_temp = ngrid_lattice_nz_i(0);
+
+  if (ngrid_n == 0)
+    return (max_temp);
+
+  for (scan_i = 0; scan_i <= non_uniform_z_to_i(0.5 * zsize); scan_i++) {
+    present_lattice = ngrid_lattice_nz_i(scan_i);
+    if (present_lattice > max_temp)
+      max_temp = present_lattice;
+  }
+
+  return (max_temp);
+}
+
+void pml_size(int il, int ir, int jl, int jr, int kl, int kr) {
+  pmlil = il;
+  pmlir = ir;
+  pmljl = jl;
+  pmljr = jr;
+  pmlkl = kl;
+  pmlkr = kr;
+  // See the range of position[i][j][k] in memory.c.
+  if (il == 0)
+    pmlil = 0;
+  if (ir == 0)
+    pmlir = 0;
+  if (jl == 0)
+    pmljl = 0;
+  if (jr == 0)
+    pmljr = 0;
+  if (kl == 0)
+    pmlkl = 0;
+  if (kr == 0)
+    pmlkr = 0;
+}
+
+void set_default_parameter(float S) {
+  int lcm_temp;
+  int i;
+  FILE *stream;
+
+  pi = 3.141592;
+  eo = 8.854e-12;
+  uo = pi * 4.0e-7;
+  ups = 1.0;
+  light_speed = 1.0 / sqrt(eo * uo);
+
+  if (ngrid_n >= 2)
+    quick_sort_nz_start(ngrid, 0, ngrid_n - 1);
+
+  ////////////////////////////////////////////////
+  // define base_z[n] & base_grid[n]
+  ///////////////////////////////////////////////
+  generate_base_z();
+  generate_base_grid();
+  ///////////////////////////////////////////////
+
+  max_lattice_nz = find_max_lattice_nz();
+
+  lcm_temp = lcm3(lattice_x, lattice_y, max_lattice_nz);
+
+  ds_x = lcm_temp / lattice_x;
+  ds_y = lcm_temp / lattice_y;
+  ///////////////////////////////////////////////////////////////////////////
+  // in case of using non_uniform_grid(), ds_z takes the smallest feature size
+  ///////////////////////////////////////////////////////////////////////////
+  ds_z = lcm_temp / max_lattice_nz;
+
+  S_factor = S;
+
+  dt = 1 / light_speed /
+       S_factor; // S=Couriant parameter for numerical stability
+  dt_nm = dt * 1e-9;
+
+  orderxl = 3.5;
+  orderyl = 3.5;
+  orderzl = 3.5;
+  orderxr = 3.5;
+  orderyr = 3.5;
+  orderzr = 3.5;
+
+  sig_axl = 1.0;
+  sig_ayl = 1.0;
+  sig_azl = 1.0;
+  sig_axr = 1.0;
+  sig_ayr = 1.0;
+  sig_azr = 1.0;
+
+  kx = 1.0;
+  ky = 1.0;
+  kz = 1.0;
+
+  // parameter for CPML
+  m_pml = 3;
+  ma_pml = 1;
+  sigmaCPML = 0.8 * (m_pml + 1) / (ds_x * 1e-9 * sqrt(uo / eo));
+  alphaCPML = 0.05;
+  kappaCPML = 5.0;
+  printf("sigmaCPML= %f \n", sigmaCPML);
+
+  isize = floor(0.5 + (xsize * lattice_x));
+  jsize = floor(0.5 + (ysize * lattice_y));
+  ////////////////////////////////////
+  ///// for non_uniform_grid() ///////
+  ////////////////////////////////////
+  ksize = non_uniform_z_to_i(0.5 * zsize);
+  printf("non uniform ksize = %d\n", ksize); ////////////
+
+  xcenter = xsize / 2;
+  ycenter = ysize / 2;
+  zcenter = zsize / 2; // always true even with non_uniform_grid()
+
+  misize = isize;
+  pisize = isize - 1;
+  cisize = isize / 2;
+  mjsize = jsize;
+  pjsize = jsize - 1;
+  cjsize = jsize / 2;
+  mksize = ksize;
+  pksize = ksize - 1;
+  cksize =
+      ksize / 2; // in case of using non_uniform_grid(), this will not be used.
+
+  ///////////////////////////////////////////////////
+  //// create non-uniform z-grid map (ds_nz[i]) /////
+  ///////////////////////////////////////////////////
+  ds_nz = float_1d_memory_for_parameter(mksize);
+  for (i = 0; i < mksize; i++)
+    ds_nz[i] = lcm_temp / ngrid_lattice_nz_i(i); //////////
+  ///////////////////////////////////////////////////
+  printf("creating non uniform z map ok\n"); ////////////
+  stream = fopen("dsz_map.dat", "wt");
+  for (i = mksize - 1; i >= 0; i--)
+    fprintf(stream, "%g\n", ds_nz[i]);
+
+  fclose(stream);
+
+  ////// Random number generation //////
+  gsl_rng_env_setup();
+  // In the below, 'rng_type' and 'rng_r' are defined in FDTDvar.h
+  rng_type = gsl_rng_default;
+  rng_r = gsl_rng_alloc(rng_type);
+  gsl_rng_set(rng_r, 1234); // seed value = 1234
+  //////////////////////////////////////
+
+  printf("parameters...ok\n");
+}
+
+void set_sigma_order(float oxl, float oxr, float oyl, float oyr, float ozl,
+                     float ozr) {
+  orderxl = oxl;
+  orderyl = oyl;
+  orderzl = ozl; // default value = 3.5
+  orderxr = oxr;
+  orderyr = oyr;
+  orderzr = ozr; // default value = 3.5
+}
+
+void set_sigma_max(float axl, float axr, float ayl, float ayr, float azl,
+                   float azr) {
+  sig_axl = axl;
+  sig_ayl = ayl;
+  sig_azl = azl; // default value = 1.0
+  sig_axr = axr;
+  sig_ayr = ayr;
+  sig_azr = azr; // default value = 1.0
+}
+
+void set_kappa(float kappa_x, float kappa_y, float kappa_z) {
+  kx = kappa_x; // defaut value = 1.0
+  ky = kappa_y; // defaut value = 1.0
+  kz = kappa_z; // defaut value = 1.0
+}
+
+void Hz_parity(int x, int y, int z) {
+  xparity = x;
+  yparity = y;
+  zparity = z;
+
+  if (xparity == 1 || xparity == -1) {
+    misize = cisize + 2;
+    pisize = cisize + 1;
+  }
+
+  if (yparity == 1 || yparity == -1) {
+    mjsize = cjsize + 2;
+    pjsize = cjsize + 1;
+  }
+
+  if (zparity == 1 || zparity == -1) {
+    mksize = cksize + 2;
+    pksize = cksize + 1;
+  }
+}
+
+void periodic_boundary(int x_on, int y_on, float k_x, float k_y) {
+  if (x_on == 1) {
+    wave_vector_x = k_x;
+    use_periodic_x = x_on; // 1:on, 0:off  default=0
+    misize = isize + 2;
+    pisize = isize + 1;
+    pmlil = -5; // See the range of position[i][j][k] in memory.c
+    pmlir = -5;
+  }
+  if (y_on == 1) {
+    wave_vector_y = k_y;
+    use_periodic_y = y_on;
+    mjsize = jsize + 2;
+    pjsize = jsize + 1;
+    pmljl = -5;
+    pmljr = -5;
+  }
+}
+
+int lcm3(int a, int b, int c) { return (lcm2(a, lcm2(b, c))); }
+
+int lcm2(int m, int n) {
+  return (m * n / gcd2(m, n)); // use the relation ; gcd(m,n)*lcm(m,n)=m*n
+}
+
+int gcd2(int m, int n) {
+  int temp;
+  int r; // remainder
+
+  if (n > m) // Make m>n
+  {
+    temp = m;
+    m = n;
+    n = temp;
+  }
+  while ((r = m % n) != 0) // Euclid algorithm
+  {
+    m = n;
+    n = r;
+  }
+
+  return (n);
+}
+
+float *float_1d_memory_for_parameter(int imax) {
+  int i;
+  float *memory;
+
+  memory = (float *)malloc(sizeof(float) * imax);
+  for (i = 0; i < imax; i++)
+    memory[i] = 0.0;
+
+  return memory;
+}
+
+void generate_base_z() {
+  int i;
+
+  base_z = (float *)malloc(sizeof(float) * (ngrid_n + 1));
+
+  base_z[0] = -0.5 * zsize;
+  printf("base_z[0] = %g\n", base_z[0]);
+
+  for (i = 1; i <= ngrid_n; i++) {
+    base_z[i] = ngrid[i - 1].nz_end;
+    printf("base_z[%d] = %g\n", i, base_z[i]);
+  }
+}
+
+void generate_base_grid() {
+  int i;
+
+  base_grid = (int *)malloc(sizeof(int) * (ngrid_n + 1));
+
+  base_grid[0] = 0;
+  printf("base_grid[0] = %d\n", base_grid[0]);
+
+  for (i = 1; i <= ngrid_n; i++) {
+    if (i == 1)
+      base_grid[1] =
+          (ngrid[0].nz_end - ngrid[0].nz_start) * ngrid[0].lattice_nz +
+          (ngrid[0].nz_start + 0.5 * zsize) * lattice_z;
+    else
+      base_grid[i] = base_grid[i - 1] +
+                     (ngrid[i - 1].nz_end - ngrid[i - 1].nz_start) *
+                         ngrid[i - 1].lattice_nz +
+                     (ngrid[i - 1].nz_start - ngrid[i - 2].nz_end) * lattice_z;
+    printf("base_grid[%d] = %d\n", i, base_grid[i]);
+  }
+}
-- 
2.43.0


From 1ef1dfb9c5c673c2e22d79abbcdeb210e8ce1de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 57/85] fix: FDTD refined grids lost a cell when a product
 rounded down

---
 openms/lib/fdtd/parameter.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/openms/lib/fdtd/parameter.c b/openms/lib/fdtd/parameter.c
index e0c7bc1..91c2f42 100755
--- a/openms/lib/fdtd/parameter.c
+++ b/openms/lib/fdtd/parameter.c
@@ -501,13 +501,14 @@ void generate_base_grid() {
   for (i = 1; i <= ngrid_n; i++) {
     if (i == 1)
       base_grid[1] =
-          (ngrid[0].nz_end - ngrid[0].nz_start) * ngrid[0].lattice_nz +
-          (ngrid[0].nz_start + 0.5 * zsize) * lattice_z;
+          floor(0.5 + (ngrid[0].nz_end - ngrid[0].nz_start) * ngrid[0].lattice_nz +
+                (ngrid[0].nz_start + 0.5 * zsize) * lattice_z);
     else
       base_grid[i] = base_grid[i - 1] +
-                     (ngrid[i - 1].nz_end - ngrid[i - 1].nz_start) *
-                         ngrid[i - 1].lattice_nz +
-                     (ngrid[i - 1].nz_start - ngrid[i - 2].nz_end) * lattice_z;
+                     floor(0.5 + (ngrid[i - 1].nz_end - ngrid[i - 1].nz_start) *
+                                     ngrid[i - 1].lattice_nz +
+                           (ngrid[i - 1].nz_start - ngrid[i - 2].nz_end) *
+                               lattice_z);
     printf("base_grid[%d] = %d\n", i, base_grid[i]);
   }
 }
-- 
2.43.0


From 7e3b115ffde5aa1ab80f9c4dcc194274d1ae38ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 58/85] fix: FDTD shape names overflowed their buffer
 (ellipsoidal)

---
 openms/lib/fdtd/pFDTD.h | 632 ++++++++++++++++++++--------------------
 1 file changed, 316 insertions(+), 316 deletions(-)

diff --git a/openms/lib/fdtd/pFDTD.h b/openms/lib/fdtd/pFDTD.h
index 18534a9..25060e7 100755
--- a/openms/lib/fdtd/pFDTD.h
+++ b/openms/lib/fdtd/pFDTD.h
@@ -1,316 +1,316 @@
-
-/********************************************************************
-           3D Finite Difference Time Domain (FDTD)
----------------------------------------------------------------------
----------------------------------------------------------------------
-*/
-
-//-----------------------------------------------------------------//
-// Standard libraries in C
-//-----------------------------------------------------------------//
-
-#include <gsl/gsl_randist.h>
-#include <gsl/gsl_rng.h>
-#include <math.h>
-#include <stdio.h>
-#include <stdlib.h>
-#include <string.h>
-
-//-----------------------------------------------------------------//
-// Definitions of macros
-//-----------------------------------------------------------------//
-#define EMP 0           // for dummy input variables
-#define CUTFACTOR 1     // matrix data cutting parameter
-#define FALSE 0         // member variables for far_field_FFT(..)
-#define TRUE 1          // member variables for far_field_FFT(..)
-#define NR_END 1        // from numerical recipe, in memory.c
-#define FREE_ARG char * // from numerical recipe, in memory.c
-
-//-----------------------------------------------------------------//
-// Definitions of structures
-//-----------------------------------------------------------------//
-struct obj {
-  char shape[10];
-  float centeri;
-  float centerj;
-  float centerk;
-  float size1;
-  float size2;
-  float size3;
-  float epsilon;
-  float **matrix; // contour matrix data
-  int col;        // matrix col num
-  int row;        // matrix row num
-};
-
-struct mobj {
-  char shape[10];
-  float centeri;
-  float centerj;
-  float centerk;
-  float size1;     ///////////// Drude model /////////////////
-  float size2;     //                                       //
-  float size3;     //                    (omega_p)^2        //
-  float epsilon_b; //  eps(w) = eps_b - ------------------  //
-  float omega_p;   //                   w^2 + j w gamma_0   //
-  float gamma_0;   ///////////////////////////////////////////
-  float **matrix;  // contour matrix data
-  int col;         // matrix col num
-  int row;         // matrix row num
-};
-struct COMPLEX {
-  float real;
-  float imag;
-};
-struct ngrid_info // for non-uniform grid function
-{
-  int lattice_nz;
-  float nz_start;
-  float nz_end;
-};
-
-//-----------------------------------------------------------------//
-// functions
-//-----------------------------------------------------------------//
-void structure_size(float x, float y, float z);
-void lattice_size(int lx, int ly, int lz);
-void non_uniform_grid(char *component, float z_i, float z_f, int nlz);
-int non_uniform_z_to_i(float z);
-float non_uniform_i_to_z(int i);
-int ngrid_lattice_nz_z(float z);
-int ngrid_lattice_nz_i(int i);
-int find_max_lattice_nz();
-void pml_size(int il, int ir, int jl, int jr, int kl, int kr);
-void set_default_parameter(float S);
-void set_sigma_order(float oxl, float oxr, float oyl, float oyr, float ozl,
-                     float ozr);
-void set_sigma_max(float axl, float axr, float ayl, float ayr, float azl,
-                   float azr);
-void set_kappa(float kappa_x, float kappa_y, float kappa_z);
-void Hz_parity(int x, int y, int z);
-void periodic_boundary(int x_on, int y_on, float k_x, float k_y);
-void memory();
-void make_epsilon();
-void make_metal_structure();
-void background(float epsilon);
-void input_object(char *shape, char *matrix_file, float centerx, float centery,
-                  float centerz,
-                  float size1, // discrination level
-                  float size2, // height
-                  float size3, // compression factor
-                  float epsilon);
-void input_object_Euler_rotation(char *shape, char *matrix_file, float centerx,
-                                 float centery, float centerz, float size1,
-                                 float size2, float size3, float alpha,
-                                 float beta, float gamma, float epsilon);
-void input_molecular(char *shape, float centerx, float centery, float centerz,
-                     float size1, float size2, float size3);
-void input_Drude_medium(char *shape, float centerx, float centery,
-                        float centerz, float size1, float size2, float size3,
-                        float epsilon_b, float omega_p, float gamma_0,
-                        float lattice_n);
-void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
-                         float centery, float centerz, float size1, float size2,
-                         float size3, float epsilon_b, float omega_p,
-                         float gamma_0, float lattice_n);
-void random_object(char *shape, float radius, float height, float epsilon,
-                   float x_min, float x_max, float y_min, float y_max,
-                   float z_min, float z_max, int gen_number, int seed);
-void random_Gaussian_dipole(char *component, float frequency, float tdecay,
-                            float x_min, float x_max, float y_min, float y_max,
-                            float z_min, float z_max, int gen_number, int seed);
-void far_field_param(float *OMEGA, float DETECT);
-void make_2n_size(int NROW, int mm);
-void far_field_FFT(int NROW, float NA, float Nfree, float *OMEGA, int mm);
-void coefficient();
-void coefficient_cpml();
-float sigmax(float a);
-float sigmay(float a);
-float sigmaz(float a);
-float cpmlax(float a, float pmlbl, float pmlbr);
-float cpmlbx(float a, float pmlbl, float pmlbr);
-float kappa_x(float a, float pmlbl, float pmlbr);
-
-void propagate();
-void propagate_tri(); ///// for triangular lattice
-void Gaussian_dipole_source(char *component, float x, float y, float z,
-                            float frequency, float phaes, long to, long tdecay);
-void external_source(char *component, float x, float y, float z, float Ext);
-void external_planewave(char *Ecomp, char *Hcomp, float z, float Ext);
-void Gaussian_planewave(char *Ecomp, char *Hcomp, float position,
-                        float frequency, long to, long tdecay);
-void Gaussian_beam_prop_Gauss(char *Ecomp, char *Hcomp, float x, float y,
-                              float z, float z_c, float wo, float n,
-                              float frequency, long to, long tdecay);
-void Lorentzian_planewave(char *Ecomp, char *Hcomp, float position,
-                          float frequency, long to, long tdecay);
-void Gaussian_beam_prop_Lorentz(char *Ecomp, char *Hcomp, float x, float y,
-                                float z, float z_c, float wo, float n,
-                                float frequency, long to, long tdecay);
-void Gaussian_line_source(char *component, float position_x, float position_z,
-                          float frequency, float phase, long to, long tdecay);
-void Lorentzian_line_source(char *component, float position_x, float position_z,
-                            float frequency, float phase, long to, long tdecay);
-void Lorentzian_dipole_source(char *component, float x, float y, float z,
-                              float frequency, float phaes, long to,
-                              long tdecay);
-float Lorentzian_phase(float Wn, long tdecay);
-float Gaussian_phase(float Wn, long t_peak);
-void incoherent_point_dipole(char *function, float x, float y, float z,
-                             float frequency, long to, long tdecay, float t_mu,
-                             float sd);
-float eps(int i, int j, int k);
-float eps_m(int i, int j,
-            int k); // effective epsilon for Drude dispersive material
-float eps_m2(int i, int j, int k); // calculating kinetic energy of electrons
-float eps_m3(int i, int j, int k); // calculating potential energy of electrons
-float meps(int i, int j, int k);   // For Hz_parity()
-void out_epsilon(char *plane, float value, char *name);
-void out_epsilon_periodic(char *plane, float value, char *name, int m_h,
-                          int m_v);
-void out_epsilon_projection(char *dirc, char *name);
-void out_plane(char *component, char *plane, float value, char *lastname);
-void out_plane_projection(char *component, char *dirc, char *lastname,
-                          int k_shift);
-void out_plane_periodic(char *component, char *plane, float value,
-                        char *lastname, int m_h, int m_v);
-void out_plane_time_average(char *component, char *plane, float value,
-                            long start, long end, float ***field_avg,
-                            char *lastname);
-void out_plane_time_average_projection(char *component, char *dirc, long start,
-                                       long end, float ***field_avg,
-                                       char *lastname, int k_shift);
-void out_several_points(char *component, float zposition, float xside,
-                        float yside, int pNx, int pNy, long ti, long tf,
-                        char *name);
-void out_point(char *component, float x, float y, float z, long ti, long tf,
-               char *name);
-float grid_value(char *component, int i, int j, int k);
-void total_E_energy();
-void total_EM_energy();
-void total_E_energy_block(float centerx, float centery, float centerz,
-                          float size1, float size2, float size3);
-void total_E_energy2_block(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3);
-void total_E_energy3_block(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3);
-void total_E_energy_thin_block_z(float centerx, float centery, float centerz,
-                                 float size1, float size2, float size3,
-                                 float eps_L, float eps_H, char *name);
-void max_E_Energy_detector(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3);
-void total_EM_energy_block(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3);
-void total_E2();
-void Drude_energy_loss_in_block(float centerx, float centery, float centerz,
-                                float size1, float size2, float size3);
-void Drude_energy_loss_in_block2(float centerx, float centery, float centerz,
-                                 float size1, float size2, float size3,
-                                 float WC, float lattice_n);
-void Poynting_total();
-void Poynting_block(float centerx, float centery, float centerz, float size1,
-                    float size2, float size3);
-float Poynting_half_sphere_point(char *component, float z0, float R,
-                                 float theta, float phi);
-void Poynting_side(float value, float zposition);
-void print_energy();
-void Poynting_UpDown(float value, float zposition);
-void free_3d_memory(float ***t, int nrh, int nch, int ndh);
-void transform_farfield(int NROW, int tnum, char *name, int mm);
-void add_farfield(int tnum, char *name);
-void print_amp_and_phase(int mm);
-void print_real_and_imag(int mm);
-void print_real_and_imag_2n_size(int NROW, int mm);
-void field_initialization();
-void real_space_param(float a_nm, float w_n);
-int get_period_in_update(float w_n);
-float Gauss_amp(float frequency, float phase, long to, long tdecay);
-float Lorentz_amp(float frequency, float phase, long to, long tdecay);
-float iGauss_amp(float frequency, float phase, long to, long tdecay);
-float iLorentz_amp(float frequency, float phase, long to, long tdecay);
-
-//-----------------------------------------------------------------//
-// extern variables
-//-----------------------------------------------------------------//
-/// in main.c ///
-extern float shift;
-extern int SpecN;
-extern long t;
-extern float Sumx, Sumy, Sumz, SideSumx, SideSumy;
-extern float SumUpper, SumLower;
-extern const gsl_rng_type *rng_type;
-extern gsl_rng *rng_r;
-
-/// in parameter.c ///
-extern int isize, jsize, ksize;
-extern int pmlil, pmlir, pmljl, pmljr, pmlkl, pmlkr;
-extern int lattice_x, lattice_y, lattice_z;
-extern int max_lattice_nz;
-extern float xsize, ysize, zsize;
-extern float xcenter, ycenter, zcenter;
-extern float kx, ky, kz;
-extern float orderxl, orderyl, orderzl;
-extern float orderxr, orderyr, orderzr;
-extern float sig_axl, sig_ayl, sig_azl;
-extern float sig_axr, sig_ayr, sig_azr;
-extern float ds_x, ds_y, ds_z, dt;
-extern float dt_nm;
-extern float *ds_nz;
-extern float S_factor;
-extern float pi, eo, uo, ups, light_speed;
-extern int misize, mjsize, mksize;
-extern int pisize, pjsize, pksize;
-extern int cisize, cjsize, cksize;
-extern int xparity, yparity, zparity;
-extern float wave_vector_x, wave_vector_y;
-extern int use_periodic_x, use_periodic_y;
-
-extern int m_pml, ma_pml;
-extern float sigmaCPML, alphaCPML, kappaCPML;
-
-/// in memory.c ///
-extern char ***position;
-extern float ***epsilonx, ***epsilony, ***epsilonz;
-extern float ***mepsilon, ***momega, ***mgamma;
-extern float ***Ex, ***Ey, ***Ez;
-extern float ***dPx, ***dPy, ***dPz;
-extern float ***dPx_old, ***dPy_old, ***dPz_old;
-extern float ***Jx, ***Jy, ***Jz;
-extern float ***Hx, ***Hy, ***Hz;
-extern float ***Dx, ***Dy, ***Dz;
-extern float ***Bx, ***By, ***Bz;
-extern float ***iEx, ***iEy, ***iEz;
-extern float ***iJx, ***iJy, ***iJz;
-extern float ***iHx, ***iHy, ***iHz;
-extern float ***iDx, ***iDy, ***iDz;
-extern float ***iBx, ***iBy, ***iBz;
-extern float *aax, *aay, *aaz;
-extern float *bbx, *bby, *bbz;
-extern float *ccx, *ccy, *ccz;
-extern float ***ddx, ***ddy, ***ddz;
-extern float *eex, *eey, *eez;
-extern float *ffx, *ffy, *ffz;
-extern float *ggx, *ggy, *ggz;
-extern float *hhx, *hhy, *hhz;
-extern float *iix, *iiy, *iiz;
-extern float *jjx, *jjy, *jjz;
-extern float *kkx, *kky, *kkz;
-extern float *llx, *lly, *llz;
-extern float ***Ex_cos, ***Ex_sin;
-extern float ***Ey_cos, ***Ey_sin;
-extern float ***Hx_cos, ***Hx_sin;
-extern float ***Hy_cos, ***Hy_sin;
-
-// cpml
-extern float ***psi_Exy, ***psi_Exz;
-extern float ***psi_Eyx, ***psi_Eyz;
-extern float ***psi_Ezy, ***psi_Ezx;
-extern float ***psi_Hxy, ***psi_Hxz;
-extern float ***psi_Hyx, ***psi_Hyz;
-extern float ***psi_Hzy, ***psi_Hzx;
-
-/// in input.c ///
-extern float back_epsilon;
-
-/// in output.c ///
-extern float global_W;
+
+/********************************************************************
+           3D Finite Difference Time Domain (FDTD)
+---------------------------------------------------------------------
+---------------------------------------------------------------------
+*/
+
+//-----------------------------------------------------------------//
+// Standard libraries in C
+//-----------------------------------------------------------------//
+
+#include <gsl/gsl_randist.h>
+#include <gsl/gsl_rng.h>
+#include <math.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+
+//-----------------------------------------------------------------//
+// Definitions of macros
+//-----------------------------------------------------------------//
+#define EMP 0           // for dummy input variables
+#define CUTFACTOR 1     // matrix data cutting parameter
+#define FALSE 0         // member variables for far_field_FFT(..)
+#define TRUE 1          // member variables for far_field_FFT(..)
+#define NR_END 1        // from numerical recipe, in memory.c
+#define FREE_ARG char * // from numerical recipe, in memory.c
+
+//-----------------------------------------------------------------//
+// Definitions of structures
+//-----------------------------------------------------------------//
+struct obj {
+  char shape[16];
+  float centeri;
+  float centerj;
+  float centerk;
+  float size1;
+  float size2;
+  float size3;
+  float epsilon;
+  float **matrix; // contour matrix data
+  int col;        // matrix col num
+  int row;        // matrix row num
+};
+
+struct mobj {
+  char shape[16];
+  float centeri;
+  float centerj;
+  float centerk;
+  float size1;     ///////////// Drude model /////////////////
+  float size2;     //                                       //
+  float size3;     //                    (omega_p)^2        //
+  float epsilon_b; //  eps(w) = eps_b - ------------------  //
+  float omega_p;   //                   w^2 + j w gamma_0   //
+  float gamma_0;   ///////////////////////////////////////////
+  float **matrix;  // contour matrix data
+  int col;         // matrix col num
+  int row;         // matrix row num
+};
+struct COMPLEX {
+  float real;
+  float imag;
+};
+struct ngrid_info // for non-uniform grid function
+{
+  int lattice_nz;
+  float nz_start;
+  float nz_end;
+};
+
+//-----------------------------------------------------------------//
+// functions
+//-----------------------------------------------------------------//
+void structure_size(float x, float y, float z);
+void lattice_size(int lx, int ly, int lz);
+void non_uniform_grid(char *component, float z_i, float z_f, int nlz);
+int non_uniform_z_to_i(float z);
+float non_uniform_i_to_z(int i);
+int ngrid_lattice_nz_z(float z);
+int ngrid_lattice_nz_i(int i);
+int find_max_lattice_nz();
+void pml_size(int il, int ir, int jl, int jr, int kl, int kr);
+void set_default_parameter(float S);
+void set_sigma_order(float oxl, float oxr, float oyl, float oyr, float ozl,
+                     float ozr);
+void set_sigma_max(float axl, float axr, float ayl, float ayr, float azl,
+                   float azr);
+void set_kappa(float kappa_x, float kappa_y, float kappa_z);
+void Hz_parity(int x, int y, int z);
+void periodic_boundary(int x_on, int y_on, float k_x, float k_y);
+void memory();
+void make_epsilon();
+void make_metal_structure();
+void background(float epsilon);
+void input_object(char *shape, char *matrix_file, float centerx, float centery,
+                  float centerz,
+                  float size1, // discrination level
+                  float size2, // height
+                  float size3, // compression factor
+                  float epsilon);
+void input_object_Euler_rotation(char *shape, char *matrix_file, float centerx,
+                                 float centery, float centerz, float size1,
+                                 float size2, float size3, float alpha,
+                                 float beta, float gamma, float epsilon);
+void input_molecular(char *shape, float centerx, float centery, float centerz,
+                     float size1, float size2, float size3);
+void input_Drude_medium(char *shape, float centerx, float centery,
+                        float centerz, float size1, float size2, float size3,
+                        float epsilon_b, float omega_p, float gamma_0,
+                        float lattice_n);
+void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
+                         float centery, float centerz, float size1, float size2,
+                         float size3, float epsilon_b, float omega_p,
+                         float gamma_0, float lattice_n);
+void random_object(char *shape, float radius, float height, float epsilon,
+                   float x_min, float x_max, float y_min, float y_max,
+                   float z_min, float z_max, int gen_number, int seed);
+void random_Gaussian_dipole(char *component, float frequency, float tdecay,
+                            float x_min, float x_max, float y_min, float y_max,
+                            float z_min, float z_max, int gen_number, int seed);
+void far_field_param(float *OMEGA, float DETECT);
+void make_2n_size(int NROW, int mm);
+void far_field_FFT(int NROW, float NA, float Nfree, float *OMEGA, int mm);
+void coefficient();
+void coefficient_cpml();
+float sigmax(float a);
+float sigmay(float a);
+float sigmaz(float a);
+float cpmlax(float a, float pmlbl, float pmlbr);
+float cpmlbx(float a, float pmlbl, float pmlbr);
+float kappa_x(float a, float pmlbl, float pmlbr);
+
+void propagate();
+void propagate_tri(); ///// for triangular lattice
+void Gaussian_dipole_source(char *component, float x, float y, float z,
+                            float frequency, float phaes, long to, long tdecay);
+void external_source(char *component, float x, float y, float z, float Ext);
+void external_planewave(char *Ecomp, char *Hcomp, float z, float Ext);
+void Gaussian_planewave(char *Ecomp, char *Hcomp, float position,
+                        float frequency, long to, long tdecay);
+void Gaussian_beam_prop_Gauss(char *Ecomp, char *Hcomp, float x, float y,
+                              float z, float z_c, float wo, float n,
+                              float frequency, long to, long tdecay);
+void Lorentzian_planewave(char *Ecomp, char *Hcomp, float position,
+                          float frequency, long to, long tdecay);
+void Gaussian_beam_prop_Lorentz(char *Ecomp, char *Hcomp, float x, float y,
+                                float z, float z_c, float wo, float n,
+                                float frequency, long to, long tdecay);
+void Gaussian_line_source(char *component, float position_x, float position_z,
+                          float frequency, float phase, long to, long tdecay);
+void Lorentzian_line_source(char *component, float position_x, float position_z,
+                            float frequency, float phase, long to, long tdecay);
+void Lorentzian_dipole_source(char *component, float x, float y, float z,
+                              float frequency, float phaes, long to,
+                              long tdecay);
+float Lorentzian_phase(float Wn, long tdecay);
+float Gaussian_phase(float Wn, long t_peak);
+void incoherent_point_dipole(char *function, float x, float y, float z,
+                             float frequency, long to, long tdecay, float t_mu,
+                             float sd);
+float eps(int i, int j, int k);
+float eps_m(int i, int j,
+            int k); // effective epsilon for Drude dispersive material
+float eps_m2(int i, int j, int k); // calculating kinetic energy of electrons
+float eps_m3(int i, int j, int k); // calculating potential energy of electrons
+float meps(int i, int j, int k);   // For Hz_parity()
+void out_epsilon(char *plane, float value, char *name);
+void out_epsilon_periodic(char *plane, float value, char *name, int m_h,
+                          int m_v);
+void out_epsilon_projection(char *dirc, char *name);
+void out_plane(char *component, char *plane, float value, char *lastname);
+void out_plane_projection(char *component, char *dirc, char *lastname,
+                          int k_shift);
+void out_plane_periodic(char *component, char *plane, float value,
+                        char *lastname, int m_h, int m_v);
+void out_plane_time_average(char *component, char *plane, float value,
+                            long start, long end, float ***field_avg,
+                            char *lastname);
+void out_plane_time_average_projection(char *component, char *dirc, long start,
+                                       long end, float ***field_avg,
+                                       char *lastname, int k_shift);
+void out_several_points(char *component, float zposition, float xside,
+                        float yside, int pNx, int pNy, long ti, long tf,
+                        char *name);
+void out_point(char *component, float x, float y, float z, long ti, long tf,
+               char *name);
+float grid_value(char *component, int i, int j, int k);
+void total_E_energy();
+void total_EM_energy();
+void total_E_energy_block(float centerx, float centery, float centerz,
+                          float size1, float size2, float size3);
+void total_E_energy2_block(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3);
+void total_E_energy3_block(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3);
+void total_E_energy_thin_block_z(float centerx, float centery, float centerz,
+                                 float size1, float size2, float size3,
+                                 float eps_L, float eps_H, char *name);
+void max_E_Energy_detector(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3);
+void total_EM_energy_block(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3);
+void total_E2();
+void Drude_energy_loss_in_block(float centerx, float centery, float centerz,
+                                float size1, float size2, float size3);
+void Drude_energy_loss_in_block2(float centerx, float centery, float centerz,
+                                 float size1, float size2, float size3,
+                                 float WC, float lattice_n);
+void Poynting_total();
+void Poynting_block(float centerx, float centery, float centerz, float size1,
+                    float size2, float size3);
+float Poynting_half_sphere_point(char *component, float z0, float R,
+                                 float theta, float phi);
+void Poynting_side(float value, float zposition);
+void print_energy();
+void Poynting_UpDown(float value, float zposition);
+void free_3d_memory(float ***t, int nrh, int nch, int ndh);
+void transform_farfield(int NROW, int tnum, char *name, int mm);
+void add_farfield(int tnum, char *name);
+void print_amp_and_phase(int mm);
+void print_real_and_imag(int mm);
+void print_real_and_imag_2n_size(int NROW, int mm);
+void field_initialization();
+void real_space_param(float a_nm, float w_n);
+int get_period_in_update(float w_n);
+float Gauss_amp(float frequency, float phase, long to, long tdecay);
+float Lorentz_amp(float frequency, float phase, long to, long tdecay);
+float iGauss_amp(float frequency, float phase, long to, long tdecay);
+float iLorentz_amp(float frequency, float phase, long to, long tdecay);
+
+//-----------------------------------------------------------------//
+// extern variables
+//-----------------------------------------------------------------//
+/// in main.c ///
+extern float shift;
+extern int SpecN;
+extern long t;
+extern float Sumx, Sumy, Sumz, SideSumx, SideSumy;
+extern float SumUpper, SumLower;
+extern const gsl_rng_type *rng_type;
+extern gsl_rng *rng_r;
+
+/// in parameter.c ///
+extern int isize, jsize, ksize;
+extern int pmlil, pmlir, pmljl, pmljr, pmlkl, pmlkr;
+extern int lattice_x, lattice_y, lattice_z;
+extern int max_lattice_nz;
+extern float xsize, ysize, zsize;
+extern float xcenter, ycenter, zcenter;
+extern float kx, ky, kz;
+extern float orderxl, orderyl, orderzl;
+extern float orderxr, orderyr, orderzr;
+extern float sig_axl, sig_ayl, sig_azl;
+extern float sig_axr, sig_ayr, sig_azr;
+extern float ds_x, ds_y, ds_z, dt;
+extern float dt_nm;
+extern float *ds_nz;
+extern float S_factor;
+extern float pi, eo, uo, ups, light_speed;
+extern int misize, mjsize, mksize;
+extern int pisize, pjsize, pksize;
+extern int cisize, cjsize, cksize;
+extern int xparity, yparity, zparity;
+extern float wave_vector_x, wave_vector_y;
+extern int use_periodic_x, use_periodic_y;
+
+extern int m_pml, ma_pml;
+extern float sigmaCPML, alphaCPML, kappaCPML;
+
+/// in memory.c ///
+extern char ***position;
+extern float ***epsilonx, ***epsilony, ***epsilonz;
+extern float ***mepsilon, ***momega, ***mgamma;
+extern float ***Ex, ***Ey, ***Ez;
+extern float ***dPx, ***dPy, ***dPz;
+extern float ***dPx_old, ***dPy_old, ***dPz_old;
+extern float ***Jx, ***Jy, ***Jz;
+extern float ***Hx, ***Hy, ***Hz;
+extern float ***Dx, ***Dy, ***Dz;
+extern float ***Bx, ***By, ***Bz;
+extern float ***iEx, ***iEy, ***iEz;
+extern float ***iJx, ***iJy, ***iJz;
+extern float ***iHx, ***iHy, ***iHz;
+extern float ***iDx, ***iDy, ***iDz;
+extern float ***iBx, ***iBy, ***iBz;
+extern float *aax, *aay, *aaz;
+extern float *bbx, *bby, *bbz;
+extern float *ccx, *ccy, *ccz;
+extern float ***ddx, ***ddy, ***ddz;
+extern float *eex, *eey, *eez;
+extern float *ffx, *ffy, *ffz;
+extern float *ggx, *ggy, *ggz;
+extern float *hhx, *hhy, *hhz;
+extern float *iix, *iiy, *iiz;
+extern float *jjx, *jjy, *jjz;
+extern float *kkx, *kky, *kkz;
+extern float *llx, *lly, *llz;
+extern float ***Ex_cos, ***Ex_sin;
+extern float ***Ey_cos, ***Ey_sin;
+extern float ***Hx_cos, ***Hx_sin;
+extern float ***Hy_cos, ***Hy_sin;
+
+// cpml
+extern float ***psi_Exy, ***psi_Exz;
+extern float ***psi_Eyx, ***psi_Eyz;
+extern float ***psi_Ezy, ***psi_Ezx;
+extern float ***psi_Hxy, ***psi_Hxz;
+extern float ***psi_Hyx, ***psi_Hyz;
+extern float ***psi_Hzy, ***psi_Hzx;
+
+/// in input.c ///
+extern float back_epsilon;
+
+/// in output.c ///
+extern float global_W;
-- 
2.43.0


From c0934950b07fc264fd59d4081d2b168fe8bed7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 59/85] fix: FDTD cones had their radius truncated to whole
 cells

---
 openms/lib/fdtd/input.c    | 1446 ++++++++++++++++++------------------
 openms/lib/fdtd/metalobj.c | 1158 ++++++++++++++---------------
 2 files changed, 1302 insertions(+), 1302 deletions(-)

diff --git a/openms/lib/fdtd/input.c b/openms/lib/fdtd/input.c
index 8bbd808..5434409 100755
--- a/openms/lib/fdtd/input.c
+++ b/openms/lib/fdtd/input.c
@@ -1,723 +1,723 @@
-#include "./pFDTD.h"
-
-int in_object(int n, float i, float j, float k);
-void reading_matrix(char *matrix_file, int n);
-float average_epsilon(float i, float j, float k);
-void generate_random_2D(float x_min, float x_max, float y_min, float y_max,
-                        float radius, float *xr, float *yr, int i);
-void generate_random_3D(float x_min, float x_max, float y_min, float y_max,
-                        float z_min, float z_max, float radius, float *xr,
-                        float *yr, float *zr, int i);
-float rand_distance_2D(float x_scan, float y_scan, float x_temp, float y_temp);
-float rand_distance_3D(float x_scan, float y_scan, float z_scan, float x_temp,
-                       float y_temp, float z_temp);
-
-float back_epsilon;
-int objectn = 0;
-struct obj *object;
-
-///// For Euler rotation ///////
-///// [n] : object index ///////
-/// a = alpha, b=beta, c=gamma ///
-float *cos_a, *cos_b, *cos_c;
-float *sin_a, *sin_b, *sin_c;
-//////////////////////////////////////
-
-void background(float epsilon) {
-  int i, j, k;
-
-  back_epsilon = epsilon;
-
-  for (i = 0; i < misize; i++)
-    for (j = 0; j < mjsize; j++)
-      for (k = 0; k < mksize; k++)
-        epsilonx[i][j][k] = epsilony[i][j][k] = epsilonz[i][j][k] =
-            back_epsilon;
-
-  printf("background...ok\n");
-}
-
-void input_object(char *shape, char *matrix_file, float centerx, float centery,
-                  float centerz, float size1, float size2, float size3,
-                  float epsilon) {
-  objectn++;
-
-  object = (struct obj *)realloc(object, sizeof(struct obj) * objectn);
-
-  cos_a = (float *)realloc(cos_a, sizeof(float) * objectn);
-  cos_b = (float *)realloc(cos_b, sizeof(float) * objectn);
-  cos_c = (float *)realloc(cos_c, sizeof(float) * objectn);
-  sin_a = (float *)realloc(sin_a, sizeof(float) * objectn);
-  sin_b = (float *)realloc(sin_b, sizeof(float) * objectn);
-  sin_c = (float *)realloc(sin_c, sizeof(float) * objectn);
-
-  strcpy(object[objectn - 1].shape, shape);
-
-  //////// common parameters ///////
-  object[objectn - 1].epsilon = epsilon;
-  //////////////////////////////////
-  cos_a[objectn - 1] = 1.0;
-  cos_b[objectn - 1] = 1.0;
-  cos_c[objectn - 1] = 1.0;
-  sin_a[objectn - 1] = 0.0;
-  sin_b[objectn - 1] = 0.0;
-  sin_c[objectn - 1] = 0.0;
-
-  // in the below, we define various input parameters case by case.
-
-  if (strcmp(shape, "contour") == 0) {
-    object[objectn - 1].centeri = centerx; // matrix_center
-    object[objectn - 1].centerj = centery; // matrix_center
-    object[objectn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    object[objectn - 1].size1 = size1; // discrimination level
-    object[objectn - 1].size2 =
-        (size2); // height  // for non_uniform_grid() .....
-    object[objectn - 1].size3 = size3; // compression factor
-    reading_matrix(matrix_file, objectn - 1);
-  } else if (strcmp(shape, "rod") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-    object[objectn - 1].size2 =
-        (size2); // height  // for non_uniform_grid() ....
-  } else if (strcmp(shape, "rodX") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_y; // radius
-    object[objectn - 1].size2 = size2 * lattice_x; // x length
-  } else if (strcmp(shape, "rodY") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-    object[objectn - 1].size2 = size2 * lattice_y; // y length
-  } else if (strcmp(shape, "donut") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    object[objectn - 1].size1 = size1 * lattice_x; // inner radius
-    object[objectn - 1].size2 = size2 * lattice_x; // outer radius
-    object[objectn - 1].size3 =
-        (size3); // height  // for non_uniform_grid() ....
-  } else if (strcmp(shape, "sphere") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-  } else if (strcmp(shape, "shell") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // inner radius
-    object[objectn - 1].size2 = size2 * lattice_x; // outer radius
-  } else if (strcmp(shape, "ellipse") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-    object[objectn - 1].size2 =
-        (size2); // height (centerz); // for non_uniform_grid() ....
-    object[objectn - 1].size3 = size3; // aspect ratio=ry/rx
-  } else if (strcmp(shape, "ellipsoidal") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // rx
-    object[objectn - 1].size2 = size2 * lattice_y; // ry
-    object[objectn - 1].size3 = size3 * lattice_z; // rz
-  } else if (strcmp(shape, "cone") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz);       // for non_uniform_grid()
-    object[objectn - 1].size1 = size1 * lattice_x; // r1
-    object[objectn - 1].size2 = size2 * lattice_x; // r2
-    object[objectn - 1].size3 = (size3); // for non_uniform_grid(), height
-  } else                                 // "block"
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    object[objectn - 1].size1 = size1 * lattice_x;
-    object[objectn - 1].size2 = size2 * lattice_y;
-    object[objectn - 1].size3 =
-        (size3); // for non_uniform_grid(), the meaning changed
-  }
-}
-
-void input_object_Euler_rotation(char *shape, char *matrix_file, float centerx,
-                                 float centery, float centerz, float size1,
-                                 float size2, float size3, float alpha,
-                                 float beta, float gamma, float epsilon)
-// alpha, beta, gamma : 3- Euler angles
-{
-  objectn++;
-
-  object = (struct obj *)realloc(object, sizeof(struct obj) * objectn);
-
-  cos_a = (float *)realloc(cos_a, sizeof(float) * objectn);
-  cos_b = (float *)realloc(cos_b, sizeof(float) * objectn);
-  cos_c = (float *)realloc(cos_c, sizeof(float) * objectn);
-  sin_a = (float *)realloc(sin_a, sizeof(float) * objectn);
-  sin_b = (float *)realloc(sin_b, sizeof(float) * objectn);
-  sin_c = (float *)realloc(sin_c, sizeof(float) * objectn);
-
-  strcpy(object[objectn - 1].shape, shape);
-
-  //////// common parameters ///////
-  object[objectn - 1].epsilon = epsilon;
-  //////////////////////////////////
-  cos_a[objectn - 1] = cos(alpha * pi / 180);
-  cos_b[objectn - 1] = cos(beta * pi / 180);
-  cos_c[objectn - 1] = cos(gamma * pi / 180);
-  sin_a[objectn - 1] = sin(alpha * pi / 180);
-  sin_b[objectn - 1] = sin(beta * pi / 180);
-  sin_c[objectn - 1] = sin(gamma * pi / 180);
-
-  //// in the below, we define various input parameters case by case. ////
-  //// Contrary to "input_object()", 'Euler rotaion' cannot be applied to
-  ///"sphere" and "contour"////
-
-  if (strcmp(shape, "rod") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-    object[objectn - 1].size2 = size2 * lattice_z; // height
-    strcpy(object[objectn - 1].shape, "Rrod");     // Euler Rotation indicator
-  } else if (strcmp(shape, "ellipse") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-    object[objectn - 1].size2 = size2 * lattice_z; // height
-    object[objectn - 1].size3 = size3;             // aspect ratio=ry/rx
-    strcpy(object[objectn - 1].shape, "Rellipse"); // Euler Rotation indicator
-  } else if (strcmp(shape, "ellipsoidal") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // rx
-    object[objectn - 1].size2 = size2 * lattice_y; // ry
-    object[objectn - 1].size3 = size3 * lattice_z; // rz
-    strcpy(object[objectn - 1].shape,
-           "Rellipsoidal"); // Euler Rotation indicator
-  } else if (strcmp(shape, "block") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x;
-    object[objectn - 1].size2 = size2 * lattice_y;
-    object[objectn - 1].size3 = size3 * lattice_z;
-    strcpy(object[objectn - 1].shape, "Rblock"); // Euler Rotation indicator
-  } else {
-  }
-}
-
-void random_object(char *shape, float radius, float height, float epsilon,
-                   float x_min, float x_max, float y_min, float y_max,
-                   float z_min, float z_max, int gen_number, int seed) {
-  int i;
-  float *xr, *yr, *zr; // random number coordinates
-
-  srand(seed); // initialization of random number generator
-
-  if (strcmp(shape, "rod") == 0) {
-    xr = (float *)malloc(sizeof(float) * gen_number);
-    yr = (float *)malloc(sizeof(float) * gen_number);
-
-    for (i = 0; i < gen_number; i++) {
-      generate_random_2D(x_min, x_max, y_min, y_max, radius, xr, yr, i);
-      input_object("rod", EMP, xr[i], yr[i], 0 + shift, radius, height, 0,
-                   epsilon);
-    }
-  }
-
-  if (strcmp(shape, "sphere") == 0) {
-    xr = (float *)malloc(sizeof(float) * gen_number);
-    yr = (float *)malloc(sizeof(float) * gen_number);
-    zr = (float *)malloc(sizeof(float) * gen_number);
-
-    for (i = 0; i < gen_number; i++) {
-      generate_random_3D(x_min, x_max, y_min, y_max, z_min, z_max, radius, xr,
-                         yr, zr, i);
-      input_object("sphere", EMP, xr[i], yr[i], zr[i], radius, 0, 0, epsilon);
-    }
-  }
-}
-
-void generate_random_2D(float x_min, float x_max, float y_min, float y_max,
-                        float radius, float *xr, float *yr, int i) {
-  int scan;
-  float xr_temp, yr_temp;
-
-  xr_temp =
-      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (x_max - x_min) +
-      x_min;
-  yr_temp =
-      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (y_max - y_min) +
-      y_min;
-
-  if (i > 0) {
-    while (1) {
-      for (scan = 0; scan < i; scan++)
-        if (rand_distance_2D(xr[scan], yr[scan], xr_temp, yr_temp) <
-            2 * radius) {
-          scan = -10;
-          break;
-        }
-
-      if (scan == i) {
-        xr[i] = xr_temp;
-        yr[i] = yr_temp;
-        break; // out of the while loop
-      } else {
-        xr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
-                      (x_max - x_min) +
-                  x_min;
-        yr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
-                      (y_max - y_min) +
-                  y_min;
-      }
-    }
-  }
-
-  if (i == 0) {
-    xr[i] = xr_temp;
-    yr[i] = yr_temp;
-  }
-}
-
-float rand_distance_2D(float x_scan, float y_scan, float x_temp, float y_temp) {
-  return (sqrt((x_scan - x_temp) * (x_scan - x_temp) +
-               (y_scan - y_temp) * (y_scan - y_temp)));
-}
-
-void generate_random_3D(float x_min, float x_max, float y_min, float y_max,
-                        float z_min, float z_max, float radius, float *xr,
-                        float *yr, float *zr, int i) {
-  int scan;
-  float xr_temp, yr_temp, zr_temp;
-
-  xr_temp =
-      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (x_max - x_min) +
-      x_min;
-  yr_temp =
-      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (y_max - y_min) +
-      y_min;
-  zr_temp =
-      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (z_max - z_min) +
-      z_min;
-
-  if (i > 0) {
-    while (1) {
-      for (scan = 0; scan < i; scan++)
-        if (rand_distance_3D(xr[scan], yr[scan], zr[scan], xr_temp, yr_temp,
-                             zr_temp) < 2 * radius) {
-          scan = -10;
-          break;
-        }
-
-      if (scan == i) {
-        xr[i] = xr_temp;
-        yr[i] = yr_temp;
-        zr[i] = zr_temp;
-        break; // out of the while loop
-      } else {
-        xr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
-                      (x_max - x_min) +
-                  x_min;
-        yr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
-                      (y_max - y_min) +
-                  y_min;
-        zr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
-                      (z_max - z_min) +
-                  z_min;
-      }
-    }
-  }
-
-  if (i == 0) {
-    xr[i] = xr_temp;
-    yr[i] = yr_temp;
-    zr[i] = zr_temp;
-  }
-}
-
-float rand_distance_3D(float x_scan, float y_scan, float z_scan, float x_temp,
-                       float y_temp, float z_temp) {
-  return (sqrt((x_scan - x_temp) * (x_scan - x_temp) +
-               (y_scan - y_temp) * (y_scan - y_temp) +
-               (z_scan - z_temp) * (z_scan - z_temp)));
-}
-
-void make_epsilon() {
-  int i, j, k;
-
-  printf("-----------------------\n");
-  printf("making the epsilon...\n");
-
-  for (i = 0; i < misize; i++) {
-    printf("%d% \n", 100 * i / misize);
-
-    for (j = 0; j < mjsize; j++)
-      for (k = 0; k < mksize; k++) {
-        epsilonx[i][j][k] = average_epsilon(i + 0.5, j, k);
-        epsilony[i][j][k] = average_epsilon(i, j + 0.5, k);
-        epsilonz[i][j][k] = average_epsilon(i, j, k + 0.5);
-      }
-  }
-
-  free(object);
-
-  printf("make_epsilon...ok\n");
-}
-
-float average_epsilon(float i, float j, float k) {
-  int n, m, partial = 0;
-  float ii, jj, kk, epsilon, partial_epsilon[1000];
-
-  epsilon = back_epsilon;
-  for (m = 0; m < 1000; m++)
-    partial_epsilon[m] = back_epsilon;
-
-  for (n = 0; n < objectn; n++) {
-
-    if (in_object(n, i - 0.5, j - 0.5, k - 0.5) == 0 &&
-        in_object(n, i - 0.5, j - 0.5, k + 0.5) == 0 &&
-        in_object(n, i - 0.5, j + 0.5, k - 0.5) == 0 &&
-        in_object(n, i - 0.5, j + 0.5, k + 0.5) == 0 &&
-        in_object(n, i + 0.5, j - 0.5, k - 0.5) == 0 &&
-        in_object(n, i + 0.5, j - 0.5, k + 0.5) == 0 &&
-        in_object(n, i + 0.5, j + 0.5, k - 0.5) == 0 &&
-        in_object(n, i + 0.5, j + 0.5, k + 0.5) == 0)
-      ;
-
-    else if (in_object(n, i - 0.5, j - 0.5, k - 0.5) == 1 &&
-             in_object(n, i - 0.5, j - 0.5, k + 0.5) == 1 &&
-             in_object(n, i - 0.5, j + 0.5, k - 0.5) == 1 &&
-             in_object(n, i - 0.5, j + 0.5, k + 0.5) == 1 &&
-             in_object(n, i + 0.5, j - 0.5, k - 0.5) == 1 &&
-             in_object(n, i + 0.5, j - 0.5, k + 0.5) == 1 &&
-             in_object(n, i + 0.5, j + 0.5, k - 0.5) == 1 &&
-             in_object(n, i + 0.5, j + 0.5, k + 0.5) == 1) {
-      epsilon = object[n].epsilon;
-      for (m = 0; m < 1000; m++)
-        partial_epsilon[m] = object[n].epsilon;
-      partial = 0;
-    }
-
-    else {
-      for (m = 0, ii = i - 0.45; ii < i + 0.5; ii = ii + 0.1)
-        for (jj = j - 0.45; jj < j + 0.5; jj = jj + 0.1)
-          for (kk = k - 0.45; kk < k + 0.5; kk = kk + 0.1, m++)
-            if (in_object(n, ii, jj, kk) == 1)
-              partial_epsilon[m] = object[n].epsilon;
-      partial = 1;
-    }
-  }
-
-  if (partial == 1)
-    for (epsilon = 0, m = 0; m < 1000; m++)
-      epsilon = epsilon + partial_epsilon[m] / 1000;
-
-  return epsilon;
-}
-
-int in_object(int n, float i, float j, float k) {
-  int I, J;
-  float X, Y, Z;
-  int temp;
-
-  if (strcmp(object[n].shape, "Rrod") != 0 &&
-      strcmp(object[n].shape, "Rellipse") != 0 &&
-      strcmp(object[n].shape, "Rellipsoidal") != 0 &&
-      strcmp(object[n].shape, "Rblock") != 0) {
-    if (strcmp(object[n].shape, "rod") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) <=
-              object[n].size1 * object[n].size1 &&
-          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <= k &&
-          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "rodX") == 0) {
-      if ((j - object[n].centerj) * (j - object[n].centerj) +
-                  (k - object[n].centerk) * (k - object[n].centerk) <=
-              object[n].size1 * object[n].size1 &&
-          object[n].centeri - object[n].size2 / 2 <= i &&
-          i <= object[n].centeri + object[n].size2 / 2)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "rodY") == 0) {
-      if ((k - object[n].centerk) * (k - object[n].centerk) +
-                  (i - object[n].centeri) * (i - object[n].centeri) <=
-              object[n].size1 * object[n].size1 &&
-          object[n].centerj - object[n].size2 / 2 <= j &&
-          j <= object[n].centerj + object[n].size2 / 2)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "donut") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) >=
-              object[n].size1 * object[n].size1 &&
-          (i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) <=
-              object[n].size2 * object[n].size2 &&
-          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3) <= k &&
-          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3))
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "sphere") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-              (j - object[n].centerj) * (j - object[n].centerj) +
-              (k - object[n].centerk) * (k - object[n].centerk) <=
-          object[n].size1 * object[n].size1)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "shell") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) +
-                  (k - object[n].centerk) * (k - object[n].centerk) >=
-              object[n].size1 * object[n].size1 &&
-          (i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) +
-                  (k - object[n].centerk) * (k - object[n].centerk) <=
-              object[n].size2 * object[n].size2)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "ellipse") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) /
-                      (object[n].size3 * object[n].size3) <=
-              object[n].size1 * object[n].size1 &&
-          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <= k &&
-          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "ellipsoidal") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) /
-                  ((object[n].size1) * (object[n].size1)) +
-              (j - object[n].centerj) * (j - object[n].centerj) /
-                  ((object[n].size2) * (object[n].size2)) +
-              (k - object[n].centerk) * (k - object[n].centerk) /
-                  ((object[n].size3) * (object[n].size3)) <=
-          1)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "cone") == 0) {
-      ///////////////////////////////////////////////
-      //  object[n].centerk & object[n].size3 --> in units of z
-      //  size3 : height
-      ///////////////////////////////////////////////
-      temp = (object[n].size1 - object[n].size2) *
-                 (non_uniform_i_to_z(k) - object[n].centerk) / object[n].size3 +
-             0.5 * (object[n].size1 +
-                    object[n].size2); // radius varying as a function of 'k'
-
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) <=
-              temp * temp &&
-          (k <=
-           non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3)) &&
-          (k >= non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3)))
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "block") == 0) {
-      if (object[n].centeri - object[n].size1 / 2 <= i &&
-          i <= object[n].centeri + object[n].size1 / 2 &&
-          object[n].centerj - object[n].size2 / 2 <= j &&
-          j <= object[n].centerj + object[n].size2 / 2 &&
-          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3) <= k &&
-          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3))
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "contour") == 0) {
-      if ((-object[n].centeri * CUTFACTOR <=
-           (i - (xcenter * lattice_x)) / object[n].size3) &&
-          ((i - (xcenter * lattice_x)) / object[n].size3 <=
-           (object[n].col - object[n].centeri) * CUTFACTOR) &&
-          (-object[n].centerj * CUTFACTOR <=
-           (j - (ycenter * lattice_y)) / object[n].size3) &&
-          ((j - (ycenter * lattice_y)) / object[n].size3 <=
-           (object[n].row - object[n].centerj) * CUTFACTOR) &&
-          (non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <=
-           k) &&
-          (k <=
-           non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))) {
-        I = floor(object[n].centeri +
-                  (i - (xcenter * lattice_x)) / object[n].size3);
-        J = floor(object[n].centerj +
-                  (j - (ycenter * lattice_y)) / object[n].size3);
-        if (object[n].matrix[I][J] <= object[n].size1)
-          return 1;
-      } else
-        return 0;
-    } else {
-    }
-  } else
-  ////if(strcmp(object[n].shape,"Rrod")==0 ||
-  ///strcmp(object[n].shape,"Rellipse")==0 ||
-  ////strcmp(object[n].shape,"Rellipsoidal")==0 ||
-  ///strcmp(object[n].shape,"Rblock")==0)
-  {
-    //// Transform (i,j,k) --> (X,Y,Z), the coordinate with respect to the
-    ///object
-    X = (cos_a[n] * cos_c[n] - sin_a[n] * cos_b[n] * sin_c[n]) *
-            (i - object[n].centeri) +
-        (sin_a[n] * cos_c[n] + cos_a[n] * cos_b[n] * sin_c[n]) *
-            (j - object[n].centerj) +
-        (sin_b[n] * sin_c[n]) * (k - object[n].centerk) + object[n].centeri;
-    Y = -(cos_a[n] * sin_c[n] + sin_a[n] * cos_b[n] * cos_c[n]) *
-            (i - object[n].centeri) -
-        (sin_a[n] * sin_c[n] - cos_a[n] * cos_b[n] * cos_c[n]) *
-            (j - object[n].centerj) +
-        (sin_b[n] * cos_c[n]) * (k - object[n].centerk) + object[n].centerj;
-    Z = (sin_a[n] * sin_b[n]) * (i - object[n].centeri) -
-        (cos_a[n] * sin_b[n]) * (j - object[n].centerj) +
-        cos_b[n] * (k - object[n].centerk) + object[n].centerk;
-
-    if (strcmp(object[n].shape, "Rrod") == 0) {
-      if ((X - object[n].centeri) * (X - object[n].centeri) +
-                  (Y - object[n].centerj) * (Y - object[n].centerj) <=
-              object[n].size1 * object[n].size1 &&
-          object[n].centerk - object[n].size2 / 2 <= Z &&
-          Z <= object[n].centerk + object[n].size2 / 2)
-        return 1;
-      else
-        return 0;
-    }
-
-    if (strcmp(object[n].shape, "Rellipse") == 0) {
-      if ((X - object[n].centeri) * (X - object[n].centeri) +
-                  (Y - object[n].centerj) * (Y - object[n].centerj) /
-                      (object[n].size3 * object[n].size3) <=
-              object[n].size1 * object[n].size1 &&
-          object[n].centerk - object[n].size2 / 2 <= Z &&
-          Z <= object[n].centerk + object[n].size2 / 2)
-        return 1;
-      else
-        return 0;
-    }
-
-    if (strcmp(object[n].shape, "Rellipsoidal") == 0) {
-      if ((X - object[n].centeri) * (X - object[n].centeri) /
-                  ((object[n].size1) * (object[n].size1)) +
-              (Y - object[n].centerj) * (Y - object[n].centerj) /
-                  ((object[n].size2) * (object[n].size2)) +
-              (Z - object[n].centerk) * (Z - object[n].centerk) /
-                  ((object[n].size3) * (object[n].size3)) <=
-          1)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "Rblock") == 0) {
-      if (object[n].centeri - object[n].size1 / 2 <= X &&
-          X <= object[n].centeri + object[n].size1 / 2 &&
-          object[n].centerj - object[n].size2 / 2 <= Y &&
-          Y <= object[n].centerj + object[n].size2 / 2 &&
-          object[n].centerk - object[n].size3 / 2 <= Z &&
-          Z <= object[n].centerk + object[n].size3 / 2)
-        return 1;
-      else
-        return 0;
-    }
-  }
-}
-
-void reading_matrix(char *matrix_file, int n) {
-  FILE *stream;
-  int i, j;
-  int col, row;
-  char ch;
-  char string[20];
-
-  stream = fopen(matrix_file, "rt");
-
-  col = 0;
-  row = 0;
-  /////// Counting row and col ///////
-  ch = getc(stream);
-  while (ch != EOF) {
-    if (ch == '\t')
-      col++;
-    if (ch == '\n') {
-      col++; // Origin standard (with TAB separation)
-      row++;
-    }
-    ch = getc(stream);
-  }
-  col = (int)(col / row); // in each row
-  printf("%s matrix file\n", matrix_file);
-  printf("  matrix col = %d\n", col);
-  printf("  matrix row = %d\n", row);
-  printf("\n");
-  fclose(stream);
-
-  object[n].col = col;
-  object[n].row = row;
-
-  //////// matrix memory allocation /////
-  object[n].matrix = (float **)malloc(sizeof(float *) * col);
-  for (i = 0; i < col; i++)
-    object[n].matrix[i] = (float *)malloc(sizeof(float) * row);
-
-  stream = fopen(matrix_file, "rt");
-  //////// Reading matrix file data //////
-  for (j = row - 1; j >= 0; j--) {
-    for (i = 0; i < col; i++) {
-      fscanf(stream, "%s", string);
-      object[n].matrix[i][j] = atof(string);
-    }
-  }
-
-  fclose(stream);
-}
+#include "./pFDTD.h"
+
+int in_object(int n, float i, float j, float k);
+void reading_matrix(char *matrix_file, int n);
+float average_epsilon(float i, float j, float k);
+void generate_random_2D(float x_min, float x_max, float y_min, float y_max,
+                        float radius, float *xr, float *yr, int i);
+void generate_random_3D(float x_min, float x_max, float y_min, float y_max,
+                        float z_min, float z_max, float radius, float *xr,
+                        float *yr, float *zr, int i);
+float rand_distance_2D(float x_scan, float y_scan, float x_temp, float y_temp);
+float rand_distance_3D(float x_scan, float y_scan, float z_scan, float x_temp,
+                       float y_temp, float z_temp);
+
+float back_epsilon;
+int objectn = 0;
+struct obj *object;
+
+///// For Euler rotation ///////
+///// [n] : object index ///////
+/// a = alpha, b=beta, c=gamma ///
+float *cos_a, *cos_b, *cos_c;
+float *sin_a, *sin_b, *sin_c;
+//////////////////////////////////////
+
+void background(float epsilon) {
+  int i, j, k;
+
+  back_epsilon = epsilon;
+
+  for (i = 0; i < misize; i++)
+    for (j = 0; j < mjsize; j++)
+      for (k = 0; k < mksize; k++)
+        epsilonx[i][j][k] = epsilony[i][j][k] = epsilonz[i][j][k] =
+            back_epsilon;
+
+  printf("background...ok\n");
+}
+
+void input_object(char *shape, char *matrix_file, float centerx, float centery,
+                  float centerz, float size1, float size2, float size3,
+                  float epsilon) {
+  objectn++;
+
+  object = (struct obj *)realloc(object, sizeof(struct obj) * objectn);
+
+  cos_a = (float *)realloc(cos_a, sizeof(float) * objectn);
+  cos_b = (float *)realloc(cos_b, sizeof(float) * objectn);
+  cos_c = (float *)realloc(cos_c, sizeof(float) * objectn);
+  sin_a = (float *)realloc(sin_a, sizeof(float) * objectn);
+  sin_b = (float *)realloc(sin_b, sizeof(float) * objectn);
+  sin_c = (float *)realloc(sin_c, sizeof(float) * objectn);
+
+  strcpy(object[objectn - 1].shape, shape);
+
+  //////// common parameters ///////
+  object[objectn - 1].epsilon = epsilon;
+  //////////////////////////////////
+  cos_a[objectn - 1] = 1.0;
+  cos_b[objectn - 1] = 1.0;
+  cos_c[objectn - 1] = 1.0;
+  sin_a[objectn - 1] = 0.0;
+  sin_b[objectn - 1] = 0.0;
+  sin_c[objectn - 1] = 0.0;
+
+  // in the below, we define various input parameters case by case.
+
+  if (strcmp(shape, "contour") == 0) {
+    object[objectn - 1].centeri = centerx; // matrix_center
+    object[objectn - 1].centerj = centery; // matrix_center
+    object[objectn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    object[objectn - 1].size1 = size1; // discrimination level
+    object[objectn - 1].size2 =
+        (size2); // height  // for non_uniform_grid() .....
+    object[objectn - 1].size3 = size3; // compression factor
+    reading_matrix(matrix_file, objectn - 1);
+  } else if (strcmp(shape, "rod") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+    object[objectn - 1].size2 =
+        (size2); // height  // for non_uniform_grid() ....
+  } else if (strcmp(shape, "rodX") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_y; // radius
+    object[objectn - 1].size2 = size2 * lattice_x; // x length
+  } else if (strcmp(shape, "rodY") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+    object[objectn - 1].size2 = size2 * lattice_y; // y length
+  } else if (strcmp(shape, "donut") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    object[objectn - 1].size1 = size1 * lattice_x; // inner radius
+    object[objectn - 1].size2 = size2 * lattice_x; // outer radius
+    object[objectn - 1].size3 =
+        (size3); // height  // for non_uniform_grid() ....
+  } else if (strcmp(shape, "sphere") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+  } else if (strcmp(shape, "shell") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // inner radius
+    object[objectn - 1].size2 = size2 * lattice_x; // outer radius
+  } else if (strcmp(shape, "ellipse") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+    object[objectn - 1].size2 =
+        (size2); // height (centerz); // for non_uniform_grid() ....
+    object[objectn - 1].size3 = size3; // aspect ratio=ry/rx
+  } else if (strcmp(shape, "ellipsoidal") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // rx
+    object[objectn - 1].size2 = size2 * lattice_y; // ry
+    object[objectn - 1].size3 = size3 * lattice_z; // rz
+  } else if (strcmp(shape, "cone") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz);       // for non_uniform_grid()
+    object[objectn - 1].size1 = size1 * lattice_x; // r1
+    object[objectn - 1].size2 = size2 * lattice_x; // r2
+    object[objectn - 1].size3 = (size3); // for non_uniform_grid(), height
+  } else                                 // "block"
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    object[objectn - 1].size1 = size1 * lattice_x;
+    object[objectn - 1].size2 = size2 * lattice_y;
+    object[objectn - 1].size3 =
+        (size3); // for non_uniform_grid(), the meaning changed
+  }
+}
+
+void input_object_Euler_rotation(char *shape, char *matrix_file, float centerx,
+                                 float centery, float centerz, float size1,
+                                 float size2, float size3, float alpha,
+                                 float beta, float gamma, float epsilon)
+// alpha, beta, gamma : 3- Euler angles
+{
+  objectn++;
+
+  object = (struct obj *)realloc(object, sizeof(struct obj) * objectn);
+
+  cos_a = (float *)realloc(cos_a, sizeof(float) * objectn);
+  cos_b = (float *)realloc(cos_b, sizeof(float) * objectn);
+  cos_c = (float *)realloc(cos_c, sizeof(float) * objectn);
+  sin_a = (float *)realloc(sin_a, sizeof(float) * objectn);
+  sin_b = (float *)realloc(sin_b, sizeof(float) * objectn);
+  sin_c = (float *)realloc(sin_c, sizeof(float) * objectn);
+
+  strcpy(object[objectn - 1].shape, shape);
+
+  //////// common parameters ///////
+  object[objectn - 1].epsilon = epsilon;
+  //////////////////////////////////
+  cos_a[objectn - 1] = cos(alpha * pi / 180);
+  cos_b[objectn - 1] = cos(beta * pi / 180);
+  cos_c[objectn - 1] = cos(gamma * pi / 180);
+  sin_a[objectn - 1] = sin(alpha * pi / 180);
+  sin_b[objectn - 1] = sin(beta * pi / 180);
+  sin_c[objectn - 1] = sin(gamma * pi / 180);
+
+  //// in the below, we define various input parameters case by case. ////
+  //// Contrary to "input_object()", 'Euler rotaion' cannot be applied to
+  ///"sphere" and "contour"////
+
+  if (strcmp(shape, "rod") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+    object[objectn - 1].size2 = size2 * lattice_z; // height
+    strcpy(object[objectn - 1].shape, "Rrod");     // Euler Rotation indicator
+  } else if (strcmp(shape, "ellipse") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+    object[objectn - 1].size2 = size2 * lattice_z; // height
+    object[objectn - 1].size3 = size3;             // aspect ratio=ry/rx
+    strcpy(object[objectn - 1].shape, "Rellipse"); // Euler Rotation indicator
+  } else if (strcmp(shape, "ellipsoidal") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // rx
+    object[objectn - 1].size2 = size2 * lattice_y; // ry
+    object[objectn - 1].size3 = size3 * lattice_z; // rz
+    strcpy(object[objectn - 1].shape,
+           "Rellipsoidal"); // Euler Rotation indicator
+  } else if (strcmp(shape, "block") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x;
+    object[objectn - 1].size2 = size2 * lattice_y;
+    object[objectn - 1].size3 = size3 * lattice_z;
+    strcpy(object[objectn - 1].shape, "Rblock"); // Euler Rotation indicator
+  } else {
+  }
+}
+
+void random_object(char *shape, float radius, float height, float epsilon,
+                   float x_min, float x_max, float y_min, float y_max,
+                   float z_min, float z_max, int gen_number, int seed) {
+  int i;
+  float *xr, *yr, *zr; // random number coordinates
+
+  srand(seed); // initialization of random number generator
+
+  if (strcmp(shape, "rod") == 0) {
+    xr = (float *)malloc(sizeof(float) * gen_number);
+    yr = (float *)malloc(sizeof(float) * gen_number);
+
+    for (i = 0; i < gen_number; i++) {
+      generate_random_2D(x_min, x_max, y_min, y_max, radius, xr, yr, i);
+      input_object("rod", EMP, xr[i], yr[i], 0 + shift, radius, height, 0,
+                   epsilon);
+    }
+  }
+
+  if (strcmp(shape, "sphere") == 0) {
+    xr = (float *)malloc(sizeof(float) * gen_number);
+    yr = (float *)malloc(sizeof(float) * gen_number);
+    zr = (float *)malloc(sizeof(float) * gen_number);
+
+    for (i = 0; i < gen_number; i++) {
+      generate_random_3D(x_min, x_max, y_min, y_max, z_min, z_max, radius, xr,
+                         yr, zr, i);
+      input_object("sphere", EMP, xr[i], yr[i], zr[i], radius, 0, 0, epsilon);
+    }
+  }
+}
+
+void generate_random_2D(float x_min, float x_max, float y_min, float y_max,
+                        float radius, float *xr, float *yr, int i) {
+  int scan;
+  float xr_temp, yr_temp;
+
+  xr_temp =
+      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (x_max - x_min) +
+      x_min;
+  yr_temp =
+      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (y_max - y_min) +
+      y_min;
+
+  if (i > 0) {
+    while (1) {
+      for (scan = 0; scan < i; scan++)
+        if (rand_distance_2D(xr[scan], yr[scan], xr_temp, yr_temp) <
+            2 * radius) {
+          scan = -10;
+          break;
+        }
+
+      if (scan == i) {
+        xr[i] = xr_temp;
+        yr[i] = yr_temp;
+        break; // out of the while loop
+      } else {
+        xr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
+                      (x_max - x_min) +
+                  x_min;
+        yr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
+                      (y_max - y_min) +
+                  y_min;
+      }
+    }
+  }
+
+  if (i == 0) {
+    xr[i] = xr_temp;
+    yr[i] = yr_temp;
+  }
+}
+
+float rand_distance_2D(float x_scan, float y_scan, float x_temp, float y_temp) {
+  return (sqrt((x_scan - x_temp) * (x_scan - x_temp) +
+               (y_scan - y_temp) * (y_scan - y_temp)));
+}
+
+void generate_random_3D(float x_min, float x_max, float y_min, float y_max,
+                        float z_min, float z_max, float radius, float *xr,
+                        float *yr, float *zr, int i) {
+  int scan;
+  float xr_temp, yr_temp, zr_temp;
+
+  xr_temp =
+      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (x_max - x_min) +
+      x_min;
+  yr_temp =
+      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (y_max - y_min) +
+      y_min;
+  zr_temp =
+      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (z_max - z_min) +
+      z_min;
+
+  if (i > 0) {
+    while (1) {
+      for (scan = 0; scan < i; scan++)
+        if (rand_distance_3D(xr[scan], yr[scan], zr[scan], xr_temp, yr_temp,
+                             zr_temp) < 2 * radius) {
+          scan = -10;
+          break;
+        }
+
+      if (scan == i) {
+        xr[i] = xr_temp;
+        yr[i] = yr_temp;
+        zr[i] = zr_temp;
+        break; // out of the while loop
+      } else {
+        xr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
+                      (x_max - x_min) +
+                  x_min;
+        yr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
+                      (y_max - y_min) +
+                  y_min;
+        zr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
+                      (z_max - z_min) +
+                  z_min;
+      }
+    }
+  }
+
+  if (i == 0) {
+    xr[i] = xr_temp;
+    yr[i] = yr_temp;
+    zr[i] = zr_temp;
+  }
+}
+
+float rand_distance_3D(float x_scan, float y_scan, float z_scan, float x_temp,
+                       float y_temp, float z_temp) {
+  return (sqrt((x_scan - x_temp) * (x_scan - x_temp) +
+               (y_scan - y_temp) * (y_scan - y_temp) +
+               (z_scan - z_temp) * (z_scan - z_temp)));
+}
+
+void make_epsilon() {
+  int i, j, k;
+
+  printf("-----------------------\n");
+  printf("making the epsilon...\n");
+
+  for (i = 0; i < misize; i++) {
+    printf("%d% \n", 100 * i / misize);
+
+    for (j = 0; j < mjsize; j++)
+      for (k = 0; k < mksize; k++) {
+        epsilonx[i][j][k] = average_epsilon(i + 0.5, j, k);
+        epsilony[i][j][k] = average_epsilon(i, j + 0.5, k);
+        epsilonz[i][j][k] = average_epsilon(i, j, k + 0.5);
+      }
+  }
+
+  free(object);
+
+  printf("make_epsilon...ok\n");
+}
+
+float average_epsilon(float i, float j, float k) {
+  int n, m, partial = 0;
+  float ii, jj, kk, epsilon, partial_epsilon[1000];
+
+  epsilon = back_epsilon;
+  for (m = 0; m < 1000; m++)
+    partial_epsilon[m] = back_epsilon;
+
+  for (n = 0; n < objectn; n++) {
+
+    if (in_object(n, i - 0.5, j - 0.5, k - 0.5) == 0 &&
+        in_object(n, i - 0.5, j - 0.5, k + 0.5) == 0 &&
+        in_object(n, i - 0.5, j + 0.5, k - 0.5) == 0 &&
+        in_object(n, i - 0.5, j + 0.5, k + 0.5) == 0 &&
+        in_object(n, i + 0.5, j - 0.5, k - 0.5) == 0 &&
+        in_object(n, i + 0.5, j - 0.5, k + 0.5) == 0 &&
+        in_object(n, i + 0.5, j + 0.5, k - 0.5) == 0 &&
+        in_object(n, i + 0.5, j + 0.5, k + 0.5) == 0)
+      ;
+
+    else if (in_object(n, i - 0.5, j - 0.5, k - 0.5) == 1 &&
+             in_object(n, i - 0.5, j - 0.5, k + 0.5) == 1 &&
+             in_object(n, i - 0.5, j + 0.5, k - 0.5) == 1 &&
+             in_object(n, i - 0.5, j + 0.5, k + 0.5) == 1 &&
+             in_object(n, i + 0.5, j - 0.5, k - 0.5) == 1 &&
+             in_object(n, i + 0.5, j - 0.5, k + 0.5) == 1 &&
+             in_object(n, i + 0.5, j + 0.5, k - 0.5) == 1 &&
+             in_object(n, i + 0.5, j + 0.5, k + 0.5) == 1) {
+      epsilon = object[n].epsilon;
+      for (m = 0; m < 1000; m++)
+        partial_epsilon[m] = object[n].epsilon;
+      partial = 0;
+    }
+
+    else {
+      for (m = 0, ii = i - 0.45; ii < i + 0.5; ii = ii + 0.1)
+        for (jj = j - 0.45; jj < j + 0.5; jj = jj + 0.1)
+          for (kk = k - 0.45; kk < k + 0.5; kk = kk + 0.1, m++)
+            if (in_object(n, ii, jj, kk) == 1)
+              partial_epsilon[m] = object[n].epsilon;
+      partial = 1;
+    }
+  }
+
+  if (partial == 1)
+    for (epsilon = 0, m = 0; m < 1000; m++)
+      epsilon = epsilon + partial_epsilon[m] / 1000;
+
+  return epsilon;
+}
+
+int in_object(int n, float i, float j, float k) {
+  int I, J;
+  float X, Y, Z;
+  float temp;
+
+  if (strcmp(object[n].shape, "Rrod") != 0 &&
+      strcmp(object[n].shape, "Rellipse") != 0 &&
+      strcmp(object[n].shape, "Rellipsoidal") != 0 &&
+      strcmp(object[n].shape, "Rblock") != 0) {
+    if (strcmp(object[n].shape, "rod") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) <=
+              object[n].size1 * object[n].size1 &&
+          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <= k &&
+          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "rodX") == 0) {
+      if ((j - object[n].centerj) * (j - object[n].centerj) +
+                  (k - object[n].centerk) * (k - object[n].centerk) <=
+              object[n].size1 * object[n].size1 &&
+          object[n].centeri - object[n].size2 / 2 <= i &&
+          i <= object[n].centeri + object[n].size2 / 2)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "rodY") == 0) {
+      if ((k - object[n].centerk) * (k - object[n].centerk) +
+                  (i - object[n].centeri) * (i - object[n].centeri) <=
+              object[n].size1 * object[n].size1 &&
+          object[n].centerj - object[n].size2 / 2 <= j &&
+          j <= object[n].centerj + object[n].size2 / 2)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "donut") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) >=
+              object[n].size1 * object[n].size1 &&
+          (i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) <=
+              object[n].size2 * object[n].size2 &&
+          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3) <= k &&
+          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3))
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "sphere") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+              (j - object[n].centerj) * (j - object[n].centerj) +
+              (k - object[n].centerk) * (k - object[n].centerk) <=
+          object[n].size1 * object[n].size1)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "shell") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) +
+                  (k - object[n].centerk) * (k - object[n].centerk) >=
+              object[n].size1 * object[n].size1 &&
+          (i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) +
+                  (k - object[n].centerk) * (k - object[n].centerk) <=
+              object[n].size2 * object[n].size2)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "ellipse") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) /
+                      (object[n].size3 * object[n].size3) <=
+              object[n].size1 * object[n].size1 &&
+          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <= k &&
+          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "ellipsoidal") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) /
+                  ((object[n].size1) * (object[n].size1)) +
+              (j - object[n].centerj) * (j - object[n].centerj) /
+                  ((object[n].size2) * (object[n].size2)) +
+              (k - object[n].centerk) * (k - object[n].centerk) /
+                  ((object[n].size3) * (object[n].size3)) <=
+          1)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "cone") == 0) {
+      ///////////////////////////////////////////////
+      //  object[n].centerk & object[n].size3 --> in units of z
+      //  size3 : height
+      ///////////////////////////////////////////////
+      temp = (object[n].size1 - object[n].size2) *
+                 (non_uniform_i_to_z(k) - object[n].centerk) / object[n].size3 +
+             0.5 * (object[n].size1 +
+                    object[n].size2); // radius varying as a function of 'k'
+
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) <=
+              temp * temp &&
+          (k <=
+           non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3)) &&
+          (k >= non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3)))
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "block") == 0) {
+      if (object[n].centeri - object[n].size1 / 2 <= i &&
+          i <= object[n].centeri + object[n].size1 / 2 &&
+          object[n].centerj - object[n].size2 / 2 <= j &&
+          j <= object[n].centerj + object[n].size2 / 2 &&
+          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3) <= k &&
+          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3))
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "contour") == 0) {
+      if ((-object[n].centeri * CUTFACTOR <=
+           (i - (xcenter * lattice_x)) / object[n].size3) &&
+          ((i - (xcenter * lattice_x)) / object[n].size3 <=
+           (object[n].col - object[n].centeri) * CUTFACTOR) &&
+          (-object[n].centerj * CUTFACTOR <=
+           (j - (ycenter * lattice_y)) / object[n].size3) &&
+          ((j - (ycenter * lattice_y)) / object[n].size3 <=
+           (object[n].row - object[n].centerj) * CUTFACTOR) &&
+          (non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <=
+           k) &&
+          (k <=
+           non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))) {
+        I = floor(object[n].centeri +
+                  (i - (xcenter * lattice_x)) / object[n].size3);
+        J = floor(object[n].centerj +
+                  (j - (ycenter * lattice_y)) / object[n].size3);
+        if (object[n].matrix[I][J] <= object[n].size1)
+          return 1;
+      } else
+        return 0;
+    } else {
+    }
+  } else
+  ////if(strcmp(object[n].shape,"Rrod")==0 ||
+  ///strcmp(object[n].shape,"Rellipse")==0 ||
+  ////strcmp(object[n].shape,"Rellipsoidal")==0 ||
+  ///strcmp(object[n].shape,"Rblock")==0)
+  {
+    //// Transform (i,j,k) --> (X,Y,Z), the coordinate with respect to the
+    ///object
+    X = (cos_a[n] * cos_c[n] - sin_a[n] * cos_b[n] * sin_c[n]) *
+            (i - object[n].centeri) +
+        (sin_a[n] * cos_c[n] + cos_a[n] * cos_b[n] * sin_c[n]) *
+            (j - object[n].centerj) +
+        (sin_b[n] * sin_c[n]) * (k - object[n].centerk) + object[n].centeri;
+    Y = -(cos_a[n] * sin_c[n] + sin_a[n] * cos_b[n] * cos_c[n]) *
+            (i - object[n].centeri) -
+        (sin_a[n] * sin_c[n] - cos_a[n] * cos_b[n] * cos_c[n]) *
+            (j - object[n].centerj) +
+        (sin_b[n] * cos_c[n]) * (k - object[n].centerk) + object[n].centerj;
+    Z = (sin_a[n] * sin_b[n]) * (i - object[n].centeri) -
+        (cos_a[n] * sin_b[n]) * (j - object[n].centerj) +
+        cos_b[n] * (k - object[n].centerk) + object[n].centerk;
+
+    if (strcmp(object[n].shape, "Rrod") == 0) {
+      if ((X - object[n].centeri) * (X - object[n].centeri) +
+                  (Y - object[n].centerj) * (Y - object[n].centerj) <=
+              object[n].size1 * object[n].size1 &&
+          object[n].centerk - object[n].size2 / 2 <= Z &&
+          Z <= object[n].centerk + object[n].size2 / 2)
+        return 1;
+      else
+        return 0;
+    }
+
+    if (strcmp(object[n].shape, "Rellipse") == 0) {
+      if ((X - object[n].centeri) * (X - object[n].centeri) +
+                  (Y - object[n].centerj) * (Y - object[n].centerj) /
+                      (object[n].size3 * object[n].size3) <=
+              object[n].size1 * object[n].size1 &&
+          object[n].centerk - object[n].size2 / 2 <= Z &&
+          Z <= object[n].centerk + object[n].size2 / 2)
+        return 1;
+      else
+        return 0;
+    }
+
+    if (strcmp(object[n].shape, "Rellipsoidal") == 0) {
+      if ((X - object[n].centeri) * (X - object[n].centeri) /
+                  ((object[n].size1) * (object[n].size1)) +
+              (Y - object[n].centerj) * (Y - object[n].centerj) /
+                  ((object[n].size2) * (object[n].size2)) +
+              (Z - object[n].centerk) * (Z - object[n].centerk) /
+                  ((object[n].size3) * (object[n].size3)) <=
+          1)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "Rblock") == 0) {
+      if (object[n].centeri - object[n].size1 / 2 <= X &&
+          X <= object[n].centeri + object[n].size1 / 2 &&
+          object[n].centerj - object[n].size2 / 2 <= Y &&
+          Y <= object[n].centerj + object[n].size2 / 2 &&
+          object[n].centerk - object[n].size3 / 2 <= Z &&
+          Z <= object[n].centerk + object[n].size3 / 2)
+        return 1;
+      else
+        return 0;
+    }
+  }
+}
+
+void reading_matrix(char *matrix_file, int n) {
+  FILE *stream;
+  int i, j;
+  int col, row;
+  char ch;
+  char string[20];
+
+  stream = fopen(matrix_file, "rt");
+
+  col = 0;
+  row = 0;
+  /////// Counting row and col ///////
+  ch = getc(stream);
+  while (ch != EOF) {
+    if (ch == '\t')
+      col++;
+    if (ch == '\n') {
+      col++; // Origin standard (with TAB separation)
+      row++;
+    }
+    ch = getc(stream);
+  }
+  col = (int)(col / row); // in each row
+  printf("%s matrix file\n", matrix_file);
+  printf("  matrix col = %d\n", col);
+  printf("  matrix row = %d\n", row);
+  printf("\n");
+  fclose(stream);
+
+  object[n].col = col;
+  object[n].row = row;
+
+  //////// matrix memory allocation /////
+  object[n].matrix = (float **)malloc(sizeof(float *) * col);
+  for (i = 0; i < col; i++)
+    object[n].matrix[i] = (float *)malloc(sizeof(float) * row);
+
+  stream = fopen(matrix_file, "rt");
+  //////// Reading matrix file data //////
+  for (j = row - 1; j >= 0; j--) {
+    for (i = 0; i < col; i++) {
+      fscanf(stream, "%s", string);
+      object[n].matrix[i][j] = atof(string);
+    }
+  }
+
+  fclose(stream);
+}
diff --git a/openms/lib/fdtd/metalobj.c b/openms/lib/fdtd/metalobj.c
index a624fc3..47cd0de 100755
--- a/openms/lib/fdtd/metalobj.c
+++ b/openms/lib/fdtd/metalobj.c
@@ -1,579 +1,579 @@
-#include "./pFDTD.h"
-
-int in_mobject(int n, float i, float j, float k);
-void reading_matrix_m(char *matrix_file, int n);
-int mobjn = 0;        // number of metal objects
-struct mobj *mobject; // declaration of 1D-array, 'mobject'
-
-// molecular objects
-void input_molecular(char *shape, float centerx, float centery, float centerz,
-                     float size1, float size2, float size3) {
-
-  mobjn++;
-
-  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
-  strcpy(mobject[mobjn - 1].shape, shape);
-
-  mobject[mobjn - 1].epsilon_b = 100;
-  mobject[mobjn - 1].omega_p = 0;
-  mobject[mobjn - 1].gamma_0 = 0;
-
-  printf("\n position of %d th molecular: \n", mobjn);
-
-  if (strcmp(shape, "point") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-
-    printf("%f %f \n", centerx, xcenter);
-    printf("%f \n", mobject[mobjn - 1].centeri);
-    printf("%f \n", mobject[mobjn - 1].centerj);
-    printf("%f \n", mobject[mobjn - 1].centerk);
-  } else {
-  }
-}
-
-void input_Drude_medium(char *shape, float centerx, float centery,
-                        float centerz, float size1, float size2, float size3,
-                        float epsilon_b, float omega_p, float gamma_0,
-                        float lattice_n) {
-  float omega_pn, gamma_0n; // reduced frequency, NOT normalized frequency
-
-  ////////////////////////////////////////////
-  /// How to convert into the reduced unit .
-  ////////////////////////////////////////////
-  /*
-          {phase change}=w_p * dt_R = w_F * dt_F
-           Here, w_p = angular frequency in unit of Hz
-                 dt_R = time step in unit of sec.
-                 w_F = reduced frequency in FDTD
-                 dt_F = FDTD time step 1
-           Remember that dt_F is NOT assumed to be 1
-                  BUT represented in unit of (sec q m^-1) (See Eq.49 of manual)
-
-           Now that,
-                 dt_F = 1/(c * S(q^-1))
-                 dt_R = 1/(c * S(m^-1))
-                      = 1/(c * S(q^-1) * ds_x * lattice_x / lattice_n )
-           Therefore we get,
-                 dt_R/dt_F = lattice_n/(ds_x*lattice_x)
-                 w_F = w_p * lattice_n/(ds_x*lattice_x)
-  ///////////////////////////////////////////////////// */
-
-  omega_pn = omega_p * lattice_n / (ds_x * lattice_x);
-  gamma_0n = gamma_0 * lattice_n / (ds_x * lattice_x);
-
-  if (mobjn == 0) // printf once!
-  {
-    printf("----------------\n", omega_pn);
-    printf("omega_pn = %g\n", omega_pn);
-    printf("gamma_0n = %g\n", gamma_0n);
-  }
-
-  mobjn++;
-
-  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
-
-  strcpy(mobject[mobjn - 1].shape, shape);
-
-  mobject[mobjn - 1].epsilon_b = epsilon_b;
-  mobject[mobjn - 1].omega_p = omega_pn; // conversion to 'FDTD' frequency
-  mobject[mobjn - 1].gamma_0 = gamma_0n; //         "      "
-
-  if (strcmp(shape, "rod") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 =
-        (size2); // height  // for non_uniform_grid(), the meaning changed
-  } else if (strcmp(shape, "rodX") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // x length
-  } else if (strcmp(shape, "rodY") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // y length
-  } else if (strcmp(shape, "donut") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
-    mobject[mobjn - 1].size3 =
-        (size3); // height  // for non_uniform_grid(), the meaning changed
-  } else if (strcmp(shape, "sphere") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-  } else if (strcmp(shape, "shell") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
-  } else if (strcmp(shape, "ellipse") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 =
-        (size2); // height (centerz); // for non_uniform_grid() ....
-    mobject[mobjn - 1].size3 = size3; // aspect ratio=ry/rx
-  } else if (strcmp(shape, "ellipsoidal") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // rx
-    mobject[mobjn - 1].size2 = size2 * lattice_y; // ry
-    mobject[mobjn - 1].size3 = size3 * lattice_z; // rz
-  } else if (strcmp(shape, "cone") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz);       // for non_uniform_grid()
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // r1
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // r2
-    mobject[mobjn - 1].size3 = (size3); // for non_uniform_grid() // height
-  } else if (strcmp(shape, "block") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x;
-    mobject[mobjn - 1].size2 = size2 * lattice_y;
-    mobject[mobjn - 1].size3 =
-        (size3); // for non_uniform_grid(), the meaning changed
-  } else {
-  }
-}
-
-void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
-                         float centery, float centerz, float size1, float size2,
-                         float size3, float epsilon_b, float omega_p,
-                         float gamma_0, float lattice_n) {
-  float omega_pn, gamma_0n; // reduced frequency, NOT normalized frequency
-
-  ////////////////////////////////////////////
-  /// How to convert into the reduced unit .
-  ////////////////////////////////////////////
-  /*
-          {phase change}=w_p * dt_R = w_F * dt_F
-           Here, w_p = angular frequency in unit of Hz
-                 dt_R = time step in unit of sec.
-                 w_F = reduced frequency in FDTD
-                 dt_F = FDTD time step 1
-           Remember that dt_F is NOT assumed to be 1
-                  BUT represented in unit of (sec q m^-1) (See Eq.49 of manual)
-
-           Now that,
-                 dt_F = 1/(c * S(q^-1))
-                 dt_R = 1/(c * S(m^-1))
-                      = 1/(c * S(q^-1) * ds_x * lattice_x / lattice_n )
-           Therefore we get,
-                 dt_R/dt_F = lattice_n/(ds_x*lattice_x)
-                 w_F = w_p * lattice_n/(ds_x*lattice_x)
-  ///////////////////////////////////////////////////// */
-
-  omega_pn = omega_p * lattice_n / (ds_x * lattice_x);
-  gamma_0n = gamma_0 * lattice_n / (ds_x * lattice_x);
-
-  if (mobjn == 0) // printf once!
-  {
-    printf("----------------\n", omega_pn);
-    printf("omega_pn = %g\n", omega_pn);
-    printf("gamma_0n = %g\n", gamma_0n);
-  }
-
-  mobjn++;
-
-  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
-
-  strcpy(mobject[mobjn - 1].shape, shape);
-
-  mobject[mobjn - 1].epsilon_b = epsilon_b;
-  mobject[mobjn - 1].omega_p = omega_pn; // conversion to 'FDTD' frequency
-  mobject[mobjn - 1].gamma_0 = gamma_0n; //         "      "
-
-  if (strcmp(shape, "contour") == 0) //// from ver. 8.80
-  {
-    mobject[mobjn - 1].centeri = centerx; // matrix_center
-    mobject[mobjn - 1].centerj = centery; // matrix_center
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1; // discrimination level
-    mobject[mobjn - 1].size2 =
-        (size2);                      // height  // for non_uniform_grid() .....
-    mobject[mobjn - 1].size3 = size3; // compression factor
-    reading_matrix_m(matrix_file, mobjn - 1);
-  }
-  if (strcmp(shape, "rod") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 =
-        (size2); // height  // for non_uniform_grid(), the meaning changed
-  } else if (strcmp(shape, "rodX") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // x length
-  } else if (strcmp(shape, "rodY") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // y length
-  } else if (strcmp(shape, "donut") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
-    mobject[mobjn - 1].size3 =
-        (size3); // height  // for non_uniform_grid(), the meaning changed
-  } else if (strcmp(shape, "sphere") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-  } else if (strcmp(shape, "shell") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
-  } else if (strcmp(shape, "ellipse") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 =
-        (size2); // height (centerz); // for non_uniform_grid() ....
-    mobject[mobjn - 1].size3 = size3; // aspect ratio=ry/rx
-  } else if (strcmp(shape, "ellipsoidal") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // rx
-    mobject[mobjn - 1].size2 = size2 * lattice_y; // ry
-    mobject[mobjn - 1].size3 = size3 * lattice_z; // rz
-  } else if (strcmp(shape, "cone") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz);       // for non_uniform_grid()
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // r1
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // r2
-    mobject[mobjn - 1].size3 = (size3); // for non_uniform_grid() // height
-  } else if (strcmp(shape, "block") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x;
-    mobject[mobjn - 1].size2 = size2 * lattice_y;
-    mobject[mobjn - 1].size3 =
-        (size3); // for non_uniform_grid(), the meaning changed
-  } else {
-  }
-}
-
-void make_metal_structure() {
-  int i, j, k;
-  int n;
-
-  float me, mw, mr;
-
-  printf("-------------------------------\n");
-  printf("making the metal structure...\n");
-
-  ///////////////////////////////////////////////////
-  ///        Medium Rules for (i,j,k)             ///
-  ///---------------------------------            ///
-  ///  mepsilon=momega= 0.0 --> dielectric        ///
-  ///  mepsilon!=0.0 --> metal                    ///
-  ///  mepsilon=1000 --> PCM                      ///
-  ///  mepsilon=0.0 & momega=0.0 --> metal eraser ///
-  ///////////////////////////////////////////////////
-
-  for (i = 0; i < misize; i++) {
-    printf("%d% \n", 100 * i / misize);
-
-    for (j = 0; j < mjsize; j++)
-      for (k = 0; k < mksize; k++) {
-        me = mw = mr = 0.0; // initialization : non-metal
-        for (n = 0; n < mobjn; n++)
-          if (in_mobject(n, i, j, k) == 1) {
-            me = mobject[n].epsilon_b;
-            mw = mobject[n].omega_p;
-            mr = mobject[n].gamma_0;
-          }
-        mepsilon[i][j][k] = me;
-        momega[i][j][k] = mw;
-        mgamma[i][j][k] = mr;
-      }
-  }
-
-  free(mobject);
-
-  printf("make_metal_structure...ok\n");
-}
-
-int in_mobject(int n, float i, float j, float k) {
-  int I, J;
-  float X, Y, Z;
-  int temp;
-
-  if (strcmp(mobject[n].shape, "rod") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
-            mobject[n].size1 * mobject[n].size1 &&
-        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <= k &&
-        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "point") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) < 1.E-6) {
-      if ((j - mobject[n].centerj) * (j - mobject[n].centerj) < 1.E-6 &&
-          (k - mobject[n].centerk) * (k - mobject[n].centerk) < 1.E-6)
-        printf("test1 %f %f %f \n", i, j, k);
-    }
-
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-            (j - mobject[n].centerj) * (j - mobject[n].centerj) +
-            (k - mobject[n].centerk) * (k - mobject[n].centerk) <
-        1.E-6)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "rodX") == 0) {
-    if ((j - mobject[n].centerj) * (j - mobject[n].centerj) +
-                (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
-            mobject[n].size1 * mobject[n].size1 &&
-        mobject[n].centeri - mobject[n].size2 / 2 <= i &&
-        i <= mobject[n].centeri + mobject[n].size2 / 2)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "rodY") == 0) {
-    if ((k - mobject[n].centerk) * (k - mobject[n].centerk) +
-                (i - mobject[n].centeri) * (i - mobject[n].centeri) <=
-            mobject[n].size1 * mobject[n].size1 &&
-        mobject[n].centerj - mobject[n].size2 / 2 <= j &&
-        j <= mobject[n].centerj + mobject[n].size2 / 2)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "donut") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) >=
-            mobject[n].size1 * mobject[n].size1 &&
-        (i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
-            mobject[n].size2 * mobject[n].size2 &&
-        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3) <= k &&
-        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3))
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "sphere") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-            (j - mobject[n].centerj) * (j - mobject[n].centerj) +
-            (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
-        mobject[n].size1 * mobject[n].size1)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "shell") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) +
-                (k - mobject[n].centerk) * (k - mobject[n].centerk) >=
-            mobject[n].size1 * mobject[n].size1 &&
-        (i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) +
-                (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
-            mobject[n].size2 * mobject[n].size2)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "ellipse") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) /
-                    (mobject[n].size3 * mobject[n].size3) <=
-            mobject[n].size1 * mobject[n].size1 &&
-        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <= k &&
-        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "ellipsoidal") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) /
-                ((mobject[n].size1) * (mobject[n].size1)) +
-            (j - mobject[n].centerj) * (j - mobject[n].centerj) /
-                ((mobject[n].size2) * (mobject[n].size2)) +
-            (k - mobject[n].centerk) * (k - mobject[n].centerk) /
-                ((mobject[n].size3) * (mobject[n].size3)) <=
-        1)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "cone") == 0) {
-    ///////////////////////////////////////////////
-    //  mobject[n].centerk & mobject[n].size3 --> in units of z
-    //  size3 : height
-    ///////////////////////////////////////////////
-    temp = (mobject[n].size1 - mobject[n].size2) *
-               (non_uniform_i_to_z(k) - mobject[n].centerk) / mobject[n].size3 +
-           0.5 * (mobject[n].size1 +
-                  mobject[n].size2); // radius varying as a function of 'k'
-
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
-            temp * temp &&
-        (k <=
-         non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3)) &&
-        (k >= non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3)))
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "block") == 0) {
-    if (mobject[n].centeri - mobject[n].size1 / 2 <= i &&
-        i <= mobject[n].centeri + mobject[n].size1 / 2 &&
-        mobject[n].centerj - mobject[n].size2 / 2 <= j &&
-        j <= mobject[n].centerj + mobject[n].size2 / 2 &&
-        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3) <= k &&
-        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3))
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "contour") == 0) {
-    if ((-mobject[n].centeri * CUTFACTOR <=
-         (i - (xcenter * lattice_x)) / mobject[n].size3) &&
-        ((i - (xcenter * lattice_x)) / mobject[n].size3 <=
-         (mobject[n].col - mobject[n].centeri) * CUTFACTOR) &&
-        (-mobject[n].centerj * CUTFACTOR <=
-         (j - (ycenter * lattice_y)) / mobject[n].size3) &&
-        ((j - (ycenter * lattice_y)) / mobject[n].size3 <=
-         (mobject[n].row - mobject[n].centerj) * CUTFACTOR) &&
-        (non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <=
-         k) &&
-        (k <=
-         non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))) {
-      I = floor(mobject[n].centeri +
-                (i - (xcenter * lattice_x)) / mobject[n].size3);
-      J = floor(mobject[n].centerj +
-                (j - (ycenter * lattice_y)) / mobject[n].size3);
-      if (mobject[n].matrix[I][J] <= mobject[n].size1)
-        return 1;
-    } else
-      return 0;
-  }
-
-  else {
-  }
-}
-
-void reading_matrix_m(char *matrix_file, int n) {
-  FILE *stream;
-  int i, j;
-  int col, row;
-  char ch;
-  char string[20];
-
-  stream = fopen(matrix_file, "rt");
-
-  col = 0;
-  row = 0;
-  /////// Counting row and col ///////
-  ch = getc(stream);
-  while (ch != EOF) {
-    if (ch == '\t')
-      col++;
-    if (ch == '\n') {
-      col++; // Origin standard (with TAB separation)
-      row++;
-    }
-    ch = getc(stream);
-  }
-  col = (int)(col / row); // in each row
-  printf("%s matrix file\n", matrix_file);
-  printf("  matrix col = %d\n", col);
-  printf("  matrix row = %d\n", row);
-  printf("\n");
-  fclose(stream);
-
-  mobject[n].col = col;
-  mobject[n].row = row;
-
-  //////// matrix memory allocation /////
-  mobject[n].matrix = (float **)malloc(sizeof(float *) * col);
-  for (i = 0; i < col; i++)
-    mobject[n].matrix[i] = (float *)malloc(sizeof(float) * row);
-
-  stream = fopen(matrix_file, "rt");
-  //////// Reading matrix file data //////
-  for (j = row - 1; j >= 0; j--) {
-    for (i = 0; i < col; i++) {
-      fscanf(stream, "%s", string);
-      mobject[n].matrix[i][j] = atof(string);
-    }
-  }
-
-  fclose(stream);
-}
+#include "./pFDTD.h"
+
+int in_mobject(int n, float i, float j, float k);
+void reading_matrix_m(char *matrix_file, int n);
+int mobjn = 0;        // number of metal objects
+struct mobj *mobject; // declaration of 1D-array, 'mobject'
+
+// molecular objects
+void input_molecular(char *shape, float centerx, float centery, float centerz,
+                     float size1, float size2, float size3) {
+
+  mobjn++;
+
+  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
+  strcpy(mobject[mobjn - 1].shape, shape);
+
+  mobject[mobjn - 1].epsilon_b = 100;
+  mobject[mobjn - 1].omega_p = 0;
+  mobject[mobjn - 1].gamma_0 = 0;
+
+  printf("\n position of %d th molecular: \n", mobjn);
+
+  if (strcmp(shape, "point") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+
+    printf("%f %f \n", centerx, xcenter);
+    printf("%f \n", mobject[mobjn - 1].centeri);
+    printf("%f \n", mobject[mobjn - 1].centerj);
+    printf("%f \n", mobject[mobjn - 1].centerk);
+  } else {
+  }
+}
+
+void input_Drude_medium(char *shape, float centerx, float centery,
+                        float centerz, float size1, float size2, float size3,
+                        float epsilon_b, float omega_p, float gamma_0,
+                        float lattice_n) {
+  float omega_pn, gamma_0n; // reduced frequency, NOT normalized frequency
+
+  ////////////////////////////////////////////
+  /// How to convert into the reduced unit .
+  ////////////////////////////////////////////
+  /*
+          {phase change}=w_p * dt_R = w_F * dt_F
+           Here, w_p = angular frequency in unit of Hz
+                 dt_R = time step in unit of sec.
+                 w_F = reduced frequency in FDTD
+                 dt_F = FDTD time step 1
+           Remember that dt_F is NOT assumed to be 1
+                  BUT represented in unit of (sec q m^-1) (See Eq.49 of manual)
+
+           Now that,
+                 dt_F = 1/(c * S(q^-1))
+                 dt_R = 1/(c * S(m^-1))
+                      = 1/(c * S(q^-1) * ds_x * lattice_x / lattice_n )
+           Therefore we get,
+                 dt_R/dt_F = lattice_n/(ds_x*lattice_x)
+                 w_F = w_p * lattice_n/(ds_x*lattice_x)
+  ///////////////////////////////////////////////////// */
+
+  omega_pn = omega_p * lattice_n / (ds_x * lattice_x);
+  gamma_0n = gamma_0 * lattice_n / (ds_x * lattice_x);
+
+  if (mobjn == 0) // printf once!
+  {
+    printf("----------------\n", omega_pn);
+    printf("omega_pn = %g\n", omega_pn);
+    printf("gamma_0n = %g\n", gamma_0n);
+  }
+
+  mobjn++;
+
+  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
+
+  strcpy(mobject[mobjn - 1].shape, shape);
+
+  mobject[mobjn - 1].epsilon_b = epsilon_b;
+  mobject[mobjn - 1].omega_p = omega_pn; // conversion to 'FDTD' frequency
+  mobject[mobjn - 1].gamma_0 = gamma_0n; //         "      "
+
+  if (strcmp(shape, "rod") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 =
+        (size2); // height  // for non_uniform_grid(), the meaning changed
+  } else if (strcmp(shape, "rodX") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_z; // x length
+  } else if (strcmp(shape, "rodY") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_z; // y length
+  } else if (strcmp(shape, "donut") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
+    mobject[mobjn - 1].size3 =
+        (size3); // height  // for non_uniform_grid(), the meaning changed
+  } else if (strcmp(shape, "sphere") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+  } else if (strcmp(shape, "shell") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
+  } else if (strcmp(shape, "ellipse") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 =
+        (size2); // height (centerz); // for non_uniform_grid() ....
+    mobject[mobjn - 1].size3 = size3; // aspect ratio=ry/rx
+  } else if (strcmp(shape, "ellipsoidal") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // rx
+    mobject[mobjn - 1].size2 = size2 * lattice_y; // ry
+    mobject[mobjn - 1].size3 = size3 * lattice_z; // rz
+  } else if (strcmp(shape, "cone") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz);       // for non_uniform_grid()
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // r1
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // r2
+    mobject[mobjn - 1].size3 = (size3); // for non_uniform_grid() // height
+  } else if (strcmp(shape, "block") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x;
+    mobject[mobjn - 1].size2 = size2 * lattice_y;
+    mobject[mobjn - 1].size3 =
+        (size3); // for non_uniform_grid(), the meaning changed
+  } else {
+  }
+}
+
+void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
+                         float centery, float centerz, float size1, float size2,
+                         float size3, float epsilon_b, float omega_p,
+                         float gamma_0, float lattice_n) {
+  float omega_pn, gamma_0n; // reduced frequency, NOT normalized frequency
+
+  ////////////////////////////////////////////
+  /// How to convert into the reduced unit .
+  ////////////////////////////////////////////
+  /*
+          {phase change}=w_p * dt_R = w_F * dt_F
+           Here, w_p = angular frequency in unit of Hz
+                 dt_R = time step in unit of sec.
+                 w_F = reduced frequency in FDTD
+                 dt_F = FDTD time step 1
+           Remember that dt_F is NOT assumed to be 1
+                  BUT represented in unit of (sec q m^-1) (See Eq.49 of manual)
+
+           Now that,
+                 dt_F = 1/(c * S(q^-1))
+                 dt_R = 1/(c * S(m^-1))
+                      = 1/(c * S(q^-1) * ds_x * lattice_x / lattice_n )
+           Therefore we get,
+                 dt_R/dt_F = lattice_n/(ds_x*lattice_x)
+                 w_F = w_p * lattice_n/(ds_x*lattice_x)
+  ///////////////////////////////////////////////////// */
+
+  omega_pn = omega_p * lattice_n / (ds_x * lattice_x);
+  gamma_0n = gamma_0 * lattice_n / (ds_x * lattice_x);
+
+  if (mobjn == 0) // printf once!
+  {
+    printf("----------------\n", omega_pn);
+    printf("omega_pn = %g\n", omega_pn);
+    printf("gamma_0n = %g\n", gamma_0n);
+  }
+
+  mobjn++;
+
+  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
+
+  strcpy(mobject[mobjn - 1].shape, shape);
+
+  mobject[mobjn - 1].epsilon_b = epsilon_b;
+  mobject[mobjn - 1].omega_p = omega_pn; // conversion to 'FDTD' frequency
+  mobject[mobjn - 1].gamma_0 = gamma_0n; //         "      "
+
+  if (strcmp(shape, "contour") == 0) //// from ver. 8.80
+  {
+    mobject[mobjn - 1].centeri = centerx; // matrix_center
+    mobject[mobjn - 1].centerj = centery; // matrix_center
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1; // discrimination level
+    mobject[mobjn - 1].size2 =
+        (size2);                      // height  // for non_uniform_grid() .....
+    mobject[mobjn - 1].size3 = size3; // compression factor
+    reading_matrix_m(matrix_file, mobjn - 1);
+  }
+  if (strcmp(shape, "rod") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 =
+        (size2); // height  // for non_uniform_grid(), the meaning changed
+  } else if (strcmp(shape, "rodX") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_z; // x length
+  } else if (strcmp(shape, "rodY") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_z; // y length
+  } else if (strcmp(shape, "donut") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
+    mobject[mobjn - 1].size3 =
+        (size3); // height  // for non_uniform_grid(), the meaning changed
+  } else if (strcmp(shape, "sphere") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+  } else if (strcmp(shape, "shell") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
+  } else if (strcmp(shape, "ellipse") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 =
+        (size2); // height (centerz); // for non_uniform_grid() ....
+    mobject[mobjn - 1].size3 = size3; // aspect ratio=ry/rx
+  } else if (strcmp(shape, "ellipsoidal") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // rx
+    mobject[mobjn - 1].size2 = size2 * lattice_y; // ry
+    mobject[mobjn - 1].size3 = size3 * lattice_z; // rz
+  } else if (strcmp(shape, "cone") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz);       // for non_uniform_grid()
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // r1
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // r2
+    mobject[mobjn - 1].size3 = (size3); // for non_uniform_grid() // height
+  } else if (strcmp(shape, "block") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x;
+    mobject[mobjn - 1].size2 = size2 * lattice_y;
+    mobject[mobjn - 1].size3 =
+        (size3); // for non_uniform_grid(), the meaning changed
+  } else {
+  }
+}
+
+void make_metal_structure() {
+  int i, j, k;
+  int n;
+
+  float me, mw, mr;
+
+  printf("-------------------------------\n");
+  printf("making the metal structure...\n");
+
+  ///////////////////////////////////////////////////
+  ///        Medium Rules for (i,j,k)             ///
+  ///---------------------------------            ///
+  ///  mepsilon=momega= 0.0 --> dielectric        ///
+  ///  mepsilon!=0.0 --> metal                    ///
+  ///  mepsilon=1000 --> PCM                      ///
+  ///  mepsilon=0.0 & momega=0.0 --> metal eraser ///
+  ///////////////////////////////////////////////////
+
+  for (i = 0; i < misize; i++) {
+    printf("%d% \n", 100 * i / misize);
+
+    for (j = 0; j < mjsize; j++)
+      for (k = 0; k < mksize; k++) {
+        me = mw = mr = 0.0; // initialization : non-metal
+        for (n = 0; n < mobjn; n++)
+          if (in_mobject(n, i, j, k) == 1) {
+            me = mobject[n].epsilon_b;
+            mw = mobject[n].omega_p;
+            mr = mobject[n].gamma_0;
+          }
+        mepsilon[i][j][k] = me;
+        momega[i][j][k] = mw;
+        mgamma[i][j][k] = mr;
+      }
+  }
+
+  free(mobject);
+
+  printf("make_metal_structure...ok\n");
+}
+
+int in_mobject(int n, float i, float j, float k) {
+  int I, J;
+  float X, Y, Z;
+  float temp;
+
+  if (strcmp(mobject[n].shape, "rod") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
+            mobject[n].size1 * mobject[n].size1 &&
+        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <= k &&
+        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "point") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) < 1.E-6) {
+      if ((j - mobject[n].centerj) * (j - mobject[n].centerj) < 1.E-6 &&
+          (k - mobject[n].centerk) * (k - mobject[n].centerk) < 1.E-6)
+        printf("test1 %f %f %f \n", i, j, k);
+    }
+
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+            (j - mobject[n].centerj) * (j - mobject[n].centerj) +
+            (k - mobject[n].centerk) * (k - mobject[n].centerk) <
+        1.E-6)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "rodX") == 0) {
+    if ((j - mobject[n].centerj) * (j - mobject[n].centerj) +
+                (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
+            mobject[n].size1 * mobject[n].size1 &&
+        mobject[n].centeri - mobject[n].size2 / 2 <= i &&
+        i <= mobject[n].centeri + mobject[n].size2 / 2)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "rodY") == 0) {
+    if ((k - mobject[n].centerk) * (k - mobject[n].centerk) +
+                (i - mobject[n].centeri) * (i - mobject[n].centeri) <=
+            mobject[n].size1 * mobject[n].size1 &&
+        mobject[n].centerj - mobject[n].size2 / 2 <= j &&
+        j <= mobject[n].centerj + mobject[n].size2 / 2)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "donut") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) >=
+            mobject[n].size1 * mobject[n].size1 &&
+        (i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
+            mobject[n].size2 * mobject[n].size2 &&
+        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3) <= k &&
+        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3))
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "sphere") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+            (j - mobject[n].centerj) * (j - mobject[n].centerj) +
+            (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
+        mobject[n].size1 * mobject[n].size1)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "shell") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) +
+                (k - mobject[n].centerk) * (k - mobject[n].centerk) >=
+            mobject[n].size1 * mobject[n].size1 &&
+        (i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) +
+                (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
+            mobject[n].size2 * mobject[n].size2)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "ellipse") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) /
+                    (mobject[n].size3 * mobject[n].size3) <=
+            mobject[n].size1 * mobject[n].size1 &&
+        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <= k &&
+        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "ellipsoidal") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) /
+                ((mobject[n].size1) * (mobject[n].size1)) +
+            (j - mobject[n].centerj) * (j - mobject[n].centerj) /
+                ((mobject[n].size2) * (mobject[n].size2)) +
+            (k - mobject[n].centerk) * (k - mobject[n].centerk) /
+                ((mobject[n].size3) * (mobject[n].size3)) <=
+        1)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "cone") == 0) {
+    ///////////////////////////////////////////////
+    //  mobject[n].centerk & mobject[n].size3 --> in units of z
+    //  size3 : height
+    ///////////////////////////////////////////////
+    temp = (mobject[n].size1 - mobject[n].size2) *
+               (non_uniform_i_to_z(k) - mobject[n].centerk) / mobject[n].size3 +
+           0.5 * (mobject[n].size1 +
+                  mobject[n].size2); // radius varying as a function of 'k'
+
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
+            temp * temp &&
+        (k <=
+         non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3)) &&
+        (k >= non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3)))
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "block") == 0) {
+    if (mobject[n].centeri - mobject[n].size1 / 2 <= i &&
+        i <= mobject[n].centeri + mobject[n].size1 / 2 &&
+        mobject[n].centerj - mobject[n].size2 / 2 <= j &&
+        j <= mobject[n].centerj + mobject[n].size2 / 2 &&
+        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3) <= k &&
+        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3))
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "contour") == 0) {
+    if ((-mobject[n].centeri * CUTFACTOR <=
+         (i - (xcenter * lattice_x)) / mobject[n].size3) &&
+        ((i - (xcenter * lattice_x)) / mobject[n].size3 <=
+         (mobject[n].col - mobject[n].centeri) * CUTFACTOR) &&
+        (-mobject[n].centerj * CUTFACTOR <=
+         (j - (ycenter * lattice_y)) / mobject[n].size3) &&
+        ((j - (ycenter * lattice_y)) / mobject[n].size3 <=
+         (mobject[n].row - mobject[n].centerj) * CUTFACTOR) &&
+        (non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <=
+         k) &&
+        (k <=
+         non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))) {
+      I = floor(mobject[n].centeri +
+                (i - (xcenter * lattice_x)) / mobject[n].size3);
+      J = floor(mobject[n].centerj +
+                (j - (ycenter * lattice_y)) / mobject[n].size3);
+      if (mobject[n].matrix[I][J] <= mobject[n].size1)
+        return 1;
+    } else
+      return 0;
+  }
+
+  else {
+  }
+}
+
+void reading_matrix_m(char *matrix_file, int n) {
+  FILE *stream;
+  int i, j;
+  int col, row;
+  char ch;
+  char string[20];
+
+  stream = fopen(matrix_file, "rt");
+
+  col = 0;
+  row = 0;
+  /////// Counting row and col ///////
+  ch = getc(stream);
+  while (ch != EOF) {
+    if (ch == '\t')
+      col++;
+    if (ch == '\n') {
+      col++; // Origin standard (with TAB separation)
+      row++;
+    }
+    ch = getc(stream);
+  }
+  col = (int)(col / row); // in each row
+  printf("%s matrix file\n", matrix_file);
+  printf("  matrix col = %d\n", col);
+  printf("  matrix row = %d\n", row);
+  printf("\n");
+  fclose(stream);
+
+  mobject[n].col = col;
+  mobject[n].row = row;
+
+  //////// matrix memory allocation /////
+  mobject[n].matrix = (float **)malloc(sizeof(float *) * col);
+  for (i = 0; i < col; i++)
+    mobject[n].matrix[i] = (float *)malloc(sizeof(float) * row);
+
+  stream = fopen(matrix_file, "rt");
+  //////// Reading matrix file data //////
+  for (j = row - 1; j >= 0; j--) {
+    for (i = 0; i < col; i++) {
+      fscanf(stream, "%s", string);
+      mobject[n].matrix[i][j] = atof(string);
+    }
+  }
+
+  fclose(stream);
+}
-- 
2.43.0


From 787911c0b71e9e595b4355b8279b565a44a2dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 60/85] fix: FDTD contours read beyond their matrix and gave no
 answer outside it

---
 openms/lib/fdtd/input.c    | 5 ++++-
 openms/lib/fdtd/metalobj.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/openms/lib/fdtd/input.c b/openms/lib/fdtd/input.c
index 5434409..2802e63 100755
--- a/openms/lib/fdtd/input.c
+++ b/openms/lib/fdtd/input.c
@@ -595,8 +595,11 @@ int in_object(int n, float i, float j, float k) {
                   (i - (xcenter * lattice_x)) / object[n].size3);
         J = floor(object[n].centerj +
                   (j - (ycenter * lattice_y)) / object[n].size3);
-        if (object[n].matrix[I][J] <= object[n].size1)
+        if (I < object[n].col && J < object[n].row &&
+            object[n].matrix[I][J] <= object[n].size1)
           return 1;
+        else
+          return 0;
       } else
         return 0;
     } else {
diff --git a/openms/lib/fdtd/metalobj.c b/openms/lib/fdtd/metalobj.c
index 47cd0de..ba95a11 100755
--- a/openms/lib/fdtd/metalobj.c
+++ b/openms/lib/fdtd/metalobj.c
@@ -519,8 +519,11 @@ int in_mobject(int n, float i, float j, float k) {
                 (i - (xcenter * lattice_x)) / mobject[n].size3);
       J = floor(mobject[n].centerj +
                 (j - (ycenter * lattice_y)) / mobject[n].size3);
-      if (mobject[n].matrix[I][J] <= mobject[n].size1)
+      if (I < mobject[n].col && J < mobject[n].row &&
+          mobject[n].matrix[I][J] <= mobject[n].size1)
         return 1;
+      else
+        return 0;
     } else
       return 0;
   }
-- 
2.43.0


From 6f6e446eb16e685a0b86719eb94c78c3a5973d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 61/85] fix: FDTD metal rods along x and y were scaled by the
 lattice of another axis

---
 openms/lib/fdtd/metalobj.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openms/lib/fdtd/metalobj.c b/openms/lib/fdtd/metalobj.c
index ba95a11..10c5a46 100755
--- a/openms/lib/fdtd/metalobj.c
+++ b/openms/lib/fdtd/metalobj.c
@@ -94,8 +94,8 @@ void input_Drude_medium(char *shape, float centerx, float centery,
     mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
     mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // x length
+    mobject[mobjn - 1].size1 = size1 * lattice_y; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // x length
   } else if (strcmp(shape, "rodY") ==
              0) //// not applicable for non_uniform_grid()
   {
@@ -103,7 +103,7 @@ void input_Drude_medium(char *shape, float centerx, float centery,
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
     mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
     mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // y length
+    mobject[mobjn - 1].size2 = size2 * lattice_y; // y length
   } else if (strcmp(shape, "donut") == 0) {
     mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
@@ -239,8 +239,8 @@ void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
     mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
     mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // x length
+    mobject[mobjn - 1].size1 = size1 * lattice_y; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // x length
   } else if (strcmp(shape, "rodY") ==
              0) //// not applicable for non_uniform_grid()
   {
@@ -248,7 +248,7 @@ void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
     mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
     mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_z; // y length
+    mobject[mobjn - 1].size2 = size2 * lattice_y; // y length
   } else if (strcmp(shape, "donut") == 0) {
     mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
     mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-- 
2.43.0


From b07b033ee878143ba76eed1afe08bb83c18b096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 62/85] fix: FDTD total flux used the left layer to place its
 right y face

---
 openms/lib/fdtd/energy.c | 1052 +++++++++++++++++++-------------------
 1 file changed, 526 insertions(+), 526 deletions(-)

diff --git a/openms/lib/fdtd/energy.c b/openms/lib/fdtd/energy.c
index b036b3b..1445de5 100755
--- a/openms/lib/fdtd/energy.c
+++ b/openms/lib/fdtd/energy.c
@@ -1,526 +1,526 @@
-#include "./pFDTD.h"
-
-/* corrections for nonuniform-grids */
-
-void total_E_energy() {
-  FILE *stream_eEE;
-  int i, j, k;
-  float eEE = 0;
-
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
-      for (j = 1 + pmljl + 0.2 * lattice_y;
-           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
-        eEE = eEE + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy", i, j, k);
-
-  stream_eEE = fopen("total_eEE.en", "a");
-  fprintf(stream_eEE, "%d\t %g\n", t, eEE); // from %f to %g ver. 8.802
-  fclose(stream_eEE);
-}
-
-void total_E_energy_block(float centerx, float centery, float centerz,
-                          float size1, float size2, float size3) {
-  FILE *stream_Eb;
-  int i, j, k;
-  float Eb = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--)
-      for (j = y_n; j <= y_p; j++)
-        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy", i, j, k);
-
-  stream_Eb = fopen("total_eEE_b.en", "a");
-  fprintf(stream_Eb, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
-  fclose(stream_Eb);
-}
-
-void total_E_energy2_block(float centerx, float centery, float centerz,
-                           float size1, float size2,
-                           float size3) { // for calculating kinetic energy of
-                                          // electrons (from ver. 8.78)
-  FILE *stream_E2b;
-  int i, j, k;
-  float Eb = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--)
-      for (j = y_n; j <= y_p; j++)
-        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy2", i, j, k);
-
-  stream_E2b = fopen("total_eEE2_b.en", "a");
-  fprintf(stream_E2b, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
-  fclose(stream_E2b);
-}
-
-void total_E_energy3_block(float centerx, float centery, float centerz,
-                           float size1, float size2,
-                           float size3) { // for calculating potential energy
-                                          // of electrons (from ver. 8.78)
-  FILE *stream_E3b;
-  int i, j, k;
-  float Eb = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--)
-      for (j = y_n; j <= y_p; j++)
-        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy3", i, j, k);
-
-  stream_E3b = fopen("total_eEE3_b.en", "a");
-  fprintf(stream_E3b, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
-  fclose(stream_E3b);
-}
-
-void total_E_energy_thin_block_z(float centerx, float centery, float centerz,
-                                 float size1, float size2, float size3,
-                                 float eps_L, float eps_H, char *name) {
-  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-  /// This calculation assumes very very thin z-size (=size3), so we takes an
-  /// arithmatic average of U(z_n) and U(z_p)
-  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-  FILE *file;
-  int i, j, k;
-  float Ebt = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (j = y_n; j <= y_p; j++)
-      if (eps(i, j, z_n) >= eps_L && eps(i, j, z_n) <= eps_H &&
-          eps(i, j, z_p) >= eps_L && eps(i, j, z_p) <= eps_H)
-        Ebt = Ebt + 0.5 * ds_x * ds_y * (size3 * ds_x * lattice_x) *
-                        (grid_value("E_Energy", i, j, z_n) +
-                         grid_value("E_Energy", i, j, z_p));
-
-  file = fopen(name, "a");
-  fprintf(file, "%d\t %g\n", t, Ebt);
-  fclose(file);
-}
-
-void max_E_Energy_detector(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3) {
-  FILE *stream_max;
-  int i, j, k;
-  float max_val = -12345;
-  int max_i, max_j, max_k;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--)
-      for (j = y_n; j <= y_p; j++) {
-        if (grid_value("E_Energy", i, j, k) > max_val) {
-          max_val = grid_value("E_Energy", i, j, k);
-          max_i = i;
-          max_j = j;
-          max_k = k;
-        }
-      }
-  stream_max = fopen("max_detect.dat", "a");
-  fprintf(stream_max, "%d\t%d\t%d\t%d\t%g\n", t, max_i, max_j, max_k, max_val);
-  fclose(stream_max);
-}
-
-void total_EM_energy() {
-  FILE *stream_eEE_uHH;
-  int i, j, k;
-  float eEE_uHH = 0;
-
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
-      for (j = 1 + pmljl + 0.2 * lattice_y;
-           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
-        eEE_uHH =
-            eEE_uHH + ds_x * ds_y * ds_nz[k] * grid_value("EM_Energy", i, j, k);
-
-  stream_eEE_uHH = fopen("total_eEE_uHH.en", "a");
-  fprintf(stream_eEE_uHH, "%d\t %g\n", t, eEE_uHH); // from %f to %g ver. 8.802
-  fclose(stream_eEE_uHH);
-}
-
-void total_EM_energy_block(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3) {
-  FILE *stream_EMb;
-  int i, j, k;
-  float EMb = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--)
-      for (j = y_n; j <= y_p; j++)
-        EMb = EMb + ds_x * ds_y * ds_nz[k] * grid_value("EM_Energy", i, j, k);
-
-  stream_EMb = fopen("total_eEE_uHH_b.en", "a");
-  fprintf(stream_EMb, "%d\t %g\n", t, EMb); // from %f to %g ver. 8.802
-  fclose(stream_EMb);
-}
-
-void total_E2() {
-  FILE *stream_EE;
-  int i, j, k;
-  double EE = 0;
-
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
-      for (j = 1 + pmljl + 0.2 * lattice_y;
-           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
-        EE = EE + ds_x * ds_y * ds_nz[k] * grid_value("E^2", i, j, k);
-
-  stream_EE = fopen("total_EE.en", "a");
-  fprintf(stream_EE, "%d\t %g\n", t, EE); // from %f to %g ver. 8.802
-  fclose(stream_EE);
-}
-
-// The below function is for testing the code..... , which is not open to public
-void Drude_energy_loss_in_block2(float centerx, float centery, float centerz,
-                                 float size1, float size2, float size3,
-                                 float WC, float lattice_n) {
-  FILE *stream_Eloss;
-  int i, j, k;
-  double Eloss = 0.0;
-  double Im_eps;
-  double w, wr;
-  double temp_fac;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-  ///////////////////////////////////////////////////////
-  /// WC : loss calculated at this normalized frequency
-  ///////////////////////////////////////////////////////
-  /////////////////////////////////////////////////////////////////////////////////////////////
-  //	power loss per unit volume = 2 WC Im{epsilon(WC)} E(x,t)*E(x,t)
-  //	(See Jackson, Eq.6.127, no explicit ohmic loss is assumed, i.e. J.E = 0)
-  //
-  //	Im{epsilon(w)} = momega[i][j][k]^2 * mgamma[i][j][k] / ( w^3 +
-  // w*mgamma[i][j][k]^2 )
-  /////////////////////////////////////////////////////////////////////////////////////////////
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  /////////////////////////////////////////////
-  /// WC --> to fit into the FDTD time unit
-  /////////////////////////////////////////////
-  w = WC * 2 * 3.1415926 * light_speed / (ds_x * lattice_x);
-  wr = WC * 2 * 3.1415926 * light_speed /
-       lattice_n; // into actual angular frequency in the unit of Hz
-
-  temp_fac = (ds_x * lattice_x) /
-             lattice_n; // to be used to reconvert the reduced wp and gamma
-
-  for (i = x_n; i <= x_p; i++)
-    for (j = y_n; j <= y_p; j++)
-      for (k = z_n; k <= z_p; k++) {
-        Im_eps = temp_fac * temp_fac * temp_fac * momega[i][j][k] *
-                 momega[i][j][k] * mgamma[i][j][k] /
-                 (wr * wr * wr +
-                  wr * mgamma[i][j][k] * mgamma[i][j][k] * temp_fac * temp_fac);
-        Eloss = Eloss + 2 * w * eo * Im_eps * ds_x * ds_y * ds_nz[k] *
-                            grid_value("E^2", i, j, k);
-      }
-
-  stream_Eloss = fopen("Drude_E_loss.en", "a");
-  fprintf(stream_Eloss, "%d\t%lf\n", t, Eloss);
-  fclose(stream_Eloss);
-}
-
-void Drude_energy_loss_in_block(float centerx, float centery, float centerz,
-                                float size1, float size2, float size3) {
-  FILE *stream_Eloss;
-  int i, j, k;
-  double Eloss = 0.0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (j = y_n; j <= y_p; j++)
-      for (k = z_n; k <= z_p; k++) {
-        Eloss = Eloss + ds_x * ds_y * ds_nz[k] * grid_value("J.E", i, j, k);
-      }
-
-  stream_Eloss = fopen("Drude_E_loss.en", "a");
-  fprintf(stream_Eloss, "%d\t%g\n", t, Eloss); // from %f to %g ver. 8.802
-  fclose(stream_Eloss);
-}
-
-void Poynting_total() {
-  int i, j, k;
-  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0, sumzp = 0, sumzn = 0;
-
-  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-       k >= 1 + pmlkl + 0.2 * lattice_z; k--)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      sumxp += (ds_y * ds_nz[k]) *
-               grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
-      sumxn +=
-          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
-    }
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-         k >= 1 + pmlkl + 0.2 * lattice_z; k--) {
-      sumyp += (ds_nz[k] * ds_x) *
-               grid_value("Sy", i, jsize - 2 - pmljl - 0.2 * lattice_y, k);
-      sumyn +=
-          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
-    }
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      sumzp += (ds_x * ds_y) *
-               grid_value("Sz", i, j, ksize - 2 - pmlkr - 0.2 * lattice_z);
-      sumzn += (ds_x * ds_y) * grid_value("Sz", i, j, pmlkl + 0.2 * lattice_z);
-    }
-  Sumx = Sumx + (sumxp - sumxn); // Sumx,Sumy,Sumz --> global variable
-  Sumy = Sumy + (sumyp - sumyn);
-  Sumz = Sumz + (sumzp - sumzn);
-}
-
-float Poynting_half_sphere_point(char *component, float z0, float R,
-                                 float theta, float phi) {
-  int xg, yg, zg;
-
-  int k; // for non_uniform grid
-
-  float x, y, z;
-  float Pi; //'i'-component of Poynting vector
-
-  ////// unit = a //////
-  x = R * sin(theta) * cos(phi);
-  y = R * sin(theta) * sin(phi);
-  z = R * cos(theta) + z0;
-  k = non_uniform_z_to_i(z);
-
-  ////// unit = grid //////
-  xg = floor(0.5 + ((x + xcenter) * lattice_x));
-  yg = floor(0.5 + ((y + xcenter) * lattice_y));
-  zg = non_uniform_z_to_i(z);
-
-  if (strcmp("r", component) == 0) {
-    Pi = (ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * sin(theta) *
-             cos(phi) +
-         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * sin(theta) *
-             sin(phi) +
-         (ds_x * ds_y) * grid_value("Sz", xg, yg, zg) * cos(theta);
-  } else if (strcmp("theta", component) == 0) {
-    Pi = (ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * cos(theta) *
-             cos(phi) +
-         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * cos(theta) *
-             sin(phi) -
-         (ds_x * ds_y) * grid_value("Sz", xg, yg, zg) * sin(theta);
-  } else if (strcmp("phi", component) == 0) {
-    Pi = -(ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * sin(phi) +
-         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * cos(phi);
-  } else {
-  }
-
-  return (Pi);
-}
-
-void Poynting_block(float centerx, float centery, float centerz, float size1,
-                    float size2, float size3) {
-  int i, j, k;
-  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0, sumzp = 0, sumzn = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (k = z_p; k >= z_n; k--)
-    for (j = y_n; j <= y_p; j++) {
-      sumxp += (ds_y * ds_nz[k]) * grid_value("Sx", x_p, j, k);
-      sumxn += (ds_y * ds_nz[k]) * grid_value("Sx", x_n, j, k);
-    }
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--) {
-      sumyp += (ds_nz[k] * ds_x) * grid_value("Sy", i, y_p, k);
-      sumyn += (ds_nz[k] * ds_x) * grid_value("Sy", i, y_n, k);
-    }
-  for (i = x_n; i <= x_p; i++)
-    for (j = y_n; j <= y_p; j++) {
-      sumzp += (ds_x * ds_y) * grid_value("Sz", i, j, z_p);
-      sumzn += (ds_x * ds_y) * grid_value("Sz", i, j, z_n);
-    }
-  Sumx = Sumx + (sumxp - sumxn); // Sumx,Sumy,Sumz --> global variable
-  Sumy = Sumy + (sumyp - sumyn);
-  Sumz = Sumz + (sumzp - sumzn);
-}
-
-void Poynting_side(float value, float zposition) {
-  int i, j, k;
-  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0;
-
-  for (k = non_uniform_z_to_i(value + zposition);
-       k >= non_uniform_z_to_i(-value + zposition); k--)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      sumxp += (ds_y * ds_nz[k]) *
-               grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
-      sumxn +=
-          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
-    }
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (k = non_uniform_z_to_i(value + zposition);
-         k >= non_uniform_z_to_i(-value + zposition); k--) {
-      sumyp += (ds_nz[k] * ds_x) *
-               grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
-      sumyn +=
-          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
-    }
-
-  SideSumx = SideSumx + (sumxp - sumxn);
-  SideSumy = SideSumy + (sumyp - sumyn);
-}
-
-void print_energy() {
-  FILE *VQSQ;
-  float Et, Eh, Ev;
-
-  Et = Sumx + Sumy + Sumz;  // total loss
-  Eh = SideSumx + SideSumy; // horizontal loss
-  Ev = Et - Eh;             // vertical loss
-
-  VQSQ = fopen("VQSQ.en", "wt");
-  fprintf(VQSQ,
-          "VerticalLoss=%g\t HorizontalLoss=%g\t "
-          "VerticalLoss/HorizontalLoss(K)=%g\n",
-          Ev, Eh, Ev / Eh);
-  fprintf(VQSQ, "Sumx=%g\t Sumy=%g\t Sumz=%g\n", Sumx, Sumy, Sumz);
-  fprintf(VQSQ, "SideSumx=%g\t SideSumy=%g\n", SideSumx, SideSumy);
-  fprintf(VQSQ, "SumUpper=%g\t SumLower=%g\n", SumUpper, SumLower);
-  fclose(VQSQ);
-}
-
-void Poynting_UpDown(float value, float zposition) {
-  int i, j, k;
-  float UpStripXp = 0, UpStripXn = 0, UpStripYp = 0, UpStripYn = 0;
-  float DnStripXp = 0, DnStripXn = 0, DnStripYp = 0, DnStripYn = 0;
-  float PlanZp = 0, PlanZn = 0;
-
-  //////// Upper plane & Bottom plane
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      PlanZp += (ds_x * ds_y) *
-                grid_value("Sz", i, j, ksize - 2 - pmlkr - 0.2 * lattice_z);
-      PlanZn += (ds_x * ds_y) * grid_value("Sz", i, j, pmlkl + 0.2 * lattice_z);
-    }
-
-  ///////// Upper Strip
-  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-       k >= non_uniform_z_to_i(value + zposition); k--)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      UpStripXp += (ds_y * ds_nz[k]) *
-                   grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
-      UpStripXn +=
-          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
-    }
-  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-       k >= non_uniform_z_to_i(value + zposition); k--)
-    for (i = 1 + pmlil + 0.2 * lattice_x;
-         i <= isize - 2 - pmlir - 0.2 * lattice_x; i++) {
-      UpStripYp += (ds_nz[k] * ds_x) *
-                   grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
-      UpStripYn +=
-          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
-    }
-
-  ///////// Lower Strip
-  for (k = 1 + pmlkl + 0.2 * lattice_z;
-       k <= non_uniform_z_to_i(-value + zposition); k++)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      DnStripXp += (ds_y * ds_nz[k]) *
-                   grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
-      DnStripXn +=
-          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
-    }
-  for (k = 1 + pmlkl + 0.2 * lattice_z;
-       k <= non_uniform_z_to_i(-value + zposition); k++)
-    for (i = 1 + pmlil + 0.2 * lattice_x;
-         i <= isize - 2 - pmlir - 0.2 * lattice_x; i++) {
-      DnStripYp += (ds_nz[k] * ds_x) *
-                   grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
-      DnStripYn +=
-          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
-    }
-
-  SumUpper =
-      SumUpper + PlanZp + (UpStripXp - UpStripXn) + (UpStripYp - UpStripYn);
-  SumLower =
-      SumLower + (-PlanZn) + (DnStripXp - DnStripXn) + (DnStripYp - DnStripYn);
-}
+#include "./pFDTD.h"
+
+/* corrections for nonuniform-grids */
+
+void total_E_energy() {
+  FILE *stream_eEE;
+  int i, j, k;
+  float eEE = 0;
+
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
+      for (j = 1 + pmljl + 0.2 * lattice_y;
+           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
+        eEE = eEE + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy", i, j, k);
+
+  stream_eEE = fopen("total_eEE.en", "a");
+  fprintf(stream_eEE, "%d\t %g\n", t, eEE); // from %f to %g ver. 8.802
+  fclose(stream_eEE);
+}
+
+void total_E_energy_block(float centerx, float centery, float centerz,
+                          float size1, float size2, float size3) {
+  FILE *stream_Eb;
+  int i, j, k;
+  float Eb = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--)
+      for (j = y_n; j <= y_p; j++)
+        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy", i, j, k);
+
+  stream_Eb = fopen("total_eEE_b.en", "a");
+  fprintf(stream_Eb, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
+  fclose(stream_Eb);
+}
+
+void total_E_energy2_block(float centerx, float centery, float centerz,
+                           float size1, float size2,
+                           float size3) { // for calculating kinetic energy of
+                                          // electrons (from ver. 8.78)
+  FILE *stream_E2b;
+  int i, j, k;
+  float Eb = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--)
+      for (j = y_n; j <= y_p; j++)
+        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy2", i, j, k);
+
+  stream_E2b = fopen("total_eEE2_b.en", "a");
+  fprintf(stream_E2b, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
+  fclose(stream_E2b);
+}
+
+void total_E_energy3_block(float centerx, float centery, float centerz,
+                           float size1, float size2,
+                           float size3) { // for calculating potential energy
+                                          // of electrons (from ver. 8.78)
+  FILE *stream_E3b;
+  int i, j, k;
+  float Eb = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--)
+      for (j = y_n; j <= y_p; j++)
+        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy3", i, j, k);
+
+  stream_E3b = fopen("total_eEE3_b.en", "a");
+  fprintf(stream_E3b, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
+  fclose(stream_E3b);
+}
+
+void total_E_energy_thin_block_z(float centerx, float centery, float centerz,
+                                 float size1, float size2, float size3,
+                                 float eps_L, float eps_H, char *name) {
+  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+  /// This calculation assumes very very thin z-size (=size3), so we takes an
+  /// arithmatic average of U(z_n) and U(z_p)
+  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+  FILE *file;
+  int i, j, k;
+  float Ebt = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (j = y_n; j <= y_p; j++)
+      if (eps(i, j, z_n) >= eps_L && eps(i, j, z_n) <= eps_H &&
+          eps(i, j, z_p) >= eps_L && eps(i, j, z_p) <= eps_H)
+        Ebt = Ebt + 0.5 * ds_x * ds_y * (size3 * ds_x * lattice_x) *
+                        (grid_value("E_Energy", i, j, z_n) +
+                         grid_value("E_Energy", i, j, z_p));
+
+  file = fopen(name, "a");
+  fprintf(file, "%d\t %g\n", t, Ebt);
+  fclose(file);
+}
+
+void max_E_Energy_detector(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3) {
+  FILE *stream_max;
+  int i, j, k;
+  float max_val = -12345;
+  int max_i, max_j, max_k;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--)
+      for (j = y_n; j <= y_p; j++) {
+        if (grid_value("E_Energy", i, j, k) > max_val) {
+          max_val = grid_value("E_Energy", i, j, k);
+          max_i = i;
+          max_j = j;
+          max_k = k;
+        }
+      }
+  stream_max = fopen("max_detect.dat", "a");
+  fprintf(stream_max, "%d\t%d\t%d\t%d\t%g\n", t, max_i, max_j, max_k, max_val);
+  fclose(stream_max);
+}
+
+void total_EM_energy() {
+  FILE *stream_eEE_uHH;
+  int i, j, k;
+  float eEE_uHH = 0;
+
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
+      for (j = 1 + pmljl + 0.2 * lattice_y;
+           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
+        eEE_uHH =
+            eEE_uHH + ds_x * ds_y * ds_nz[k] * grid_value("EM_Energy", i, j, k);
+
+  stream_eEE_uHH = fopen("total_eEE_uHH.en", "a");
+  fprintf(stream_eEE_uHH, "%d\t %g\n", t, eEE_uHH); // from %f to %g ver. 8.802
+  fclose(stream_eEE_uHH);
+}
+
+void total_EM_energy_block(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3) {
+  FILE *stream_EMb;
+  int i, j, k;
+  float EMb = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--)
+      for (j = y_n; j <= y_p; j++)
+        EMb = EMb + ds_x * ds_y * ds_nz[k] * grid_value("EM_Energy", i, j, k);
+
+  stream_EMb = fopen("total_eEE_uHH_b.en", "a");
+  fprintf(stream_EMb, "%d\t %g\n", t, EMb); // from %f to %g ver. 8.802
+  fclose(stream_EMb);
+}
+
+void total_E2() {
+  FILE *stream_EE;
+  int i, j, k;
+  double EE = 0;
+
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
+      for (j = 1 + pmljl + 0.2 * lattice_y;
+           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
+        EE = EE + ds_x * ds_y * ds_nz[k] * grid_value("E^2", i, j, k);
+
+  stream_EE = fopen("total_EE.en", "a");
+  fprintf(stream_EE, "%d\t %g\n", t, EE); // from %f to %g ver. 8.802
+  fclose(stream_EE);
+}
+
+// The below function is for testing the code..... , which is not open to public
+void Drude_energy_loss_in_block2(float centerx, float centery, float centerz,
+                                 float size1, float size2, float size3,
+                                 float WC, float lattice_n) {
+  FILE *stream_Eloss;
+  int i, j, k;
+  double Eloss = 0.0;
+  double Im_eps;
+  double w, wr;
+  double temp_fac;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+  ///////////////////////////////////////////////////////
+  /// WC : loss calculated at this normalized frequency
+  ///////////////////////////////////////////////////////
+  /////////////////////////////////////////////////////////////////////////////////////////////
+  //	power loss per unit volume = 2 WC Im{epsilon(WC)} E(x,t)*E(x,t)
+  //	(See Jackson, Eq.6.127, no explicit ohmic loss is assumed, i.e. J.E = 0)
+  //
+  //	Im{epsilon(w)} = momega[i][j][k]^2 * mgamma[i][j][k] / ( w^3 +
+  // w*mgamma[i][j][k]^2 )
+  /////////////////////////////////////////////////////////////////////////////////////////////
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  /////////////////////////////////////////////
+  /// WC --> to fit into the FDTD time unit
+  /////////////////////////////////////////////
+  w = WC * 2 * 3.1415926 * light_speed / (ds_x * lattice_x);
+  wr = WC * 2 * 3.1415926 * light_speed /
+       lattice_n; // into actual angular frequency in the unit of Hz
+
+  temp_fac = (ds_x * lattice_x) /
+             lattice_n; // to be used to reconvert the reduced wp and gamma
+
+  for (i = x_n; i <= x_p; i++)
+    for (j = y_n; j <= y_p; j++)
+      for (k = z_n; k <= z_p; k++) {
+        Im_eps = temp_fac * temp_fac * temp_fac * momega[i][j][k] *
+                 momega[i][j][k] * mgamma[i][j][k] /
+                 (wr * wr * wr +
+                  wr * mgamma[i][j][k] * mgamma[i][j][k] * temp_fac * temp_fac);
+        Eloss = Eloss + 2 * w * eo * Im_eps * ds_x * ds_y * ds_nz[k] *
+                            grid_value("E^2", i, j, k);
+      }
+
+  stream_Eloss = fopen("Drude_E_loss.en", "a");
+  fprintf(stream_Eloss, "%d\t%lf\n", t, Eloss);
+  fclose(stream_Eloss);
+}
+
+void Drude_energy_loss_in_block(float centerx, float centery, float centerz,
+                                float size1, float size2, float size3) {
+  FILE *stream_Eloss;
+  int i, j, k;
+  double Eloss = 0.0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (j = y_n; j <= y_p; j++)
+      for (k = z_n; k <= z_p; k++) {
+        Eloss = Eloss + ds_x * ds_y * ds_nz[k] * grid_value("J.E", i, j, k);
+      }
+
+  stream_Eloss = fopen("Drude_E_loss.en", "a");
+  fprintf(stream_Eloss, "%d\t%g\n", t, Eloss); // from %f to %g ver. 8.802
+  fclose(stream_Eloss);
+}
+
+void Poynting_total() {
+  int i, j, k;
+  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0, sumzp = 0, sumzn = 0;
+
+  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+       k >= 1 + pmlkl + 0.2 * lattice_z; k--)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      sumxp += (ds_y * ds_nz[k]) *
+               grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
+      sumxn +=
+          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
+    }
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+         k >= 1 + pmlkl + 0.2 * lattice_z; k--) {
+      sumyp += (ds_nz[k] * ds_x) *
+               grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
+      sumyn +=
+          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
+    }
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      sumzp += (ds_x * ds_y) *
+               grid_value("Sz", i, j, ksize - 2 - pmlkr - 0.2 * lattice_z);
+      sumzn += (ds_x * ds_y) * grid_value("Sz", i, j, pmlkl + 0.2 * lattice_z);
+    }
+  Sumx = Sumx + (sumxp - sumxn); // Sumx,Sumy,Sumz --> global variable
+  Sumy = Sumy + (sumyp - sumyn);
+  Sumz = Sumz + (sumzp - sumzn);
+}
+
+float Poynting_half_sphere_point(char *component, float z0, float R,
+                                 float theta, float phi) {
+  int xg, yg, zg;
+
+  int k; // for non_uniform grid
+
+  float x, y, z;
+  float Pi; //'i'-component of Poynting vector
+
+  ////// unit = a //////
+  x = R * sin(theta) * cos(phi);
+  y = R * sin(theta) * sin(phi);
+  z = R * cos(theta) + z0;
+  k = non_uniform_z_to_i(z);
+
+  ////// unit = grid //////
+  xg = floor(0.5 + ((x + xcenter) * lattice_x));
+  yg = floor(0.5 + ((y + xcenter) * lattice_y));
+  zg = non_uniform_z_to_i(z);
+
+  if (strcmp("r", component) == 0) {
+    Pi = (ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * sin(theta) *
+             cos(phi) +
+         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * sin(theta) *
+             sin(phi) +
+         (ds_x * ds_y) * grid_value("Sz", xg, yg, zg) * cos(theta);
+  } else if (strcmp("theta", component) == 0) {
+    Pi = (ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * cos(theta) *
+             cos(phi) +
+         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * cos(theta) *
+             sin(phi) -
+         (ds_x * ds_y) * grid_value("Sz", xg, yg, zg) * sin(theta);
+  } else if (strcmp("phi", component) == 0) {
+    Pi = -(ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * sin(phi) +
+         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * cos(phi);
+  } else {
+  }
+
+  return (Pi);
+}
+
+void Poynting_block(float centerx, float centery, float centerz, float size1,
+                    float size2, float size3) {
+  int i, j, k;
+  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0, sumzp = 0, sumzn = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (k = z_p; k >= z_n; k--)
+    for (j = y_n; j <= y_p; j++) {
+      sumxp += (ds_y * ds_nz[k]) * grid_value("Sx", x_p, j, k);
+      sumxn += (ds_y * ds_nz[k]) * grid_value("Sx", x_n, j, k);
+    }
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--) {
+      sumyp += (ds_nz[k] * ds_x) * grid_value("Sy", i, y_p, k);
+      sumyn += (ds_nz[k] * ds_x) * grid_value("Sy", i, y_n, k);
+    }
+  for (i = x_n; i <= x_p; i++)
+    for (j = y_n; j <= y_p; j++) {
+      sumzp += (ds_x * ds_y) * grid_value("Sz", i, j, z_p);
+      sumzn += (ds_x * ds_y) * grid_value("Sz", i, j, z_n);
+    }
+  Sumx = Sumx + (sumxp - sumxn); // Sumx,Sumy,Sumz --> global variable
+  Sumy = Sumy + (sumyp - sumyn);
+  Sumz = Sumz + (sumzp - sumzn);
+}
+
+void Poynting_side(float value, float zposition) {
+  int i, j, k;
+  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0;
+
+  for (k = non_uniform_z_to_i(value + zposition);
+       k >= non_uniform_z_to_i(-value + zposition); k--)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      sumxp += (ds_y * ds_nz[k]) *
+               grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
+      sumxn +=
+          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
+    }
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (k = non_uniform_z_to_i(value + zposition);
+         k >= non_uniform_z_to_i(-value + zposition); k--) {
+      sumyp += (ds_nz[k] * ds_x) *
+               grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
+      sumyn +=
+          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
+    }
+
+  SideSumx = SideSumx + (sumxp - sumxn);
+  SideSumy = SideSumy + (sumyp - sumyn);
+}
+
+void print_energy() {
+  FILE *VQSQ;
+  float Et, Eh, Ev;
+
+  Et = Sumx + Sumy + Sumz;  // total loss
+  Eh = SideSumx + SideSumy; // horizontal loss
+  Ev = Et - Eh;             // vertical loss
+
+  VQSQ = fopen("VQSQ.en", "wt");
+  fprintf(VQSQ,
+          "VerticalLoss=%g\t HorizontalLoss=%g\t "
+          "VerticalLoss/HorizontalLoss(K)=%g\n",
+          Ev, Eh, Ev / Eh);
+  fprintf(VQSQ, "Sumx=%g\t Sumy=%g\t Sumz=%g\n", Sumx, Sumy, Sumz);
+  fprintf(VQSQ, "SideSumx=%g\t SideSumy=%g\n", SideSumx, SideSumy);
+  fprintf(VQSQ, "SumUpper=%g\t SumLower=%g\n", SumUpper, SumLower);
+  fclose(VQSQ);
+}
+
+void Poynting_UpDown(float value, float zposition) {
+  int i, j, k;
+  float UpStripXp = 0, UpStripXn = 0, UpStripYp = 0, UpStripYn = 0;
+  float DnStripXp = 0, DnStripXn = 0, DnStripYp = 0, DnStripYn = 0;
+  float PlanZp = 0, PlanZn = 0;
+
+  //////// Upper plane & Bottom plane
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      PlanZp += (ds_x * ds_y) *
+                grid_value("Sz", i, j, ksize - 2 - pmlkr - 0.2 * lattice_z);
+      PlanZn += (ds_x * ds_y) * grid_value("Sz", i, j, pmlkl + 0.2 * lattice_z);
+    }
+
+  ///////// Upper Strip
+  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+       k >= non_uniform_z_to_i(value + zposition); k--)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      UpStripXp += (ds_y * ds_nz[k]) *
+                   grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
+      UpStripXn +=
+          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
+    }
+  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+       k >= non_uniform_z_to_i(value + zposition); k--)
+    for (i = 1 + pmlil + 0.2 * lattice_x;
+         i <= isize - 2 - pmlir - 0.2 * lattice_x; i++) {
+      UpStripYp += (ds_nz[k] * ds_x) *
+                   grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
+      UpStripYn +=
+          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
+    }
+
+  ///////// Lower Strip
+  for (k = 1 + pmlkl + 0.2 * lattice_z;
+       k <= non_uniform_z_to_i(-value + zposition); k++)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      DnStripXp += (ds_y * ds_nz[k]) *
+                   grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
+      DnStripXn +=
+          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
+    }
+  for (k = 1 + pmlkl + 0.2 * lattice_z;
+       k <= non_uniform_z_to_i(-value + zposition); k++)
+    for (i = 1 + pmlil + 0.2 * lattice_x;
+         i <= isize - 2 - pmlir - 0.2 * lattice_x; i++) {
+      DnStripYp += (ds_nz[k] * ds_x) *
+                   grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
+      DnStripYn +=
+          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
+    }
+
+  SumUpper =
+      SumUpper + PlanZp + (UpStripXp - UpStripXn) + (UpStripYp - UpStripYn);
+  SumLower =
+      SumLower + (-PlanZn) + (DnStripXp - DnStripXn) + (DnStripYp - DnStripYn);
+}
-- 
2.43.0


From 39b472f0cd555ab517678ef55ab820e8b662254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 63/85] fix: FDTD half-sphere flux was centred at the x centre
 along y

---
 openms/lib/fdtd/energy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/fdtd/energy.c b/openms/lib/fdtd/energy.c
index 1445de5..b7ab141 100755
--- a/openms/lib/fdtd/energy.c
+++ b/openms/lib/fdtd/energy.c
@@ -359,7 +359,7 @@ float Poynting_half_sphere_point(char *component, float z0, float R,
 
   ////// unit = grid //////
   xg = floor(0.5 + ((x + xcenter) * lattice_x));
-  yg = floor(0.5 + ((y + xcenter) * lattice_y));
+  yg = floor(0.5 + ((y + ycenter) * lattice_y));
   zg = non_uniform_z_to_i(z);
 
   if (strcmp("r", component) == 0) {
-- 
2.43.0


From ff86dc57785820e7558e867c709aeac6fbd09bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 64/85] fix: FDTD imaginary amplitude of continuous sources was
 always zero

---
 openms/lib/fdtd/incoherent.c | 403 +++++++++++++++++------------------
 1 file changed, 201 insertions(+), 202 deletions(-)

diff --git a/openms/lib/fdtd/incoherent.c b/openms/lib/fdtd/incoherent.c
index 498ac11..1caf961 100755
--- a/openms/lib/fdtd/incoherent.c
+++ b/openms/lib/fdtd/incoherent.c
@@ -1,202 +1,201 @@
-#include "./pFDTD.h"
-
-int random_on(int p_tau);
-float get_random_float(gsl_rng *r, float range);
-long get_Gaussian_dist(gsl_rng *r, float mu, float sigma);
-
-int inc_dipole_num = 0;
-//////// Random variables ////////////
-float *p_theta_aux;
-float *p_phi;
-float *p_eps;
-long *p_tau;
-//////////////////////////////////////
-long store_t = -100;    // temp 't' store variable
-int one_round_turn = 0; // 0:no, 1:yes
-
-void incoherent_point_dipole(char *function, float x, float y, float z,
-                             float frequency, long to, long tdecay, float t_mu,
-                             float sd) {
-  int i, j, k;
-  float Jx, Jy, Jz;
-  float iJx, iJy, iJz;
-
-  if ((store_t == -100) || (store_t == t)) {
-    /// dipole number increase
-    inc_dipole_num++;
-    if (one_round_turn == 0) {
-      /// re-allocation of 1-D arrays
-      p_theta_aux =
-          (float *)realloc(p_theta_aux, sizeof(float) * inc_dipole_num);
-      p_phi = (float *)realloc(p_phi, sizeof(float) * inc_dipole_num);
-      p_eps = (float *)realloc(p_eps, sizeof(float) * inc_dipole_num);
-      p_tau = (long *)realloc(p_tau, sizeof(long) * inc_dipole_num);
-      // initialization
-      p_tau[inc_dipole_num - 1] = t;
-    }
-  } else {
-    inc_dipole_num = 1;
-    one_round_turn = 1;
-  }
-
-  /// save the present time 't'
-  store_t = t;
-
-  // dipole position
-  i = floor(0.5 + ((x + xcenter) * lattice_x));
-  j = floor(0.5 + ((y + ycenter) * lattice_y));
-  k = floor(0.5 + ((z + zcenter) * lattice_z));
-
-  if (random_on(p_tau[inc_dipole_num - 1]) == 1) {
-    p_theta_aux[inc_dipole_num - 1] = get_random_float(rng_r, 1.0);
-    // to make uniform random generation over the spherical surface
-    // instead of using 'theta' directly, we use 0< 'theta_aux' <1
-    // in such a way sin(theta) = sqrt( 1 - theta_aux^2)
-    // modified after ver. 8.2
-    p_phi[inc_dipole_num - 1] = get_random_float(rng_r, 2 * pi);
-    p_eps[inc_dipole_num - 1] = get_random_float(rng_r, 2 * pi);
-    p_tau[inc_dipole_num - 1] = t + get_Gaussian_dist(rng_r, t_mu, sd);
-  } else // no change
-  {
-  }
-
-  if (strcmp(function, "Gauss") == 0) // Gaussian envelope
-  {
-    Jx = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                      p_theta_aux[inc_dipole_num - 1]) *
-         cos(p_phi[inc_dipole_num - 1]);
-    Jy = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                      p_theta_aux[inc_dipole_num - 1]) *
-         sin(p_phi[inc_dipole_num - 1]);
-    Jz = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         p_theta_aux[inc_dipole_num - 1];
-    if ((use_periodic_x == 1 || use_periodic_y == 1) &&
-        (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
-      iJx = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                         p_theta_aux[inc_dipole_num - 1]) *
-            cos(p_phi[inc_dipole_num - 1]);
-      iJy = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                         p_theta_aux[inc_dipole_num - 1]) *
-            sin(p_phi[inc_dipole_num - 1]);
-      iJz = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            p_theta_aux[inc_dipole_num - 1];
-    }
-  }
-  if (strcmp(function, "Lorentz") == 0) // Lorentzian envelope
-  {
-    Jx = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                      p_theta_aux[inc_dipole_num - 1]) *
-         cos(p_phi[inc_dipole_num - 1]);
-    Jy = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                      p_theta_aux[inc_dipole_num - 1]) *
-         sin(p_phi[inc_dipole_num - 1]);
-    Jz = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         p_theta_aux[inc_dipole_num - 1];
-    if ((use_periodic_x == 1 || use_periodic_y == 1) &&
-        (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
-      iJx = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                         p_theta_aux[inc_dipole_num - 1]) *
-            cos(p_phi[inc_dipole_num - 1]);
-      iJy = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                         p_theta_aux[inc_dipole_num - 1]) *
-            sin(p_phi[inc_dipole_num - 1]);
-      iJz = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            p_theta_aux[inc_dipole_num - 1];
-    }
-  }
-
-  Ex[i][j][k] = Ex[i][j][k] + Jx / 2;
-  Ex[i - 1][j][k] = Ex[i - 1][j][k] + Jx / 2;
-  Ey[i][j][k] = Ey[i][j][k] + Jy / 2;
-  Ey[i][j - 1][k] = Ey[i][j - 1][k] + Jy / 2;
-  Ez[i][j][k] = Ez[i][j][k] + Jz / 2;
-  Ez[i][j][k - 1] = Ez[i][j][k - 1] + Jz / 2;
-
-  if ((use_periodic_x == 1 || use_periodic_y == 1) &&
-      (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
-    iEx[i][j][k] = iEx[i][j][k] + iJx / 2;
-    iEx[i - 1][j][k] = iEx[i - 1][j][k] + iJx / 2;
-    iEy[i][j][k] = iEy[i][j][k] + iJy / 2;
-    iEy[i][j - 1][k] = iEy[i][j - 1][k] + iJy / 2;
-    iEz[i][j][k] = iEz[i][j][k] + iJz / 2;
-    iEz[i][j][k - 1] = iEz[i][j][k - 1] + iJz / 2;
-  }
-}
-
-int random_on(int p_tau) {
-  if (t == p_tau)
-    return (1);
-  else
-    return (0);
-}
-
-float get_random_float(gsl_rng *r, float range) {
-  return (range * gsl_rng_uniform(r));
-}
-
-long get_Gaussian_dist(gsl_rng *r, float mu, float sigma) {
-  return (fabs(mu + gsl_ran_gaussian(r, sigma)));
-}
-
-//////////////////////////////////////////////////
-//    Rotating phasor in case of periodic BC    //
-//  --------------------------------------------//
-//        Use the relation :                    //
-//     cos(wt-90) + i sin(wt-90)                //
-//        = sin(wt) - i cos(wt)                 //
-//     Then, we can preserve the same "sin()"   //
-//        form for the real field source        //
-//////////////////////////////////////////////////
-
-float Gauss_amp(float frequency, float phase, long to, long tdecay) {
-  if (to - 3 * tdecay < t && t < to + 3 * tdecay)
-    return (sin(2 * pi * frequency * t / S_factor / ds_x / lattice_x + phase) *
-            exp(-1.0 * pow((float)(t - to) / tdecay, 2.0)));
-  else
-    return (0.0);
-}
-
-float Lorentz_amp(float frequency, float phase, long to, long tdecay) {
-  if (tdecay == 0)
-    return (
-        sin(2 * pi * frequency * (float)(t - to) / S_factor / ds_x / lattice_x +
-            phase));
-  else if (to <= t && t < to + 8 * tdecay)
-    return (
-        sin(2 * pi * frequency * (float)(t - to) / S_factor / ds_x / lattice_x +
-            phase) *
-        exp(-(float)(t - to) / tdecay));
-  else
-    return (0.0);
-}
-
-float iGauss_amp(float frequency, float phase, long to, long tdecay) {
-  if (to - 3 * tdecay < t && t < to + 3 * tdecay)
-    return (-cos(2 * pi * frequency * t / S_factor / ds_x / lattice_x + phase) *
-            exp(-1.0 * pow((float)(t - to) / tdecay, 2.0)));
-  else
-    return (0.0);
-}
-
-float iLorentz_amp(float frequency, float phase, long to, long tdecay) {
-  if (to <= t && t < to + 8 * tdecay) {
-    if (tdecay == 0)
-      return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
-                       lattice_x +
-                   phase));
-    else
-      return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
-                       lattice_x +
-                   phase) *
-              exp(-(float)(t - to) / tdecay));
-  } else
-    return (0.0);
-}
+#include "./pFDTD.h"
+
+int random_on(int p_tau);
+float get_random_float(gsl_rng *r, float range);
+long get_Gaussian_dist(gsl_rng *r, float mu, float sigma);
+
+int inc_dipole_num = 0;
+//////// Random variables ////////////
+float *p_theta_aux;
+float *p_phi;
+float *p_eps;
+long *p_tau;
+//////////////////////////////////////
+long store_t = -100;    // temp 't' store variable
+int one_round_turn = 0; // 0:no, 1:yes
+
+void incoherent_point_dipole(char *function, float x, float y, float z,
+                             float frequency, long to, long tdecay, float t_mu,
+                             float sd) {
+  int i, j, k;
+  float Jx, Jy, Jz;
+  float iJx, iJy, iJz;
+
+  if ((store_t == -100) || (store_t == t)) {
+    /// dipole number increase
+    inc_dipole_num++;
+    if (one_round_turn == 0) {
+      /// re-allocation of 1-D arrays
+      p_theta_aux =
+          (float *)realloc(p_theta_aux, sizeof(float) * inc_dipole_num);
+      p_phi = (float *)realloc(p_phi, sizeof(float) * inc_dipole_num);
+      p_eps = (float *)realloc(p_eps, sizeof(float) * inc_dipole_num);
+      p_tau = (long *)realloc(p_tau, sizeof(long) * inc_dipole_num);
+      // initialization
+      p_tau[inc_dipole_num - 1] = t;
+    }
+  } else {
+    inc_dipole_num = 1;
+    one_round_turn = 1;
+  }
+
+  /// save the present time 't'
+  store_t = t;
+
+  // dipole position
+  i = floor(0.5 + ((x + xcenter) * lattice_x));
+  j = floor(0.5 + ((y + ycenter) * lattice_y));
+  k = floor(0.5 + ((z + zcenter) * lattice_z));
+
+  if (random_on(p_tau[inc_dipole_num - 1]) == 1) {
+    p_theta_aux[inc_dipole_num - 1] = get_random_float(rng_r, 1.0);
+    // to make uniform random generation over the spherical surface
+    // instead of using 'theta' directly, we use 0< 'theta_aux' <1
+    // in such a way sin(theta) = sqrt( 1 - theta_aux^2)
+    // modified after ver. 8.2
+    p_phi[inc_dipole_num - 1] = get_random_float(rng_r, 2 * pi);
+    p_eps[inc_dipole_num - 1] = get_random_float(rng_r, 2 * pi);
+    p_tau[inc_dipole_num - 1] = t + get_Gaussian_dist(rng_r, t_mu, sd);
+  } else // no change
+  {
+  }
+
+  if (strcmp(function, "Gauss") == 0) // Gaussian envelope
+  {
+    Jx = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                      p_theta_aux[inc_dipole_num - 1]) *
+         cos(p_phi[inc_dipole_num - 1]);
+    Jy = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                      p_theta_aux[inc_dipole_num - 1]) *
+         sin(p_phi[inc_dipole_num - 1]);
+    Jz = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         p_theta_aux[inc_dipole_num - 1];
+    if ((use_periodic_x == 1 || use_periodic_y == 1) &&
+        (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
+      iJx = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                         p_theta_aux[inc_dipole_num - 1]) *
+            cos(p_phi[inc_dipole_num - 1]);
+      iJy = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                         p_theta_aux[inc_dipole_num - 1]) *
+            sin(p_phi[inc_dipole_num - 1]);
+      iJz = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            p_theta_aux[inc_dipole_num - 1];
+    }
+  }
+  if (strcmp(function, "Lorentz") == 0) // Lorentzian envelope
+  {
+    Jx = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                      p_theta_aux[inc_dipole_num - 1]) *
+         cos(p_phi[inc_dipole_num - 1]);
+    Jy = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                      p_theta_aux[inc_dipole_num - 1]) *
+         sin(p_phi[inc_dipole_num - 1]);
+    Jz = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         p_theta_aux[inc_dipole_num - 1];
+    if ((use_periodic_x == 1 || use_periodic_y == 1) &&
+        (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
+      iJx = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                         p_theta_aux[inc_dipole_num - 1]) *
+            cos(p_phi[inc_dipole_num - 1]);
+      iJy = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                         p_theta_aux[inc_dipole_num - 1]) *
+            sin(p_phi[inc_dipole_num - 1]);
+      iJz = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            p_theta_aux[inc_dipole_num - 1];
+    }
+  }
+
+  Ex[i][j][k] = Ex[i][j][k] + Jx / 2;
+  Ex[i - 1][j][k] = Ex[i - 1][j][k] + Jx / 2;
+  Ey[i][j][k] = Ey[i][j][k] + Jy / 2;
+  Ey[i][j - 1][k] = Ey[i][j - 1][k] + Jy / 2;
+  Ez[i][j][k] = Ez[i][j][k] + Jz / 2;
+  Ez[i][j][k - 1] = Ez[i][j][k - 1] + Jz / 2;
+
+  if ((use_periodic_x == 1 || use_periodic_y == 1) &&
+      (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
+    iEx[i][j][k] = iEx[i][j][k] + iJx / 2;
+    iEx[i - 1][j][k] = iEx[i - 1][j][k] + iJx / 2;
+    iEy[i][j][k] = iEy[i][j][k] + iJy / 2;
+    iEy[i][j - 1][k] = iEy[i][j - 1][k] + iJy / 2;
+    iEz[i][j][k] = iEz[i][j][k] + iJz / 2;
+    iEz[i][j][k - 1] = iEz[i][j][k - 1] + iJz / 2;
+  }
+}
+
+int random_on(int p_tau) {
+  if (t == p_tau)
+    return (1);
+  else
+    return (0);
+}
+
+float get_random_float(gsl_rng *r, float range) {
+  return (range * gsl_rng_uniform(r));
+}
+
+long get_Gaussian_dist(gsl_rng *r, float mu, float sigma) {
+  return (fabs(mu + gsl_ran_gaussian(r, sigma)));
+}
+
+//////////////////////////////////////////////////
+//    Rotating phasor in case of periodic BC    //
+//  --------------------------------------------//
+//        Use the relation :                    //
+//     cos(wt-90) + i sin(wt-90)                //
+//        = sin(wt) - i cos(wt)                 //
+//     Then, we can preserve the same "sin()"   //
+//        form for the real field source        //
+//////////////////////////////////////////////////
+
+float Gauss_amp(float frequency, float phase, long to, long tdecay) {
+  if (to - 3 * tdecay < t && t < to + 3 * tdecay)
+    return (sin(2 * pi * frequency * t / S_factor / ds_x / lattice_x + phase) *
+            exp(-1.0 * pow((float)(t - to) / tdecay, 2.0)));
+  else
+    return (0.0);
+}
+
+float Lorentz_amp(float frequency, float phase, long to, long tdecay) {
+  if (tdecay == 0)
+    return (
+        sin(2 * pi * frequency * (float)(t - to) / S_factor / ds_x / lattice_x +
+            phase));
+  else if (to <= t && t < to + 8 * tdecay)
+    return (
+        sin(2 * pi * frequency * (float)(t - to) / S_factor / ds_x / lattice_x +
+            phase) *
+        exp(-(float)(t - to) / tdecay));
+  else
+    return (0.0);
+}
+
+float iGauss_amp(float frequency, float phase, long to, long tdecay) {
+  if (to - 3 * tdecay < t && t < to + 3 * tdecay)
+    return (-cos(2 * pi * frequency * t / S_factor / ds_x / lattice_x + phase) *
+            exp(-1.0 * pow((float)(t - to) / tdecay, 2.0)));
+  else
+    return (0.0);
+}
+
+float iLorentz_amp(float frequency, float phase, long to, long tdecay) {
+  if (tdecay == 0)
+    return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
+                     lattice_x +
+                 phase));
+  else if (to <= t && t < to + 8 * tdecay)
+    return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
+                     lattice_x +
+                 phase) *
+            exp(-(float)(t - to) / tdecay));
+  else
+    return (0.0);
+}
-- 
2.43.0


From 0b4c22bfa323eb6b380328aedf79977993cc0a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:13 +0000
Subject: [PATCH 65/85] fix: FDTD spacings of refined intervals were truncated
 to whole units

---
 openms/lib/fdtd/parameter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/fdtd/parameter.c b/openms/lib/fdtd/parameter.c
index 91c2f42..2b48887 100755
--- a/openms/lib/fdtd/parameter.c
+++ b/openms/lib/fdtd/parameter.c
@@ -354,7 +354,7 @@ void set_default_parameter(float S) {
   ///////////////////////////////////////////////////
   ds_nz = float_1d_memory_for_parameter(mksize);
   for (i = 0; i < mksize; i++)
-    ds_nz[i] = lcm_temp / ngrid_lattice_nz_i(i); //////////
+    ds_nz[i] = (float)lcm_temp / ngrid_lattice_nz_i(i); //////////
   ///////////////////////////////////////////////////
   printf("creating non uniform z map ok\n"); ////////////
   stream = fopen("dsz_map.dat", "wt");
-- 
2.43.0


From 91af37dbfeb83cee2d1f1a1023023e3e1a4dc39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:11 +0000
Subject: [PATCH 66/85] fix: FDTD imaginary Hy of Gaussian line and plane
 sources carried the admittance twice

---
 openms/lib/fdtd/source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/fdtd/source.c b/openms/lib/fdtd/source.c
index 91df802..47a52d4 100755
--- a/openms/lib/fdtd/source.c
+++ b/openms/lib/fdtd/source.c
@@ -628,7 +628,7 @@ void Gaussian_dipole_source_beam(char *component, int i, int j, float z,
         (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
       iHy[i][j][k] =
           iHy[i][j][k] + amp * iGauss_amp(frequency, phase, to, tdecay) *
-                             sqrt(eo / uo) * sqrt(eo / uo) / 4;
+                             sqrt(eo / uo) / 4;
       if (k >= 1)
         iHy[i][j][k - 1] =
             iHy[i][j][k - 1] +
@@ -931,7 +931,7 @@ void Gaussian_dipole_source_line(char *component, float x, int j, float z,
     if ((use_periodic_x == 1 || use_periodic_y == 1) &&
         (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
       iHy[i][j][k] = iHy[i][j][k] + iGauss_amp(frequency, phase, to, tdecay) *
-                                        sqrt(eo / uo) * sqrt(eo / uo) / 4;
+                                        sqrt(eo / uo) / 4;
       if (k >= 1)
         iHy[i][j][k - 1] =
             iHy[i][j][k - 1] +
-- 
2.43.0


From 449b732e14b0e86e69f40ccb7faec53ab5490fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:11 +0000
Subject: [PATCH 67/85] fix: FDTD out_several_points spaced its y positions by
 the number of x positions

---
 openms/lib/fdtd/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index c6030fd..f15b0d7 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -676,7 +676,7 @@ void out_several_points(char *component, float zposition, float xside,
         i = floor(0.5 +
                   ((-0.5 * xside + m * (xside / pNx) + xcenter) * lattice_x));
         j = floor(0.5 +
-                  ((-0.5 * yside + n * (yside / pNx) + ycenter) * lattice_y));
+                  ((-0.5 * yside + n * (yside / pNy) + ycenter) * lattice_y));
         fprintf(file, "%g\t", grid_value(component, i, j, k));
       }
     }
-- 
2.43.0


From 7d08b535e3fca7c54b166f56fab260bb1246b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:23 +0000
Subject: [PATCH 68/85] fix: FDTD repeated cells along y lacked the factor 2 pi
 in their Bloch phase

---
 openms/lib/fdtd/output.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index f15b0d7..82c74ea 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -1070,24 +1070,24 @@ float grid_value_periodic_xy(char *component, int i, int j, int k, int h,
                              int v) {
   float E_x, E_y, E_z, J_x, J_y, J_z, H_x, H_y, H_z;
 
-  E_x = efieldx(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        iefieldx(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  E_y = efieldy(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        iefieldy(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  E_z = efieldz(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        iefieldz(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  J_x = jfieldx(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ijfieldx(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  J_y = jfieldy(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ijfieldy(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  J_z = jfieldz(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ijfieldz(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  H_x = hfieldx(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ihfieldx(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  H_y = hfieldy(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ihfieldy(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
-  H_z = hfieldz(i, j, k) * cos(2 * pi * h * wave_vector_x + v * wave_vector_y) -
-        ihfieldz(i, j, k) * sin(2 * pi * h * wave_vector_x + v * wave_vector_y);
+  E_x = efieldx(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        iefieldx(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  E_y = efieldy(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        iefieldy(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  E_z = efieldz(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        iefieldz(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  J_x = jfieldx(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ijfieldx(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  J_y = jfieldy(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ijfieldy(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  J_z = jfieldz(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ijfieldz(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  H_x = hfieldx(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ihfieldx(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  H_y = hfieldy(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ihfieldy(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
+  H_z = hfieldz(i, j, k) * cos(2 * pi * (h * wave_vector_x + v * wave_vector_y)) -
+        ihfieldz(i, j, k) * sin(2 * pi * (h * wave_vector_x + v * wave_vector_y));
 
   if (strcmp(component, "Ex") == 0)
     return (E_x);
-- 
2.43.0


From 862ca7fff3ef2d635261b0f2b19bca3dcc86b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 69/85] fix: first row and column of the windowed Hy sine map
 were zeroed

---
 openms/lib/fdtd/output.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index 82c74ea..901612d 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -1926,8 +1926,8 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
   stream = fopen(name_Hy_imag, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i >= deltac && i < (NROW - deltac)) &&
+          (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
             Hy_sin[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
-- 
2.43.0


From c9e1a4a97b98ebdfef9c9ede6ee92a071ca7d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 70/85] fix: rows of the windowed field maps were offset by the
 layer of the other axis

---
 openms/lib/fdtd/output.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index 901612d..8a52e52 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -1822,7 +1822,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Ex_cos[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Ex_cos[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1837,7 +1837,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Ex_sin[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Ex_sin[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1853,7 +1853,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Ey_cos[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Ey_cos[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1868,7 +1868,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Ey_sin[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Ey_sin[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1884,7 +1884,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Hx_cos[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Hx_cos[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1899,7 +1899,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Hx_sin[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Hx_sin[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1915,7 +1915,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Hy_cos[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Hy_cos[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
@@ -1930,7 +1930,7 @@ void print_real_and_imag_2n_size(int NROW, int mm) {
           (j >= deltar && j < (NROW - deltar)))
         fprintf(
             stream, "%f\t",
-            Hy_sin[i - deltac + (pmlil + 10)][j - deltar + (pmlir + 10)][mm]);
+            Hy_sin[i - deltac + (pmlil + 10)][j - deltar + (pmljl + 10)][mm]);
       else
         fprintf(stream, "%f\t", 0.0);
     }
-- 
2.43.0


From d44d28699c2acd9d271e7e8b9b24b2fa15963b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 71/85] fix: enlarged field maps read past the map when the
 margin is odd

---
 openms/lib/fdtd/output.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/openms/lib/fdtd/output.c b/openms/lib/fdtd/output.c
index 8a52e52..770922f 100755
--- a/openms/lib/fdtd/output.c
+++ b/openms/lib/fdtd/output.c
@@ -2055,8 +2055,8 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Ex_real, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i > deltac && i < (deltac + col)) &&
+          (j > deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
       else if (i == (NROW - 1))
         fprintf(stream, "%lf\t\n", 0.0);
@@ -2078,8 +2078,8 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Ex_imag, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i > deltac && i < (deltac + col)) &&
+          (j > deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
       else if (i == (NROW - 1))
         fprintf(stream, "%lf\t\n", 0.0);
@@ -2101,8 +2101,8 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Ey_real, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i > deltac && i < (deltac + col)) &&
+          (j > deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
       else if (i == (NROW - 1))
         fprintf(stream, "%lf\t\n", 0.0);
@@ -2124,8 +2124,8 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Ey_imag, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i > deltac && i < (deltac + col)) &&
+          (j > deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
       else if (i == (NROW - 1))
         fprintf(stream, "%lf\t\n", 0.0);
@@ -2149,8 +2149,8 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Hx_real, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i > deltac && i < (deltac + col)) &&
+          (j > deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
       else if (i == (NROW - 1))
         fprintf(stream, "%lf\t\n", 0.0);
@@ -2172,8 +2172,8 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Hx_imag, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i > deltac && i < (deltac + col)) &&
+          (j > deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
       else if (i == (NROW - 1))
         fprintf(stream, "%lf\t\n", 0.0);
@@ -2195,8 +2195,8 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Hy_real, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i > deltac && i < (deltac + col)) &&
+          (j > deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
       else if (i == (NROW - 1))
         fprintf(stream, "%lf\t\n", 0.0);
@@ -2218,8 +2218,8 @@ void make_2n_size(int NROW, int mm) {
   stream = fopen(name_Hy_imag, "wt");
   for (j = NROW - 1; j >= 0; j--) {
     for (i = 0; i < NROW; i++) {
-      if ((i > deltac && i < (NROW - deltac)) &&
-          (j > deltar && j < (NROW - deltar)))
+      if ((i > deltac && i < (deltac + col)) &&
+          (j > deltar && j < (deltar + row)))
         fprintf(stream, "%lf\t", source[i - deltac][j - deltar]);
       else if (i == (NROW - 1))
         fprintf(stream, "%lf\t\n", 0.0);
-- 
2.43.0


From cbce90020e2ec92645cfe01b2fc9d626545a2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 72/85] fix: radiated powers were written as pointers

---
 openms/lib/fdtd/farfield.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openms/lib/fdtd/farfield.c b/openms/lib/fdtd/farfield.c
index bd77651..9ccaec0 100755
--- a/openms/lib/fdtd/farfield.c
+++ b/openms/lib/fdtd/farfield.c
@@ -1702,19 +1702,19 @@ void print_radiation(float Nfree, float k, float Eta, float **radint,
   ///------------( Total Radiated Power )------------
   printf("radiated power writing.......\n");
   stream = fopen(P_tot_name, "wt");
-  fprintf(stream, "%g", P_tot);
+  fprintf(stream, "%g", *P_tot);
   fclose(stream);
 
   ///------------( Etheta Radiated Power )------------
   printf("radiated power writing.......\n");
   stream = fopen(P_the_name, "wt");
-  fprintf(stream, "%g", P_the);
+  fprintf(stream, "%g", *P_the);
   fclose(stream);
 
   ///------------( Ephi Radiated Power )------------
   printf("radiated power writing.......\n");
   stream = fopen(P_phi_name, "wt");
-  fprintf(stream, "%g", P_phi);
+  fprintf(stream, "%g", *P_phi);
   fclose(stream);
 
   ///------------( Etheta intensity )------------
-- 
2.43.0


From affcf84633aeaff0c26458289cf3d131c76e4fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 73/85] fix: far-field Ex used the vacuum impedance in a medium

---
 openms/lib/fdtd/farfield.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/fdtd/farfield.c b/openms/lib/fdtd/farfield.c
index 9ccaec0..be790cd 100755
--- a/openms/lib/fdtd/farfield.c
+++ b/openms/lib/fdtd/farfield.c
@@ -1525,10 +1525,10 @@ void set_radiation_variable(
     for (i = 0; i < (col_s + 1); i++) {
       ex_real[i][j] =
           -(Np_s_real[i][j] - Lt_s_real[i][j] / Eta) * sinp[i][j] +
-          (Nt_s_real[i][j] + Lp_s_real[i][j] / 377) * cost[i][j] * cosp[i][j];
+          (Nt_s_real[i][j] + Lp_s_real[i][j] / Eta) * cost[i][j] * cosp[i][j];
       ex_imag[i][j] =
           -(Np_s_imag[i][j] - Lt_s_imag[i][j] / Eta) * sinp[i][j] +
-          (Nt_s_imag[i][j] + Lp_s_imag[i][j] / 377) * cost[i][j] * cosp[i][j];
+          (Nt_s_imag[i][j] + Lp_s_imag[i][j] / Eta) * cost[i][j] * cosp[i][j];
       ey_real[i][j] =
           (Np_s_real[i][j] - Lt_s_real[i][j] / Eta) * cosp[i][j] +
           (Nt_s_real[i][j] + Lp_s_real[i][j] / Eta) * cost[i][j] * sinp[i][j];
-- 
2.43.0


From 638a640af2e7f64fdf756be7cf67b13693e041d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 74/85] fix: odd momentum windows left their last row and
 column undefined

---
 openms/lib/fdtd/farfield.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/openms/lib/fdtd/farfield.c b/openms/lib/fdtd/farfield.c
index be790cd..f9bcb03 100755
--- a/openms/lib/fdtd/farfield.c
+++ b/openms/lib/fdtd/farfield.c
@@ -197,8 +197,8 @@ void far_field_FFT(int NROW, float NA, float Nfree, float *OMEGA, int mm) {
   make_file_name(mm);
   set_global_variable(NROW, OMEGA[mm], Nfree, &POLROT, &dir, &Eta, &k);
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   //////////////////////
   //---- Ex field ----//
@@ -1250,8 +1250,8 @@ void Nx_data_shrink(int row, int col, float **Nx_real, float **Nx_imag,
   half_col = (int)(col / 2);
   half_row = (int)(row / 2);
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1277,8 +1277,8 @@ void Ny_data_shrink(int row, int col, float **Ny_real, float **Ny_imag,
   half_col = (int)(col / 2);
   half_row = (int)(row / 2);
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1304,8 +1304,8 @@ void Lx_data_shrink(int row, int col, float **Lx_real, float **Lx_imag,
   half_col = (int)(col / 2);
   half_row = (int)(row / 2);
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1331,8 +1331,8 @@ void Ly_data_shrink(int row, int col, float **Ly_real, float **Ly_imag,
   half_col = (int)(col / 2);
   half_row = (int)(row / 2);
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1460,8 +1460,8 @@ void set_radiation_variable(
   int row_s, col_s; // shrinked row & col
   int half_row_s, half_col_s;
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1552,8 +1552,8 @@ void calc_radiation(float Nfree, float k, float Eta, float **Nt_s_real,
   int row_s, col_s; // shrinked row & col
   int half_row_s, half_col_s;
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
@@ -1680,8 +1680,8 @@ void print_radiation(float Nfree, float k, float Eta, float **radint,
   int half_row_s, half_col_s;
   FILE *stream;
 
-  row_s = (int)(10 * Nfree * k);
-  col_s = (int)(10 * Nfree * k);
+  row_s = 2 * (int)(5 * Nfree * k);
+  col_s = 2 * (int)(5 * Nfree * k);
 
   half_col_s = (int)(col_s / 2);
   half_row_s = (int)(row_s / 2);
-- 
2.43.0


From 1749be298a8de30fe2967d89ac659df08c26fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 75/85] fix: several photon modes shared one state, leaving all
 but one mode unpopulated

---
 openms/lib/boson.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index b856f67..ae6fff0 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -1123,11 +1123,18 @@ class Boson(object):
         if hasattr(self, "Hph_sc"):
             hmat += unpack_symmetric(self.Hph_sc, hmat.shape[0], fac=2.0)
 
-        # Photon cavity mode eigenvectors
-        e, c = scipy.linalg.eigh(hmat)
-        idx = numpy.argmax(abs(c.real), axis=0)
-        e = e[idx]
-        c[:,c[idx,numpy.arange(len(e))].real<0] *= -1
+        # Photon cavity mode eigenvectors: the modes do not interact, so each one
+        # has its own (normalized) states, and column 0 holds all ground states
+        c = numpy.zeros_like(hmat)
+        idx = 0
+        for mdim in self.nboson_states:
+            mode = slice(idx, idx + mdim)
+            _, cm = scipy.linalg.eigh(hmat[mode, mode])
+            imax = numpy.argmax(abs(cm.real), axis=0)
+            cm[:, cm[imax, numpy.arange(mdim)].real < 0] *= -1
+            c[mode, mode] = cm
+            c[mode, 0] = cm[:, 0]
+            idx += mdim
 
         # Photon ground state energy
         Etot = 0.0
-- 
2.43.0


From e159463b5d4084d0a184974aee2f276049524c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:36 +0000
Subject: [PATCH 76/85] fix: displaced photon modes couple to the electrons
 through the total dipole minus z, not minus z per electron

The bilinear term of the one-electron Hamiltonian was shifted by
z_alpha * S, whose expectation value is N z_alpha, instead of
z_alpha * S / N as for the other z_alpha terms.
---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index ae6fff0..e7383eb 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -1593,7 +1593,7 @@ class Photon(Boson):
         idx = 0
         for imode in range(self.nmodes):
             shift = numpy.eye(self.gmat.shape[1]) * self.z_alpha[imode] #/ mol.nelectron
-            shift = s1e * self.z_alpha[imode]
+            shift = s1e * self.z_alpha[imode] / self._mol.nelectron
             gtmp = (self.gmat[imode] - shift)
             gtmp *= numpy.sqrt(0.5*self.omega[imode])
 
-- 
2.43.0


From fdf227b48cf859f98092f10fe9e2c275bb118fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:16 +0000
Subject: [PATCH 77/85] fix: strong-coupling mean field with several photon
 states started from a state without parity and ran away

The photon state was initialised as the uniform superposition of all photon
numbers of all modes. The dressing factors of such a state are not symmetric
and SC/VT-QED-HF started from it converged to states tens of Hartree too
high, or diverged. Start every mode in its vacuum.
---
 openms/lib/boson.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index e7383eb..32e2c2a 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -753,7 +753,12 @@ class Boson(object):
         self.cavity_type = None
         boson_size = sum(self.nboson_states)
         self.boson_coeff = numpy.zeros((boson_size, boson_size))
-        self.boson_coeff[:, 0] = 1.0/numpy.sqrt(boson_size)
+        # start from the vacuum: a uniform superposition of photon states has no
+        # definite parity, and SC/VT-QED-HF started from it runs away
+        idx = 0
+        for mdim in self.nboson_states:
+            self.boson_coeff[idx, 0] = self.boson_coeff[idx, idx] = 1.0
+            idx += mdim
         self.e_boson = 0.0
         # for imode in range(self.nmodes):
         #     mdim = self.nboson_states[imode]
-- 
2.43.0


From ccaf0ed6dd744322356cb78715b10100987f67d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:17 +0000
Subject: [PATCH 78/85] fix: electron-photon densities could not be written out
 for more than 21 photon states

numpy.sqrt does not take Python integers beyond 64 bits.
---
 openms/mqed/qedhf.py   | 4 ++--
 openms/mqed/scqedhf.py | 4 ++--
 openms/mqed/vtqedhf.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 6535ac2..194b1ad 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -836,8 +836,8 @@ class RHF(hf.RHF):
                 zalpha = -self.qed.z_alpha[imode] / numpy.sqrt(2.0 * self.qed.omega[imode])
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
-                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(float(factorial(m)))
+                zn = z0 * zalpha ** n / numpy.sqrt(float(factorial(n)))
                 rho_tmp = rho * zm * zn
                 # back to AO
                 rho_tot[m, :, n, :] = rho_tmp
diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 4601357..4bfb5e0 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -1158,8 +1158,8 @@ class RHF(qedhf.RHF):
                 zalpha = -self.eta[imode] / self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
-                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(float(factorial(m)))
+                zn = z0 * zalpha ** n / numpy.sqrt(float(factorial(n)))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 9165f75..da88b4a 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -657,8 +657,8 @@ class RHF(scqedhf.RHF):
                 zalpha = -tau * self.eta[imode] / self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m / numpy.sqrt(math.factorial(m))
-                zn = z0 * zalpha ** n / numpy.sqrt(math.factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(float(math.factorial(m)))
+                zn = z0 * zalpha ** n / numpy.sqrt(float(math.factorial(n)))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-- 
2.43.0


From 33c89df933973007eac4e2e5f203d71660892def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 79/85] fix: FDTD metal loss was written with six decimals, so
 small losses read zero

---
 openms/lib/fdtd/energy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/fdtd/energy.c b/openms/lib/fdtd/energy.c
index b7ab141..37dd5b5 100755
--- a/openms/lib/fdtd/energy.c
+++ b/openms/lib/fdtd/energy.c
@@ -277,7 +277,7 @@ void Drude_energy_loss_in_block2(float centerx, float centery, float centerz,
       }
 
   stream_Eloss = fopen("Drude_E_loss.en", "a");
-  fprintf(stream_Eloss, "%d\t%lf\n", t, Eloss);
+  fprintf(stream_Eloss, "%d\t%g\n", t, Eloss);
   fclose(stream_Eloss);
 }
 
-- 
2.43.0


From c21f028f0de0369e4c5f4b77c32a1b6a01a663c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 80/85] fix: FDTD periodic Hz was not carried around at the
 first column along x

---
 openms/lib/fdtd/timeupdate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openms/lib/fdtd/timeupdate.c b/openms/lib/fdtd/timeupdate.c
index 9317596..90f50cf 100755
--- a/openms/lib/fdtd/timeupdate.c
+++ b/openms/lib/fdtd/timeupdate.c
@@ -1229,7 +1229,7 @@ void H_field_periodic_boundary_update_y() {
   cos_ph = cos(phase_ang);
   sin_ph = sin(phase_ang);
 
-  for (i = 1; i < pisize; i++)
+  for (i = 0; i < pisize; i++)
     for (k = 1; k < pksize; k++) {
       Hy[i][jsize + 1][k] = Hy[i][1][k] * cos_ph - iHy[i][1][k] * sin_ph;
       Hx[i][0][k] = Hx[i][jsize][k] * cos_ph + iHx[i][jsize][k] * sin_ph;
@@ -1258,7 +1258,7 @@ void H_field_periodic_boundary_update_Ywall() ///// for triangular lattice
   cos_ph2 = cos(phase_ang2);
   sin_ph2 = sin(phase_ang2);
 
-  for (i = 1; i < pisize - Uxh; i++)
+  for (i = 0; i < pisize - Uxh; i++)
     for (k = 1; k < pksize; k++) {
       Hy[i + Uxh][jsize + 1][k] =
           Hy[i][1][k] * cos_ph1 - iHy[i][1][k] * sin_ph1;
@@ -1376,7 +1376,7 @@ void H_field_Gamma_boundary_update_Xwall() ///// for triangular lattice
 void H_field_Gamma_boundary_update_y() {
   int i, k;
 
-  for (i = 1; i < pisize; i++)
+  for (i = 0; i < pisize; i++)
     for (k = 1; k < pksize; k++) {
       Hy[i][jsize + 1][k] = Hy[i][1][k];
       Hx[i][0][k] = Hx[i][jsize][k];
@@ -1392,7 +1392,7 @@ void H_field_Gamma_boundary_update_Ywall() ///// for triangular lattice
   ///// for speed up
   Uxh = 0.5 * isize;
 
-  for (i = 1; i < pisize - Uxh; i++)
+  for (i = 0; i < pisize - Uxh; i++)
     for (k = 1; k < pksize; k++) {
       Hy[i + Uxh][jsize + 1][k] = Hy[i][1][k];
       Hx[i][0][k] = Hx[i + Uxh][jsize][k];
-- 
2.43.0


From cde5f09052db315a4e8d5c759ceb02c8df4a7538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 81/85] fix: FDTD sources touched by earlier fixes keep their
 original line endings

---
 openms/lib/fdtd/energy.c     | 1052 ++++++++++++------------
 openms/lib/fdtd/incoherent.c |  402 +++++-----
 openms/lib/fdtd/input.c      | 1452 +++++++++++++++++-----------------
 openms/lib/fdtd/metalobj.c   | 1164 +++++++++++++--------------
 openms/lib/fdtd/pFDTD.h      |  632 +++++++--------
 openms/lib/fdtd/parameter.c  | 1028 ++++++++++++------------
 6 files changed, 2865 insertions(+), 2865 deletions(-)

diff --git a/openms/lib/fdtd/energy.c b/openms/lib/fdtd/energy.c
index 37dd5b5..15ef4c7 100755
--- a/openms/lib/fdtd/energy.c
+++ b/openms/lib/fdtd/energy.c
@@ -1,526 +1,526 @@
-#include "./pFDTD.h"
-
-/* corrections for nonuniform-grids */
-
-void total_E_energy() {
-  FILE *stream_eEE;
-  int i, j, k;
-  float eEE = 0;
-
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
-      for (j = 1 + pmljl + 0.2 * lattice_y;
-           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
-        eEE = eEE + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy", i, j, k);
-
-  stream_eEE = fopen("total_eEE.en", "a");
-  fprintf(stream_eEE, "%d\t %g\n", t, eEE); // from %f to %g ver. 8.802
-  fclose(stream_eEE);
-}
-
-void total_E_energy_block(float centerx, float centery, float centerz,
-                          float size1, float size2, float size3) {
-  FILE *stream_Eb;
-  int i, j, k;
-  float Eb = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--)
-      for (j = y_n; j <= y_p; j++)
-        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy", i, j, k);
-
-  stream_Eb = fopen("total_eEE_b.en", "a");
-  fprintf(stream_Eb, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
-  fclose(stream_Eb);
-}
-
-void total_E_energy2_block(float centerx, float centery, float centerz,
-                           float size1, float size2,
-                           float size3) { // for calculating kinetic energy of
-                                          // electrons (from ver. 8.78)
-  FILE *stream_E2b;
-  int i, j, k;
-  float Eb = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--)
-      for (j = y_n; j <= y_p; j++)
-        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy2", i, j, k);
-
-  stream_E2b = fopen("total_eEE2_b.en", "a");
-  fprintf(stream_E2b, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
-  fclose(stream_E2b);
-}
-
-void total_E_energy3_block(float centerx, float centery, float centerz,
-                           float size1, float size2,
-                           float size3) { // for calculating potential energy
-                                          // of electrons (from ver. 8.78)
-  FILE *stream_E3b;
-  int i, j, k;
-  float Eb = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--)
-      for (j = y_n; j <= y_p; j++)
-        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy3", i, j, k);
-
-  stream_E3b = fopen("total_eEE3_b.en", "a");
-  fprintf(stream_E3b, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
-  fclose(stream_E3b);
-}
-
-void total_E_energy_thin_block_z(float centerx, float centery, float centerz,
-                                 float size1, float size2, float size3,
-                                 float eps_L, float eps_H, char *name) {
-  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-  /// This calculation assumes very very thin z-size (=size3), so we takes an
-  /// arithmatic average of U(z_n) and U(z_p)
-  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-  FILE *file;
-  int i, j, k;
-  float Ebt = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (j = y_n; j <= y_p; j++)
-      if (eps(i, j, z_n) >= eps_L && eps(i, j, z_n) <= eps_H &&
-          eps(i, j, z_p) >= eps_L && eps(i, j, z_p) <= eps_H)
-        Ebt = Ebt + 0.5 * ds_x * ds_y * (size3 * ds_x * lattice_x) *
-                        (grid_value("E_Energy", i, j, z_n) +
-                         grid_value("E_Energy", i, j, z_p));
-
-  file = fopen(name, "a");
-  fprintf(file, "%d\t %g\n", t, Ebt);
-  fclose(file);
-}
-
-void max_E_Energy_detector(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3) {
-  FILE *stream_max;
-  int i, j, k;
-  float max_val = -12345;
-  int max_i, max_j, max_k;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--)
-      for (j = y_n; j <= y_p; j++) {
-        if (grid_value("E_Energy", i, j, k) > max_val) {
-          max_val = grid_value("E_Energy", i, j, k);
-          max_i = i;
-          max_j = j;
-          max_k = k;
-        }
-      }
-  stream_max = fopen("max_detect.dat", "a");
-  fprintf(stream_max, "%d\t%d\t%d\t%d\t%g\n", t, max_i, max_j, max_k, max_val);
-  fclose(stream_max);
-}
-
-void total_EM_energy() {
-  FILE *stream_eEE_uHH;
-  int i, j, k;
-  float eEE_uHH = 0;
-
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
-      for (j = 1 + pmljl + 0.2 * lattice_y;
-           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
-        eEE_uHH =
-            eEE_uHH + ds_x * ds_y * ds_nz[k] * grid_value("EM_Energy", i, j, k);
-
-  stream_eEE_uHH = fopen("total_eEE_uHH.en", "a");
-  fprintf(stream_eEE_uHH, "%d\t %g\n", t, eEE_uHH); // from %f to %g ver. 8.802
-  fclose(stream_eEE_uHH);
-}
-
-void total_EM_energy_block(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3) {
-  FILE *stream_EMb;
-  int i, j, k;
-  float EMb = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--)
-      for (j = y_n; j <= y_p; j++)
-        EMb = EMb + ds_x * ds_y * ds_nz[k] * grid_value("EM_Energy", i, j, k);
-
-  stream_EMb = fopen("total_eEE_uHH_b.en", "a");
-  fprintf(stream_EMb, "%d\t %g\n", t, EMb); // from %f to %g ver. 8.802
-  fclose(stream_EMb);
-}
-
-void total_E2() {
-  FILE *stream_EE;
-  int i, j, k;
-  double EE = 0;
-
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
-      for (j = 1 + pmljl + 0.2 * lattice_y;
-           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
-        EE = EE + ds_x * ds_y * ds_nz[k] * grid_value("E^2", i, j, k);
-
-  stream_EE = fopen("total_EE.en", "a");
-  fprintf(stream_EE, "%d\t %g\n", t, EE); // from %f to %g ver. 8.802
-  fclose(stream_EE);
-}
-
-// The below function is for testing the code..... , which is not open to public
-void Drude_energy_loss_in_block2(float centerx, float centery, float centerz,
-                                 float size1, float size2, float size3,
-                                 float WC, float lattice_n) {
-  FILE *stream_Eloss;
-  int i, j, k;
-  double Eloss = 0.0;
-  double Im_eps;
-  double w, wr;
-  double temp_fac;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-  ///////////////////////////////////////////////////////
-  /// WC : loss calculated at this normalized frequency
-  ///////////////////////////////////////////////////////
-  /////////////////////////////////////////////////////////////////////////////////////////////
-  //	power loss per unit volume = 2 WC Im{epsilon(WC)} E(x,t)*E(x,t)
-  //	(See Jackson, Eq.6.127, no explicit ohmic loss is assumed, i.e. J.E = 0)
-  //
-  //	Im{epsilon(w)} = momega[i][j][k]^2 * mgamma[i][j][k] / ( w^3 +
-  // w*mgamma[i][j][k]^2 )
-  /////////////////////////////////////////////////////////////////////////////////////////////
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  /////////////////////////////////////////////
-  /// WC --> to fit into the FDTD time unit
-  /////////////////////////////////////////////
-  w = WC * 2 * 3.1415926 * light_speed / (ds_x * lattice_x);
-  wr = WC * 2 * 3.1415926 * light_speed /
-       lattice_n; // into actual angular frequency in the unit of Hz
-
-  temp_fac = (ds_x * lattice_x) /
-             lattice_n; // to be used to reconvert the reduced wp and gamma
-
-  for (i = x_n; i <= x_p; i++)
-    for (j = y_n; j <= y_p; j++)
-      for (k = z_n; k <= z_p; k++) {
-        Im_eps = temp_fac * temp_fac * temp_fac * momega[i][j][k] *
-                 momega[i][j][k] * mgamma[i][j][k] /
-                 (wr * wr * wr +
-                  wr * mgamma[i][j][k] * mgamma[i][j][k] * temp_fac * temp_fac);
-        Eloss = Eloss + 2 * w * eo * Im_eps * ds_x * ds_y * ds_nz[k] *
-                            grid_value("E^2", i, j, k);
-      }
-
-  stream_Eloss = fopen("Drude_E_loss.en", "a");
-  fprintf(stream_Eloss, "%d\t%g\n", t, Eloss);
-  fclose(stream_Eloss);
-}
-
-void Drude_energy_loss_in_block(float centerx, float centery, float centerz,
-                                float size1, float size2, float size3) {
-  FILE *stream_Eloss;
-  int i, j, k;
-  double Eloss = 0.0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (i = x_n; i <= x_p; i++)
-    for (j = y_n; j <= y_p; j++)
-      for (k = z_n; k <= z_p; k++) {
-        Eloss = Eloss + ds_x * ds_y * ds_nz[k] * grid_value("J.E", i, j, k);
-      }
-
-  stream_Eloss = fopen("Drude_E_loss.en", "a");
-  fprintf(stream_Eloss, "%d\t%g\n", t, Eloss); // from %f to %g ver. 8.802
-  fclose(stream_Eloss);
-}
-
-void Poynting_total() {
-  int i, j, k;
-  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0, sumzp = 0, sumzn = 0;
-
-  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-       k >= 1 + pmlkl + 0.2 * lattice_z; k--)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      sumxp += (ds_y * ds_nz[k]) *
-               grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
-      sumxn +=
-          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
-    }
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-         k >= 1 + pmlkl + 0.2 * lattice_z; k--) {
-      sumyp += (ds_nz[k] * ds_x) *
-               grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
-      sumyn +=
-          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
-    }
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      sumzp += (ds_x * ds_y) *
-               grid_value("Sz", i, j, ksize - 2 - pmlkr - 0.2 * lattice_z);
-      sumzn += (ds_x * ds_y) * grid_value("Sz", i, j, pmlkl + 0.2 * lattice_z);
-    }
-  Sumx = Sumx + (sumxp - sumxn); // Sumx,Sumy,Sumz --> global variable
-  Sumy = Sumy + (sumyp - sumyn);
-  Sumz = Sumz + (sumzp - sumzn);
-}
-
-float Poynting_half_sphere_point(char *component, float z0, float R,
-                                 float theta, float phi) {
-  int xg, yg, zg;
-
-  int k; // for non_uniform grid
-
-  float x, y, z;
-  float Pi; //'i'-component of Poynting vector
-
-  ////// unit = a //////
-  x = R * sin(theta) * cos(phi);
-  y = R * sin(theta) * sin(phi);
-  z = R * cos(theta) + z0;
-  k = non_uniform_z_to_i(z);
-
-  ////// unit = grid //////
-  xg = floor(0.5 + ((x + xcenter) * lattice_x));
-  yg = floor(0.5 + ((y + ycenter) * lattice_y));
-  zg = non_uniform_z_to_i(z);
-
-  if (strcmp("r", component) == 0) {
-    Pi = (ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * sin(theta) *
-             cos(phi) +
-         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * sin(theta) *
-             sin(phi) +
-         (ds_x * ds_y) * grid_value("Sz", xg, yg, zg) * cos(theta);
-  } else if (strcmp("theta", component) == 0) {
-    Pi = (ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * cos(theta) *
-             cos(phi) +
-         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * cos(theta) *
-             sin(phi) -
-         (ds_x * ds_y) * grid_value("Sz", xg, yg, zg) * sin(theta);
-  } else if (strcmp("phi", component) == 0) {
-    Pi = -(ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * sin(phi) +
-         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * cos(phi);
-  } else {
-  }
-
-  return (Pi);
-}
-
-void Poynting_block(float centerx, float centery, float centerz, float size1,
-                    float size2, float size3) {
-  int i, j, k;
-  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0, sumzp = 0, sumzn = 0;
-  int x_n, x_p, y_n, y_p, z_n,
-      z_p; // n:- p:+, position of the sides of the block
-
-  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
-  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
-  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
-  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
-  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
-  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
-
-  for (k = z_p; k >= z_n; k--)
-    for (j = y_n; j <= y_p; j++) {
-      sumxp += (ds_y * ds_nz[k]) * grid_value("Sx", x_p, j, k);
-      sumxn += (ds_y * ds_nz[k]) * grid_value("Sx", x_n, j, k);
-    }
-  for (i = x_n; i <= x_p; i++)
-    for (k = z_p; k >= z_n; k--) {
-      sumyp += (ds_nz[k] * ds_x) * grid_value("Sy", i, y_p, k);
-      sumyn += (ds_nz[k] * ds_x) * grid_value("Sy", i, y_n, k);
-    }
-  for (i = x_n; i <= x_p; i++)
-    for (j = y_n; j <= y_p; j++) {
-      sumzp += (ds_x * ds_y) * grid_value("Sz", i, j, z_p);
-      sumzn += (ds_x * ds_y) * grid_value("Sz", i, j, z_n);
-    }
-  Sumx = Sumx + (sumxp - sumxn); // Sumx,Sumy,Sumz --> global variable
-  Sumy = Sumy + (sumyp - sumyn);
-  Sumz = Sumz + (sumzp - sumzn);
-}
-
-void Poynting_side(float value, float zposition) {
-  int i, j, k;
-  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0;
-
-  for (k = non_uniform_z_to_i(value + zposition);
-       k >= non_uniform_z_to_i(-value + zposition); k--)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      sumxp += (ds_y * ds_nz[k]) *
-               grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
-      sumxn +=
-          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
-    }
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (k = non_uniform_z_to_i(value + zposition);
-         k >= non_uniform_z_to_i(-value + zposition); k--) {
-      sumyp += (ds_nz[k] * ds_x) *
-               grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
-      sumyn +=
-          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
-    }
-
-  SideSumx = SideSumx + (sumxp - sumxn);
-  SideSumy = SideSumy + (sumyp - sumyn);
-}
-
-void print_energy() {
-  FILE *VQSQ;
-  float Et, Eh, Ev;
-
-  Et = Sumx + Sumy + Sumz;  // total loss
-  Eh = SideSumx + SideSumy; // horizontal loss
-  Ev = Et - Eh;             // vertical loss
-
-  VQSQ = fopen("VQSQ.en", "wt");
-  fprintf(VQSQ,
-          "VerticalLoss=%g\t HorizontalLoss=%g\t "
-          "VerticalLoss/HorizontalLoss(K)=%g\n",
-          Ev, Eh, Ev / Eh);
-  fprintf(VQSQ, "Sumx=%g\t Sumy=%g\t Sumz=%g\n", Sumx, Sumy, Sumz);
-  fprintf(VQSQ, "SideSumx=%g\t SideSumy=%g\n", SideSumx, SideSumy);
-  fprintf(VQSQ, "SumUpper=%g\t SumLower=%g\n", SumUpper, SumLower);
-  fclose(VQSQ);
-}
-
-void Poynting_UpDown(float value, float zposition) {
-  int i, j, k;
-  float UpStripXp = 0, UpStripXn = 0, UpStripYp = 0, UpStripYn = 0;
-  float DnStripXp = 0, DnStripXn = 0, DnStripYp = 0, DnStripYn = 0;
-  float PlanZp = 0, PlanZn = 0;
-
-  //////// Upper plane & Bottom plane
-  for (i = 1 + pmlil + 0.2 * lattice_x;
-       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      PlanZp += (ds_x * ds_y) *
-                grid_value("Sz", i, j, ksize - 2 - pmlkr - 0.2 * lattice_z);
-      PlanZn += (ds_x * ds_y) * grid_value("Sz", i, j, pmlkl + 0.2 * lattice_z);
-    }
-
-  ///////// Upper Strip
-  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-       k >= non_uniform_z_to_i(value + zposition); k--)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      UpStripXp += (ds_y * ds_nz[k]) *
-                   grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
-      UpStripXn +=
-          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
-    }
-  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
-       k >= non_uniform_z_to_i(value + zposition); k--)
-    for (i = 1 + pmlil + 0.2 * lattice_x;
-         i <= isize - 2 - pmlir - 0.2 * lattice_x; i++) {
-      UpStripYp += (ds_nz[k] * ds_x) *
-                   grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
-      UpStripYn +=
-          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
-    }
-
-  ///////// Lower Strip
-  for (k = 1 + pmlkl + 0.2 * lattice_z;
-       k <= non_uniform_z_to_i(-value + zposition); k++)
-    for (j = 1 + pmljl + 0.2 * lattice_y;
-         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
-      DnStripXp += (ds_y * ds_nz[k]) *
-                   grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
-      DnStripXn +=
-          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
-    }
-  for (k = 1 + pmlkl + 0.2 * lattice_z;
-       k <= non_uniform_z_to_i(-value + zposition); k++)
-    for (i = 1 + pmlil + 0.2 * lattice_x;
-         i <= isize - 2 - pmlir - 0.2 * lattice_x; i++) {
-      DnStripYp += (ds_nz[k] * ds_x) *
-                   grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
-      DnStripYn +=
-          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
-    }
-
-  SumUpper =
-      SumUpper + PlanZp + (UpStripXp - UpStripXn) + (UpStripYp - UpStripYn);
-  SumLower =
-      SumLower + (-PlanZn) + (DnStripXp - DnStripXn) + (DnStripYp - DnStripYn);
-}
+#include "./pFDTD.h"
+
+/* corrections for nonuniform-grids */
+
+void total_E_energy() {
+  FILE *stream_eEE;
+  int i, j, k;
+  float eEE = 0;
+
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
+      for (j = 1 + pmljl + 0.2 * lattice_y;
+           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
+        eEE = eEE + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy", i, j, k);
+
+  stream_eEE = fopen("total_eEE.en", "a");
+  fprintf(stream_eEE, "%d\t %g\n", t, eEE); // from %f to %g ver. 8.802
+  fclose(stream_eEE);
+}
+
+void total_E_energy_block(float centerx, float centery, float centerz,
+                          float size1, float size2, float size3) {
+  FILE *stream_Eb;
+  int i, j, k;
+  float Eb = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--)
+      for (j = y_n; j <= y_p; j++)
+        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy", i, j, k);
+
+  stream_Eb = fopen("total_eEE_b.en", "a");
+  fprintf(stream_Eb, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
+  fclose(stream_Eb);
+}
+
+void total_E_energy2_block(float centerx, float centery, float centerz,
+                           float size1, float size2,
+                           float size3) { // for calculating kinetic energy of
+                                          // electrons (from ver. 8.78)
+  FILE *stream_E2b;
+  int i, j, k;
+  float Eb = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--)
+      for (j = y_n; j <= y_p; j++)
+        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy2", i, j, k);
+
+  stream_E2b = fopen("total_eEE2_b.en", "a");
+  fprintf(stream_E2b, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
+  fclose(stream_E2b);
+}
+
+void total_E_energy3_block(float centerx, float centery, float centerz,
+                           float size1, float size2,
+                           float size3) { // for calculating potential energy
+                                          // of electrons (from ver. 8.78)
+  FILE *stream_E3b;
+  int i, j, k;
+  float Eb = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--)
+      for (j = y_n; j <= y_p; j++)
+        Eb = Eb + ds_x * ds_y * ds_nz[k] * grid_value("E_Energy3", i, j, k);
+
+  stream_E3b = fopen("total_eEE3_b.en", "a");
+  fprintf(stream_E3b, "%d\t %g\n", t, Eb); // from %f to %g ver. 8.802
+  fclose(stream_E3b);
+}
+
+void total_E_energy_thin_block_z(float centerx, float centery, float centerz,
+                                 float size1, float size2, float size3,
+                                 float eps_L, float eps_H, char *name) {
+  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+  /// This calculation assumes very very thin z-size (=size3), so we takes an
+  /// arithmatic average of U(z_n) and U(z_p)
+  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+  FILE *file;
+  int i, j, k;
+  float Ebt = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (j = y_n; j <= y_p; j++)
+      if (eps(i, j, z_n) >= eps_L && eps(i, j, z_n) <= eps_H &&
+          eps(i, j, z_p) >= eps_L && eps(i, j, z_p) <= eps_H)
+        Ebt = Ebt + 0.5 * ds_x * ds_y * (size3 * ds_x * lattice_x) *
+                        (grid_value("E_Energy", i, j, z_n) +
+                         grid_value("E_Energy", i, j, z_p));
+
+  file = fopen(name, "a");
+  fprintf(file, "%d\t %g\n", t, Ebt);
+  fclose(file);
+}
+
+void max_E_Energy_detector(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3) {
+  FILE *stream_max;
+  int i, j, k;
+  float max_val = -12345;
+  int max_i, max_j, max_k;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--)
+      for (j = y_n; j <= y_p; j++) {
+        if (grid_value("E_Energy", i, j, k) > max_val) {
+          max_val = grid_value("E_Energy", i, j, k);
+          max_i = i;
+          max_j = j;
+          max_k = k;
+        }
+      }
+  stream_max = fopen("max_detect.dat", "a");
+  fprintf(stream_max, "%d\t%d\t%d\t%d\t%g\n", t, max_i, max_j, max_k, max_val);
+  fclose(stream_max);
+}
+
+void total_EM_energy() {
+  FILE *stream_eEE_uHH;
+  int i, j, k;
+  float eEE_uHH = 0;
+
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
+      for (j = 1 + pmljl + 0.2 * lattice_y;
+           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
+        eEE_uHH =
+            eEE_uHH + ds_x * ds_y * ds_nz[k] * grid_value("EM_Energy", i, j, k);
+
+  stream_eEE_uHH = fopen("total_eEE_uHH.en", "a");
+  fprintf(stream_eEE_uHH, "%d\t %g\n", t, eEE_uHH); // from %f to %g ver. 8.802
+  fclose(stream_eEE_uHH);
+}
+
+void total_EM_energy_block(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3) {
+  FILE *stream_EMb;
+  int i, j, k;
+  float EMb = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--)
+      for (j = y_n; j <= y_p; j++)
+        EMb = EMb + ds_x * ds_y * ds_nz[k] * grid_value("EM_Energy", i, j, k);
+
+  stream_EMb = fopen("total_eEE_uHH_b.en", "a");
+  fprintf(stream_EMb, "%d\t %g\n", t, EMb); // from %f to %g ver. 8.802
+  fclose(stream_EMb);
+}
+
+void total_E2() {
+  FILE *stream_EE;
+  int i, j, k;
+  double EE = 0;
+
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+         k >= 1 + pmlkl + 0.2 * lattice_z; k--)
+      for (j = 1 + pmljl + 0.2 * lattice_y;
+           j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++)
+        EE = EE + ds_x * ds_y * ds_nz[k] * grid_value("E^2", i, j, k);
+
+  stream_EE = fopen("total_EE.en", "a");
+  fprintf(stream_EE, "%d\t %g\n", t, EE); // from %f to %g ver. 8.802
+  fclose(stream_EE);
+}
+
+// The below function is for testing the code..... , which is not open to public
+void Drude_energy_loss_in_block2(float centerx, float centery, float centerz,
+                                 float size1, float size2, float size3,
+                                 float WC, float lattice_n) {
+  FILE *stream_Eloss;
+  int i, j, k;
+  double Eloss = 0.0;
+  double Im_eps;
+  double w, wr;
+  double temp_fac;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+  ///////////////////////////////////////////////////////
+  /// WC : loss calculated at this normalized frequency
+  ///////////////////////////////////////////////////////
+  /////////////////////////////////////////////////////////////////////////////////////////////
+  //	power loss per unit volume = 2 WC Im{epsilon(WC)} E(x,t)*E(x,t)
+  //	(See Jackson, Eq.6.127, no explicit ohmic loss is assumed, i.e. J.E = 0)
+  //
+  //	Im{epsilon(w)} = momega[i][j][k]^2 * mgamma[i][j][k] / ( w^3 +
+  // w*mgamma[i][j][k]^2 )
+  /////////////////////////////////////////////////////////////////////////////////////////////
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  /////////////////////////////////////////////
+  /// WC --> to fit into the FDTD time unit
+  /////////////////////////////////////////////
+  w = WC * 2 * 3.1415926 * light_speed / (ds_x * lattice_x);
+  wr = WC * 2 * 3.1415926 * light_speed /
+       lattice_n; // into actual angular frequency in the unit of Hz
+
+  temp_fac = (ds_x * lattice_x) /
+             lattice_n; // to be used to reconvert the reduced wp and gamma
+
+  for (i = x_n; i <= x_p; i++)
+    for (j = y_n; j <= y_p; j++)
+      for (k = z_n; k <= z_p; k++) {
+        Im_eps = temp_fac * temp_fac * temp_fac * momega[i][j][k] *
+                 momega[i][j][k] * mgamma[i][j][k] /
+                 (wr * wr * wr +
+                  wr * mgamma[i][j][k] * mgamma[i][j][k] * temp_fac * temp_fac);
+        Eloss = Eloss + 2 * w * eo * Im_eps * ds_x * ds_y * ds_nz[k] *
+                            grid_value("E^2", i, j, k);
+      }
+
+  stream_Eloss = fopen("Drude_E_loss.en", "a");
+  fprintf(stream_Eloss, "%d\t%g\n", t, Eloss);
+  fclose(stream_Eloss);
+}
+
+void Drude_energy_loss_in_block(float centerx, float centery, float centerz,
+                                float size1, float size2, float size3) {
+  FILE *stream_Eloss;
+  int i, j, k;
+  double Eloss = 0.0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (i = x_n; i <= x_p; i++)
+    for (j = y_n; j <= y_p; j++)
+      for (k = z_n; k <= z_p; k++) {
+        Eloss = Eloss + ds_x * ds_y * ds_nz[k] * grid_value("J.E", i, j, k);
+      }
+
+  stream_Eloss = fopen("Drude_E_loss.en", "a");
+  fprintf(stream_Eloss, "%d\t%g\n", t, Eloss); // from %f to %g ver. 8.802
+  fclose(stream_Eloss);
+}
+
+void Poynting_total() {
+  int i, j, k;
+  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0, sumzp = 0, sumzn = 0;
+
+  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+       k >= 1 + pmlkl + 0.2 * lattice_z; k--)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      sumxp += (ds_y * ds_nz[k]) *
+               grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
+      sumxn +=
+          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
+    }
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+         k >= 1 + pmlkl + 0.2 * lattice_z; k--) {
+      sumyp += (ds_nz[k] * ds_x) *
+               grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
+      sumyn +=
+          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
+    }
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      sumzp += (ds_x * ds_y) *
+               grid_value("Sz", i, j, ksize - 2 - pmlkr - 0.2 * lattice_z);
+      sumzn += (ds_x * ds_y) * grid_value("Sz", i, j, pmlkl + 0.2 * lattice_z);
+    }
+  Sumx = Sumx + (sumxp - sumxn); // Sumx,Sumy,Sumz --> global variable
+  Sumy = Sumy + (sumyp - sumyn);
+  Sumz = Sumz + (sumzp - sumzn);
+}
+
+float Poynting_half_sphere_point(char *component, float z0, float R,
+                                 float theta, float phi) {
+  int xg, yg, zg;
+
+  int k; // for non_uniform grid
+
+  float x, y, z;
+  float Pi; //'i'-component of Poynting vector
+
+  ////// unit = a //////
+  x = R * sin(theta) * cos(phi);
+  y = R * sin(theta) * sin(phi);
+  z = R * cos(theta) + z0;
+  k = non_uniform_z_to_i(z);
+
+  ////// unit = grid //////
+  xg = floor(0.5 + ((x + xcenter) * lattice_x));
+  yg = floor(0.5 + ((y + ycenter) * lattice_y));
+  zg = non_uniform_z_to_i(z);
+
+  if (strcmp("r", component) == 0) {
+    Pi = (ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * sin(theta) *
+             cos(phi) +
+         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * sin(theta) *
+             sin(phi) +
+         (ds_x * ds_y) * grid_value("Sz", xg, yg, zg) * cos(theta);
+  } else if (strcmp("theta", component) == 0) {
+    Pi = (ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * cos(theta) *
+             cos(phi) +
+         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * cos(theta) *
+             sin(phi) -
+         (ds_x * ds_y) * grid_value("Sz", xg, yg, zg) * sin(theta);
+  } else if (strcmp("phi", component) == 0) {
+    Pi = -(ds_y * ds_nz[k]) * grid_value("Sx", xg, yg, zg) * sin(phi) +
+         (ds_nz[k] * ds_x) * grid_value("Sy", xg, yg, zg) * cos(phi);
+  } else {
+  }
+
+  return (Pi);
+}
+
+void Poynting_block(float centerx, float centery, float centerz, float size1,
+                    float size2, float size3) {
+  int i, j, k;
+  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0, sumzp = 0, sumzn = 0;
+  int x_n, x_p, y_n, y_p, z_n,
+      z_p; // n:- p:+, position of the sides of the block
+
+  x_n = (centerx + xcenter - 0.5 * size1) * lattice_x;
+  x_p = (centerx + xcenter + 0.5 * size1) * lattice_x;
+  y_n = (centery + ycenter - 0.5 * size2) * lattice_y;
+  y_p = (centery + ycenter + 0.5 * size2) * lattice_y;
+  z_n = non_uniform_z_to_i(centerz - 0.5 * size3);
+  z_p = non_uniform_z_to_i(centerz + 0.5 * size3);
+
+  for (k = z_p; k >= z_n; k--)
+    for (j = y_n; j <= y_p; j++) {
+      sumxp += (ds_y * ds_nz[k]) * grid_value("Sx", x_p, j, k);
+      sumxn += (ds_y * ds_nz[k]) * grid_value("Sx", x_n, j, k);
+    }
+  for (i = x_n; i <= x_p; i++)
+    for (k = z_p; k >= z_n; k--) {
+      sumyp += (ds_nz[k] * ds_x) * grid_value("Sy", i, y_p, k);
+      sumyn += (ds_nz[k] * ds_x) * grid_value("Sy", i, y_n, k);
+    }
+  for (i = x_n; i <= x_p; i++)
+    for (j = y_n; j <= y_p; j++) {
+      sumzp += (ds_x * ds_y) * grid_value("Sz", i, j, z_p);
+      sumzn += (ds_x * ds_y) * grid_value("Sz", i, j, z_n);
+    }
+  Sumx = Sumx + (sumxp - sumxn); // Sumx,Sumy,Sumz --> global variable
+  Sumy = Sumy + (sumyp - sumyn);
+  Sumz = Sumz + (sumzp - sumzn);
+}
+
+void Poynting_side(float value, float zposition) {
+  int i, j, k;
+  float sumxp = 0, sumxn = 0, sumyp = 0, sumyn = 0;
+
+  for (k = non_uniform_z_to_i(value + zposition);
+       k >= non_uniform_z_to_i(-value + zposition); k--)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      sumxp += (ds_y * ds_nz[k]) *
+               grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
+      sumxn +=
+          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
+    }
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (k = non_uniform_z_to_i(value + zposition);
+         k >= non_uniform_z_to_i(-value + zposition); k--) {
+      sumyp += (ds_nz[k] * ds_x) *
+               grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
+      sumyn +=
+          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
+    }
+
+  SideSumx = SideSumx + (sumxp - sumxn);
+  SideSumy = SideSumy + (sumyp - sumyn);
+}
+
+void print_energy() {
+  FILE *VQSQ;
+  float Et, Eh, Ev;
+
+  Et = Sumx + Sumy + Sumz;  // total loss
+  Eh = SideSumx + SideSumy; // horizontal loss
+  Ev = Et - Eh;             // vertical loss
+
+  VQSQ = fopen("VQSQ.en", "wt");
+  fprintf(VQSQ,
+          "VerticalLoss=%g\t HorizontalLoss=%g\t "
+          "VerticalLoss/HorizontalLoss(K)=%g\n",
+          Ev, Eh, Ev / Eh);
+  fprintf(VQSQ, "Sumx=%g\t Sumy=%g\t Sumz=%g\n", Sumx, Sumy, Sumz);
+  fprintf(VQSQ, "SideSumx=%g\t SideSumy=%g\n", SideSumx, SideSumy);
+  fprintf(VQSQ, "SumUpper=%g\t SumLower=%g\n", SumUpper, SumLower);
+  fclose(VQSQ);
+}
+
+void Poynting_UpDown(float value, float zposition) {
+  int i, j, k;
+  float UpStripXp = 0, UpStripXn = 0, UpStripYp = 0, UpStripYn = 0;
+  float DnStripXp = 0, DnStripXn = 0, DnStripYp = 0, DnStripYn = 0;
+  float PlanZp = 0, PlanZn = 0;
+
+  //////// Upper plane & Bottom plane
+  for (i = 1 + pmlil + 0.2 * lattice_x;
+       i <= isize - 2 - pmlir - 0.2 * lattice_x; i++)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      PlanZp += (ds_x * ds_y) *
+                grid_value("Sz", i, j, ksize - 2 - pmlkr - 0.2 * lattice_z);
+      PlanZn += (ds_x * ds_y) * grid_value("Sz", i, j, pmlkl + 0.2 * lattice_z);
+    }
+
+  ///////// Upper Strip
+  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+       k >= non_uniform_z_to_i(value + zposition); k--)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      UpStripXp += (ds_y * ds_nz[k]) *
+                   grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
+      UpStripXn +=
+          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
+    }
+  for (k = ksize - 2 - pmlkr - 0.2 * lattice_z;
+       k >= non_uniform_z_to_i(value + zposition); k--)
+    for (i = 1 + pmlil + 0.2 * lattice_x;
+         i <= isize - 2 - pmlir - 0.2 * lattice_x; i++) {
+      UpStripYp += (ds_nz[k] * ds_x) *
+                   grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
+      UpStripYn +=
+          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
+    }
+
+  ///////// Lower Strip
+  for (k = 1 + pmlkl + 0.2 * lattice_z;
+       k <= non_uniform_z_to_i(-value + zposition); k++)
+    for (j = 1 + pmljl + 0.2 * lattice_y;
+         j <= jsize - 2 - pmljr - 0.2 * lattice_y; j++) {
+      DnStripXp += (ds_y * ds_nz[k]) *
+                   grid_value("Sx", isize - 2 - pmlir - 0.2 * lattice_x, j, k);
+      DnStripXn +=
+          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);
+    }
+  for (k = 1 + pmlkl + 0.2 * lattice_z;
+       k <= non_uniform_z_to_i(-value + zposition); k++)
+    for (i = 1 + pmlil + 0.2 * lattice_x;
+         i <= isize - 2 - pmlir - 0.2 * lattice_x; i++) {
+      DnStripYp += (ds_nz[k] * ds_x) *
+                   grid_value("Sy", i, jsize - 2 - pmljr - 0.2 * lattice_y, k);
+      DnStripYn +=
+          (ds_nz[k] * ds_x) * grid_value("Sy", i, pmljl + 0.2 * lattice_y, k);
+    }
+
+  SumUpper =
+      SumUpper + PlanZp + (UpStripXp - UpStripXn) + (UpStripYp - UpStripYn);
+  SumLower =
+      SumLower + (-PlanZn) + (DnStripXp - DnStripXn) + (DnStripYp - DnStripYn);
+}
diff --git a/openms/lib/fdtd/incoherent.c b/openms/lib/fdtd/incoherent.c
index 1caf961..db4fba5 100755
--- a/openms/lib/fdtd/incoherent.c
+++ b/openms/lib/fdtd/incoherent.c
@@ -1,201 +1,201 @@
-#include "./pFDTD.h"
-
-int random_on(int p_tau);
-float get_random_float(gsl_rng *r, float range);
-long get_Gaussian_dist(gsl_rng *r, float mu, float sigma);
-
-int inc_dipole_num = 0;
-//////// Random variables ////////////
-float *p_theta_aux;
-float *p_phi;
-float *p_eps;
-long *p_tau;
-//////////////////////////////////////
-long store_t = -100;    // temp 't' store variable
-int one_round_turn = 0; // 0:no, 1:yes
-
-void incoherent_point_dipole(char *function, float x, float y, float z,
-                             float frequency, long to, long tdecay, float t_mu,
-                             float sd) {
-  int i, j, k;
-  float Jx, Jy, Jz;
-  float iJx, iJy, iJz;
-
-  if ((store_t == -100) || (store_t == t)) {
-    /// dipole number increase
-    inc_dipole_num++;
-    if (one_round_turn == 0) {
-      /// re-allocation of 1-D arrays
-      p_theta_aux =
-          (float *)realloc(p_theta_aux, sizeof(float) * inc_dipole_num);
-      p_phi = (float *)realloc(p_phi, sizeof(float) * inc_dipole_num);
-      p_eps = (float *)realloc(p_eps, sizeof(float) * inc_dipole_num);
-      p_tau = (long *)realloc(p_tau, sizeof(long) * inc_dipole_num);
-      // initialization
-      p_tau[inc_dipole_num - 1] = t;
-    }
-  } else {
-    inc_dipole_num = 1;
-    one_round_turn = 1;
-  }
-
-  /// save the present time 't'
-  store_t = t;
-
-  // dipole position
-  i = floor(0.5 + ((x + xcenter) * lattice_x));
-  j = floor(0.5 + ((y + ycenter) * lattice_y));
-  k = floor(0.5 + ((z + zcenter) * lattice_z));
-
-  if (random_on(p_tau[inc_dipole_num - 1]) == 1) {
-    p_theta_aux[inc_dipole_num - 1] = get_random_float(rng_r, 1.0);
-    // to make uniform random generation over the spherical surface
-    // instead of using 'theta' directly, we use 0< 'theta_aux' <1
-    // in such a way sin(theta) = sqrt( 1 - theta_aux^2)
-    // modified after ver. 8.2
-    p_phi[inc_dipole_num - 1] = get_random_float(rng_r, 2 * pi);
-    p_eps[inc_dipole_num - 1] = get_random_float(rng_r, 2 * pi);
-    p_tau[inc_dipole_num - 1] = t + get_Gaussian_dist(rng_r, t_mu, sd);
-  } else // no change
-  {
-  }
-
-  if (strcmp(function, "Gauss") == 0) // Gaussian envelope
-  {
-    Jx = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                      p_theta_aux[inc_dipole_num - 1]) *
-         cos(p_phi[inc_dipole_num - 1]);
-    Jy = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                      p_theta_aux[inc_dipole_num - 1]) *
-         sin(p_phi[inc_dipole_num - 1]);
-    Jz = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         p_theta_aux[inc_dipole_num - 1];
-    if ((use_periodic_x == 1 || use_periodic_y == 1) &&
-        (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
-      iJx = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                         p_theta_aux[inc_dipole_num - 1]) *
-            cos(p_phi[inc_dipole_num - 1]);
-      iJy = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                         p_theta_aux[inc_dipole_num - 1]) *
-            sin(p_phi[inc_dipole_num - 1]);
-      iJz = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            p_theta_aux[inc_dipole_num - 1];
-    }
-  }
-  if (strcmp(function, "Lorentz") == 0) // Lorentzian envelope
-  {
-    Jx = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                      p_theta_aux[inc_dipole_num - 1]) *
-         cos(p_phi[inc_dipole_num - 1]);
-    Jy = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                      p_theta_aux[inc_dipole_num - 1]) *
-         sin(p_phi[inc_dipole_num - 1]);
-    Jz = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-         p_theta_aux[inc_dipole_num - 1];
-    if ((use_periodic_x == 1 || use_periodic_y == 1) &&
-        (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
-      iJx = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                         p_theta_aux[inc_dipole_num - 1]) *
-            cos(p_phi[inc_dipole_num - 1]);
-      iJy = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
-                         p_theta_aux[inc_dipole_num - 1]) *
-            sin(p_phi[inc_dipole_num - 1]);
-      iJz = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
-            p_theta_aux[inc_dipole_num - 1];
-    }
-  }
-
-  Ex[i][j][k] = Ex[i][j][k] + Jx / 2;
-  Ex[i - 1][j][k] = Ex[i - 1][j][k] + Jx / 2;
-  Ey[i][j][k] = Ey[i][j][k] + Jy / 2;
-  Ey[i][j - 1][k] = Ey[i][j - 1][k] + Jy / 2;
-  Ez[i][j][k] = Ez[i][j][k] + Jz / 2;
-  Ez[i][j][k - 1] = Ez[i][j][k - 1] + Jz / 2;
-
-  if ((use_periodic_x == 1 || use_periodic_y == 1) &&
-      (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
-    iEx[i][j][k] = iEx[i][j][k] + iJx / 2;
-    iEx[i - 1][j][k] = iEx[i - 1][j][k] + iJx / 2;
-    iEy[i][j][k] = iEy[i][j][k] + iJy / 2;
-    iEy[i][j - 1][k] = iEy[i][j - 1][k] + iJy / 2;
-    iEz[i][j][k] = iEz[i][j][k] + iJz / 2;
-    iEz[i][j][k - 1] = iEz[i][j][k - 1] + iJz / 2;
-  }
-}
-
-int random_on(int p_tau) {
-  if (t == p_tau)
-    return (1);
-  else
-    return (0);
-}
-
-float get_random_float(gsl_rng *r, float range) {
-  return (range * gsl_rng_uniform(r));
-}
-
-long get_Gaussian_dist(gsl_rng *r, float mu, float sigma) {
-  return (fabs(mu + gsl_ran_gaussian(r, sigma)));
-}
-
-//////////////////////////////////////////////////
-//    Rotating phasor in case of periodic BC    //
-//  --------------------------------------------//
-//        Use the relation :                    //
-//     cos(wt-90) + i sin(wt-90)                //
-//        = sin(wt) - i cos(wt)                 //
-//     Then, we can preserve the same "sin()"   //
-//        form for the real field source        //
-//////////////////////////////////////////////////
-
-float Gauss_amp(float frequency, float phase, long to, long tdecay) {
-  if (to - 3 * tdecay < t && t < to + 3 * tdecay)
-    return (sin(2 * pi * frequency * t / S_factor / ds_x / lattice_x + phase) *
-            exp(-1.0 * pow((float)(t - to) / tdecay, 2.0)));
-  else
-    return (0.0);
-}
-
-float Lorentz_amp(float frequency, float phase, long to, long tdecay) {
-  if (tdecay == 0)
-    return (
-        sin(2 * pi * frequency * (float)(t - to) / S_factor / ds_x / lattice_x +
-            phase));
-  else if (to <= t && t < to + 8 * tdecay)
-    return (
-        sin(2 * pi * frequency * (float)(t - to) / S_factor / ds_x / lattice_x +
-            phase) *
-        exp(-(float)(t - to) / tdecay));
-  else
-    return (0.0);
-}
-
-float iGauss_amp(float frequency, float phase, long to, long tdecay) {
-  if (to - 3 * tdecay < t && t < to + 3 * tdecay)
-    return (-cos(2 * pi * frequency * t / S_factor / ds_x / lattice_x + phase) *
-            exp(-1.0 * pow((float)(t - to) / tdecay, 2.0)));
-  else
-    return (0.0);
-}
-
-float iLorentz_amp(float frequency, float phase, long to, long tdecay) {
-  if (tdecay == 0)
-    return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
-                     lattice_x +
-                 phase));
-  else if (to <= t && t < to + 8 * tdecay)
-    return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
-                     lattice_x +
-                 phase) *
-            exp(-(float)(t - to) / tdecay));
-  else
-    return (0.0);
-}
+#include "./pFDTD.h"
+
+int random_on(int p_tau);
+float get_random_float(gsl_rng *r, float range);
+long get_Gaussian_dist(gsl_rng *r, float mu, float sigma);
+
+int inc_dipole_num = 0;
+//////// Random variables ////////////
+float *p_theta_aux;
+float *p_phi;
+float *p_eps;
+long *p_tau;
+//////////////////////////////////////
+long store_t = -100;    // temp 't' store variable
+int one_round_turn = 0; // 0:no, 1:yes
+
+void incoherent_point_dipole(char *function, float x, float y, float z,
+                             float frequency, long to, long tdecay, float t_mu,
+                             float sd) {
+  int i, j, k;
+  float Jx, Jy, Jz;
+  float iJx, iJy, iJz;
+
+  if ((store_t == -100) || (store_t == t)) {
+    /// dipole number increase
+    inc_dipole_num++;
+    if (one_round_turn == 0) {
+      /// re-allocation of 1-D arrays
+      p_theta_aux =
+          (float *)realloc(p_theta_aux, sizeof(float) * inc_dipole_num);
+      p_phi = (float *)realloc(p_phi, sizeof(float) * inc_dipole_num);
+      p_eps = (float *)realloc(p_eps, sizeof(float) * inc_dipole_num);
+      p_tau = (long *)realloc(p_tau, sizeof(long) * inc_dipole_num);
+      // initialization
+      p_tau[inc_dipole_num - 1] = t;
+    }
+  } else {
+    inc_dipole_num = 1;
+    one_round_turn = 1;
+  }
+
+  /// save the present time 't'
+  store_t = t;
+
+  // dipole position
+  i = floor(0.5 + ((x + xcenter) * lattice_x));
+  j = floor(0.5 + ((y + ycenter) * lattice_y));
+  k = floor(0.5 + ((z + zcenter) * lattice_z));
+
+  if (random_on(p_tau[inc_dipole_num - 1]) == 1) {
+    p_theta_aux[inc_dipole_num - 1] = get_random_float(rng_r, 1.0);
+    // to make uniform random generation over the spherical surface
+    // instead of using 'theta' directly, we use 0< 'theta_aux' <1
+    // in such a way sin(theta) = sqrt( 1 - theta_aux^2)
+    // modified after ver. 8.2
+    p_phi[inc_dipole_num - 1] = get_random_float(rng_r, 2 * pi);
+    p_eps[inc_dipole_num - 1] = get_random_float(rng_r, 2 * pi);
+    p_tau[inc_dipole_num - 1] = t + get_Gaussian_dist(rng_r, t_mu, sd);
+  } else // no change
+  {
+  }
+
+  if (strcmp(function, "Gauss") == 0) // Gaussian envelope
+  {
+    Jx = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                      p_theta_aux[inc_dipole_num - 1]) *
+         cos(p_phi[inc_dipole_num - 1]);
+    Jy = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                      p_theta_aux[inc_dipole_num - 1]) *
+         sin(p_phi[inc_dipole_num - 1]);
+    Jz = Gauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         p_theta_aux[inc_dipole_num - 1];
+    if ((use_periodic_x == 1 || use_periodic_y == 1) &&
+        (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
+      iJx = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                         p_theta_aux[inc_dipole_num - 1]) *
+            cos(p_phi[inc_dipole_num - 1]);
+      iJy = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                         p_theta_aux[inc_dipole_num - 1]) *
+            sin(p_phi[inc_dipole_num - 1]);
+      iJz = iGauss_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            p_theta_aux[inc_dipole_num - 1];
+    }
+  }
+  if (strcmp(function, "Lorentz") == 0) // Lorentzian envelope
+  {
+    Jx = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                      p_theta_aux[inc_dipole_num - 1]) *
+         cos(p_phi[inc_dipole_num - 1]);
+    Jy = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                      p_theta_aux[inc_dipole_num - 1]) *
+         sin(p_phi[inc_dipole_num - 1]);
+    Jz = Lorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+         p_theta_aux[inc_dipole_num - 1];
+    if ((use_periodic_x == 1 || use_periodic_y == 1) &&
+        (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
+      iJx = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                         p_theta_aux[inc_dipole_num - 1]) *
+            cos(p_phi[inc_dipole_num - 1]);
+      iJy = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            sqrt(1 - p_theta_aux[inc_dipole_num - 1] *
+                         p_theta_aux[inc_dipole_num - 1]) *
+            sin(p_phi[inc_dipole_num - 1]);
+      iJz = iLorentz_amp(frequency, p_eps[inc_dipole_num - 1], to, tdecay) *
+            p_theta_aux[inc_dipole_num - 1];
+    }
+  }
+
+  Ex[i][j][k] = Ex[i][j][k] + Jx / 2;
+  Ex[i - 1][j][k] = Ex[i - 1][j][k] + Jx / 2;
+  Ey[i][j][k] = Ey[i][j][k] + Jy / 2;
+  Ey[i][j - 1][k] = Ey[i][j - 1][k] + Jy / 2;
+  Ez[i][j][k] = Ez[i][j][k] + Jz / 2;
+  Ez[i][j][k - 1] = Ez[i][j][k - 1] + Jz / 2;
+
+  if ((use_periodic_x == 1 || use_periodic_y == 1) &&
+      (wave_vector_x != 0.0 || wave_vector_y != 0.0)) {
+    iEx[i][j][k] = iEx[i][j][k] + iJx / 2;
+    iEx[i - 1][j][k] = iEx[i - 1][j][k] + iJx / 2;
+    iEy[i][j][k] = iEy[i][j][k] + iJy / 2;
+    iEy[i][j - 1][k] = iEy[i][j - 1][k] + iJy / 2;
+    iEz[i][j][k] = iEz[i][j][k] + iJz / 2;
+    iEz[i][j][k - 1] = iEz[i][j][k - 1] + iJz / 2;
+  }
+}
+
+int random_on(int p_tau) {
+  if (t == p_tau)
+    return (1);
+  else
+    return (0);
+}
+
+float get_random_float(gsl_rng *r, float range) {
+  return (range * gsl_rng_uniform(r));
+}
+
+long get_Gaussian_dist(gsl_rng *r, float mu, float sigma) {
+  return (fabs(mu + gsl_ran_gaussian(r, sigma)));
+}
+
+//////////////////////////////////////////////////
+//    Rotating phasor in case of periodic BC    //
+//  --------------------------------------------//
+//        Use the relation :                    //
+//     cos(wt-90) + i sin(wt-90)                //
+//        = sin(wt) - i cos(wt)                 //
+//     Then, we can preserve the same "sin()"   //
+//        form for the real field source        //
+//////////////////////////////////////////////////
+
+float Gauss_amp(float frequency, float phase, long to, long tdecay) {
+  if (to - 3 * tdecay < t && t < to + 3 * tdecay)
+    return (sin(2 * pi * frequency * t / S_factor / ds_x / lattice_x + phase) *
+            exp(-1.0 * pow((float)(t - to) / tdecay, 2.0)));
+  else
+    return (0.0);
+}
+
+float Lorentz_amp(float frequency, float phase, long to, long tdecay) {
+  if (tdecay == 0)
+    return (
+        sin(2 * pi * frequency * (float)(t - to) / S_factor / ds_x / lattice_x +
+            phase));
+  else if (to <= t && t < to + 8 * tdecay)
+    return (
+        sin(2 * pi * frequency * (float)(t - to) / S_factor / ds_x / lattice_x +
+            phase) *
+        exp(-(float)(t - to) / tdecay));
+  else
+    return (0.0);
+}
+
+float iGauss_amp(float frequency, float phase, long to, long tdecay) {
+  if (to - 3 * tdecay < t && t < to + 3 * tdecay)
+    return (-cos(2 * pi * frequency * t / S_factor / ds_x / lattice_x + phase) *
+            exp(-1.0 * pow((float)(t - to) / tdecay, 2.0)));
+  else
+    return (0.0);
+}
+
+float iLorentz_amp(float frequency, float phase, long to, long tdecay) {
+  if (tdecay == 0)
+    return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
+                     lattice_x +
+                 phase));
+  else if (to <= t && t < to + 8 * tdecay)
+    return (-cos(2 * pi * frequency * (float)(t - to) / S_factor / ds_x /
+                     lattice_x +
+                 phase) *
+            exp(-(float)(t - to) / tdecay));
+  else
+    return (0.0);
+}
diff --git a/openms/lib/fdtd/input.c b/openms/lib/fdtd/input.c
index 2802e63..0129b65 100755
--- a/openms/lib/fdtd/input.c
+++ b/openms/lib/fdtd/input.c
@@ -1,726 +1,726 @@
-#include "./pFDTD.h"
-
-int in_object(int n, float i, float j, float k);
-void reading_matrix(char *matrix_file, int n);
-float average_epsilon(float i, float j, float k);
-void generate_random_2D(float x_min, float x_max, float y_min, float y_max,
-                        float radius, float *xr, float *yr, int i);
-void generate_random_3D(float x_min, float x_max, float y_min, float y_max,
-                        float z_min, float z_max, float radius, float *xr,
-                        float *yr, float *zr, int i);
-float rand_distance_2D(float x_scan, float y_scan, float x_temp, float y_temp);
-float rand_distance_3D(float x_scan, float y_scan, float z_scan, float x_temp,
-                       float y_temp, float z_temp);
-
-float back_epsilon;
-int objectn = 0;
-struct obj *object;
-
-///// For Euler rotation ///////
-///// [n] : object index ///////
-/// a = alpha, b=beta, c=gamma ///
-float *cos_a, *cos_b, *cos_c;
-float *sin_a, *sin_b, *sin_c;
-//////////////////////////////////////
-
-void background(float epsilon) {
-  int i, j, k;
-
-  back_epsilon = epsilon;
-
-  for (i = 0; i < misize; i++)
-    for (j = 0; j < mjsize; j++)
-      for (k = 0; k < mksize; k++)
-        epsilonx[i][j][k] = epsilony[i][j][k] = epsilonz[i][j][k] =
-            back_epsilon;
-
-  printf("background...ok\n");
-}
-
-void input_object(char *shape, char *matrix_file, float centerx, float centery,
-                  float centerz, float size1, float size2, float size3,
-                  float epsilon) {
-  objectn++;
-
-  object = (struct obj *)realloc(object, sizeof(struct obj) * objectn);
-
-  cos_a = (float *)realloc(cos_a, sizeof(float) * objectn);
-  cos_b = (float *)realloc(cos_b, sizeof(float) * objectn);
-  cos_c = (float *)realloc(cos_c, sizeof(float) * objectn);
-  sin_a = (float *)realloc(sin_a, sizeof(float) * objectn);
-  sin_b = (float *)realloc(sin_b, sizeof(float) * objectn);
-  sin_c = (float *)realloc(sin_c, sizeof(float) * objectn);
-
-  strcpy(object[objectn - 1].shape, shape);
-
-  //////// common parameters ///////
-  object[objectn - 1].epsilon = epsilon;
-  //////////////////////////////////
-  cos_a[objectn - 1] = 1.0;
-  cos_b[objectn - 1] = 1.0;
-  cos_c[objectn - 1] = 1.0;
-  sin_a[objectn - 1] = 0.0;
-  sin_b[objectn - 1] = 0.0;
-  sin_c[objectn - 1] = 0.0;
-
-  // in the below, we define various input parameters case by case.
-
-  if (strcmp(shape, "contour") == 0) {
-    object[objectn - 1].centeri = centerx; // matrix_center
-    object[objectn - 1].centerj = centery; // matrix_center
-    object[objectn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    object[objectn - 1].size1 = size1; // discrimination level
-    object[objectn - 1].size2 =
-        (size2); // height  // for non_uniform_grid() .....
-    object[objectn - 1].size3 = size3; // compression factor
-    reading_matrix(matrix_file, objectn - 1);
-  } else if (strcmp(shape, "rod") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-    object[objectn - 1].size2 =
-        (size2); // height  // for non_uniform_grid() ....
-  } else if (strcmp(shape, "rodX") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_y; // radius
-    object[objectn - 1].size2 = size2 * lattice_x; // x length
-  } else if (strcmp(shape, "rodY") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-    object[objectn - 1].size2 = size2 * lattice_y; // y length
-  } else if (strcmp(shape, "donut") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    object[objectn - 1].size1 = size1 * lattice_x; // inner radius
-    object[objectn - 1].size2 = size2 * lattice_x; // outer radius
-    object[objectn - 1].size3 =
-        (size3); // height  // for non_uniform_grid() ....
-  } else if (strcmp(shape, "sphere") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-  } else if (strcmp(shape, "shell") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // inner radius
-    object[objectn - 1].size2 = size2 * lattice_x; // outer radius
-  } else if (strcmp(shape, "ellipse") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-    object[objectn - 1].size2 =
-        (size2); // height (centerz); // for non_uniform_grid() ....
-    object[objectn - 1].size3 = size3; // aspect ratio=ry/rx
-  } else if (strcmp(shape, "ellipsoidal") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // rx
-    object[objectn - 1].size2 = size2 * lattice_y; // ry
-    object[objectn - 1].size3 = size3 * lattice_z; // rz
-  } else if (strcmp(shape, "cone") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz);       // for non_uniform_grid()
-    object[objectn - 1].size1 = size1 * lattice_x; // r1
-    object[objectn - 1].size2 = size2 * lattice_x; // r2
-    object[objectn - 1].size3 = (size3); // for non_uniform_grid(), height
-  } else                                 // "block"
-  {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    object[objectn - 1].size1 = size1 * lattice_x;
-    object[objectn - 1].size2 = size2 * lattice_y;
-    object[objectn - 1].size3 =
-        (size3); // for non_uniform_grid(), the meaning changed
-  }
-}
-
-void input_object_Euler_rotation(char *shape, char *matrix_file, float centerx,
-                                 float centery, float centerz, float size1,
-                                 float size2, float size3, float alpha,
-                                 float beta, float gamma, float epsilon)
-// alpha, beta, gamma : 3- Euler angles
-{
-  objectn++;
-
-  object = (struct obj *)realloc(object, sizeof(struct obj) * objectn);
-
-  cos_a = (float *)realloc(cos_a, sizeof(float) * objectn);
-  cos_b = (float *)realloc(cos_b, sizeof(float) * objectn);
-  cos_c = (float *)realloc(cos_c, sizeof(float) * objectn);
-  sin_a = (float *)realloc(sin_a, sizeof(float) * objectn);
-  sin_b = (float *)realloc(sin_b, sizeof(float) * objectn);
-  sin_c = (float *)realloc(sin_c, sizeof(float) * objectn);
-
-  strcpy(object[objectn - 1].shape, shape);
-
-  //////// common parameters ///////
-  object[objectn - 1].epsilon = epsilon;
-  //////////////////////////////////
-  cos_a[objectn - 1] = cos(alpha * pi / 180);
-  cos_b[objectn - 1] = cos(beta * pi / 180);
-  cos_c[objectn - 1] = cos(gamma * pi / 180);
-  sin_a[objectn - 1] = sin(alpha * pi / 180);
-  sin_b[objectn - 1] = sin(beta * pi / 180);
-  sin_c[objectn - 1] = sin(gamma * pi / 180);
-
-  //// in the below, we define various input parameters case by case. ////
-  //// Contrary to "input_object()", 'Euler rotaion' cannot be applied to
-  ///"sphere" and "contour"////
-
-  if (strcmp(shape, "rod") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-    object[objectn - 1].size2 = size2 * lattice_z; // height
-    strcpy(object[objectn - 1].shape, "Rrod");     // Euler Rotation indicator
-  } else if (strcmp(shape, "ellipse") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // radius
-    object[objectn - 1].size2 = size2 * lattice_z; // height
-    object[objectn - 1].size3 = size3;             // aspect ratio=ry/rx
-    strcpy(object[objectn - 1].shape, "Rellipse"); // Euler Rotation indicator
-  } else if (strcmp(shape, "ellipsoidal") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x; // rx
-    object[objectn - 1].size2 = size2 * lattice_y; // ry
-    object[objectn - 1].size3 = size3 * lattice_z; // rz
-    strcpy(object[objectn - 1].shape,
-           "Rellipsoidal"); // Euler Rotation indicator
-  } else if (strcmp(shape, "block") == 0) {
-    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
-    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
-    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
-    object[objectn - 1].size1 = size1 * lattice_x;
-    object[objectn - 1].size2 = size2 * lattice_y;
-    object[objectn - 1].size3 = size3 * lattice_z;
-    strcpy(object[objectn - 1].shape, "Rblock"); // Euler Rotation indicator
-  } else {
-  }
-}
-
-void random_object(char *shape, float radius, float height, float epsilon,
-                   float x_min, float x_max, float y_min, float y_max,
-                   float z_min, float z_max, int gen_number, int seed) {
-  int i;
-  float *xr, *yr, *zr; // random number coordinates
-
-  srand(seed); // initialization of random number generator
-
-  if (strcmp(shape, "rod") == 0) {
-    xr = (float *)malloc(sizeof(float) * gen_number);
-    yr = (float *)malloc(sizeof(float) * gen_number);
-
-    for (i = 0; i < gen_number; i++) {
-      generate_random_2D(x_min, x_max, y_min, y_max, radius, xr, yr, i);
-      input_object("rod", EMP, xr[i], yr[i], 0 + shift, radius, height, 0,
-                   epsilon);
-    }
-  }
-
-  if (strcmp(shape, "sphere") == 0) {
-    xr = (float *)malloc(sizeof(float) * gen_number);
-    yr = (float *)malloc(sizeof(float) * gen_number);
-    zr = (float *)malloc(sizeof(float) * gen_number);
-
-    for (i = 0; i < gen_number; i++) {
-      generate_random_3D(x_min, x_max, y_min, y_max, z_min, z_max, radius, xr,
-                         yr, zr, i);
-      input_object("sphere", EMP, xr[i], yr[i], zr[i], radius, 0, 0, epsilon);
-    }
-  }
-}
-
-void generate_random_2D(float x_min, float x_max, float y_min, float y_max,
-                        float radius, float *xr, float *yr, int i) {
-  int scan;
-  float xr_temp, yr_temp;
-
-  xr_temp =
-      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (x_max - x_min) +
-      x_min;
-  yr_temp =
-      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (y_max - y_min) +
-      y_min;
-
-  if (i > 0) {
-    while (1) {
-      for (scan = 0; scan < i; scan++)
-        if (rand_distance_2D(xr[scan], yr[scan], xr_temp, yr_temp) <
-            2 * radius) {
-          scan = -10;
-          break;
-        }
-
-      if (scan == i) {
-        xr[i] = xr_temp;
-        yr[i] = yr_temp;
-        break; // out of the while loop
-      } else {
-        xr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
-                      (x_max - x_min) +
-                  x_min;
-        yr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
-                      (y_max - y_min) +
-                  y_min;
-      }
-    }
-  }
-
-  if (i == 0) {
-    xr[i] = xr_temp;
-    yr[i] = yr_temp;
-  }
-}
-
-float rand_distance_2D(float x_scan, float y_scan, float x_temp, float y_temp) {
-  return (sqrt((x_scan - x_temp) * (x_scan - x_temp) +
-               (y_scan - y_temp) * (y_scan - y_temp)));
-}
-
-void generate_random_3D(float x_min, float x_max, float y_min, float y_max,
-                        float z_min, float z_max, float radius, float *xr,
-                        float *yr, float *zr, int i) {
-  int scan;
-  float xr_temp, yr_temp, zr_temp;
-
-  xr_temp =
-      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (x_max - x_min) +
-      x_min;
-  yr_temp =
-      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (y_max - y_min) +
-      y_min;
-  zr_temp =
-      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (z_max - z_min) +
-      z_min;
-
-  if (i > 0) {
-    while (1) {
-      for (scan = 0; scan < i; scan++)
-        if (rand_distance_3D(xr[scan], yr[scan], zr[scan], xr_temp, yr_temp,
-                             zr_temp) < 2 * radius) {
-          scan = -10;
-          break;
-        }
-
-      if (scan == i) {
-        xr[i] = xr_temp;
-        yr[i] = yr_temp;
-        zr[i] = zr_temp;
-        break; // out of the while loop
-      } else {
-        xr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
-                      (x_max - x_min) +
-                  x_min;
-        yr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
-                      (y_max - y_min) +
-                  y_min;
-        zr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
-                      (z_max - z_min) +
-                  z_min;
-      }
-    }
-  }
-
-  if (i == 0) {
-    xr[i] = xr_temp;
-    yr[i] = yr_temp;
-    zr[i] = zr_temp;
-  }
-}
-
-float rand_distance_3D(float x_scan, float y_scan, float z_scan, float x_temp,
-                       float y_temp, float z_temp) {
-  return (sqrt((x_scan - x_temp) * (x_scan - x_temp) +
-               (y_scan - y_temp) * (y_scan - y_temp) +
-               (z_scan - z_temp) * (z_scan - z_temp)));
-}
-
-void make_epsilon() {
-  int i, j, k;
-
-  printf("-----------------------\n");
-  printf("making the epsilon...\n");
-
-  for (i = 0; i < misize; i++) {
-    printf("%d% \n", 100 * i / misize);
-
-    for (j = 0; j < mjsize; j++)
-      for (k = 0; k < mksize; k++) {
-        epsilonx[i][j][k] = average_epsilon(i + 0.5, j, k);
-        epsilony[i][j][k] = average_epsilon(i, j + 0.5, k);
-        epsilonz[i][j][k] = average_epsilon(i, j, k + 0.5);
-      }
-  }
-
-  free(object);
-
-  printf("make_epsilon...ok\n");
-}
-
-float average_epsilon(float i, float j, float k) {
-  int n, m, partial = 0;
-  float ii, jj, kk, epsilon, partial_epsilon[1000];
-
-  epsilon = back_epsilon;
-  for (m = 0; m < 1000; m++)
-    partial_epsilon[m] = back_epsilon;
-
-  for (n = 0; n < objectn; n++) {
-
-    if (in_object(n, i - 0.5, j - 0.5, k - 0.5) == 0 &&
-        in_object(n, i - 0.5, j - 0.5, k + 0.5) == 0 &&
-        in_object(n, i - 0.5, j + 0.5, k - 0.5) == 0 &&
-        in_object(n, i - 0.5, j + 0.5, k + 0.5) == 0 &&
-        in_object(n, i + 0.5, j - 0.5, k - 0.5) == 0 &&
-        in_object(n, i + 0.5, j - 0.5, k + 0.5) == 0 &&
-        in_object(n, i + 0.5, j + 0.5, k - 0.5) == 0 &&
-        in_object(n, i + 0.5, j + 0.5, k + 0.5) == 0)
-      ;
-
-    else if (in_object(n, i - 0.5, j - 0.5, k - 0.5) == 1 &&
-             in_object(n, i - 0.5, j - 0.5, k + 0.5) == 1 &&
-             in_object(n, i - 0.5, j + 0.5, k - 0.5) == 1 &&
-             in_object(n, i - 0.5, j + 0.5, k + 0.5) == 1 &&
-             in_object(n, i + 0.5, j - 0.5, k - 0.5) == 1 &&
-             in_object(n, i + 0.5, j - 0.5, k + 0.5) == 1 &&
-             in_object(n, i + 0.5, j + 0.5, k - 0.5) == 1 &&
-             in_object(n, i + 0.5, j + 0.5, k + 0.5) == 1) {
-      epsilon = object[n].epsilon;
-      for (m = 0; m < 1000; m++)
-        partial_epsilon[m] = object[n].epsilon;
-      partial = 0;
-    }
-
-    else {
-      for (m = 0, ii = i - 0.45; ii < i + 0.5; ii = ii + 0.1)
-        for (jj = j - 0.45; jj < j + 0.5; jj = jj + 0.1)
-          for (kk = k - 0.45; kk < k + 0.5; kk = kk + 0.1, m++)
-            if (in_object(n, ii, jj, kk) == 1)
-              partial_epsilon[m] = object[n].epsilon;
-      partial = 1;
-    }
-  }
-
-  if (partial == 1)
-    for (epsilon = 0, m = 0; m < 1000; m++)
-      epsilon = epsilon + partial_epsilon[m] / 1000;
-
-  return epsilon;
-}
-
-int in_object(int n, float i, float j, float k) {
-  int I, J;
-  float X, Y, Z;
-  float temp;
-
-  if (strcmp(object[n].shape, "Rrod") != 0 &&
-      strcmp(object[n].shape, "Rellipse") != 0 &&
-      strcmp(object[n].shape, "Rellipsoidal") != 0 &&
-      strcmp(object[n].shape, "Rblock") != 0) {
-    if (strcmp(object[n].shape, "rod") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) <=
-              object[n].size1 * object[n].size1 &&
-          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <= k &&
-          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "rodX") == 0) {
-      if ((j - object[n].centerj) * (j - object[n].centerj) +
-                  (k - object[n].centerk) * (k - object[n].centerk) <=
-              object[n].size1 * object[n].size1 &&
-          object[n].centeri - object[n].size2 / 2 <= i &&
-          i <= object[n].centeri + object[n].size2 / 2)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "rodY") == 0) {
-      if ((k - object[n].centerk) * (k - object[n].centerk) +
-                  (i - object[n].centeri) * (i - object[n].centeri) <=
-              object[n].size1 * object[n].size1 &&
-          object[n].centerj - object[n].size2 / 2 <= j &&
-          j <= object[n].centerj + object[n].size2 / 2)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "donut") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) >=
-              object[n].size1 * object[n].size1 &&
-          (i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) <=
-              object[n].size2 * object[n].size2 &&
-          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3) <= k &&
-          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3))
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "sphere") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-              (j - object[n].centerj) * (j - object[n].centerj) +
-              (k - object[n].centerk) * (k - object[n].centerk) <=
-          object[n].size1 * object[n].size1)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "shell") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) +
-                  (k - object[n].centerk) * (k - object[n].centerk) >=
-              object[n].size1 * object[n].size1 &&
-          (i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) +
-                  (k - object[n].centerk) * (k - object[n].centerk) <=
-              object[n].size2 * object[n].size2)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "ellipse") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) /
-                      (object[n].size3 * object[n].size3) <=
-              object[n].size1 * object[n].size1 &&
-          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <= k &&
-          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "ellipsoidal") == 0) {
-      if ((i - object[n].centeri) * (i - object[n].centeri) /
-                  ((object[n].size1) * (object[n].size1)) +
-              (j - object[n].centerj) * (j - object[n].centerj) /
-                  ((object[n].size2) * (object[n].size2)) +
-              (k - object[n].centerk) * (k - object[n].centerk) /
-                  ((object[n].size3) * (object[n].size3)) <=
-          1)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "cone") == 0) {
-      ///////////////////////////////////////////////
-      //  object[n].centerk & object[n].size3 --> in units of z
-      //  size3 : height
-      ///////////////////////////////////////////////
-      temp = (object[n].size1 - object[n].size2) *
-                 (non_uniform_i_to_z(k) - object[n].centerk) / object[n].size3 +
-             0.5 * (object[n].size1 +
-                    object[n].size2); // radius varying as a function of 'k'
-
-      if ((i - object[n].centeri) * (i - object[n].centeri) +
-                  (j - object[n].centerj) * (j - object[n].centerj) <=
-              temp * temp &&
-          (k <=
-           non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3)) &&
-          (k >= non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3)))
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "block") == 0) {
-      if (object[n].centeri - object[n].size1 / 2 <= i &&
-          i <= object[n].centeri + object[n].size1 / 2 &&
-          object[n].centerj - object[n].size2 / 2 <= j &&
-          j <= object[n].centerj + object[n].size2 / 2 &&
-          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3) <= k &&
-          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3))
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "contour") == 0) {
-      if ((-object[n].centeri * CUTFACTOR <=
-           (i - (xcenter * lattice_x)) / object[n].size3) &&
-          ((i - (xcenter * lattice_x)) / object[n].size3 <=
-           (object[n].col - object[n].centeri) * CUTFACTOR) &&
-          (-object[n].centerj * CUTFACTOR <=
-           (j - (ycenter * lattice_y)) / object[n].size3) &&
-          ((j - (ycenter * lattice_y)) / object[n].size3 <=
-           (object[n].row - object[n].centerj) * CUTFACTOR) &&
-          (non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <=
-           k) &&
-          (k <=
-           non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))) {
-        I = floor(object[n].centeri +
-                  (i - (xcenter * lattice_x)) / object[n].size3);
-        J = floor(object[n].centerj +
-                  (j - (ycenter * lattice_y)) / object[n].size3);
-        if (I < object[n].col && J < object[n].row &&
-            object[n].matrix[I][J] <= object[n].size1)
-          return 1;
-        else
-          return 0;
-      } else
-        return 0;
-    } else {
-    }
-  } else
-  ////if(strcmp(object[n].shape,"Rrod")==0 ||
-  ///strcmp(object[n].shape,"Rellipse")==0 ||
-  ////strcmp(object[n].shape,"Rellipsoidal")==0 ||
-  ///strcmp(object[n].shape,"Rblock")==0)
-  {
-    //// Transform (i,j,k) --> (X,Y,Z), the coordinate with respect to the
-    ///object
-    X = (cos_a[n] * cos_c[n] - sin_a[n] * cos_b[n] * sin_c[n]) *
-            (i - object[n].centeri) +
-        (sin_a[n] * cos_c[n] + cos_a[n] * cos_b[n] * sin_c[n]) *
-            (j - object[n].centerj) +
-        (sin_b[n] * sin_c[n]) * (k - object[n].centerk) + object[n].centeri;
-    Y = -(cos_a[n] * sin_c[n] + sin_a[n] * cos_b[n] * cos_c[n]) *
-            (i - object[n].centeri) -
-        (sin_a[n] * sin_c[n] - cos_a[n] * cos_b[n] * cos_c[n]) *
-            (j - object[n].centerj) +
-        (sin_b[n] * cos_c[n]) * (k - object[n].centerk) + object[n].centerj;
-    Z = (sin_a[n] * sin_b[n]) * (i - object[n].centeri) -
-        (cos_a[n] * sin_b[n]) * (j - object[n].centerj) +
-        cos_b[n] * (k - object[n].centerk) + object[n].centerk;
-
-    if (strcmp(object[n].shape, "Rrod") == 0) {
-      if ((X - object[n].centeri) * (X - object[n].centeri) +
-                  (Y - object[n].centerj) * (Y - object[n].centerj) <=
-              object[n].size1 * object[n].size1 &&
-          object[n].centerk - object[n].size2 / 2 <= Z &&
-          Z <= object[n].centerk + object[n].size2 / 2)
-        return 1;
-      else
-        return 0;
-    }
-
-    if (strcmp(object[n].shape, "Rellipse") == 0) {
-      if ((X - object[n].centeri) * (X - object[n].centeri) +
-                  (Y - object[n].centerj) * (Y - object[n].centerj) /
-                      (object[n].size3 * object[n].size3) <=
-              object[n].size1 * object[n].size1 &&
-          object[n].centerk - object[n].size2 / 2 <= Z &&
-          Z <= object[n].centerk + object[n].size2 / 2)
-        return 1;
-      else
-        return 0;
-    }
-
-    if (strcmp(object[n].shape, "Rellipsoidal") == 0) {
-      if ((X - object[n].centeri) * (X - object[n].centeri) /
-                  ((object[n].size1) * (object[n].size1)) +
-              (Y - object[n].centerj) * (Y - object[n].centerj) /
-                  ((object[n].size2) * (object[n].size2)) +
-              (Z - object[n].centerk) * (Z - object[n].centerk) /
-                  ((object[n].size3) * (object[n].size3)) <=
-          1)
-        return 1;
-      else
-        return 0;
-    }
-
-    else if (strcmp(object[n].shape, "Rblock") == 0) {
-      if (object[n].centeri - object[n].size1 / 2 <= X &&
-          X <= object[n].centeri + object[n].size1 / 2 &&
-          object[n].centerj - object[n].size2 / 2 <= Y &&
-          Y <= object[n].centerj + object[n].size2 / 2 &&
-          object[n].centerk - object[n].size3 / 2 <= Z &&
-          Z <= object[n].centerk + object[n].size3 / 2)
-        return 1;
-      else
-        return 0;
-    }
-  }
-}
-
-void reading_matrix(char *matrix_file, int n) {
-  FILE *stream;
-  int i, j;
-  int col, row;
-  char ch;
-  char string[20];
-
-  stream = fopen(matrix_file, "rt");
-
-  col = 0;
-  row = 0;
-  /////// Counting row and col ///////
-  ch = getc(stream);
-  while (ch != EOF) {
-    if (ch == '\t')
-      col++;
-    if (ch == '\n') {
-      col++; // Origin standard (with TAB separation)
-      row++;
-    }
-    ch = getc(stream);
-  }
-  col = (int)(col / row); // in each row
-  printf("%s matrix file\n", matrix_file);
-  printf("  matrix col = %d\n", col);
-  printf("  matrix row = %d\n", row);
-  printf("\n");
-  fclose(stream);
-
-  object[n].col = col;
-  object[n].row = row;
-
-  //////// matrix memory allocation /////
-  object[n].matrix = (float **)malloc(sizeof(float *) * col);
-  for (i = 0; i < col; i++)
-    object[n].matrix[i] = (float *)malloc(sizeof(float) * row);
-
-  stream = fopen(matrix_file, "rt");
-  //////// Reading matrix file data //////
-  for (j = row - 1; j >= 0; j--) {
-    for (i = 0; i < col; i++) {
-      fscanf(stream, "%s", string);
-      object[n].matrix[i][j] = atof(string);
-    }
-  }
-
-  fclose(stream);
-}
+#include "./pFDTD.h"
+
+int in_object(int n, float i, float j, float k);
+void reading_matrix(char *matrix_file, int n);
+float average_epsilon(float i, float j, float k);
+void generate_random_2D(float x_min, float x_max, float y_min, float y_max,
+                        float radius, float *xr, float *yr, int i);
+void generate_random_3D(float x_min, float x_max, float y_min, float y_max,
+                        float z_min, float z_max, float radius, float *xr,
+                        float *yr, float *zr, int i);
+float rand_distance_2D(float x_scan, float y_scan, float x_temp, float y_temp);
+float rand_distance_3D(float x_scan, float y_scan, float z_scan, float x_temp,
+                       float y_temp, float z_temp);
+
+float back_epsilon;
+int objectn = 0;
+struct obj *object;
+
+///// For Euler rotation ///////
+///// [n] : object index ///////
+/// a = alpha, b=beta, c=gamma ///
+float *cos_a, *cos_b, *cos_c;
+float *sin_a, *sin_b, *sin_c;
+//////////////////////////////////////
+
+void background(float epsilon) {
+  int i, j, k;
+
+  back_epsilon = epsilon;
+
+  for (i = 0; i < misize; i++)
+    for (j = 0; j < mjsize; j++)
+      for (k = 0; k < mksize; k++)
+        epsilonx[i][j][k] = epsilony[i][j][k] = epsilonz[i][j][k] =
+            back_epsilon;
+
+  printf("background...ok\n");
+}
+
+void input_object(char *shape, char *matrix_file, float centerx, float centery,
+                  float centerz, float size1, float size2, float size3,
+                  float epsilon) {
+  objectn++;
+
+  object = (struct obj *)realloc(object, sizeof(struct obj) * objectn);
+
+  cos_a = (float *)realloc(cos_a, sizeof(float) * objectn);
+  cos_b = (float *)realloc(cos_b, sizeof(float) * objectn);
+  cos_c = (float *)realloc(cos_c, sizeof(float) * objectn);
+  sin_a = (float *)realloc(sin_a, sizeof(float) * objectn);
+  sin_b = (float *)realloc(sin_b, sizeof(float) * objectn);
+  sin_c = (float *)realloc(sin_c, sizeof(float) * objectn);
+
+  strcpy(object[objectn - 1].shape, shape);
+
+  //////// common parameters ///////
+  object[objectn - 1].epsilon = epsilon;
+  //////////////////////////////////
+  cos_a[objectn - 1] = 1.0;
+  cos_b[objectn - 1] = 1.0;
+  cos_c[objectn - 1] = 1.0;
+  sin_a[objectn - 1] = 0.0;
+  sin_b[objectn - 1] = 0.0;
+  sin_c[objectn - 1] = 0.0;
+
+  // in the below, we define various input parameters case by case.
+
+  if (strcmp(shape, "contour") == 0) {
+    object[objectn - 1].centeri = centerx; // matrix_center
+    object[objectn - 1].centerj = centery; // matrix_center
+    object[objectn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    object[objectn - 1].size1 = size1; // discrimination level
+    object[objectn - 1].size2 =
+        (size2); // height  // for non_uniform_grid() .....
+    object[objectn - 1].size3 = size3; // compression factor
+    reading_matrix(matrix_file, objectn - 1);
+  } else if (strcmp(shape, "rod") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+    object[objectn - 1].size2 =
+        (size2); // height  // for non_uniform_grid() ....
+  } else if (strcmp(shape, "rodX") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_y; // radius
+    object[objectn - 1].size2 = size2 * lattice_x; // x length
+  } else if (strcmp(shape, "rodY") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+    object[objectn - 1].size2 = size2 * lattice_y; // y length
+  } else if (strcmp(shape, "donut") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    object[objectn - 1].size1 = size1 * lattice_x; // inner radius
+    object[objectn - 1].size2 = size2 * lattice_x; // outer radius
+    object[objectn - 1].size3 =
+        (size3); // height  // for non_uniform_grid() ....
+  } else if (strcmp(shape, "sphere") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+  } else if (strcmp(shape, "shell") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // inner radius
+    object[objectn - 1].size2 = size2 * lattice_x; // outer radius
+  } else if (strcmp(shape, "ellipse") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+    object[objectn - 1].size2 =
+        (size2); // height (centerz); // for non_uniform_grid() ....
+    object[objectn - 1].size3 = size3; // aspect ratio=ry/rx
+  } else if (strcmp(shape, "ellipsoidal") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // rx
+    object[objectn - 1].size2 = size2 * lattice_y; // ry
+    object[objectn - 1].size3 = size3 * lattice_z; // rz
+  } else if (strcmp(shape, "cone") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz);       // for non_uniform_grid()
+    object[objectn - 1].size1 = size1 * lattice_x; // r1
+    object[objectn - 1].size2 = size2 * lattice_x; // r2
+    object[objectn - 1].size3 = (size3); // for non_uniform_grid(), height
+  } else                                 // "block"
+  {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    object[objectn - 1].size1 = size1 * lattice_x;
+    object[objectn - 1].size2 = size2 * lattice_y;
+    object[objectn - 1].size3 =
+        (size3); // for non_uniform_grid(), the meaning changed
+  }
+}
+
+void input_object_Euler_rotation(char *shape, char *matrix_file, float centerx,
+                                 float centery, float centerz, float size1,
+                                 float size2, float size3, float alpha,
+                                 float beta, float gamma, float epsilon)
+// alpha, beta, gamma : 3- Euler angles
+{
+  objectn++;
+
+  object = (struct obj *)realloc(object, sizeof(struct obj) * objectn);
+
+  cos_a = (float *)realloc(cos_a, sizeof(float) * objectn);
+  cos_b = (float *)realloc(cos_b, sizeof(float) * objectn);
+  cos_c = (float *)realloc(cos_c, sizeof(float) * objectn);
+  sin_a = (float *)realloc(sin_a, sizeof(float) * objectn);
+  sin_b = (float *)realloc(sin_b, sizeof(float) * objectn);
+  sin_c = (float *)realloc(sin_c, sizeof(float) * objectn);
+
+  strcpy(object[objectn - 1].shape, shape);
+
+  //////// common parameters ///////
+  object[objectn - 1].epsilon = epsilon;
+  //////////////////////////////////
+  cos_a[objectn - 1] = cos(alpha * pi / 180);
+  cos_b[objectn - 1] = cos(beta * pi / 180);
+  cos_c[objectn - 1] = cos(gamma * pi / 180);
+  sin_a[objectn - 1] = sin(alpha * pi / 180);
+  sin_b[objectn - 1] = sin(beta * pi / 180);
+  sin_c[objectn - 1] = sin(gamma * pi / 180);
+
+  //// in the below, we define various input parameters case by case. ////
+  //// Contrary to "input_object()", 'Euler rotaion' cannot be applied to
+  ///"sphere" and "contour"////
+
+  if (strcmp(shape, "rod") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+    object[objectn - 1].size2 = size2 * lattice_z; // height
+    strcpy(object[objectn - 1].shape, "Rrod");     // Euler Rotation indicator
+  } else if (strcmp(shape, "ellipse") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // radius
+    object[objectn - 1].size2 = size2 * lattice_z; // height
+    object[objectn - 1].size3 = size3;             // aspect ratio=ry/rx
+    strcpy(object[objectn - 1].shape, "Rellipse"); // Euler Rotation indicator
+  } else if (strcmp(shape, "ellipsoidal") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x; // rx
+    object[objectn - 1].size2 = size2 * lattice_y; // ry
+    object[objectn - 1].size3 = size3 * lattice_z; // rz
+    strcpy(object[objectn - 1].shape,
+           "Rellipsoidal"); // Euler Rotation indicator
+  } else if (strcmp(shape, "block") == 0) {
+    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
+    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
+    object[objectn - 1].centerk = (centerz + zcenter) * lattice_z;
+    object[objectn - 1].size1 = size1 * lattice_x;
+    object[objectn - 1].size2 = size2 * lattice_y;
+    object[objectn - 1].size3 = size3 * lattice_z;
+    strcpy(object[objectn - 1].shape, "Rblock"); // Euler Rotation indicator
+  } else {
+  }
+}
+
+void random_object(char *shape, float radius, float height, float epsilon,
+                   float x_min, float x_max, float y_min, float y_max,
+                   float z_min, float z_max, int gen_number, int seed) {
+  int i;
+  float *xr, *yr, *zr; // random number coordinates
+
+  srand(seed); // initialization of random number generator
+
+  if (strcmp(shape, "rod") == 0) {
+    xr = (float *)malloc(sizeof(float) * gen_number);
+    yr = (float *)malloc(sizeof(float) * gen_number);
+
+    for (i = 0; i < gen_number; i++) {
+      generate_random_2D(x_min, x_max, y_min, y_max, radius, xr, yr, i);
+      input_object("rod", EMP, xr[i], yr[i], 0 + shift, radius, height, 0,
+                   epsilon);
+    }
+  }
+
+  if (strcmp(shape, "sphere") == 0) {
+    xr = (float *)malloc(sizeof(float) * gen_number);
+    yr = (float *)malloc(sizeof(float) * gen_number);
+    zr = (float *)malloc(sizeof(float) * gen_number);
+
+    for (i = 0; i < gen_number; i++) {
+      generate_random_3D(x_min, x_max, y_min, y_max, z_min, z_max, radius, xr,
+                         yr, zr, i);
+      input_object("sphere", EMP, xr[i], yr[i], zr[i], radius, 0, 0, epsilon);
+    }
+  }
+}
+
+void generate_random_2D(float x_min, float x_max, float y_min, float y_max,
+                        float radius, float *xr, float *yr, int i) {
+  int scan;
+  float xr_temp, yr_temp;
+
+  xr_temp =
+      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (x_max - x_min) +
+      x_min;
+  yr_temp =
+      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (y_max - y_min) +
+      y_min;
+
+  if (i > 0) {
+    while (1) {
+      for (scan = 0; scan < i; scan++)
+        if (rand_distance_2D(xr[scan], yr[scan], xr_temp, yr_temp) <
+            2 * radius) {
+          scan = -10;
+          break;
+        }
+
+      if (scan == i) {
+        xr[i] = xr_temp;
+        yr[i] = yr_temp;
+        break; // out of the while loop
+      } else {
+        xr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
+                      (x_max - x_min) +
+                  x_min;
+        yr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
+                      (y_max - y_min) +
+                  y_min;
+      }
+    }
+  }
+
+  if (i == 0) {
+    xr[i] = xr_temp;
+    yr[i] = yr_temp;
+  }
+}
+
+float rand_distance_2D(float x_scan, float y_scan, float x_temp, float y_temp) {
+  return (sqrt((x_scan - x_temp) * (x_scan - x_temp) +
+               (y_scan - y_temp) * (y_scan - y_temp)));
+}
+
+void generate_random_3D(float x_min, float x_max, float y_min, float y_max,
+                        float z_min, float z_max, float radius, float *xr,
+                        float *yr, float *zr, int i) {
+  int scan;
+  float xr_temp, yr_temp, zr_temp;
+
+  xr_temp =
+      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (x_max - x_min) +
+      x_min;
+  yr_temp =
+      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (y_max - y_min) +
+      y_min;
+  zr_temp =
+      ((float)rand() / ((float)(RAND_MAX) + (float)(1))) * (z_max - z_min) +
+      z_min;
+
+  if (i > 0) {
+    while (1) {
+      for (scan = 0; scan < i; scan++)
+        if (rand_distance_3D(xr[scan], yr[scan], zr[scan], xr_temp, yr_temp,
+                             zr_temp) < 2 * radius) {
+          scan = -10;
+          break;
+        }
+
+      if (scan == i) {
+        xr[i] = xr_temp;
+        yr[i] = yr_temp;
+        zr[i] = zr_temp;
+        break; // out of the while loop
+      } else {
+        xr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
+                      (x_max - x_min) +
+                  x_min;
+        yr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
+                      (y_max - y_min) +
+                  y_min;
+        zr_temp = ((float)rand() / ((float)(RAND_MAX) + (float)(1))) *
+                      (z_max - z_min) +
+                  z_min;
+      }
+    }
+  }
+
+  if (i == 0) {
+    xr[i] = xr_temp;
+    yr[i] = yr_temp;
+    zr[i] = zr_temp;
+  }
+}
+
+float rand_distance_3D(float x_scan, float y_scan, float z_scan, float x_temp,
+                       float y_temp, float z_temp) {
+  return (sqrt((x_scan - x_temp) * (x_scan - x_temp) +
+               (y_scan - y_temp) * (y_scan - y_temp) +
+               (z_scan - z_temp) * (z_scan - z_temp)));
+}
+
+void make_epsilon() {
+  int i, j, k;
+
+  printf("-----------------------\n");
+  printf("making the epsilon...\n");
+
+  for (i = 0; i < misize; i++) {
+    printf("%d% \n", 100 * i / misize);
+
+    for (j = 0; j < mjsize; j++)
+      for (k = 0; k < mksize; k++) {
+        epsilonx[i][j][k] = average_epsilon(i + 0.5, j, k);
+        epsilony[i][j][k] = average_epsilon(i, j + 0.5, k);
+        epsilonz[i][j][k] = average_epsilon(i, j, k + 0.5);
+      }
+  }
+
+  free(object);
+
+  printf("make_epsilon...ok\n");
+}
+
+float average_epsilon(float i, float j, float k) {
+  int n, m, partial = 0;
+  float ii, jj, kk, epsilon, partial_epsilon[1000];
+
+  epsilon = back_epsilon;
+  for (m = 0; m < 1000; m++)
+    partial_epsilon[m] = back_epsilon;
+
+  for (n = 0; n < objectn; n++) {
+
+    if (in_object(n, i - 0.5, j - 0.5, k - 0.5) == 0 &&
+        in_object(n, i - 0.5, j - 0.5, k + 0.5) == 0 &&
+        in_object(n, i - 0.5, j + 0.5, k - 0.5) == 0 &&
+        in_object(n, i - 0.5, j + 0.5, k + 0.5) == 0 &&
+        in_object(n, i + 0.5, j - 0.5, k - 0.5) == 0 &&
+        in_object(n, i + 0.5, j - 0.5, k + 0.5) == 0 &&
+        in_object(n, i + 0.5, j + 0.5, k - 0.5) == 0 &&
+        in_object(n, i + 0.5, j + 0.5, k + 0.5) == 0)
+      ;
+
+    else if (in_object(n, i - 0.5, j - 0.5, k - 0.5) == 1 &&
+             in_object(n, i - 0.5, j - 0.5, k + 0.5) == 1 &&
+             in_object(n, i - 0.5, j + 0.5, k - 0.5) == 1 &&
+             in_object(n, i - 0.5, j + 0.5, k + 0.5) == 1 &&
+             in_object(n, i + 0.5, j - 0.5, k - 0.5) == 1 &&
+             in_object(n, i + 0.5, j - 0.5, k + 0.5) == 1 &&
+             in_object(n, i + 0.5, j + 0.5, k - 0.5) == 1 &&
+             in_object(n, i + 0.5, j + 0.5, k + 0.5) == 1) {
+      epsilon = object[n].epsilon;
+      for (m = 0; m < 1000; m++)
+        partial_epsilon[m] = object[n].epsilon;
+      partial = 0;
+    }
+
+    else {
+      for (m = 0, ii = i - 0.45; ii < i + 0.5; ii = ii + 0.1)
+        for (jj = j - 0.45; jj < j + 0.5; jj = jj + 0.1)
+          for (kk = k - 0.45; kk < k + 0.5; kk = kk + 0.1, m++)
+            if (in_object(n, ii, jj, kk) == 1)
+              partial_epsilon[m] = object[n].epsilon;
+      partial = 1;
+    }
+  }
+
+  if (partial == 1)
+    for (epsilon = 0, m = 0; m < 1000; m++)
+      epsilon = epsilon + partial_epsilon[m] / 1000;
+
+  return epsilon;
+}
+
+int in_object(int n, float i, float j, float k) {
+  int I, J;
+  float X, Y, Z;
+  float temp;
+
+  if (strcmp(object[n].shape, "Rrod") != 0 &&
+      strcmp(object[n].shape, "Rellipse") != 0 &&
+      strcmp(object[n].shape, "Rellipsoidal") != 0 &&
+      strcmp(object[n].shape, "Rblock") != 0) {
+    if (strcmp(object[n].shape, "rod") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) <=
+              object[n].size1 * object[n].size1 &&
+          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <= k &&
+          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "rodX") == 0) {
+      if ((j - object[n].centerj) * (j - object[n].centerj) +
+                  (k - object[n].centerk) * (k - object[n].centerk) <=
+              object[n].size1 * object[n].size1 &&
+          object[n].centeri - object[n].size2 / 2 <= i &&
+          i <= object[n].centeri + object[n].size2 / 2)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "rodY") == 0) {
+      if ((k - object[n].centerk) * (k - object[n].centerk) +
+                  (i - object[n].centeri) * (i - object[n].centeri) <=
+              object[n].size1 * object[n].size1 &&
+          object[n].centerj - object[n].size2 / 2 <= j &&
+          j <= object[n].centerj + object[n].size2 / 2)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "donut") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) >=
+              object[n].size1 * object[n].size1 &&
+          (i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) <=
+              object[n].size2 * object[n].size2 &&
+          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3) <= k &&
+          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3))
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "sphere") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+              (j - object[n].centerj) * (j - object[n].centerj) +
+              (k - object[n].centerk) * (k - object[n].centerk) <=
+          object[n].size1 * object[n].size1)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "shell") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) +
+                  (k - object[n].centerk) * (k - object[n].centerk) >=
+              object[n].size1 * object[n].size1 &&
+          (i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) +
+                  (k - object[n].centerk) * (k - object[n].centerk) <=
+              object[n].size2 * object[n].size2)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "ellipse") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) /
+                      (object[n].size3 * object[n].size3) <=
+              object[n].size1 * object[n].size1 &&
+          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <= k &&
+          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "ellipsoidal") == 0) {
+      if ((i - object[n].centeri) * (i - object[n].centeri) /
+                  ((object[n].size1) * (object[n].size1)) +
+              (j - object[n].centerj) * (j - object[n].centerj) /
+                  ((object[n].size2) * (object[n].size2)) +
+              (k - object[n].centerk) * (k - object[n].centerk) /
+                  ((object[n].size3) * (object[n].size3)) <=
+          1)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "cone") == 0) {
+      ///////////////////////////////////////////////
+      //  object[n].centerk & object[n].size3 --> in units of z
+      //  size3 : height
+      ///////////////////////////////////////////////
+      temp = (object[n].size1 - object[n].size2) *
+                 (non_uniform_i_to_z(k) - object[n].centerk) / object[n].size3 +
+             0.5 * (object[n].size1 +
+                    object[n].size2); // radius varying as a function of 'k'
+
+      if ((i - object[n].centeri) * (i - object[n].centeri) +
+                  (j - object[n].centerj) * (j - object[n].centerj) <=
+              temp * temp &&
+          (k <=
+           non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3)) &&
+          (k >= non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3)))
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "block") == 0) {
+      if (object[n].centeri - object[n].size1 / 2 <= i &&
+          i <= object[n].centeri + object[n].size1 / 2 &&
+          object[n].centerj - object[n].size2 / 2 <= j &&
+          j <= object[n].centerj + object[n].size2 / 2 &&
+          non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size3) <= k &&
+          k <= non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size3))
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "contour") == 0) {
+      if ((-object[n].centeri * CUTFACTOR <=
+           (i - (xcenter * lattice_x)) / object[n].size3) &&
+          ((i - (xcenter * lattice_x)) / object[n].size3 <=
+           (object[n].col - object[n].centeri) * CUTFACTOR) &&
+          (-object[n].centerj * CUTFACTOR <=
+           (j - (ycenter * lattice_y)) / object[n].size3) &&
+          ((j - (ycenter * lattice_y)) / object[n].size3 <=
+           (object[n].row - object[n].centerj) * CUTFACTOR) &&
+          (non_uniform_z_to_i(object[n].centerk - 0.5 * object[n].size2) <=
+           k) &&
+          (k <=
+           non_uniform_z_to_i(object[n].centerk + 0.5 * object[n].size2))) {
+        I = floor(object[n].centeri +
+                  (i - (xcenter * lattice_x)) / object[n].size3);
+        J = floor(object[n].centerj +
+                  (j - (ycenter * lattice_y)) / object[n].size3);
+        if (I < object[n].col && J < object[n].row &&
+            object[n].matrix[I][J] <= object[n].size1)
+          return 1;
+        else
+          return 0;
+      } else
+        return 0;
+    } else {
+    }
+  } else
+  ////if(strcmp(object[n].shape,"Rrod")==0 ||
+  ///strcmp(object[n].shape,"Rellipse")==0 ||
+  ////strcmp(object[n].shape,"Rellipsoidal")==0 ||
+  ///strcmp(object[n].shape,"Rblock")==0)
+  {
+    //// Transform (i,j,k) --> (X,Y,Z), the coordinate with respect to the
+    ///object
+    X = (cos_a[n] * cos_c[n] - sin_a[n] * cos_b[n] * sin_c[n]) *
+            (i - object[n].centeri) +
+        (sin_a[n] * cos_c[n] + cos_a[n] * cos_b[n] * sin_c[n]) *
+            (j - object[n].centerj) +
+        (sin_b[n] * sin_c[n]) * (k - object[n].centerk) + object[n].centeri;
+    Y = -(cos_a[n] * sin_c[n] + sin_a[n] * cos_b[n] * cos_c[n]) *
+            (i - object[n].centeri) -
+        (sin_a[n] * sin_c[n] - cos_a[n] * cos_b[n] * cos_c[n]) *
+            (j - object[n].centerj) +
+        (sin_b[n] * cos_c[n]) * (k - object[n].centerk) + object[n].centerj;
+    Z = (sin_a[n] * sin_b[n]) * (i - object[n].centeri) -
+        (cos_a[n] * sin_b[n]) * (j - object[n].centerj) +
+        cos_b[n] * (k - object[n].centerk) + object[n].centerk;
+
+    if (strcmp(object[n].shape, "Rrod") == 0) {
+      if ((X - object[n].centeri) * (X - object[n].centeri) +
+                  (Y - object[n].centerj) * (Y - object[n].centerj) <=
+              object[n].size1 * object[n].size1 &&
+          object[n].centerk - object[n].size2 / 2 <= Z &&
+          Z <= object[n].centerk + object[n].size2 / 2)
+        return 1;
+      else
+        return 0;
+    }
+
+    if (strcmp(object[n].shape, "Rellipse") == 0) {
+      if ((X - object[n].centeri) * (X - object[n].centeri) +
+                  (Y - object[n].centerj) * (Y - object[n].centerj) /
+                      (object[n].size3 * object[n].size3) <=
+              object[n].size1 * object[n].size1 &&
+          object[n].centerk - object[n].size2 / 2 <= Z &&
+          Z <= object[n].centerk + object[n].size2 / 2)
+        return 1;
+      else
+        return 0;
+    }
+
+    if (strcmp(object[n].shape, "Rellipsoidal") == 0) {
+      if ((X - object[n].centeri) * (X - object[n].centeri) /
+                  ((object[n].size1) * (object[n].size1)) +
+              (Y - object[n].centerj) * (Y - object[n].centerj) /
+                  ((object[n].size2) * (object[n].size2)) +
+              (Z - object[n].centerk) * (Z - object[n].centerk) /
+                  ((object[n].size3) * (object[n].size3)) <=
+          1)
+        return 1;
+      else
+        return 0;
+    }
+
+    else if (strcmp(object[n].shape, "Rblock") == 0) {
+      if (object[n].centeri - object[n].size1 / 2 <= X &&
+          X <= object[n].centeri + object[n].size1 / 2 &&
+          object[n].centerj - object[n].size2 / 2 <= Y &&
+          Y <= object[n].centerj + object[n].size2 / 2 &&
+          object[n].centerk - object[n].size3 / 2 <= Z &&
+          Z <= object[n].centerk + object[n].size3 / 2)
+        return 1;
+      else
+        return 0;
+    }
+  }
+}
+
+void reading_matrix(char *matrix_file, int n) {
+  FILE *stream;
+  int i, j;
+  int col, row;
+  char ch;
+  char string[20];
+
+  stream = fopen(matrix_file, "rt");
+
+  col = 0;
+  row = 0;
+  /////// Counting row and col ///////
+  ch = getc(stream);
+  while (ch != EOF) {
+    if (ch == '\t')
+      col++;
+    if (ch == '\n') {
+      col++; // Origin standard (with TAB separation)
+      row++;
+    }
+    ch = getc(stream);
+  }
+  col = (int)(col / row); // in each row
+  printf("%s matrix file\n", matrix_file);
+  printf("  matrix col = %d\n", col);
+  printf("  matrix row = %d\n", row);
+  printf("\n");
+  fclose(stream);
+
+  object[n].col = col;
+  object[n].row = row;
+
+  //////// matrix memory allocation /////
+  object[n].matrix = (float **)malloc(sizeof(float *) * col);
+  for (i = 0; i < col; i++)
+    object[n].matrix[i] = (float *)malloc(sizeof(float) * row);
+
+  stream = fopen(matrix_file, "rt");
+  //////// Reading matrix file data //////
+  for (j = row - 1; j >= 0; j--) {
+    for (i = 0; i < col; i++) {
+      fscanf(stream, "%s", string);
+      object[n].matrix[i][j] = atof(string);
+    }
+  }
+
+  fclose(stream);
+}
diff --git a/openms/lib/fdtd/metalobj.c b/openms/lib/fdtd/metalobj.c
index 10c5a46..a059fd1 100755
--- a/openms/lib/fdtd/metalobj.c
+++ b/openms/lib/fdtd/metalobj.c
@@ -1,582 +1,582 @@
-#include "./pFDTD.h"
-
-int in_mobject(int n, float i, float j, float k);
-void reading_matrix_m(char *matrix_file, int n);
-int mobjn = 0;        // number of metal objects
-struct mobj *mobject; // declaration of 1D-array, 'mobject'
-
-// molecular objects
-void input_molecular(char *shape, float centerx, float centery, float centerz,
-                     float size1, float size2, float size3) {
-
-  mobjn++;
-
-  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
-  strcpy(mobject[mobjn - 1].shape, shape);
-
-  mobject[mobjn - 1].epsilon_b = 100;
-  mobject[mobjn - 1].omega_p = 0;
-  mobject[mobjn - 1].gamma_0 = 0;
-
-  printf("\n position of %d th molecular: \n", mobjn);
-
-  if (strcmp(shape, "point") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-
-    printf("%f %f \n", centerx, xcenter);
-    printf("%f \n", mobject[mobjn - 1].centeri);
-    printf("%f \n", mobject[mobjn - 1].centerj);
-    printf("%f \n", mobject[mobjn - 1].centerk);
-  } else {
-  }
-}
-
-void input_Drude_medium(char *shape, float centerx, float centery,
-                        float centerz, float size1, float size2, float size3,
-                        float epsilon_b, float omega_p, float gamma_0,
-                        float lattice_n) {
-  float omega_pn, gamma_0n; // reduced frequency, NOT normalized frequency
-
-  ////////////////////////////////////////////
-  /// How to convert into the reduced unit .
-  ////////////////////////////////////////////
-  /*
-          {phase change}=w_p * dt_R = w_F * dt_F
-           Here, w_p = angular frequency in unit of Hz
-                 dt_R = time step in unit of sec.
-                 w_F = reduced frequency in FDTD
-                 dt_F = FDTD time step 1
-           Remember that dt_F is NOT assumed to be 1
-                  BUT represented in unit of (sec q m^-1) (See Eq.49 of manual)
-
-           Now that,
-                 dt_F = 1/(c * S(q^-1))
-                 dt_R = 1/(c * S(m^-1))
-                      = 1/(c * S(q^-1) * ds_x * lattice_x / lattice_n )
-           Therefore we get,
-                 dt_R/dt_F = lattice_n/(ds_x*lattice_x)
-                 w_F = w_p * lattice_n/(ds_x*lattice_x)
-  ///////////////////////////////////////////////////// */
-
-  omega_pn = omega_p * lattice_n / (ds_x * lattice_x);
-  gamma_0n = gamma_0 * lattice_n / (ds_x * lattice_x);
-
-  if (mobjn == 0) // printf once!
-  {
-    printf("----------------\n", omega_pn);
-    printf("omega_pn = %g\n", omega_pn);
-    printf("gamma_0n = %g\n", gamma_0n);
-  }
-
-  mobjn++;
-
-  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
-
-  strcpy(mobject[mobjn - 1].shape, shape);
-
-  mobject[mobjn - 1].epsilon_b = epsilon_b;
-  mobject[mobjn - 1].omega_p = omega_pn; // conversion to 'FDTD' frequency
-  mobject[mobjn - 1].gamma_0 = gamma_0n; //         "      "
-
-  if (strcmp(shape, "rod") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 =
-        (size2); // height  // for non_uniform_grid(), the meaning changed
-  } else if (strcmp(shape, "rodX") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_y; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // x length
-  } else if (strcmp(shape, "rodY") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_y; // y length
-  } else if (strcmp(shape, "donut") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
-    mobject[mobjn - 1].size3 =
-        (size3); // height  // for non_uniform_grid(), the meaning changed
-  } else if (strcmp(shape, "sphere") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-  } else if (strcmp(shape, "shell") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
-  } else if (strcmp(shape, "ellipse") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 =
-        (size2); // height (centerz); // for non_uniform_grid() ....
-    mobject[mobjn - 1].size3 = size3; // aspect ratio=ry/rx
-  } else if (strcmp(shape, "ellipsoidal") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // rx
-    mobject[mobjn - 1].size2 = size2 * lattice_y; // ry
-    mobject[mobjn - 1].size3 = size3 * lattice_z; // rz
-  } else if (strcmp(shape, "cone") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz);       // for non_uniform_grid()
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // r1
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // r2
-    mobject[mobjn - 1].size3 = (size3); // for non_uniform_grid() // height
-  } else if (strcmp(shape, "block") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x;
-    mobject[mobjn - 1].size2 = size2 * lattice_y;
-    mobject[mobjn - 1].size3 =
-        (size3); // for non_uniform_grid(), the meaning changed
-  } else {
-  }
-}
-
-void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
-                         float centery, float centerz, float size1, float size2,
-                         float size3, float epsilon_b, float omega_p,
-                         float gamma_0, float lattice_n) {
-  float omega_pn, gamma_0n; // reduced frequency, NOT normalized frequency
-
-  ////////////////////////////////////////////
-  /// How to convert into the reduced unit .
-  ////////////////////////////////////////////
-  /*
-          {phase change}=w_p * dt_R = w_F * dt_F
-           Here, w_p = angular frequency in unit of Hz
-                 dt_R = time step in unit of sec.
-                 w_F = reduced frequency in FDTD
-                 dt_F = FDTD time step 1
-           Remember that dt_F is NOT assumed to be 1
-                  BUT represented in unit of (sec q m^-1) (See Eq.49 of manual)
-
-           Now that,
-                 dt_F = 1/(c * S(q^-1))
-                 dt_R = 1/(c * S(m^-1))
-                      = 1/(c * S(q^-1) * ds_x * lattice_x / lattice_n )
-           Therefore we get,
-                 dt_R/dt_F = lattice_n/(ds_x*lattice_x)
-                 w_F = w_p * lattice_n/(ds_x*lattice_x)
-  ///////////////////////////////////////////////////// */
-
-  omega_pn = omega_p * lattice_n / (ds_x * lattice_x);
-  gamma_0n = gamma_0 * lattice_n / (ds_x * lattice_x);
-
-  if (mobjn == 0) // printf once!
-  {
-    printf("----------------\n", omega_pn);
-    printf("omega_pn = %g\n", omega_pn);
-    printf("gamma_0n = %g\n", gamma_0n);
-  }
-
-  mobjn++;
-
-  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
-
-  strcpy(mobject[mobjn - 1].shape, shape);
-
-  mobject[mobjn - 1].epsilon_b = epsilon_b;
-  mobject[mobjn - 1].omega_p = omega_pn; // conversion to 'FDTD' frequency
-  mobject[mobjn - 1].gamma_0 = gamma_0n; //         "      "
-
-  if (strcmp(shape, "contour") == 0) //// from ver. 8.80
-  {
-    mobject[mobjn - 1].centeri = centerx; // matrix_center
-    mobject[mobjn - 1].centerj = centery; // matrix_center
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1; // discrimination level
-    mobject[mobjn - 1].size2 =
-        (size2);                      // height  // for non_uniform_grid() .....
-    mobject[mobjn - 1].size3 = size3; // compression factor
-    reading_matrix_m(matrix_file, mobjn - 1);
-  }
-  if (strcmp(shape, "rod") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 =
-        (size2); // height  // for non_uniform_grid(), the meaning changed
-  } else if (strcmp(shape, "rodX") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_y; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // x length
-  } else if (strcmp(shape, "rodY") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 = size2 * lattice_y; // y length
-  } else if (strcmp(shape, "donut") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
-    mobject[mobjn - 1].size3 =
-        (size3); // height  // for non_uniform_grid(), the meaning changed
-  } else if (strcmp(shape, "sphere") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-  } else if (strcmp(shape, "shell") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
-  } else if (strcmp(shape, "ellipse") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
-    mobject[mobjn - 1].size2 =
-        (size2); // height (centerz); // for non_uniform_grid() ....
-    mobject[mobjn - 1].size3 = size3; // aspect ratio=ry/rx
-  } else if (strcmp(shape, "ellipsoidal") ==
-             0) //// not applicable for non_uniform_grid()
-  {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // rx
-    mobject[mobjn - 1].size2 = size2 * lattice_y; // ry
-    mobject[mobjn - 1].size3 = size3 * lattice_z; // rz
-  } else if (strcmp(shape, "cone") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk = (centerz);       // for non_uniform_grid()
-    mobject[mobjn - 1].size1 = size1 * lattice_x; // r1
-    mobject[mobjn - 1].size2 = size2 * lattice_x; // r2
-    mobject[mobjn - 1].size3 = (size3); // for non_uniform_grid() // height
-  } else if (strcmp(shape, "block") == 0) {
-    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
-    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
-    mobject[mobjn - 1].centerk =
-        (centerz); // for non_uniform_grid(), the meaning changed
-    mobject[mobjn - 1].size1 = size1 * lattice_x;
-    mobject[mobjn - 1].size2 = size2 * lattice_y;
-    mobject[mobjn - 1].size3 =
-        (size3); // for non_uniform_grid(), the meaning changed
-  } else {
-  }
-}
-
-void make_metal_structure() {
-  int i, j, k;
-  int n;
-
-  float me, mw, mr;
-
-  printf("-------------------------------\n");
-  printf("making the metal structure...\n");
-
-  ///////////////////////////////////////////////////
-  ///        Medium Rules for (i,j,k)             ///
-  ///---------------------------------            ///
-  ///  mepsilon=momega= 0.0 --> dielectric        ///
-  ///  mepsilon!=0.0 --> metal                    ///
-  ///  mepsilon=1000 --> PCM                      ///
-  ///  mepsilon=0.0 & momega=0.0 --> metal eraser ///
-  ///////////////////////////////////////////////////
-
-  for (i = 0; i < misize; i++) {
-    printf("%d% \n", 100 * i / misize);
-
-    for (j = 0; j < mjsize; j++)
-      for (k = 0; k < mksize; k++) {
-        me = mw = mr = 0.0; // initialization : non-metal
-        for (n = 0; n < mobjn; n++)
-          if (in_mobject(n, i, j, k) == 1) {
-            me = mobject[n].epsilon_b;
-            mw = mobject[n].omega_p;
-            mr = mobject[n].gamma_0;
-          }
-        mepsilon[i][j][k] = me;
-        momega[i][j][k] = mw;
-        mgamma[i][j][k] = mr;
-      }
-  }
-
-  free(mobject);
-
-  printf("make_metal_structure...ok\n");
-}
-
-int in_mobject(int n, float i, float j, float k) {
-  int I, J;
-  float X, Y, Z;
-  float temp;
-
-  if (strcmp(mobject[n].shape, "rod") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
-            mobject[n].size1 * mobject[n].size1 &&
-        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <= k &&
-        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "point") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) < 1.E-6) {
-      if ((j - mobject[n].centerj) * (j - mobject[n].centerj) < 1.E-6 &&
-          (k - mobject[n].centerk) * (k - mobject[n].centerk) < 1.E-6)
-        printf("test1 %f %f %f \n", i, j, k);
-    }
-
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-            (j - mobject[n].centerj) * (j - mobject[n].centerj) +
-            (k - mobject[n].centerk) * (k - mobject[n].centerk) <
-        1.E-6)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "rodX") == 0) {
-    if ((j - mobject[n].centerj) * (j - mobject[n].centerj) +
-                (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
-            mobject[n].size1 * mobject[n].size1 &&
-        mobject[n].centeri - mobject[n].size2 / 2 <= i &&
-        i <= mobject[n].centeri + mobject[n].size2 / 2)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "rodY") == 0) {
-    if ((k - mobject[n].centerk) * (k - mobject[n].centerk) +
-                (i - mobject[n].centeri) * (i - mobject[n].centeri) <=
-            mobject[n].size1 * mobject[n].size1 &&
-        mobject[n].centerj - mobject[n].size2 / 2 <= j &&
-        j <= mobject[n].centerj + mobject[n].size2 / 2)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "donut") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) >=
-            mobject[n].size1 * mobject[n].size1 &&
-        (i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
-            mobject[n].size2 * mobject[n].size2 &&
-        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3) <= k &&
-        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3))
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "sphere") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-            (j - mobject[n].centerj) * (j - mobject[n].centerj) +
-            (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
-        mobject[n].size1 * mobject[n].size1)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "shell") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) +
-                (k - mobject[n].centerk) * (k - mobject[n].centerk) >=
-            mobject[n].size1 * mobject[n].size1 &&
-        (i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) +
-                (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
-            mobject[n].size2 * mobject[n].size2)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "ellipse") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) /
-                    (mobject[n].size3 * mobject[n].size3) <=
-            mobject[n].size1 * mobject[n].size1 &&
-        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <= k &&
-        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "ellipsoidal") == 0) {
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) /
-                ((mobject[n].size1) * (mobject[n].size1)) +
-            (j - mobject[n].centerj) * (j - mobject[n].centerj) /
-                ((mobject[n].size2) * (mobject[n].size2)) +
-            (k - mobject[n].centerk) * (k - mobject[n].centerk) /
-                ((mobject[n].size3) * (mobject[n].size3)) <=
-        1)
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "cone") == 0) {
-    ///////////////////////////////////////////////
-    //  mobject[n].centerk & mobject[n].size3 --> in units of z
-    //  size3 : height
-    ///////////////////////////////////////////////
-    temp = (mobject[n].size1 - mobject[n].size2) *
-               (non_uniform_i_to_z(k) - mobject[n].centerk) / mobject[n].size3 +
-           0.5 * (mobject[n].size1 +
-                  mobject[n].size2); // radius varying as a function of 'k'
-
-    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
-                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
-            temp * temp &&
-        (k <=
-         non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3)) &&
-        (k >= non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3)))
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "block") == 0) {
-    if (mobject[n].centeri - mobject[n].size1 / 2 <= i &&
-        i <= mobject[n].centeri + mobject[n].size1 / 2 &&
-        mobject[n].centerj - mobject[n].size2 / 2 <= j &&
-        j <= mobject[n].centerj + mobject[n].size2 / 2 &&
-        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3) <= k &&
-        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3))
-      return 1;
-    else
-      return 0;
-  }
-
-  else if (strcmp(mobject[n].shape, "contour") == 0) {
-    if ((-mobject[n].centeri * CUTFACTOR <=
-         (i - (xcenter * lattice_x)) / mobject[n].size3) &&
-        ((i - (xcenter * lattice_x)) / mobject[n].size3 <=
-         (mobject[n].col - mobject[n].centeri) * CUTFACTOR) &&
-        (-mobject[n].centerj * CUTFACTOR <=
-         (j - (ycenter * lattice_y)) / mobject[n].size3) &&
-        ((j - (ycenter * lattice_y)) / mobject[n].size3 <=
-         (mobject[n].row - mobject[n].centerj) * CUTFACTOR) &&
-        (non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <=
-         k) &&
-        (k <=
-         non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))) {
-      I = floor(mobject[n].centeri +
-                (i - (xcenter * lattice_x)) / mobject[n].size3);
-      J = floor(mobject[n].centerj +
-                (j - (ycenter * lattice_y)) / mobject[n].size3);
-      if (I < mobject[n].col && J < mobject[n].row &&
-          mobject[n].matrix[I][J] <= mobject[n].size1)
-        return 1;
-      else
-        return 0;
-    } else
-      return 0;
-  }
-
-  else {
-  }
-}
-
-void reading_matrix_m(char *matrix_file, int n) {
-  FILE *stream;
-  int i, j;
-  int col, row;
-  char ch;
-  char string[20];
-
-  stream = fopen(matrix_file, "rt");
-
-  col = 0;
-  row = 0;
-  /////// Counting row and col ///////
-  ch = getc(stream);
-  while (ch != EOF) {
-    if (ch == '\t')
-      col++;
-    if (ch == '\n') {
-      col++; // Origin standard (with TAB separation)
-      row++;
-    }
-    ch = getc(stream);
-  }
-  col = (int)(col / row); // in each row
-  printf("%s matrix file\n", matrix_file);
-  printf("  matrix col = %d\n", col);
-  printf("  matrix row = %d\n", row);
-  printf("\n");
-  fclose(stream);
-
-  mobject[n].col = col;
-  mobject[n].row = row;
-
-  //////// matrix memory allocation /////
-  mobject[n].matrix = (float **)malloc(sizeof(float *) * col);
-  for (i = 0; i < col; i++)
-    mobject[n].matrix[i] = (float *)malloc(sizeof(float) * row);
-
-  stream = fopen(matrix_file, "rt");
-  //////// Reading matrix file data //////
-  for (j = row - 1; j >= 0; j--) {
-    for (i = 0; i < col; i++) {
-      fscanf(stream, "%s", string);
-      mobject[n].matrix[i][j] = atof(string);
-    }
-  }
-
-  fclose(stream);
-}
+#include "./pFDTD.h"
+
+int in_mobject(int n, float i, float j, float k);
+void reading_matrix_m(char *matrix_file, int n);
+int mobjn = 0;        // number of metal objects
+struct mobj *mobject; // declaration of 1D-array, 'mobject'
+
+// molecular objects
+void input_molecular(char *shape, float centerx, float centery, float centerz,
+                     float size1, float size2, float size3) {
+
+  mobjn++;
+
+  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
+  strcpy(mobject[mobjn - 1].shape, shape);
+
+  mobject[mobjn - 1].epsilon_b = 100;
+  mobject[mobjn - 1].omega_p = 0;
+  mobject[mobjn - 1].gamma_0 = 0;
+
+  printf("\n position of %d th molecular: \n", mobjn);
+
+  if (strcmp(shape, "point") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+
+    printf("%f %f \n", centerx, xcenter);
+    printf("%f \n", mobject[mobjn - 1].centeri);
+    printf("%f \n", mobject[mobjn - 1].centerj);
+    printf("%f \n", mobject[mobjn - 1].centerk);
+  } else {
+  }
+}
+
+void input_Drude_medium(char *shape, float centerx, float centery,
+                        float centerz, float size1, float size2, float size3,
+                        float epsilon_b, float omega_p, float gamma_0,
+                        float lattice_n) {
+  float omega_pn, gamma_0n; // reduced frequency, NOT normalized frequency
+
+  ////////////////////////////////////////////
+  /// How to convert into the reduced unit .
+  ////////////////////////////////////////////
+  /*
+          {phase change}=w_p * dt_R = w_F * dt_F
+           Here, w_p = angular frequency in unit of Hz
+                 dt_R = time step in unit of sec.
+                 w_F = reduced frequency in FDTD
+                 dt_F = FDTD time step 1
+           Remember that dt_F is NOT assumed to be 1
+                  BUT represented in unit of (sec q m^-1) (See Eq.49 of manual)
+
+           Now that,
+                 dt_F = 1/(c * S(q^-1))
+                 dt_R = 1/(c * S(m^-1))
+                      = 1/(c * S(q^-1) * ds_x * lattice_x / lattice_n )
+           Therefore we get,
+                 dt_R/dt_F = lattice_n/(ds_x*lattice_x)
+                 w_F = w_p * lattice_n/(ds_x*lattice_x)
+  ///////////////////////////////////////////////////// */
+
+  omega_pn = omega_p * lattice_n / (ds_x * lattice_x);
+  gamma_0n = gamma_0 * lattice_n / (ds_x * lattice_x);
+
+  if (mobjn == 0) // printf once!
+  {
+    printf("----------------\n", omega_pn);
+    printf("omega_pn = %g\n", omega_pn);
+    printf("gamma_0n = %g\n", gamma_0n);
+  }
+
+  mobjn++;
+
+  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
+
+  strcpy(mobject[mobjn - 1].shape, shape);
+
+  mobject[mobjn - 1].epsilon_b = epsilon_b;
+  mobject[mobjn - 1].omega_p = omega_pn; // conversion to 'FDTD' frequency
+  mobject[mobjn - 1].gamma_0 = gamma_0n; //         "      "
+
+  if (strcmp(shape, "rod") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 =
+        (size2); // height  // for non_uniform_grid(), the meaning changed
+  } else if (strcmp(shape, "rodX") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_y; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // x length
+  } else if (strcmp(shape, "rodY") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_y; // y length
+  } else if (strcmp(shape, "donut") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
+    mobject[mobjn - 1].size3 =
+        (size3); // height  // for non_uniform_grid(), the meaning changed
+  } else if (strcmp(shape, "sphere") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+  } else if (strcmp(shape, "shell") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
+  } else if (strcmp(shape, "ellipse") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 =
+        (size2); // height (centerz); // for non_uniform_grid() ....
+    mobject[mobjn - 1].size3 = size3; // aspect ratio=ry/rx
+  } else if (strcmp(shape, "ellipsoidal") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // rx
+    mobject[mobjn - 1].size2 = size2 * lattice_y; // ry
+    mobject[mobjn - 1].size3 = size3 * lattice_z; // rz
+  } else if (strcmp(shape, "cone") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz);       // for non_uniform_grid()
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // r1
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // r2
+    mobject[mobjn - 1].size3 = (size3); // for non_uniform_grid() // height
+  } else if (strcmp(shape, "block") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x;
+    mobject[mobjn - 1].size2 = size2 * lattice_y;
+    mobject[mobjn - 1].size3 =
+        (size3); // for non_uniform_grid(), the meaning changed
+  } else {
+  }
+}
+
+void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
+                         float centery, float centerz, float size1, float size2,
+                         float size3, float epsilon_b, float omega_p,
+                         float gamma_0, float lattice_n) {
+  float omega_pn, gamma_0n; // reduced frequency, NOT normalized frequency
+
+  ////////////////////////////////////////////
+  /// How to convert into the reduced unit .
+  ////////////////////////////////////////////
+  /*
+          {phase change}=w_p * dt_R = w_F * dt_F
+           Here, w_p = angular frequency in unit of Hz
+                 dt_R = time step in unit of sec.
+                 w_F = reduced frequency in FDTD
+                 dt_F = FDTD time step 1
+           Remember that dt_F is NOT assumed to be 1
+                  BUT represented in unit of (sec q m^-1) (See Eq.49 of manual)
+
+           Now that,
+                 dt_F = 1/(c * S(q^-1))
+                 dt_R = 1/(c * S(m^-1))
+                      = 1/(c * S(q^-1) * ds_x * lattice_x / lattice_n )
+           Therefore we get,
+                 dt_R/dt_F = lattice_n/(ds_x*lattice_x)
+                 w_F = w_p * lattice_n/(ds_x*lattice_x)
+  ///////////////////////////////////////////////////// */
+
+  omega_pn = omega_p * lattice_n / (ds_x * lattice_x);
+  gamma_0n = gamma_0 * lattice_n / (ds_x * lattice_x);
+
+  if (mobjn == 0) // printf once!
+  {
+    printf("----------------\n", omega_pn);
+    printf("omega_pn = %g\n", omega_pn);
+    printf("gamma_0n = %g\n", gamma_0n);
+  }
+
+  mobjn++;
+
+  mobject = (struct mobj *)realloc(mobject, sizeof(struct mobj) * mobjn);
+
+  strcpy(mobject[mobjn - 1].shape, shape);
+
+  mobject[mobjn - 1].epsilon_b = epsilon_b;
+  mobject[mobjn - 1].omega_p = omega_pn; // conversion to 'FDTD' frequency
+  mobject[mobjn - 1].gamma_0 = gamma_0n; //         "      "
+
+  if (strcmp(shape, "contour") == 0) //// from ver. 8.80
+  {
+    mobject[mobjn - 1].centeri = centerx; // matrix_center
+    mobject[mobjn - 1].centerj = centery; // matrix_center
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1; // discrimination level
+    mobject[mobjn - 1].size2 =
+        (size2);                      // height  // for non_uniform_grid() .....
+    mobject[mobjn - 1].size3 = size3; // compression factor
+    reading_matrix_m(matrix_file, mobjn - 1);
+  }
+  if (strcmp(shape, "rod") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 =
+        (size2); // height  // for non_uniform_grid(), the meaning changed
+  } else if (strcmp(shape, "rodX") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_y; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // x length
+  } else if (strcmp(shape, "rodY") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 = size2 * lattice_y; // y length
+  } else if (strcmp(shape, "donut") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
+    mobject[mobjn - 1].size3 =
+        (size3); // height  // for non_uniform_grid(), the meaning changed
+  } else if (strcmp(shape, "sphere") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+  } else if (strcmp(shape, "shell") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // inner radius
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // outer radius
+  } else if (strcmp(shape, "ellipse") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // radius
+    mobject[mobjn - 1].size2 =
+        (size2); // height (centerz); // for non_uniform_grid() ....
+    mobject[mobjn - 1].size3 = size3; // aspect ratio=ry/rx
+  } else if (strcmp(shape, "ellipsoidal") ==
+             0) //// not applicable for non_uniform_grid()
+  {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz + zcenter) * lattice_z;
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // rx
+    mobject[mobjn - 1].size2 = size2 * lattice_y; // ry
+    mobject[mobjn - 1].size3 = size3 * lattice_z; // rz
+  } else if (strcmp(shape, "cone") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk = (centerz);       // for non_uniform_grid()
+    mobject[mobjn - 1].size1 = size1 * lattice_x; // r1
+    mobject[mobjn - 1].size2 = size2 * lattice_x; // r2
+    mobject[mobjn - 1].size3 = (size3); // for non_uniform_grid() // height
+  } else if (strcmp(shape, "block") == 0) {
+    mobject[mobjn - 1].centeri = (centerx + xcenter) * lattice_x;
+    mobject[mobjn - 1].centerj = (centery + ycenter) * lattice_y;
+    mobject[mobjn - 1].centerk =
+        (centerz); // for non_uniform_grid(), the meaning changed
+    mobject[mobjn - 1].size1 = size1 * lattice_x;
+    mobject[mobjn - 1].size2 = size2 * lattice_y;
+    mobject[mobjn - 1].size3 =
+        (size3); // for non_uniform_grid(), the meaning changed
+  } else {
+  }
+}
+
+void make_metal_structure() {
+  int i, j, k;
+  int n;
+
+  float me, mw, mr;
+
+  printf("-------------------------------\n");
+  printf("making the metal structure...\n");
+
+  ///////////////////////////////////////////////////
+  ///        Medium Rules for (i,j,k)             ///
+  ///---------------------------------            ///
+  ///  mepsilon=momega= 0.0 --> dielectric        ///
+  ///  mepsilon!=0.0 --> metal                    ///
+  ///  mepsilon=1000 --> PCM                      ///
+  ///  mepsilon=0.0 & momega=0.0 --> metal eraser ///
+  ///////////////////////////////////////////////////
+
+  for (i = 0; i < misize; i++) {
+    printf("%d% \n", 100 * i / misize);
+
+    for (j = 0; j < mjsize; j++)
+      for (k = 0; k < mksize; k++) {
+        me = mw = mr = 0.0; // initialization : non-metal
+        for (n = 0; n < mobjn; n++)
+          if (in_mobject(n, i, j, k) == 1) {
+            me = mobject[n].epsilon_b;
+            mw = mobject[n].omega_p;
+            mr = mobject[n].gamma_0;
+          }
+        mepsilon[i][j][k] = me;
+        momega[i][j][k] = mw;
+        mgamma[i][j][k] = mr;
+      }
+  }
+
+  free(mobject);
+
+  printf("make_metal_structure...ok\n");
+}
+
+int in_mobject(int n, float i, float j, float k) {
+  int I, J;
+  float X, Y, Z;
+  float temp;
+
+  if (strcmp(mobject[n].shape, "rod") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
+            mobject[n].size1 * mobject[n].size1 &&
+        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <= k &&
+        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "point") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) < 1.E-6) {
+      if ((j - mobject[n].centerj) * (j - mobject[n].centerj) < 1.E-6 &&
+          (k - mobject[n].centerk) * (k - mobject[n].centerk) < 1.E-6)
+        printf("test1 %f %f %f \n", i, j, k);
+    }
+
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+            (j - mobject[n].centerj) * (j - mobject[n].centerj) +
+            (k - mobject[n].centerk) * (k - mobject[n].centerk) <
+        1.E-6)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "rodX") == 0) {
+    if ((j - mobject[n].centerj) * (j - mobject[n].centerj) +
+                (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
+            mobject[n].size1 * mobject[n].size1 &&
+        mobject[n].centeri - mobject[n].size2 / 2 <= i &&
+        i <= mobject[n].centeri + mobject[n].size2 / 2)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "rodY") == 0) {
+    if ((k - mobject[n].centerk) * (k - mobject[n].centerk) +
+                (i - mobject[n].centeri) * (i - mobject[n].centeri) <=
+            mobject[n].size1 * mobject[n].size1 &&
+        mobject[n].centerj - mobject[n].size2 / 2 <= j &&
+        j <= mobject[n].centerj + mobject[n].size2 / 2)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "donut") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) >=
+            mobject[n].size1 * mobject[n].size1 &&
+        (i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
+            mobject[n].size2 * mobject[n].size2 &&
+        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3) <= k &&
+        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3))
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "sphere") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+            (j - mobject[n].centerj) * (j - mobject[n].centerj) +
+            (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
+        mobject[n].size1 * mobject[n].size1)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "shell") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) +
+                (k - mobject[n].centerk) * (k - mobject[n].centerk) >=
+            mobject[n].size1 * mobject[n].size1 &&
+        (i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) +
+                (k - mobject[n].centerk) * (k - mobject[n].centerk) <=
+            mobject[n].size2 * mobject[n].size2)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "ellipse") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) /
+                    (mobject[n].size3 * mobject[n].size3) <=
+            mobject[n].size1 * mobject[n].size1 &&
+        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <= k &&
+        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "ellipsoidal") == 0) {
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) /
+                ((mobject[n].size1) * (mobject[n].size1)) +
+            (j - mobject[n].centerj) * (j - mobject[n].centerj) /
+                ((mobject[n].size2) * (mobject[n].size2)) +
+            (k - mobject[n].centerk) * (k - mobject[n].centerk) /
+                ((mobject[n].size3) * (mobject[n].size3)) <=
+        1)
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "cone") == 0) {
+    ///////////////////////////////////////////////
+    //  mobject[n].centerk & mobject[n].size3 --> in units of z
+    //  size3 : height
+    ///////////////////////////////////////////////
+    temp = (mobject[n].size1 - mobject[n].size2) *
+               (non_uniform_i_to_z(k) - mobject[n].centerk) / mobject[n].size3 +
+           0.5 * (mobject[n].size1 +
+                  mobject[n].size2); // radius varying as a function of 'k'
+
+    if ((i - mobject[n].centeri) * (i - mobject[n].centeri) +
+                (j - mobject[n].centerj) * (j - mobject[n].centerj) <=
+            temp * temp &&
+        (k <=
+         non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3)) &&
+        (k >= non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3)))
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "block") == 0) {
+    if (mobject[n].centeri - mobject[n].size1 / 2 <= i &&
+        i <= mobject[n].centeri + mobject[n].size1 / 2 &&
+        mobject[n].centerj - mobject[n].size2 / 2 <= j &&
+        j <= mobject[n].centerj + mobject[n].size2 / 2 &&
+        non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size3) <= k &&
+        k <= non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size3))
+      return 1;
+    else
+      return 0;
+  }
+
+  else if (strcmp(mobject[n].shape, "contour") == 0) {
+    if ((-mobject[n].centeri * CUTFACTOR <=
+         (i - (xcenter * lattice_x)) / mobject[n].size3) &&
+        ((i - (xcenter * lattice_x)) / mobject[n].size3 <=
+         (mobject[n].col - mobject[n].centeri) * CUTFACTOR) &&
+        (-mobject[n].centerj * CUTFACTOR <=
+         (j - (ycenter * lattice_y)) / mobject[n].size3) &&
+        ((j - (ycenter * lattice_y)) / mobject[n].size3 <=
+         (mobject[n].row - mobject[n].centerj) * CUTFACTOR) &&
+        (non_uniform_z_to_i(mobject[n].centerk - 0.5 * mobject[n].size2) <=
+         k) &&
+        (k <=
+         non_uniform_z_to_i(mobject[n].centerk + 0.5 * mobject[n].size2))) {
+      I = floor(mobject[n].centeri +
+                (i - (xcenter * lattice_x)) / mobject[n].size3);
+      J = floor(mobject[n].centerj +
+                (j - (ycenter * lattice_y)) / mobject[n].size3);
+      if (I < mobject[n].col && J < mobject[n].row &&
+          mobject[n].matrix[I][J] <= mobject[n].size1)
+        return 1;
+      else
+        return 0;
+    } else
+      return 0;
+  }
+
+  else {
+  }
+}
+
+void reading_matrix_m(char *matrix_file, int n) {
+  FILE *stream;
+  int i, j;
+  int col, row;
+  char ch;
+  char string[20];
+
+  stream = fopen(matrix_file, "rt");
+
+  col = 0;
+  row = 0;
+  /////// Counting row and col ///////
+  ch = getc(stream);
+  while (ch != EOF) {
+    if (ch == '\t')
+      col++;
+    if (ch == '\n') {
+      col++; // Origin standard (with TAB separation)
+      row++;
+    }
+    ch = getc(stream);
+  }
+  col = (int)(col / row); // in each row
+  printf("%s matrix file\n", matrix_file);
+  printf("  matrix col = %d\n", col);
+  printf("  matrix row = %d\n", row);
+  printf("\n");
+  fclose(stream);
+
+  mobject[n].col = col;
+  mobject[n].row = row;
+
+  //////// matrix memory allocation /////
+  mobject[n].matrix = (float **)malloc(sizeof(float *) * col);
+  for (i = 0; i < col; i++)
+    mobject[n].matrix[i] = (float *)malloc(sizeof(float) * row);
+
+  stream = fopen(matrix_file, "rt");
+  //////// Reading matrix file data //////
+  for (j = row - 1; j >= 0; j--) {
+    for (i = 0; i < col; i++) {
+      fscanf(stream, "%s", string);
+      mobject[n].matrix[i][j] = atof(string);
+    }
+  }
+
+  fclose(stream);
+}
diff --git a/openms/lib/fdtd/pFDTD.h b/openms/lib/fdtd/pFDTD.h
index 25060e7..7957334 100755
--- a/openms/lib/fdtd/pFDTD.h
+++ b/openms/lib/fdtd/pFDTD.h
@@ -1,316 +1,316 @@
-
-/********************************************************************
-           3D Finite Difference Time Domain (FDTD)
----------------------------------------------------------------------
----------------------------------------------------------------------
-*/
-
-//-----------------------------------------------------------------//
-// Standard libraries in C
-//-----------------------------------------------------------------//
-
-#include <gsl/gsl_randist.h>
-#include <gsl/gsl_rng.h>
-#include <math.h>
-#include <stdio.h>
-#include <stdlib.h>
-#include <string.h>
-
-//-----------------------------------------------------------------//
-// Definitions of macros
-//-----------------------------------------------------------------//
-#define EMP 0           // for dummy input variables
-#define CUTFACTOR 1     // matrix data cutting parameter
-#define FALSE 0         // member variables for far_field_FFT(..)
-#define TRUE 1          // member variables for far_field_FFT(..)
-#define NR_END 1        // from numerical recipe, in memory.c
-#define FREE_ARG char * // from numerical recipe, in memory.c
-
-//-----------------------------------------------------------------//
-// Definitions of structures
-//-----------------------------------------------------------------//
-struct obj {
-  char shape[16];
-  float centeri;
-  float centerj;
-  float centerk;
-  float size1;
-  float size2;
-  float size3;
-  float epsilon;
-  float **matrix; // contour matrix data
-  int col;        // matrix col num
-  int row;        // matrix row num
-};
-
-struct mobj {
-  char shape[16];
-  float centeri;
-  float centerj;
-  float centerk;
-  float size1;     ///////////// Drude model /////////////////
-  float size2;     //                                       //
-  float size3;     //                    (omega_p)^2        //
-  float epsilon_b; //  eps(w) = eps_b - ------------------  //
-  float omega_p;   //                   w^2 + j w gamma_0   //
-  float gamma_0;   ///////////////////////////////////////////
-  float **matrix;  // contour matrix data
-  int col;         // matrix col num
-  int row;         // matrix row num
-};
-struct COMPLEX {
-  float real;
-  float imag;
-};
-struct ngrid_info // for non-uniform grid function
-{
-  int lattice_nz;
-  float nz_start;
-  float nz_end;
-};
-
-//-----------------------------------------------------------------//
-// functions
-//-----------------------------------------------------------------//
-void structure_size(float x, float y, float z);
-void lattice_size(int lx, int ly, int lz);
-void non_uniform_grid(char *component, float z_i, float z_f, int nlz);
-int non_uniform_z_to_i(float z);
-float non_uniform_i_to_z(int i);
-int ngrid_lattice_nz_z(float z);
-int ngrid_lattice_nz_i(int i);
-int find_max_lattice_nz();
-void pml_size(int il, int ir, int jl, int jr, int kl, int kr);
-void set_default_parameter(float S);
-void set_sigma_order(float oxl, float oxr, float oyl, float oyr, float ozl,
-                     float ozr);
-void set_sigma_max(float axl, float axr, float ayl, float ayr, float azl,
-                   float azr);
-void set_kappa(float kappa_x, float kappa_y, float kappa_z);
-void Hz_parity(int x, int y, int z);
-void periodic_boundary(int x_on, int y_on, float k_x, float k_y);
-void memory();
-void make_epsilon();
-void make_metal_structure();
-void background(float epsilon);
-void input_object(char *shape, char *matrix_file, float centerx, float centery,
-                  float centerz,
-                  float size1, // discrination level
-                  float size2, // height
-                  float size3, // compression factor
-                  float epsilon);
-void input_object_Euler_rotation(char *shape, char *matrix_file, float centerx,
-                                 float centery, float centerz, float size1,
-                                 float size2, float size3, float alpha,
-                                 float beta, float gamma, float epsilon);
-void input_molecular(char *shape, float centerx, float centery, float centerz,
-                     float size1, float size2, float size3);
-void input_Drude_medium(char *shape, float centerx, float centery,
-                        float centerz, float size1, float size2, float size3,
-                        float epsilon_b, float omega_p, float gamma_0,
-                        float lattice_n);
-void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
-                         float centery, float centerz, float size1, float size2,
-                         float size3, float epsilon_b, float omega_p,
-                         float gamma_0, float lattice_n);
-void random_object(char *shape, float radius, float height, float epsilon,
-                   float x_min, float x_max, float y_min, float y_max,
-                   float z_min, float z_max, int gen_number, int seed);
-void random_Gaussian_dipole(char *component, float frequency, float tdecay,
-                            float x_min, float x_max, float y_min, float y_max,
-                            float z_min, float z_max, int gen_number, int seed);
-void far_field_param(float *OMEGA, float DETECT);
-void make_2n_size(int NROW, int mm);
-void far_field_FFT(int NROW, float NA, float Nfree, float *OMEGA, int mm);
-void coefficient();
-void coefficient_cpml();
-float sigmax(float a);
-float sigmay(float a);
-float sigmaz(float a);
-float cpmlax(float a, float pmlbl, float pmlbr);
-float cpmlbx(float a, float pmlbl, float pmlbr);
-float kappa_x(float a, float pmlbl, float pmlbr);
-
-void propagate();
-void propagate_tri(); ///// for triangular lattice
-void Gaussian_dipole_source(char *component, float x, float y, float z,
-                            float frequency, float phaes, long to, long tdecay);
-void external_source(char *component, float x, float y, float z, float Ext);
-void external_planewave(char *Ecomp, char *Hcomp, float z, float Ext);
-void Gaussian_planewave(char *Ecomp, char *Hcomp, float position,
-                        float frequency, long to, long tdecay);
-void Gaussian_beam_prop_Gauss(char *Ecomp, char *Hcomp, float x, float y,
-                              float z, float z_c, float wo, float n,
-                              float frequency, long to, long tdecay);
-void Lorentzian_planewave(char *Ecomp, char *Hcomp, float position,
-                          float frequency, long to, long tdecay);
-void Gaussian_beam_prop_Lorentz(char *Ecomp, char *Hcomp, float x, float y,
-                                float z, float z_c, float wo, float n,
-                                float frequency, long to, long tdecay);
-void Gaussian_line_source(char *component, float position_x, float position_z,
-                          float frequency, float phase, long to, long tdecay);
-void Lorentzian_line_source(char *component, float position_x, float position_z,
-                            float frequency, float phase, long to, long tdecay);
-void Lorentzian_dipole_source(char *component, float x, float y, float z,
-                              float frequency, float phaes, long to,
-                              long tdecay);
-float Lorentzian_phase(float Wn, long tdecay);
-float Gaussian_phase(float Wn, long t_peak);
-void incoherent_point_dipole(char *function, float x, float y, float z,
-                             float frequency, long to, long tdecay, float t_mu,
-                             float sd);
-float eps(int i, int j, int k);
-float eps_m(int i, int j,
-            int k); // effective epsilon for Drude dispersive material
-float eps_m2(int i, int j, int k); // calculating kinetic energy of electrons
-float eps_m3(int i, int j, int k); // calculating potential energy of electrons
-float meps(int i, int j, int k);   // For Hz_parity()
-void out_epsilon(char *plane, float value, char *name);
-void out_epsilon_periodic(char *plane, float value, char *name, int m_h,
-                          int m_v);
-void out_epsilon_projection(char *dirc, char *name);
-void out_plane(char *component, char *plane, float value, char *lastname);
-void out_plane_projection(char *component, char *dirc, char *lastname,
-                          int k_shift);
-void out_plane_periodic(char *component, char *plane, float value,
-                        char *lastname, int m_h, int m_v);
-void out_plane_time_average(char *component, char *plane, float value,
-                            long start, long end, float ***field_avg,
-                            char *lastname);
-void out_plane_time_average_projection(char *component, char *dirc, long start,
-                                       long end, float ***field_avg,
-                                       char *lastname, int k_shift);
-void out_several_points(char *component, float zposition, float xside,
-                        float yside, int pNx, int pNy, long ti, long tf,
-                        char *name);
-void out_point(char *component, float x, float y, float z, long ti, long tf,
-               char *name);
-float grid_value(char *component, int i, int j, int k);
-void total_E_energy();
-void total_EM_energy();
-void total_E_energy_block(float centerx, float centery, float centerz,
-                          float size1, float size2, float size3);
-void total_E_energy2_block(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3);
-void total_E_energy3_block(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3);
-void total_E_energy_thin_block_z(float centerx, float centery, float centerz,
-                                 float size1, float size2, float size3,
-                                 float eps_L, float eps_H, char *name);
-void max_E_Energy_detector(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3);
-void total_EM_energy_block(float centerx, float centery, float centerz,
-                           float size1, float size2, float size3);
-void total_E2();
-void Drude_energy_loss_in_block(float centerx, float centery, float centerz,
-                                float size1, float size2, float size3);
-void Drude_energy_loss_in_block2(float centerx, float centery, float centerz,
-                                 float size1, float size2, float size3,
-                                 float WC, float lattice_n);
-void Poynting_total();
-void Poynting_block(float centerx, float centery, float centerz, float size1,
-                    float size2, float size3);
-float Poynting_half_sphere_point(char *component, float z0, float R,
-                                 float theta, float phi);
-void Poynting_side(float value, float zposition);
-void print_energy();
-void Poynting_UpDown(float value, float zposition);
-void free_3d_memory(float ***t, int nrh, int nch, int ndh);
-void transform_farfield(int NROW, int tnum, char *name, int mm);
-void add_farfield(int tnum, char *name);
-void print_amp_and_phase(int mm);
-void print_real_and_imag(int mm);
-void print_real_and_imag_2n_size(int NROW, int mm);
-void field_initialization();
-void real_space_param(float a_nm, float w_n);
-int get_period_in_update(float w_n);
-float Gauss_amp(float frequency, float phase, long to, long tdecay);
-float Lorentz_amp(float frequency, float phase, long to, long tdecay);
-float iGauss_amp(float frequency, float phase, long to, long tdecay);
-float iLorentz_amp(float frequency, float phase, long to, long tdecay);
-
-//-----------------------------------------------------------------//
-// extern variables
-//-----------------------------------------------------------------//
-/// in main.c ///
-extern float shift;
-extern int SpecN;
-extern long t;
-extern float Sumx, Sumy, Sumz, SideSumx, SideSumy;
-extern float SumUpper, SumLower;
-extern const gsl_rng_type *rng_type;
-extern gsl_rng *rng_r;
-
-/// in parameter.c ///
-extern int isize, jsize, ksize;
-extern int pmlil, pmlir, pmljl, pmljr, pmlkl, pmlkr;
-extern int lattice_x, lattice_y, lattice_z;
-extern int max_lattice_nz;
-extern float xsize, ysize, zsize;
-extern float xcenter, ycenter, zcenter;
-extern float kx, ky, kz;
-extern float orderxl, orderyl, orderzl;
-extern float orderxr, orderyr, orderzr;
-extern float sig_axl, sig_ayl, sig_azl;
-extern float sig_axr, sig_ayr, sig_azr;
-extern float ds_x, ds_y, ds_z, dt;
-extern float dt_nm;
-extern float *ds_nz;
-extern float S_factor;
-extern float pi, eo, uo, ups, light_speed;
-extern int misize, mjsize, mksize;
-extern int pisize, pjsize, pksize;
-extern int cisize, cjsize, cksize;
-extern int xparity, yparity, zparity;
-extern float wave_vector_x, wave_vector_y;
-extern int use_periodic_x, use_periodic_y;
-
-extern int m_pml, ma_pml;
-extern float sigmaCPML, alphaCPML, kappaCPML;
-
-/// in memory.c ///
-extern char ***position;
-extern float ***epsilonx, ***epsilony, ***epsilonz;
-extern float ***mepsilon, ***momega, ***mgamma;
-extern float ***Ex, ***Ey, ***Ez;
-extern float ***dPx, ***dPy, ***dPz;
-extern float ***dPx_old, ***dPy_old, ***dPz_old;
-extern float ***Jx, ***Jy, ***Jz;
-extern float ***Hx, ***Hy, ***Hz;
-extern float ***Dx, ***Dy, ***Dz;
-extern float ***Bx, ***By, ***Bz;
-extern float ***iEx, ***iEy, ***iEz;
-extern float ***iJx, ***iJy, ***iJz;
-extern float ***iHx, ***iHy, ***iHz;
-extern float ***iDx, ***iDy, ***iDz;
-extern float ***iBx, ***iBy, ***iBz;
-extern float *aax, *aay, *aaz;
-extern float *bbx, *bby, *bbz;
-extern float *ccx, *ccy, *ccz;
-extern float ***ddx, ***ddy, ***ddz;
-extern float *eex, *eey, *eez;
-extern float *ffx, *ffy, *ffz;
-extern float *ggx, *ggy, *ggz;
-extern float *hhx, *hhy, *hhz;
-extern float *iix, *iiy, *iiz;
-extern float *jjx, *jjy, *jjz;
-extern float *kkx, *kky, *kkz;
-extern float *llx, *lly, *llz;
-extern float ***Ex_cos, ***Ex_sin;
-extern float ***Ey_cos, ***Ey_sin;
-extern float ***Hx_cos, ***Hx_sin;
-extern float ***Hy_cos, ***Hy_sin;
-
-// cpml
-extern float ***psi_Exy, ***psi_Exz;
-extern float ***psi_Eyx, ***psi_Eyz;
-extern float ***psi_Ezy, ***psi_Ezx;
-extern float ***psi_Hxy, ***psi_Hxz;
-extern float ***psi_Hyx, ***psi_Hyz;
-extern float ***psi_Hzy, ***psi_Hzx;
-
-/// in input.c ///
-extern float back_epsilon;
-
-/// in output.c ///
-extern float global_W;
+
+/********************************************************************
+           3D Finite Difference Time Domain (FDTD)
+---------------------------------------------------------------------
+---------------------------------------------------------------------
+*/
+
+//-----------------------------------------------------------------//
+// Standard libraries in C
+//-----------------------------------------------------------------//
+
+#include <gsl/gsl_randist.h>
+#include <gsl/gsl_rng.h>
+#include <math.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+
+//-----------------------------------------------------------------//
+// Definitions of macros
+//-----------------------------------------------------------------//
+#define EMP 0           // for dummy input variables
+#define CUTFACTOR 1     // matrix data cutting parameter
+#define FALSE 0         // member variables for far_field_FFT(..)
+#define TRUE 1          // member variables for far_field_FFT(..)
+#define NR_END 1        // from numerical recipe, in memory.c
+#define FREE_ARG char * // from numerical recipe, in memory.c
+
+//-----------------------------------------------------------------//
+// Definitions of structures
+//-----------------------------------------------------------------//
+struct obj {
+  char shape[16];
+  float centeri;
+  float centerj;
+  float centerk;
+  float size1;
+  float size2;
+  float size3;
+  float epsilon;
+  float **matrix; // contour matrix data
+  int col;        // matrix col num
+  int row;        // matrix row num
+};
+
+struct mobj {
+  char shape[16];
+  float centeri;
+  float centerj;
+  float centerk;
+  float size1;     ///////////// Drude model /////////////////
+  float size2;     //                                       //
+  float size3;     //                    (omega_p)^2        //
+  float epsilon_b; //  eps(w) = eps_b - ------------------  //
+  float omega_p;   //                   w^2 + j w gamma_0   //
+  float gamma_0;   ///////////////////////////////////////////
+  float **matrix;  // contour matrix data
+  int col;         // matrix col num
+  int row;         // matrix row num
+};
+struct COMPLEX {
+  float real;
+  float imag;
+};
+struct ngrid_info // for non-uniform grid function
+{
+  int lattice_nz;
+  float nz_start;
+  float nz_end;
+};
+
+//-----------------------------------------------------------------//
+// functions
+//-----------------------------------------------------------------//
+void structure_size(float x, float y, float z);
+void lattice_size(int lx, int ly, int lz);
+void non_uniform_grid(char *component, float z_i, float z_f, int nlz);
+int non_uniform_z_to_i(float z);
+float non_uniform_i_to_z(int i);
+int ngrid_lattice_nz_z(float z);
+int ngrid_lattice_nz_i(int i);
+int find_max_lattice_nz();
+void pml_size(int il, int ir, int jl, int jr, int kl, int kr);
+void set_default_parameter(float S);
+void set_sigma_order(float oxl, float oxr, float oyl, float oyr, float ozl,
+                     float ozr);
+void set_sigma_max(float axl, float axr, float ayl, float ayr, float azl,
+                   float azr);
+void set_kappa(float kappa_x, float kappa_y, float kappa_z);
+void Hz_parity(int x, int y, int z);
+void periodic_boundary(int x_on, int y_on, float k_x, float k_y);
+void memory();
+void make_epsilon();
+void make_metal_structure();
+void background(float epsilon);
+void input_object(char *shape, char *matrix_file, float centerx, float centery,
+                  float centerz,
+                  float size1, // discrination level
+                  float size2, // height
+                  float size3, // compression factor
+                  float epsilon);
+void input_object_Euler_rotation(char *shape, char *matrix_file, float centerx,
+                                 float centery, float centerz, float size1,
+                                 float size2, float size3, float alpha,
+                                 float beta, float gamma, float epsilon);
+void input_molecular(char *shape, float centerx, float centery, float centerz,
+                     float size1, float size2, float size3);
+void input_Drude_medium(char *shape, float centerx, float centery,
+                        float centerz, float size1, float size2, float size3,
+                        float epsilon_b, float omega_p, float gamma_0,
+                        float lattice_n);
+void input_Drude_medium2(char *shape, char *matrix_file, float centerx,
+                         float centery, float centerz, float size1, float size2,
+                         float size3, float epsilon_b, float omega_p,
+                         float gamma_0, float lattice_n);
+void random_object(char *shape, float radius, float height, float epsilon,
+                   float x_min, float x_max, float y_min, float y_max,
+                   float z_min, float z_max, int gen_number, int seed);
+void random_Gaussian_dipole(char *component, float frequency, float tdecay,
+                            float x_min, float x_max, float y_min, float y_max,
+                            float z_min, float z_max, int gen_number, int seed);
+void far_field_param(float *OMEGA, float DETECT);
+void make_2n_size(int NROW, int mm);
+void far_field_FFT(int NROW, float NA, float Nfree, float *OMEGA, int mm);
+void coefficient();
+void coefficient_cpml();
+float sigmax(float a);
+float sigmay(float a);
+float sigmaz(float a);
+float cpmlax(float a, float pmlbl, float pmlbr);
+float cpmlbx(float a, float pmlbl, float pmlbr);
+float kappa_x(float a, float pmlbl, float pmlbr);
+
+void propagate();
+void propagate_tri(); ///// for triangular lattice
+void Gaussian_dipole_source(char *component, float x, float y, float z,
+                            float frequency, float phaes, long to, long tdecay);
+void external_source(char *component, float x, float y, float z, float Ext);
+void external_planewave(char *Ecomp, char *Hcomp, float z, float Ext);
+void Gaussian_planewave(char *Ecomp, char *Hcomp, float position,
+                        float frequency, long to, long tdecay);
+void Gaussian_beam_prop_Gauss(char *Ecomp, char *Hcomp, float x, float y,
+                              float z, float z_c, float wo, float n,
+                              float frequency, long to, long tdecay);
+void Lorentzian_planewave(char *Ecomp, char *Hcomp, float position,
+                          float frequency, long to, long tdecay);
+void Gaussian_beam_prop_Lorentz(char *Ecomp, char *Hcomp, float x, float y,
+                                float z, float z_c, float wo, float n,
+                                float frequency, long to, long tdecay);
+void Gaussian_line_source(char *component, float position_x, float position_z,
+                          float frequency, float phase, long to, long tdecay);
+void Lorentzian_line_source(char *component, float position_x, float position_z,
+                            float frequency, float phase, long to, long tdecay);
+void Lorentzian_dipole_source(char *component, float x, float y, float z,
+                              float frequency, float phaes, long to,
+                              long tdecay);
+float Lorentzian_phase(float Wn, long tdecay);
+float Gaussian_phase(float Wn, long t_peak);
+void incoherent_point_dipole(char *function, float x, float y, float z,
+                             float frequency, long to, long tdecay, float t_mu,
+                             float sd);
+float eps(int i, int j, int k);
+float eps_m(int i, int j,
+            int k); // effective epsilon for Drude dispersive material
+float eps_m2(int i, int j, int k); // calculating kinetic energy of electrons
+float eps_m3(int i, int j, int k); // calculating potential energy of electrons
+float meps(int i, int j, int k);   // For Hz_parity()
+void out_epsilon(char *plane, float value, char *name);
+void out_epsilon_periodic(char *plane, float value, char *name, int m_h,
+                          int m_v);
+void out_epsilon_projection(char *dirc, char *name);
+void out_plane(char *component, char *plane, float value, char *lastname);
+void out_plane_projection(char *component, char *dirc, char *lastname,
+                          int k_shift);
+void out_plane_periodic(char *component, char *plane, float value,
+                        char *lastname, int m_h, int m_v);
+void out_plane_time_average(char *component, char *plane, float value,
+                            long start, long end, float ***field_avg,
+                            char *lastname);
+void out_plane_time_average_projection(char *component, char *dirc, long start,
+                                       long end, float ***field_avg,
+                                       char *lastname, int k_shift);
+void out_several_points(char *component, float zposition, float xside,
+                        float yside, int pNx, int pNy, long ti, long tf,
+                        char *name);
+void out_point(char *component, float x, float y, float z, long ti, long tf,
+               char *name);
+float grid_value(char *component, int i, int j, int k);
+void total_E_energy();
+void total_EM_energy();
+void total_E_energy_block(float centerx, float centery, float centerz,
+                          float size1, float size2, float size3);
+void total_E_energy2_block(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3);
+void total_E_energy3_block(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3);
+void total_E_energy_thin_block_z(float centerx, float centery, float centerz,
+                                 float size1, float size2, float size3,
+                                 float eps_L, float eps_H, char *name);
+void max_E_Energy_detector(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3);
+void total_EM_energy_block(float centerx, float centery, float centerz,
+                           float size1, float size2, float size3);
+void total_E2();
+void Drude_energy_loss_in_block(float centerx, float centery, float centerz,
+                                float size1, float size2, float size3);
+void Drude_energy_loss_in_block2(float centerx, float centery, float centerz,
+                                 float size1, float size2, float size3,
+                                 float WC, float lattice_n);
+void Poynting_total();
+void Poynting_block(float centerx, float centery, float centerz, float size1,
+                    float size2, float size3);
+float Poynting_half_sphere_point(char *component, float z0, float R,
+                                 float theta, float phi);
+void Poynting_side(float value, float zposition);
+void print_energy();
+void Poynting_UpDown(float value, float zposition);
+void free_3d_memory(float ***t, int nrh, int nch, int ndh);
+void transform_farfield(int NROW, int tnum, char *name, int mm);
+void add_farfield(int tnum, char *name);
+void print_amp_and_phase(int mm);
+void print_real_and_imag(int mm);
+void print_real_and_imag_2n_size(int NROW, int mm);
+void field_initialization();
+void real_space_param(float a_nm, float w_n);
+int get_period_in_update(float w_n);
+float Gauss_amp(float frequency, float phase, long to, long tdecay);
+float Lorentz_amp(float frequency, float phase, long to, long tdecay);
+float iGauss_amp(float frequency, float phase, long to, long tdecay);
+float iLorentz_amp(float frequency, float phase, long to, long tdecay);
+
+//-----------------------------------------------------------------//
+// extern variables
+//-----------------------------------------------------------------//
+/// in main.c ///
+extern float shift;
+extern int SpecN;
+extern long t;
+extern float Sumx, Sumy, Sumz, SideSumx, SideSumy;
+extern float SumUpper, SumLower;
+extern const gsl_rng_type *rng_type;
+extern gsl_rng *rng_r;
+
+/// in parameter.c ///
+extern int isize, jsize, ksize;
+extern int pmlil, pmlir, pmljl, pmljr, pmlkl, pmlkr;
+extern int lattice_x, lattice_y, lattice_z;
+extern int max_lattice_nz;
+extern float xsize, ysize, zsize;
+extern float xcenter, ycenter, zcenter;
+extern float kx, ky, kz;
+extern float orderxl, orderyl, orderzl;
+extern float orderxr, orderyr, orderzr;
+extern float sig_axl, sig_ayl, sig_azl;
+extern float sig_axr, sig_ayr, sig_azr;
+extern float ds_x, ds_y, ds_z, dt;
+extern float dt_nm;
+extern float *ds_nz;
+extern float S_factor;
+extern float pi, eo, uo, ups, light_speed;
+extern int misize, mjsize, mksize;
+extern int pisize, pjsize, pksize;
+extern int cisize, cjsize, cksize;
+extern int xparity, yparity, zparity;
+extern float wave_vector_x, wave_vector_y;
+extern int use_periodic_x, use_periodic_y;
+
+extern int m_pml, ma_pml;
+extern float sigmaCPML, alphaCPML, kappaCPML;
+
+/// in memory.c ///
+extern char ***position;
+extern float ***epsilonx, ***epsilony, ***epsilonz;
+extern float ***mepsilon, ***momega, ***mgamma;
+extern float ***Ex, ***Ey, ***Ez;
+extern float ***dPx, ***dPy, ***dPz;
+extern float ***dPx_old, ***dPy_old, ***dPz_old;
+extern float ***Jx, ***Jy, ***Jz;
+extern float ***Hx, ***Hy, ***Hz;
+extern float ***Dx, ***Dy, ***Dz;
+extern float ***Bx, ***By, ***Bz;
+extern float ***iEx, ***iEy, ***iEz;
+extern float ***iJx, ***iJy, ***iJz;
+extern float ***iHx, ***iHy, ***iHz;
+extern float ***iDx, ***iDy, ***iDz;
+extern float ***iBx, ***iBy, ***iBz;
+extern float *aax, *aay, *aaz;
+extern float *bbx, *bby, *bbz;
+extern float *ccx, *ccy, *ccz;
+extern float ***ddx, ***ddy, ***ddz;
+extern float *eex, *eey, *eez;
+extern float *ffx, *ffy, *ffz;
+extern float *ggx, *ggy, *ggz;
+extern float *hhx, *hhy, *hhz;
+extern float *iix, *iiy, *iiz;
+extern float *jjx, *jjy, *jjz;
+extern float *kkx, *kky, *kkz;
+extern float *llx, *lly, *llz;
+extern float ***Ex_cos, ***Ex_sin;
+extern float ***Ey_cos, ***Ey_sin;
+extern float ***Hx_cos, ***Hx_sin;
+extern float ***Hy_cos, ***Hy_sin;
+
+// cpml
+extern float ***psi_Exy, ***psi_Exz;
+extern float ***psi_Eyx, ***psi_Eyz;
+extern float ***psi_Ezy, ***psi_Ezx;
+extern float ***psi_Hxy, ***psi_Hxz;
+extern float ***psi_Hyx, ***psi_Hyz;
+extern float ***psi_Hzy, ***psi_Hzx;
+
+/// in input.c ///
+extern float back_epsilon;
+
+/// in output.c ///
+extern float global_W;
diff --git a/openms/lib/fdtd/parameter.c b/openms/lib/fdtd/parameter.c
index 2b48887..33fd38c 100755
--- a/openms/lib/fdtd/parameter.c
+++ b/openms/lib/fdtd/parameter.c
@@ -1,514 +1,514 @@
-#include "./pFDTD.h"
-
-int m_pml, ma_pml;
-float sigmaCPML, alphaCPML, kappaCPML;
-
-int isize, jsize, ksize;
-int pmlil, pmlir, pmljl, pmljr, pmlkl, pmlkr;
-int lattice_x, lattice_y, lattice_z;
-int max_lattice_nz; // the finest non-uniform grid in the z axis
-float xsize, ysize, zsize;
-float xcenter, ycenter, zcenter;
-float kx, ky, kz;
-float orderxl, orderyl, orderzl;
-float orderxr, orderyr, orderzr;
-float sig_axl, sig_ayl, sig_azl;
-float sig_axr, sig_ayr, sig_azr;
-float ds_x, ds_y, ds_z, dt;
-float dt_nm;
-float *ds_nz;
-float S_factor;
-float pi, eo, uo, ups, light_speed;
-int misize, mjsize, mksize;
-int pisize, pjsize, pksize;
-int cisize, cjsize, cksize;
-int xparity = 0, yparity = 0, zparity = 0; // default
-
-float wave_vector_x, wave_vector_y;
-int use_periodic_x = 0, use_periodic_y = 0; // default
-
-int ngrid_n = 0; // for non_uniform_grid function
-struct ngrid_info *ngrid;
-float *base_z;
-int *base_grid;
-
-int lcm3(int a, int b, int c);
-int lcm2(int m, int n);
-int gcd2(int m, int n);
-float *float_1d_memory_for_parameter(int imax);
-void quick_sort_nz_start(struct ngrid_info *ngrid_s, int left, int right);
-void generate_base_z();
-void generate_base_grid();
-
-void structure_size(float x, float y, float z) {
-  xsize = x;
-  ysize = y;
-  zsize = z;
-}
-
-void lattice_size(int lx, int ly, int lz) {
-  lattice_x = lx;
-  lattice_y = ly;
-  lattice_z = lz;
-
-  ///////////////////////////////////////////
-  //// by default for non_uniform_grid() ////
-  ///////////////////////////////////////////
-  max_lattice_nz = lattice_z;
-}
-
-void non_uniform_grid(char *component, float z_i, float z_f, int nlz) {
-  // only for z direction
-  ngrid_n++;
-
-  ngrid =
-      (struct ngrid_info *)realloc(ngrid, sizeof(struct ngrid_info) * ngrid_n);
-
-  ngrid[ngrid_n - 1].lattice_nz = nlz;
-  ngrid[ngrid_n - 1].nz_start = z_i;
-  ngrid[ngrid_n - 1].nz_end = z_f;
-
-  printf("ngrid_n = %d\n", ngrid_n);
-}
-
-void quick_sort_nz_start(struct ngrid_info *ngrid_s, int left, int right) {
-  int i, j;
-  float pivot;
-  struct ngrid_info temp;
-  pivot = ngrid_s[(int)(left + right) / 2].nz_start;
-  i = left;
-  j = right;
-  for (;;) {
-    while ((ngrid_s[i].nz_start < pivot) && (i < right))
-      i++;
-    while (pivot < ngrid_s[j].nz_start)
-      j--;
-    if (i >= j)
-      break;
-    temp = ngrid_s[i];
-    ngrid_s[i] = ngrid_s[j];
-    ngrid_s[j] = temp;
-    i++;
-    j--;
-  }
-  if (left < i - 1)
-    quick_sort_nz_start(ngrid_s, left, i - 1);
-  if (j + 1 < right)
-    quick_sort_nz_start(ngrid_s, j + 1, right);
-}
-
-int non_uniform_z_to_i(float z) {
-  int n = 0;
-
-  /*//////////////////////////////////////////
-  Example : when ngrid_n=3
-  ---------------------------
-
-  lattice_z
-
-  -------end[2]  ----------- base_z[3] & base_grid[3]   <-- index runs to
-  (ngrid_n) non_uniform[2]
-  -------start[2]
-
-  lattice_z
-
-  -------end[1] ----------- base_z[2] & base_grid[2]
-  non_uniform[1]
-  -------start[1]
-
-  lattice_z
-
-  -------end[0]  ----------- base_z[1] & base_grid[1]
-  non_uniform[0]
-  -------start[0]
-
-  lattice_z
-
-  -------------------------- base_z[0] & base_grid[0]
-
-  //////////////////////////////////////////*/
-
-  //////////////////////////////////////////////////////
-  //// no use of non-uniform grid (special treatment)
-  if (ngrid_n == 0) {
-    return (floor(0.5 + (z + 0.5 * zsize) * lattice_z));
-  }
-  //////////////////////////////////////////////////////
-
-  //////////////////////////////////////////////////////
-  //// use of non-uniform grid (when ngrid_n >=1 )
-  while (n < ngrid_n) {
-    if (z <= ngrid[n].nz_start) {
-      return (floor(0.5 + (z - base_z[n]) * lattice_z) + base_grid[n]);
-    } else if ((z > ngrid[n].nz_start) && (z <= ngrid[n].nz_end)) {
-      return (floor(0.5 + ((ngrid[n].nz_start - base_z[n]) * lattice_z +
-                           (z - ngrid[n].nz_start) * ngrid[n].lattice_nz)) +
-              base_grid[n]);
-    } else
-      n++;
-  }
-
-  // if z > base_z[ngrid_n]
-  return (floor(0.5 + ((z - base_z[n]) * lattice_z)) + base_grid[n]);
-  //////////////////////////////////////////////////////
-}
-
-float non_uniform_i_to_z(int i) {
-  int n = 0;
-
-  // Note that this function cannot return the original 'z' value, due to the
-  // rounding (loss of information).
-
-  //////////////////////////////////////////////////////
-  //// no use of non-uniform grid (special treatment)
-  if (ngrid_n == 0) {
-    return (((float)i) / ((float)lattice_z) - 0.5 * zsize);
-  }
-  //////////////////////////////////////////////////////
-
-  while (n < ngrid_n) {
-    if (i <= non_uniform_z_to_i(ngrid[n].nz_start)) {
-      return (((float)(i - base_grid[n])) / ((float)lattice_z) + base_z[n]);
-    } else if ((i > non_uniform_z_to_i(ngrid[n].nz_start)) &&
-               (i <= non_uniform_z_to_i(ngrid[n].nz_end))) {
-      return (((float)(non_uniform_z_to_i(ngrid[n].nz_start) - base_grid[n])) /
-                  ((float)lattice_z) +
-              ((float)(i - non_uniform_z_to_i(ngrid[n].nz_start))) /
-                  ((float)ngrid[n].lattice_nz) +
-              base_z[n]);
-    } else
-      n++;
-  }
-
-  // if i > base_grid[ngrid_n]
-  return (((float)(i - base_grid[n])) / ((float)lattice_z) + base_z[n]);
-}
-
-int ngrid_lattice_nz_z(float z) // returns lattice_nz at the position z
-{
-  int n;
-  int temp_return;
-
-  temp_return = lattice_z;
-
-  if (ngrid_n == 0)
-    return (temp_return);
-
-  for (n = 0; n < ngrid_n; n++) {
-    if ((z > ngrid[n].nz_start) && (z <= ngrid[n].nz_end))
-      temp_return = ngrid[n].lattice_nz;
-  }
-
-  return (temp_return);
-}
-
-int ngrid_lattice_nz_i(int i) // returns lattice_nz at the position i
-{
-  int n;
-  int temp_return;
-
-  temp_return = lattice_z;
-
-  if (ngrid_n == 0)
-    return (temp_return);
-
-  for (n = 0; n < ngrid_n; n++) {
-    if ((i > non_uniform_z_to_i(ngrid[n].nz_start)) &&
-        (i <= non_uniform_z_to_i(ngrid[n].nz_end)))
-      temp_return = ngrid[n].lattice_nz;
-  }
-
-  return (temp_return);
-}
-
-int find_max_lattice_nz() {
-  int max_temp;
-  int scan_i;
-  int present_lattice;
-
-  max_temp = ngrid_lattice_nz_i(0);
-
-  if (ngrid_n == 0)
-    return (max_temp);
-
-  for (scan_i = 0; scan_i <= non_uniform_z_to_i(0.5 * zsize); scan_i++) {
-    present_lattice = ngrid_lattice_nz_i(scan_i);
-    if (present_lattice > max_temp)
-      max_temp = present_lattice;
-  }
-
-  return (max_temp);
-}
-
-void pml_size(int il, int ir, int jl, int jr, int kl, int kr) {
-  pmlil = il;
-  pmlir = ir;
-  pmljl = jl;
-  pmljr = jr;
-  pmlkl = kl;
-  pmlkr = kr;
-  // See the range of position[i][j][k] in memory.c.
-  if (il == 0)
-    pmlil = 0;
-  if (ir == 0)
-    pmlir = 0;
-  if (jl == 0)
-    pmljl = 0;
-  if (jr == 0)
-    pmljr = 0;
-  if (kl == 0)
-    pmlkl = 0;
-  if (kr == 0)
-    pmlkr = 0;
-}
-
-void set_default_parameter(float S) {
-  int lcm_temp;
-  int i;
-  FILE *stream;
-
-  pi = 3.141592;
-  eo = 8.854e-12;
-  uo = pi * 4.0e-7;
-  ups = 1.0;
-  light_speed = 1.0 / sqrt(eo * uo);
-
-  if (ngrid_n >= 2)
-    quick_sort_nz_start(ngrid, 0, ngrid_n - 1);
-
-  ////////////////////////////////////////////////
-  // define base_z[n] & base_grid[n]
-  ///////////////////////////////////////////////
-  generate_base_z();
-  generate_base_grid();
-  ///////////////////////////////////////////////
-
-  max_lattice_nz = find_max_lattice_nz();
-
-  lcm_temp = lcm3(lattice_x, lattice_y, max_lattice_nz);
-
-  ds_x = lcm_temp / lattice_x;
-  ds_y = lcm_temp / lattice_y;
-  ///////////////////////////////////////////////////////////////////////////
-  // in case of using non_uniform_grid(), ds_z takes the smallest feature size
-  ///////////////////////////////////////////////////////////////////////////
-  ds_z = lcm_temp / max_lattice_nz;
-
-  S_factor = S;
-
-  dt = 1 / light_speed /
-       S_factor; // S=Couriant parameter for numerical stability
-  dt_nm = dt * 1e-9;
-
-  orderxl = 3.5;
-  orderyl = 3.5;
-  orderzl = 3.5;
-  orderxr = 3.5;
-  orderyr = 3.5;
-  orderzr = 3.5;
-
-  sig_axl = 1.0;
-  sig_ayl = 1.0;
-  sig_azl = 1.0;
-  sig_axr = 1.0;
-  sig_ayr = 1.0;
-  sig_azr = 1.0;
-
-  kx = 1.0;
-  ky = 1.0;
-  kz = 1.0;
-
-  // parameter for CPML
-  m_pml = 3;
-  ma_pml = 1;
-  sigmaCPML = 0.8 * (m_pml + 1) / (ds_x * 1e-9 * sqrt(uo / eo));
-  alphaCPML = 0.05;
-  kappaCPML = 5.0;
-  printf("sigmaCPML= %f \n", sigmaCPML);
-
-  isize = floor(0.5 + (xsize * lattice_x));
-  jsize = floor(0.5 + (ysize * lattice_y));
-  ////////////////////////////////////
-  ///// for non_uniform_grid() ///////
-  ////////////////////////////////////
-  ksize = non_uniform_z_to_i(0.5 * zsize);
-  printf("non uniform ksize = %d\n", ksize); ////////////
-
-  xcenter = xsize / 2;
-  ycenter = ysize / 2;
-  zcenter = zsize / 2; // always true even with non_uniform_grid()
-
-  misize = isize;
-  pisize = isize - 1;
-  cisize = isize / 2;
-  mjsize = jsize;
-  pjsize = jsize - 1;
-  cjsize = jsize / 2;
-  mksize = ksize;
-  pksize = ksize - 1;
-  cksize =
-      ksize / 2; // in case of using non_uniform_grid(), this will not be used.
-
-  ///////////////////////////////////////////////////
-  //// create non-uniform z-grid map (ds_nz[i]) /////
-  ///////////////////////////////////////////////////
-  ds_nz = float_1d_memory_for_parameter(mksize);
-  for (i = 0; i < mksize; i++)
-    ds_nz[i] = (float)lcm_temp / ngrid_lattice_nz_i(i); //////////
-  ///////////////////////////////////////////////////
-  printf("creating non uniform z map ok\n"); ////////////
-  stream = fopen("dsz_map.dat", "wt");
-  for (i = mksize - 1; i >= 0; i--)
-    fprintf(stream, "%g\n", ds_nz[i]);
-
-  fclose(stream);
-
-  ////// Random number generation //////
-  gsl_rng_env_setup();
-  // In the below, 'rng_type' and 'rng_r' are defined in FDTDvar.h
-  rng_type = gsl_rng_default;
-  rng_r = gsl_rng_alloc(rng_type);
-  gsl_rng_set(rng_r, 1234); // seed value = 1234
-  //////////////////////////////////////
-
-  printf("parameters...ok\n");
-}
-
-void set_sigma_order(float oxl, float oxr, float oyl, float oyr, float ozl,
-                     float ozr) {
-  orderxl = oxl;
-  orderyl = oyl;
-  orderzl = ozl; // default value = 3.5
-  orderxr = oxr;
-  orderyr = oyr;
-  orderzr = ozr; // default value = 3.5
-}
-
-void set_sigma_max(float axl, float axr, float ayl, float ayr, float azl,
-                   float azr) {
-  sig_axl = axl;
-  sig_ayl = ayl;
-  sig_azl = azl; // default value = 1.0
-  sig_axr = axr;
-  sig_ayr = ayr;
-  sig_azr = azr; // default value = 1.0
-}
-
-void set_kappa(float kappa_x, float kappa_y, float kappa_z) {
-  kx = kappa_x; // defaut value = 1.0
-  ky = kappa_y; // defaut value = 1.0
-  kz = kappa_z; // defaut value = 1.0
-}
-
-void Hz_parity(int x, int y, int z) {
-  xparity = x;
-  yparity = y;
-  zparity = z;
-
-  if (xparity == 1 || xparity == -1) {
-    misize = cisize + 2;
-    pisize = cisize + 1;
-  }
-
-  if (yparity == 1 || yparity == -1) {
-    mjsize = cjsize + 2;
-    pjsize = cjsize + 1;
-  }
-
-  if (zparity == 1 || zparity == -1) {
-    mksize = cksize + 2;
-    pksize = cksize + 1;
-  }
-}
-
-void periodic_boundary(int x_on, int y_on, float k_x, float k_y) {
-  if (x_on == 1) {
-    wave_vector_x = k_x;
-    use_periodic_x = x_on; // 1:on, 0:off  default=0
-    misize = isize + 2;
-    pisize = isize + 1;
-    pmlil = -5; // See the range of position[i][j][k] in memory.c
-    pmlir = -5;
-  }
-  if (y_on == 1) {
-    wave_vector_y = k_y;
-    use_periodic_y = y_on;
-    mjsize = jsize + 2;
-    pjsize = jsize + 1;
-    pmljl = -5;
-    pmljr = -5;
-  }
-}
-
-int lcm3(int a, int b, int c) { return (lcm2(a, lcm2(b, c))); }
-
-int lcm2(int m, int n) {
-  return (m * n / gcd2(m, n)); // use the relation ; gcd(m,n)*lcm(m,n)=m*n
-}
-
-int gcd2(int m, int n) {
-  int temp;
-  int r; // remainder
-
-  if (n > m) // Make m>n
-  {
-    temp = m;
-    m = n;
-    n = temp;
-  }
-  while ((r = m % n) != 0) // Euclid algorithm
-  {
-    m = n;
-    n = r;
-  }
-
-  return (n);
-}
-
-float *float_1d_memory_for_parameter(int imax) {
-  int i;
-  float *memory;
-
-  memory = (float *)malloc(sizeof(float) * imax);
-  for (i = 0; i < imax; i++)
-    memory[i] = 0.0;
-
-  return memory;
-}
-
-void generate_base_z() {
-  int i;
-
-  base_z = (float *)malloc(sizeof(float) * (ngrid_n + 1));
-
-  base_z[0] = -0.5 * zsize;
-  printf("base_z[0] = %g\n", base_z[0]);
-
-  for (i = 1; i <= ngrid_n; i++) {
-    base_z[i] = ngrid[i - 1].nz_end;
-    printf("base_z[%d] = %g\n", i, base_z[i]);
-  }
-}
-
-void generate_base_grid() {
-  int i;
-
-  base_grid = (int *)malloc(sizeof(int) * (ngrid_n + 1));
-
-  base_grid[0] = 0;
-  printf("base_grid[0] = %d\n", base_grid[0]);
-
-  for (i = 1; i <= ngrid_n; i++) {
-    if (i == 1)
-      base_grid[1] =
-          floor(0.5 + (ngrid[0].nz_end - ngrid[0].nz_start) * ngrid[0].lattice_nz +
-                (ngrid[0].nz_start + 0.5 * zsize) * lattice_z);
-    else
-      base_grid[i] = base_grid[i - 1] +
-                     floor(0.5 + (ngrid[i - 1].nz_end - ngrid[i - 1].nz_start) *
-                                     ngrid[i - 1].lattice_nz +
-                           (ngrid[i - 1].nz_start - ngrid[i - 2].nz_end) *
-                               lattice_z);
-    printf("base_grid[%d] = %d\n", i, base_grid[i]);
-  }
-}
+#include "./pFDTD.h"
+
+int m_pml, ma_pml;
+float sigmaCPML, alphaCPML, kappaCPML;
+
+int isize, jsize, ksize;
+int pmlil, pmlir, pmljl, pmljr, pmlkl, pmlkr;
+int lattice_x, lattice_y, lattice_z;
+int max_lattice_nz; // the finest non-uniform grid in the z axis
+float xsize, ysize, zsize;
+float xcenter, ycenter, zcenter;
+float kx, ky, kz;
+float orderxl, orderyl, orderzl;
+float orderxr, orderyr, orderzr;
+float sig_axl, sig_ayl, sig_azl;
+float sig_axr, sig_ayr, sig_azr;
+float ds_x, ds_y, ds_z, dt;
+float dt_nm;
+float *ds_nz;
+float S_factor;
+float pi, eo, uo, ups, light_speed;
+int misize, mjsize, mksize;
+int pisize, pjsize, pksize;
+int cisize, cjsize, cksize;
+int xparity = 0, yparity = 0, zparity = 0; // default
+
+float wave_vector_x, wave_vector_y;
+int use_periodic_x = 0, use_periodic_y = 0; // default
+
+int ngrid_n = 0; // for non_uniform_grid function
+struct ngrid_info *ngrid;
+float *base_z;
+int *base_grid;
+
+int lcm3(int a, int b, int c);
+int lcm2(int m, int n);
+int gcd2(int m, int n);
+float *float_1d_memory_for_parameter(int imax);
+void quick_sort_nz_start(struct ngrid_info *ngrid_s, int left, int right);
+void generate_base_z();
+void generate_base_grid();
+
+void structure_size(float x, float y, float z) {
+  xsize = x;
+  ysize = y;
+  zsize = z;
+}
+
+void lattice_size(int lx, int ly, int lz) {
+  lattice_x = lx;
+  lattice_y = ly;
+  lattice_z = lz;
+
+  ///////////////////////////////////////////
+  //// by default for non_uniform_grid() ////
+  ///////////////////////////////////////////
+  max_lattice_nz = lattice_z;
+}
+
+void non_uniform_grid(char *component, float z_i, float z_f, int nlz) {
+  // only for z direction
+  ngrid_n++;
+
+  ngrid =
+      (struct ngrid_info *)realloc(ngrid, sizeof(struct ngrid_info) * ngrid_n);
+
+  ngrid[ngrid_n - 1].lattice_nz = nlz;
+  ngrid[ngrid_n - 1].nz_start = z_i;
+  ngrid[ngrid_n - 1].nz_end = z_f;
+
+  printf("ngrid_n = %d\n", ngrid_n);
+}
+
+void quick_sort_nz_start(struct ngrid_info *ngrid_s, int left, int right) {
+  int i, j;
+  float pivot;
+  struct ngrid_info temp;
+  pivot = ngrid_s[(int)(left + right) / 2].nz_start;
+  i = left;
+  j = right;
+  for (;;) {
+    while ((ngrid_s[i].nz_start < pivot) && (i < right))
+      i++;
+    while (pivot < ngrid_s[j].nz_start)
+      j--;
+    if (i >= j)
+      break;
+    temp = ngrid_s[i];
+    ngrid_s[i] = ngrid_s[j];
+    ngrid_s[j] = temp;
+    i++;
+    j--;
+  }
+  if (left < i - 1)
+    quick_sort_nz_start(ngrid_s, left, i - 1);
+  if (j + 1 < right)
+    quick_sort_nz_start(ngrid_s, j + 1, right);
+}
+
+int non_uniform_z_to_i(float z) {
+  int n = 0;
+
+  /*//////////////////////////////////////////
+  Example : when ngrid_n=3
+  ---------------------------
+
+  lattice_z
+
+  -------end[2]  ----------- base_z[3] & base_grid[3]   <-- index runs to
+  (ngrid_n) non_uniform[2]
+  -------start[2]
+
+  lattice_z
+
+  -------end[1] ----------- base_z[2] & base_grid[2]
+  non_uniform[1]
+  -------start[1]
+
+  lattice_z
+
+  -------end[0]  ----------- base_z[1] & base_grid[1]
+  non_uniform[0]
+  -------start[0]
+
+  lattice_z
+
+  -------------------------- base_z[0] & base_grid[0]
+
+  //////////////////////////////////////////*/
+
+  //////////////////////////////////////////////////////
+  //// no use of non-uniform grid (special treatment)
+  if (ngrid_n == 0) {
+    return (floor(0.5 + (z + 0.5 * zsize) * lattice_z));
+  }
+  //////////////////////////////////////////////////////
+
+  //////////////////////////////////////////////////////
+  //// use of non-uniform grid (when ngrid_n >=1 )
+  while (n < ngrid_n) {
+    if (z <= ngrid[n].nz_start) {
+      return (floor(0.5 + (z - base_z[n]) * lattice_z) + base_grid[n]);
+    } else if ((z > ngrid[n].nz_start) && (z <= ngrid[n].nz_end)) {
+      return (floor(0.5 + ((ngrid[n].nz_start - base_z[n]) * lattice_z +
+                           (z - ngrid[n].nz_start) * ngrid[n].lattice_nz)) +
+              base_grid[n]);
+    } else
+      n++;
+  }
+
+  // if z > base_z[ngrid_n]
+  return (floor(0.5 + ((z - base_z[n]) * lattice_z)) + base_grid[n]);
+  //////////////////////////////////////////////////////
+}
+
+float non_uniform_i_to_z(int i) {
+  int n = 0;
+
+  // Note that this function cannot return the original 'z' value, due to the
+  // rounding (loss of information).
+
+  //////////////////////////////////////////////////////
+  //// no use of non-uniform grid (special treatment)
+  if (ngrid_n == 0) {
+    return (((float)i) / ((float)lattice_z) - 0.5 * zsize);
+  }
+  //////////////////////////////////////////////////////
+
+  while (n < ngrid_n) {
+    if (i <= non_uniform_z_to_i(ngrid[n].nz_start)) {
+      return (((float)(i - base_grid[n])) / ((float)lattice_z) + base_z[n]);
+    } else if ((i > non_uniform_z_to_i(ngrid[n].nz_start)) &&
+               (i <= non_uniform_z_to_i(ngrid[n].nz_end))) {
+      return (((float)(non_uniform_z_to_i(ngrid[n].nz_start) - base_grid[n])) /
+                  ((float)lattice_z) +
+              ((float)(i - non_uniform_z_to_i(ngrid[n].nz_start))) /
+                  ((float)ngrid[n].lattice_nz) +
+              base_z[n]);
+    } else
+      n++;
+  }
+
+  // if i > base_grid[ngrid_n]
+  return (((float)(i - base_grid[n])) / ((float)lattice_z) + base_z[n]);
+}
+
+int ngrid_lattice_nz_z(float z) // returns lattice_nz at the position z
+{
+  int n;
+  int temp_return;
+
+  temp_return = lattice_z;
+
+  if (ngrid_n == 0)
+    return (temp_return);
+
+  for (n = 0; n < ngrid_n; n++) {
+    if ((z > ngrid[n].nz_start) && (z <= ngrid[n].nz_end))
+      temp_return = ngrid[n].lattice_nz;
+  }
+
+  return (temp_return);
+}
+
+int ngrid_lattice_nz_i(int i) // returns lattice_nz at the position i
+{
+  int n;
+  int temp_return;
+
+  temp_return = lattice_z;
+
+  if (ngrid_n == 0)
+    return (temp_return);
+
+  for (n = 0; n < ngrid_n; n++) {
+    if ((i > non_uniform_z_to_i(ngrid[n].nz_start)) &&
+        (i <= non_uniform_z_to_i(ngrid[n].nz_end)))
+      temp_return = ngrid[n].lattice_nz;
+  }
+
+  return (temp_return);
+}
+
+int find_max_lattice_nz() {
+  int max_temp;
+  int scan_i;
+  int present_lattice;
+
+  max_temp = ngrid_lattice_nz_i(0);
+
+  if (ngrid_n == 0)
+    return (max_temp);
+
+  for (scan_i = 0; scan_i <= non_uniform_z_to_i(0.5 * zsize); scan_i++) {
+    present_lattice = ngrid_lattice_nz_i(scan_i);
+    if (present_lattice > max_temp)
+      max_temp = present_lattice;
+  }
+
+  return (max_temp);
+}
+
+void pml_size(int il, int ir, int jl, int jr, int kl, int kr) {
+  pmlil = il;
+  pmlir = ir;
+  pmljl = jl;
+  pmljr = jr;
+  pmlkl = kl;
+  pmlkr = kr;
+  // See the range of position[i][j][k] in memory.c.
+  if (il == 0)
+    pmlil = 0;
+  if (ir == 0)
+    pmlir = 0;
+  if (jl == 0)
+    pmljl = 0;
+  if (jr == 0)
+    pmljr = 0;
+  if (kl == 0)
+    pmlkl = 0;
+  if (kr == 0)
+    pmlkr = 0;
+}
+
+void set_default_parameter(float S) {
+  int lcm_temp;
+  int i;
+  FILE *stream;
+
+  pi = 3.141592;
+  eo = 8.854e-12;
+  uo = pi * 4.0e-7;
+  ups = 1.0;
+  light_speed = 1.0 / sqrt(eo * uo);
+
+  if (ngrid_n >= 2)
+    quick_sort_nz_start(ngrid, 0, ngrid_n - 1);
+
+  ////////////////////////////////////////////////
+  // define base_z[n] & base_grid[n]
+  ///////////////////////////////////////////////
+  generate_base_z();
+  generate_base_grid();
+  ///////////////////////////////////////////////
+
+  max_lattice_nz = find_max_lattice_nz();
+
+  lcm_temp = lcm3(lattice_x, lattice_y, max_lattice_nz);
+
+  ds_x = lcm_temp / lattice_x;
+  ds_y = lcm_temp / lattice_y;
+  ///////////////////////////////////////////////////////////////////////////
+  // in case of using non_uniform_grid(), ds_z takes the smallest feature size
+  ///////////////////////////////////////////////////////////////////////////
+  ds_z = lcm_temp / max_lattice_nz;
+
+  S_factor = S;
+
+  dt = 1 / light_speed /
+       S_factor; // S=Couriant parameter for numerical stability
+  dt_nm = dt * 1e-9;
+
+  orderxl = 3.5;
+  orderyl = 3.5;
+  orderzl = 3.5;
+  orderxr = 3.5;
+  orderyr = 3.5;
+  orderzr = 3.5;
+
+  sig_axl = 1.0;
+  sig_ayl = 1.0;
+  sig_azl = 1.0;
+  sig_axr = 1.0;
+  sig_ayr = 1.0;
+  sig_azr = 1.0;
+
+  kx = 1.0;
+  ky = 1.0;
+  kz = 1.0;
+
+  // parameter for CPML
+  m_pml = 3;
+  ma_pml = 1;
+  sigmaCPML = 0.8 * (m_pml + 1) / (ds_x * 1e-9 * sqrt(uo / eo));
+  alphaCPML = 0.05;
+  kappaCPML = 5.0;
+  printf("sigmaCPML= %f \n", sigmaCPML);
+
+  isize = floor(0.5 + (xsize * lattice_x));
+  jsize = floor(0.5 + (ysize * lattice_y));
+  ////////////////////////////////////
+  ///// for non_uniform_grid() ///////
+  ////////////////////////////////////
+  ksize = non_uniform_z_to_i(0.5 * zsize);
+  printf("non uniform ksize = %d\n", ksize); ////////////
+
+  xcenter = xsize / 2;
+  ycenter = ysize / 2;
+  zcenter = zsize / 2; // always true even with non_uniform_grid()
+
+  misize = isize;
+  pisize = isize - 1;
+  cisize = isize / 2;
+  mjsize = jsize;
+  pjsize = jsize - 1;
+  cjsize = jsize / 2;
+  mksize = ksize;
+  pksize = ksize - 1;
+  cksize =
+      ksize / 2; // in case of using non_uniform_grid(), this will not be used.
+
+  ///////////////////////////////////////////////////
+  //// create non-uniform z-grid map (ds_nz[i]) /////
+  ///////////////////////////////////////////////////
+  ds_nz = float_1d_memory_for_parameter(mksize);
+  for (i = 0; i < mksize; i++)
+    ds_nz[i] = (float)lcm_temp / ngrid_lattice_nz_i(i); //////////
+  ///////////////////////////////////////////////////
+  printf("creating non uniform z map ok\n"); ////////////
+  stream = fopen("dsz_map.dat", "wt");
+  for (i = mksize - 1; i >= 0; i--)
+    fprintf(stream, "%g\n", ds_nz[i]);
+
+  fclose(stream);
+
+  ////// Random number generation //////
+  gsl_rng_env_setup();
+  // In the below, 'rng_type' and 'rng_r' are defined in FDTDvar.h
+  rng_type = gsl_rng_default;
+  rng_r = gsl_rng_alloc(rng_type);
+  gsl_rng_set(rng_r, 1234); // seed value = 1234
+  //////////////////////////////////////
+
+  printf("parameters...ok\n");
+}
+
+void set_sigma_order(float oxl, float oxr, float oyl, float oyr, float ozl,
+                     float ozr) {
+  orderxl = oxl;
+  orderyl = oyl;
+  orderzl = ozl; // default value = 3.5
+  orderxr = oxr;
+  orderyr = oyr;
+  orderzr = ozr; // default value = 3.5
+}
+
+void set_sigma_max(float axl, float axr, float ayl, float ayr, float azl,
+                   float azr) {
+  sig_axl = axl;
+  sig_ayl = ayl;
+  sig_azl = azl; // default value = 1.0
+  sig_axr = axr;
+  sig_ayr = ayr;
+  sig_azr = azr; // default value = 1.0
+}
+
+void set_kappa(float kappa_x, float kappa_y, float kappa_z) {
+  kx = kappa_x; // defaut value = 1.0
+  ky = kappa_y; // defaut value = 1.0
+  kz = kappa_z; // defaut value = 1.0
+}
+
+void Hz_parity(int x, int y, int z) {
+  xparity = x;
+  yparity = y;
+  zparity = z;
+
+  if (xparity == 1 || xparity == -1) {
+    misize = cisize + 2;
+    pisize = cisize + 1;
+  }
+
+  if (yparity == 1 || yparity == -1) {
+    mjsize = cjsize + 2;
+    pjsize = cjsize + 1;
+  }
+
+  if (zparity == 1 || zparity == -1) {
+    mksize = cksize + 2;
+    pksize = cksize + 1;
+  }
+}
+
+void periodic_boundary(int x_on, int y_on, float k_x, float k_y) {
+  if (x_on == 1) {
+    wave_vector_x = k_x;
+    use_periodic_x = x_on; // 1:on, 0:off  default=0
+    misize = isize + 2;
+    pisize = isize + 1;
+    pmlil = -5; // See the range of position[i][j][k] in memory.c
+    pmlir = -5;
+  }
+  if (y_on == 1) {
+    wave_vector_y = k_y;
+    use_periodic_y = y_on;
+    mjsize = jsize + 2;
+    pjsize = jsize + 1;
+    pmljl = -5;
+    pmljr = -5;
+  }
+}
+
+int lcm3(int a, int b, int c) { return (lcm2(a, lcm2(b, c))); }
+
+int lcm2(int m, int n) {
+  return (m * n / gcd2(m, n)); // use the relation ; gcd(m,n)*lcm(m,n)=m*n
+}
+
+int gcd2(int m, int n) {
+  int temp;
+  int r; // remainder
+
+  if (n > m) // Make m>n
+  {
+    temp = m;
+    m = n;
+    n = temp;
+  }
+  while ((r = m % n) != 0) // Euclid algorithm
+  {
+    m = n;
+    n = r;
+  }
+
+  return (n);
+}
+
+float *float_1d_memory_for_parameter(int imax) {
+  int i;
+  float *memory;
+
+  memory = (float *)malloc(sizeof(float) * imax);
+  for (i = 0; i < imax; i++)
+    memory[i] = 0.0;
+
+  return memory;
+}
+
+void generate_base_z() {
+  int i;
+
+  base_z = (float *)malloc(sizeof(float) * (ngrid_n + 1));
+
+  base_z[0] = -0.5 * zsize;
+  printf("base_z[0] = %g\n", base_z[0]);
+
+  for (i = 1; i <= ngrid_n; i++) {
+    base_z[i] = ngrid[i - 1].nz_end;
+    printf("base_z[%d] = %g\n", i, base_z[i]);
+  }
+}
+
+void generate_base_grid() {
+  int i;
+
+  base_grid = (int *)malloc(sizeof(int) * (ngrid_n + 1));
+
+  base_grid[0] = 0;
+  printf("base_grid[0] = %d\n", base_grid[0]);
+
+  for (i = 1; i <= ngrid_n; i++) {
+    if (i == 1)
+      base_grid[1] =
+          floor(0.5 + (ngrid[0].nz_end - ngrid[0].nz_start) * ngrid[0].lattice_nz +
+                (ngrid[0].nz_start + 0.5 * zsize) * lattice_z);
+    else
+      base_grid[i] = base_grid[i - 1] +
+                     floor(0.5 + (ngrid[i - 1].nz_end - ngrid[i - 1].nz_start) *
+                                     ngrid[i - 1].lattice_nz +
+                           (ngrid[i - 1].nz_start - ngrid[i - 2].nz_end) *
+                               lattice_z);
+    printf("base_grid[%d] = %d\n", i, base_grid[i]);
+  }
+}
-- 
2.43.0


From 62cc3c00406aa4bbe21e23ae4c5ca63c78590b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:15 +0000
Subject: [PATCH 82/85] fix: Taylor terms of propagate_exp_op_taylor accumulate
 to A^k/k!

---
 openms/lib/qmclibs/src/propagator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openms/lib/qmclibs/src/propagator.cpp b/openms/lib/qmclibs/src/propagator.cpp
index d1b495a..0e2cd4f 100644
--- a/openms/lib/qmclibs/src/propagator.cpp
+++ b/openms/lib/qmclibs/src/propagator.cpp
@@ -267,8 +267,10 @@ void propagate_exp_op_taylor(
                         temp.data(), m,
                         0.0, new_temp.data(), m);
 
-            for (ssize_t i = 0; i < n * m; ++i)
-                phi[i] += new_temp[i] / static_cast<double>(k);
+            for (ssize_t i = 0; i < n * m; ++i) {
+                new_temp[i] /= static_cast<double>(k);
+                phi[i] += new_temp[i];
+            }
 
             temp = std::move(new_temp);
         }
-- 
2.43.0


From 4f5cf0940fe3a145d19efd9b57a9783db9dc5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:15 +0000
Subject: [PATCH 83/85] fix: open-shell Coulomb energy contracts the beta spin
 over its own size

---
 openms/lib/qmclibs/src/estimators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/lib/qmclibs/src/estimators.cpp b/openms/lib/qmclibs/src/estimators.cpp
index ffb5660..24c27b3 100644
--- a/openms/lib/qmclibs/src/estimators.cpp
+++ b/openms/lib/qmclibs/src/estimators.cpp
@@ -155,6 +155,7 @@ py::array_t<std::complex<double>> ecoul_rltensor_uhf_complex(
     ssize_t nao = rltensora.shape(1);
     ssize_t no = rltensora.shape(2);
     ssize_t ndim = nao * no;
+    ssize_t ndimb = rltensorb.shape(1) * rltensorb.shape(2);
 
     py::array_t<std::complex<double>> ecoul(nwalkers);
     auto* ecoul_ptr = ecoul.mutable_data();
@@ -176,7 +177,7 @@ py::array_t<std::complex<double>> ecoul_rltensor_uhf_complex(
             if (Ghalfb && rltensorb) {
                 std::complex<double> LG2 = 0.0;
                 cblas_zdotu_sub(
-                    ndim,
+                    ndimb,
                     Ghalfb.data(iw, 0, 0), 1,
                     rltensorb.data(l, 0, 0), 1,
                     &LG2
-- 
2.43.0


From cc289aefdf31bab3029b5172051290332f6a23a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:15 +0000
Subject: [PATCH 84/85] fix: displacement average packs the photon density
 matrix it is given

---
 openms/lib/qmclibs/src/qedhf.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openms/lib/qmclibs/src/qedhf.cpp b/openms/lib/qmclibs/src/qedhf.cpp
index c6fa7d9..f4c84e5 100644
--- a/openms/lib/qmclibs/src/qedhf.cpp
+++ b/openms/lib/qmclibs/src/qedhf.cpp
@@ -52,7 +52,8 @@ std::pair<py::array_t<double>, py::array_t<double>> displacement_matrix_cpp(
     const double* freq_ptr = freq.data();
     const double* vsq_ptr = vsq.data();
     const double* eta_ptr = eta.data();
-    const double* pdm_ptr = pdm.data();
+    // the density matrix is given in full
+    const std::vector<double> packed_pdm = pack_symmetric(pdm);
 
     ssize_t nao = eta.shape(1);
     ssize_t mdim = nboson_states.at(imode);
@@ -112,7 +113,7 @@ std::pair<py::array_t<double>, py::array_t<double>> displacement_matrix_cpp(
     for (ssize_t pq = 0; pq < nao * nao; ++pq) {
         double acc = 0.0;
         for (int idx = 0; idx < packed_dim; ++idx) {
-            acc += pdm_ptr[idx] * disp_data[idx * nao * nao + pq];
+            acc += packed_pdm[idx] * disp_data[idx * nao * nao + pq];
         }
         exp_data[pq] = acc;
     }
-- 
2.43.0


From f821c18ff9b487433a4016783c46cc4421b73c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:15 +0000
Subject: [PATCH 85/85] fix: tiled tensors without an initialiser do not call
 an empty function

---
 openms/lib/tensor++/include/TiledTensor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/tensor++/include/TiledTensor.hpp b/openms/lib/tensor++/include/TiledTensor.hpp
index 1ac6e0e..8b7da81 100644
--- a/openms/lib/tensor++/include/TiledTensor.hpp
+++ b/openms/lib/tensor++/include/TiledTensor.hpp
@@ -70,7 +70,7 @@ public:
                std::function<void(const Index&, TileType&)> initializer = nullptr,
                std::function<bool(const Index&)> tile_filter = nullptr)
         : shape_(shape), tile_shape_(tile_shape) {
-        initialize_tile_indices(&initializer, tile_filter);
+        initialize_tile_indices(initializer ? &initializer : nullptr, tile_filter);
     }
 
 
-- 
2.43.0


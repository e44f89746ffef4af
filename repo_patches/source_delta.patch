From 227eb1ac13e60d6ede4c124e8aa132bf71fd3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 01/62] fix: symmetric Ising helpers could not be constructed
 (wrong signature of the energy sum)

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 1fb5315..17a341d 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1001,7 +1001,7 @@ def define_ising_helper_functions_sym():
         mch_approximation
     """
 
-    @njit("float64[:](int64[:],float64[:,:])", cache=True)
+    @njit("float64[:](float64[:],int64[:,:])", cache=True)
     def fast_sum(J,s):
         """Helper function for calculating energy in calc_e(). Iterates couplings J."""
         e = np.zeros((s.shape[0]))
-- 
2.43.0


From 7baf41ae66c50c7c788212227053f3401896ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 02/62] fix: base_repr digits I and J were swapped for bases
 above 18

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 17a341d..b19a24c 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -353,7 +353,7 @@ def _small_base(i, base):
   
 @njit
 def _large_base(i, base):
-    ALPHANUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+    ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
     rep = []
     exponent = int(np.log(i)/np.log(base))
     term = int(i/base**exponent)
-- 
2.43.0


From 4c5804be2ee00cec1b93d6128b5be6c0c0d22d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 03/62] fix: convert_corr could not be called with the
 deprecated convertTo keyword

---
 coniii/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index b19a24c..011f42e 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -560,7 +560,7 @@ def split_concat_params(p, n):
         i += 1
     return splitp
 
-def convert_corr(si, sisj, convert_to, concat=False, **kwargs):
+def convert_corr(si, sisj, convert_to=None, concat=False, **kwargs):
     """Convert single spin means and pairwise correlations between {0,1} and {-1,1}
     formulations.
 
@@ -588,7 +588,7 @@ def convert_corr(si, sisj, convert_to, concat=False, **kwargs):
     if 'convertTo' in kwargs.keys():
         from warnings import warn
         warn("convertTo kwarg is deprecated as of v1.1.2. Use convert_to instead.")
-        convert_to = convertTo
+        convert_to = kwargs['convertTo']
     elif len(kwargs.keys())>0:
         raise TypeError("Unexpected keyword argument.")
 
-- 
2.43.0


From dc620b23b272640c014b06adda77a4e8f9cc3e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 04/62] fix: k_corr ignored exclude_empty

---
 coniii/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 011f42e..62f1c11 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -243,6 +243,7 @@ def k_corr(X, k,
         for counter,ijk in enumerate(combinations(range(N), k)):
             p = np.prod(X[:,ijk], axis=1)
             kcorr[counter] = p[p!=0].mean()
+        return kcorr
     
     if weights is None:
         weights = np.ones(S)/S
-- 
2.43.0


From 7f2b1bb723d6928953d6e53e7b0649094e2dcb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 05/62] fix: coarse_grain_with_func paired a column with itself
 when no similarity was positive

---
 coniii/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 62f1c11..df5b2b5 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1330,8 +1330,9 @@ def coarse_grain_with_func(X, n_times, sim_func, coarse_func):
     # Combine sets of spins with the largest pairwise correlations
     for coarseix in range(n_times):
         n = coarseX.shape[1]
-        cij = squareform(sim_func(coarseX))
+        cij = squareform(sim_func(coarseX)).astype(float)
         assert cij.shape==(n,n)
+        np.fill_diagonal(cij, -np.inf)  # a column is never paired with itself
         ix = list(range(coarseX.shape[1]))
         
         newClusters = []
-- 
2.43.0


From 07f199ccfc1ddf2c3f3e00a2c73f75af090e0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 06/62] fix: pair_corr overflowed for samples of small integers
 when normalizing per entry

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index df5b2b5..c0abe9e 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -172,7 +172,7 @@ def pair_corr(X,
     # Calculate pairwise correlations depending on whether or not exclude_empty was set or not.
     if type(weights) is tuple:
         si = X.sum(0) * weights[0]
-        sisj = (X.T.dot(X))[np.triu_indices(X.shape[1],k=1)] * weights[1]
+        sisj = (X.T.astype(float).dot(X))[np.triu_indices(X.shape[1],k=1)] * weights[1]
     else:
         si = (X*weights[:,None]).sum(0)
         sisj = (X.T.dot(X*weights[:,None]))[np.triu_indices(X.shape[1],k=1)]
-- 
2.43.0


From 0f30dee4490f66d7384e31f255b8ef2452740592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 07/62] fix: calc_overlap overflowed for samples of small
 integers

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index c0abe9e..6bb2575 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -107,7 +107,7 @@ def calc_overlap(sample,ignore_zeros=False):
         Instead of normalizing by the number of spins, normalize by the minimum number of
         nonzero spins.
     """
-    overlap = sample.dot(sample.T)
+    overlap = sample.astype(float).dot(sample.T)
     if ignore_zeros:
         countZeros = np.zeros((len(sample),len(sample),2))
         countZeros[:,:,0] = (sample==0).sum(1)[:,None]
-- 
2.43.0


From b4bae41deda3298b42616273c7e65afcb8ff12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 08/62] fix: multinomial truncated instead of rounding

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 6bb2575..8536cfd 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -519,7 +519,7 @@ def unravel_index(ijk, n):
 def multinomial(*args):
     from scipy.special import factorial
     assert sum(args[1:])==args[0]
-    return int(np.exp( np.log(factorial(args[0])) - sum([np.log(factorial(a)) for a in args[1:]]) ))
+    return int(round(np.exp( np.log(factorial(args[0])) - sum([np.log(factorial(a)) for a in args[1:]]) )))
 
 def _expand_binomial(a, b, n=2):
     """Expand a product of binomials that have the same coefficients given by a and b.
-- 
2.43.0


From 6aed7e055cd18bb7531a84acab9498da383cbb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 09/62] fix: sparse solvers failed when only a single parameter
 is fit

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index dbd407f..046bf10 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -120,7 +120,7 @@ class Solver():
         for i, ix in enumerate(self.parameterIx[1:]):
             insertionIx.extend([i+1] * (ix-self.parameterIx[i]-1))
         if self.parameterIx[-1]<(nParams - 1):
-            insertionIx.extend([i+2] * (nParams - self.parameterIx[-1] - 1))
+            insertionIx.extend([len(self.parameterIx)] * (nParams - self.parameterIx[-1] - 1))
 
         #assert np.insert(initial_guess, insertionIx, 0).size==nParams
         self.insertionIx = insertionIx
-- 
2.43.0


From 46b0881efc9364be04562ffce422698cb89130f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 10/62] fix: Solver.logp failed for a single state

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 046bf10..662382a 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -162,7 +162,7 @@ class Solver():
             assert isinstance(sample, np.ndarray)
             assert set(np.unique(sample)) <= frozenset((-1,0,1))
         if sample.ndim==1:
-            sample = s[None,:]
+            sample = sample[None,:]
 
         # only iterate over unique states in sample
         us, uix = np.unique(sample, axis=0, return_inverse=True)
-- 
2.43.0


From 7b2d2143b5280af71c4bf9ffeb40bd4583b5e92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 11/62] fix: MPF dropped the adj and calc_de functions given by
 the user

---
 coniii/solvers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 662382a..ff0a2b0 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -491,9 +491,8 @@ class MPF(Solver):
         self.basic_setup(sample, model, calc_observables, iprint, model_kwargs=default_model_kwargs)
         if adj is None:
             from .utils import adj
-            self.adj = adj
-        if calc_de is None:
-            self.calc_de = calc_de  # imported from utils.py
+        self.adj = adj
+        self.calc_de = calc_de
         
     @staticmethod
     def worker_objective_task( s, Xcount, adjacentStates, params, calc_e ):
-- 
2.43.0


From afa096b478efed0a237428556c085186c3455871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 12/62] fix: MPF failed when restricted to non-data neighbours
 and its log objective had a wrong gradient

---
 coniii/solvers.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index ff0a2b0..b06962f 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -597,25 +597,25 @@ class MPF(Solver):
 
         obj = 0.
         objGrad = np.zeros((params.size))
-        power = np.zeros((len(Xuniq), len(adjacentStates[0])))  # energy differences
-        for i,s in enumerate(Xuniq):
-            power[i,:] = .5*( self.model.calc_e(s[None,:], params) -
-                              self.model.calc_e(adjacentStates[i], params) )
+        # energy differences; the number of adjacent states can differ between data states
+        power = np.concatenate([.5*( self.model.calc_e(s[None,:], params) -
+                                     self.model.calc_e(adjacentStates[i], params) )
+                                for i,s in enumerate(Xuniq)])
+        count = np.repeat(Xcount, [len(a) for a in adjacentStates])
             
-        obj = logsumexp( power + np.log(Xcount)[:,None] -np.log(Xcount.sum()) )
+        obj = logsumexp( power + np.log(count) -np.log(Xcount.sum()) )
         
         if self.calc_de is None:
             return obj
 
         # coefficients that come out from taking derivative of exp
         for i in range(params.size):
-            gradcoef = np.zeros((len(Xuniq), len(adjacentStates[0])))  
-            for j,s in enumerate(Xuniq): 
-                gradcoef[j,:] = .5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
+            gradcoef = np.concatenate([.5 * ( self.calc_de(s[None,:],i) -
+                                              self.calc_de(adjacentStates[j],i) )
+                                       for j,s in enumerate(Xuniq)])
             power -= power.max()
-            objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
-                          (np.exp(power)*Xcount[:,None]).sum())
-        objGrad -= np.log(Xcount.sum())
+            objGrad[i] = ((gradcoef*np.exp(power)*count).sum() /
+                          (np.exp(power)*count).sum())
         
         if objGrad.size==1:
             raise Exception("")
@@ -643,7 +643,7 @@ class MPF(Solver):
                 for i,t in enumerate(adjacentStates[-1]):
                     if np.any(np.all(t[None,:]==Xuniq,1)):
                         ix[i] = False
-                if np.sum(ix)==X.shape[1]:
+                if not ix.any():
                     raise Exception("This data set does not satisfy MPF assumption that each \
                                     state be connected to at least one non-data state (?)")
                 adjacentStates[-1] = adjacentStates[-1][ix]
-- 
2.43.0


From fc4d5d534746b91bc754c6c9b1d3ed4df561c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 13/62] fix: Enumerate.solve failed with given constraints when
 set up with only a system size

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index b06962f..0bbae0f 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -262,12 +262,12 @@ class Enumerate(Solver):
             Output from scipy.optimize.root.
         """
         
-        if not initial_guess is None:
-            assert initial_guess.size==self.constraints.size
-        else: initial_guess = np.zeros(self.constraints.size)
         if constraints is None:
             constraints = self.constraints
             assert not constraints is None
+        if not initial_guess is None:
+            assert initial_guess.size==constraints.size
+        else: initial_guess = np.zeros(constraints.size)
         
         # default solver routine
         if use_root:
-- 
2.43.0


From 3e89cbf5035ca6e942da0d014690aa67186680f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 14/62] fix: sparse solvers rejected the constraints of their
 own sample for proper parameter subsets

---
 coniii/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 0bbae0f..58097ee 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -402,8 +402,8 @@ class SparseEnumerate(Solver):
             assert initial_guess.size==self.parameterIx.size
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
-            constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not self.constraints is None
+            constraints = self.constraints[self.parameterIx]
         
         # default solver routine
         if use_root:
@@ -1188,8 +1188,8 @@ class SparseMCH(Solver):
             assert initial_guess.size==self.parameterIx.size
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
-            constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not self.constraints is None
+            constraints = self.constraints[self.parameterIx]
 
 
         # set up for solution
-- 
2.43.0


From af72bbebf51ff6d0edbb23352bba1f53d2f01291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 15/62] fix: a 2x2 parameter matrix was rejected by the Ising
 model

---
 coniii/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/models.py b/coniii/models.py
index 3109061..8fbe790 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -149,7 +149,7 @@ class Ising(Model):
             assert multipliers>1, "System size must be greater than 1."
             self.n = multipliers
             multipliers = np.zeros(self.n+self.n*(self.n-1)//2)
-        if len(multipliers)==2:
+        if len(multipliers)==2 and getattr(multipliers, 'shape', None)!=(2,2):
             # case where two vectors are given
             self.n = len(multipliers[0])
             assert self.n*(self.n-1)/2==len(multipliers[1]), "Must be n fields and (n choose 2) couplings."
-- 
2.43.0


From ced7a5bc968519867b0dd30b8f42b48cd89510c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 16/62] fix: C++ samplers misread multipliers that are not
 contiguous doubles

---
 cpp/samplers.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 8787239..b378e99 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -306,7 +306,10 @@ Ising::Ising(int n, np::ndarray new_multipliers, int seed)
 void Ising::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // the data may be of another type or not be contiguous
+    np::ndarray data = np::from_object(new_multipliers, np::dtype::get_builtin<double>(), 1, 1,
+                                       np::ndarray::CARRAY_RO);
+    double* input_ptr = reinterpret_cast<double*>(data.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
@@ -396,7 +399,10 @@ Potts3::Potts3(int n, np::ndarray new_multipliers, int seed)
 void Potts3::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n*3+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // the data may be of another type or not be contiguous
+    np::ndarray data = np::from_object(new_multipliers, np::dtype::get_builtin<double>(), 1, 1,
+                                       np::ndarray::CARRAY_RO);
+    double* input_ptr = reinterpret_cast<double*>(data.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
-- 
2.43.0


From 8f1157a5d837d78384dcef04b70a9909130cfd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 17/62] fix: new multipliers of the C++ Ising sampler left its
 couplings unchanged

---
 cpp/samplers.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index b378e99..03e04f2 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -285,18 +285,9 @@ Ising::Ising(int n, std::vector<double> multipliers, int seed)
 
 Ising::Ising(int n, np::ndarray new_multipliers, int seed)
  : Sampler(n, new_multipliers, seed) {
-     int counter = 0;
-
      // read in numpy array
      readin_multipliers(new_multipliers);
 
-     // setup couplings by copying to a matrix
-     for (int i=0; i<(n-1); ++i) {
-         for (int j=i+1; j<n; ++j) {
-             couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
-             counter++;
-         }
-     }
      // check that diagonal is zero
      for (int i=0; i<n; ++i) {
          assert (couplingMat[i][i]==0);
@@ -314,6 +305,15 @@ void Ising::readin_multipliers(np::ndarray new_multipliers) {
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
     }
+
+    // setup couplings by copying to a matrix
+    int counter = 0;
+    for (int i=0; i<(n-1); ++i) {
+        for (int j=i+1; j<n; ++j) {
+            couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
+            counter++;
+        }
+    }
 };
 
 // Initialize samples with random -1, 1 values
-- 
2.43.0


From d57ba955ddd14452e81eaa57c8257cd76cc61432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 18/62] fix: Potts3 drew its serial samples from the Ising
 sampler

---
 coniii/samplers.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a8c6258..275c3d4 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1816,6 +1816,35 @@ class Potts3(Metropolis):
             self.generate_sample = self.generate_sample_py
             self.generate_sample_parallel = self.generate_sample_parallel_py
 
+    def generate_sample_boost(self,
+                               sample_size,
+                               n_iters=1000,
+                               burn_in=None,
+                               systematic_iter=False):
+        """Generate Metropolis samples using C++ and boost.
+
+        Parameters
+        ----------
+        sample_size : int
+            Number of samples.
+        n_iters : int, 1000
+            Number of Metropolis iterations between samples.
+        burn_in : int, None
+            If not set, will be the same value as n_iters.
+        systematic_iter : bool, False
+            If True, iterate through each element of system by increment index by one. 
+        """
+        
+        burn_in = burn_in or n_iters
+        assert sample_size>0 and n_iters>-1 and burn_in>-1
+        
+        bsampler = BoostPotts3(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
+        bsampler.generate_sample(sample_size,
+                                 burn_in,
+                                 n_iters,
+                                 systematic_iter)
+        self.sample = bsampler.fetch_sample().astype(int)
+
     def generate_sample_parallel_boost(self,
                                         sample_size,
                                         n_iters=1000,
-- 
2.43.0


From 42d6c4bcdb59234854d226f84ad1ee282962dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 19/62] fix: replicas of ParallelTempering did not draw from
 the given random number generator

---
 coniii/samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 275c3d4..b46f6f0 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -682,7 +682,9 @@ class ParallelTempering(Sampler):
 
         self.replicas = []
         for i,b in enumerate(self.beta):
-            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e, boost=False) )
+            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e,
+                                             rng=np.random.RandomState(self.rng.randint(2**31-1)),
+                                             boost=False) )
             # give each replica an index
             self.replicas[i].index = i
         self.burn_in_replicas()
-- 
2.43.0


From 5eb29e2f1caa36f0893fc72fc3b7bdcd059399b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 20/62] fix: WolffIsing failed with current numpy (np.bool)

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index b46f6f0..be25c29 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -367,7 +367,7 @@ class WolffIsing(Sampler):
         # (1-exp(-2*J))
 
         # Find neighbors but keep only neighbors that have not already been visited.
-        ix = np.zeros((self.n),dtype=np.bool)
+        ix = np.zeros((self.n),dtype=bool)
         ix[alreadyMarked] = True
         ix[site] = True
         neighbors = iterate_neighbors(self.n,ix,self.expdJ[:,site],self.rng.rand(self.n)).tolist()
-- 
2.43.0


From ea599373c301af67cd61b23ec2455b1f3e6d9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 21/62] fix: WolffIsing replaced the initial site 0 by a random
 one

---
 coniii/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index be25c29..63b7455 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -322,7 +322,8 @@ class WolffIsing(Sampler):
         self.expdJ = np.exp(-2*state[:,None]*J*state[None,:])
 
         # Choose random site.
-        initialsite = initialsite or self.rng.randint(n)
+        if initialsite is None:
+            initialsite = self.rng.randint(n)
         cluster = self.build_cluster(state,initialsite)
         
         # Flip cluster?
-- 
2.43.0


From 8614d79edd31a0010d02016b8cad00c268cbb5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 22/62] fix: check_e_logp imported a module that is not part of
 the package

---
 coniii/samplers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 63b7455..03274b4 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -2431,8 +2431,6 @@ def check_e_logp(sample, calc_e):
     calc_e
     """
 
-    from misc.utils import unique_rows
-
     uniqueix = unique_rows(sample,return_inverse=True)
     uniqStates = sample[unique_rows(sample)]
 
-- 
2.43.0


From 0e88aafc6a07c456a9035ae1dc74cc7179b80190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 23/62] fix: Ising2D could not be set up with a field per
 lattice point or a nonzero integer field

---
 coniii/ising/automaton.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 2f959e1..b94f78d 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -28,10 +28,7 @@ class Ising2D():
         self.dim = dim
         self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
-        if type(h) is float or type(h) is type(int):
-            self.h = np.zeros(dim)+h
-        else:
-            self.h = h or np.zeros(dim)
+        self.h = np.zeros(dim)+h
         self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
-- 
2.43.0


From aad9828ef921f805a4e8e7d8ddda101b0419cdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 24/62] fix: local fields of Ising2D entered the energy with
 the wrong sign

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index b94f78d..83a1d7c 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -99,7 +99,7 @@ class Ising2D():
             dE-=2*J
         
         # Local field.
-        dE-=2*lattice[i,j]*h
+        dE+=2*lattice[i,j]*h
         
         if dE<=0:
             lattice[i,j]*=-1
-- 
2.43.0


From 492db4368c4bc14d3777920b9d1978e9b7ce0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 25/62] fix: initial lattice of Ising2D ignored the given
 random number generator

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 83a1d7c..432691b 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -26,10 +26,10 @@ class Ising2D():
         
         assert len(dim)==2, "Must specify only x and y dimensions."
         self.dim = dim
-        self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
         self.h = np.zeros(dim)+h
         self.rng = rng or np.random.RandomState()
+        self.lattice = ((self.rng.rand(*dim)<.5)*2.-1).astype(np.int8)
 
     def iterate(self, n_iters, systematic=True):
         """
-- 
2.43.0


From 1dfd82e21d22a66861185dfd0186762e3a4b8981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 26/62] fix: coarse_grain failed for lattices that are not
 square

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 432691b..39f5fb0 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -126,7 +126,7 @@ def coarse_grain(lattice, factor):
 
     for i in range(factor):
         for j in range(factor):
-            reLattice+=lattice[i::factor,j::factor][:reL,:reL]
+            reLattice+=lattice[i::factor,j::factor][:reL,:reLattice.shape[1]]
     reLattice=np.sign(reLattice)
     # when there is a tie, randomly choose a direction
     reLattice[reLattice==0]=np.random.choice([-1,1], size=(reLattice==0).sum())
-- 
2.43.0


From 4b1d9dafce82d589675500c6e9e3e9157ab44bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 27/62] fix: cooccurrence_matrix overflowed for samples of
 small integers

---
 coniii/mean_field_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 11e3c4a..bb38510 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -454,7 +454,7 @@ def cooccurrence_matrix(samples, keep_diag=True):
     ndarray
     """
 
-    mat = samples.T.dot(samples)
+    mat = samples.T.astype(float).dot(samples)
     mat = mat*(1 - np.tri(len(mat), k=keep_diag*-1))  # only modify entries above diagonal
     mat /= len(samples)  # mat /= np.sum(mat)
     return mat
-- 
2.43.0


From a5dcb4a091afbe48938213570c3a8e165ae71ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 28/62] fix: pseudoLogLikelihood summed over the local fields
 of all spins for every spin

---
 coniii/pseudo_inverse_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 42d72bd..aaf7933 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -217,7 +217,7 @@ def pseudoLogLikelihood(samples,J,minSize=0):
                 
     (Could probably be made more efficient.)
     """
-    return scipy.sum([ conditionalLogLikelihood(r,samples,J,minSize) \
+    return scipy.sum([ conditionalLogLikelihood(r,samples,J[r],minSize) \
                        for r in range(len(J)) ])
 
 
-- 
2.43.0


From 0ba6df14459009dab7843874c09d64d8800a3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 29/62] fix: equation files for Potts models with more than 10
 states could not be written

---
 coniii/enumerate_potts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/enumerate_potts.py b/coniii/enumerate_potts.py
index a51e035..324f69b 100644
--- a/coniii/enumerate_potts.py
+++ b/coniii/enumerate_potts.py
@@ -146,7 +146,7 @@ class PythonFileWriterBase():
             for i in range(self.n):
                 siCoeffs = []
                 for s in allStates:
-                    if s[i]==str(k):
+                    if int(s[i], 36)==k:
                         siCoeffs.append('1')
                     else:
                         siCoeffs.append('0')
@@ -216,7 +216,7 @@ class SpecificFieldGenericCouplings(PythonFileWriterBase):
             for s in xpotts_states(n, k):
                 term = ''
                 for i in range(n):
-                    term += 'h[%d]+'%(int(s[i])*n+i)
+                    term += 'h[%d]+'%(int(s[i], 36)*n+i)
 
                 for counter,(i,j) in enumerate(combinations(range(n),2)):
                     if s[i]==s[j]:
-- 
2.43.0


From f7b0fcc1cb96e7c2ac94b7e8b9b5287c63e31275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 30/62] fix: serial Python sampling failed after a parallel run
 and did not continue from its last state

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 03274b4..138fe14 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1260,7 +1260,7 @@ class Metropolis(Sampler):
         
         burn_in = burn_in or n_iters
         if (initial_sample is None and
-            (self._samples is None or len(self._samples)!=sample_size)):
+            (self._samples is None or len(self._samples)!=1)):
             self._samples = self.random_sample(1)
         elif not initial_sample is None:
             msg = "Initial sample can only be one state for sequential sampling."
-- 
2.43.0


From 73168d536848af1040b47f949ed845a76234b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 31/62] fix: Ising front end rejected lists of fields and
 couplings

---
 coniii/ising/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/ising/utils.py b/coniii/ising/utils.py
index 8bc36c9..1c60b83 100644
--- a/coniii/ising/utils.py
+++ b/coniii/ising/utils.py
@@ -55,12 +55,14 @@ class Ising():
             h = np.zeros(n)+h
         else:
             assert len(h)==n, "Number of fields should be equal to n."
+            h = np.asarray(h)
         if J is None:
             J = np.zeros(n*(n-1)//2)
         elif not hasattr(J, '__len__'):
             J = np.zeros(n*(n-1)//2)+J
         else:
             assert len(J)==(n*(n-1)//2), "Number of couplings should be equal to n choose 2."
+            J = np.asarray(J)
         assert h.ndim==1 and J.ndim==1, "Both h and J must be provided as vectors."
         
         self.n = n
-- 
2.43.0


From c5383f8e15e6265473b2397345e12da642a9de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 32/62] fix: conditional sampling overwrote the initial sample
 given by the user

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 138fe14..a926886 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1571,7 +1571,7 @@ class Metropolis(Sampler):
         if initial_sample is None:
             self.sample = self.rng.choice([-1,1], size=(sample_size, nSubset))
         else:
-            self.sample = initial_sample
+            self.sample = np.array(initial_sample)  # filled in below, the given array must stay as it is
         
         # Redefine calc_e to calculate energy and putting back in the fixed spins.
         def cond_calc_e(state, theta):
-- 
2.43.0


From 025550bb04d89bb3ce437928250e89d08c82b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 33/62] fix: MCH failed with samples of the Python sampler

---
 coniii/solvers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 58097ee..3095933 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -964,10 +964,12 @@ class MCH(Solver):
         print("evaluating jac")
         for i in range(len(self._multipliers)):
             dlamda[i] += eps
-            dConstraintsPlus = self.mch_approximation(self.model.sample, dlamda)
+            dConstraintsPlus = self.mch_approximation(self.model.sample.astype(np.int64),
+                                                       dlamda)
 
             dlamda[i] -= 2*eps
-            dConstraintsMinus = self.mch_approximation(self.model.sample, dlamda)     
+            dConstraintsMinus = self.mch_approximation(self.model.sample.astype(np.int64),
+                                                       dlamda)     
 
             jac[i,:] = (dConstraintsPlus-dConstraintsMinus)/(2*eps)
             dlamda[i] += eps
@@ -1014,7 +1016,7 @@ class MCH(Solver):
             #dMultipliers /= dMultipliers.max()
             
             # Predict distribution with new parameters.
-            estConstraints = self.mch_approximation(self.model.sample, dlamda)
+            estConstraints = self.mch_approximation(self.model.sample.astype(np.int64), dlamda)
             distance = np.linalg.norm(estConstraints - constraints)
                         
             # Counter.
-- 
2.43.0


From 7de58f2fe161bb4456a2a96765939f324a238e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 34/62] fix: ClusterExpansion lost the co-occurrences of
 clusters that are not in increasing order

---
 coniii/mean_field_ising.py | 3 +--
 coniii/solvers.py          | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index bb38510..07b38b6 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -160,9 +160,8 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
                               even when meanFieldPriorLmbda = 0.
     """
     
-    coocMatCluster = coocCluster(coocMat,cluster)
     # in case we're given an upper-triangular coocMat:
-    coocMatCluster = symmetrizeUsingUpper(coocMatCluster)
+    coocMatCluster = coocCluster(symmetrizeUsingUpper(coocMat),cluster)
     
     outer = scipy.outer
     N = len(cluster)
diff --git a/coniii/solvers.py b/coniii/solvers.py
index 3095933..f1f694f 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2221,7 +2221,9 @@ class ClusterExpansion(Solver):
                 - log( 1.-pi-pj+pij )
             J = np.array( [ [ Jii, 0.5*Jij ], [ 0.5*Jij, Jjj ] ] )
         else:
-            coocMatCluster = mean_field_ising.coocCluster(coocMat,cluster)
+            # coocMat may be upper triangular and cluster need not be sorted
+            coocMatCluster = mean_field_ising.coocCluster(mean_field_ising.symmetrizeUsingUpper(coocMat),
+                                                          cluster)
             Jinit = None # <--- potential for speed-up here
             J = mean_field_ising.findJmatrixAnalytic_CoocMat(coocMatCluster,
                                                              Jinit=Jinit,
-- 
2.43.0


From e1ae15240e11df5eb478ed8ef6344c1225d9186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 35/62] fix: ClusterExpansion failed when expanding about the
 mean field entropy

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index f1f694f..57c1966 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2339,7 +2339,7 @@ class ClusterExpansion(Solver):
             deltaJcluster -= J0cluster
         elif meanFieldRef:
             # subtract mean field reference entropy
-            S0cluster,J0cluster = SmeanField(cluster,coocMat,
+            S0cluster,J0cluster = mean_field_ising.SmeanField(cluster,coocMat,
                 meanFieldPriorLmbda,numSamples)
             deltaScluster -= S0cluster
             deltaJcluster -= J0cluster
@@ -2497,7 +2497,7 @@ class ClusterExpansion(Solver):
         if independentRef:
             ent, J0 = self.Sindependent(cluster, coocMat)
         elif meanFieldRef:
-            ent, J0 = SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
+            ent, J0 = mean_field_ising.SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
         else:
             ent = 0.
             J0 = np.zeros((N,N))
-- 
2.43.0


From 03dcbd113b668150665b418394afc827fdaee55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 36/62] fix: analytic entropies of one and two spins failed in
 ClusterExpansion

---
 coniii/solvers.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 57c1966..3c087ac 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2206,19 +2206,18 @@ class ClusterExpansion(Solver):
             raise Exception
         elif (len(cluster) == 1) and useAnalyticResults:
             p = coocMat[cluster[0],cluster[0]]
-            J = np.array( [ [ -log( p / (1.-p) ) ] ] )
+            J = np.array( [ [ -np.log( p / (1.-p) ) ] ] )
         elif (len(cluster) == 2) and useAnalyticResults:
-            i = min(cluster[0],cluster[1])
-            j = max(cluster[0],cluster[1])
+            i, j = cluster
             pi = coocMat[i,i]
             pj = coocMat[j,j]
-            pij = coocMat[i,j]
-            Jii1 = -log( pi / (1.-pi) )
-            Jjj1 = -log( pj / (1.-pj) )
-            Jii = -log( (pi - pij)/(1.-pi-pj+pij) )
-            Jjj = -log( (pj - pij)/(1.-pi-pj+pij) )
-            Jij = - log( pij ) + log( pi - pij ) + log( pj - pij )    \
-                - log( 1.-pi-pj+pij )
+            pij = coocMat[min(i,j),max(i,j)]
+            Jii1 = -np.log( pi / (1.-pi) )
+            Jjj1 = -np.log( pj / (1.-pj) )
+            Jii = -np.log( (pi - pij)/(1.-pi-pj+pij) )
+            Jjj = -np.log( (pj - pij)/(1.-pi-pj+pij) )
+            Jij = - np.log( pij ) + np.log( pi - pij ) + np.log( pj - pij )    \
+                - np.log( 1.-pi-pj+pij )
             J = np.array( [ [ Jii, 0.5*Jij ], [ 0.5*Jij, Jjj ] ] )
         else:
             # coocMat may be upper triangular and cluster need not be sorted
-- 
2.43.0


From 2bed7eec3b89bc115a16503f26d6ca4ac044dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:03 +0000
Subject: [PATCH 37/62] fix: mean field couplings were wrong for degenerate
 correlations

---
 coniii/mean_field_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 07b38b6..7bedd5d 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -186,7 +186,7 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
             gamma = meanFieldPriorLmbda / numSamples
         else:
             gamma = 0.
-        mq,vq = scipy.linalg.eig(M)
+        mq,vq = scipy.linalg.eigh(M)
         mqhat = 0.5*( mq-gamma +                        \
                 scipy.sqrt((mq-gamma)**2 + 4.*gamma) )
         jq = 1./mqhat #1. - 1./mqhat
-- 
2.43.0


From 1e4d77824aab38e9117516dd3f16512ff352fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 38/62] fix: ClusterExpansion and RegularizedMeanField rejected
 couplings that are asymmetric by rounding

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 3c087ac..1c2bf4e 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2511,7 +2511,7 @@ class ClusterExpansion(Solver):
         # convert J to {-1,1} basis
         h = -J.diagonal()
         J = -zero_diag(J)
-        self.multipliers = convert_params( h, squareform(J)*2, '11', concat=True )
+        self.multipliers = convert_params( h, squareform(J, checks=False)*2, '11', concat=True )
 
         if full_output:
             return self.multipliers, ent, clusters, deltaSdict, deltaJdict
@@ -2728,7 +2728,7 @@ class RegularizedMeanField(Solver):
         # convert J to {-1,1} basis
         h = -J.diagonal()
         J = -zero_diag(J)
-        self.multipliers = convert_params( h, squareform(J)*2, '11', concat=True )
+        self.multipliers = convert_params( h, squareform(J, checks=False)*2, '11', concat=True )
 
         return self.multipliers
 
-- 
2.43.0


From 26d37a0aac9e77ed7c4c20ca5c000cc387cfe44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 39/62] fix: MPF assumed as many neighbours as spins when
 restricted to non-data neighbours

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 1c2bf4e..259d2c0 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -639,7 +639,7 @@ class MPF(Solver):
             adjacentStates.append( self.adj(s).astype(int) )
             # Remove states already in data
             if not all_connected:
-                ix = np.zeros((s.size))==0
+                ix = np.zeros(len(adjacentStates[-1]))==0
                 for i,t in enumerate(adjacentStates[-1]):
                     if np.any(np.all(t[None,:]==Xuniq,1)):
                         ix[i] = False
-- 
2.43.0


From c60a637ab3b91bb93ecd6cfdf613da2b92209c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 40/62] fix: Pseudo.pseudo_log_likelihood could not be called

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 259d2c0..b1eca3b 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2130,7 +2130,7 @@ class Pseudo(Solver):
             J should be symmetric
         """
 
-        return np.sum([ cond_log_likelihood(r,X,J) for r in range(len(J)) ])
+        return np.sum([ self.cond_log_likelihood(r,X,J[r]) for r in range(len(J)) ])
 #end Pseudo
 
 
-- 
2.43.0


From 37809ef81f327824ea768597ff4fbd3dd21b6ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 41/62] fix: couplings of the initial guess were permuted in
 Pseudo for Ising models

---
 coniii/solvers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index b1eca3b..ac8cc7a 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1755,9 +1755,8 @@ class Pseudo(Solver):
         # reformat initial_guess for easy looping later
         initial_guessAsMat = replace_diag(squareform(initial_guess[self.n:]), initial_guess[:self.n])
         for i in range(1,self.n):
-            tmp = initial_guessAsMat[i,i]
-            initial_guessAsMat[i,i] = initial_guessAsMat[i,0]
-            initial_guessAsMat[i,0] = tmp
+            # field first, couplings remain in order
+            initial_guessAsMat[i,:i+1] = np.roll(initial_guessAsMat[i,:i+1], 1)
         # initialize variables that will be used later 
         obs = [self.calc_observables_r(r, self.sample) for r in range(self.n)]
         soln = []  # list of output from scipy.optimize.minimize for each spin
-- 
2.43.0


From 6c2e70a897cf47b871634cb5d56f71f0dd946784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 42/62] fix: large blocks overflowed in coarse_grain of
 lattices

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 39f5fb0..507dc3b 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -121,7 +121,7 @@ def coarse_grain(lattice, factor):
     renormalized_lattice : ndarray
     """
 
-    reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int16)
+    reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int64)
     reL=len(reLattice)
 
     for i in range(factor):
-- 
2.43.0


From 025a423ccedd783b26f14f15c405df585918a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 43/62] fix: Ising2D.iterate repeated random updates more often
 than asked

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 507dc3b..b3821a0 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -62,7 +62,7 @@ class Ising2D():
         counter = 0
         while counter < n_iters:
             single_iteration(lattice)
-            counter += self.dim[0]*self.dim[1]
+            counter += self.dim[0]*self.dim[1] if systematic else n_iters
         self.lattice = lattice
 
     @staticmethod
-- 
2.43.0


From 09d6a2f0bf9fe5bea4779dce372f01ab8dcf5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 44/62] fix: RegularizedMeanField returned twice the mean field
 couplings

---
 coniii/solvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index ac8cc7a..4cf9c7b 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2722,7 +2722,6 @@ class RegularizedMeanField(Solver):
         J = mean_field_ising.JmeanField(coocMatData,
                                         meanFieldPriorLmbda=meanFieldPriorLmbdaMin,
                                         numSamples=numDataSamples)
-        J = J + J.T
 
         # convert J to {-1,1} basis
         h = -J.diagonal()
-- 
2.43.0


From 7c828d5a26b13791bc51e1a937d63686f8b1fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 45/62] fix: RegularizedMeanField sampled and compared in the
 wrong basis

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 4cf9c7b..d87e277 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2669,8 +2669,8 @@ class RegularizedMeanField(Solver):
            if min_covariance:
                J = tildeJ2normalJ(J, empiricalFreqs)
            burninDefault = 100*self.n
-           J = J + J.T
-           self.model.set_multipliers(np.concatenate([J.diagonal(), squareform(zero_diag(-J))]))
+           self.model.set_multipliers(convert_params(-J.diagonal(), -2*squareform(zero_diag(J), checks=False),
+                                                     '11', concat=True))
            self.model.generate_sample(burninDefault, 1)
            return self.model.sample
 
@@ -2690,7 +2690,7 @@ class RegularizedMeanField(Solver):
             
             # calculate residuals, including prior if necessary
             if min_independent: # Default
-                dc = mean_field_ising.isingDeltaCooc(isingSamples, coocMatData)/coocStdevs
+                dc = mean_field_ising.isingDeltaCooc((isingSamples+1)/2, coocMatData)/coocStdevs
             elif min_covariance:
                 dc = isingDeltaCovTilde(isingSamples, covTildeMean, empiricalFreqs)/covTildeStdevs
             else:
-- 
2.43.0


From 21ea46a58862333e02006c949a85571de6e3cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:23 +0000
Subject: [PATCH 46/62] fix: WolffIsing updates could not be compiled by numba

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a926886..06bcd42 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -396,7 +396,7 @@ def iterate_neighbors(n,ix,expdJ,r):
     """
 
     counter=0
-    neighbors=np.zeros((n), dtype=int)
+    neighbors=np.zeros(n, dtype=np.int64)
     for i in range(n):
         # Don't include neighbors that are already marked.
         # Check against probability as specified in Wolff's paper for forming link.
-- 
2.43.0


From b8f3f2def877081a02ab1f1e9f3526b0efef0cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:23 +0000
Subject: [PATCH 47/62] fix: WolffIsing refused couplings given as a matrix

---
 coniii/samplers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 06bcd42..e3292cd 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -228,7 +228,10 @@ class WolffIsing(Sampler):
             Local fields.
         """
 
-        assert len(J)==(len(h)*(len(h)-1)//2)
+        if np.ndim(J)==1:
+            assert len(J)==(len(h)*(len(h)-1)//2)
+        else:
+            assert J.shape==(len(h),len(h))
 
         from scipy.spatial.distance import squareform
 
-- 
2.43.0


From 0437040d2317a01193d0df1e5a5f4460c07099b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:23 +0000
Subject: [PATCH 48/62] fix: WolffIsing parallel sampling ignored the sampler's
 generator

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index e3292cd..89dd452 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -293,7 +293,7 @@ class WolffIsing(Sampler):
             return s
         
         pool=mp.Pool(mp.cpu_count())
-        sample=np.vstack(pool.map(f,list(zip(sample,np.random.randint(2**31-1,size=samplesize)))))
+        sample=np.vstack(pool.map(f,list(zip(sample,self.rng.randint(2**31-1,size=samplesize)))))
         pool.close()
         return sample
 
-- 
2.43.0


From 26fc2fde132fec2b9e74d1823b5d2f3e67dea54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:45 +0000
Subject: [PATCH 49/62] fix: Ising2D.iterate ignored the generator given

---
 coniii/ising/automaton.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index b3821a0..9b0efd0 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -44,14 +44,16 @@ class Ising2D():
 
         if not systematic:
             @njit
-            def single_iteration(lattice, dim=self.dim, h=self.h, J=self.J):
+            def single_iteration(lattice, seed, dim=self.dim, h=self.h, J=self.J):
+                np.random.seed(seed)
                 for i in range(n_iters):
                     i, j=np.random.randint(dim[0]), np.random.randint(dim[1])
                     flip_metropolis(i, j, h[i,j], J, lattice)
         else:
             # Fast iteration using jit.
             @njit
-            def single_iteration(lattice, dim=self.dim, h=self.h, J=self.J, size=self.dim[0]*self.dim[1]):
+            def single_iteration(lattice, seed, dim=self.dim, h=self.h, J=self.J, size=self.dim[0]*self.dim[1]):
+                np.random.seed(seed)
                 # Randomly order the lattice points for flipping or else lattice will be very important.
                 ix = np.random.permutation( np.arange(dim[0]*dim[1]) )[:size]
                 for ix_ in ix:
@@ -61,7 +63,7 @@ class Ising2D():
         lattice=self.lattice
         counter = 0
         while counter < n_iters:
-            single_iteration(lattice)
+            single_iteration(lattice, self.rng.randint(2**31-1))  # numba has its own generator
             counter += self.dim[0]*self.dim[1] if systematic else n_iters
         self.lattice = lattice
 
-- 
2.43.0


From b28a1583feb80ab5b7485a6d326857fd0a8bff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 50/62] fix: compiled conditional energy read a fixed spin's
 value from the wrong place

---
 coniii/samplers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 89dd452..4d95440 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1749,9 +1749,9 @@ def define_jit_cond_calc_e(n, calc_e, fixed_subset):
         i0 = 0
         stateix = 0
         # Fill all spins in between fixed ones.
-        for i in range(0, fixed_subset.size, 2):
-            i = fixed_subset[i]
-            s = fixed_subset[i+1]
+        for k in range(0, fixed_subset.size, 2):
+            i = fixed_subset[k]
+            s = fixed_subset[k+1]
             for ii in range(i0, i):
                 fullstate[0,ii] = state[0,stateix] 
                 stateix += 1
-- 
2.43.0


From 5f2101940f49a7136c20f4548230c65f4c208b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 51/62] fix: spec_cluster merged or lost connected components

---
 coniii/samplers.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 4d95440..ea3772c 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -602,16 +602,22 @@ def spec_cluster(L,exact=True):
         Graph Laplacian
     """
 
-    from scipy.linalg import eig
+    from scipy.linalg import eigh
 
-    eig,v = eig(L)
     if exact:
-        clusterix = np.nonzero(eig==0)[0]
-    else:
-        clusterix = np.nonzero(np.isclose(eig,0))[0]
+        # eigenvalues are only zero up to rounding, so follow the edges instead
+        adj = np.array(L)!=0
+        np.fill_diagonal(adj, False)
+        return [np.sort(c) for c in iter_cluster(adj)]
+
+    eig,v = eigh(L)
+    v = v[:,np.isclose(eig,0)]
+    # eigenvectors may mix clusters, but the projection on their span does not
+    together = np.isclose(v.dot(v.T),0)==0
     cluster = []
-    for i in clusterix:
-        cluster.append(np.nonzero(np.isclose(v[:,i],0)==0)[0])
+    for i in range(len(together)):
+        if not together[i,:i].any():
+            cluster.append(np.nonzero(together[i])[0])
     return cluster
 #end SWIsing
 
-- 
2.43.0


From 019ddbc31e86cfae0b25f988af99c8295ccce7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 52/62] fix: jit_sample never rejected a Hamiltonian step

---
 coniii/samplers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index ea3772c..4409c09 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -2122,7 +2122,7 @@ def jit_sample(theta, x0, nBurn, dt, leapfrogN, randNormal, randUnif):
         H = (p*p).sum()/2. + E
         
         # Leapfrog. Involves sandwiching gradient descent on q around x gradient descent.
-        xnew = x
+        xnew = x.copy()  # x must survive a rejection
         gnew = g
         for t in range(leapfrogN):
             p -= dt*gnew/2.
@@ -2140,7 +2140,8 @@ def jit_sample(theta, x0, nBurn, dt, leapfrogN, randNormal, randUnif):
         if (dH<0) or (randUnif[counter]<np.exp(-dH)):
             g = gnew
             E = Enew
-            x = xnew
+            x[:] = xnew
+    return x
 
 
 class Heisenberg3DSampler(Sampler):
-- 
2.43.0


From 0a3eb1de22cfe380f77db8897cc1d2dac74d00c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 53/62] fix: nearby vectors with sigma=0 read angles beyond the
 array

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 4409c09..15d5c61 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -2406,7 +2406,7 @@ def jit_sample_nearby_vector(rseed,v,nSamples,otheta,ophi,sigma):
 
     # Generate random vector with roughly Gaussian distribution on spherical surface about z-axis.
     if sigma==0:
-        theta = np.zeros((1))
+        theta = np.zeros((nSamples))
     else:
         theta = np.zeros((nSamples))
         for i in range(nSamples):
-- 
2.43.0


From 4af30ea6843f3ecef6ce19acc1f7b0f4460b72bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 54/62] fix: exact entropy and co-occurrences for large
 parameters

---
 coniii/mean_field_ising.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 7bedd5d..4b57f65 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -28,6 +28,7 @@ import scipy
 import scipy.optimize
 import copy
 import numpy as np
+from scipy.special import logsumexp
 #import scipy.weave # for efficient fourth-order matrix calculation
 
 exp, cosh = scipy.exp, scipy.cosh
@@ -398,9 +399,9 @@ def analyticEntropy(J):
     """
     In nats.
     """
-    Z = unsummedZ(J)
-    p = Z / scipy.sum(Z)
-    return - scipy.sum( p * scipy.log(p) )
+    logZ = unsummedLogZ(J)
+    logp = logZ - logsumexp(logZ)
+    return - scipy.sum( scipy.exp(logp) * logp )
 
 # 7.20.2017 moved from inverseIsing.py
 # 2.7.2014
@@ -548,7 +549,8 @@ def coocExpectations(J,hext=0,zeroBelowDiag=True,minSize=0):
     ell = len(J)
     fp = scipy.array( fightPossibilities(ell,minSize) )
     coocp = scipy.array([ scipy.outer(f,f) for f in fp ])
-    Z = unsummedZ(J,hext,minSize)
+    logZ = unsummedLogZ(J,hext,minSize)
+    Z = scipy.exp( logZ - logZ.max() )  # normalization cancels
     coocSym = dot(coocp.T,Z)/sum(Z)
     if zeroBelowDiag:
         coocTri = coocSym * scipy.tri(ell).T
-- 
2.43.0


From ccd589fd5c51bff841f434d58bc934e967402a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 55/62] fix: reweighted averages for large changes of the
 multipliers

---
 coniii/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 8536cfd..b355739 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -966,6 +966,7 @@ def define_ising_helper_functions():
     def mch_approximation(samples, dlamda):
         """Function for making MCH approximation step for Ising model."""
         dE = calc_e(samples, dlamda)
+        dE -= dE.min()  # avoid overflow
         ZFraction = len(dE) / np.exp(logsumexp(-dE))
         predsisj = pair_corr(samples, weights=np.exp(-dE)/len(dE), concat=True) * ZFraction  
         assert not (np.any(predsisj < -1.00000001) or
@@ -1202,6 +1203,7 @@ def define_potts_helper_functions(k):
         """
 
         dE = calc_e(sample, dlamda)
+        dE -= dE.min()  # avoid overflow
         ZFraction = len(dE) / np.exp(logsumexp(-dE))
         predsisj = (np.exp(-dE[:,None]) / len(dE) * calc_observables(sample)).sum(0) * ZFraction  
         assert not ((predsisj<0).any() or
-- 
2.43.0


From bfc2f718327a91d071380111287c427cf20e1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 56/62] fix: pseudo-likelihood and its derivatives for large
 multipliers

---
 coniii/pseudo_inverse_ising.py |  6 +++---
 coniii/solvers.py              | 25 +++++++++++--------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index aaf7933..2e0453a 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -32,6 +32,7 @@
 #import scipy.weave
 #import sys
 import scipy.optimize
+from scipy.special import expit
 
 import pylab # for testing
 
@@ -106,8 +107,7 @@ def conditionalLogLikelihood(r,samples,Jr,minSize=0):
     # vector with zeros on samples affected by minSize
     filterVec = 1 - samples[:,r] * ( sum(samples,axis=1) <= minSize )
 
-    invPs = 1. + exp( energies )
-    logLs = - filterVec * log( invPs )
+    logLs = - filterVec * scipy.logaddexp( 0, energies )
 
     return scipy.sum( logLs )
 
@@ -160,7 +160,7 @@ def conditionalHessian(r,samples,Jr,minSize=0,pairCoocRhat=None):
     # vector with zeros on samples affected by minSize
     filterVec = 1 - samples[:,r] * ( sum(samples,axis=1) <= minSize )
 
-    energyMults = exp(-energies)/( (1.+exp(-energies))**2 ) # (# samples)x(1)
+    energyMults = expit(energies) * expit(-energies) # (# samples)x(1)
     #filteredSigmaRtildeSq = filterVec * (2.*samples[:,r] + 1.) # (# samples)x(1)
     filteredSigmaRtildeSq = filterVec # (sigmaRtildeSq = 1)
 
diff --git a/coniii/solvers.py b/coniii/solvers.py
index d87e277..eaa7604 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -6,6 +6,7 @@ from scipy.optimize import minimize, fmin_ncg, minimize_scalar, root
 import multiprocess as mp
 import copy
 from scipy.optimize import check_grad
+from scipy.special import expit
 from warnings import warn
 
 from . import mean_field_ising
@@ -1773,8 +1774,8 @@ class Pseudo(Solver):
                 guess[multipliersrix] = params
                 multipliers = self.get_multipliers_r(r, guess)[0]
                 E = -obs[r].dot(multipliers)
-                loglikelihood = -np.log( 1+np.exp(2*E) ).sum()
-                dloglikelihood = ( -(1/(1+np.exp(2*E)) * np.exp(2*E))[:,None] * 2*obs[r] ).sum(0)
+                loglikelihood = -np.logaddexp( 0, 2*E ).sum()
+                dloglikelihood = ( -expit(2*E)[:,None] * 2*obs[r] ).sum(0)
                 return -loglikelihood, dloglikelihood
         
             soln.append(minimize(f, initial_guessAsMat[r], jac=True, **solver_kwargs))
@@ -1837,10 +1838,8 @@ class Pseudo(Solver):
             for r in range(self.n):
                 multipliers, multipliersrix = self.get_multipliers_r(r, params)
                 E = -obs[r].dot(multipliers)
-                loglikelihood += -np.log( 1+np.exp(2*E) ).sum() 
-                dloglikelihood[multipliersrix] += ( -(1/(1+np.exp(2*E)) *
-                                                    np.exp(2*E))[:,None] *
-                                                    2*obs[r] ).sum(0)
+                loglikelihood += -np.logaddexp( 0, 2*E ).sum()
+                dloglikelihood[multipliersrix] += ( -expit(2*E)[:,None] * 2*obs[r] ).sum(0)
             return -loglikelihood, dloglikelihood
         
         soln = minimize(f, initial_guess, jac=True, **solver_kwargs)
@@ -1919,7 +1918,6 @@ class Pseudo(Solver):
                 loglikelihood += loglikelihoodPerSample.sum()
 
                 # calculate log likelihood gradient (take a derivative wrt to each parameter)
-                den = -np.exp(-loglikelihoodPerSample)
 
                 # iterate over each field
                 # note that we are taking the derivative of the loglikelihood divided by
@@ -1938,8 +1936,8 @@ class Pseudo(Solver):
                         notCurrentStateAndNoField = (~currentStateAndSameField) & (otherobsstate[r][:,ix]!=hix)
                         sgn[notCurrentStateAndNoField] = 0
 
-                        num += sgn * np.exp(-Edelta[:,ix])
-                    dloglikelihood[multipliersrix[hix]] += (num/den).sum()
+                        num += sgn * np.exp(loglikelihoodPerSample - Edelta[:,ix])
+                    dloglikelihood[multipliersrix[hix]] += -num.sum()
             
                 # derivative wrt to each coupling
                 for i,jix in enumerate(np.delete(range(self.n), r)):
@@ -1955,8 +1953,8 @@ class Pseudo(Solver):
                         sameStateAsR = self.sample[:,r]==self.sample[:,jix]
                         sgn[sameStateAsR] = -1
 
-                        num += sgn * np.exp(-Edelta[:,ix])
-                    dloglikelihood[multipliersrix[i+self.k]] += (num/den).sum()
+                        num += sgn * np.exp(loglikelihoodPerSample - Edelta[:,ix])
+                    dloglikelihood[multipliersrix[i+self.k]] += -num.sum()
             return -loglikelihood + cost_fcn(params), -dloglikelihood + cost_fcn_jac(params)
         
         #from scipy.optimize import check_grad, approx_fprime
@@ -2047,8 +2045,7 @@ class Pseudo(Solver):
         localFields = np.dot(Jr,samplesRhat.T) # (# X)x(1)
         energies = sigmaRtilde * localFields # (# X)x(1)
         
-        invPs = 1. + np.exp( energies )
-        logLs = np.log( invPs )
+        logLs = np.logaddexp( 0, energies )
 
         return -logLs.sum()
 
@@ -2097,7 +2094,7 @@ class Pseudo(Solver):
         if pairCoocRhat is None:
             pairCoocRhat = self.pair_cooc_mat(samplesRhat)
         
-        energyMults = np.exp(-energies)/( (1.+np.exp(-energies))**2 ) # (# X)x(1)
+        energyMults = expit(energies) * expit(-energies) # (# X)x(1)
         #filteredSigmaRtildeSq = filterVec * (2.*X[:,r] + 1.) # (# X)x(1)
         return np.dot( energyMults, pairCoocRhat )
 
-- 
2.43.0


From 797596ed067845e9dfd19bde960e97bbb787841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 57/62] fix: cluster expansion of a single spin

---
 coniii/solvers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index eaa7604..a65ce02 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2464,6 +2464,15 @@ class ClusterExpansion(Solver):
         clusters = {}
         size = 1
         clusters[1] = [ [i] for i in cluster ]
+        for gamma in clusters[1]:
+            # single spins always contribute, also when there is no pair to consider
+            self.deltaS(gamma, coocMat, deltaSdict, deltaJdict,
+                        iprint=veryVerbose,
+                        meanFieldRef=meanFieldRef,
+                        priorLmbda=priorLmbda,
+                        numSamples=numSamples,
+                        independentRef=independentRef,
+                        meanFieldPriorLmbda=meanFieldPriorLmbda)
 
         while len(clusters[size]) > 0:
             clusters[ size+1 ] = []
-- 
2.43.0


From a1884047750cfe17628aa03d1d9aa2e03c23b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 58/62] fix: the random number generator of a model can be
 replaced before its sampler is set up

---
 coniii/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coniii/models.py b/coniii/models.py
index 8fbe790..bce4018 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -15,6 +15,8 @@ from .samplers import Potts3 as mcPotts3
 class Model():
     """Basic model class outline.
     """
+    sampler = None  # set by setup_sampler()
+
     def __init__(self, multipliers, rng=None, verbose=False):
         """
         Parameters
@@ -75,6 +77,7 @@ class Model():
         rng : np.random.RandomState
         """
         self.rng = rng
+        if self.sampler is None: return  # will get passed to sampler when it is set up
         self.sampler.rng = rng
 
     def generate_sample(self, n_iters, burn_in,
-- 
2.43.0


From cf3a5b2b2b0e1deb9f538e92755c4e7149ccd9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 59/62] fix: conditional sampling in Python starts from the
 initial sample given

---
 coniii/samplers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 15d5c61..58646aa 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1636,6 +1636,7 @@ class Metropolis(Sampler):
             if not systematic_iter:
                 def loop():
                     s = self.rng.choice([-1,1], size=nSubset)
+                    if not initial_sample is None: s[:] = initial_sample[0]
                     E = cond_calc_e(s[None,:], self.theta)
  
                     for j in range(burn_in):
@@ -1653,6 +1654,7 @@ class Metropolis(Sampler):
             else:
                 def loop():
                     s = self.rng.choice([-1,1], size=nSubset)
+                    if not initial_sample is None: s[:] = initial_sample[0]
                     E = cond_calc_e(s[None,:], self.theta)
  
                     for j in range(burn_in):
-- 
2.43.0


From 4f8587019509b27d69e6dcd8a91972326ff1e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 60/62] fix: conditional likelihood of samples stored as
 unsigned integers

---
 coniii/pseudo_inverse_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 2e0453a..bec855e 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -107,7 +107,7 @@ def conditionalLogLikelihood(r,samples,Jr,minSize=0):
     # vector with zeros on samples affected by minSize
     filterVec = 1 - samples[:,r] * ( sum(samples,axis=1) <= minSize )
 
-    logLs = - filterVec * scipy.logaddexp( 0, energies )
+    logLs = -( filterVec * scipy.logaddexp( 0, energies ) )  # filterVec may be of unsigned type
 
     return scipy.sum( logLs )
 
-- 
2.43.0


From 9ea4efd19067c27c7e0337579b7ffe1911499660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:49 +0000
Subject: [PATCH 61/62] fix: models derived from Potts3 were sampled with the
 Ising sampler

---
 coniii/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/models.py b/coniii/models.py
index bce4018..cb6d618 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -55,7 +55,7 @@ class Model():
             self.sampler = Metropolis(self.n, self.multipliers, self.calc_e,
                                       rng=self.rng,
                                       **sampler_kwargs)
-        elif sample_method=='metropolis' and type(self) is Potts3:
+        elif sample_method=='metropolis' and isinstance(self, Potts3):
             self.sampleMethod = sample_method
             self.sampler = mcPotts3(self.n, self.multipliers, self.calc_e,
                                     rng=self.rng,
-- 
2.43.0


From 1c0883e88ba318e4c4110c16361ef0cfdeaed6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:49 +0000
Subject: [PATCH 62/62] fix: pseudo-likelihood of models derived from Potts3
 used the Ising form

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index a65ce02..ded92bd 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1723,7 +1723,7 @@ class Pseudo(Solver):
         
         if type(self.model) is Ising and not force_general:
             return self._solve_ising(**kwargs)
-        elif type(self.model) is Potts3:
+        elif isinstance(self.model, Potts3):
             return self._solve_potts(**kwargs)
         return self._solve_general(**kwargs)
         
-- 
2.43.0


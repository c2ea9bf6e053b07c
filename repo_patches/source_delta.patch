From 4565e6e82313ed6a5e11912bd0bcd65ebff8febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 01/30] fix: do not modify a user-supplied prior array and
 always normalise priors

Priors passed as arrays were normalised in place and then used as the working
array of the forward pass, so a second fit gave different results. Arrays and
functions that happen to sum to exactly one were not converted to densities.
---
 bayesloop/core.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a84b573..41aa51f 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -208,13 +208,12 @@ class Study(object):
         if isinstance(prior, np.ndarray):
             if np.all(prior.shape == self.grid[0].shape):
                 norm = np.sum(prior)
-                if norm != 1.:
-                    prior /= norm
-                    prior /= np.prod(self.latticeConstant)
-                    if not silent:
+                prior = prior/norm  # creates a copy, the array supplied by the user must not be altered
+                prior /= np.prod(self.latticeConstant)  # convert to prob. density
+                if not silent:
+                    if norm != 1.:
                         print('    + Set prior (numpy array). Values have been re-normalized.')
-                else:
-                    if not silent:
+                    else:
                         print('    + Set prior (numpy array).')
                 return prior
             else:
@@ -224,13 +223,12 @@ class Study(object):
         if hasattr(prior, '__call__'):
             values = prior(*self.grid)*np.ones(self.gridSize)  # last factor for cases like lambda x: 1.
             norm = np.sum(values)
-            if norm != 1.:
-                values /= norm
-                values /= np.prod(self.latticeConstant)
-                if not silent:
+            values /= norm
+            values /= np.prod(self.latticeConstant)  # convert to prob. density
+            if not silent:
+                if norm != 1.:
                     print('    + Set prior (function): {}. Values have been re-normalized.'.format(prior.__name__))
-            else:
-                if not silent:
+                else:
                     print('    + Set prior (function): {}'.format(prior.__name__))
             return values
 
-- 
2.43.0


From 9a0714a6483b0e10214192adc4340c7213bda0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:47 +0000
Subject: [PATCH 02/30] fix: Bernoulli likelihood must not modify the parameter
 grid

---
 bayesloop/observationModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 10277c7..11da539 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -427,7 +427,7 @@ class Bernoulli(ObservationModel):
         Returns:
             ndarray: Discretized Bernoulli pdf (with same shape as grid)
         """
-        temp = grid[0][:]  # make copy of parameter grid
+        temp = grid[0].copy()  # make copy of parameter grid
         temp[temp > 1.] = 0.  # p < 1
         temp[temp < 0.] = 0.  # p > 0
 
-- 
2.43.0


From fb2d0ec2e251907b3575ef34e341c16bec35bba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:50 +0000
Subject: [PATCH 03/30] fix: Poisson likelihood fails for data of type float

np.math.factorial raises a TypeError for float arguments, i.e. for data given
as lists or containing missing values.
---
 bayesloop/observationModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 11da539..a04b9ba 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -499,7 +499,7 @@ class Poisson(ObservationModel):
         Returns:
             ndarray: Discretized Poisson pdf (with same shape as grid)
         """
-        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / (np.math.factorial(dataSegment[0]))
+        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / factorial(dataSegment[0])
 
     def estimateParameterValues(self, name, rawData):
         """
-- 
2.43.0


From 3791d9cf33e03b776a7185a55ae7d7a02529e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:54 +0000
Subject: [PATCH 04/30] fix: OnlineStudy.step passes the time of the previous
 step to transition models

The attribute formattedData is never filled by OnlineStudy, so the time step was
always -1 and time-dependent transition models were evaluated at the wrong time.
---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 41aa51f..c659bc2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2162,7 +2162,7 @@ class OnlineStudy(HyperStudy):
                     alphai = prior*likelihood
                 else:  # in all other time steps transform "old" alpha/posterior
                     alphai = self.transitionModel.computeForwardPrior(self.parameterPosterior[i][j],
-                                                                      len(self.formattedData)-1)*likelihood
+                                                                      self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
                 # update log-evidence list
-- 
2.43.0


From d0b433a4e166de3c383ef5967256d602256fafb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:19 +0000
Subject: [PATCH 05/30] fix: rebuild cached random-walk kernels when the
 parameter grid changes

The kernel cache of the alpha-stable and bivariate random walks only looked at the
hyper-parameter values, so a kernel for a different grid spacing/size was reused.
---
 bayesloop/transitionModels.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index f8f494a..5c85fc6 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -167,14 +167,17 @@ class AlphaStableRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        axisToTransform = self.study.observationModel.parameterNames.index(self.selectedParameter)
+
+        # if hyper-parameter values or the parameter grid have changed, a new convolution kernel needs to be created
+        kernelParameters = [self.hyperParameterValues, list(self.latticeConstant), list(self.study.gridSize),
+                            axisToTransform]
+        if not self.kernelParameters == kernelParameters:
             normedC = []
             for lc in self.latticeConstant:
                 normedC.append(self.hyperParameterValues[0] / lc)
             alpha = [self.hyperParameterValues[1]] * len(normedC)
 
-            axisToTransform = self.study.observationModel.parameterNames.index(self.selectedParameter)
             selectedC = normedC[axisToTransform]
             normedC = [0.]*len(normedC)
             normedC[axisToTransform] = selectedC
@@ -184,7 +187,7 @@ class AlphaStableRandomWalk(TransitionModel):
                 self.kernel *= self.createKernel(c, a, i+1)
 
             self.kernel = self.kernel.T
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
         newPrior /= np.sum(newPrior)
@@ -881,13 +884,14 @@ class BivariateRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values or the grid spacing have changed, a new convolution kernel needs to be created
+        kernelParameters = [self.hyperParameterValues, list(self.latticeConstant)]
+        if not self.kernelParameters == kernelParameters:
             normedSigma1 = self.hyperParameterValues[0] / self.latticeConstant[0]
             normedSigma2 = self.hyperParameterValues[1] / self.latticeConstant[1]
 
             self.kernel = self.createKernel(normedSigma1, normedSigma2, self.hyperParameterValues[2])
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = convolve2d(posterior, self.kernel, mode='same')
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From a8da38b731c966499cbd3608ae86e555fad4ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:21 +0000
Subject: [PATCH 06/30] fix: BivariateRandomWalk overwrites sigma2 if rho is
 given as a list

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 5c85fc6..b949b8d 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -858,7 +858,7 @@ class BivariateRandomWalk(TransitionModel):
         if isinstance(value2, (list, tuple)):
             value2 = np.array(value2)
         if isinstance(value3, (list, tuple)):
-            value2 = np.array(value3)
+            value3 = np.array(value3)
 
         self.study = None
         self.latticeConstant = None
-- 
2.43.0


From 22f83e4c878b073ecacc1b58170bfa153fa2fa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:24 +0000
Subject: [PATCH 07/30] fix: Deterministic transition model ignores a list of
 hyper-priors

The attribute prior was not set at all in this case, so the hyper-priors did not
match the hyper-parameters in a HyperStudy.
---
 bayesloop/transitionModels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index b949b8d..26d8fbf 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -541,6 +541,7 @@ class Deterministic(TransitionModel):
                     raise ConfigurationError('{} priors are defined for transition model "{}", but model contains {}'
                                              'hyper-parameters.'
                                              .format(len(prior), self.function.__name__, len(argspec.defaults)))
+                self.prior = list(prior)
             # if single prior is defined, pack it in a list
             else:
                 self.prior = [prior]
-- 
2.43.0


From 9c6080a299790d41eb93699b9d3d8311006dde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:07 +0000
Subject: [PATCH 08/30] fix: change-points and Independent reset to the prior
 used in the first time step

Priors given as SymPy random variables were ignored (flat prior used instead) and
functions returning a scalar broke the reset.
---
 bayesloop/transitionModels.py | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 26d8fbf..1ae3d1a 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -301,13 +301,8 @@ class ChangePoint(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t == self.hyperParameterValues[0]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # use the same prior distribution as in the first time step
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
@@ -350,13 +345,8 @@ class Independent(TransitionModel):
         Returns:
             ndarray: Prior parameter distribution for subsequent time step
         """
-        # check if custom prior is used by observation model
-        if hasattr(self.study.observationModel.prior, '__call__'):
-            prior = self.study.observationModel.prior(*self.study.grid)
-        elif isinstance(self.study.observationModel.prior, np.ndarray):
-            prior = deepcopy(self.study.observationModel.prior)
-        else:
-            prior = np.ones(self.study.gridSize)  # flat prior
+        # use the same prior distribution as in the first time step
+        prior = self.study._computePrior(silent=True)
 
         # normalize prior (necessary in case an improper prior is used)
         prior /= np.sum(prior)
@@ -803,13 +793,8 @@ class SerialTransitionModel(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t in np.array(self.hyperParameterValues)[self.changePointMask]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # use the same prior distribution as in the first time step
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
-- 
2.43.0


From 50262530e5d928cd63e6e8ca189f1421f3f38d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 09/30] fix: backward pass of ChangePoint and Independent
 counts the prior twice

The backward message across a parameter reset does not depend on the parameter
values before the reset; returning the prior multiplied all posterior
distributions before the reset by the prior a second time.
---
 bayesloop/transitionModels.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 1ae3d1a..4f13620 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -312,7 +312,11 @@ class ChangePoint(TransitionModel):
             return posterior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        if t - 1 == self.hyperParameterValues[0]:
+            # parameter values before the change-point are independent of all data points after the change-point
+            return np.ones(self.study.gridSize)
+        else:
+            return posterior
 
 
 class Independent(TransitionModel):
@@ -353,7 +357,8 @@ class Independent(TransitionModel):
         return prior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        # parameter values are independent of all subsequent data points
+        return np.ones(self.study.gridSize)
 
 
 class RegimeSwitch(TransitionModel):
-- 
2.43.0


From 9f80afe6209ce8f587955f7ff2ccf74768cd9e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:30 +0000
Subject: [PATCH 10/30] fix: do not modify user-supplied hyper-prior arrays,
 accept integer-valued hyper-priors

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c659bc2..da2efc1 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1190,7 +1190,7 @@ class HyperStudy(Study):
 
             elif hasattr(prior, '__call__'):  # prior specified by function
                 try:
-                    priorValues = np.array([prior(value) for value in values])
+                    priorValues = np.array([prior(value) for value in values], dtype=float)
                     norm = np.sum(priorValues)
                     priorValues /= norm
                     priorValues /= gridConst
@@ -1205,7 +1205,7 @@ class HyperStudy(Study):
             elif isinstance(prior, Iterable):  # prior specified by list/array
                 if len(prior) != len(values):
                     raise ConfigurationError('Failed to set hyper-prior for "{}" from list/array.'.format(name))
-                priorValues = prior
+                priorValues = np.array(prior, dtype=float)  # copy, the array supplied by the user must not be altered
                 norm = np.sum(priorValues)
                 priorValues /= norm
                 priorValues /= gridConst
-- 
2.43.0


From 416e19a0fe4b1041a84112467551c6bba357c15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:33 +0000
Subject: [PATCH 11/30] fix: loadData keeps timestamps of previous data if new
 timestamps are omitted

---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index da2efc1..35e25bd 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -115,6 +115,7 @@ class Study(object):
             else:
                 if not silent:
                     print('! WARNING: Number of timestamps does not match number of data points. Omitting timestamps.')
+                self.rawTimestamps = np.arange(len(self.rawData))
         else:  # set default timestamps (integer range)
             self.rawTimestamps = np.arange(len(self.rawData))
 
-- 
2.43.0


From 1822d7cdfe3c1f20d7bae895bdaa1951d653726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:37 +0000
Subject: [PATCH 12/30] fix: fits that stop early leave uninitialised memory in
 the results

HyperStudy adds the local evidence of all fits, including those that were stopped
because the data is impossible for the given hyper-parameter values.
---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 35e25bd..a81422d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -352,11 +352,11 @@ class Study(object):
 
         # initialize array for posterior distributions
         if not evidenceOnly:
-            self.posteriorSequence = np.empty([len(self.formattedData)]+self.gridSize)
+            self.posteriorSequence = np.zeros([len(self.formattedData)]+self.gridSize)
 
         # initialize array for computed evidence (marginal likelihood)
         self.logEvidence = 0
-        self.localEvidence = np.empty(len(self.formattedData))
+        self.localEvidence = np.zeros(len(self.formattedData))
 
         # set prior distribution for forward-pass
         alpha = self._computePrior(silent=silent)
-- 
2.43.0


From d2cf0e0d5ebce5b25e22d23bfcea31120c55222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:41 +0000
Subject: [PATCH 13/30] fix: local evidence of hyper-studies is not a weighted
 average

The hyper-prior values are densities and need to be multiplied by the grid
constant (as it is done for the evidence of the average model).
---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a81422d..2e088d3 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1407,6 +1407,7 @@ class HyperStudy(Study):
 
             # compute local evidence of average model
             self.localEvidence = np.sum((np.array(self.localEvidenceList).T*self.flatHyperPriorValues).T, axis=0)
+            self.localEvidence *= np.prod(self.hyperGridConstant)  # hyper-prior values are probability densities
 
             if not silent:
                 print('    + Computed local evidence of average model')
-- 
2.43.0


From 0fecd258d118f3d47ec4a94b8777bcd789566fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:25 +0000
Subject: [PATCH 14/30] fix: OnlineStudy.getPD ignores density,
 getParameterMeanValue applies the time index twice

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 2e088d3..8f2fdb4 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2263,7 +2263,7 @@ class OnlineStudy(HyperStudy):
         """
         See :meth:`.OnlineStudy.getParameterDistribution`.
         """
-        return self.getParameterDistribution(t, name, plot=plot, **kwargs)
+        return self.getParameterDistribution(t, name, plot=plot, density=density, **kwargs)
 
     def getCurrentParameterDistribution(self, name, plot=False, density=True, **kwargs):
         """
@@ -2539,7 +2539,7 @@ class OnlineStudy(HyperStudy):
 
         parameterDistribution = self.posteriorSequence[timeIndex]
 
-        mean = np.sum(parameterDistribution[t] * self.grid[paramIndex])
+        mean = np.sum(parameterDistribution * self.grid[paramIndex])
         return mean
 
     def getParameterMeanValues(self, name):
-- 
2.43.0


From 56b177ed8c75f3c6e2c5aa8c408e4d2601196f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:29 +0000
Subject: [PATCH 15/30] fix: OnlineStudy.getHyperParameterDistribution returns
 densities and fails for t='avg'

The method is documented to return probability values (like its counterpart for the
current time step); averaging failed if transition models have different numbers of
hyper-parameter values.
---
 bayesloop/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 8f2fdb4..542a286 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2681,16 +2681,16 @@ class OnlineStudy(HyperStudy):
         # access hyper-parameter distribution
         if t == 'avg':
             # compute time-averaged distribution
-            hyperParameterDistribution = np.sum(self.hyperParameterSequence, axis=0)/len(self.hyperParameterSequence)
+            hyperParameterDistribution = np.sum([hpd[tmIndex] for hpd in self.hyperParameterSequence],
+                                                axis=0)/len(self.hyperParameterSequence)
         else:
             # try to access distribution of specified time step
             if t not in self.formattedTimestamps:
                 raise PostProcessingError('Supplied time ({}) does not exist in data or is out of range.'.format(t))
             timeIndex = list(self.formattedTimestamps).index(t)  # to select corresponding posterior distribution
 
-            hyperParameterDistribution = self.hyperParameterSequence[timeIndex]
+            hyperParameterDistribution = self.hyperParameterSequence[timeIndex][tmIndex]
 
-        hyperParameterDistribution = hyperParameterDistribution[tmIndex]
         axesToMarginalize = list(range(len(self.hyperParameterNames[tmIndex])))
         axesToMarginalize.remove(hpIndex)
 
@@ -2698,6 +2698,7 @@ class OnlineStudy(HyperStudy):
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])  # convert to probability
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
-- 
2.43.0


From 6c0bcaf23073d1755c8d20c726631c2a38ae186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:32 +0000
Subject: [PATCH 16/30] fix: getting a hyper-parameter distribution alters the
 stored distribution

If there is nothing to marginalise, the marginal distribution is a view of the stored
distribution, which was rescaled in place on every call.
---
 bayesloop/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 542a286..3a763a2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1566,7 +1566,7 @@ class HyperStudy(Study):
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)  # convert to probability
 
         x = self.flatHyperParameters[paramIndex]
         if plot:
@@ -1642,7 +1642,7 @@ class HyperStudy(Study):
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)  # convert to probability
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
         if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
@@ -2757,7 +2757,7 @@ class OnlineStudy(HyperStudy):
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
-- 
2.43.0


From 1eca19aceb61bfbe6394f5225358781ec4192e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:08 +0000
Subject: [PATCH 17/30] fix: plotting the parameter evolution alters the stored
 posterior of one-parameter models

---
 bayesloop/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 3a763a2..de53492 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1041,7 +1041,8 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize))
+        marginalPosteriorSequence = np.squeeze(
+            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
-- 
2.43.0


From db85c958ffaf809a21bf444df8a3eb018f426d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:12 +0000
Subject: [PATCH 18/30] fix: transition model distributions returned to the
 user are overwritten by the next step

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index de53492..1da34f1 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2395,9 +2395,9 @@ class OnlineStudy(HyperStudy):
             ndarray, ndarray: Arrays of transition model names and normalized probabilities.
         """
         if local:
-            return np.array(self.transitionModelNames), self.localTransitionModelDistribution
+            return np.array(self.transitionModelNames), self.localTransitionModelDistribution.copy()
         else:
-            return np.array(self.transitionModelNames), self.transitionModelDistribution
+            return np.array(self.transitionModelNames), self.transitionModelDistribution.copy()
 
     def getCTMD(self, local=False):
         """
-- 
2.43.0


From 57511ea84719bad5ba2bec989e2054a71258b81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:15 +0000
Subject: [PATCH 19/30] fix: OnlineStudy fails for single hyper-parameter
 values and integer transition model priors

---
 bayesloop/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 1da34f1..8fdd02b 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2051,7 +2051,7 @@ class OnlineStudy(HyperStudy):
             raise ConfigurationError('Length of transition model prior ({}) does not fit number of transition models '
                                      '({})'.format(len(transitionModelPrior), len(self.transitionModels)))
 
-        self.transitionModelPrior = np.array(transitionModelPrior)
+        self.transitionModelPrior = np.array(transitionModelPrior, dtype=float)
 
         if not np.sum(transitionModelPrior) == 1.:
             print('+ WARNING: Transition model prior does not sum up to one. Will re-normalize.')
@@ -2696,7 +2696,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
         marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])  # convert to probability
@@ -2755,7 +2755,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
         marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])
-- 
2.43.0


From 0cf4a718bd24ab66b19faed51edd705dfbc49e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:40 +0000
Subject: [PATCH 20/30] fix: hyper-studies do not restore hyper-parameter
 values set by the user

Change/break-points set to 'all' were replaced by the time stamps of the current data
(and kept them for subsequent data), and fits with only one valid combination of
hyper-parameter values did not use this combination.
---
 bayesloop/core.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 8fdd02b..7027ee8 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1264,6 +1264,9 @@ class HyperStudy(Study):
         """
         self.fitWarningCounter = 0
 
+        # store hyper-parameter values set by the user to restore them after the fit
+        userHyperParameters = self._unpackAllHyperParameters()
+
         # format data/timestamps once, so number of data segments is known and _createGrid() works properly
         self.formattedData = movingWindow(self.rawData, self.observationModel.segmentLength)
         self.formattedTimestamps = self.rawTimestamps[self.observationModel.segmentLength - 1:]
@@ -1426,7 +1429,7 @@ class HyperStudy(Study):
             self.localEvidenceList = []
 
             # restore hyper-parameter values (individual values have been set during fitting)
-            self._setAllHyperParameters(self.flatHyperParameters)
+            self._setAllHyperParameters(userHyperParameters)
 
             if not silent:
                 print('+ Finished fit.')
@@ -1439,8 +1442,15 @@ class HyperStudy(Study):
                 if len(self.hyperGridValues) == 0:
                     print('+ Transition model contains no hyper-parameters, switching to standard fit method.')
 
+            if len(self.hyperGridValues) == 1:
+                self._setAllHyperParameters(self.hyperGridValues[0])
+                self.hyperParameterDistribution = np.array([1.])/np.prod(self.hyperGridConstant)
+
             Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
 
+            # restore hyper-parameter values
+            self._setAllHyperParameters(userHyperParameters)
+
     def _parallelFit(self, idx, nJobs, forwardOnly, evidenceOnly, silent):
         """
         This method is called by the fit method of the HyperStudy class. It creates a copy of the current class
-- 
2.43.0


From 04eefe40645e4b3f5f69bc09d8c1cf2f706315e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:43 +0000
Subject: [PATCH 21/30] fix: parser uses the joint distribution of one time
 step for parameters at different times

---
 bayesloop/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index dfb3fe8..8ac7ffc 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -236,9 +236,10 @@ class Parser:
             # compute compound distribution of two (hyper-)parameters
             if (type(a) == Parameter and type(b) == Parameter and (not (a.study is b.study) or
                                                                        (a.study is None and b.study is None) or
-                                                                       (a.name == b.name and not (a.time == b.time)))) or \
+                                                                       not (a.time == b.time))) or \
                     (type(a) == HyperParameter and type(b) == HyperParameter and (not (a.study is b.study) or
-                                                                                      (a.study is None and b.study is None))) or \
+                                                                                      (a.study is None and b.study is None) or
+                                                                                      not (a.time == b.time))) or \
                     ((type(a) == HyperParameter) and (type(b) == Parameter) or
                              (type(b) == HyperParameter) and (type(a) == Parameter)):
 
-- 
2.43.0


From fdd69cac622305123cb653d03a660618acf7454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:46 +0000
Subject: [PATCH 22/30] fix: parser looks up the time index of all studies in
 the first study

---
 bayesloop/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 8ac7ffc..6296bcb 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -285,10 +285,10 @@ class Parser:
                                                          time=study.formattedTimestamps[-1],
                                                          study=study))
         else:
-            # compute index of timestamp
-            timeIndex = list(self.studies[0].formattedTimestamps).index(t)
-
             for study in self.studies:
+                # compute index of timestamp
+                timeIndex = list(study.formattedTimestamps).index(t)
+
                 names = study.observationModel.parameterNames
                 for i, name in enumerate(names):
                     index = study.observationModel.parameterNames.index(name)
@@ -333,7 +333,7 @@ class Parser:
                         else:
                             if study.storeHistory:
                                 # compute index of timestamp
-                                timeIndex = list(self.studies[0].formattedTimestamps).index(t)
+                                timeIndex = list(study.formattedTimestamps).index(t)
 
                                 dist = study.hyperParameterSequence[timeIndex][j] / \
                                        np.sum(study.hyperParameterSequence[timeIndex][j])
-- 
2.43.0


From 5f1482cf39aa7dcb2812de88075830ae0c098b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:32 +0000
Subject: [PATCH 23/30] fix: getParameterDistributions fails for studies with a
 single time step

---
 bayesloop/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7027ee8..b17a504 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -951,7 +951,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if len(dt) > 0 and not np.all(dt == dt[0]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -975,8 +975,7 @@ class Study(object):
 
         x = self.marginalGrid[paramIndex]
         dx = self.latticeConstant[paramIndex]
-        marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+        marginalPosteriorSequence = np.sum(self.posteriorSequence, axis=tuple(axesToMarginalize)).copy()
 
         if density:
             marginalPosteriorSequence /= dx
@@ -1020,7 +1019,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if len(dt) > 0 and not np.all(dt == dt[0]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -1041,8 +1040,7 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+        marginalPosteriorSequence = np.sum(self.posteriorSequence, axis=tuple(axesToMarginalize)).copy()
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
-- 
2.43.0


From 5a4dc1560dc749a407aca2e38bf942074ae712dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:08 +0000
Subject: [PATCH 24/30] fix: local evidence scaled by the grid volume element

After the first time step the predictive distribution sums up to one over the
grid, so its product with the likelihood must not be multiplied (forward pass)
or divided (full fit) by the volume element.
---
 bayesloop/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b17a504..d9a7574 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -400,7 +400,9 @@ class Study(object):
 
             # update log-evidence and compute local evidence
             self.logEvidence += np.log(norm)
-            self.localEvidence[i] = norm * np.prod(self.latticeConstant)  # integration yields evidence, not only sum
+            self.localEvidence[i] = norm
+            if i == 0:  # first prior is a density (integration, not only sum), later ones sum up to one
+                self.localEvidence[i] *= np.prod(self.latticeConstant)
 
             # alphas are stored as preliminary posterior distributions
             if not evidenceOnly:
@@ -459,8 +461,7 @@ class Study(object):
 
                 # compute local evidence
                 with np.errstate(invalid='ignore'):
-                    self.localEvidence[i] = 1./(np.sum(self.posteriorSequence[i]/likelihood) *
-                                                np.prod(self.latticeConstant))  # integration, not only sum
+                    self.localEvidence[i] = 1./np.sum(self.posteriorSequence[i]/likelihood)
 
                 # compute beta for next iteration
                 beta = self.transitionModel.computeBackwardPrior(beta*likelihood, self.formattedTimestamps[i])
-- 
2.43.0


From 825f3ea8d934c913592e536b889213f2295e914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 25/30] fix: OnlineStudy cannot continue after a getter raised
 an error

getParameterDistribution, getParameterDistributions and plotParameterEvolution
turn the stored history into arrays while they run. When they raised an error
(unknown parameter name or time stamp), the history was never turned back into
lists and the next call of step() failed.
---
 bayesloop/core.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d9a7574..c2786b5 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2262,11 +2262,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPD(self, t, name, plot=False, density=True, **kwargs):
@@ -2353,11 +2354,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPDs(self, name, plot=False, density=True, **kwargs):
@@ -2386,12 +2388,13 @@ class OnlineStudy(HyperStudy):
         self.posteriorMeanValues = np.array(self.posteriorMeanValues).T
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorMeanValues = list(self.posteriorMeanValues.T)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorMeanValues = list(self.posteriorMeanValues.T)
+            self.posteriorSequence = list(self.posteriorSequence)
 
     def getCurrentTransitionModelDistribution(self, local=False):
         """
-- 
2.43.0


From 8e81dce090696b2505300e43ca810d4e32fe77f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:53 +0000
Subject: [PATCH 26/30] fix: NotEqual fails for integer values of log10pMin on
 a hyper-parameter grid

NumPy integers (as in the hyper-grid of a HyperStudy in which all values are
integers) cannot be raised to negative powers; 10**np.int64(-1) raises a
ValueError.
---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 4f13620..c79d085 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -457,7 +457,7 @@ class NotEqual(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         newPrior = posterior.copy()
-        limit = (10**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
+        limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From 783a858c4cfeb5e264a2684771688722f76e7460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:57 +0000
Subject: [PATCH 27/30] fix: NotEqual turns a flat distribution into NaN

For a flat distribution (e.g. a flat prior with a missing first data point, or
the backward pass with a missing last data point), the inverted distribution is
zero everywhere and was divided by its vanishing sum; the complete posterior
sequence became NaN. The lower bound makes the result flat again.
---
 bayesloop/transitionModels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index c79d085..04e255c 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -460,7 +460,9 @@ class NotEqual(TransitionModel):
         limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
-        newPrior /= np.sum(newPrior)
+        norm = np.sum(newPrior)
+        if norm > 0.:  # a flat distribution contains no most probable value that could be excluded
+            newPrior /= norm
         newPrior[newPrior < limit] = limit
 
         # transformation above violates proper normalization; re-normalization needed
-- 
2.43.0


From ae45fe0a7d6e1ddce5c490ec441a06cafe913062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:55 +0000
Subject: [PATCH 28/30] fix: reject queries with unparsed trailing text instead
 of ignoring it

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 6296bcb..05b84d4 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -385,7 +385,7 @@ class Parser:
                                      'or none to obtain derived distribution.')
 
         # evaluate left side
-        parsedString = self.expr.parseString(reducedQuery).asList()[0]
+        parsedString = self.expr.parseString(reducedQuery, parseAll=True).asList()[0]
         derivedParameter = self._evaluate(parsedString)
 
         # if no relational operator in query, compute derived distribution
-- 
2.43.0


From 8ac9cf9952485dbe43fd719d89f6f34160b77bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:53 +0000
Subject: [PATCH 29/30] fix: duration distribution fails for more than two
 change- or break-points

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c2786b5..f340cc9 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1915,7 +1915,7 @@ class ChangepointStudy(HyperStudy):
 
         # loop over all hyper-grid points and collect probabilities for different durations
         for i, values in enumerate(self.allHyperGridValues[:, paramIndices]):
-            if values[1] > values[0]:
+            if self.mask[i] and values[1] > values[0]:
                 # get matching index in duration (rounding needed because of finite precision)
                 idx = np.where(duration.round(10) == (values[1]-values[0]).round(10))[0][0]
                 durationDistribution[idx] += self.hyperParameterDistribution[i]
-- 
2.43.0


From e00219632bbc5b035d1fd6f21237f4fb1358b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:12 +0000
Subject: [PATCH 30/30] fix: duration distribution lists the same duration
 several times for non-integer timestamps

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index f340cc9..2002445 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1910,7 +1910,7 @@ class ChangepointStudy(HyperStudy):
             paramIndices = paramIndices[::-1]
 
         values = self.hyperGridValues[:, paramIndices].T
-        duration = np.unique(values[1] - values[0])  # get all possible differences between time points
+        duration = np.unique((values[1] - values[0]).round(10))  # all possible differences between time points
         durationDistribution = np.zeros(len(duration))  # initialize array for distribution
 
         # loop over all hyper-grid points and collect probabilities for different durations
-- 
2.43.0


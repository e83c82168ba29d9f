From 4ada6a59f9b57819901ccb0ac6f8730319d51fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:54 +0000
Subject: [PATCH 01/17] fix: return the measured value when predicting at a
 time observed without error

---
 src/kfilter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index 77696c3..0867e21 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -82,6 +82,10 @@ std::pair<double, double> KalmanFilter1::Predict(double time) {
             break;
         }
     }
+    if (ipredict < time_.n_elem && time_(ipredict) == time && yerr_(ipredict) == 0.0) {
+        // the time series was measured without error at this time, so its value is known exactly
+        return std::pair<double, double>(y_(ipredict), 0.0);
+    }
         
     // Run the Kalman filter up to the point time_[ipredict-1]
     Reset();
@@ -226,6 +230,10 @@ std::pair<double, double> KalmanFilterp::Predict(double time) {
             break;
         }
     }
+    if (ipredict < time_.n_elem && time_(ipredict) == time && yerr_(ipredict) == 0.0) {
+        // the time series was measured without error at this time, so its value is known exactly
+        return std::pair<double, double>(y_(ipredict), 0.0);
+    }
     
     // Run the Kalman filter up to the point time_[ipredict-1]
     Reset();
-- 
2.43.0


From 4fcc6ad9f6af859ffbf275f717bbc7843ad22e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:35 +0000
Subject: [PATCH 02/17] fix: return simulated values in the requested order and
 skip times already known exactly

---
 src/include/kfilter.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 1e17728..9db8406 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -140,7 +140,8 @@ public:
         
         arma::vec ysimulated(time.n_elem);
         
-        time = arma::sort(time);
+        arma::uvec order = arma::sort_index(time);
+        time = time.elem(order);
         unsigned int insert_idx = 0;
         arma::vec tinsert(1);
         arma::vec dt_insert(1);
@@ -152,6 +153,10 @@ public:
             // first simulate the value at time(i)
             std::pair<double, double> ypredict = this->Predict(time(i));
             ysimulated(i) = RandGen.normal(ypredict.first, sqrt(ypredict.second));
+            if (ypredict.second == 0.0) {
+                // the value at this time is already known exactly
+                continue;
+            }
             // find the index where time_[insert_idx-1] < time(i) < time_[insert_idx]
             while (time_(insert_idx) < time(i)) {
                 insert_idx++;
@@ -180,7 +185,10 @@ public:
         mean.zeros(time_.n_elem);
         var.zeros(time_.n_elem);
         
-        return arma::conv_to<std::vector<double> >::from(ysimulated);
+        // return the simulated values in the order in which the times were requested
+        arma::vec yrequested(time.n_elem);
+        yrequested.elem(order) = ysimulated;
+        return arma::conv_to<std::vector<double> >::from(yrequested);
     }
     
     // Methods needed for interpolation and backcasting
-- 
2.43.0


From 54b1eebecaa271fa59046a7b324b4b486269ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:57 +0000
Subject: [PATCH 03/17] fix: use the z-transformed moving average coefficients
 in the ZCAR likelihood

---
 src/include/carpack.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 5cb173f..417b2b6 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -331,7 +331,6 @@ public:
 protected:
     int p_; // Order of the CAR(p) process
     bool order_lorentzians_; // force the lorentzian centroids to be in order?
-private:
     arma::vec ma_coefs_;
 };
 
@@ -359,7 +358,6 @@ public:
     }
 private:
     double kappa_; // minimum frequency resolved by the observation times
-    arma::vec ma_coefs_;
 };
 
 /*
-- 
2.43.0


From 5354399eff04cd8c4c1552bf3014304862241312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:18 +0000
Subject: [PATCH 04/17] fix: keep the model data in the time order used by the
 Kalman filter

---
 src/include/carpack.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 417b2b6..e4a2a0f 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -233,6 +233,15 @@ public:
     void SetMLE(bool ignore_prior) {ignore_prior_ = ignore_prior;}
     
 protected:
+    // use the data as ordered by the Kalman filter, which sorts by time and removes duplicate times
+    void UseFilterData()
+    {
+        time_ = pKFilter_->GetTime();
+        y_ = pKFilter_->GetTimeSeries();
+        yerr_ = pKFilter_->GetTimeSeriesErr();
+        SetPrior(10.0 * sqrt(arma::var(y_)));
+    }
+    
     // time series data
     arma::vec time_;
     arma::vec y_;
@@ -257,6 +266,7 @@ public:
          double temperature=1.0) : CARMA_Base<double>(track, name, time, y, yerr, temperature)
     {
         pKFilter_ = std::make_shared<KalmanFilter1>(time_, y_, yerr_);
+        UseFilterData();
         // Set the size of the parameter vector theta=(mu,sigma,measerr_scale,log(omega))
         value_.set_size(4);
     }
@@ -290,6 +300,7 @@ public:
          double temperature=1.0): CARMA_Base<arma::cx_vec>(track, name, time, y, yerr, temperature), p_(p)
 	{
         pKFilter_ = std::make_shared<KalmanFilterp>(time_, y_, yerr_);
+        UseFilterData();
 		value_.set_size(p_+3);
         ma_coefs_ = arma::zeros(p);
         ma_coefs_(0) = 1.0;
-- 
2.43.0


From dfb3395610bee73aee3c1175e6ec1a49767fd5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:40 +0000
Subject: [PATCH 05/17] fix: redraw CAR(1) starting values that are outside of
 the prior bounds

---
 src/carpack.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 682a4aa..9260e8a 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -38,7 +38,9 @@ extern RandomGenerator RandGen;
 arma::vec CAR1::StartingValue()
 {
 	double log_omega_start, car1_stdev_start, sigma;
+	arma::vec theta(4);
 
+	do {
 	// Initialize the standard deviation of the CAR(1) process
 	// by drawing from its prior
 	car1_stdev_start = RandGen.scaled_inverse_chisqr(y_.n_elem-1, arma::var(y_));
@@ -64,8 +66,6 @@ arma::vec CAR1::StartingValue()
     measerr_scale = std::min(measerr_scale, 1.99);
     measerr_scale = std::max(measerr_scale, 0.51);
 	
-	arma::vec theta(4);
-	
 	theta << car1_stdev_start << measerr_scale << mu << log_omega_start << arma::endr;
 	
 	// Initialize the Kalman filter
@@ -76,6 +76,7 @@ arma::vec CAR1::StartingValue()
     arma::vec ycent = y_ - mu;
     pKFilter_->SetTimeSeries(ycent);
     pKFilter_->Filter();
+	} while (!arma::is_finite(LogDensity(theta))); // draw again if outside of the prior bounds
 	
 	return theta;
 }
-- 
2.43.0


From 55160de5151311f81d18bac01cd1e03ca94bebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:40 +0000
Subject: [PATCH 06/17] fix: sample the untempered posterior when there is only
 one walker

---
 src/carmcmc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carmcmc.cpp b/src/carmcmc.cpp
index 444ab1e..a21229a 100644
--- a/src/carmcmc.cpp
+++ b/src/carmcmc.cpp
@@ -93,6 +93,7 @@ RunCarmaSampler(int sample_size, int burnin, std::vector<double> time, std::vect
     
     arma::vec temp_ladder = arma::linspace<arma::vec>(0.0, log(max_temperature), nwalkers);
     temp_ladder = arma::exp(temp_ladder);
+    temp_ladder(0) = 1.0; // linspace returns only the upper end when there is a single walker
     
     Ensemble<CARp> CarEnsemble;
     // Add the parameters to the ensemble, starting with the coolest chain
-- 
2.43.0


From 7da8151578f280cacdc51860451ed22d18642d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:49 +0000
Subject: [PATCH 07/17] fix: do not truncate a generated CARMA series to
 integers

The output array took its type from the time array, so integer times gave
a series rounded towards zero.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index bcc5a9c..a4636aa 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1229,7 +1229,7 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     kalman_var = np.real((rotated_MA_coefs * PredictionVar * rotated_MA_coefs.H).item())
 
     # simulate the first time series value
-    y = np.empty_like(time)
+    y = np.empty(time.size)
     y[0] = np.random.normal(kalman_mean, np.sqrt(kalman_var))
 
     # Initialize the innovations, i.e., the KF residuals
-- 
2.43.0


From 89e97e5f466f08393fbc0980eb69b4d76098fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:49 +0000
Subject: [PATCH 08/17] fix: accept a list of p moving average coefficients in
 carma_process

A list was only converted to an array when it had to be padded with zeros,
so a full-length list failed.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index a4636aa..d6b71a4 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1205,7 +1205,7 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     Jvector = solve(EigenMat, Rvector)  # J = inv(E) * R
 
     # Compute the vector of moving average coefficients in the rotated state.
-    rotated_MA_coefs = ma_coefs.dot(EigenMat)
+    rotated_MA_coefs = np.dot(ma_coefs, EigenMat)
 
     # Calculate the stationary covariance matrix of the state vector
     StateVar = np.empty((p, p), dtype=complex)
-- 
2.43.0


From f2b19fb71c2cd0364d3e3561a4d0e0c3a1595f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:49 +0000
Subject: [PATCH 09/17] fix: sort the times of a generated CAR(1) process as
 for higher orders

Unordered times gave negative conditional variances, hence NaN values.
---
 src/carmcmc/carma_pack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index d6b71a4..0908185 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1133,6 +1133,7 @@ def car1_process(time, sigsqr, tau):
     :rtype : A numpy array containing the simulated CAR(1) process values at time.
     """
 
+    time.sort()
     marginal_var = sigsqr * tau / 2.0
     y = np.zeros(len(time))
     y[0] = np.sqrt(marginal_var) * np.random.standard_normal()
-- 
2.43.0


From 3bcefcba8e0a1318010295fa0ccda4abebc66b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:32 +0000
Subject: [PATCH 10/17] fix: let the Python Kalman filter run for a single
 autoregressive root

Setting up the eigenvectors indexed a second row that does not exist when
p = 1.
---
 src/carmcmc/carma_pack.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 0908185..23e1fc8 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1294,8 +1294,7 @@ class KalmanFilterDeprecated(object):
         # Setup the matrix of Eigenvectors for the Kalman Filter transition matrix. This allows us to transform
         # quantities into the rotated state basis, which makes the computations for the Kalman filter easier and faster.
         EigenMat = np.ones((self.p, self.p), dtype=complex)
-        EigenMat[1, :] = self.ar_roots
-        for k in range(2, self.p):
+        for k in range(1, self.p):
             EigenMat[k, :] = self.ar_roots ** k
 
         # Input vector under the original state space representation
-- 
2.43.0


From becd8033d1637ad9d79796015e832cd6be39af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:32 +0000
Subject: [PATCH 11/17] fix: do not truncate the Python Kalman filter's output
 to integers

The means and variances took their type from the time array.
---
 src/carmcmc/carma_pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 23e1fc8..edbcd4f 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1326,8 +1326,8 @@ class KalmanFilterDeprecated(object):
         self._KalmanGain = np.zeros_like(self._StateVector)
 
         # Initialize the Kalman mean and variance. These are the forecasted values and their variances.
-        self.kalman_mean = np.empty_like(self.time)
-        self.kalman_var = np.empty_like(self.time)
+        self.kalman_mean = np.empty(self.time.size)
+        self.kalman_var = np.empty(self.time.size)
         self.kalman_mean[0] = 0.0
         self.kalman_var[0] = np.real(self._rotated_MA_coefs * self._PredictionVar * self._rotated_MA_coefs.H) \
                              + self.yvar[0]
-- 
2.43.0


From 2002f37aded1f207a9fd1c3a6a3fb8a3e1518e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:34 +0000
Subject: [PATCH 12/17] fix: add a maximum-likelihood estimate under Python 3

The numbers of quadratic terms were floats, which range() rejects.
---
 src/carmcmc/carma_pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index edbcd4f..0dc2bd2 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -339,7 +339,7 @@ class CarmaSample(samplers.MCMCSample):
         psd_width = np.zeros(self.p)
         psd_cent = np.zeros(self.p)
 
-        for i in range(self.p / 2):
+        for i in range(self.p // 2):
             quad1 = quad_coefs[2 * i]
             quad2 = quad_coefs[2 * i + 1]
 
@@ -373,7 +373,7 @@ class CarmaSample(samplers.MCMCSample):
         else:
             quad_coefs = np.exp(MLE.x[3 + self.p:])
             ma_roots = np.empty(quad_coefs.size, dtype=complex)
-            for i in range(self.q / 2):
+            for i in range(self.q // 2):
                 quad1 = quad_coefs[2 * i]
                 quad2 = quad_coefs[2 * i + 1]
 
-- 
2.43.0


From 4038700f8c51f3a63e04e62481f636e54c9d2588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:34 +0000
Subject: [PATCH 13/17] fix: leave the prior out of the stored CARMA
 log-likelihoods

The log-density includes the prior of the measurement error scale even when
the prior bounds are ignored, and the DIC is computed from these values.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 0dc2bd2..bb19bbd 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -310,7 +310,7 @@ class CarmaSample(samplers.MCMCSample):
             std_theta = carmcmcLib.vecD()
             std_theta.extend(trace[i, :])
             # loglik[i] = logpost[i] - sampler.getLogPrior(std_theta)
-            loglik[i] = sampler.getLogDensity(std_theta)
+            loglik[i] = sampler.getLogDensity(std_theta) - sampler.getLogPrior(std_theta)
 
         self._samples['loglik'] = loglik
 
-- 
2.43.0


From 7f0dec788889c4c83dddc5bec0779e313d7bdf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:49 +0000
Subject: [PATCH 14/17] fix: search for the maximum-likelihood estimate with
 one job under Python 3

map() returns an iterator, which cannot be indexed and would be used up.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index bb19bbd..b6e0de6 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -109,7 +109,7 @@ class CarmaModel(object):
         args = [(p, q, self.time, self.y, self.ysig)] * ntrials
 
         if njobs == 1:
-            MLEs = map(_get_mle_single, args)
+            MLEs = list(map(_get_mle_single, args))
         else:
             # use multiple processors
             pool = multiprocessing.Pool(njobs)
-- 
2.43.0


From da5585a9674479b1cdce417eb932632f3ea81794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:49 +0000
Subject: [PATCH 15/17] fix: respect the largest moving average order given to
 choose_order

---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index b6e0de6..b20e385 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -162,7 +162,7 @@ class CarmaModel(object):
         if pqlist is None:
             pqlist = []
             for p in range(1, pmax+1):
-                for q in range(p):
+                for q in range(min(p, qmax + 1)):
                     pqlist.append((p, q))
 
         MLEs = []
-- 
2.43.0


From 2305ea0f974e6d3ef2c8f19c4078aaad5ea4ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:50 +0000
Subject: [PATCH 16/17] fix: use a random draw for CAR(1) predictions when
 asked for one

The posterior mean was used instead.
---
 src/carmcmc/carma_pack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index b20e385..7c4b92f 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -934,11 +934,17 @@ class Car1Sample(CarmaSample):
             sigsqr = np.median(self._samples['sigma']) ** 2
             mu = np.median(self._samples['mu'])
             log_omega = np.median(self._samples['log_omega'])
-        else:
+        elif bestfit == 'mean':
             # use posterior mean as the best-fit
             sigsqr = np.mean(self._samples['sigma'] ** 2)
             mu = np.mean(self._samples['mu'])
             log_omega = np.mean(self._samples['log_omega'])
+        else:
+            # use a random draw from the posterior
+            random_index = np.random.randint(self._samples['mu'].shape[0])
+            sigsqr = (self._samples['sigma'][random_index] ** 2)[0]
+            mu = self._samples['mu'][random_index][0]
+            log_omega = self._samples['log_omega'][random_index][0]
 
         kfilter = carmcmcLib.KalmanFilter1(arrayToVec(self.time),
                                            arrayToVec(self.y - mu),
-- 
2.43.0


From 2dfa31d85cebf2894b2c68d0eb02f2f7c4f98bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:50 +0000
Subject: [PATCH 17/17] fix: thin CAR(1) draws with integer indices in
 plot_power_spectrum

The indices were floats when a number of samples was given.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 7c4b92f..a6bc705 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -984,7 +984,7 @@ class Car1Sample(CarmaSample):
                 "nsamples must be less than the total number of MCMC samples."
 
             nsamples0 = sigmas.shape[0]
-            index = np.arange(nsamples) * (nsamples0 / nsamples)
+            index = (np.arange(nsamples) * (nsamples0 / nsamples)).astype(int)
             sigmas = sigmas[index]
             log_omegas = log_omegas[index]
 
-- 
2.43.0


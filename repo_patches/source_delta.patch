From 8b86b8cc5c4bce1ba94d11272ef0db535b2efe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 01/28] fix: normal.cdf for integer and scalar input

Integer input was truncated to 0/1 because results were written into a copy of
the integer array; a scalar (0-d) input raised TypeError, so the normality
tests, which pass one, could never return.
---
 proadv/statistics/distributions/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 7af9195..3a69544 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -47,13 +47,13 @@ def cdf(array):
     """
 
     from math import erf, erfc
-    array_cdf = np.copy(array)
+    array_cdf = np.array(array, dtype=float)
     D = array_cdf.shape  # array dimensions
     if array_cdf.size == 0:
         raise ValueError("cannot calculate PDF with empty array.")
     if np.isnan(array_cdf).any():
         raise TypeError('array cannot contain NaN values.')
-    if array_cdf.ndim > 1:
+    if array_cdf.ndim != 1:
         array_cdf = array_cdf.flatten()
     np_sqrt = 1.0 / np.sqrt(2)
     array_ns = array_cdf * np_sqrt
-- 
2.43.0


From c63faae819b4762607f29f03afc8e805101ccc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 02/28] fix: calculate_ab returns two semi-axes for a
 degenerate ellipse

Operator precedence made it return (sqrt(fa), (1e10, 1e10)).
---
 proadv/filtration/detection/poincare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/poincare.py b/proadv/filtration/detection/poincare.py
index 5d1f48f..3240550 100644
--- a/proadv/filtration/detection/poincare.py
+++ b/proadv/filtration/detection/poincare.py
@@ -22,7 +22,7 @@ def calculate_ab(std1, std2, theta, lambda_):
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
     fa = (r1 ** 2 * np.cos(theta) ** 2 - r2 ** 2 * np.sin(theta) ** 2) / fact
     fb = (r2 ** 2 * np.cos(theta) ** 2 - r1 ** 2 * np.sin(theta) ** 2) / fact
-    return np.sqrt(fa), np.sqrt(fb) if fa > 0 and fb > 0 else (1e10, 1e10)
+    return (np.sqrt(fa), np.sqrt(fb)) if fa > 0 and fb > 0 else (1e10, 1e10)
 
 
 def calculate_rho(x, y, theta, a, b):
-- 
2.43.0


From 13bb84ebc276610d58cac410c0627b836fd081d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 03/28] fix: semi-axes of the third phase-space ellipse

The semi-axes satisfy a**2 cos**2 + b**2 sin**2 == a1**2 (and likewise b2**2),
so the division by cos**4 - sin**4 belongs under the square root, as in
poincare.calculate_ab.
---
 proadv/filtration/detection/phasespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 87b22d3..7c5a4b4 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -72,8 +72,8 @@ def calculate_parameters(c, dc, dc2):
     a2 = lambda_ * std_dc
     b2 = lambda_ * std_dc2
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
-    a3 = np.sqrt(a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact
-    b3 = np.sqrt(b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact
+    a3 = np.sqrt((a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact)
+    b3 = np.sqrt((b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact)
     return std_c, std_dc, std_dc2, lambda_, theta, a1, b1, a2, b2, a3, b3
 
 
-- 
2.43.0


From 0856d3e82cf59115bf28f8b876bc6fd3121e3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 04/28] fix: premodification replaces the removable points

The points above the threshold were intersected with those below its negative,
which is always empty, so nothing was ever replaced.
---
 proadv/filtration/detection/phasespace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 7c5a4b4..a31898c 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -163,11 +163,11 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
     removable_threshold = c2 * theta * np.sqrt(2 * np.log(data_size))
 
     # Calculate indices of removable data
-    removable_indices = np.intersect1d(np.nonzero(data > removable_threshold)[0],
-                                       np.nonzero(data < -removable_threshold)[0])
+    removable_indices = np.union1d(np.nonzero(data > removable_threshold)[0],
+                                   np.nonzero(data < -removable_threshold)[0])
 
     # Replace removable data points with the preceding data point
-    for i in removable_indices:
+    for i in removable_indices[removable_indices > 0]:
         data[i] = data[i - 1]
 
     return data, unremovable_indices
-- 
2.43.0


From 17d3b266f73a6b759a9257e62608fd117533d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 05/28] fix: premodification works on a copy of the caller's
 data

---
 proadv/filtration/detection/phasespace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index a31898c..02a183f 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -153,6 +153,7 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
         >>> phasespace_thresholding_premodification(data)
     """
 
+    data = np.copy(data)
     data_size = data.size
     theta = np.median(np.absolute(data - np.median(data)))
 
-- 
2.43.0


From 157320ced1c8d8a1ecdcdd3d9bae5194c1ec68a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 06/28] fix: lower threshold of the pollution rate

The band is xfil +- k*std; with -xfil as its lower centre, samples inside the
band were counted and the rate could reach 200 percent.
---
 proadv/filtration/detection/pollution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/pollution.py b/proadv/filtration/detection/pollution.py
index 05fd099..bf95c5e 100644
--- a/proadv/filtration/detection/pollution.py
+++ b/proadv/filtration/detection/pollution.py
@@ -21,7 +21,7 @@ def pollution_rate(x, xfil, k):
     pos = np.nonzero(x > xfil + k * std(x))
     
     # Find positions where x is below the negative threshold
-    neg = np.nonzero(x < -xfil - k * std(x))
+    neg = np.nonzero(x < xfil - k * std(x))
     
     # Concatenate positive and negative noises
     noises = np.concatenate((pos, neg), axis=None)
-- 
2.43.0


From 170b9ebbc929080cab32955b6f0d45954dac1129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 07/28] fix: fminbound returns the best point, not the last one
 evaluated

---
 proadv/statistics/optimize/optimize.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 40e6d35..3c940ad 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -328,7 +328,6 @@ def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
         convergence_flag = 2
 
     # Set the final optimal value and function value
-    x_optimal = x_current
     fval = f_current
     flag = convergence_flag
 
-- 
2.43.0


From 15f2eba49d7e408c4acc095800ffa15821147a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 08/28] fix: power_spectra overlap is a percentage of the block

It was passed to welch as a number of samples.
---
 proadv/statistics/signal/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/signal/spectrum.py b/proadv/statistics/signal/spectrum.py
index aab687f..27d70cc 100644
--- a/proadv/statistics/signal/spectrum.py
+++ b/proadv/statistics/signal/spectrum.py
@@ -24,6 +24,6 @@ def power_spectra(data, sampling_frequency, overlap=50, block=2048, onesided=Tru
     win=hann(block, True)
 
     # Compute power spectral density
-    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=overlap, nfft=block, return_onesided=onesided)
+    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=int(block * overlap / 100), nfft=block, return_onesided=onesided)
     
     return fxu, fyu
-- 
2.43.0


From f1981b7abba1cda30af3820bf3198c45fb5b0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 09/28] fix: last_valid_data leaves a spike at the first sample

Nothing precedes it; index -1 copied the last sample of the record into it.
---
 proadv/filtration/replacement/replacements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 8cb089f..ace79c9 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -26,7 +26,8 @@ def last_valid_data(velocities, spike_indices):
 
     # Replace values at spikes indices with the last valid value
     for idx in spike_indices:
-        modified_data[idx] = modified_data[idx - 1]
+        if idx > 0:
+            modified_data[idx] = modified_data[idx - 1]
 
     return modified_data
 
-- 
2.43.0


From ae3174036fdef078d27e0e5a8522a65450d7938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 10/28] fix: linear_interpolation with no spikes or integer
 data

An empty set of spike indices raised IndexError, integer velocities ValueError.
---
 proadv/filtration/replacement/replacements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index ace79c9..1e92b41 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -122,11 +122,14 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
     """
 
     # Create a copy of the velocity data to avoid modifying the original array
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Initialize spike values with NaN to facilitate interpolation
     modified_data[spike_indices] = np.nan
 
+    if np.size(spike_indices) == 0:
+        return np.around(modified_data, decimals=decimals)
+
     # Calculate differences between consecutive spike indices
     spike_diff = np.diff(spike_indices)
     # Identify the start index of each spike sequence
-- 
2.43.0


From e6972c6f483dbc06e5b507c4cd7958fc07ca4a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 11/28] fix: replacements.kalman_filter returns the repaired
 data

It indexed a list with an array (TypeError) and had no return statement.
---
 proadv/filtration/replacement/replacements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 1e92b41..4058e59 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -365,7 +365,9 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
 
     # Replace values at spikes indices with the kalman_filter values
-    modified_data[spike_indices] = filtered_data[spike_indices]
+    modified_data[spike_indices] = np.array(filtered_data).ravel()[spike_indices]
+
+    return modified_data
 
 
 def _create_model(velocities, velocities_indices, spike_indices, degree):
-- 
2.43.0


From ece13e895d3da0cfcebaf4e9785060dcd2da6c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 12/28] fix: polynomial_replacement with one spike and with a
 spike at index 10

A single spike index squeezed to 0-d could not be iterated, and a spike at
index 10 was selected for interpolation but excluded from its index list.
---
 proadv/filtration/replacement/replacements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 4058e59..117d9db 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -419,8 +419,9 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
 
     # Make a copy of velocities to preserve original data
     modified_data = velocities.copy()
+    spike_indices = np.ravel(spike_indices)
     a = 0
-    for i in spike_indices.squeeze():
+    for i in spike_indices:
         if i == 0:
             # If the first index of the data set is a spike, it will be replaced with the value of the mean of the data.
             modified_data[i] = np.mean(modified_data)
@@ -428,7 +429,7 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
             # Spikes 1 to 10 are replaced using linear interpolation algorithm
             if a == 0:
                 modified_data = linear_interpolation(modified_data,
-                                                     spike_indices[np.where(spike_indices < 10)[0]].squeeze(), decimals)
+                                                     spike_indices[spike_indices <= 10], decimals)
                 a += 1  # "a" is to run this algorithm only once.
         elif 11 <= i <= window - 1:
             # Predicting the appropriate spike value for indexes less than window
-- 
2.43.0


From b20534562ea4713373cff2c72485d4df6d952f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 13/28] fix: brentq full output is a dictionary for a root at
 an endpoint too

---
 proadv/statistics/optimize/optimize.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 3c940ad..4e8385d 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -66,9 +66,23 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
 
     # Check if we already have a root at the endpoints
     if fpre == 0:
-        return (xpre, 0, 0, 1) if full_output else xpre
+        result = {
+            'root': xpre,
+            'function_calls': 2,
+            'iterations': 0,
+            'converged': True,
+            'flag': 'converged'
+        }
+        return result if full_output else xpre
     if fcur == 0:
-        return (xb, 0, 0, 1) if full_output else xb
+        result = {
+            'root': xb,
+            'function_calls': 2,
+            'iterations': 0,
+            'converged': True,
+            'flag': 'converged'
+        }
+        return result if full_output else xb
 
     # Ensure the function has opposite signs at the endpoints (necessary condition for Brent's method)
     if np.sign(fpre) == np.sign(fcur):
-- 
2.43.0


From 3bcff98168c8537f5427639a4ff39557ba6a1c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 14/28] fix: exponential moving average of integer data

The averages were truncated to integers.
---
 proadv/statistics/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index ef5a1b1..00d362a 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -118,7 +118,7 @@ def exponential_moving_average(data, alpha=0.2):
         raise ValueError("Alpha must be between 0 and 1 (inclusive).")
 
     # Initialize the exponential moving average array with zeros
-    ema = np.zeros_like(data)
+    ema = np.zeros_like(data, dtype=float)
 
     # Set the first value of ema to be equal to the first value of the data
     ema[0] = data[0]
-- 
2.43.0


From 11c5e708418f79fb537b466b5c55216bbc72ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 15/28] fix: phase-space derivatives of integer data

The derivatives were truncated to integers.
---
 proadv/filtration/detection/phasespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 02a183f..952dff1 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -17,8 +17,8 @@ def calculate_derivatives(c):
         dc2 (array_like): Second derivative of the input data.
     """
     # Initialize arrays for first and second derivatives
-    dc = np.zeros_like(c)
-    dc2 = np.zeros_like(c)
+    dc = np.zeros_like(c, dtype=float)
+    dc2 = np.zeros_like(c, dtype=float)
 
     # Calculate first derivative
     for i in range(1, len(c) - 1):
-- 
2.43.0


From eaec49ede4e52fffdab9b560467c8db076e24fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 16/28] fix: kernel-density derivatives of integer data

The derivatives were truncated to integers.
---
 proadv/filtration/detection/trivariatekernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index b12cd3e..4bfea6e 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -20,8 +20,8 @@ def _derivatives(data):
     """
 
     # Initialize arrays for first and second derivatives
-    dc = np.zeros_like(data)
-    dc2 = np.zeros_like(data)
+    dc = np.zeros_like(data, dtype=float)
+    dc2 = np.zeros_like(data, dtype=float)
 
     # Calculate first derivative
     for i in range(1, data.size - 1):
-- 
2.43.0


From 14fff56d13509a4c05b6f54f2974c4e0f66c8f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 17/28] fix: mean of data that mixes numbers and strings

The list was rewritten while it was iterated, so numeric strings after an
invalid one were dropped and string arrays gave nan; the documented example
now gives 2.1666666666666665.
---
 proadv/statistics/descriptive.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/proadv/statistics/descriptive.py b/proadv/statistics/descriptive.py
index 50f90c5..073d0c4 100644
--- a/proadv/statistics/descriptive.py
+++ b/proadv/statistics/descriptive.py
@@ -207,18 +207,17 @@ def mean(array):
 
     # if at least one of the items in our list is not an int or float:
     if not isinstance(array, (int, float)) and np.size(np.array(array)) != 0:
+        numbers = []
         for item in array:
             if isinstance(item, str):
                 # Trys to convert the string to a float
                 try:
-                    array = list(array)
-                    index = array.index(item)
-                    array[index] = float(item)
-
+                    item = float(item)
                 except ValueError:
                     # If conversion fails, it's not a number, so we take out the invalid data and calculate the rest
-                    array = [item for item in array if isinstance(item, (int, float))]
                     continue
+            numbers.append(item)
+        array = numbers
         mean_array = np.sum(array) / np.size(array)
         return mean_array
 
-- 
2.43.0


From 93aa167e023368adf87dfaa25b3d559e411a1afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:39 +0000
Subject: [PATCH 18/28] fix: log_pdf far from the mean no longer underflows to
 -inf

---
 proadv/statistics/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 3a69544..50d347f 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -370,7 +370,7 @@ def log_pdf(array, std=1, mean=0):
         raise ValueError("cannot calculate Log_PDF with empty array")
     if np.isnan(array).any():
         raise TypeError('array cannot contain NaN values.')
-    logpdf = np.log(pdf(array, std, mean))
+    logpdf = -0.5 * np.log(2 * np.pi) - np.log(std) - np.power((array - mean), 2) / (2 * (std * std))
     return logpdf
 
 
-- 
2.43.0


From d1a492b485ba3468709089f474e5d2649af4e666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:58 +0000
Subject: [PATCH 19/28] fix: brentq counts its calls and iterations when it
 does not converge

---
 proadv/statistics/optimize/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 4e8385d..995f4ac 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -156,8 +156,8 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     # If we reach here, the method did not converge within the maximum number of iterations
     result = {
         'root': xcur,
-        'function_calls': i + 2,
-        'iterations': i + 1,
+        'function_calls': maxiter + 2,
+        'iterations': maxiter,
         'converged': False,
         'flag': 'convergence not achieved'
     }
-- 
2.43.0


From bb30092b955ec8daa8db3fa8520c0275895631b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:09 +0000
Subject: [PATCH 20/28] fix: cubic_12points_polynomial uses the 12 samples next
 to the spike

---
 proadv/filtration/replacement/replacements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 117d9db..06a1504 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -210,7 +210,7 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
                                          4)
         else:
             # Use cubic polynomial interpolation
-            yint = np.delete(np.append(velocities[i - 13: i], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
+            yint = np.delete(np.append(velocities[i - 12: i + 1], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
                              12)
             f = interp1d(x, yint, 3)
             modified_data[i] = f(13)
-- 
2.43.0


From e2db9d958388cf06f6fb25f572fd379c2ea668ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:09 +0000
Subject: [PATCH 21/28] fix: cubic_12points_polynomial repairs a spike from
 repaired samples, not from earlier spikes

---
 proadv/filtration/replacement/replacements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 06a1504..0f66faf 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -206,11 +206,11 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
         # Check if index is near the boundaries
         if i <= 30 or i >= (len(velocities) - 30):
             # Use linear interpolation near the boundaries
-            modified_data[i] = np.around((velocities[i - 1] + modified_data[i:][~np.isnan(modified_data[i:])][0]) / 2,
+            modified_data[i] = np.around((modified_data[i - 1] + modified_data[i:][~np.isnan(modified_data[i:])][0]) / 2,
                                          4)
         else:
             # Use cubic polynomial interpolation
-            yint = np.delete(np.append(velocities[i - 12: i + 1], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
+            yint = np.delete(np.append(modified_data[i - 12: i + 1], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
                              12)
             f = interp1d(x, yint, 3)
             modified_data[i] = f(13)
-- 
2.43.0


From 4db298066d6c120b03c4e5a54264f799b783cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:09 +0000
Subject: [PATCH 22/28] fix: cubic_12points_polynomial at the ends of the
 record

---
 proadv/filtration/replacement/replacements.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 0f66faf..0302786 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -203,15 +203,19 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     x = np.array(list(range(1, 13)) + list(range(14, 26)))
 
     for i in spike_indices:
+        following = modified_data[i:][~np.isnan(modified_data[i:])]
         # Check if index is near the boundaries
-        if i <= 30 or i >= (len(velocities) - 30):
-            # Use linear interpolation near the boundaries
-            modified_data[i] = np.around((modified_data[i - 1] + modified_data[i:][~np.isnan(modified_data[i:])][0]) / 2,
-                                         4)
+        if i <= 30 or i >= (len(velocities) - 30) or following.size < 12:
+            # Use linear interpolation near the boundaries, or the only neighbour at either end
+            if i == 0:
+                modified_data[i] = np.around(following[0], 4)
+            elif following.size == 0:
+                modified_data[i] = np.around(modified_data[i - 1], 4)
+            else:
+                modified_data[i] = np.around((modified_data[i - 1] + following[0]) / 2, 4)
         else:
             # Use cubic polynomial interpolation
-            yint = np.delete(np.append(modified_data[i - 12: i + 1], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
-                             12)
+            yint = np.delete(np.append(modified_data[i - 12: i + 1], following[0:12]), 12)
             f = interp1d(x, yint, 3)
             modified_data[i] = f(13)
     return np.around(modified_data, decimals=decimals)
-- 
2.43.0


From 70698a33dd96ea81d68c63f7c03544aa2748cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:09 +0000
Subject: [PATCH 23/28] fix: cubic and polynomial replacement of integer data

---
 proadv/filtration/replacement/replacements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 0302786..64aefa6 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -194,7 +194,7 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     """
 
     # Make a copy of velocities to preserve original data
-    modified_data = velocities.copy()
+    modified_data = np.array(velocities, dtype=float)
 
     # Replace spike indices with NaN values
     modified_data[spike_indices] = np.nan
@@ -422,7 +422,7 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
     """
 
     # Make a copy of velocities to preserve original data
-    modified_data = velocities.copy()
+    modified_data = np.array(velocities, dtype=float)
     spike_indices = np.ravel(spike_indices)
     a = 0
     for i in spike_indices:
-- 
2.43.0


From 36ca7714e0b4519548e9dd9b6ea0f03383926bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:33 +0000
Subject: [PATCH 24/28] fix: mean, median and filter-based replacement of
 integer data

---
 proadv/filtration/replacement/replacements.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 64aefa6..6d848fc 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -50,7 +50,7 @@ def mean_value(velocities, spike_indices):
     """
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Replace values at spikes indices with the mean value
     modified_data[spike_indices] = mean(velocities)
@@ -76,7 +76,7 @@ def median_value(velocities, spike_indices):
     """
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Replace values at spikes indices with the median value
     modified_data[spike_indices] = median(velocities)
@@ -241,7 +241,7 @@ def simple_moving_average(velocities, spike_indices, window_size=20):
     from proadv.statistics.series import moving_average as ma
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use moving_average function
     sma = ma(modified_data, window_size)
@@ -271,7 +271,7 @@ def exponential_moving_average(velocities, spike_indices, alpha=0.2):
     from proadv.statistics.series import exponential_moving_average as expo
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use exponential_moving_average function
     ema = expo(modified_data, alpha)
@@ -301,7 +301,7 @@ def weighted_moving_average(velocities, spike_indices, period=20):
     from proadv.statistics.series import weighted_moving_average as wm
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use weighted_moving_average function
     wma = wm(modified_data, period)
@@ -331,7 +331,7 @@ def ssa(velocities, spike_indices, fs, f):
     from proadv.statistics.series import ssa as sa
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use ssa function
     xf = sa(modified_data, fs, f)
@@ -363,7 +363,7 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     from proadv.statistics.series import kalman_filter as kl
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use kalman_filter function
     filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
-- 
2.43.0


From b44dc0d410a8c00bd1a76246830cede05da6bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:49 +0000
Subject: [PATCH 25/28] fix: kurtosis test of light-tailed samples (negative
 denominator)

---
 proadv/statistics/distributions/normal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 50d347f..3d48dde 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -294,7 +294,8 @@ def kurtotest(data, alternative='two-sided'):
     elif np.isscalar(denom) and denom == 0.0:
         denom = np.ma.masked
 
-    term2 = np.ma.power((1 - 2.0 / a) / denom, 1 / 3.0)
+    # The cube root keeps the sign of the denominator
+    term2 = np.sign(denom) * np.ma.power((1 - 2.0 / a) / np.abs(denom), 1 / 3.0)
 
     # Final z-score calculation
     z_score_final = (term1 - term2) / np.ma.sqrt(2 / (9.0 * a))
-- 
2.43.0


From 370f65473439e3dda8353478afe68409154bff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:43 +0000
Subject: [PATCH 26/28] fix: bivariate histogram counts each sample in the cell
 that holds it

---
 proadv/kernel/bivariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index dd2b010..6dc3999 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -130,7 +130,7 @@ def _histogram(trans, grid):
     
     # Iterate over each column and compute the bins
     for i in range(cols):
-        bins[:, i] = np.digitize(trans[:, i], hist, 1)
+        bins[:, i] = np.digitize(trans[:, i], hist) - 1
         bins[:, i] = np.minimum(bins[:, i], grid - 1)
         
     # Accumulate the binned data
-- 
2.43.0


From 2ba55cc2bef56e14c9bcc791b1f0b65794c16fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:43 +0000
Subject: [PATCH 27/28] fix: bivariate density is the inverse cosine transform,
 taken along both axes

---
 proadv/kernel/bivariate.py | 58 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index 6dc3999..1726aac 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -154,10 +154,10 @@ def _discrete_cosine_1d(data, weight):
     """
     
     # Reorder the data for the discrete cosine transform
-    reordered = np.vstack((data[::2, :], data[::-2, :]))
+    reordered = np.vstack((data[::2, :], data[1::2, :][::-1, :]))
     
     # Compute the discrete cosine transform using FFT
-    transform = np.real(weight * np.fft.fft(reordered))
+    transform = np.real(weight * np.fft.fft(reordered, axis=0))
     
     return transform
 
@@ -193,6 +193,58 @@ def _discrete_cosine_2d(data):
     return discrete
 
 
+def _inverse_cosine_1d(data, weight):
+    """
+    Compute the inverse of the 1D discrete cosine transform.
+
+    Parameters
+    ------
+    data (array_like): Transformed data array.
+    weight (array_like): Weight factors of the inverse transform.
+
+    Returns
+    ------
+    inverse (array_like): Data array of which data is the 1D discrete cosine transform.
+    """
+
+    # Compute the reordered data using the inverse FFT
+    reordered = np.real(np.fft.ifft(weight * data, axis=0))
+
+    # Put the even rows first to last, the odd rows last to first
+    half = (data.shape[0] + 1) // 2
+    inverse = np.zeros(data.shape)
+    inverse[::2, :] = reordered[:half, :]
+    inverse[1::2, :] = reordered[half:, :][::-1, :]
+
+    return inverse
+
+
+def _inverse_cosine_2d(data):
+    """
+    Compute the inverse of the 2D discrete cosine transform of square data.
+
+    Parameters
+    ------
+    data (array_like): Transformed square data array.
+
+    Returns
+    ------
+    inverse (array_like): Data array of which data is the 2D discrete cosine transform.
+    """
+
+    # Get the number of rows and columns in the data
+    rows, columns = data.shape
+
+    # Generate the weight factors for the inverse transform
+    w = np.exp(1j * np.arange(rows) * np.pi / (2 * rows))
+    weight = np.tile(w[:, np.newaxis], (1, columns))
+
+    # Compute the inverse transform along each column and row
+    inverse = _inverse_cosine_1d(_inverse_cosine_1d(data, weight).T, weight).T
+
+    return inverse
+
+
 def _k(s_indices):
     """
     Compute the k-value based on the given indices.
@@ -423,7 +475,7 @@ def bivariate_kernel(data, hx, hy, grid):
     a_t = np.matmul(v1, v2) * discrete
     
     # Compute density matrix
-    density_mx = _discrete_cosine_2d(a_t) * (a_t.size / np.prod(scale))
+    density_mx = _inverse_cosine_2d(a_t) * (a_t.size / np.prod(scale))
     density_mx[density_mx < 0] = np.finfo(float).eps
     
     # Create vectors for x and y values
-- 
2.43.0


From c48661c65dde5e765a57b81c767b1d082ec93c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:43 +0000
Subject: [PATCH 28/28] fix: bivariate density estimation counts samples, not
 coordinates

---
 proadv/kernel/bivariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index 1726aac..953682c 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -432,7 +432,7 @@ def bivariate_kernel(data, hx, hy, grid):
     """
     
     # Compute scaling parameters
-    data_size = data.size
+    data_size = data.shape[1]
     max_co, min_co, scale = _scaling(data)
     
     # Transform the data
-- 
2.43.0


From 3bcdeee53006b341e92fbfc511d5374d3ffb41d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 01/32] fix: gradev confidence bounds were NaN (edf and ci
 arguments swapped)

The bounds are documented as distances from the estimate.
---
 allantools/allantools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 8daffcf..ebfb63e 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1658,7 +1658,8 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
 
     if n > 1:
         edf = ci.edf_simple(N, mj, alpha)
-        deverr = ci.confidence_interval(dev, confidence, edf)
+        lo, hi = ci.confidence_interval(dev, edf, confidence)
+        deverr = [dev - lo, hi - dev]
     else:
         deverr = [0, 0]
 
-- 
2.43.0


From cae8e4204852dc1899171ea259395c22c7e62d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 02/32] fix: gradev noisetype 'fp' means alpha=+1; honour
 documented 'ff' and 'rf'

---
 allantools/allantools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index ebfb63e..a6772cc 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1652,6 +1652,10 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
     elif noisetype == 'wf':
         alpha = 0
     elif noisetype == 'fp':
+        alpha = 1
+    elif noisetype == 'ff':
+        alpha = -1
+    elif noisetype == 'rf':
         alpha = -2
     else:
         alpha = None
-- 
2.43.0


From ea9c1510bc2570e85a00c57ac8f9bd001afe4ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 03/32] fix: psd2allan failed for many frequency steps (float
 arange length)

---
 allantools/allantools.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index a6772cc..5c30ee2 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1735,9 +1735,12 @@ def psd2allan(S_y, f=1.0, kind='adev', base=2):
         raise ValueError(np.ndarray)  # raise error
     oversamplingfactor = 4
     df0 = oversamplingfactor * df
-    f0 = np.arange(S_y.size * df0, step=df0)
-    f = np.arange(df, (S_y.size - 1) * df0 + df, df)
-    S_y = interpolate.interp1d(f0, S_y, kind='cubic')(f)
+    # index grids, since float np.arange() has an unpredictable length
+    n_f = (S_y.size - 1) * oversamplingfactor
+    k0 = np.arange(S_y.size) * oversamplingfactor
+    k = np.arange(1, n_f + 1)
+    f = k * df
+    S_y = interpolate.interp1d(k0, S_y, kind='cubic')(k)
     f = f / oversamplingfactor
 
     tau0 = 1/np.max(f)  # minimum tau derived from the given frequency vector
-- 
2.43.0


From 7aa42789cc2d5fff93c9653626f39702de3d429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 04/32] fix: Noise.pdev_from_qd flicker PM coefficient is
 3(ln16-1)/(2 pi^2)

---
 allantools/noise_kasdin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise_kasdin.py b/allantools/noise_kasdin.py
index ae5f253..7714ffa 100644
--- a/allantools/noise_kasdin.py
+++ b/allantools/noise_kasdin.py
@@ -340,7 +340,7 @@ class Noise(object):
             coeff = 3.0/(2.0*pow(np.pi, 2))  # Vernotte Table I
         elif self.b == -1:
             # D, Flicker PM, tau^-1
-            coeff = (3.0*np.log(16)-1.0)/2.0/pow(np.pi, 2)
+            coeff = 3.0*(np.log(16)-1.0)/2.0/pow(np.pi, 2)
         elif self.b == -2:  # C, white FM,  1/sqrt(tau)
             coeff = 3.0/5.0
         elif self.b == -3:
-- 
2.43.0


From 3d16c9ff7930b585474c00ecc91e7c13e071517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 05/32] fix: edf_simple flicker FM m=1 numerator is 2(N-2)^2
 (NIST SP1065 table 5)

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index c4fe2bc..6c7cb2e 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -816,7 +816,7 @@ def edf_simple(N, m, alpha):
 
         if alpha == -1:
             if m == 1:
-                edf = 2 * (N - 2)/(2.3 * N - 4.9)
+                edf = 2 * (N - 2)**2/(2.3 * N - 4.9)
             if m >= 2:
                 edf = 5 * N**2 / (4 * m * (N + (3 * m)))
 
-- 
2.43.0


From 68c9fc91e4276b79f3c257b4f5ba891631330b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 06/32] fix: b1() and rn() used tau=af*rate, wrong unless
 rate==1

---
 allantools/ci.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 6c7cb2e..391b91e 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -143,10 +143,10 @@ def rn(x, af, rate):
         ratio of MVAR to AVAR
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/float(rate)], data_type='phase', rate=rate)
     oadev_x = devs[0]
     (mtaus, mdevs, errs, ns) = at.mdev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/float(rate)], data_type='phase', rate=rate)
     mdev_x = mdevs[0]
     return pow(mdev_x/oadev_x, 2)
 
@@ -198,12 +198,12 @@ def b1(x, af, rate):
 
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type="phase", rate=rate)
+        x, taus=[af/float(rate)], data_type="phase", rate=rate)
     oadev_x = devs[0]
     avar = pow(oadev_x, 2.0)
 
     # variance of y, at given af
-    y = np.diff(x)
+    y = rate * np.diff(x)
     y_cut = np.array(y[:len(y)-(len(y) % af)])  # cut to length
     assert len(y_cut) % af == 0
     y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
-- 
2.43.0


From 79cdd8fadf8ba0e64ac9416b48bd1872a95795d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 07/32] fix: timmer_koenig_from_psd failed for an odd number of
 samples

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index e66332e..0b841a0 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -315,7 +315,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for j in range(1, n // 2 + 1):
         X[j] = (np.sqrt(Sx[j]) / 2.0) * (np.random.normal(0, 1) + 1j * np.random.normal(0, 1))
 
-    X[n // 2 + 1:] = np.conj(X[1:n // 2][::-1])
+    X[n // 2 + 1:] = np.conj(X[1:(n + 1) // 2][::-1])
 
     x = np.fft.ifft(X) * np.sqrt((n - 1) / timestep)
     x = x.real
-- 
2.43.0


From f7d2db86ad9362577124159d81a1fe99221667e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 08/32] fix: timmer_koenig_from_psd had no power exactly at the
 last node frequency

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 0b841a0..0888c29 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -295,7 +295,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for i, f in enumerate(frequencies):
         if f_nodes.size > 0 and f < f_nodes[0]:
             Sy[i] = h_ext[0] * f ** alpha_ext[0]
-        elif f_nodes.size > 0 and f > f_nodes[-1]:
+        elif f_nodes.size > 0 and f >= f_nodes[-1]:
             Sy[i] = h_ext[-1] * f ** alpha_ext[-1]
         else:
             if f_nodes.size == 0:
-- 
2.43.0


From b2aeb8f53f46297fb780f5c37d3860ddccc05bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 09/32] fix: numpy_psd frequency axis was wrong for odd-length
 input

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 0888c29..b43a708 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -46,7 +46,7 @@ def numpy_psd(x, f_sample=1.0):
     """
     psd_of_x = ((2.0 / (float(len(x)) * f_sample))
                 * np.abs(np.fft.rfft(x))**2)
-    f_axis = np.linspace(0, f_sample/2.0, len(psd_of_x))  # frequency axis
+    f_axis = np.fft.rfftfreq(len(x), 1.0/f_sample)  # frequency axis
     return f_axis, psd_of_x
 
 
-- 
2.43.0


From 817b3e835b96e51d143b6b3573c473b022ce416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 10/32] fix: edf_greenhall alpha=-4 (RRFM, d=3) failed an
 assertion in table 2

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 391b91e..8200677 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -687,7 +687,7 @@ def greenhall_table3(alpha, d):
 def greenhall_table2(alpha, d):
     """ Table 2 from [Greenhall2004]_ """
     row_idx = int(-alpha+2)  # map 2-> row0 and -4-> row6
-    assert(row_idx in [0, 1, 2, 3, 4, 5])
+    assert(row_idx in [0, 1, 2, 3, 4, 5, 6])
     col_idx = int(d-1)
     table2 = [
         # alpha = +2:
-- 
2.43.0


From ebad118608b7f1f9c8534dd8e0cc86a66a65a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 11/32] fix: real-time OADEV/TDEV auto-AF mode dropped the
 first term of a new AF

---
 allantools/realtime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 50d3eb9..ed9049f 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -108,11 +108,11 @@ class oadev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
         self.x.append(xnew)
+        if self.auto_afs:  # before the update, so a new AF gets its first term
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= (2*af+1):
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares.
@@ -183,14 +183,14 @@ class tdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:  # before the update, so a new AF gets its first term
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= 3*af+1:  # 3n+1 samples measured
                 self.update_S(idx)
             elif len(self.x) >= 2*af+1:  # 2n+1 samples measured
                 self.update_S3n(idx)
 
-        if self.auto_afs:
-            self.update_af()
 
     def add_af(self):
         self.S = numpy.append(self.S, 0)
-- 
2.43.0


From b37c24b9ea8e65cf0e14800ad00de605bb04a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 12/32] fix: real-time add_frequency() ignored tau0 when
 integrating to phase

---
 allantools/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index ed9049f..a8c57e1 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -79,7 +79,7 @@ class dev_realtime(object):
         """ add new frequency point, in units of Hz """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f)  # integration
+        self.add_phase(self.x[-1] + f*self.tau0)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
-- 
2.43.0


From c0b297817e12b55fcf649cff48acb25723c962d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 13/32] fix: real-time auto-AF state was sized by the unused
 afs argument

---
 allantools/realtime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index a8c57e1..d76ae47 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -46,7 +46,7 @@ class dev_realtime(object):
         self.af_decade = 0    # logspace decade
         if auto_afs:
             self.afs = numpy.array([1])
-        self.dev = numpy.zeros(len(afs))    # resulting xDEV
+        self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
         self.tau0 = tau0                     # time-interval between points
 
     def update_af(self):
@@ -103,7 +103,7 @@ class oadev_realtime(dev_realtime):
         super(oadev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
@@ -139,7 +139,7 @@ class ohdev_realtime(dev_realtime):
         super(ohdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_af(self):
         self.S = numpy.append(self.S, 0)
@@ -177,8 +177,8 @@ class tdev_realtime(dev_realtime):
         super(tdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                             auto_afs=auto_afs,
                                             pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
-        self.So = numpy.zeros(len(afs))      # overall sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
+        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point """
-- 
2.43.0


From 99e8164f8b7d523967ee2544d526dfeeda0a47ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 14/32] fix: write_results AF column was truncated and relative
 to the first tau

---
 allantools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 0c2c505..f709aa7 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -196,7 +196,7 @@ class Dataset(object):
                        "\n")
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
-                    af=int(self.out["taus"][i] / self.out["taus"][0]),
+                    af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-- 
2.43.0


From c91943ff41ac6d12b7cec9b9e0ad279f39366a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 15/32] fix: write_results failed after gradev (pair of error
 bars)

---
 allantools/dataset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index f709aa7..5f2ea9a 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -194,15 +194,19 @@ class Dataset(object):
                        "{sigma:.{prec}e} "
                        "{maxsigma:.{prec}e} "
                        "\n")
+            err = self.out["stat_err"]
+            if isinstance(err, list):  # gradev: distances to lower, upper bound
+                err_l, err_h = err
+            else:
+                err_l, err_h = err/2, err/2
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
                     af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-                    minsigma=self.out["stat"][i] - self.out["stat_err"][i]/2,
+                    minsigma=self.out["stat"][i] - err_l[i],
                     sigma=self.out["stat"][i],
-                    maxsigma=(self.out["stat"][i] +
-                              self.out["stat_err"][i]/2),
+                    maxsigma=self.out["stat"][i] + err_h[i],
                     prec=digits-1,
                 ))
-- 
2.43.0


From 3e7cd0ea01b4a4688b87d08e33a5cb4af669612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 16/32] fix: htotdev returned NaN for frequency data with
 leading/trailing NaNs

---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 5c30ee2..74c1d4a 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1140,7 +1140,7 @@ def htotdev(data, rate=1.0, data_type="phase", taus=None):
         freq = phase2frequency(phase, rate)
     elif data_type == "freq":
         phase = frequency2phase(data, rate)
-        freq = data
+        freq = trim_data(data)
     else:
         raise Exception("unknown data_type: " + data_type)
 
-- 
2.43.0


From e5a9321f26ceef5345f56e208f104c06f9fb82f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 17/32] fix: adev2psd_piecewise_approx node frequencies assumed
 one tau per decade

---
 allantools/allantools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 74c1d4a..a71bb58 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1856,12 +1856,15 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
 
     # --- match your original filtering of mu segments ---
     mus = []
+    break_tau = []  # tau at which one segment ends and the next begins
     filtered_adev = [float(adev[0])]
     filtered_tau = [float(taus[0])]
 
     for i in range(1, adev.size):
         mu = 2.0 * (np.log(adev[i]) - np.log(adev[i - 1])) / (np.log(taus[i]) - np.log(taus[i - 1]))
         if (not mus) or (abs(mu - mus[-1]) > mu_tol):
+            if mus:
+                break_tau.append(float(taus[i - 1]))
             mus.append(mu)
             filtered_adev.append(float(adev[i]))
             filtered_tau.append(float(taus[i]))
@@ -1915,7 +1918,7 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     else:
         f_nodes = np.array(
             [
-                1.0 / (10.0 * np.pi * filtered_tau[i]) *
+                1.0 / (np.pi * break_tau[i]) *
                 (integral_values[i] / integral_values[i + 1]) ** (1.0 / (mus[i + 1] - mus[i]))
                 for i in range(mus.size - 1)
             ],
-- 
2.43.0


From ce368d4dfe2591ba2c8c3a68730b75011e1abce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 18/32] fix: real-time auto-AF fell behind when several AFs
 become computable at once

With many points per decade the rounded grid repeats AFs; only one AF was
activated per data point, so later ones missed terms (OADEV/TDEV wrong).
---
 allantools/realtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index d76ae47..e6ea127 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -71,6 +71,8 @@ class dev_realtime(object):
             self.dev = numpy.append(self.dev, 0)  # new dev
             self.af_idx = next_idx
             self.af_decade = next_decade
+            # repeated AFs of a dense grid become computable together
+            self.update_af()
         else:
             pass
             # print "no new AF "
-- 
2.43.0


From d5d329c21dea76ffdfe8aeb86d8762e69c63631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 19/32] fix: integrate PSD/ADEV transfer functions without
 missing the bulk or the tail

adev2psd_piecewise_approx() and psd_piecewise_to_adev() handed an oscillating
integrand over a very wide range to a single quad() call. That missed almost
all of the integral for wide frequency segments (deviations 1000 times too
small), and was off by 3 to 37 percent for deviation slopes near tau^-1.
---
 allantools/allantools.py | 76 +++++++++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 12 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index a71bb58..9fbbcfb 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1772,6 +1772,68 @@ def psd2allan(S_y, f=1.0, kind='adev', base=2):
     return taus_used, ad
 
 
+def _transfer_integral(lo, hi, p, vartype="adev"):
+    """ Integral of sin^4(z)/z^p (ADEV) or (4/3)*sin^6(z)/z^p (HDEV).
+
+    The oscillating tail is integrated separately from the bulk, because
+    adaptive quadrature over a wide range misses the bulk or stops early.
+
+    Parameters
+    ----------
+    lo, hi : float
+        Limits of integration, hi may be np.inf
+    p : float
+        Exponent of the power-law
+    vartype : {'adev', 'hdev'}, optional
+        Deviation type. Default is 'adev'.
+
+    Returns
+    -------
+    I : float
+        Value of the integral
+    """
+    # transfer function as a Fourier series, sum_k c[k]*cos(2*k*z)
+    if vartype == "adev":
+        c = np.array([3.0, -4.0, 1.0]) / 8.0
+
+        def transfer(z):
+            return np.sin(z) ** 4
+    else:
+        c = np.array([10.0, -15.0, 6.0, -1.0]) / 24.0
+
+        def transfer(z):
+            return (4.0 / 3.0) * np.sin(z) ** 6
+
+    def decades(start, stop):
+        """ limits of intervals that quad() can handle one by one """
+        if start <= 0.0 or stop <= start or stop == np.inf:
+            return [(start, stop)]
+        nodes = np.geomspace(start, stop,
+                             int(np.ceil(np.log10(stop / start))) + 1)
+        return list(zip(nodes[:-1], nodes[1:]))
+
+    split = min(max(lo, 2.0 * np.pi), hi)
+    if hi == np.inf and p <= 1.0:  # the integral does not converge
+        split = hi
+
+    with warnings.catch_warnings():
+        warnings.simplefilter("ignore", category=IntegrationWarning)
+        I = 0.0
+        for z1, z2 in decades(lo, split):
+            I += quad(lambda z: transfer(z) / z ** p, z1, z2, epsabs=0.0)[0]
+        if split < hi:
+            if p == 1.0:
+                I += c[0] * np.log(hi / split)
+            else:
+                I += c[0] * (hi ** (1.0 - p) - split ** (1.0 - p)) / (1.0 - p)
+            for z1, z2 in decades(split, hi):
+                for k in range(1, len(c)):
+                    I += c[k] * quad(lambda z: z ** (-p), z1, z2,
+                                     weight='cos', wvar=2.0 * k,
+                                     epsabs=1e-8 * z1 ** (1.0 - p))[0]
+    return I
+
+
 def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     """
     Approximate inverse mapping from deviation (ADEV/HDEV) to a piecewise
@@ -1851,9 +1913,6 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     if vt not in ("adev", "hdev"):
         raise ValueError("vartype must be 'adev' or 'hdev'.")
 
-    def q(z):
-        return 1.0 if vt == "adev" else (4.0 / 3.0) * (np.sin(z) ** 2)
-
     # --- match your original filtering of mu segments ---
     mus = []
     break_tau = []  # tau at which one segment ends and the next begins
@@ -1896,9 +1955,7 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     hi = []
     integral_values = []
     for i in range(Bi.size):
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore", category=IntegrationWarning)
-            I, _ = quad(lambda z: q(z) * (np.sin(z) ** 4) / (z ** (3.0 + mus[i])), 0.0, np.inf)
+        I = _transfer_integral(0.0, np.inf, 3.0 + mus[i], vt)
         integral_values.append(I)
         hi.append(Bi[i] / (2.0 * I * (np.pi ** mus[i])))
 
@@ -1969,9 +2026,6 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
     f_nodes = np.asarray(f_nodes, dtype=float)
     taus = np.asarray(taus, dtype=float)
 
-    def integrand(z, a):
-        return (np.sin(z) ** 4) / (z ** (2.0 - a))
-
     edges = np.concatenate(([0.0], f_nodes, [np.inf]))
     adev = np.empty_like(taus, dtype=float)
 
@@ -1979,9 +2033,7 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
         sigma_y2 = 0.0
         for i in range(h.size):
             factor = h[i] / ((np.pi * tau) ** (alpha[i] + 1.0))
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore", category=IntegrationWarning)
-                I, _ = quad(integrand, np.pi * tau * edges[i], np.pi * tau * edges[i + 1], args=(alpha[i],))
+            I = _transfer_integral(np.pi * tau * edges[i], np.pi * tau * edges[i + 1], 2.0 - alpha[i])
             sigma_y2 += factor * I
         adev[k] = np.sqrt(2.0 * sigma_y2)
 
-- 
2.43.0


From e4f0532abde5b251cea50c27e223c4923bd79139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 20/32] fix: Plot.save() saved whichever figure was created
 last

plt.savefig() acts on pyplot's current figure, so with two Plot objects
saving the first one wrote the second one's figure.
---
 allantools/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index 85a201e..4d08999 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -111,4 +111,4 @@ class Plot(object):
     def save(self, f):
         """Save figure to file
         """
-        self.plt.savefig(f)
+        self.fig.savefig(f)
-- 
2.43.0


From 8213b1d5e3487cd13d8f642fdb97764a6d830b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:02 +0000
Subject: [PATCH 21/32] fix: gradev fails when a gappy record has as many valid
 points as mj

edf_simple() divides by N - m for white PM. gradev() passes the number of
valid points as N, which for a record with gaps can be m or less, so one
long averaging time made the whole call raise ZeroDivisionError (or got
bounds from a meaningless EDF). The EDF is undefined there.
---
 allantools/ci.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 8200677..d0d7bcc 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -803,7 +803,10 @@ def edf_simple(N, m, alpha):
     if alpha in [2, 1, 0, -1, -2]:
         # NIST SP 1065, Table 5
         if alpha == +2:
-            edf = (N + 1) * (N - 2*m) / (2 * (N - m))
+            if N > 2*m:
+                edf = (N + 1) * (N - 2*m) / (2 * (N - m))
+            else:
+                edf = np.nan  # no second difference fits in N points
 
         if alpha == 0:
             edf = (((3 * (N - 1) / (2 * m)) - (2 * (N - 2) / N)) *
-- 
2.43.0


From ebf84d7487ea6d720e86e81b8e3fd3533b2c562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 22/32] fix: integer data wrapped around and single precision
 data lost digits

Differences, sums and squares were taken in the data's own number type,
so that integer phase readings overflowed silently (int32 with htotdev,
unsigned types with every estimator).
---
 allantools/allantools.py | 20 +++++++++++++++-----
 allantools/ci.py         |  2 +-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 9fbbcfb..2e5be40 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1136,11 +1136,11 @@ def htotdev(data, rate=1.0, data_type="phase", taus=None):
 
     """
     if data_type == "phase":
-        phase = data
+        phase = float_array(data)
         freq = phase2frequency(phase, rate)
     elif data_type == "freq":
         phase = frequency2phase(data, rate)
-        freq = trim_data(data)
+        freq = trim_data(float_array(data))
     else:
         raise Exception("unknown data_type: " + data_type)
 
@@ -2045,11 +2045,21 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
 #
 
 
+def float_array(data):
+    """ Return data as an array of (at least) double precision numbers.
+
+    Differences and squares of integers wrap around, and sums of single
+    precision numbers lose digits.
+    """
+    data = np.asarray(data)
+    return np.asarray(data, dtype=np.result_type(data.dtype, np.float64))
+
+
 def input_to_phase(data, rate, data_type):
     """ Take either phase or frequency as input and return phase
     """
     if data_type == "phase":
-        return data
+        return float_array(data)
     elif data_type == "freq":
         return frequency2phase(data, rate)
     else:
@@ -2393,7 +2403,7 @@ def frequency2phase(freqdata, rate):
     dt = 1.0 / float(rate)
     # Protect against NaN values in input array (issue #60)
     # Reintroduces data trimming as in commit 503cb82
-    freqdata = trim_data(freqdata)
+    freqdata = trim_data(float_array(freqdata))
     # Erik Benkler (PTB): Subtract mean value before cumsum in order to
     # avoid precision issues when we have small frequency fluctuations on
     # a large average frequency
@@ -2438,7 +2448,7 @@ def phase2frequency(phase, rate):
     y: np.array
         Data array of fractional frequency, length N-1
     """
-    y = rate*np.diff(phase)
+    y = rate*np.diff(float_array(phase))
     return y
 
 
diff --git a/allantools/ci.py b/allantools/ci.py
index d0d7bcc..dc89108 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -203,7 +203,7 @@ def b1(x, af, rate):
     avar = pow(oadev_x, 2.0)
 
     # variance of y, at given af
-    y = rate * np.diff(x)
+    y = at.phase2frequency(x, rate)
     y_cut = np.array(y[:len(y)-(len(y) % af)])  # cut to length
     assert len(y_cut) % af == 0
     y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
-- 
2.43.0


From 328065736a72ed1d001ea7ecd983f67e8cb8bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 23/32] fix: single precision taus made the result columns
 single precision

---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 2e5be40..1d3dc3c 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -2146,7 +2146,7 @@ def tau_generator(data, rate, taus=None, v=False, even=False, maximum_m=-1):
             taus.append(2.0*(1.0/rate)*pow(10.0, k))
             taus.append(4.0*(1.0/rate)*pow(10.0, k))
 
-    data, taus = np.array(data), np.array(taus)
+    data, taus = np.array(data), np.array(taus, dtype=float)
     rate = float(rate)
     m = []  # integer averaging factor. tau = m*tau0
 
-- 
2.43.0


From dae97aa62b2ceb48f2c40a2e902bfc2d604d3624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 24/32] fix: realtime estimators overflowed on numpy integer
 readings

---
 allantools/realtime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index e6ea127..14093f6 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -81,7 +81,7 @@ class dev_realtime(object):
         """ add new frequency point, in units of Hz """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f*self.tau0)  # integration
+        self.add_phase(self.x[-1] + float(f)*self.tau0)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
@@ -109,7 +109,7 @@ class oadev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
-        self.x.append(xnew)
+        self.x.append(float(xnew))
         if self.auto_afs:  # before the update, so a new AF gets its first term
             self.update_af()
         for idx, af in enumerate(self.afs):
@@ -148,7 +148,7 @@ class ohdev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point """
-        self.x.append(xnew)
+        self.x.append(float(xnew))
         for idx, af in enumerate(self.afs):
             if len(self.x) > 3*af:
                 self.update_S(idx)
@@ -184,7 +184,7 @@ class tdev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point """
-        self.x.append(xnew)
+        self.x.append(float(xnew))
         if self.auto_afs:  # before the update, so a new AF gets its first term
             self.update_af()
         for idx, af in enumerate(self.afs):
-- 
2.43.0


From 88a3d5aa859ac511010b3d50e941a2a24efb8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 25/32] fix: Plot.plot() without grid left the minor grid of an
 earlier call

---
 allantools/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index 4d08999..570b9c7 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -98,7 +98,7 @@ class Plot(object):
             self.ax.grid(True, which="minor", ls="-", color='0.65')
             self.ax.grid(True, which="major", ls="-", color='0.25')
         else:
-            self.ax.grid(False)
+            self.ax.grid(False, which="both")
 
     def show(self):
         """Calls matplotlib.pyplot.show()
-- 
2.43.0


From 64f63132b2c14080f56ee78309968334e2df5bf3 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 26/32] fix: bias and EDF formulas failed or overflowed for
 numpy integer arguments

---
 allantools/ci.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index dc89108..d767af9 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -167,7 +167,7 @@ def rn_theory(af, b):
     # (a=-3 flicker walk FM)
     # (a=-4 random run FM)
     if b == 0:
-        return pow(af, -1)
+        return pow(float(af), -1)
     elif b == -1:
         # f_h = 0.5/tau0  (assumed!)
         # af = tau/tau0
@@ -241,13 +241,13 @@ def b1_theory(N, mu):
     elif mu == 1:
         return float(N)/2.0
     elif mu == 0:
-        return N*np.log(N)/(2.0*(N-1.0)*np.log(2))
+        return N*np.log(float(N))/(2.0*(N-1.0)*np.log(2))
     elif mu == -1:
         return 1
     elif mu == -2:
-        return (pow(N, 2)-1.0)/(1.5*N*(N-1.0))
+        return (pow(float(N), 2)-1.0)/(1.5*N*(N-1.0))
     else:
-        up = N*(1.0-pow(N, mu))
+        up = N*(1.0-pow(float(N), mu))
         down = 2*(N-1.0)*(1-pow(2.0, mu))
         return up/down
 
@@ -486,6 +486,7 @@ def edf_greenhall(alpha, d, m, N,
         ohdev()
     """
 
+    m = float(m)
     if modified:
         F = 1  # F filter factor, 1 modified variance, m unmodified variance
     else:
-- 
2.43.0


From 718c6421241b2b54abc0acc887683f67282f7a80 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 27/32] fix: realtime estimators overflowed for integer tau0
 and numpy integer afs

---
 allantools/realtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 14093f6..863a8be 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -47,7 +47,7 @@ class dev_realtime(object):
         if auto_afs:
             self.afs = numpy.array([1])
         self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
-        self.tau0 = tau0                     # time-interval between points
+        self.tau0 = float(tau0)              # time-interval between points
 
     def update_af(self):
         """ used in auto-AF mode,
@@ -213,7 +213,7 @@ class tdev_realtime(dev_realtime):
         num_pts = len(self.x)
         af = self.afs[idx]
         self.dev[idx] = numpy.sqrt(
-            (1.0/6.0)*(1.0/(num_pts-3*af+1.0))*(1.0/pow(af, 2))*(self.So[idx]))
+            (1.0/6.0)*(1.0/(num_pts-3*af+1.0))*(1.0/pow(float(af), 2))*(self.So[idx]))
 
     def update_S(self, idx):
         """ update S, sum-of-squares
-- 
2.43.0


From 61f1c218036ddaa055adc15e5b97aaaaf8259016 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 28/32] fix: confidence_interval overflowed for a deviation
 stored as a narrow integer

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index d767af9..f1a9b3a 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -64,7 +64,7 @@ def confidence_interval(dev, edf, ci=ONE_SIGMA_CI):
     chi2_l = scipy.stats.chi2.ppf(ci_l, edf)
     chi2_h = scipy.stats.chi2.ppf(ci_h, edf)
 
-    variance = dev*dev
+    variance = np.square(dev, dtype=float)
     var_l = float(edf) * variance / chi2_h  # NIST SP1065 eqn (45)
     var_h = float(edf) * variance / chi2_l
     return (np.sqrt(var_l), np.sqrt(var_h))
-- 
2.43.0


From 8311e7ad53a0c2c74cf1aabe73c23dbbfbeb4481 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 29/32] fix: noise.white overflowed for numpy integer b0 and fs

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index b43a708..a229931 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -83,7 +83,7 @@ def white(num_points=1024, b0=1.0, fs=1.0):
         -------
         White noise sample: numpy.array
     """
-    return math.sqrt(b0*fs/2.0)*np.random.randn(num_points)
+    return math.sqrt(float(b0)*fs/2.0)*np.random.randn(num_points)
 
 
 def brown(num_points=1024, b_minus2=1.0, fs=1.0):
-- 
2.43.0


From 37bf0e5b8d78ee4391b8c61640c9bc0645b61447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 30/32] fix: confidence_interval_noiseID failed when the noise
 estimate left the EDF range

---
 allantools/ci.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/allantools/ci.py b/allantools/ci.py
index f1a9b3a..bf05880 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -108,6 +108,8 @@ def confidence_interval_noiseID(x, dev, af, dev_type="adev",
         dmax = 3
     alpha_int = autocorr_noise_id(
         x, int(af), data_type=data_type, dmin=0, dmax=dmax)[0]
+    # the estimate scatters; keep it within the range the EDF is known for
+    alpha_int = max(min(alpha_int, 2), 2 - 2*dmax)
 
     # 2) EDF (tes was 'is')
     if dev_type == "adev":
-- 
2.43.0


From 9e3fc728ed7559ac968e16241a5dba8a410c32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 31/32] fix: edf_greenhall refused white phase noise with few
 differences

---
 allantools/ci.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index bf05880..e78f77c 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -582,8 +582,14 @@ def edf_greenhall(alpha, d, m, N,
         # case 4, unmodified variances, alpha=2
         K = np.ceil(r)
         if K <= d:
-            # FIXME: add formula from the paper here!
-            raise NotImplementedError
+            # only differences k*m samples apart share phase points
+            s = sum((1.0-k/r)*pow(scipy.special.binom(2*d, d-k) /
+                                  scipy.special.binom(2*d, d), 2)
+                    for k in range(1, int(K)))
+            inv_edf = (1.0/M)*(1.0+2.0*s)
+            if verbose:
+                print("case 4.1 edf= %3f" % float(1.0/inv_edf))
+            return 1.0/inv_edf
         else:
             a0 = (scipy.special.binom(4*d, 2*d) /
                   pow(scipy.special.binom(2*d, d), 2))
-- 
2.43.0


From 97a40680b3491a98b4fd16fc659a5d560bb5e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:59 +0000
Subject: [PATCH 32/32] fix: real-time auto-AF listed the same averaging factor
 several times on dense grids

---
 allantools/realtime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 863a8be..2b3e1d8 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -63,6 +63,11 @@ class dev_realtime(object):
         # next possible AF:
         next_af = int(numpy.round(
             pow(10.0, next_decade) * self.af_taus[next_idx]))
+        if next_af == self.afs[-1]:  # dense grid, the AF is there already
+            self.af_idx = next_idx
+            self.af_decade = next_decade
+            self.update_af()
+            return
         if len(self.x) >= (2*next_af+1):  # can compute next AF
             self.afs = numpy.append(self.afs, next_af)  # new AF
             self.add_af()  # tell subclass to update internal variables
-- 
2.43.0


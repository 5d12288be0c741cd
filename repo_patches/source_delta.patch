From dad7e1788f9c872459438e682ea74b4d5c43dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 01/58] fix: sandia_multi raised ZeroDivisionError for scalar
 zero DC power

---
 pvlib/inverter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index 622fb9b..cacd9bb 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -195,7 +195,10 @@ def sandia_multi(v_dc, p_dc, inverter):
     power_ac = 0. * power_dc
 
     for vdc, pdc in zip(v_dc, p_dc):
-        power_ac += pdc / power_dc * _sandia_eff(vdc, power_dc, inverter)
+        # zero total power gives nan here, replaced by the limits below
+        with np.errstate(invalid='ignore', divide='ignore'):
+            share = np.divide(pdc, power_dc)
+        power_ac += share * _sandia_eff(vdc, power_dc, inverter)
 
     return _sandia_limits(power_ac, power_dc, inverter['Paco'],
                           inverter['Pnt'], inverter['Pso'])
-- 
2.43.0


From ad9caf57774153665929f541e5e072f7b18286b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 02/58] fix: inverter.adr raised ZeroDivisionError for scalar
 zero DC voltage

---
 pvlib/inverter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index cacd9bb..856a6de 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -310,9 +310,9 @@ def adr(v_dc, p_dc, inverter, vtol=0.10):
                          vdc - 1,
                          pdc * (vdc - 1),
                          pdc**2 * (vdc - 1),
-                         1. / vdc - 1,  # divide by 0
-                         pdc * (1. / vdc - 1),  # invalid 0./0. --> nan
-                         pdc**2 * (1. / vdc - 1)])  # divide by 0
+                         np.divide(1., vdc) - 1,  # divide by 0
+                         pdc * (np.divide(1., vdc) - 1),  # 0./0. --> nan
+                         pdc**2 * (np.divide(1., vdc) - 1)])  # divide by 0
     p_loss = np.dot(np.array(ce_list), poly)
     power_ac = p_nom * (pdc - p_loss)
     p_nt = -1 * np.absolute(p_nt)
-- 
2.43.0


From 524f46bb2633426a3134e560e2612295ae8a1cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 03/58] fix: martin_ruiz_diffuse returned nan for tilts just
 above 0 or below 180

---
 pvlib/iam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvlib/iam.py b/pvlib/iam.py
index 9ba981c..b4da757 100644
--- a/pvlib/iam.py
+++ b/pvlib/iam.py
@@ -392,8 +392,10 @@ def martin_ruiz_diffuse(surface_tilt, a_r=0.16, c1=0.4244, c2=None):
     # avoid undefined results for horizontal or upside-down surfaces
     zeroang = 1e-06
 
-    surface_tilt = np.where(surface_tilt == 0, zeroang, surface_tilt)
-    surface_tilt = np.where(surface_tilt == 180, 180 - zeroang, surface_tilt)
+    surface_tilt = np.where(np.abs(surface_tilt) < zeroang,
+                            zeroang, surface_tilt)
+    surface_tilt = np.where(np.abs(surface_tilt - 180) < zeroang,
+                            180 - zeroang, surface_tilt)
 
     if c2 is None:
         # This equation is from [3] Sect. 7.2
-- 
2.43.0


From 89a1a2a404d6bf6fa28b8799bb30e380dee46256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 04/58] fix: schlick_diffuse ground factor exceeded 1 for tilts
 just above 0

---
 pvlib/iam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/iam.py b/pvlib/iam.py
index b4da757..6250d05 100644
--- a/pvlib/iam.py
+++ b/pvlib/iam.py
@@ -953,7 +953,8 @@ def schlick_diffuse(surface_tilt):
     with np.errstate(divide='ignore', invalid='ignore'):  # Eq 6 in [2]
         cug = 40 / (21 * (1 - cosB)) - (1 + cosB) / (1 - cosB) * cuk
 
-    cug = np.where(surface_tilt < 1e-6, 0, cug)
+    # round-off dominates the difference of nearly equal terms near 0 tilt
+    cug = np.where(surface_tilt < 1e-3, 0, cug)
 
     # respect input types:
     if np.isscalar(surface_tilt):
-- 
2.43.0


From 95b8331ec2a217221161483f23e324324ca52b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 05/58] fix: ModelChain accepted '', 'a', 'd', 'r', 'ad' and
 'dr' as the adr inverter model

---
 pvlib/modelchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index cf7a5bf..355b0d8 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -720,7 +720,7 @@ class ModelChain:
             model = model.lower()
             if model == 'sandia':
                 self._ac_model = self.sandia_inverter
-            elif model in 'adr':
+            elif model == 'adr':
                 self._ac_model = self.adr_inverter
             elif model == 'pvwatts':
                 self._ac_model = self.pvwatts_inverter
-- 
2.43.0


From 0b49bbac0da8bfc4835f42c0a7000589ef75bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 06/58] fix: ModelChain results kept fields from an earlier run
 of another kind

---
 pvlib/modelchain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 355b0d8..4690896 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -1339,6 +1339,8 @@ class ModelChain:
             if weather.get('temp_air') is None:
                 weather['temp_air'] = 20
             return weather
+        # start from clean results so that nothing from an earlier run remains
+        self.results = ModelChainResult()
         if isinstance(data, tuple):
             weather = tuple(_build_weather(wx) for wx in data)
             self._configure_results(per_array_data=True)
-- 
2.43.0


From a9eb557d78a21be1f0390ae45443fd1d63172f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 07/58] fix: ModelChain.complete_irradiance failed for a
 DataFrame after a run with tuple input

---
 pvlib/modelchain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 4690896..1285e43 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -1176,6 +1176,7 @@ class ModelChain:
         self._check_multiple_input(weather)
         # Don't use ModelChain._assign_weather() here because it adds
         # temperature and wind-speed columns which we do not need here.
+        self._configure_results(per_array_data=isinstance(weather, tuple))
         self.results.weather = _copy(weather)
         self._assign_times()
         self.results.solar_position = self.location.get_solarposition(
-- 
2.43.0


From 6312dbcf318301f02de6679f399628e2924317e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 08/58] fix: ModelChain ignored the albedo column unless every
 weather frame had one

---
 pvlib/modelchain.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 1285e43..d349fa2 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -1246,11 +1246,14 @@ class ModelChain:
         """
         Get albedo from weather
         """
-        try:
-            self.results.albedo = _tuple_from_dfs(weather, 'albedo')
-        except KeyError:
-            self.results.albedo = tuple([
-                a.albedo for a in self.system.arrays])
+        arrays = self.system.arrays
+        data = weather if isinstance(weather, tuple) \
+            else (weather,) * len(arrays)
+        albedo = tuple(df['albedo'] if 'albedo' in df else array.albedo
+                       for df, array in zip(data, arrays))
+        if len(arrays) == 1:
+            albedo = albedo[0]
+        self.results.albedo = albedo
         return self
 
     def _prep_inputs_airmass(self):
-- 
2.43.0


From 10a6b3c5eb8b01ec4ea32bddee90d7f3d052952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 09/58] fix: prilliman raised ZeroDivisionError for daily data

---
 pvlib/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/tools.py b/pvlib/tools.py
index 1d9db70..44e0877 100644
--- a/pvlib/tools.py
+++ b/pvlib/tools.py
@@ -433,7 +433,7 @@ def _get_sample_intervals(times, win_length):
     # determine if we can proceed
     if times.inferred_freq and len(np.unique(deltas)) == 1:
         sample_interval = times[1] - times[0]
-        sample_interval = sample_interval.seconds / 60  # in minutes
+        sample_interval = sample_interval.total_seconds() / 60  # in minutes
         samples_per_window = int(win_length / sample_interval)
         return sample_interval, samples_per_window
     else:
-- 
2.43.0


From 15ee270a0496a113dc85774ac619bb2c8f54977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 10/58] fix: snow coverage raised TypeError for daily or
 coarser data

---
 pvlib/snow.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/snow.py b/pvlib/snow.py
index b78a93a..c2881c3 100644
--- a/pvlib/snow.py
+++ b/pvlib/snow.py
@@ -60,8 +60,9 @@ def fully_covered_nrel(snowfall, snow_depth=None, threshold_snowfall=1.,
     # otherwise the first snowfall value is ignored
     freq = pd.infer_freq(snowfall.index)
     if freq is not None:
-        timedelta = pd.tseries.frequencies.to_offset(freq) / pd.Timedelta('1h')
-        hourly_snow_rate.iloc[0] = snowfall.iloc[0] / timedelta
+        # assume the first interval is as long as the second one; offsets such
+        # as Day or MonthBegin can't be divided by a Timedelta
+        hourly_snow_rate.iloc[0] = snowfall.iloc[0] / timestep.iloc[1]
     else:  # can't infer frequency from index
         hourly_snow_rate.iloc[0] = 0  # replaces NaN
     covered = (hourly_snow_rate > threshold_snowfall)
-- 
2.43.0


From a9783b06960cdf8b8075d5f56738ae012de2252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 11/58] fix: perez_driesse components did not sum to a total
 limited to zero

---
 pvlib/irradiance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 677cdba..1dafd40 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -1565,8 +1565,14 @@ def perez_driesse(surface_tilt, surface_azimuth, dhi, dni, dni_extra,
             'poa_horizon': dhi * term3
         }
 
+        # Set values of components to 0 when poa_sky_diffuse is 0
+        mask = poa_sky_diffuse == 0
         if isinstance(poa_sky_diffuse, pd.Series):
             diffuse_components = pd.DataFrame(diffuse_components)
+            diffuse_components.loc[mask] = 0
+        else:
+            diffuse_components = {k: np.where(mask, 0, v) for k, v in
+                                  diffuse_components.items()}
 
         return diffuse_components
     else:
-- 
2.43.0


From 7d77e7a1c625a3916348e874948f59e8574a912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 12/58] fix: perez added a row to Series output for scalar
 airmass

---
 pvlib/irradiance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 1dafd40..f5bf258 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -1332,7 +1332,9 @@ def perez(surface_tilt, surface_azimuth, dhi, dni, dni_extra,
 
     # we've preserved the input type until now, so don't ruin it!
     if isinstance(poa_sky_diffuse, pd.Series):
-        poa_sky_diffuse[np.isnan(airmass)] = 0
+        # airmass may be a scalar: a scalar key would add a row
+        isnan = np.broadcast_to(np.isnan(airmass), poa_sky_diffuse.shape)
+        poa_sky_diffuse[isnan] = 0
     else:
         poa_sky_diffuse = np.where(np.isnan(airmass), 0, poa_sky_diffuse)
 
-- 
2.43.0


From 059506ffbcf55a43dcedd7e2c1d8209b5fae16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 13/58] fix: klucher raised ZeroDivisionError for scalar zero
 GHI

---
 pvlib/irradiance.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index f5bf258..c6fc8a4 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -797,9 +797,10 @@ def klucher(surface_tilt, surface_azimuth, dhi, ghi, solar_zenith,
                             solar_zenith, solar_azimuth)
     cos_tt = np.maximum(cos_tt, 0)  # GH 526
 
-    # silence warning from 0 / 0
-    with np.errstate(invalid='ignore'):
-        F = 1 - ((dhi / ghi) ** 2)
+    # silence warning from 0 / 0; np.divide so that Python scalars follow the
+    # array path instead of raising ZeroDivisionError
+    with np.errstate(invalid='ignore', divide='ignore'):
+        F = 1 - (np.divide(dhi, ghi) ** 2)
 
     try:
         # fails with single point input
-- 
2.43.0


From 8b8ea61499084260d82e8cc3f79b7a046606d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 14/58] fix: louche returned negative diffuse irradiance for
 GHI near zero

---
 pvlib/irradiance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index c6fc8a4..03060d5 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -3996,7 +3996,9 @@ def louche(ghi, solar_zenith, datetime_or_doy, max_zenith=90):
     dni = kb*I0
     dhi = ghi - dni*tools.cosd(solar_zenith)
 
-    bad_values = (solar_zenith > max_zenith) | (ghi < 0) | (dni < 0)
+    # kb exceeds Kt for Kt < 0.002, which would make dhi negative
+    bad_values = (solar_zenith > max_zenith) | (ghi < 0) | (dni < 0) \
+        | (dhi < 0)
     dni = np.where(bad_values, 0, dni)
     # ensure that closure relationship remains valid
     dhi = np.where(bad_values, ghi, dhi)
-- 
2.43.0


From c43b8a9e00067df60dd15756ad12560e27f4eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 15/58] fix: clearsky_index raised ZeroDivisionError for scalar
 zero clear-sky GHI

---
 pvlib/irradiance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 03060d5..bc562d5 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -1797,7 +1797,8 @@ def clearsky_index(ghi, ghi_clear, max_clearsky_index=2.0):
     clearsky_index : numeric
         Clearsky index. [unitless]
     """
-    clearsky_index = ghi / ghi_clear
+    # np.divide: Python scalars follow the array path (no ZeroDivisionError)
+    clearsky_index = np.divide(ghi, ghi_clear)
     # set +inf, -inf, and nans to zero
     clearsky_index = np.where(~np.isfinite(clearsky_index), 0,
                               clearsky_index)
-- 
2.43.0


From 0ddd39d635b56b4129299c3053c89fb3ba8b2ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 16/58] fix: bishop88 breakdown gradients lacked the breakdown
 voltage factor

---
 pvlib/singlediode.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 974d59d..3385c14 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -183,11 +183,13 @@ def bishop88(diode_voltage, photocurrent, saturation_current,
         brk_pwr_1 = np.power(brk_term, -breakdown_exp - 1)
         brk_pwr_2 = np.power(brk_term, -breakdown_exp - 2)
         brk_fctr = breakdown_factor * g_sh
-        grad_i_brk = brk_fctr * (brk_pwr + diode_voltage *
-                                 -breakdown_exp * brk_pwr_1)
-        grad2i_brk = (brk_fctr * -breakdown_exp        # noqa: W503
+        # each derivative of brk_term brings a factor -1 / breakdown_voltage
+        grad_i_brk = brk_fctr * (brk_pwr + diode_voltage * breakdown_exp
+                                 / breakdown_voltage * brk_pwr_1)
+        grad2i_brk = (brk_fctr * breakdown_exp / breakdown_voltage
                       * (2 * brk_pwr_1 + diode_voltage   # noqa: W503
-                         * (-breakdown_exp - 1) * brk_pwr_2))  # noqa: W503
+                         * (breakdown_exp + 1)   # noqa: W503
+                         / breakdown_voltage * brk_pwr_2))  # noqa: W503
         grad_i = -g_diode - g_sh - grad_i_recomb - grad_i_brk  # di/dvd
         grad_v = 1.0 - grad_i * resistance_series  # dv/dvd
         # dp/dv = d(iv)/dv = v * di/dv + i
-- 
2.43.0


From d51f4c589515e547c90614b0d236a794ed7d3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 17/58] fix: bracketing single diode solvers failed for
 infinite shunt resistance

---
 pvlib/singlediode.py | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 3385c14..d5728a7 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -58,6 +58,20 @@ def estimate_voc(photocurrent, saturation_current, nNsVth):
     return nNsVth * np.log(np.asarray(photocurrent) / saturation_current + 1.0)
 
 
+def _max_diode_voltage(photocurrent, saturation_current, nNsVth, NsVbi):
+    """
+    Upper bound for the diode voltage at non-negative current.
+
+    With infinite shunt resistance the open circuit voltage equals
+    :py:func:`estimate_voc`, so go slightly above the estimate to keep
+    round-off from excluding the solution. When the estimate exceeds NsVbi,
+    stay slightly below the asymptote at NsVbi instead.
+    """
+    voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
+    voc_est = voc_est * (1 + 1e-9)
+    return np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+
+
 def bishop88(diode_voltage, photocurrent, saturation_current,
              resistance_series, resistance_shunt, nNsVth, d2mutau=0,
              NsVbi=np.inf, breakdown_factor=0., breakdown_voltage=-5.5,
@@ -317,10 +331,8 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
 
     if method == 'brentq':
         # first bound the search using voc
-        voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
-        # start iteration slightly less than NsVbi when voc_est > NsVbi, to
-        # avoid the asymptote at NsVbi
-        xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+        xp = _max_diode_voltage(photocurrent, saturation_current, nNsVth,
+                                NsVbi)
 
         # brentq only works with scalar inputs, so we need a set up function
         # and np.vectorize to repeatedly call the optimizer with the right
@@ -353,10 +365,11 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
             )
             raise ImportError(msg) from e
 
-        voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
-        shape = _shape_of_max_size(voltage, voc_est)
+        vhi = _max_diode_voltage(photocurrent, saturation_current, nNsVth,
+                                 NsVbi)
+        shape = _shape_of_max_size(voltage, vhi)
         vlo = np.zeros(shape)
-        vhi = np.full(shape, voc_est)
+        vhi = np.full(shape, vhi)
         bounds = (vlo, vhi)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
@@ -484,10 +497,7 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
         method_kwargs = {}
 
     # first bound the search using voc
-    voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
-    # start iteration slightly less than NsVbi when voc_est > NsVbi, to avoid
-    # the asymptote at NsVbi
-    xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+    xp = _max_diode_voltage(photocurrent, saturation_current, nNsVth, NsVbi)
 
     def fi(x, i, *a):
         # calculate current residual given diode voltage "x"
@@ -525,9 +535,9 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
             )
             raise ImportError(msg) from e
 
-        shape = _shape_of_max_size(current, voc_est)
+        shape = _shape_of_max_size(current, xp)
         vlo = np.zeros(shape)
-        vhi = np.full(shape, voc_est)
+        vhi = np.full(shape, xp)
         bounds = (vlo, vhi)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
@@ -653,10 +663,7 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
         method_kwargs = {}
 
     # first bound the search using voc
-    voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
-    # start iteration slightly less than NsVbi when voc_est > NsVbi, to avoid
-    # the asymptote at NsVbi
-    xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+    xp = _max_diode_voltage(photocurrent, saturation_current, nNsVth, NsVbi)
 
     def fmpp(x, *a):
         return bishop88(x, *a, gradients=True)[6]
@@ -693,7 +700,7 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
             raise ImportError(msg) from e
 
         vlo = np.zeros_like(photocurrent)
-        vhi = np.full_like(photocurrent, voc_est)
+        vhi = np.full_like(photocurrent, xp)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
 
-- 
2.43.0


From 4bcb2c6e030515170ef5e82764d902be98be78b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 18/58] fix: bishop88_mpp with chandrupatla failed for scalar
 photocurrent with array parameters

---
 pvlib/singlediode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index d5728a7..06c276c 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -699,8 +699,8 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
             )
             raise ImportError(msg) from e
 
-        vlo = np.zeros_like(photocurrent)
-        vhi = np.full_like(photocurrent, xp)
+        vlo = np.zeros_like(xp)
+        vhi = xp
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
 
-- 
2.43.0


From a8a2013b02a3387559d29e080df47ab72e62fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 19/58] fix: calcparams_desoto raised ZeroDivisionError for
 scalar zero irradiance

---
 pvlib/pvsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index 02b16ed..c6933ce 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -1743,7 +1743,7 @@ def calcparams_desoto(effective_irradiance, temp_cell,
     # spectral_modifier = 1.0.
     # use errstate to silence divide by warning
     with np.errstate(divide='ignore'):
-        Rsh = R_sh_ref * (irrad_ref / effective_irradiance)
+        Rsh = R_sh_ref * np.divide(irrad_ref, effective_irradiance)
 
     Rs = R_s
 
-- 
2.43.0


From 2af8f8df3e39906ceabc8c5499c748f25d4392d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 20/58] fix: sapm gave nan voltage and power at zero irradiance
 for modules with negative C2

---
 pvlib/pvsystem.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index c6933ce..78786ca 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -2383,11 +2383,15 @@ def sapm(effective_irradiance, temp_cell, module, *, temperature_ref=25,
         module['Voco'] + cells_in_series * delta * logEe +
         Bvoco*(temp_cell - temperature_ref)))
 
+    # at zero irradiance the terms can be infinite with opposite signs
+    with np.errstate(invalid='ignore'):
+        log_terms = np.where(
+            Ee_eq_0, -np.inf,
+            module['C2'] * cells_in_series * delta * logEe +
+            module['C3'] * cells_in_series * ((delta * logEe) ** 2))
+
     out['v_mp'] = np.maximum(0, (
-        module['Vmpo'] +
-        module['C2'] * cells_in_series * delta * logEe +
-        module['C3'] * cells_in_series * ((delta * logEe) ** 2) +
-        Bvmpo*(temp_cell - temperature_ref)))
+        module['Vmpo'] + log_terms + Bvmpo*(temp_cell - temperature_ref)))
 
     out['p_mp'] = out['i_mp'] * out['v_mp']
 
-- 
2.43.0


From 86bc7d26b707f903b063171dbc83b7382b2a7ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 21/58] fix: sapm dropped the index of Series irradiance with
 scalar temperature

---
 pvlib/pvsystem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index 78786ca..818f316 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -2407,6 +2407,8 @@ def sapm(effective_irradiance, temp_cell, module, *, temperature_ref=25,
 
     if isinstance(out['i_sc'], pd.Series):
         out = pd.DataFrame(out)
+    elif isinstance(effective_irradiance, pd.Series):
+        out = pd.DataFrame(out, index=effective_irradiance.index)
 
     return out
 
-- 
2.43.0


From 81efe2b60a3e637cfb5b94ddb7c8d640bb31bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 22/58] fix: ModelChain.pvwatts_inverter uses the DC power of
 DataFrame DC results

With ac_model='pvwatts' and a DC model that reports currents and voltages,
the whole DataFrame was passed to the PVWatts inverter, so results.ac was a
DataFrame of meaningless columns.
---
 pvlib/modelchain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index d349fa2..7ca537f 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -765,7 +765,11 @@ class ModelChain:
         return self
 
     def pvwatts_inverter(self):
-        ac = self.system.get_ac('pvwatts', self.results.dc)
+        dc = self.results.dc
+        if isinstance(dc[0] if isinstance(dc, tuple) else dc, pd.DataFrame):
+            # DC models other than PVWatts also report current and voltage
+            dc = _tuple_from_dfs(dc, 'p_mp')
+        ac = self.system.get_ac('pvwatts', dc)
         self.results.ac = ac.fillna(0)
         return self
 
-- 
2.43.0


From e1020e108adf5474d4246b413473bc3ca4b5e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 23/58] fix: ModelChain.adr_inverter accepts a length-one tuple
 of DC results

A single-Array system run with length-one tuple weather raised TypeError
with the adr inverter model only.
---
 pvlib/modelchain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 7ca537f..68a2b22 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -759,8 +759,8 @@ class ModelChain:
     def adr_inverter(self):
         self.results.ac = self.system.get_ac(
             'adr',
-            self.results.dc['p_mp'],
-            v_dc=self.results.dc['v_mp']
+            _tuple_from_dfs(self.results.dc, 'p_mp'),
+            v_dc=_tuple_from_dfs(self.results.dc, 'v_mp')
         )
         return self
 
-- 
2.43.0


From b5442fc61c2c58e9da308d9a72db95b436fff391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 24/58] fix: ModelChain accepted 'singlediode' as DC model
 without setting one

The name has required parameters but no method, so dc_model raised
AttributeError when used, or kept the model set before.
---
 pvlib/modelchain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 68a2b22..46add57 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -611,6 +611,8 @@ class ModelChain:
                     self._dc_model = self.pvsyst
                 elif model == 'pvwatts':
                     self._dc_model = self.pvwatts_dc
+                else:
+                    raise ValueError(model + ' is not a valid DC power model')
             else:
                 raise ValueError(model + ' is not a valid DC power model')
         else:
-- 
2.43.0


From fe3a0d9415b74dffefae76c9dd52813788c64966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 25/58] fix: detect_clearsky accepts integer measured and
 clear-sky data

---
 pvlib/clearsky.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index da9d197..f5e2ad8 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -603,6 +603,7 @@ def _line_length_windowed(data, H, samples_per_window,
 
 
 def _to_centered_series(vals, idx, samples_per_window):
+    vals = np.asarray(vals, dtype=float)  # integers can't be padded with NaN
     vals = np.pad(vals, ((0, len(idx) - len(vals)),), mode='constant',
                   constant_values=np.nan)
     shift = samples_per_window // 2  # align = 'center' only
-- 
2.43.0


From 1f1d3a073b989f6c5bc3541d9680550f6d2c8069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 26/58] fix: haurwitz truncated GHI to integers for integer
 zenith

---
 pvlib/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index f5e2ad8..f081124 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -316,7 +316,7 @@ def haurwitz(apparent_zenith):
     '''
 
     cos_zenith = tools.cosd(apparent_zenith.values)
-    ghi_clear = np.zeros_like(apparent_zenith.values)
+    ghi_clear = np.zeros_like(cos_zenith)
     cos_zen_gte_0 = cos_zenith > 0
     ghi_clear[cos_zen_gte_0] = (1098.0 * cos_zenith[cos_zen_gte_0] *
                                 np.exp(-0.059/cos_zenith[cos_zen_gte_0]))
-- 
2.43.0


From cac5322123ac108778e51eb411cf625e5789895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 27/58] fix: simplified_solis truncated precipitable water when
 aod700 holds integers

---
 pvlib/clearsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index f081124..2ef7b5f 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -483,9 +483,9 @@ def _calc_taud(w, aod700, p):
         w = np.array([w])
         aod700 = np.array([aod700])
     elif np.isscalar(w):
-        w = np.full_like(aod700, w)
+        w = np.full_like(aod700, w, dtype=float)
     elif np.isscalar(aod700):
-        aod700 = np.full_like(w, aod700)
+        aod700 = np.full_like(w, aod700, dtype=float)
 
     # set up nan-tolerant masks
     aod700_lt_0p05 = np.full_like(aod700, False, dtype='bool')
-- 
2.43.0


From 1249a7d3c984e8b288127e344b2b98eebbfb3a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 28/58] fix: simplified_solis raised KeyError for length-one
 Series aerosol or water

---
 pvlib/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index 2ef7b5f..a4fd3b9 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -509,7 +509,7 @@ def _calc_taud(w, aod700, p):
 
     # be polite about matching the output type to the input type(s)
     if len(taud) == 1:
-        taud = taud[0]
+        taud = np.asarray(taud)[0]
 
     return taud
 
-- 
2.43.0


From ae4ffa840bceeb77a5b455df16bc6d9b9f396d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 29/58] fix: get_solarposition passed temperature as altitude
 to spa_c

---
 pvlib/solarposition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 4441ed0..ec8a447 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -101,8 +101,8 @@ def get_solarposition(time, latitude, longitude,
         time = pd.DatetimeIndex([time, ])
 
     if method == 'nrel_c':
-        ephem_df = spa_c(time, latitude, longitude, pressure, temperature,
-                         **kwargs)
+        ephem_df = spa_c(time, latitude, longitude, pressure, altitude,
+                         temperature, **kwargs)
     elif method == 'nrel_numba':
         ephem_df = spa_python(time, latitude, longitude, altitude,
                               pressure, temperature,
-- 
2.43.0


From b23608d785988485009f2a96383a28e117784cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 30/58] fix: spa_c ignored fractions of a second

---
 pvlib/solarposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index ec8a447..da5650f 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -209,7 +209,7 @@ def spa_c(time, latitude, longitude, pressure=101325., altitude=0.,
                                 day=date.day,
                                 hour=date.hour,
                                 minute=date.minute,
-                                second=date.second,
+                                second=date.second + date.microsecond * 1e-6,
                                 time_zone=0,  # date uses utc time
                                 latitude=latitude,
                                 longitude=longitude,
-- 
2.43.0


From 5f734892101248b0ec5de2f4cbee76450bcb89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 31/58] fix: a missing time changed the other rows of ephemeris

---
 pvlib/solarposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index da5650f..9f459d9 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -808,7 +808,7 @@ def ephemeris(time, latitude, longitude, pressure=101325.0, temperature=12.0):
     EccenAnom = MeanAnom
     E = 0
 
-    while np.max(abs(EccenAnom - E)) > 0.0001:
+    while np.any(abs(EccenAnom - E) > 0.0001):
         E = EccenAnom
         EccenAnom = MeanAnom + np.degrees(Eccen)*np.sin(np.radians(E))
 
-- 
2.43.0


From e716640af27370751facaf0a0669557e6cd09fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 32/58] fix: solar_azimuth_analytical placed the sun due south
 at zero hour angle

---
 pvlib/solarposition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 9f459d9..d772b0b 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1307,6 +1307,9 @@ def solar_azimuth_analytical(latitude, hourangle, declination, zenith):
     # when NaN values occur in input, ignore and pass to output
     with np.errstate(invalid='ignore'):
         sign_ha = np.sign(hourangle)
+    # at an hour angle of exactly zero the sun is on the meridian, but not
+    # necessarily due south
+    sign_ha = np.where(sign_ha == 0, 1, sign_ha)
 
     return sign_ha * np.arccos(cos_azi) + np.pi
 
-- 
2.43.0


From 49882a3a2dc79a3931b5b21fdab21cceed3245cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 33/58] fix: spa_python ignored atmos_refract=0

---
 pvlib/solarposition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index d772b0b..9412d68 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -361,7 +361,8 @@ def spa_python(time, latitude, longitude,
     elev = altitude
     pressure = pressure / 100  # pressure must be in millibars for calculation
 
-    atmos_refract = atmos_refract or 0.5667
+    if atmos_refract is None:
+        atmos_refract = 0.5667
 
     if not isinstance(time, pd.DatetimeIndex):
         try:
-- 
2.43.0


From 8445e364da5e070b7fffb7e9caa10aeeb8c91b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 34/58] fix: sunrise, sunset and transit times on days with a
 clock change

---
 pvlib/solarposition.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 9412d68..77ada46 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1442,9 +1442,15 @@ def _local_times_from_hours_since_midnight(times, hours):
     if not times.tz:
         raise ValueError('times must be localized')
 
-    # normalize local times to previous local midnight and add the hours until
-    # sunrise, sunset, and transit
-    return times.normalize() + pd.to_timedelta(hours, unit='h')
+    # Add the hours until sunrise, sunset, and transit to the local calendar
+    # day.  ``hours`` do not include clock changes during the day, so the sum
+    # is taken with the UTC offset of ``times`` instead of local midnight,
+    # which may also be nonexistent or ambiguous in some timezones.
+    naive_times = times.tz_localize(None)
+    utc_offset = naive_times - times.tz_convert('UTC').tz_localize(None)
+    naive_utc = (naive_times.normalize() + pd.to_timedelta(hours, unit='h')
+                 - utc_offset)
+    return naive_utc.tz_localize('UTC').tz_convert(times.tz)
 
 
 def _times_to_hours_after_local_midnight(times):
-- 
2.43.0


From 58e2d38e9fa2afc7d3e99862ba4efd72214b3b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 35/58] fix: hour angle after the clock change on DST
 transition days

---
 pvlib/solarposition.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 77ada46..b172151 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1466,11 +1466,14 @@ def _times_to_hours_after_local_midnight(times):
     # We remove the timezone before normalizing for this reason.
     naive_normalized_times = times.tz_localize(None).normalize()
 
-    # Use Pandas functionality for shifting nonexistent times forward
-    normalized_times = naive_normalized_times.tz_localize(
+    # Check that local midnight is not ambiguous
+    naive_normalized_times.tz_localize(
         times.tz, nonexistent='shift_forward', ambiguous='raise')
 
-    hrs = (times - normalized_times) / pd.Timedelta('1h')
+    # Hours on the local clock, not elapsed hours: they differ after a clock
+    # change, and the hour angle is calculated with the UTC offset of ``times``
+    hrs = (times.tz_localize(None) - naive_normalized_times
+           ) / pd.Timedelta('1h')
 
     # ensure array return instead of a version-dependent pandas <T>Index
     return np.array(hrs)
-- 
2.43.0


From 4a90bd2b05cbcaaf89d507e7b08e679d6c5da551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 36/58] fix: SPA sunrise, sunset and transit of the requested
 local day for UTC offsets across the antimeridian

---
 pvlib/solarposition.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index b172151..97e34e3 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -472,6 +472,19 @@ def sun_rise_set_transit_spa(times, latitude, longitude, how='numpy',
     transit, sunrise, sunset = spa.transit_sunrise_sunset(
         unixtime, lat, lon, delta_t, numthreads)
 
+    # The routine returns the transit during the UTC day, which belongs to an
+    # adjacent local day where the UTC offset and the longitude are on
+    # different sides of the antimeridian, e.g., UTC+13 at 175 degrees west.
+    # Ask for the UTC day with the transit of the requested local day instead.
+    transit_day = pd.to_datetime(transit*1e9, unit='ns', utc=True).tz_convert(
+        tzinfo).tz_localize(None).normalize()
+    offset = (times.tz_localize(None).normalize() - transit_day
+              ) / pd.Timedelta('1D')
+    offset = np.nan_to_num(np.array(offset, dtype=float))
+    if np.any(offset != 0):
+        transit, sunrise, sunset = spa.transit_sunrise_sunset(
+            unixtime + offset * 86400, lat, lon, delta_t, numthreads)
+
     # arrays are in seconds since epoch format, need to conver to timestamps
     transit = pd.to_datetime(transit*1e9, unit='ns', utc=True).tz_convert(
         tzinfo).tolist()
-- 
2.43.0


From 8363a820336d12d192451d6122dedadd8f7b557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 37/58] fix: keep the PVLIB_USE_NUMBA environment variable when
 spa is reloaded

---
 pvlib/solarposition.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 97e34e3..06e80b2 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -235,6 +235,19 @@ def spa_c(time, latitude, longitude, pressure=101325., altitude=0.,
         return dfout
 
 
+def _reload_spa(spa, use_numba):
+    """Reload spa.py, leaving the environment as it was"""
+    previous = os.environ.get('PVLIB_USE_NUMBA')
+    os.environ['PVLIB_USE_NUMBA'] = use_numba
+    try:
+        return reload(spa)
+    finally:
+        if previous is None:
+            del os.environ['PVLIB_USE_NUMBA']
+        else:
+            os.environ['PVLIB_USE_NUMBA'] = previous
+
+
 def _spa_python_import(how):
     """Compile spa.py appropriately"""
 
@@ -249,16 +262,12 @@ def _spa_python_import(how):
         # the PVLIB_USE_NUMBA env variable is used to tell the module
         # to not compile with numba
         warnings.warn('Reloading spa to use numpy')
-        os.environ['PVLIB_USE_NUMBA'] = '0'
-        spa = reload(spa)
-        del os.environ['PVLIB_USE_NUMBA']
+        spa = _reload_spa(spa, '0')
     elif how == 'numba' and not using_numba:
         # The spa module was not compiled to numba code, so set
         # PVLIB_USE_NUMBA so it does compile to numba on reload.
         warnings.warn('Reloading spa to use numba')
-        os.environ['PVLIB_USE_NUMBA'] = '1'
-        spa = reload(spa)
-        del os.environ['PVLIB_USE_NUMBA']
+        spa = _reload_spa(spa, '1')
     elif how != 'numba' and how != 'numpy':
         raise ValueError("how must be either 'numba' or 'numpy'")
 
-- 
2.43.0


From 4935e35fd6ee441b287b73d53cbb92271bdd23c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 38/58] fix: read_cams raises for content without a data
 section instead of looping forever

---
 pvlib/iotools/sodapro.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/sodapro.py b/pvlib/iotools/sodapro.py
index be11dbf..da8984d 100644
--- a/pvlib/iotools/sodapro.py
+++ b/pvlib/iotools/sodapro.py
@@ -294,7 +294,11 @@ def read_cams(filename, integrated=False, label=None, map_variables=True):
 
         # Initial lines starting with # contain metadata
         while True:
-            line = fbuf.readline().rstrip('\n')
+            line = fbuf.readline()
+            if line == '':  # end of file
+                raise ValueError('No data section was detected. This is '
+                                 'probably not a CAMS Radiation file.')
+            line = line.rstrip('\n')
             if line.startswith('# Observation period'):
                 # The last line of the metadata section has the column names
                 names = line.lstrip('# ').split(';')
-- 
2.43.0


From 243f403f8f56b16c85aa65ed2596a240dc969300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:58 +0000
Subject: [PATCH 39/58] fix: use the number of positions in the WVM variability
 reduction

---
 pvlib/scaling.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pvlib/scaling.py b/pvlib/scaling.py
index 693d9f6..0042a73 100644
--- a/pvlib/scaling.py
+++ b/pvlib/scaling.py
@@ -6,7 +6,6 @@ or other variables to account for temporal or spatial characteristics.
 import numpy as np
 import pandas as pd
 
-import scipy.optimize
 from scipy.spatial.distance import pdist
 
 
@@ -129,14 +128,8 @@ def _compute_vr(positions, cloud_speed, tmscales):
     pos = np.array(positions)
     dist = pdist(pos, 'euclidean')
 
-    # Find effective length of position vector, 'dist' is full pairwise
-    n_pairs = len(dist)
-
-    def fn(x):
-        return np.abs((x ** 2 - x) / 2 - n_pairs)
-
-    n_dist = np.round(scipy.optimize.fmin(fn, np.sqrt(n_pairs), disp=False))
-    n_dist = n_dist.item()
+    # Length of the position vector, 'dist' is full pairwise
+    n_dist = len(pos)
     # Compute VR
     A = cloud_speed / 2  # Resultant fit for A from [2]
     vr = np.zeros(tmscales.shape)
-- 
2.43.0


From c93b728e62d834de827703a58432504a0cb342e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:58 +0000
Subject: [PATCH 40/58] fix: read WVM sampling intervals of a day or longer in
 full

---
 pvlib/scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/scaling.py b/pvlib/scaling.py
index 0042a73..618159b 100644
--- a/pvlib/scaling.py
+++ b/pvlib/scaling.py
@@ -247,7 +247,7 @@ def _compute_wavelet(clearsky_index, dt=None):
     else:  # flatten() succeeded, thus it's a pandas type, so get its dt
         try:  # Assume it's a time series type index
             dt = clearsky_index.index[1] - clearsky_index.index[0]
-            dt = dt.seconds + dt.microseconds/1e6
+            dt = dt.total_seconds()
         except AttributeError:  # It must just be a numeric index
             dt = (clearsky_index.index[1] - clearsky_index.index[0])
 
-- 
2.43.0


From 93a44d218559379d24d430e6614a727a8db7ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:58 +0000
Subject: [PATCH 41/58] fix: accept arrays spanning several days in gti_dirint

---
 pvlib/irradiance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index bc562d5..baf2ccf 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -2722,6 +2722,10 @@ def _gti_dirint_gte_90_kt_prime(aoi, solar_zenith, solar_azimuth, times,
     # set the kt_prime from sunrise to AOI=90 to be equal to
     # the kt_prime for 65 < AOI < 80 during the morning.
     # similar for the afternoon. repeat for every day.
+    # masks are applied to one day at a time, so they must be indexed
+    aoi = pd.Series(aoi, index=times)
+    solar_zenith = pd.Series(solar_zenith, index=times)
+    solar_azimuth = pd.Series(solar_azimuth, index=times)
     aoi_gte_90 = aoi >= 90
     aoi_65_80 = (aoi > 65) & (aoi < 80)
     zenith_lt_90 = solar_zenith < 90
-- 
2.43.0


From 696abe50bbffadf066e5ae57456b8a6aaa94bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:58 +0000
Subject: [PATCH 42/58] fix: report only points that did not converge in
 gti_dirint

---
 pvlib/irradiance.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index baf2ccf..e6d4362 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -2654,12 +2654,15 @@ def _gti_dirint_lt_90(poa_global, aoi, aoi_lt_90, solar_zenith, solar_azimuth,
         poa_global_i = np.maximum(1.0, poa_global_i - coeff * diff)
     else:
         # we are here because we ran out of coeffs to loop over and
-        # therefore we have exceeded max_iterations
-        failed_points = best_diff[aoi_lt_90][~best_diff_lte_1_lt_90]
-        warnings.warn(
-            ('%s points failed to converge after %s iterations. best_diff:\n%s'
-             % (len(failed_points), max_iterations, failed_points)),
-            RuntimeWarning)
+        # therefore we have reached max_iterations
+        best_diff_lt_90 = best_diff[aoi_lt_90]
+        failed_points = best_diff_lt_90[~(best_diff_lt_90 <= 1)]
+        if len(failed_points) > 0:
+            warnings.warn(
+                ('%s points failed to converge after %s iterations. '
+                 'best_diff:\n%s'
+                 % (len(failed_points), max_iterations, failed_points)),
+                RuntimeWarning)
 
     # return the best data, whether or not the solution converged
     return best_ghi, best_dni, best_dhi, best_kt_prime
-- 
2.43.0


From 25904d4e118f05c70d22804d7aa0cd9118f357a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 43/58] fix: give each array its own copy of named temperature
 model parameters

---
 pvlib/temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/temperature.py b/pvlib/temperature.py
index 55222c0..0f7d98d 100644
--- a/pvlib/temperature.py
+++ b/pvlib/temperature.py
@@ -45,7 +45,7 @@ Retrieve the open rack glass-polymer configuration for SAPM::
 def _temperature_model_params(model, parameter_set):
     try:
         params = TEMPERATURE_MODEL_PARAMETERS[model]
-        return params[parameter_set]
+        return params[parameter_set].copy()
     except KeyError:
         msg = ('{} is not a named set of parameters for the {} cell'
                ' temperature model.'
-- 
2.43.0


From 355f78518e058623b7db077b26ae67a2054fd0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 44/58] fix: return a copy of the wavelength table from
 spectrl2

---
 pvlib/spectrum/spectrl2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/spectrum/spectrl2.py b/pvlib/spectrum/spectrl2.py
index af531ff..5bdeb55 100644
--- a/pvlib/spectrum/spectrl2.py
+++ b/pvlib/spectrum/spectrl2.py
@@ -384,7 +384,7 @@ def spectrl2(apparent_zenith, aoi, surface_tilt, ground_albedo,
     Iground = pvlib.irradiance.get_ground_diffuse(surface_tilt, ghi, albedo=rg)
 
     Itilt = Ibeam + Isky + Iground
-    wavelength_1d = wavelength.reshape(-1)  # only needs 1 dimension
+    wavelength_1d = wavelength.flatten()  # only needs 1 dimension; a copy
     return {
         'wavelength': wavelength_1d,
         'dni_extra': spectrum_et_adj,
-- 
2.43.0


From 30ab8d0b61b21d0dc6aaed4f2765a4bc046cad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 45/58] fix: return nan for nan inputs with the brentq method

---
 pvlib/singlediode.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 06c276c..096a72f 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -339,11 +339,11 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
         # arguments for possible array input
         def vd_from_brent(voc, v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                           breakdown_factor, breakdown_voltage, breakdown_exp):
-            return brentq(fv, 0.0, voc,
-                          args=(v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
-                                breakdown_factor, breakdown_voltage,
-                                breakdown_exp),
-                          **method_kwargs)
+            return _brentq(fv, voc,
+                           (v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
+                            breakdown_factor, breakdown_voltage,
+                            breakdown_exp),
+                           method_kwargs)
 
         vd_from_brent_vectorized = np.vectorize(vd_from_brent)
         vd = vd_from_brent_vectorized(xp, voltage, *args)
@@ -509,11 +509,11 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
         # arguments for possible array input
         def vd_from_brent(voc, i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                           breakdown_factor, breakdown_voltage, breakdown_exp):
-            return brentq(fi, 0.0, voc,
-                          args=(i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
-                                breakdown_factor, breakdown_voltage,
-                                breakdown_exp),
-                          **method_kwargs)
+            return _brentq(fi, voc,
+                           (i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
+                            breakdown_factor, breakdown_voltage,
+                            breakdown_exp),
+                           method_kwargs)
 
         vd_from_brent_vectorized = np.vectorize(vd_from_brent)
         vd = vd_from_brent_vectorized(xp, current, *args)
@@ -672,10 +672,10 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
         # break out arguments for numpy.vectorize to handle broadcasting
         vec_fun = np.vectorize(
             lambda voc, iph, isat, rs, rsh, gamma, d2mutau, NsVbi, vbr_a, vbr,
-            vbr_exp: brentq(fmpp, 0.0, voc,
-                            args=(iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
-                                  vbr_a, vbr, vbr_exp),
-                            **method_kwargs)
+            vbr_exp: _brentq(fmpp, voc,
+                             (iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
+                              vbr_a, vbr, vbr_exp),
+                             method_kwargs)
         )
         vd = vec_fun(xp, *args)
     elif method == 'newton':
@@ -725,6 +725,14 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
         return bishop88(vd, *args)
 
 
+def _brentq(func, voc, args, method_kwargs):
+    # root of func between 0 and voc, or nan where an input is nan (as the
+    # other methods return) instead of failing for all the other points
+    if np.isnan([voc, *args]).any():
+        return (np.nan, None) if method_kwargs.get('full_output') else np.nan
+    return brentq(func, 0.0, voc, args=args, **method_kwargs)
+
+
 def _shape_of_max_size(*args):
     return max(((np.size(a), np.shape(a)) for a in args),
                key=lambda t: t[0])[1]
-- 
2.43.0


From 2e9018a30a0e445a8d9cb7097866d29c3343d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 46/58] fix: accept length-1 arrays with scalars in the
 chandrupatla method

---
 pvlib/singlediode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 096a72f..225ebc9 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -734,8 +734,9 @@ def _brentq(func, voc, args, method_kwargs):
 
 
 def _shape_of_max_size(*args):
+    # prefer the shape of a length-1 array to that of a scalar
     return max(((np.size(a), np.shape(a)) for a in args),
-               key=lambda t: t[0])[1]
+               key=lambda t: (t[0], len(t[1])))[1]
 
 
 def _prepare_newton_inputs(x0, args, method_kwargs):
-- 
2.43.0


From f2ca812d4ef5e9f2124e70d4dc2964fa69f1ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 47/58] fix: keep equals signs within values in read_panond

---
 pvlib/iotools/panond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/panond.py b/pvlib/iotools/panond.py
index 2bc8363..da88f13 100644
--- a/pvlib/iotools/panond.py
+++ b/pvlib/iotools/panond.py
@@ -75,7 +75,7 @@ def _parse_panond(fbuf):
         indent_lvl_1 = (len(lines[i]) - len(lines[i].lstrip(' '))) // 2
         indent_lvl_2 = (len(lines[i + 1]) - len(lines[i + 1].lstrip(' '))) // 2
         # Split the line into key/value pair
-        line_data = lines[i].split('=')
+        line_data = lines[i].split('=', 1)
         key = line_data[0].strip()
         # Logical to make sure there is a value to extract
         if len(line_data) > 1:
-- 
2.43.0


From f5f4b4a19c0f7055f126d5de87e46757e5ad63da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 48/58] fix: recognise Madison files by file name only in
 read_solrad

---
 pvlib/iotools/solrad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/solrad.py b/pvlib/iotools/solrad.py
index f4d446f..6bf4888 100644
--- a/pvlib/iotools/solrad.py
+++ b/pvlib/iotools/solrad.py
@@ -1,5 +1,6 @@
 """Functions to read data from the NOAA SOLRAD network."""
 
+import os
 import pandas as pd
 import warnings
 import requests
@@ -96,7 +97,7 @@ def read_solrad(filename):
        Program. Bull. Amer. Meteor. Soc., 77, 2857-2864.
        :doi:`10.1175/1520-0477(1996)077<2857:TNISIS>2.0.CO;2`
     """
-    if 'msn' in str(filename):
+    if 'msn' in os.path.basename(str(filename)):
         names = MADISON_HEADERS
         widths = MADISON_WIDTHS
         dtypes = MADISON_DTYPES
-- 
2.43.0


From 5079de06596808c11c0ddfad0f7820874e6ba47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 49/58] fix: convert time zone aware start and end to UTC in
 Meteonorm requests

---
 pvlib/iotools/meteonorm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/meteonorm.py b/pvlib/iotools/meteonorm.py
index 61bf72b..37f49df 100644
--- a/pvlib/iotools/meteonorm.py
+++ b/pvlib/iotools/meteonorm.py
@@ -545,14 +545,16 @@ def _get_meteonorm(
     if (start is not None) & (start != 'now'):
         try:
             start = pd.Timestamp(start)
-            start = start.tz_localize("UTC") if start.tzinfo is None else start
+            start = start.tz_localize("UTC") if start.tzinfo is None \
+                else start.tz_convert("UTC")
             start = start.strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
     if (end is not None) & (end != 'now'):
         try:
             end = pd.Timestamp(end)
-            end = end.tz_localize("UTC") if end.tzinfo is None else end
+            end = end.tz_localize("UTC") if end.tzinfo is None \
+                else end.tz_convert("UTC")
             end = end.strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
-- 
2.43.0


From d3d64aa13d36d5ca4c22eb052407a7a8a04aa094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 50/58] fix: pass albedo on in get_meteonorm_tmy

---
 pvlib/iotools/meteonorm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/iotools/meteonorm.py b/pvlib/iotools/meteonorm.py
index 37f49df..8a216a8 100644
--- a/pvlib/iotools/meteonorm.py
+++ b/pvlib/iotools/meteonorm.py
@@ -505,6 +505,7 @@ def get_meteonorm_tmy(
                         addendum=msg)
     additional_params = {
         "situation": terrain_situation,
+        "albedo": albedo,
         "turbidity": turbidity,
         "clear_sky_radiation_model": clear_sky_radiation_model,
         "random_seed": random_seed,
-- 
2.43.0


From abd412a76ef181272f0bb30725c84f05794ad640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 51/58] fix: accept a single parameter name in get_nasa_power

---
 pvlib/iotools/nasa_power.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvlib/iotools/nasa_power.py b/pvlib/iotools/nasa_power.py
index 7ab3829..5c17556 100644
--- a/pvlib/iotools/nasa_power.py
+++ b/pvlib/iotools/nasa_power.py
@@ -118,6 +118,10 @@ def get_nasa_power(latitude, longitude, start, end,
     start = pd.Timestamp(start)
     end = pd.Timestamp(end)
 
+    # allow specifying a single parameter as a string
+    if isinstance(parameters, str):
+        parameters = [parameters]
+
     # allow the use of pvlib parameter names
     parameter_dict = {v: k for k, v in VARIABLE_MAP.items()}
     parameters = [parameter_dict.get(p, p) for p in parameters]
-- 
2.43.0


From 40751a01e17f5580da12cd9728401338f5190a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 52/58] fix: honour map_variables=False in get_surfrad

---
 pvlib/iotools/surfrad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/surfrad.py b/pvlib/iotools/surfrad.py
index 948ec5e..4d7bee9 100644
--- a/pvlib/iotools/surfrad.py
+++ b/pvlib/iotools/surfrad.py
@@ -259,7 +259,7 @@ def get_surfrad(station, start, end, map_variables=True,
     for f in filenames:
         try:
             dfi, file_metadata = read_surfrad(url + f,
-                                              map_variables=VARIABLE_MAP)
+                                              map_variables=map_variables)
             dfs.append(dfi)
 
         except urllib.error.HTTPError:
-- 
2.43.0


From a850b3ffbcedae7b8013dc8c89137fdb6890d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 53/58] fix: accept numpy integer years in get_pvgis_hourly

---
 pvlib/iotools/pvgis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/pvgis.py b/pvlib/iotools/pvgis.py
index 61f3eff..fcdec17 100644
--- a/pvlib/iotools/pvgis.py
+++ b/pvlib/iotools/pvgis.py
@@ -221,9 +221,9 @@ def get_pvgis_hourly(latitude, longitude, start=None, end=None,
     if raddatabase is not None:
         params['raddatabase'] = raddatabase
     if start is not None:
-        params['startyear'] = start if isinstance(start, int) else pd.to_datetime(start).year  # noqa: E501
+        params['startyear'] = start if isinstance(start, (int, np.integer)) else pd.to_datetime(start).year  # noqa: E501
     if end is not None:
-        params['endyear'] = end if isinstance(end, int) else pd.to_datetime(end).year  # noqa: E501
+        params['endyear'] = end if isinstance(end, (int, np.integer)) else pd.to_datetime(end).year  # noqa: E501
     if peakpower is not None:
         params['peakpower'] = peakpower
 
-- 
2.43.0


From f2aca5776d0c2700a01ac4ef0b678cf79ad2e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 54/58] fix: close the file or response in read_surfrad when
 reading fails

---
 pvlib/iotools/surfrad.py | 41 ++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/pvlib/iotools/surfrad.py b/pvlib/iotools/surfrad.py
index 4d7bee9..c981f41 100644
--- a/pvlib/iotools/surfrad.py
+++ b/pvlib/iotools/surfrad.py
@@ -131,27 +131,28 @@ def read_surfrad(filename, map_variables=True):
     """
     if str(filename).startswith('ftp') or str(filename).startswith('http'):
         req = Request(filename)
-        response = urlopen(req)
-        file_buffer = io.StringIO(response.read().decode(errors='ignore'))
+        with urlopen(req) as response:
+            content = response.read().decode(errors='ignore')
+        context = io.StringIO(content)
     else:
-        file_buffer = open(str(filename), 'r')
-
-    # Read and parse the first two lines to build the metadata dict.
-    station = file_buffer.readline()
-    file_metadata = file_buffer.readline()
-
-    metadata_list = file_metadata.split()
-    metadata = {}
-    metadata['name'] = station.strip()
-    metadata['latitude'] = float(metadata_list[0])
-    metadata['longitude'] = float(metadata_list[1])
-    metadata['elevation'] = float(metadata_list[2])
-    metadata['surfrad_version'] = int(metadata_list[-1])
-    metadata['tz'] = 'UTC'
-
-    data = pd.read_csv(file_buffer, sep=r'\s+',
-                       header=None, names=SURFRAD_COLUMNS)
-    file_buffer.close()
+        context = open(str(filename), 'r')
+
+    with context as file_buffer:
+        # Read and parse the first two lines to build the metadata dict.
+        station = file_buffer.readline()
+        file_metadata = file_buffer.readline()
+
+        metadata_list = file_metadata.split()
+        metadata = {}
+        metadata['name'] = station.strip()
+        metadata['latitude'] = float(metadata_list[0])
+        metadata['longitude'] = float(metadata_list[1])
+        metadata['elevation'] = float(metadata_list[2])
+        metadata['surfrad_version'] = int(metadata_list[-1])
+        metadata['tz'] = 'UTC'
+
+        data = pd.read_csv(file_buffer, sep=r'\s+',
+                           header=None, names=SURFRAD_COLUMNS)
 
     data = _format_index(data)
     missing = data == -9999.9
-- 
2.43.0


From 0f49f906e2c92a415ccc54ee0414a7a6971794a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 55/58] fix: close the response in read_epw

---
 pvlib/iotools/epw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/epw.py b/pvlib/iotools/epw.py
index 4355e76..9f2f3f7 100644
--- a/pvlib/iotools/epw.py
+++ b/pvlib/iotools/epw.py
@@ -224,8 +224,9 @@ def read_epw(filename, coerce_year=None):
             'Mozilla/5.0 (Macintosh; Intel Mac OS X 10_13_5) '
             'AppleWebKit/537.36 (KHTML, like Gecko) Chrome/67.0.3396.87 '
             'Safari/537.36')})
-        response = urlopen(request)
-        with io.StringIO(response.read().decode(errors='ignore')) as csvdata:
+        with urlopen(request) as response:
+            content = response.read().decode(errors='ignore')
+        with io.StringIO(content) as csvdata:
             data, meta = _parse_epw(csvdata, coerce_year)
 
     else:
-- 
2.43.0


From 90e8bf84cf21a83a45dabc1d95a44cf3c1825473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 56/58] fix: close the response in retrieve_sam

---
 pvlib/pvsystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index 818f316..c65b4e1 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -2180,8 +2180,9 @@ def retrieve_sam(name=None, path=None):
             ) from None
     else:  # path is not None
         if path.lower().startswith("http"):  # URL check is not case-sensitive
-            response = urlopen(path)  # URL is case-sensitive
-            csvdata_path = io.StringIO(response.read().decode(errors="ignore"))
+            with urlopen(path) as response:  # URL is case-sensitive
+                content = response.read().decode(errors="ignore")
+            csvdata_path = io.StringIO(content)
         else:
             csvdata_path = path
     return _parse_raw_sam_df(csvdata_path)
-- 
2.43.0


From 2e8eb511542aff3f751fc2e4a49c809e00607639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:43 +0000
Subject: [PATCH 57/58] fix: keep the label of SRML data elements numbered like
 the year

---
 pvlib/iotools/srml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/srml.py b/pvlib/iotools/srml.py
index c9b630e..3a3cd99 100644
--- a/pvlib/iotools/srml.py
+++ b/pvlib/iotools/srml.py
@@ -64,8 +64,11 @@ def read_srml(filename, map_variables=True):
     """
     tsv_data = pd.read_csv(filename, delimiter='\t')
     data = _format_index(tsv_data)
+    # The time column is labeled with the year, so that pandas renames a data
+    # element with the same number (e.g. 2010)
+    year = data.columns[1]
     # Drop day of year and time columns
-    data = data[data.columns[2:]]
+    data = data[data.columns[2:]].rename(columns={f'{year}.1': year})
 
     if map_variables:
         data = data.rename(columns=_map_columns)
-- 
2.43.0


From 7dc4e30d5394fa2e943c0a4f051b6c764321fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:53 +0000
Subject: [PATCH 58/58] fix: return NaN from windspeed_powerlaw for scalars and
 a negative height

---
 pvlib/atmosphere.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/atmosphere.py b/pvlib/atmosphere.py
index f3b793e..2f86571 100644
--- a/pvlib/atmosphere.py
+++ b/pvlib/atmosphere.py
@@ -773,8 +773,9 @@ def windspeed_powerlaw(wind_speed_reference, height_reference,
         (height_desired / height_reference) ** exponent)
 
     # if wind speed is negative or complex return NaN
-    wind_speed = np.where(np.iscomplex(wind_speed) | (wind_speed < 0),
-                          np.nan, wind_speed)
+    # (Python's complex numbers can not be compared, unlike numpy's)
+    invalid = np.iscomplex(wind_speed) | (np.real(wind_speed) < 0)
+    wind_speed = np.where(invalid, np.nan, np.real(wind_speed))
 
     if isinstance(wind_speed_reference, pd.Series):
         wind_speed = pd.Series(wind_speed, index=wind_speed_reference.index)
-- 
2.43.0


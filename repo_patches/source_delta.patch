From fd141ebd254a2a0e6ca374d3c04fee30a713b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 01/24] fix: TbCloudRTE no longer shifts the caller's height
 profile in place

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 5ec702c..cd6028f 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -99,7 +99,7 @@ class TbCloudRTE(object):
 
         # convert height profile to (km above antenna height)
         self.z0 = self.z[0]
-        self.z -= self.z0
+        self.z = self.z - self.z0
 
         # Allocation
         self.sptaudry = np.zeros((self.nf, self.nang))
-- 
2.43.0


From 23ec434255b6d763e9a7e19817da3f6bf48b51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 02/24] fix: TbCloudRTE(absmdl=...) calls init_absmdl

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index cd6028f..ec82a4c 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -124,7 +124,7 @@ class TbCloudRTE(object):
         self.sice = np.zeros((1, self.nang))
 
         if absmdl:
-            self.init_absmdll(absmdl)
+            self.init_absmdl(absmdl)
 
     @property
     def satellite(self) -> bool:
-- 
2.43.0


From 59cf8b2898f145c09e756ec0cf4f7361bee9cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 03/24] fix: execute starts from clean arrays, not those of a
 previous run

---
 pyrtlib/tb_spectrum.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index ec82a4c..1396ca5 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -101,7 +101,14 @@ class TbCloudRTE(object):
         self.z0 = self.z[0]
         self.z = self.z - self.z0
 
-        # Allocation
+        self._allocate()
+
+        if absmdl:
+            self.init_absmdl(absmdl)
+
+    def _allocate(self) -> None:
+        """Allocate the arrays computed by :py:meth:`execute`.
+        """
         self.sptaudry = np.zeros((self.nf, self.nang))
         self.sptauwet = np.zeros((self.nf, self.nang))
         self.sptauliq = np.zeros((self.nf, self.nang))
@@ -123,9 +130,6 @@ class TbCloudRTE(object):
         self.sliq = np.zeros((1, self.nang))
         self.sice = np.zeros((1, self.nang))
 
-        if absmdl:
-            self.init_absmdl(absmdl)
-
     @property
     def satellite(self) -> bool:
         """If :code:`True` computes an upward-propagating brightness-temperature spectrum
@@ -307,6 +311,10 @@ class TbCloudRTE(object):
 
         self._init_linelist()
 
+        # start from clean arrays: those of a previous run may have been
+        # returned to the caller or may hold values no longer computed
+        self._allocate()
+
         if self.cloudy and LiqAbsModel.model in ['R98', 'R03']:
             warnings.warn(
                 "Model {} for liquid cloud absorption is outdated. "
-- 
2.43.0


From cae37abfe7c8fcbc3332efe1741685f7189c4911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 04/24] fix: pass viewing geometry and emissivity to planck
 instead of via class state

---
 pyrtlib/rt_equation.py | 16 ++++++++++++----
 pyrtlib/tb_spectrum.py |  7 ++-----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index fd55cc1..d7e057d 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -366,7 +366,8 @@ class RTEquation:
         return scld
 
     @staticmethod
-    def planck(frq: np.ndarray, t: np.ndarray, taulay: np.ndarray) -> Tuple[
+    def planck(frq: np.ndarray, t: np.ndarray, taulay: np.ndarray,
+               from_sat: Optional[bool] = None, emissivity: Optional[float] = None) -> Tuple[
             np.ndarray, np.ndarray, np.ndarray, np.ndarray, np.ndarray, np.ndarray, np.ndarray]:
         """Computes the modified planck function (equation (4) in [Schroeder-Westwater-1992]_ 
         for the cosmic background temperature, the mean radiating
@@ -380,6 +381,8 @@ class RTEquation:
             frq (numpy.ndarray): Channel frequency (GHz).
             t (numpy.ndarray): Temperature profile (K).
             taulay (numpy.ndarray): Number of profile levels.
+            from_sat (Optional[bool], optional): Whether to compute upwelling radiance. Defaults to RTEquation._from_sat.
+            emissivity (Optional[float], optional): Surface emissivity. Defaults to RTEquation._emissivity.
 
         Returns:
             Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray, np.ndarray, np.ndarray, np.ndarray]:
@@ -406,7 +409,12 @@ class RTEquation:
         boftatm = np.zeros(taulay.shape)
         boft = np.zeros(taulay.shape)
 
-        if RTEquation._from_sat:
+        if from_sat is None:
+            from_sat = RTEquation._from_sat
+        if emissivity is None:
+            emissivity = RTEquation._emissivity
+
+        if from_sat:
             boftotl = 0.0
             ###########################################################################
             # Then compute upwelling radiance
@@ -427,8 +435,8 @@ class RTEquation:
             # The background is a combination of surface emission and downwelling
             # radiance (boftotl) reflected by the surface
             if tauprof[0] < expmax:
-                boftbg = np.dot(RTEquation._emissivity, tk2b_mod(
-                    hvk, Ts)) + np.dot((1 - RTEquation._emissivity), boftotl)
+                boftbg = np.dot(emissivity, tk2b_mod(
+                    hvk, Ts)) + np.dot((1 - emissivity), boftotl)
                 # boftbg_sat  = es * TK2B_mod(hvk,Ts); # SAT: eps * B(Tsrf) + (1-eps) B_dw
                 bakgrnd = np.dot(boftbg, np.exp(-tauprof[0]))
                 boftotl = bakgrnd + boftatm[0]
diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 1396ca5..723f377 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -320,9 +320,6 @@ class TbCloudRTE(object):
                 "Model {} for liquid cloud absorption is outdated. "
                 "Use the more recent model by Rosenkranz, 2015, from R16 model onwards".format(LiqAbsModel.model), stacklevel=2)
 
-        # Set RTE
-        RTEquation._from_sat = self._satellite
-
         # compute vapor pressure and vapor density
         e, rho = RTEquation.vapor(self.tk, self.rh, self.ice)
         # compute refractivity
@@ -353,7 +350,6 @@ class TbCloudRTE(object):
             # handle each frequency
             # this are based on NOAA RTE fortran routines
             for j in range(0, self.nf):
-                RTEquation._emissivity = self._es[j]
                 # Rosenkranz, personal communication, 2019/02/12 (email)
                 self.awet[j, k, :], self.adry[j, k, :] = RTEquation.clearsky_absorption(self.p, self.tk, e, self.frq[j],
                                                             self.o3n, self.amu if self._uncertainty else None)
@@ -379,7 +375,8 @@ class TbCloudRTE(object):
                     self.ptauliq[j, k, :]
                 # [boftotl,boftatm,boftmr,PSPtauprof,hvk] = Planck_xxx(frq(j),tk,Ptaulay(j,k,:));
                 boftotl, boftatm, boftmr, psp_tauprof, hvk, _, _ = RTEquation.planck(self.frq[j], self.tk,
-                                                                                     self.ptaulay[j, k, :])
+                                                                                     self.ptaulay[j, k, :],
+                                                                                     self._satellite, self._es[j])
                 if self.cloudy:
                     self.tmrcld[j, k] = RTEquation.cloud_radiating_temperature(self.beglev[0], self.endlev[0], hvk,
                                                                                psp_tauprof,
-- 
2.43.0


From 8370d961b286b69d47ab529c781e079664b3284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 05/24] fix: load each line list into a fresh module and
 serialise netCDF access

---
 pyrtlib/absorption_model.py | 19 ++++++++-----------
 pyrtlib/utils.py            | 22 +++++++++++++---------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index dab65a8..14d5232 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -10,7 +10,7 @@ from netCDF4 import Dataset
 
 import numpy as np
 
-from .utils import dilec12, _dcerror, constants, import_lineshape
+from .utils import dilec12, _dcerror, constants, import_lineshape, netcdf_lock
 
 PATH = os.path.dirname(os.path.abspath(__file__))
 
@@ -104,16 +104,13 @@ class AbsModel:
                     'R22SD'],
                     'Ozone': ['R18', 'R22']}
         """
-        oxygen_netcdf = Dataset(os.path.join(
-            PATH, '_lineshape', 'o2_lineshape.nc'), mode='r')
-        wv_netcdf = Dataset(os.path.join(
-            PATH, '_lineshape', 'h2o_lineshape.nc'), mode='r')
-        ozone_netcdf = Dataset(os.path.join(
-            PATH, '_lineshape', 'o3_lineshape.nc'), mode='r')
-
-        model = {"Oxygen": list(oxygen_netcdf.groups.keys()),
-                 "WaterVapour": list(wv_netcdf.groups.keys()),
-                 "Ozone": list(ozone_netcdf.groups.keys())}
+        model = {}
+        with netcdf_lock:
+            for name, file in (("Oxygen", 'o2_lineshape.nc'),
+                               ("WaterVapour", 'h2o_lineshape.nc'),
+                               ("Ozone", 'o3_lineshape.nc')):
+                with Dataset(os.path.join(PATH, '_lineshape', file), mode='r') as netcdf:
+                    model[name] = list(netcdf.groups.keys())
 
         return model
 
diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index 2e6682a..466ca5c 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -8,10 +8,13 @@ __copyright__ = '(C) 2021, CNR-IMAA'
 
 import types
 from typing import Tuple, Optional, Union, List
-import sys
-from importlib import reload
+import threading
+from importlib.util import find_spec, module_from_spec
 import numpy as np
 
+# The netCDF library is not thread-safe: calls into it are serialised.
+netcdf_lock = threading.RLock()
+
 
 def import_lineshape(name: str) -> types.ModuleType:
     """Import a named object from a module in the context of this function.
@@ -37,15 +40,16 @@ def import_lineshape(name: str) -> types.ModuleType:
         array([0., 12.6,  0.,  0.,  0.,  0.,  0.,  0.,  0.,  0.,  0.,
         0.,  0.,  0.,  0.,  0.])
     """
-    try:
-        module = __import__('pyrtlib._lineshape', globals(),
-                            locals(), [name.lower()])
-    except ImportError as e:
+    spec = find_spec('pyrtlib._lineshape.' + name.lower())
+    if spec is None:
         return None
-    if vars(module)[name.lower()] in sys.modules.values():
-        reload(vars(module)[name.lower()])
+    # Always execute the line list into a module of its own: the list in use is
+    # never seen half loaded and nothing of the previous model survives.
+    module = module_from_spec(spec)
+    with netcdf_lock:
+        spec.loader.exec_module(module)
 
-    return vars(module)[name.lower()]
+    return module
 
 
 def constants(name: Optional[str] = None) -> Union[Tuple[float, str], List]:
-- 
2.43.0


From 510741792c3e0e40367915655bfadd0716484543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 06/24] fix: perturbed parameters no longer leak into the
 shared line lists

---
 pyrtlib/absorption_model.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 14d5232..264ba08 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -69,6 +69,13 @@ class AbsModel:
             Model must be set with `model` property before calling this method (see Example).
         """
 
+    @staticmethod
+    def _private_ll(ll: types.ModuleType) -> types.SimpleNamespace:
+        """Return a copy of the line list which can be perturbed without
+        altering the one shared by all the computations.
+        """
+        return types.SimpleNamespace(**vars(ll))
+
     @staticmethod
     def implemented_models() -> Dict[str, List[str]]:
         """Return all the implemented absorption models.
@@ -451,6 +458,7 @@ class H2OAbsModel(AbsModel):
 
         """
         if amu:
+            self.h2oll = self._private_ll(self.h2oll)
             if H2OAbsModel.model > 'R17':
                 self.h2oll.cf = amu['con_Cf'].value
                 self.h2oll.cs = amu['con_Cs'].value
@@ -764,8 +772,10 @@ class O2AbsModel(AbsModel):
         """
 
         if amu:
+            self.o2ll = self._private_ll(self.o2ll)
             self.o2ll.w2a = amu['w2a'].value
             # self.o2ll.apu = amu['APU'].value
+            self.o2ll.w300 = np.copy(self.o2ll.w300)
             self.o2ll.w300[0:38] = amu['O2gamma'].value[0:38]
             self.o2ll.w300[34:49] = amu['O2gamma_NL'].value[34:49]
             self.o2ll.wb300 = amu['WB300'].value
@@ -784,9 +794,9 @@ class O2AbsModel(AbsModel):
                 self.o2ll.dnu0 = amu['dnu0'].value
                 self.o2ll.dnu1 = amu['dnu1'].value
             else:
-                self.o2ll.y300 = amu['Y300'].value
+                self.o2ll.y300 = np.copy(amu['Y300'].value)
                 self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]
-                self.o2ll.v = amu['O2_V'].value
+                self.o2ll.v = np.copy(amu['O2_V'].value)
                 self.o2ll.v[34:49] = amu['O2_V_NL'].value[34:49]
 
         # *** add the following lines *************************
@@ -1048,6 +1058,7 @@ class O3AbsModel(AbsModel):
         """
 
         if amu:
+            self.o3ll = self._private_ll(self.o3ll)
             self.o3ll.fl = amu['O3_FL'].value
             self.o3ll.s1 = amu['O3_S1'].value
             self.o3ll.b = amu['O3_B'].value
-- 
2.43.0


From 795f4e3144844d5acdc4c21a49bebb7c311e5d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 07/24] fix: profile_extrapolation does not depend on previous
 calls

---
 pyrtlib/climatology/extrapolation.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index e185918..b67c370 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -313,32 +313,31 @@ class ProfileExtrapolation:
 
         if np.max(z) < 50:
             h_km = np.append(z, np.arange(max(z)+3.2, 50, 3.2))
-            idx = np.where(self._height > np.max(h_km))
-            self._height = np.append(h_km, self._height[idx])
         else:
-            self._height = np.append(z, self._height[idx])
+            h_km = z
+        idx = np.where(self._height > np.max(h_km))
+        height = np.append(h_km, self._height[idx])
 
         season = self._get_season(lat, month)
-        idx = np.where(self._height > np.max(z))
+        idx = np.where(height > np.max(z))
 
         p, t, rh = q
 
         if season != 'standard':
-            tt = self.temperature(lat, self._height, season)
-            pp = self.pressure(lat, self._height, season)
-            wvd = self.water_vapour_density(lat, self._height, season)
+            tt = self.temperature(lat, height, season)
+            pp = self.pressure(lat, height, season)
+            wvd = self.water_vapour_density(lat, height, season)
         else:
-            tt = self.instance.standard_temperature(self._height)
-            pp = self.instance.standard_pressure(self._height)
-            wvd = self.instance.standard_water_vapour_density(
-                self._height)
+            tt = self.instance.standard_temperature(height)
+            pp = self.instance.standard_pressure(height)
+            wvd = self.instance.standard_water_vapour_density(height)
 
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
         _rh = rho2rh(wvd, temp, pres)[0]
         rh = np.append(rh, _rh[idx])
 
-        return self._height, pres, temp, rh
+        return height, pres, temp, rh
 
 
 class _ITU835_6():
-- 
2.43.0


From 3d6c97320f3de98f0665afbbfa8e1b1b5011ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 08/24] fix: plot_wf leaves the frequencies of the object alone

---
 pyrtlib/weighting_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 9100e7a..a5d81da 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -228,10 +228,11 @@ class WeightingFunctions(object):
         # plt.rc('mathtext', fontset='cm')
         # plt.rc('axes.formatter', use_mathtext=False)
 
+        frequencies = self.frequencies
         if self.bandpass is not None:
             wgt = self._mean_channel(wgt, self.bandpass)
-            self.frequencies = np.array(
-                [np.mean(self.frequencies[i:i+j]) for i, j in enumerate(self.bandpass)])
+            frequencies = np.array(
+                [np.mean(f) for f in np.split(self.frequencies, np.cumsum(self.bandpass)[:-1])])
 
         # if yaxis == 'p':
         #     y = self.pinterp[:-1]
@@ -247,7 +248,7 @@ class WeightingFunctions(object):
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
-        for i, frequenciy in enumerate(self.frequencies):
+        for i, frequenciy in enumerate(frequencies):
             if self.satellite:
                 line_s = 'dashed' if y[np.argmax(wgt[i, 1:])] == 0. else None
                 plt.plot(wgt[i, 1:]/normalize[i], y, linestyle=line_s,
-- 
2.43.0


From 93fa079ad15b00846bce12b9fba28b0a9b75a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 09/24] fix: generate_wf restores the absorption models
 selected by the user

---
 pyrtlib/weighting_functions.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index a5d81da..668440b 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -14,7 +14,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 from . absorption_model import AbsModel
 from .tb_spectrum import TbCloudRTE
-from .absorption_model import O2AbsModel
+from .absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel, LiqAbsModel
 
 
 class WeightingFunctions(object):
@@ -131,11 +131,20 @@ class WeightingFunctions(object):
         rte = TbCloudRTE(self.zinterp, self.pinterp, self.tinterp,
                          self.rhinterp, self.frequencies, angles=np.array([self.angle]), ray_tracing=True)
         rte.satellite = self.satellite
-        rte.init_absmdl(self.model)
         rte.emissivity = self.emissivity
-        O2AbsModel.model = AbsModel.implemented_models()['Oxygen'][-1]
-        O2AbsModel.set_ll()
-        _, other = rte.execute(False)
+        # the models used here must not replace those selected by the user
+        models = (H2OAbsModel.model, O2AbsModel.model,
+                  N2AbsModel.model, LiqAbsModel.model)
+        linelists = (H2OAbsModel.h2oll, O2AbsModel.o2ll)
+        try:
+            rte.init_absmdl(self.model)
+            O2AbsModel.model = AbsModel.implemented_models()['Oxygen'][-1]
+            O2AbsModel.set_ll()
+            _, other = rte.execute(False)
+        finally:
+            (H2OAbsModel.model, O2AbsModel.model,
+             N2AbsModel.model, LiqAbsModel.model) = models
+            H2OAbsModel.h2oll, O2AbsModel.o2ll = linelists
 
         return other
 
-- 
2.43.0


From 49ad6cfe1638045d3a8e65f57ff171d47058e256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 10/24] fix: do not wait forever for a stalled web server

---
 pyrtlib/apiwebservices/webservices.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/webservices.py b/pyrtlib/apiwebservices/webservices.py
index b517ccb..b025029 100644
--- a/pyrtlib/apiwebservices/webservices.py
+++ b/pyrtlib/apiwebservices/webservices.py
@@ -14,6 +14,9 @@ from ..version import __version__
 
 HTTPError = requests.HTTPError
 
+# Seconds to wait for the server to connect, or to send more data, before giving up
+TIMEOUT = 60
+
 
 class HTTPSessionManager(object):
     """Manage the creation of sessions for HTTP access."""
@@ -202,7 +205,7 @@ class HTTPEndPoint(object):
         get_query, get
 
         """
-        resp = self._session.get(path, params=params)
+        resp = self._session.get(path, params=params, timeout=TIMEOUT)
         if resp.status_code != 200:
             if resp.headers.get('Content-Type', '').startswith('text/html'):
                 text = resp.reason
-- 
2.43.0


From efe62922f088af6773dd8ed52d9fc30d9efaa87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 11/24] fix: Wyoming soundings with missing values are not read
 shifted

---
 pyrtlib/apiwebservices/wyomingupperair.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/wyomingupperair.py b/pyrtlib/apiwebservices/wyomingupperair.py
index 7dbc72c..4152a0d 100644
--- a/pyrtlib/apiwebservices/wyomingupperair.py
+++ b/pyrtlib/apiwebservices/wyomingupperair.py
@@ -141,10 +141,10 @@ class WyomingUpperAir(HTTPEndPoint):
         tabular_data = StringIO(soup.find_all('pre')[0].contents[0])
         title = soup.find_all('h2')[0].contents[0]
         col_names = ['pressure', 'height', 'temperature', 'dewpoint', 'rh', 'mixr']
-        # df = pd.read_fwf(tabular_data, skiprows=5, usecols=[0, 1, 2, 3, 4, 5], names=col_names, infer_rows=300)
-        # change to read_csv function as some data column (e.g. height) couls be corrupted
-        # To be further investigated in order to catch the issue
-        df = pd.read_csv(tabular_data, header=None, skiprows=5, delim_whitespace=True, usecols=[0, 1, 2, 3, 4, 5], names=col_names)
+        # Columns are 7 characters wide and left blank when the value is missing: their position has to
+        # be given, neither splitting on whitespaces nor inferring it from the data is reliable
+        df = pd.read_fwf(tabular_data, header=None, skiprows=5, names=col_names,
+                         colspecs=[(i * 7, (i + 1) * 7) for i in range(len(col_names))])
         # Drop any rows with all NaN values for T, Td, winds
         df = df.dropna(subset=('temperature', 'dewpoint'), how='any').reset_index(drop=True)
 
-- 
2.43.0


From 7470b4f3b2b05f8a13e3c4283bfb2c63b2af9d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 12/24] fix: reject truncated Wyoming pages

---
 pyrtlib/apiwebservices/wyomingupperair.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyrtlib/apiwebservices/wyomingupperair.py b/pyrtlib/apiwebservices/wyomingupperair.py
index 4152a0d..5156c22 100644
--- a/pyrtlib/apiwebservices/wyomingupperair.py
+++ b/pyrtlib/apiwebservices/wyomingupperair.py
@@ -213,4 +213,10 @@ class WyomingUpperAir(HTTPEndPoint):
                 'No data available for {time:%Y-%m-%d %HZ} '
                 'for station {stid}.'.format(time=time, stid=site_id))
 
+        # A connection dropped by the server can look like a regular end of the page
+        if resp.text.lower().count('</pre>') < 2:
+            raise ValueError(
+                'Incomplete data received for {time:%Y-%m-%d %HZ} '
+                'for station {stid}.'.format(time=time, stid=site_id))
+
         return resp.text
-- 
2.43.0


From 4c88c59106f47bcfce6df8eebfd5801f670f5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 13/24] fix: an interrupted ERA5 download leaves no partial
 file behind

---
 pyrtlib/apiwebservices/erafive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/erafive.py b/pyrtlib/apiwebservices/erafive.py
index 7826882..1363cf9 100644
--- a/pyrtlib/apiwebservices/erafive.py
+++ b/pyrtlib/apiwebservices/erafive.py
@@ -191,6 +191,8 @@ class ERA5Reanalysis:
                 'grid': [resolution, resolution],
                 'format': 'netcdf',
             },
-            nc_file)
+            nc_file + '.part')
+        # the file is there only when it is complete
+        os.replace(nc_file + '.part', nc_file)
 
         return nc_file
-- 
2.43.0


From a7cc447e9984f55fbed2701da7820ab8e0a82257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 14/24] fix: spectroscopic parameters do not alias the line
 list in use

---
 pyrtlib/uncertainty/absmod_uncertainty.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 362b28c..1b2e7dd 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -141,7 +141,8 @@ class SpectroscopicParameter:
 
         h2o_sp = {**h2o_sp, **h2o_sp_}
 
-        return h2o_sp
+        # the values can be edited in place: they must not be those of the line list in use
+        return deepcopy(h2o_sp)
 
     @staticmethod
     def oxygen_parameters(model: str) -> Dict:
@@ -188,7 +189,7 @@ class SpectroscopicParameter:
             }
         o2_sp = {**o2_sp, **o2_sp_}
 
-        return o2_sp
+        return deepcopy(o2_sp)
 
     @staticmethod
     def ozono_parameters(model: str) -> Dict:
@@ -214,7 +215,7 @@ class SpectroscopicParameter:
             "O3_SR": SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift-to-width ratio'),
         }
 
-        return o3_sp
+        return deepcopy(o3_sp)
 
     @staticmethod
     def set_parameters(SP: dict) -> None:
-- 
2.43.0


From 2d25ff86b5db88e5fede186d33ccf35a00317789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 15/24] fix: read_data closes its file and serialises netCDF
 access

---
 pyrtlib/apiwebservices/erafive.py | 39 ++++++++++++++++---------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/pyrtlib/apiwebservices/erafive.py b/pyrtlib/apiwebservices/erafive.py
index 1363cf9..0ed7764 100644
--- a/pyrtlib/apiwebservices/erafive.py
+++ b/pyrtlib/apiwebservices/erafive.py
@@ -24,7 +24,7 @@ from sklearn.neighbors import BallTree
 import pandas as pd
 from netCDF4 import Dataset
 
-from ..utils import atmospheric_tickness
+from ..utils import atmospheric_tickness, netcdf_lock
 
 
 class ERA5Reanalysis:
@@ -68,29 +68,30 @@ class ERA5Reanalysis:
             from kg kg-1 to g m-3 using this function :py:meth:`pyrtlib.utils.kgkg_to_gm3`
         """
         ERAFIVE = cls()
-        nc = Dataset(file)
-        lats = nc.variables['latitude'][:]
-        lons = nc.variables['longitude'][:]
-        # idx_lat = ERAFIVE.find_nearest(lats, lonlat[1])
-        # idx_lon = ERAFIVE.find_nearest(lons, lonlat[0])
-        idx, _ = ERAFIVE._find_nearest(lons, lats, lonlat)
-
-        pres = np.asarray(nc.variables['level'][:])
-        temp = np.asarray(nc.variables['t'][:, :, idx, idx])
-        # RH in decimal
-        rh = np.asarray(nc.variables['r'][:, :, idx, idx]) / 100
-        clwc = np.asarray(nc.variables['clwc'][:, :, idx, idx])
-        ciwc = np.asarray(nc.variables['ciwc'][:, :, idx, idx])
-        crwc = np.asarray(nc.variables['crwc'][:, :, idx, idx])
-        cswc = np.asarray(nc.variables['cswc'][:, :, idx, idx])
-        ozone = np.asarray(nc.variables['o3'][:, :, idx, idx])
-        q = np.asarray(nc.variables['q'][:, :, idx, idx])
+        with netcdf_lock, Dataset(file) as nc:
+            lats = nc.variables['latitude'][:]
+            lons = nc.variables['longitude'][:]
+            # idx_lat = ERAFIVE.find_nearest(lats, lonlat[1])
+            # idx_lon = ERAFIVE.find_nearest(lons, lonlat[0])
+            idx, _ = ERAFIVE._find_nearest(lons, lats, lonlat)
+
+            pres = np.asarray(nc.variables['level'][:])
+            temp = np.asarray(nc.variables['t'][:, :, idx, idx])
+            # RH in decimal
+            rh = np.asarray(nc.variables['r'][:, :, idx, idx]) / 100
+            clwc = np.asarray(nc.variables['clwc'][:, :, idx, idx])
+            ciwc = np.asarray(nc.variables['ciwc'][:, :, idx, idx])
+            crwc = np.asarray(nc.variables['crwc'][:, :, idx, idx])
+            cswc = np.asarray(nc.variables['cswc'][:, :, idx, idx])
+            ozone = np.asarray(nc.variables['o3'][:, :, idx, idx])
+            q = np.asarray(nc.variables['q'][:, :, idx, idx])
+            time = np.asarray(nc.variables['time'][:])
 
         z = atmospheric_tickness(np.flip(pres), np.flip(
             temp[0]), np.flip(q[0]))  # Altitude in km
 
         date = pd.to_datetime(
-            nc.variables['time'][:], origin='1900-01-01 00:00:00.0', unit='h')
+            time, origin='1900-01-01 00:00:00.0', unit='h')
 
         df = pd.DataFrame({'p': np.flip(pres),
                            'z': z,
-- 
2.43.0


From ecdf437b1370d94e6761dc2e08658d09bf01c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 16/24] fix: gl_atm_minor and gl_atm_trace leave an array of
 gas ids alone

---
 pyrtlib/climatology/atmospheric_profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/climatology/atmospheric_profiles.py b/pyrtlib/climatology/atmospheric_profiles.py
index 9163bc5..d09fe71 100644
--- a/pyrtlib/climatology/atmospheric_profiles.py
+++ b/pyrtlib/climatology/atmospheric_profiles.py
@@ -263,7 +263,7 @@ class AtmosphericProfiles:
 
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_minor.dat"))
-        gas_minor -= 7
+        gas_minor = gas_minor - 7
         # CONSTITUENT PROFILES FOR THE MINOR ABSORBING ATMOSPHERIC GASES
         #
         # MINGAS
@@ -321,7 +321,7 @@ class AtmosphericProfiles:
 
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_trace.dat"))
-        gas_trace -= 28
+        gas_trace = gas_trace - 28
         #  COF2 & SF6
         #   0 - 14   ATMOS SS Rinsland 1990: ConsAt 14 value
         #  14 -120   ATMOS SS Rinsland 1990: LinExLogMix until 1.0E-15
-- 
2.43.0


From acb5ebd438a403c65ea20832fc41c18887515183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 17/24] fix: IGRA derived soundings are requested by their own
 file name

The suffix of the derived files was appended to the one of the plain files, so that the
address never existed and derived=True could not retrieve anything.
---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 13be2f6..5e8d5d8 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -107,7 +107,7 @@ class IGRAUpperAir(HTTPEndPoint):
 
         if derived:
             igra2.folder = 'derived-por/'
-            igra2.suffix = igra2.suffix + '-drvd.txt'
+            igra2.suffix = '-drvd.txt'
 
         if isinstance(time, datetime):
             igra2.begin_date = time
-- 
2.43.0


From c3111e280d73bbf6c08928c66101fc15b5040c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 18/24] fix: IGRA release time is read as HHMM

Padding to five digits shifted the hours and minutes (2330 was read as 02:33).
---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 5e8d5d8..1c95ec4 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -253,7 +253,7 @@ class IGRAUpperAir(HTTPEndPoint):
         def _ctime(strformat: str = 'MMMSS'):
             """Return a function converting a string from MMMSS or HHMM to seconds."""
             def _ctime_strformat(val):
-                time = val.strip().zfill(5)
+                time = val.strip().zfill(len(strformat))
 
                 if int(time) < 0:
                     return np.nan
-- 
2.43.0


From 3097e5b147d4975f8894d0ef7385a841232037c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 19/24] fix: IGRA coordinates next to the equator and the
 Greenwich meridian

With fewer than four digits the decimal point was misplaced (500, i.e. 0.05 degrees, was
read as 50.0).
---
 pyrtlib/apiwebservices/igra2.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 1c95ec4..7979ddf 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -275,10 +275,7 @@ class IGRAUpperAir(HTTPEndPoint):
             return _ctime_strformat
 
         def _clatlon(x):
-            n = len(x)
-            deg = x[0:n - 4]
-            dec = x[n - 4:]
-            return float(deg + '.' + dec)
+            return float(x) / 10**4
 
         if self.suffix == '-drvd.txt':
             names_body = ['pressure', 'reported_height', 'calculated_height',
-- 
2.43.0


From e0521cca3952fb0e0617e77056ca836a9eb09f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 20/24] fix: inversion pressure of IGRA derived soundings keeps
 its last digit

The field is six characters wide like its neighbours; it was read without the last one.
---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 7979ddf..c9e8f3f 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -322,7 +322,7 @@ class IGRAUpperAir(HTTPEndPoint):
                             'cape', 'convective_inhibition']
 
             colspecs_header = [(1, 12), (13, 17), (18, 20), (21, 23), (24, 26),
-                               (27, 31), (31, 36), (37, 43), (43, 48), (49, 55),
+                               (27, 31), (31, 36), (37, 43), (43, 49), (49, 55),
                                (55, 61), (61, 67), (67, 73), (73, 79), (79, 85),
                                (85, 91), (91, 97), (97,
                                                     103), (103, 109), (109, 115),
-- 
2.43.0


From a93e5bf4cb39ca99eecbf7d6c8d698c739d4e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 21/24] fix: concurrent downloads of the same ERA5 file do not
 mix

Two requests for the same time wrote to the same partial file, and one of them put an
incomplete file in place.
---
 pyrtlib/apiwebservices/erafive.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/erafive.py b/pyrtlib/apiwebservices/erafive.py
index 0ed7764..0ec3e63 100644
--- a/pyrtlib/apiwebservices/erafive.py
+++ b/pyrtlib/apiwebservices/erafive.py
@@ -9,6 +9,7 @@ __date__ = 'March 2021'
 __copyright__ = '(C) 2021, CNR-IMAA'
 
 import os
+import uuid
 import warnings
 from datetime import datetime
 from typing import Optional
@@ -169,6 +170,8 @@ class ERA5Reanalysis:
                   lonlat[1] - offset, lonlat[0] + offset]
         nc_file_name = 'era5_reanalysis-{}.nc'.format(time.isoformat())
         nc_file = os.path.join(path, nc_file_name)
+        # a name of its own, downloads of the same file may be under way at the same time
+        part_file = '{}.{}.part'.format(nc_file, uuid.uuid4().hex)
 
         variables = ['relative_humidity', 'specific_cloud_ice_water_content', 'specific_cloud_liquid_water_content',
                      'specific_humidity', 'specific_rain_water_content', 'specific_snow_water_content', 'ozone_mass_mixing_ratio', 'temperature']
@@ -192,8 +195,8 @@ class ERA5Reanalysis:
                 'grid': [resolution, resolution],
                 'format': 'netcdf',
             },
-            nc_file + '.part')
+            part_file)
         # the file is there only when it is complete
-        os.replace(nc_file + '.part', nc_file)
+        os.replace(part_file, nc_file)
 
         return nc_file
-- 
2.43.0


From 054b0c834e2c57414665697fa8b92a58a459d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 22/24] fix: covariance matrices are read under the netCDF lock

Importing the module in one thread while another one calculates made two
threads enter the netCDF library, which is not thread-safe.
---
 .../uncertainty/covariance_matrix/__init__.py | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pyrtlib/uncertainty/covariance_matrix/__init__.py b/pyrtlib/uncertainty/covariance_matrix/__init__.py
index 0bbdea5..25b6ddd 100644
--- a/pyrtlib/uncertainty/covariance_matrix/__init__.py
+++ b/pyrtlib/uncertainty/covariance_matrix/__init__.py
@@ -26,17 +26,17 @@ import os
 import numpy as np
 from netCDF4 import Dataset
 
+from ...utils import netcdf_lock
+
 PATH = os.path.dirname(os.path.abspath(__file__))
 
-nc = Dataset(os.path.join(
-    PATH, "R17", "Cov_parameters_Cimini_et_al_2018_V1.1.nc"))
-R17_111 = np.asarray(nc.variables['Cov_p'][:])
-nc.close()
+with netcdf_lock, Dataset(os.path.join(
+    PATH, "R17", "Cov_parameters_Cimini_et_al_2018_V1.1.nc")) as nc:
+    R17_111 = np.asarray(nc.variables['Cov_p'][:])
 
-nc = Dataset(os.path.join(
-    PATH, "R17", "Cov_parameters_Cimini_et_al_2019_V2.0.nc"))
-R17_112 = np.asarray(nc.variables['Cov_p'][:])
-nc.close()
+with netcdf_lock, Dataset(os.path.join(
+    PATH, "R17", "Cov_parameters_Cimini_et_al_2019_V2.0.nc")) as nc:
+    R17_112 = np.asarray(nc.variables['Cov_p'][:])
 
 # This file contains uncertainty covariance matrix for oxygen and water vapor parameters
 # as estimated in Gallucci et al. ACPD 2023 (https://doi.org/10.5194/egusphere-2023-3160).
@@ -87,7 +87,6 @@ nc.close()
 
 PATH = os.path.dirname(os.path.abspath(__file__))
 
-nc = Dataset(os.path.join(
-    PATH, "R19", "Cov_parameters_Gallucci_et_al_ACPD_2023_V1.0.nc"))
-R19 = np.asarray(nc.variables['Cov_p'][:])
-nc.close()
+with netcdf_lock, Dataset(os.path.join(
+    PATH, "R19", "Cov_parameters_Gallucci_et_al_ACPD_2023_V1.0.nc")) as nc:
+    R19 = np.asarray(nc.variables['Cov_p'][:])
-- 
2.43.0


From 9a9fa73b8cb99b9a53f80a876d38cfd8524f9a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 23/24] fix: urlopen waited forever for a silent web server

---
 pyrtlib/apiwebservices/webservices.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyrtlib/apiwebservices/webservices.py b/pyrtlib/apiwebservices/webservices.py
index b025029..cd71b6b 100644
--- a/pyrtlib/apiwebservices/webservices.py
+++ b/pyrtlib/apiwebservices/webservices.py
@@ -82,6 +82,7 @@ class HTTPSessionManager(object):
         :meth:`requests.Session.get`
 
         """
+        kwargs.setdefault('timeout', TIMEOUT)
         return BytesIO(self.create_session().get(url, **kwargs).content)
 
 
-- 
2.43.0


From 4cab57fd24e12cb0fa230a481581195ed1dbb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 24/24] fix: plotting weighting functions changed the user's
 matplotlib font size for good

---
 pyrtlib/weighting_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 668440b..6f427e9 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -209,6 +209,7 @@ class WeightingFunctions(object):
 
         return wgt
 
+    @plt.rc_context({'font.size': 15})
     def plot_wf(self, wgt: np.ndarray, title: Optional[str] = '', ylim: Optional[Tuple[int, int]] = None,
                 xlim: Optional[Tuple[int, int]] = None,
                 legend: Optional[bool] = True,
@@ -228,7 +229,6 @@ class WeightingFunctions(object):
 
         """
         # plt.rcdefaults()
-        plt.rcParams.update({'font.size': 15})
         # plt.rcParams['font.family'] = 'Arial'
         # plt.rcParams['font.stretch'] = 'condensed'
         # plt.rcParams["font.weight"] = "bold"
@@ -297,6 +297,7 @@ class WeightingFunctions(object):
         plt.tight_layout()
         plt.show()
 
+    @plt.rc_context({'font.size': 15})
     def plot_wf_grouped(self, wgt: np.ndarray, title: Optional[str] = '',
                         ylim: Optional[Tuple[int, int]] = None,
                         grouped_frequencies: List[int] = None,
@@ -321,7 +322,6 @@ class WeightingFunctions(object):
             raise ValueError("This plot is only available for satellite mode")
 
         # plt.rcdefaults()
-        plt.rcParams.update({'font.size': 15})
         # plt.rc('font', family=['Sans Serif'])
         # plt.rcParams['font.family'] = 'Arial'
         # plt.rcParams['font.stretch'] = 'condensed'
-- 
2.43.0


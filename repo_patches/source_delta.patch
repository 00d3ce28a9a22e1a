From bc056fffaa54baaa47934d3252203ffea6ca3ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 01/56] fix: wavelength column lookup failed for a named column
 and missed absent ones

---
 exorad/models/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/utils.py b/exorad/models/utils.py
index 74cbd15..5594e02 100644
--- a/exorad/models/utils.py
+++ b/exorad/models/utils.py
@@ -6,6 +6,6 @@ def get_wl_col_name(data, description=None):
         for wl_key in ["Wavelength", "wavelength"]:
             if wl_key in data.keys():
                 wl_colname = wl_key
-    if wl_key is None:
+    if wl_colname is None:
         raise KeyError("Wavelength column not found in transmission data file")
     return wl_colname
-- 
2.43.0


From ae892b16e03ea659bc8f69a55080c4087196e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 02/56] fix: optical element wl_min/wl_max ignored with a data
 file or with both transmission and reflectivity

---
 exorad/models/optics/opticalElement.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index dccbb1e..36c9ec3 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -209,21 +209,21 @@ class OpticalElement(Logger):
                 self.debug(
                     f"Reflectivity keyword found for transmission for {self.name}"
                 )
-            # Apply wavelength lower bound if specified
-            if "wl_min" in self.description:
-                wl_min = self.description["wl_min"]["value"].to(self.wl.unit)
-                self.debug(f"Transmission lower boundary at {wl_min}")
-                idx = np.where(self.wl < wl_min)
-                transmission[idx] = 0.0
-            # Apply wavelength upper bound if specified
-            if "wl_max" in self.description:
-                wl_max = self.description["wl_max"]["value"].to(self.wl.unit)
-                self.debug(f"Transmission upper boundary at {wl_max}")
-                idx = np.where(self.wl > wl_max)
-                transmission[idx] = 0.0
         else:
             # Default transmission is 1 (no attenuation)
             transmission = np.ones(self.wl.size)
+        # Apply wavelength lower bound if specified
+        if "wl_min" in self.description:
+            wl_min = self.description["wl_min"]["value"].to(self.wl.unit)
+            self.debug(f"Transmission lower boundary at {wl_min}")
+            idx = np.where(self.wl < wl_min)
+            transmission[idx] = 0.0
+        # Apply wavelength upper bound if specified
+        if "wl_max" in self.description:
+            wl_max = self.description["wl_max"]["value"].to(self.wl.unit)
+            self.debug(f"Transmission upper boundary at {wl_max}")
+            idx = np.where(self.wl > wl_max)
+            transmission[idx] = 0.0
         self.debug(f"Transmission: {transmission}")
         return transmission
 
-- 
2.43.0


From 69b3f9bf242894d3e364ccaa03cf031ef1bf5f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 03/56] fix: wavelength unit of optical element data files was
 ignored

---
 exorad/models/optics/opticalElement.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index 36c9ec3..a197e5e 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -137,6 +137,14 @@ class OpticalElement(Logger):
         else:
             return None
 
+    def _to_grid_unit(self, column):
+        """
+        Express a wavelength column read from file in the units of the wavelength grid.
+        """
+        if getattr(column, "unit", None) is None or not hasattr(self.wl, "unit"):
+            return column
+        return u.Quantity(column).to(self.wl.unit)
+
     def _get_transmission(self):
         """
         Calculate the transmission of the optical element over the wavelength grid.
@@ -183,7 +191,7 @@ class OpticalElement(Logger):
             )
             # Create an interpolation function for transmission
             tr_func = interp1d(
-                self.description["data"][wl_colname],
+                self._to_grid_unit(self.description["data"][wl_colname]),
                 self.description["data"][colname],
                 assume_sorted=False,
                 fill_value=0.0,
@@ -268,7 +276,7 @@ class OpticalElement(Logger):
 
             # Create an interpolation function for emissivity
             em_func = interp1d(
-                self.description["data"][wl_colname],
+                self._to_grid_unit(self.description["data"][wl_colname]),
                 self.description["data"][em_colname],
                 assume_sorted=False,
                 fill_value=0.0,
-- 
2.43.0


From f2fb49071bd831f458ce940676240599b52d50ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 04/56] fix: constant emissivity of an optical element ignored
 when its data file has no such column

---
 exorad/models/optics/opticalElement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index a197e5e..ddbb469 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -269,6 +269,8 @@ class OpticalElement(Logger):
                 if em_key in self.description["data"].keys():
                     em_colname = em_key
                     break
+            if em_colname is None and "emissivity" in self.description:
+                return np.ones(self.wl.size) * self.description["emissivity"]["value"]
             if em_colname is None:
                 error_msg = "Emissivity column not found in transmission data file"
                 self.error(error_msg)
-- 
2.43.0


From 7479b33cbf26c5fc7d4b8a12ff5aee821a503495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 05/56] fix: resampling misjudged the sampling of spectra or
 grids not in ascending order

---
 exorad/utils/exolib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 0d0c66d..2052fe5 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -41,7 +41,13 @@ def rebin(x, xp, fp):
         )
         raise ValueError
 
+    if x.size > 1 and x[0] > x[-1]:
+        # descending grid
+        new_x, new_f = rebin(x[::-1], xp, fp)
+        return new_x[::-1], new_f[::-1]
+
     idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
+    idx = idx[np.argsort(xp[idx], kind="stable")]
     xp = xp[idx]
     fp = fp[idx]
 
-- 
2.43.0


From fef273757e72ebec90f4b34ea306e20051ca34bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 06/56] fix: wavelength unit of table columns was ignored by
 signals

---
 exorad/models/signal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exorad/models/signal.py b/exorad/models/signal.py
index a5a7706..e89c21e 100644
--- a/exorad/models/signal.py
+++ b/exorad/models/signal.py
@@ -96,6 +96,12 @@ class Signal(Logger):
             if it cannot convert the original units into the desired ones
 
         """
+        if (
+            not isinstance(quantity, u.Quantity)
+            and getattr(quantity, "unit", None) is not None
+        ):
+            # table columns carry their units too
+            quantity = u.Quantity(quantity)
         if isinstance(quantity, u.Quantity):
             if quantity.unit != units:
                 try:
-- 
2.43.0


From e7b08ac1bd6f7ab4a8556c48325fd85b231ee9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 07/56] fix: detector wavelength limits not in micron broke the
 optical path grid

---
 exorad/models/instruments/instrument.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 1ca745d..d21e8ae 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -108,10 +108,14 @@ class Instrument(Logger):
         wl_grid = (
             np.logspace(
                 np.log10(
-                    self.description["detector"]["wl_min"]["value"].value
+                    self.description["detector"]["wl_min"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 np.log10(
-                    self.description["detector"]["cut_off"]["value"].value
+                    self.description["detector"]["cut_off"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 PassVal.working_R,
             )
-- 
2.43.0


From ea1b4f148af5a7b08c96361274eb364bad6d3ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 08/56] fix: custom solid angle of an optical element was
 ignored

---
 exorad/models/optics/opticalPath.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 5dd2f76..0597bda 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -64,10 +64,13 @@ class InstRadiance(Radiance):
         Default is 'path'.
     slit : None or bool
         Indicates if a slit is present in the optical path.
+    angle : None or `astropy.units.Quantity`
+        Custom solid angle of the optical element.
     """
 
     position = "path"
     slit = None
+    angle = None
 
 
 class OpticalPath(Logger):
@@ -259,6 +262,7 @@ class OpticalPath(Logger):
             self.debug(f"Propagating {el.name}")
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
+            out_radiance.angle = el.angle
             if el.temperature is not None:
                 # Calculate the surface radiance
                 out_radiance.data = surface_radiance(
@@ -317,7 +321,7 @@ class OpticalPath(Logger):
                     ch_built_instr,
                     A,
                     ch_table,
-                    omega_pix,
+                    omega_pix if rad.angle is None else rad.angle,
                     qe,
                     rad,
                 )
-- 
2.43.0


From d9adf7f11bb60055d154baf415f5d539d34083ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 09/56] fix: slit was not applied to foregrounds unless a warm
 element preceded it

---
 exorad/models/optics/opticalPath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 0597bda..28020d4 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -260,6 +260,8 @@ class OpticalPath(Logger):
         for i, k in enumerate(opt_list):
             el = opt_el[k]
             self.debug(f"Propagating {el.name}")
+            if el.type == "slit":
+                self.slit_width = el.description["width"]["value"]
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
             out_radiance.angle = el.angle
@@ -277,7 +279,6 @@ class OpticalPath(Logger):
                 out_radiance.data *= opt_el[other_el].transmission
                 if opt_el[other_el].type == "slit":
                     out_radiance.slit = True
-                    self.slit_width = opt_el[other_el].description["width"]["value"]
             # Store the radiance data
             self.radiance_dict[el.name] = copy.deepcopy(out_radiance)
             self.radiance_table[el.name] = copy.deepcopy(out_radiance.data)
-- 
2.43.0


From b71a128c5f185bb475ba990eea1017187d9ff22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 10/56] fix: photometer window size wrong when the pixel size
 or band is not in micron

---
 exorad/models/instruments/photometer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 4bdc5f2..e58ab43 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -101,7 +101,7 @@ class Photometer(Instrument):
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
                     / self.description["detector"]["delta_pix"]["value"] ** 2
-                )
+                ).to("")
         elif "EnE" in self.description["aperture"].keys():
             if psf_format == "pixel_based":
                 aper_radius = find_aperture_radius(
@@ -128,7 +128,7 @@ class Photometer(Instrument):
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
                     / self.description["detector"]["delta_pix"]["value"] ** 2
-                )
+                ).to("")
         return window_size_px
 
     def propagate_target(self, target):
-- 
2.43.0


From 6f4e979af6ff5420fa1911f50c0a8d4b4e3b74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 11/56] fix: foregrounds were not filtered by the ones in front
 of them

---
 exorad/models/instruments/instrument.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index d21e8ae..b7819d4 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -195,14 +195,14 @@ class Instrument(Logger):
             radiance = copy.deepcopy(target.foreground[frg])
             self.debug("{} radiance . {}".format(frg, radiance.data))
 
-            if hasattr(frg, "transmission"):
-                frg.transmission.spectral_rebin(transmission.wl_grid)
-                transmission.data *= frg.transmission.data
-                self.debug("added {} transmission".format(frg))
-
             transmission.spectral_rebin(radiance.wl_grid)
             radiance.data *= transmission.data
 
+            # the foregrounds posed before this one are seen through it
+            if getattr(radiance, "transmission", None) is not None:
+                transmission.data = transmission.data * radiance.transmission
+                self.debug("added {} transmission".format(frg))
+
             # for other_el in foregrounds[i+1:]:
             #     if hasattr(target.foreground[other_el], 'transmission'):
             #         self.debug('passing through {}'.format(other_el))
-- 
2.43.0


From b4b9c1a62e1f12c62c6f708136e762585f61b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 12/56] fix: zodiacal foreground crashed when the map could not
 be used

---
 exorad/models/foregrounds/zodiacalForeground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 0bacb83..8db5daa 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -51,7 +51,7 @@ class ZodiacalFrg(Logger):
                 A = self.zodiacal_fit_direction(coordinates, map_file)
             except (KeyError, OSError):
                 self.warning("zodiacal fit failed")
-                self._get_radiance(coordinates=None)
+                return self._get_radiance(coordinates=None)
 
         elif "zodiacFactor" in self.description:
             self.debug(" model used for zodiacal foreground")
-- 
2.43.0


From 48db9bcf61ce47a48b28854c5da636e831ecdfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 13/56] fix: payloads without ForceChannelWlEdge crashed

---
 exorad/models/instruments/instrument.py   | 6 +++++-
 exorad/models/instruments/photometer.py   | 2 +-
 exorad/models/instruments/spectrometer.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index b7819d4..d399a99 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -248,6 +248,10 @@ class Instrument(Logger):
         ]
         return u.Quantity(bsig)
 
+    def _force_wl_edge(self):
+        option = self.payload["optics"].get("ForceChannelWlEdge")
+        return option is not None and option["value"]
+
     def _get_transmission(self, wl_grid, tr_data=None):
         tr_func = interp1d(
             wl_grid,
@@ -267,7 +271,7 @@ class Instrument(Logger):
             self.table["RightBinEdge"],
         )
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 self.table["Wavelength"]
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index e58ab43..f02a876 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -138,7 +138,7 @@ class Photometer(Instrument):
         if "sky TR" in self.table.keys():
             out["foreground_transmission"] = self.table["sky TR"]
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index f57e861..aabeaf5 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -329,7 +329,7 @@ class Spectrometer(Instrument):
         qe, transmission, wave_window = self._get_efficiency(wl, target)
         if "sky TR" in self.table.keys():
             out["foreground_transmission"] = self.table["sky TR"]
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
-- 
2.43.0


From 3c2c422bf0d8feeb117831fa85c78d474b9dd68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 14/56] fix: number of reads wrong when frame time and NDR
 frequency units do not cancel

---
 exorad/models/noise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index a6f524d..5090652 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -69,7 +69,9 @@ def multiaccum(channel, t_frame):
     float
         shot noise gain
     """
-    nRead = np.floor(t_frame * channel["detector"]["freqNDR"]["value"])
+    nRead = np.floor(
+        u.Quantity(t_frame * channel["detector"]["freqNDR"]["value"]).to("")
+    )
 
     if "multiaccumM" in channel["detector"]:
         m = channel["detector"]["multiaccumM"]["value"]
-- 
2.43.0


From 2136942a6aab42ccdc1d8e11b8fae433830766aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 15/56] fix: resampling lost the ends of a grid when the
 neighbouring samples lie far from it

---
 exorad/utils/exolib.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 2052fe5..11ee58a 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -46,8 +46,7 @@ def rebin(x, xp, fp):
         new_x, new_f = rebin(x[::-1], xp, fp)
         return new_x[::-1], new_f[::-1]
 
-    idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
-    idx = idx[np.argsort(xp[idx], kind="stable")]
+    idx = np.argsort(xp, kind="stable")
     xp = xp[idx]
     fp = fp[idx]
 
@@ -80,7 +79,11 @@ def rebin(x, xp, fp):
         id = np.argmin(np.diff(x))
         x = np.delete(x, id)
 
-    if np.diff(xp).max() < np.diff(x).min():
+    # sampling of fp around the new grid
+    sampling = np.diff(
+        xp[np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max())]
+    )
+    if sampling.size > 0 and sampling.max() < np.diff(x).min():
         # Binning!
         logger.debug("binning")
         bin_x = 0.5 * (x[1:] + x[:-1])
-- 
2.43.0


From c832aabbae882698efbf0d55c5776ebab15b4915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 16/56] fix: custom noise given as function of wavelength
 crashed

---
 exorad/models/noise.py | 47 +++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index 5090652..dd60d89 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -5,7 +5,6 @@ import numpy as np
 from astropy import units as u
 
 from exorad.models.signal import CustomSignal
-from exorad.models.signal import Signal
 
 logger = logging.getLogger("exorad.noise")
 
@@ -175,24 +174,38 @@ def photon_noise_variance(table, out):
 
 def add_custom_noise(custom, wl, out):
     if "data" in custom:
-        col_name = [
-            col for col in custom["data"].keys() if "Wavelength" not in col
-        ]
-        custom_noise = Signal(
-            custom["data"]["Wavelength"], custom["data"][col_name]
-        )
-        custom_noise.spectral_rebin(wl)
-        out["{}_noise".format(col_name)] = custom_noise.data
-        logger.debug(
-            "{} added as custom noise :{}".format(col_name, custom_noise.data)
-        )
-        out["total_noise"] = np.sqrt(
-            out["total_noise"] * out["total_noise"]
-            + custom_noise.data * custom_noise.data
-        )
+        columns = list(custom["data"].keys())
+        wl_colname = [col for col in columns if "Wavelength" in col][0]
+        for col_name in [col for col in columns if "Wavelength" not in col]:
+            # relative noise integrated in one hour, as function of wavelength
+            custom_noise = Noise(
+                custom["data"][wl_colname], custom["data"][col_name]
+            )
+            if wl.size > 1:
+                custom_noise.spectral_rebin(wl.to(u.um))
+                custom_noise = custom_noise.data
+            else:
+                custom_noise = np.interp(
+                    wl.to(u.um),
+                    custom_noise.wl_grid,
+                    custom_noise.data,
+                    left=0.0,
+                    right=0.0,
+                )
+            out["{}_noise".format(col_name)] = custom_noise
+            logger.debug(
+                "{} added as custom noise :{}".format(col_name, custom_noise)
+            )
+            out["total_noise"] = np.sqrt(
+                out["total_noise"] * out["total_noise"]
+                + custom_noise * custom_noise
+            )
 
-    if isinstance(custom, OrderedDict):
+    elif isinstance(custom, OrderedDict):
         for contrib in custom:
+            if "data" in custom[contrib]:
+                out = add_custom_noise(custom[contrib], wl, out)
+                continue
             custom_noise = (
                 custom[contrib]["value"]
                 * 1e-6
-- 
2.43.0


From 3f08ec2971e551f8150e728a2e8226c9853ec5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 17/56] fix: foreground transmission of one target no longer
 appears in the channel table

---
 exorad/models/instruments/instrument.py   | 3 ++-
 exorad/models/instruments/photometer.py   | 4 ++--
 exorad/models/instruments/spectrometer.py | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index d399a99..0fcffe3 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -368,9 +368,10 @@ class Instrument(Logger):
         )
         transmission.spectral_rebin(wl)
 
+        self.sky_transmission = None
         if hasattr(target, "skyTransmission"):
             target_transmission = copy.deepcopy(target.skyTransmission)
-            self.table["sky TR"], _ = self._get_transmission(
+            self.sky_transmission, _ = self._get_transmission(
                 target_transmission.wl_grid, target_transmission.data
             )
             target_transmission.spectral_rebin(wl)
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index f02a876..7f8b4d1 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -135,8 +135,8 @@ class Photometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if self.sky_transmission is not None:
+            out["foreground_transmission"] = self.sky_transmission
 
         if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index aabeaf5..d80a608 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -327,8 +327,8 @@ class Spectrometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if self.sky_transmission is not None:
+            out["foreground_transmission"] = self.sky_transmission
         if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
-- 
2.43.0


From 8702c6edf10886e88acb6435c7ca3427dc6a3145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 18/56] fix: stacking tables no longer changes them

---
 exorad/utils/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index d6ff10b..d4dbb31 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -79,6 +79,8 @@ def to_dict(obj, classkey=None):
 def vstack_tables(table_list):
     table = False
     for tab in table_list:
+        # the input tables must not change
+        tab = tab.copy()
         if not table:
             table = tab
         else:
-- 
2.43.0


From 9f8f31a4b97c80ea9c28ecd052f481369d289efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 19/56] fix: estimating a foreground again no longer dims the
 star again

---
 exorad/tasks/foregroundHandler.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 49a12d1..7e71b56 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -109,16 +109,14 @@ class EstimateForeground(Task):
         if not hasattr(target, "foreground"):
             setattr(target, "foreground", OrderedDict())
         target.foreground[foreground_name] = foreground.skyFilter
-        if not hasattr(target, "skyTransmission"):
-            from exorad.models.signal import Signal
-
-            setattr(
-                target,
-                "skyTransmission",
-                Signal(wl, foreground.skyFilter.transmission),
-            )
-        else:
-            target.skyTransmission.data *= foreground.skyFilter.transmission
+        from exorad.models.signal import Signal
+
+        # each foreground counts once, also if it is estimated again
+        transmission = np.ones(wl.size)
+        for frg in target.foreground.values():
+            if getattr(frg, "transmission", None) is not None:
+                transmission = transmission * frg.transmission
+        setattr(target, "skyTransmission", Signal(wl, transmission))
         self.set_output(target)
 
 
-- 
2.43.0


From 2b1e5442e3659ec365e26ecdebe32650d2394012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 20/56] fix: an observation only uses the foregrounds of its
 payload, or none

---
 exorad/tasks/targetHandler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index b1000ff..d24349b 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -1,4 +1,5 @@
 import os
+from collections import OrderedDict
 from copy import deepcopy
 
 from ..models.targetlist import CSVTargetList
@@ -244,13 +245,20 @@ class ObserveTarget(Task):
 
         target = prepareTarget(target=target, channels=channels)
 
+        # foregrounds left by a previous observation do not belong to this one
+        target.foreground = OrderedDict()
+        if hasattr(target, "skyTransmission"):
+            del target.skyTransmission
         if "foreground" in payload["common"]:
             target = estimateForegrounds(
                 foregrounds=payload["common"]["foreground"],
                 target=target,
                 wl_range=(wl_min, wl_max),
             )
-        target = propagateForegroundLight(channels=channels, target=target)
+        if target.foreground:
+            target = propagateForegroundLight(
+                channels=channels, target=target
+            )
 
         target, sed = loadSource(
             target=target,
-- 
2.43.0


From df010680d40210ed043a7322fad3c37589f4d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 21/56] fix: skipped targets no longer stop the pipeline when
 the output is written

---
 exorad/tasks/targetHandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index d24349b..96bb1f4 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -397,14 +397,16 @@ class ObserveTargetlist(Task):
                     repeat(out_dir),
                     repeat(debug),
                 ):
-                    outputDict[t_name] = output
+                    if t_name is not None:
+                        outputDict[t_name] = output
         else:
             outputDict = {}
             for target in targets:
                 t_name, output = pipeline_to_dict(
                     target, payload, channels, wl_range, plot, out_dir, debug
                 )
-                outputDict[t_name] = output
+                if t_name is not None:
+                    outputDict[t_name] = output
 
         self.set_output(outputDict)
 
-- 
2.43.0


From 5290efa5a6cb53000c4e41fc06db9ec465afda40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 22/56] fix: source wavelength limits may be in any length unit

---
 exorad/tasks/loadSource.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 0e6d14a..98a86af 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -64,11 +64,11 @@ class LoadSource(Task):
 
         wl_grid = (
             np.logspace(
-                np.log10(wl_min.value),
-                np.log10(wl_max.value),
+                np.log10(wl_min.to(u.um).value),
+                np.log10(wl_max.to(u.um).value),
                 PassVal.working_R,
             )
-            * wl_max.unit
+            * u.um
         )
 
         if source["value"].lower() == "custom":
-- 
2.43.0


From 4cec14805b08d61644950dc49f87c7a994f27c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 23/56] fix: spectrometer wavelength limits, pixel size and
 wavelength solution may be in any length unit

---
 exorad/models/instruments/spectrometer.py | 31 ++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index d80a608..ed0489d 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -71,19 +71,20 @@ class Spectrometer(Instrument):
                 self.description["targetR"]["data"]["value"], sep="\t"
             )
             get_res = interp1d(res_data["W"], res_data["R"])
-            w1 = self.description["wl_min"]["value"].value
+            w1 = self.description["wl_min"]["value"].to(u.um).value
+            wl_max = self.description["wl_max"]["value"].to(u.um).value
             w2 = w1
             wl_bin = np.array([w1])
-            while w2 < self.description["wl_max"]["value"].value:
+            while w2 < wl_max:
                 w1 = w2
                 res = get_res(w1)
                 w2 = np.round((w1 + w1 / res), 4)
                 wl_bin = np.append(wl_bin, w2)
             if (
-                self.description["wl_max"]["value"].value - wl_bin[-2]
+                wl_max - wl_bin[-2]
                 < (wl_bin[-2] - wl_bin[-3]) / 2.0
             ):  # remove small bin at end of channel
-                wl_bin[-2] = self.description["wl_max"]["value"].value
+                wl_bin[-2] = wl_max
                 wl_bin = wl_bin[:-1]
             wl_bin_c = (
                 (np.array(wl_bin[:-1]) + np.array(wl_bin[1:])) / 2 * u.micron
@@ -91,6 +92,7 @@ class Spectrometer(Instrument):
             wl_bin_width = (
                 np.array(wl_bin[1:]) - np.array(wl_bin[:-1])
             ) * u.micron
+            wl_bin = wl_bin * u.micron
         else:
             self.error("Channel targetR format unsupported.")
             raise KeyError("Channel targetR format unsupported.")
@@ -140,11 +142,19 @@ class Spectrometer(Instrument):
         )
 
         first_pixel = (
-            wl_sol_func_reverse(self.description["wl_min"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_min"]["value"].to(
+                    wl_solution_data.wl_grid.unit
+                )
+            )
             * wl_solution_data.data.unit
         )
         last_pixel = (
-            wl_sol_func_reverse(self.description["wl_max"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_max"]["value"].to(
+                    wl_solution_data.wl_grid.unit
+                )
+            )
             * wl_solution_data.data.unit
         )
         self.debug(
@@ -177,7 +187,7 @@ class Spectrometer(Instrument):
                 wl_sol_func(coord_pix_center - 0.5 * delta)
                 - wl_sol_func(coord_pix_center + 0.5 * delta)
             )
-            * delta.unit
+            * wl_solution_data.wl_grid.unit
         )
         self._add_data_to_built("pixel_bandwidth", pixel_bandwidth)
 
@@ -240,7 +250,8 @@ class Spectrometer(Instrument):
 
         # window sizes
         pixel_window_edge = (
-            wl_sol_func_reverse(wl_bin) * wl_solution_data.data.unit
+            wl_sol_func_reverse(wl_bin.to(wl_solution_data.wl_grid.unit))
+            * wl_solution_data.data.unit
         )
         window_spectral_width = (
             np.abs(pixel_window_edge[1:] - pixel_window_edge[0:-1]) / delta
@@ -251,7 +262,9 @@ class Spectrometer(Instrument):
             # todo define spatial apertures
             self.debug("Encircle energy solution found")
             EncE_sol = interp1d(
-                self.description["EncESolution"]["data"]["Wavelength"],
+                self.description["EncESolution"]["data"]["Wavelength"].to(
+                    self.table["Wavelength"].unit
+                ),
                 self.description["EncESolution"]["data"]["EE"],
                 assume_sorted=False,
                 fill_value="extrapolate",
-- 
2.43.0


From a7fbef93738a23f71951ae7a5eee794992b2430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 24/56] fix: aperture radius search no longer loops forever for
 encircled energies above 98%

---
 exorad/utils/exolib.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 11ee58a..3d61cf7 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -505,15 +505,20 @@ def find_aperture_radius(ima, eec, Fnum_x, Fnum_y, wavelength):
     ---------
     float
     """
+    if not 0 < eec <= 1:
+        raise ValueError("encircled energy must be between 0 and 1")
     last_enc, i = 0, 0
-    rs, enc = [], []
-    while last_enc < (eec + 0.02):
+    rs, enc = [0], [0.0]
+    # radius of the aperture that contains the whole image
+    scale = min(Fnum_x, Fnum_y) * np.min(u.Quantity(wavelength).value)
+    r_max = np.hypot(*ima.shape) / scale
+    while last_enc < (eec + 0.02) and i < r_max:
         i += 1
         rs += [i]
         enc += [encircled_energy(i, ima, Fnum_x, Fnum_y, wavelength)]
         last_enc = enc[-1]
     inter = interp1d(enc, rs)
-    r = inter(eec)
+    r = inter(min(eec, last_enc))
     return r
 
 
-- 
2.43.0


From 7bc2f690b9ce19ae5dcf16eaca38d7e61358600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 25/56] fix: strings and dimensionless units of a saved payload
 are read back as they were

---
 exorad/output/hdf5/util.py        | 8 +++++++-
 exorad/tasks/instrumentHandler.py | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 3cdc912..a634bcd 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -33,7 +33,11 @@ def recursively_read_dict_contents(input_dict):
     #     time = input['time_grid']['value'] * u.Unit(input['time_grid']['unit'])
     #     input = signal[str(input['data']['unit'])](wl, data, time)
     if all(elem in new_keys for elem in ["value", "unit"]):
-        input_dict["value"] = input_dict["value"] * u.Unit(input_dict["unit"])
+        unit = input_dict["unit"]
+        # as in the payload description
+        if unit == "dimensionless":
+            unit = ""
+        input_dict["value"] = input_dict["value"] * u.Unit(unit)
 
     if any(".__table_column_meta__" in elem for elem in new_keys):
         table_keys = [
@@ -67,6 +71,8 @@ def hdf5_group_to_dict(h5_group):
         if isinstance(item, h5py.Dataset):
             # Convert dataset to numpy array and store
             result[key] = item[()]  # This reads the dataset into a numpy array
+            if isinstance(result[key], bytes):
+                result[key] = result[key].decode("utf-8")
         elif isinstance(item, h5py.Group):
             # Recurse into subgroups
             result[key] = hdf5_group_to_dict(item)
diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 6a440ce..6370f08 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -188,7 +188,7 @@ class LoadPayload(Task):
             ch_dir = channels_dir[ch]
             description = load(ch_dir["description"])
             instrument = instruments[
-                description["channelClass"]["value"].lower().decode("utf-8")
+                description["channelClass"]["value"].lower()
             ]
             channels[ch] = instrument(
                 name=ch,
-- 
2.43.0


From f2828faf01996a6768524167540a440d936f562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 26/56] fix: observing with channels loaded from a file no
 longer fails

---
 exorad/models/instruments/instrument.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 0fcffe3..a0a19d1 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -65,6 +65,16 @@ class Instrument(Logger):
         it loads the instrument parameters already processed from a file
         """
         self.table = table
+        # back to the form used by the builder
+        for key, item in built_instr.items():
+            if not isinstance(item, dict):
+                continue
+            if set(item.keys()) == {"value", "unit"}:
+                built_instr[key] = item["value"]
+            elif "wl_grid" in item:
+                for k in item:
+                    if isinstance(item[k], dict):
+                        item[k]["value"] = u.Quantity(item[k]["value"]).value
         self.built_instr = built_instr
         self.loaded = True
         self.info("{} loaded".format(self.name))
-- 
2.43.0


From c44e30b9116a78fc933b236127b3badae1ec7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 27/56] fix: repeated sections of a saved payload keep their
 order and are all read back

---
 exorad/output/hdf5/hdf5.py        |  8 ++++++--
 exorad/tasks/instrumentHandler.py | 20 ++++++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 1f8c49f..fcde16c 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -121,7 +121,9 @@ class HDF5OutputGroup(OutputGroup):
         entry = None
         if self._entry:
             try:
-                entry = self._entry.create_group(str(group_name))
+                entry = self._entry.create_group(
+                    str(group_name), track_order=True
+                )
             except ValueError:
                 entry = self._entry[str(group_name)]
         return HDF5OutputGroup(entry)
@@ -232,7 +234,9 @@ class HDF5Output(Output):
         entry = None
         if self.fd:
             try:
-                entry = self.fd.create_group(str(group_name))
+                entry = self.fd.create_group(
+                    str(group_name), track_order=True
+                )
             except ValueError:
                 entry = self.fd[str(group_name)]
         return HDF5OutputGroup(entry)
diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 6370f08..12519af 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -153,6 +153,22 @@ class BuildChannels(Task):
         self.set_output(channels)
 
 
+def _restore_repeated(dic):
+    """
+    It gives back the ordered dictionaries of the sections repeated in the payload,
+    where every key is the value of its section
+    """
+    for key, item in dic.items():
+        if isinstance(item, dict):
+            dic[key] = _restore_repeated(item)
+    if len(dic) > 1 and all(
+        isinstance(item, dict) and str(item.get("value")) == key
+        for key, item in dic.items()
+    ):
+        dic = OrderedDict(dic)
+    return dic
+
+
 class LoadPayload(Task):
     """
     Loads payload and channels from dict
@@ -181,12 +197,12 @@ class LoadPayload(Task):
 
     def execute(self):
         payload_dir = self.get_task_param("input")["payload"]
-        payload = load(payload_dir["payload description"])
+        payload = _restore_repeated(load(payload_dir["payload description"]))
         channels_dir = payload_dir["channels"]
         channels = {}
         for ch in channels_dir.keys():
             ch_dir = channels_dir[ch]
-            description = load(ch_dir["description"])
+            description = _restore_repeated(load(ch_dir["description"]))
             instrument = instruments[
                 description["channelClass"]["value"].lower()
             ]
-- 
2.43.0


From bb6209f21b11ab161700cb9e38ce101bb8bd695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 28/56] fix: hdf5 data dictionaries of the payload could not be
 opened

---
 exorad/tasks/loadOptions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 36d71a8..1bdf964 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -207,9 +207,12 @@ class LoadOptions(Task):
     def __read_datadict__(self, datadict):
         ext = os.path.splitext(datadict)[1]
         if ext in [".h5", ".hdf5"]:
+            import h5py
+
             from exorad.output.hdf5 import load
 
-            data = load(datadict)
+            with h5py.File(datadict, "r") as f:
+                data = load(f)
             return data
         elif ext == ".pickle":
             import pickle
-- 
2.43.0


From c17d649d177b339cd62721f8059c374b6af885ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:02 +0000
Subject: [PATCH 29/56] fix: reported channel QE and transmission were zero
 when the channel limits are not in micron

---
 exorad/models/instruments/instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index a0a19d1..7402193 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -276,7 +276,7 @@ class Instrument(Logger):
 
         transmission = self._bin_signal(
             self.table["Wavelength"],
-            tr_func(self.table["Wavelength"]),
+            tr_func(self.table["Wavelength"].to(wl_grid.unit)),
             self.table["LeftBinEdge"],
             self.table["RightBinEdge"],
         )
@@ -351,7 +351,7 @@ class Instrument(Logger):
         )
         qe = self._bin_signal(
             self.table["Wavelength"],
-            qe_func(self.table["Wavelength"]),
+            qe_func(self.table["Wavelength"].to(qe_data.wl_grid.unit)),
             self.table["LeftBinEdge"],
             self.table["RightBinEdge"],
         )
-- 
2.43.0


From 913fccadc905ee6851ec6c0db4a747bdd30db363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:48 +0000
Subject: [PATCH 30/56] fix: encircled energy apertures failed when the channel
 limits are not in micron

---
 exorad/utils/exolib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 3d61cf7..9259c21 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -510,7 +510,9 @@ def find_aperture_radius(ima, eec, Fnum_x, Fnum_y, wavelength):
     last_enc, i = 0, 0
     rs, enc = [0], [0.0]
     # radius of the aperture that contains the whole image
-    scale = min(Fnum_x, Fnum_y) * np.min(u.Quantity(wavelength).value)
+    scale = min(Fnum_x, Fnum_y) * np.min(
+        u.Quantity(wavelength).to(u.um).value
+    )
     r_max = np.hypot(*ima.shape) / scale
     while last_enc < (eec + 0.02) and i < r_max:
         i += 1
@@ -523,6 +525,8 @@ def find_aperture_radius(ima, eec, Fnum_x, Fnum_y, wavelength):
 
 
 def encircled_energy(r, ima, Fnum_x, Fnum_y, wavelength):
+    # the image is in micron scale
+    wavelength = wavelength.to(u.um)
     r_pix_x = r * Fnum_x * wavelength
     r_pix_y = r * Fnum_y * wavelength
     aper = photutils.aperture.EllipticalAperture(
-- 
2.43.0


From f007f35abdd5ea1c2ba5588dc7d1b091e4852bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:19 +0000
Subject: [PATCH 31/56] fix: searching a target failed in lists without planets
 or for names with special characters

---
 exorad/models/targetlist.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 666c2ca..329c6fe 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -90,13 +90,18 @@ class BaseTargetList(Logger):
 
     def searchTarget(self, name):
         # method inspired from similar functionality in ExoData
-        searchName = compactString(name)
+        searchName = re.escape(compactString(name))
         returnList = []
 
         for target in self.target:
+            # planets are optional
+            planet = getattr(target, "planet", None)
             if re.search(
                 searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            ) or (
+                planet is not None
+                and re.search(searchName, compactString(str(planet.name)))
+            ):
                 returnList.append(target)
 
         return returnList
@@ -436,13 +441,18 @@ class OldExcelTargetList(Logger):
 
     def searchTarget(self, name):
         # method inspired from similar functionality in ExoData
-        searchName = compactString(name)
+        searchName = re.escape(compactString(name))
         returnList = []
 
         for target in self.target:
+            # planets are optional
+            planet = getattr(target, "planet", None)
             if re.search(
                 searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            ) or (
+                planet is not None
+                and re.search(searchName, compactString(str(planet.name)))
+            ):
                 returnList.append(target)
 
         return returnList
-- 
2.43.0


From 1fe7d1ec366c0f155aeb93fa48fa8e97fa3dbfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 32/56] fix: point spread function files failed or gave the
 wrong wavelength for channels not described in micron

---
 exorad/utils/exolib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 9259c21..56dba95 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -236,7 +236,7 @@ def binnedPSF(
             for file in filenames:
                 with fits.open(os.path.expanduser(file)) as hdu:
                     psf_wl.append(hdu[0].header["WAVELEN"])
-            idx = (np.abs(np.asarray(psf_wl) - wl.value)).argmin()
+            idx = (np.abs(np.asarray(psf_wl) - wl.to(u.um).value)).argmin()
             with fits.open(os.path.expanduser(filenames[idx])) as hdu:
                 ima = hdu[0].data
                 hdr = hdu[0].header
@@ -302,7 +302,7 @@ def pixel_based_psf(wl, delta_pix, filename):
         for file in filenames:
             with fits.open(os.path.expanduser(file)) as hdu:
                 psf_wl.append(hdu[0].header["WAVELEN"])
-        idx = (np.abs(np.asarray(psf_wl) - wl.value)).argmin()
+        idx = (np.abs(np.asarray(psf_wl) - wl.to(u.um).value)).argmin()
         with fits.open(os.path.expanduser(filenames[idx])) as hdu:
             ima = hdu[0].data
             hdr = hdu[0].header
@@ -396,7 +396,8 @@ def paosPSF(wl, delta_pix, filename="", plot=False):
 
     logger.debug("loading PAOS psf")
 
-    assert wl.unit == u.micron, print("Wavelength unit should be micron. ")
+    # PAOS wavelengths are in micron
+    wl = wl.to(u.micron)
 
     try:
         with h5py.File(os.path.expanduser(filename), mode="r") as fd:
-- 
2.43.0


From 3da868fc13cb646ae923f2c78b8da08a6c03516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 33/56] fix: luminosity of a custom stellar spectrum depended
 on the order of its rows

---
 exorad/models/source.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/exorad/models/source.py b/exorad/models/source.py
index f8b2427..a309b0b 100755
--- a/exorad/models/source.py
+++ b/exorad/models/source.py
@@ -254,6 +254,11 @@ class CustomSed(Logger):
         ph_wl = ph["Wavelength"].data * ph["Wavelength"].unit
         ph_sed = ph["Sed"].data * ph["Sed"].unit
 
+        # the rows may come in any order
+        idx = np.argsort(ph_wl)
+        ph_wl = ph_wl[idx]
+        ph_sed = ph_sed[idx]
+
         bolometric_flux = np.trapz(ph_sed, x=ph_wl)  # [W m**-2]
         bolometric_luminosity = (
             4 * np.pi * (star_radius.to(u.m)) ** 2 * bolometric_flux
-- 
2.43.0


From a411e7a786e5204f37a7873edb6cdc7f0a82dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 34/56] fix: payload sections without text of their own could
 not be read

---
 exorad/tasks/loadOptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 1bdf964..bbb1e3f 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -76,7 +76,7 @@ class LoadOptions(Task):
             for key in list(ch.attrib.keys()):
                 retval[key] = ch.attrib[key]
 
-            value = compactString(ch.text)
+            value = compactString(ch.text or "")
             if (value is not None) and (value != ""):
                 try:
                     value = int(value)
-- 
2.43.0


From 2632e88b70d8a4b65b51bb9a672bf7894c1240bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 35/56] fix: run time ConfigPath ignored by the first entry of
 a payload, data dictionaries needed a ConfigPath

---
 exorad/tasks/loadOptions.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index bbb1e3f..c44aa57 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -46,6 +46,7 @@ class LoadOptions(Task):
     def execute(self):
         self._filename = self.get_task_param("filename")
         self._config_path = self.get_task_param("config_path")
+        self.configPath = self._config_path
         self.__check_format__()
         root = self.__get_root__()
         self._dict = self.__parser__(root)
@@ -152,9 +153,12 @@ class LoadOptions(Task):
         if "datadict" in root_dict:
             attrValue = root_dict["datadict"]
             datafile = attrValue
-            datafile = datafile["value"].replace(
-                "__ConfigPath__", self.configPath
-            )
+            if "__ConfigPath__" in datafile["value"]:
+                datafile = datafile["value"].replace(
+                    "__ConfigPath__", self.configPath
+                )
+            else:
+                datafile = datafile["value"]
             try:
                 data = self.__read_datadict__(datafile)
                 root_dict["data"] = data
@@ -164,9 +168,12 @@ class LoadOptions(Task):
         if "config_dict" in root_dict:
             attrValue = root_dict["config_dict"]
             datafile = attrValue
-            datafile = datafile["value"].replace(
-                "__ConfigPath__", self.configPath
-            )
+            if "__ConfigPath__" in datafile["value"]:
+                datafile = datafile["value"].replace(
+                    "__ConfigPath__", self.configPath
+                )
+            else:
+                datafile = datafile["value"]
             try:
                 data = self.__read_datadict__(datafile)
                 root_dict = data
-- 
2.43.0


From 035efd9f3184a1c128eae161681879952b0b50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 36/56] fix: sections of a payload repeated with the same value
 replaced one another

---
 exorad/tasks/instrumentHandler.py |  6 ++++--
 exorad/tasks/loadOptions.py       | 15 +++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 12519af..ab58f88 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -1,3 +1,4 @@
+import re
 from collections import OrderedDict
 
 from astropy.io.misc.hdf5 import read_table_hdf5
@@ -156,13 +157,14 @@ class BuildChannels(Task):
 def _restore_repeated(dic):
     """
     It gives back the ordered dictionaries of the sections repeated in the payload,
-    where every key is the value of its section
+    where every key is the value of its section (numbered if it is repeated)
     """
     for key, item in dic.items():
         if isinstance(item, dict):
             dic[key] = _restore_repeated(item)
     if len(dic) > 1 and all(
-        isinstance(item, dict) and str(item.get("value")) == key
+        isinstance(item, dict)
+        and re.fullmatch(re.escape(str(item.get("value"))) + r"(_\d+)?", key)
         for key, item in dic.items()
     ):
         dic = OrderedDict(dic)
diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index c44aa57..d2de6a7 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -117,12 +117,11 @@ class LoadOptions(Task):
                 # if an other instance of same tag exists, transform into a dict
                 attr = root_dict[ch.tag]
                 if isinstance(attr, OrderedDict):
-                    attr[value] = retval
+                    attr[self.__unique_key__(attr, value)] = retval
                 else:
                     if not isinstance(attr, str):
-                        dtmp = OrderedDict(
-                            [(attr["value"], attr), (value, retval)]
-                        )
+                        dtmp = OrderedDict([(attr["value"], attr)])
+                        dtmp[self.__unique_key__(dtmp, value)] = retval
                         root_dict[ch.tag] = dtmp
             else:
                 # othewise, set new attr
@@ -187,6 +186,14 @@ class LoadOptions(Task):
 
         return root_dict
 
+    def __unique_key__(self, dic, value):
+        """sections repeated with the same value are all kept"""
+        key, n = value, 1
+        while key in dic:
+            key = "{}_{}".format(value, n)
+            n += 1
+        return key
+
     def getopt(self):
         return self.__obj__
 
-- 
2.43.0


From 92dc1625edfdb6cd08096904290ecd0ed2e46f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 37/56] fix: optical elements of the same name in common and
 channel optics replaced one another

---
 exorad/models/optics/opticalPath.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 28020d4..ef1c3e6 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -215,9 +215,15 @@ class OpticalPath(Logger):
             Dictionary of optical elements to prepend.
         """
         # Prepend the new optical elements to the existing ones
-        self.optical_element_dict = OrderedDict(
-            list(optical_element_dict.items()) + list(self.optical_element_dict.items())
-        )
+        elements = OrderedDict(optical_element_dict)
+        for name, el in self.optical_element_dict.items():
+            # Elements with the same name in the two paths are all kept
+            key, n = name, 1
+            while key in elements and name != "noElement":
+                key = f"{name}_{n}"
+                n += 1
+            elements[key] = el
+        self.optical_element_dict = elements
 
     def _prepare_elements(self):
         """
@@ -280,8 +286,8 @@ class OpticalPath(Logger):
                 if opt_el[other_el].type == "slit":
                     out_radiance.slit = True
             # Store the radiance data
-            self.radiance_dict[el.name] = copy.deepcopy(out_radiance)
-            self.radiance_table[el.name] = copy.deepcopy(out_radiance.data)
+            self.radiance_dict[k] = copy.deepcopy(out_radiance)
+            self.radiance_table[k] = copy.deepcopy(out_radiance.data)
             self.debug(f"Final radiance: {out_radiance.data}")
         return self.radiance_dict
 
-- 
2.43.0


From a0d9c9d9c034cb78ac45fb2f005e45fbeeaf57b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 38/56] fix: unit of quantities saved under a 'value' without
 'unit' was lost

---
 exorad/output/hdf5/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index a634bcd..aaac331 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -113,6 +113,9 @@ def recursively_save_dict_contents_to_output(output, dic):
 
     """
 
+    if isinstance(dic.get("value"), u.Quantity) and "unit" not in dic:
+        dic = dict(dic, unit=str(dic["value"].unit))
+
     for key, item in dic.items():
         try:
             store_thing(output, key, item)
-- 
2.43.0


From 021fb5c05131fba51d9bbd6d41c20c6e3f1726f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 39/56] fix: names containing 'signal' or 'Max' of foregrounds
 and elements confused noise and saturation

---
 exorad/models/noise.py        | 16 ++++++++++++++--
 exorad/tasks/targetHandler.py |  4 +++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index dd60d89..f8b550b 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -9,6 +9,18 @@ from exorad.models.signal import CustomSignal
 logger = logging.getLogger("exorad.noise")
 
 
+def signal_columns(table):
+    """
+    Names of the columns of the table reporting a signal contributing to the photon noise,
+    whatever the names of the optical elements and of the foregrounds
+    """
+    return [
+        key
+        for key in table.keys()
+        if key.endswith(("signal", "signal_inAperture"))
+    ]
+
+
 def frame_time(target, channel, out):
     """
     Given the channel and channel descriptions, populates the output table with saturation and frame times
@@ -128,7 +140,7 @@ def photon_noise(table, channel, shot_gain, out):
     """
     name = channel["value"]
 
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = signal_columns(table)
     for key in signals:
         noise_key = "{}_noise".format(key)
         out[noise_key] = (
@@ -162,7 +174,7 @@ def photon_noise_variance(table, out):
         sum of photon variances
     """
     '''
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = signal_columns(table)
     _photon_noise_variance = (
         np.zeros(out["frameTime"].size) * (u.count / u.s) ** 2 * u.hr
     )
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 96bb1f4..15a0467 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -176,7 +176,9 @@ class EstimateMaxSignal(Task):
         self.info("estimating max signal in pixel")
         target = self.get_task_param("target")
         table = target.table
-        signals = [key for key in table.keys() if "Max" in key]
+        signals = [
+            key for key in table.keys() if key.endswith("_MaxSignal_inPixel")
+        ]
         max_signal = np.zeros(table["Wavelength"].size) * u.count / u.s
         for key in signals:
             max_signal += table[key]
-- 
2.43.0


From a5d8e3929fffe68baf9cc2c40cd18ffc099b3c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 40/56] fix: tabulated custom noise with decreasing wavelengths
 was wrong in a photometer

---
 exorad/models/noise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index f8b550b..ab0f3ef 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -197,10 +197,11 @@ def add_custom_noise(custom, wl, out):
                 custom_noise.spectral_rebin(wl.to(u.um))
                 custom_noise = custom_noise.data
             else:
+                idx = np.argsort(custom_noise.wl_grid)  # np.interp needs it
                 custom_noise = np.interp(
                     wl.to(u.um),
-                    custom_noise.wl_grid,
-                    custom_noise.data,
+                    custom_noise.wl_grid[idx],
+                    custom_noise.data[idx],
                     left=0.0,
                     right=0.0,
                 )
-- 
2.43.0


From 37f6f17c7ca1c8a2798106e1dd063d9a6b05699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:02 +0000
Subject: [PATCH 41/56] fix: saved tables whose name contains a dot can be read
 back

---
 exorad/output/hdf5/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index aaac331..ad3019c 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -43,7 +43,10 @@ def recursively_read_dict_contents(input_dict):
         table_keys = [
             elem for elem in new_keys if ".__table_column_meta__" in elem
         ]
-        table_keys = (elem.split(".")[0] for elem in table_keys)
+        # names of tables may contain dots
+        table_keys = (
+            elem.split(".__table_column_meta__")[0] for elem in table_keys
+        )
         for k in table_keys:
             table = load_table(input_dict, k)
             input_dict[k] = table
-- 
2.43.0


From 6bb5ea57b392be3bc59e7015f309e322f913a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 42/56] fix: list the channels of payloads with a single
 channel

---
 exorad/tasks/instrumentHandler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index ab58f88..4268bc0 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -376,9 +376,13 @@ class GetChannelList(Task):
 
     def __get_channel_list__(self):
         channel_lst = []
-        for channel in self._opt["channel"].keys():
+        channels = self._opt["channel"]
+        if "channelClass" in channels:
+            # a single channel is not gathered under its name
+            channels = {channels["value"]: channels}
+        for channel in channels.keys():
             if (
-                self._opt["channel"][channel]["channelClass"]["value"].lower()
+                channels[channel]["channelClass"]["value"].lower()
                 == self._channel_type.lower()
             ):
                 channel_lst.append(channel)
-- 
2.43.0


From e0e27a1f3285369c7c71ec551280952a877433af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:53 +0000
Subject: [PATCH 43/56] fix: plot signals and noises in their own panel
 whatever the names of the sources

---
 exorad/utils/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 85ae564..a586b5a 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -225,7 +225,7 @@ class Plotter(Logger):
         The Class input_table input parameter is required for this method to work.
         """
         noise_keys = [
-            x for x in self.inputTable.keys() if "noise" in x or "custom" in x
+            x for x in self.inputTable.keys() if x.endswith("noise")
         ]
         self.debug("noise keys : {}".format(noise_keys))
         for k, n in enumerate(noise_keys):
@@ -317,7 +317,7 @@ class Plotter(Logger):
         keys = [
             x
             for x in self.inputTable.keys()
-            if "signal" in x and "noise" not in x
+            if "signal" in x and not x.endswith("noise")
         ]
         self.debug("signal keys : {}".format(keys))
         for k, s in enumerate(keys):
-- 
2.43.0


From d3298d803c23653bd88bfda1d2da7134d88d64a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:53 +0000
Subject: [PATCH 44/56] fix: plots against wavelengths in micron for channels
 not described in micron

---
 exorad/utils/plotter.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index a586b5a..357e447 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -36,6 +36,15 @@ class Plotter(Logger):
         self.fig = None
         self.fig_efficiency = None
 
+    def _micron(self, key):
+        """
+        It returns the wavelengths in the indicated column in the units of the axes
+        """
+        column = self.inputTable[key]
+        if getattr(column, "unit", None) is None:
+            return column
+        return u.Quantity(column).to(u.um)
+
     def plot_bands(self, ax, scale="log", channel_edges=True):
         """
         It plots the channels bands behind the indicated axes.
@@ -59,14 +68,14 @@ class Plotter(Logger):
 
         for k, channelName in enumerate(channels):
             wl_min = min(
-                self.inputTable["LeftBinEdge"][
+                self._micron("LeftBinEdge")[
                     np.where(self.inputTable["chName"] == channelName)
                 ]
             )
             if hasattr(wl_min, "unit"):
                 wl_min = wl_min.value
             wl_max = max(
-                self.inputTable["RightBinEdge"][
+                self._micron("RightBinEdge")[
                     np.where(self.inputTable["chName"] == channelName)
                 ]
             )
@@ -183,7 +192,7 @@ class Plotter(Logger):
                 self.debug("efficiency keys : {}".format(keys))
                 for e in keys:
                     ax.plot(
-                        self.inputTable["Wavelength"],
+                        self._micron("Wavelength"),
                         self.inputTable[e],
                         label=e,
                         zorder=10,
@@ -231,7 +240,7 @@ class Plotter(Logger):
         for k, n in enumerate(noise_keys):
             if n == "total_noise":
                 ax.plot(
-                    self.inputTable["Wavelength"],
+                    self._micron("Wavelength"),
                     self.inputTable[n],
                     zorder=9,
                     lw=1,
@@ -254,7 +263,7 @@ class Plotter(Logger):
                     )
                 # ax.scatter(self.inputTable['Wavelength'], noise, label=n, zorder=10, s=5, color=palette[k])
                 ax.plot(
-                    self.inputTable["Wavelength"],
+                    self._micron("Wavelength"),
                     noise,
                     zorder=9,
                     lw=1,
@@ -323,7 +332,7 @@ class Plotter(Logger):
         for k, s in enumerate(keys):
             # ax.scatter(self.inputTable['Wavelength'], self.inputTable[s], label=s, zorder=10, s=5, color=palette[k])
             ax.plot(
-                self.inputTable["Wavelength"],
+                self._micron("Wavelength"),
                 self.inputTable[s],
                 zorder=9,
                 lw=1,
-- 
2.43.0


From 86b3b61999123ce3efbf3a36a676c383f0ca8b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:53 +0000
Subject: [PATCH 45/56] fix: targets observed with plots but no output
 directory were skipped

---
 exorad/tasks/targetHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 15a0467..b2f9fba 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -311,7 +311,7 @@ def pipeline_to_dict(
             plotter = Plotter(input_table=target.table)
             plotter.plot_table()
             plotter.save_fig(
-                os.path.join(out_dir, "{}.png".format(target.name))
+                os.path.join(out_dir or "", "{}.png".format(target.name))
             )
             plt.close()
         return target.name, outputDict
-- 
2.43.0


From f57bec13bd6a9a2c499520c39e6680bf45c4bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 46/56] fix: a payload file named as the output was copied over
 it, mixing two runs

---
 exorad/exorad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 9c27b0d..91ddca1 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -70,7 +70,9 @@ def standard_pipeline(
             logger.info("output directory created")
         logger.info("output directory set as {}".format(out_dir))
         try:
-            shutil.copy(options, out_dir)
+            # a payload stored in a file named as the output is not copied over it
+            if os.path.basename(options) != os.path.basename(output):
+                shutil.copy(options, out_dir)
         except shutil.SameFileError:
             pass
         try:
-- 
2.43.0


From 61361c2d4e366eb77f6a6bf812b00c80cd6788e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 47/56] fix: input files given as output were deleted before
 being read

---
 exorad/exorad.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 91ddca1..eddadbc 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -60,6 +60,12 @@ def standard_pipeline(
         addLogFile()
 
     if output is not None:
+        if os.path.exists(output):
+            for name in (options, target_list):
+                if os.path.samefile(output, name):
+                    raise ValueError(
+                        "output file is an input file: {}".format(name)
+                    )
         if replace:
             if os.path.exists(output):
                 os.remove(output)
-- 
2.43.0


From ff1d3f3216e1daa4a8a7bfc2ca5ec123d53abc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 48/56] fix: metadata of tables without quantities was lost
 when read back

---
 exorad/output/hdf5/util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index ad3019c..aacb70b 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -94,11 +94,10 @@ def load_table(input_table, k):
             if attr in header_cols[col.name]:
                 setattr(col, attr, header_cols[col.name][attr])
     table = serialize._construct_mixins_from_columns(table)
-    try:
-        header["meta"].pop("__serialized_columns__")
+    if "meta" in header:
+        # only tables with quantities have serialized columns
+        header["meta"].pop("__serialized_columns__", None)
         table.meta = header["meta"]
-    except KeyError:
-        pass
     return table
 
 
-- 
2.43.0


From aa66e577ce00e54494c41803e19e3ba9bdbc090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 49/56] fix: nearest zodiacal map entry across right ascension
 0

---
 exorad/models/foregrounds/zodiacalForeground.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 8db5daa..e505c66 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -118,7 +118,11 @@ class ZodiacalFrg(Logger):
         try:
             zodi_table = read_table_hdf5(zodi_map_file)
             self.debug(zodi_table)
-            distance = (zodi_table["ra_icrs"] * u.deg - ra_input) ** 2 + (
+            # right ascensions are on a circle: -180 <= delta_ra < 180 deg
+            delta_ra = (
+                zodi_table["ra_icrs"] * u.deg - ra_input + 180.0 * u.deg
+            ) % (360.0 * u.deg) - 180.0 * u.deg
+            distance = delta_ra**2 + (
                 zodi_table["dec_icrs"] * u.deg - dec_input
             ) ** 2
             idx = np.argmin(distance)
-- 
2.43.0


From fbc9fc5a18b8aa223660e675875bb19bfa8acddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:59 +0000
Subject: [PATCH 50/56] fix: slits of a whole number of pixels lost one pixel
 when a length was not in micron

---
 exorad/utils/diffuse_light_propagation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index fd6cda0..a2ad721 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -80,12 +80,14 @@ def convolve_with_slit(
     radiance.data *= aomega
     logger.debug("sed : {}".format(radiance.data))
     logger.debug("convolving with slit")
-    slit_kernel = np.ones(
-        int(
-            slit_width
-            / ch_description["detector"]["delta_pix"]["value"].to(u.um)
-        )
+    # whole pixels in the slit, rounded as the units conversion is not exact
+    slit_pixels = np.round(
+        (slit_width / ch_description["detector"]["delta_pix"]["value"])
+        .to("")
+        .value,
+        6,
     )
+    slit_kernel = np.ones(int(slit_pixels))
     signal_tmp = (
         np.convolve(radiance.data * dwl_pic, slit_kernel, "same")
     ).to(u.count / u.s)
-- 
2.43.0


From 774aeccd245d661341467b4b4ee280fd18517eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:57 +0000
Subject: [PATCH 51/56] fix: texts in lists lost accented letters and
 everything after 64 characters when saved

---
 exorad/output/hdf5/hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index fcde16c..5193adc 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -129,9 +129,10 @@ class HDF5OutputGroup(OutputGroup):
         return HDF5OutputGroup(entry)
 
     def write_string_array(self, string_name, string_array, metadata=None):
-        asciiList = [n.encode("ascii", "ignore") for n in string_array]
+        encodedList = [n.encode("utf-8") for n in string_array]
+        size = max([64] + [len(n) for n in encodedList])
         ds = self._entry.create_dataset(
-            str(string_name), (len(asciiList), 1), "S64", asciiList
+            str(string_name), (len(encodedList), 1), "S%d" % size, encodedList
         )
 
         if metadata:
-- 
2.43.0


From b9812db5afd624b4284d92bb525e17457dbb3eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:38 +0000
Subject: [PATCH 52/56] fix: resolution of the working grids taken from the
 payload in use, not from one read earlier

---
 exorad/tasks/instrumentHandler.py | 4 ++++
 exorad/tasks/loadOptions.py       | 1 +
 exorad/utils/passVal.py           | 9 ++++++++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 4268bc0..71b7592 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -7,6 +7,7 @@ from .task import Task
 from exorad.models.instruments import Photometer
 from exorad.models.instruments import Spectrometer
 from exorad.output.hdf5 import load
+from exorad.utils.passVal import PassVal
 
 instruments = {"photometer": Photometer, "spectrometer": Spectrometer}
 
@@ -295,6 +296,9 @@ class PreparePayload(Task):
 
             with h5py.File(payload_file, "r") as f:
                 payload, channels = loadPayload(input=f)
+            PassVal.reset()
+            if "working_R" in payload["common"]:
+                PassVal.working_R = payload["common"]["working_R"]["value"]
         #            payload, channels = loadPayload(input=payload_file)
         else:
             self.error("Unsupported payload format")
diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index d2de6a7..b32bd81 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -47,6 +47,7 @@ class LoadOptions(Task):
         self._filename = self.get_task_param("filename")
         self._config_path = self.get_task_param("config_path")
         self.configPath = self._config_path
+        PassVal.reset()
         self.__check_format__()
         root = self.__get_root__()
         self._dict = self.__parser__(root)
diff --git a/exorad/utils/passVal.py b/exorad/utils/passVal.py
index 50278e3..d60ecec 100644
--- a/exorad/utils/passVal.py
+++ b/exorad/utils/passVal.py
@@ -27,7 +27,8 @@ class PassValInit(metaclass=SingletonMeta):
     Class used to propagate values through the code.
     """
 
-    _working_R = 6000
+    _default_R = 6000
+    _working_R = _default_R
 
     @property
     def working_R(self):
@@ -37,5 +38,11 @@ class PassValInit(metaclass=SingletonMeta):
     def working_R(self, val):
         self._working_R = val
 
+    def reset(self):
+        """
+        It restores the default values
+        """
+        self._working_R = self._default_R
+
 
 PassVal = PassValInit()
-- 
2.43.0


From bb5d8b9db044d1bd6783c9e97fabfedabcaf472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:38 +0000
Subject: [PATCH 53/56] fix: PSF images searched in their directory also
 without trailing slash

---
 exorad/utils/exolib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 56dba95..7bc7346 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -231,7 +231,7 @@ def binnedPSF(
                     F_x, F_y, wl, delta_pix, hdr
                 )
         elif os.path.isdir(filename):
-            filenames = np.sort(glob.glob(filename + "*.fits"))
+            filenames = np.sort(glob.glob(os.path.join(filename, "*.fits")))
             psf_wl = []
             for file in filenames:
                 with fits.open(os.path.expanduser(file)) as hdu:
@@ -297,7 +297,7 @@ def pixel_based_psf(wl, delta_pix, filename):
             extent = load_pixel_psf_size(delta_pix, hdr)
 
     elif os.path.isdir(filename):
-        filenames = np.sort(glob.glob(filename + "*.fits"))
+        filenames = np.sort(glob.glob(os.path.join(filename, "*.fits")))
         psf_wl = []
         for file in filenames:
             with fits.open(os.path.expanduser(file)) as hdu:
@@ -463,7 +463,7 @@ def plot_imac(imac, extent, xlim=None, ylim=None):
 
 
 def wl_encircled_energy(filename, eec, format, Fnum_x, Fnum_y, delta_pix):
-    filenames = np.sort(glob.glob(filename + "*.fits"))
+    filenames = np.sort(glob.glob(os.path.join(filename, "*.fits")))
     psf_wl, enc = [], []
     for file in filenames:
         with fits.open(os.path.expanduser(file)) as hdu:
-- 
2.43.0


From f5f3d44c5d0f0e005cc52043ba32958d72c46845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:21 +0000
Subject: [PATCH 54/56] fix: a payload read from a saved file could not be
 saved again

---
 exorad/output/hdf5/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index aacb70b..8c15e29 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -50,7 +50,10 @@ def recursively_read_dict_contents(input_dict):
         for k in table_keys:
             table = load_table(input_dict, k)
             input_dict[k] = table
-    for key in new_keys:
+            # only needed by the file: the table would not be saved again
+            input_dict.pop("{}.__table_column_meta__".format(k))
+            input_dict.pop("{}_to_group".format(k), None)
+    for key in list(input_dict.keys()):
         if isinstance(input_dict[key], dict):
             input_dict[key] = recursively_read_dict_contents(input_dict[key])
     return input_dict
@@ -137,6 +140,7 @@ def store_thing(output, key, item):
             np.int64,
             np.int32,
             np.float64,
+            np.bool_,
         ),
     ):
         output.write_scalar(key, item)
-- 
2.43.0


From 1720f9acd33309b03371a14a4fe4e142d5233cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:24 +0000
Subject: [PATCH 55/56] fix: pixel response and extent of an image paired each
 axis with the sampling of the other

---
 exorad/utils/exolib.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 7bc7346..7fbc3b8 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -200,12 +200,13 @@ def planck(wl, T):
 
 
 def load_standard_psf(F_x, F_y, wl, delta_pix, hdr):
-    k_x = delta_pix / (F_x * wl * hdr["CDELT2"])
-    k_y = delta_pix / (F_y * wl * hdr["CDELT1"])
-    xmin = -(hdr["CRPIX2"] - 1) * F_x * wl * hdr["CDELT2"]
-    xmax = (hdr["NAXIS2"] - (hdr["CRPIX2"] - 1)) * F_x * wl * hdr["CDELT2"]
-    ymin = -(hdr["CRPIX1"] - 1) * F_y * wl * hdr["CDELT1"]
-    ymax = (hdr["NAXIS1"] - (hdr["CRPIX1"] - 1)) * F_y * wl * hdr["CDELT1"]
+    # the first FITS axis runs along the columns of the image
+    k_x = delta_pix / (F_x * wl * hdr["CDELT1"])
+    k_y = delta_pix / (F_y * wl * hdr["CDELT2"])
+    xmin = -(hdr["CRPIX1"] - 1) * F_x * wl * hdr["CDELT1"]
+    xmax = (hdr["NAXIS1"] - (hdr["CRPIX1"] - 1)) * F_x * wl * hdr["CDELT1"]
+    ymin = -(hdr["CRPIX2"] - 1) * F_y * wl * hdr["CDELT2"]
+    ymax = (hdr["NAXIS2"] - (hdr["CRPIX2"] - 1)) * F_y * wl * hdr["CDELT2"]
     extent = (xmin, xmax, ymin, ymax)
     return k_x, k_y, extent
 
@@ -281,10 +282,10 @@ def binnedPSF(
 
 
 def load_pixel_psf_size(delta_pix, hdr):
-    xmin = [-hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
-    xmax = [hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
-    ymin = [-hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
-    ymax = [hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
+    xmin = [-hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
+    xmax = [hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
+    ymin = [-hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
+    ymax = [hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
     extent = (xmin, xmax, ymin, ymax)
     return extent
 
-- 
2.43.0


From 0da6ef5a9a86788a94d35fb291fb00916067fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:10 +0000
Subject: [PATCH 56/56] fix: extent of an image sampled on pixels ignored the
 unit of the pixel size

---
 exorad/utils/exolib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 7fbc3b8..4971d9d 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -282,6 +282,7 @@ def binnedPSF(
 
 
 def load_pixel_psf_size(delta_pix, hdr):
+    delta_pix = delta_pix.to(u.micron)
     xmin = [-hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
     xmax = [hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
     ymin = [-hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
-- 
2.43.0


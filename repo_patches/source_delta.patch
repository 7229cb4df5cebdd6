From 4375b0084a3b65865ac8554cd1aa79bd94df5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 01/25] fix: draw the phases of a seeded synthesis from a
 generator of its own

spectrum2timeseries(seed=s) re-seeded and then drew from numpy's global
generator. Another thread seeding or drawing in between changed the
realisation, and every seeded call reset the random stream of the caller, so
that unseeded realisations after it were no longer fresh. RandomState(seed)
gives the same numbers as before without touching the global state.
---
 deltares_wave_toolbox/cores/core_spectral.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 5989527..ee70a27 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -687,10 +687,13 @@ def spectrum2timeseries(
     # --- Chose nF random phases and, if requested, reset the state.
     #     Resetting the state means that a renewed call to the present function
     #     with the same arguments will give the same random numbers
+    #     A seeded call draws from a generator of its own, so that it depends on
+    #     the seed only and leaves the global random state as it was
+    random_state = np.random
     if seed >= 0:
-        np.random.seed(seed)
+        random_state = np.random.RandomState(seed)
 
-    phase = 2 * np.pi * np.random.rand(1, nF)
+    phase = 2 * np.pi * random_state.rand(1, nF)
 
     # --- Determine amplitudes per frequency band, based on the method of Miles
     amplitude = np.sqrt(2 * sVarDensGen * dfGen)
-- 
2.43.0


From 067576e991b33137508a9cfd6137f16dd3c83979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 02/25] fix: wave height queries no longer reorder the waves of
 the object

get_Hs, highest_waves, get_exceedance_waveheight and the exceedance plots
sorted hwave and twave of the object in place of a copy, so that asking for a
statistic silently broke the chronological order of the waves (and the match
with tCross). Only sort() is meant to do that.
---
 deltares_wave_toolbox/series.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 0b3574c..149c313 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -114,8 +114,10 @@ class WaveHeights:
             wave height with given exceedance probability [m]
 
         """
-        self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)
-        return core_time.exceedance_wave_height(hWaveSorted=self.hwave, excPerc=excPerc)
+        hwave_sorted, _ = core_time.sort_wave_params(self.hwave, self.twave)
+        return core_time.exceedance_wave_height(
+            hWaveSorted=hwave_sorted, excPerc=excPerc
+        )
 
     def highest_waves(self, fracP: float) -> tuple[float, float]:
         """Computes wave parameters of selection largest waves
@@ -138,9 +140,9 @@ class WaveHeights:
                 average of the wave periods of the highest fracP waves [s]
 
         """
-        self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)
+        hwave_sorted, twave_sorted = core_time.sort_wave_params(self.hwave, self.twave)
         hFracP, tFracP = core_time.highest_waves_params(
-            hWaveSorted=self.hwave, tWaveSorted=self.twave, fracP=fracP
+            hWaveSorted=hwave_sorted, tWaveSorted=twave_sorted, fracP=fracP
         )
         return hFracP, tFracP
 
@@ -158,10 +160,11 @@ class WaveHeights:
             figure object
 
         """
-        self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)
+        hwave_sorted, _ = core_time.sort_wave_params(self.hwave, self.twave)
         fig = plt.figure()
         plt.plot(
-            self.hwave, np.linspace(0, self.nwave, self.nwave, self.nwave) / self.nwave
+            hwave_sorted,
+            np.linspace(0, self.nwave, self.nwave, self.nwave) / self.nwave,
         )
 
         plt.yscale("log")
@@ -225,7 +228,7 @@ class WaveHeights:
             np.log(1 - np.arange(self.nwave, 0, -1) / (self.nwave + 1)) / np.log(0.02)
         )
 
-        self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)
+        hwave_sorted, _ = core_time.sort_wave_params(self.hwave, self.twave)
         fig = plt.figure()
 
         plt.plot(
@@ -253,7 +256,9 @@ class WaveHeights:
                     label="Battjes & Groenendijk (2000) distribution",
                 )
 
-        plt.plot(Rayleigh_x, self.hwave / H_normalize, label="Wave height distribution")
+        plt.plot(
+            Rayleigh_x, hwave_sorted / H_normalize, label="Wave height distribution"
+        )
 
         plt.grid("on")
         plt.xlabel(r"$P_{exceedance}$ [$\%$]")
-- 
2.43.0


From a8f92beaeadbd33d484d380c3f61cec176212b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 03/25] fix: spectrum getters return the value they computed,
 not a shared attribute

A getter stored its result on the object and returned what it then read back
from there, so that two threads querying one Spectrum with different frequency
limits could be handed each other's value.
---
 deltares_wave_toolbox/spectrum.py | 65 ++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 7edb495..a9064a9 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -95,8 +95,9 @@ class Spectrum:
         """
         fmin, fmax = self._set_flim(fmin, fmax)
         m0 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 0, fmin, fmax)
-        self.Hm0 = 4 * np.sqrt(m0)
-        return self.Hm0
+        Hm0 = 4 * np.sqrt(m0)
+        self.Hm0 = Hm0
+        return Hm0
 
     def get_Hm0_HF(self, fmin: float = -1.0, fmax: float = -1.0) -> float:
         """Compute Hm0 of the high frequency part of the spectrum
@@ -131,8 +132,9 @@ class Spectrum:
 
         fmin, fmax = self._set_flim(fmin, fmax)
         m0 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 0, fmin, fmax)
-        self.Hm0_HF = 4 * np.sqrt(m0)
-        return self.Hm0_HF
+        Hm0_HF = 4 * np.sqrt(m0)
+        self.Hm0_HF = Hm0_HF
+        return Hm0_HF
 
     def get_Hm0_LF(self, fmin: float = -1.0, fmax: float = -1.0) -> float:
         """Compute Hm0 of the low frequency part of the spectrum
@@ -167,8 +169,9 @@ class Spectrum:
 
         fmin, fmax = self._set_flim(fmin, fmax)
         m0 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 0, fmin, fmax)
-        self.Hm0_LF = 4 * np.sqrt(m0)
-        return self.Hm0_LF
+        Hm0_LF = 4 * np.sqrt(m0)
+        self.Hm0_LF = Hm0_LF
+        return Hm0_LF
 
     def get_Tps(self, fmin: float = -1.0, fmax: float = -1.0) -> float:
         """Compute Tps (smoothed peak period) of spectrum
@@ -190,8 +193,9 @@ class Spectrum:
         iFmax = np.where(self.f <= fmax)[0][-1]
         fMiMa = self.f[iFmin : iFmax + 1]
         SMiMa = self.sVarDens[iFmin : iFmax + 1]
-        self.Tps = core_wavefunctions.compute_tps(fMiMa, SMiMa)
-        return self.Tps
+        Tps = core_wavefunctions.compute_tps(fMiMa, SMiMa)
+        self.Tps = Tps
+        return Tps
 
     def get_Tp(self, fmin: float = -1.0, fmax: float = -1.0) -> float:
         """Compute Tp (peak period) of spectrum
@@ -225,8 +229,9 @@ class Spectrum:
         if np.all(ifp is None):
             ifp = 1
             fp = fMiMa[ifp]
-        self.Tp = 1 / fp
-        return self.Tp
+        Tp = 1 / fp
+        self.Tp = Tp
+        return Tp
 
     def get_Tmm10(self, fmin: float = -1.0, fmax: float = -1.0) -> float:
         """Compute Tm-1,0 spectral period of spectrum
@@ -246,8 +251,9 @@ class Spectrum:
         fmin, fmax = self._set_flim(fmin, fmax)
         m_1 = core_wavefunctions.compute_moment(self.f, self.sVarDens, -1, fmin, fmax)
         m0 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 0, fmin, fmax)
-        self.Tmm10 = m_1 / m0
-        return self.Tmm10
+        Tmm10 = m_1 / m0
+        self.Tmm10 = Tmm10
+        return Tmm10
 
     def get_Tmm10_HF(self, fmin: float = -1.0, fmax: float = -1.0) -> float:
         """Compute Tm-1,0 spectral period for the high frequency part of the spectrum
@@ -282,8 +288,9 @@ class Spectrum:
         fmin, fmax = self._set_flim(fmin, fmax)
         m_1 = core_wavefunctions.compute_moment(self.f, self.sVarDens, -1, fmin, fmax)
         m0 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 0, fmin, fmax)
-        self.Tmm10_HF = m_1 / m0
-        return self.Tmm10_HF
+        Tmm10_HF = m_1 / m0
+        self.Tmm10_HF = Tmm10_HF
+        return Tmm10_HF
 
     def get_Tmm10_LF(self, fmin: float = -1.0, fmax: float = -1.0) -> float:
         """Compute Tm-1,0 spectral period for the low frequency part of the spectrum
@@ -318,8 +325,9 @@ class Spectrum:
         fmin, fmax = self._set_flim(fmin, fmax)
         m_1 = core_wavefunctions.compute_moment(self.f, self.sVarDens, -1, fmin, fmax)
         m0 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 0, fmin, fmax)
-        self.Tmm10_LF = m_1 / m0
-        return self.Tmm10_LF
+        Tmm10_LF = m_1 / m0
+        self.Tmm10_LF = Tmm10_LF
+        return Tmm10_LF
 
     def get_Tm01(self, fmin: float = -1.0, fmax: float = -1.0) -> float:
         """Compute Tm01 of spectrum
@@ -339,8 +347,9 @@ class Spectrum:
         fmin, fmax = self._set_flim(fmin, fmax)
         m0 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 0, fmin, fmax)
         m1 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 1, fmin, fmax)
-        self.Tm01 = m0 / m1
-        return self.Tm01
+        Tm01 = m0 / m1
+        self.Tm01 = Tm01
+        return Tm01
 
     def get_Tm02(self, fmin: float = -1.0, fmax: float = -1.0) -> float:
         """Compute Tm02 of spectrum
@@ -360,8 +369,9 @@ class Spectrum:
         fmin, fmax = self._set_flim(fmin, fmax)
         m0 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 0, fmin, fmax)
         m2 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 2, fmin, fmax)
-        self.Tm02 = np.sqrt(m0 / m2)
-        return self.Tm02
+        Tm02 = np.sqrt(m0 / m2)
+        self.Tm02 = Tm02
+        return Tm02
 
     def get_s0p(self, fmin: float = -1.0, fmax: float = -1.0, g: float = 9.81) -> float:
         """Compute s0p of the spectrum
@@ -389,8 +399,9 @@ class Spectrum:
         if not hasattr(self, "Tps"):
             self.get_Tps(fmin=fmin, fmax=fmax)
 
-        self.s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)
-        return self.s0p
+        s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)
+        self.s0p = s0p
+        return s0p
 
     def get_smm10(
         self, fmin: float = -1.0, fmax: float = -1.0, g: float = 9.81
@@ -420,8 +431,9 @@ class Spectrum:
         if not hasattr(self, "Tmm10"):
             self.get_Tmm10(fmin=fmin, fmax=fmax)
 
-        self.smm10 = 2 * np.pi * self.Hm0 / (g * self.Tmm10**2)
-        return self.smm10
+        smm10 = 2 * np.pi * self.Hm0 / (g * self.Tmm10**2)
+        self.smm10 = smm10
+        return smm10
 
     def get_smm10_HF(
         self, fmin: float = -1.0, fmax: float = -1.0, g: float = 9.81
@@ -452,8 +464,9 @@ class Spectrum:
         if not hasattr(self, "Tmm10_HF"):
             self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
 
-        self.smm10_HF = 2 * np.pi * self.Hm0_HF / (g * self.Tmm10_HF**2)
-        return self.smm10_HF
+        smm10_HF = 2 * np.pi * self.Hm0_HF / (g * self.Tmm10_HF**2)
+        self.smm10_HF = smm10_HF
+        return smm10_HF
 
     def create_series(self, tstart: float, tend: float, dt: float) -> series.Series:
         """Construct series from Spectrum with random phase
-- 
2.43.0


From 75d9d486304bb680bb53c79b22a49cfa892a3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 04/25] fix: wave steepness and HF/LF cutoffs use the limits of
 the call

get_s0p, get_smm10 and get_smm10_HF took whatever Hm0 and period an earlier
query had left on the object, for other frequency limits, and ignored their
own fmin and fmax; the default HF/LF cutoff took the Tm-1,0 of an earlier
query in the same way.
---
 deltares_wave_toolbox/spectrum.py | 43 ++++++++++---------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index a9064a9..7c8aa29 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -121,9 +121,7 @@ class Spectrum:
             Hm0
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmin = 0.45 / self.Tmm10
+            fmin = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmin not set, using default value of 0.45 / Tmm10",
@@ -158,9 +156,7 @@ class Spectrum:
             Hm0
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmax = 0.45 / self.Tmm10
+            fmax = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmax not set, using default value of 0.45 / Tmm10",
@@ -276,9 +272,7 @@ class Spectrum:
             Tmm10
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmin = 0.45 / self.Tmm10
+            fmin = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmin not set, using default value of 0.45 / Tmm10",
@@ -313,9 +307,7 @@ class Spectrum:
             Tmm10
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmax = 0.45 / self.Tmm10
+            fmax = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmax not set, using default value of 0.45 / Tmm10",
@@ -393,13 +385,10 @@ class Spectrum:
         float
             s0p
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
+        Hm0 = self.get_Hm0(fmin=fmin, fmax=fmax)
+        Tps = self.get_Tps(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tps"):
-            self.get_Tps(fmin=fmin, fmax=fmax)
-
-        s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)
+        s0p = 2 * np.pi * Hm0 / (g * Tps**2)
         self.s0p = s0p
         return s0p
 
@@ -425,13 +414,10 @@ class Spectrum:
         float
             smm10
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
-
-        if not hasattr(self, "Tmm10"):
-            self.get_Tmm10(fmin=fmin, fmax=fmax)
+        Hm0 = self.get_Hm0(fmin=fmin, fmax=fmax)
+        Tmm10 = self.get_Tmm10(fmin=fmin, fmax=fmax)
 
-        smm10 = 2 * np.pi * self.Hm0 / (g * self.Tmm10**2)
+        smm10 = 2 * np.pi * Hm0 / (g * Tmm10**2)
         self.smm10 = smm10
         return smm10
 
@@ -458,13 +444,10 @@ class Spectrum:
         float
             smm10_HF
         """
-        if not hasattr(self, "Hm0_HF"):
-            self.get_Hm0_HF(fmin=fmin, fmax=fmax)
-
-        if not hasattr(self, "Tmm10_HF"):
-            self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
+        Hm0_HF = self.get_Hm0_HF(fmin=fmin, fmax=fmax)
+        Tmm10_HF = self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
 
-        smm10_HF = 2 * np.pi * self.Hm0_HF / (g * self.Tmm10_HF**2)
+        smm10_HF = 2 * np.pi * Hm0_HF / (g * Tmm10_HF**2)
         self.smm10_HF = smm10_HF
         return smm10_HF
 
-- 
2.43.0


From 1a5a074f934ba4fc300e6df35644621bb751a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 05/25] fix: plots draw and save on the figure they return

The plot methods drew through pyplot's notion of the current figure, so a plot
made from another thread in between received this one's curves, and savepath
could be written with the wrong figure.
---
 deltares_wave_toolbox/series.py   | 63 +++++++++++++++----------------
 deltares_wave_toolbox/spectrum.py | 22 +++++------
 2 files changed, 42 insertions(+), 43 deletions(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 149c313..ede0a55 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -161,19 +161,19 @@ class WaveHeights:
 
         """
         hwave_sorted, _ = core_time.sort_wave_params(self.hwave, self.twave)
-        fig = plt.figure()
-        plt.plot(
+        fig, ax = plt.subplots()
+        ax.plot(
             hwave_sorted,
             np.linspace(0, self.nwave, self.nwave, self.nwave) / self.nwave,
         )
 
-        plt.yscale("log")
-        plt.grid("on")
-        plt.xlabel("Wave height [$m$]")
-        plt.ylabel("P exceedance ")
+        ax.set_yscale("log")
+        ax.grid("on")
+        ax.set_xlabel("Wave height [$m$]")
+        ax.set_ylabel("P exceedance ")
 
         if savepath != "":
-            plt.savefig(savepath)
+            fig.savefig(savepath)
         return fig
 
     def plot_exceedance_waveheight_Rayleigh(
@@ -229,9 +229,9 @@ class WaveHeights:
         )
 
         hwave_sorted, _ = core_time.sort_wave_params(self.hwave, self.twave)
-        fig = plt.figure()
+        fig, ax = plt.subplots()
 
-        plt.plot(
+        ax.plot(
             Rayleigh_x,
             Rayleigh_theoretical_dist / H_normalize,
             label="Theoretical Rayleigh distribution",
@@ -250,30 +250,29 @@ class WaveHeights:
                     hm0, self.nwave, water_depth, cota_slope=cota_slope
                 )
 
-                plt.plot(
+                ax.plot(
                     np.sqrt(-np.log(Pexceedance_BG)),
                     hwave_BG / H_normalize,
                     label="Battjes & Groenendijk (2000) distribution",
                 )
 
-        plt.plot(
+        ax.plot(
             Rayleigh_x, hwave_sorted / H_normalize, label="Wave height distribution"
         )
 
-        plt.grid("on")
-        plt.xlabel(r"$P_{exceedance}$ [$\%$]")
-        plt.ylabel(y_label)
-        plt.legend()
+        ax.grid("on")
+        ax.set_xlabel(r"$P_{exceedance}$ [$\%$]")
+        ax.set_ylabel(y_label)
+        ax.legend()
 
         xtick_positions = np.array([100, 50, 20, 10, 5, 2, 1, 0.1, 0.01, 0.001])
-        ax = plt.gca()
         ax.set_xticks(
             rayleigh.ppf(1 - xtick_positions / 100, scale=1 / np.sqrt(2)),
             labels=xtick_positions,
         )
 
         if savepath != "":
-            plt.savefig(savepath)
+            fig.savefig(savepath)
         return fig
 
     def plot_hist_waveheight(self, savepath: str = "") -> figure.Figure:
@@ -290,16 +289,16 @@ class WaveHeights:
             figure object
 
         """
-        fig = plt.figure()
-        plt.hist(self.hwave, label="Distribution")
+        fig, ax = plt.subplots()
+        ax.hist(self.hwave, label="Distribution")
 
-        plt.grid("on")
-        plt.xlabel("H [$m$]")
-        plt.ylabel("P ")
-        plt.legend()
+        ax.grid("on")
+        ax.set_xlabel("H [$m$]")
+        ax.set_ylabel("P ")
+        ax.legend()
 
         if savepath != "":
-            plt.savefig(savepath)
+            fig.savefig(savepath)
         return fig
 
 
@@ -616,16 +615,16 @@ class Series(WaveHeights):
             figure object
 
         """
-        fig = plt.figure()
-        plt.plot(self.time, self.xTime, label="series")
+        fig, ax = plt.subplots()
+        ax.plot(self.time, self.xTime, label="series")
         if plot_crossing and hasattr(self, "tCross"):
 
-            plt.plot(self.tCross, np.asarray(self.tCross) * 0, "ro", label="crossing")
-        plt.grid("on")
-        plt.xlabel("time [$s$]")
-        plt.ylabel("z [$m$]")
-        plt.legend()
+            ax.plot(self.tCross, np.asarray(self.tCross) * 0, "ro", label="crossing")
+        ax.grid("on")
+        ax.set_xlabel("time [$s$]")
+        ax.set_ylabel("z [$m$]")
+        ax.legend()
 
         if savepath != "":
-            plt.savefig(savepath)
+            fig.savefig(savepath)
         return fig
diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 7c8aa29..2bc5966 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -501,34 +501,34 @@ class Spectrum:
         figure.Figure
             figure object
         """
-        fig = plt.figure()
-        plt.plot(self.f, self.sVarDens, label="Spectrum")
+        fig, ax = plt.subplots()
+        ax.plot(self.f, self.sVarDens, label="Spectrum")
 
         if plot_periods:
             if hasattr(self, "Tps"):
-                plt.plot(
+                ax.plot(
                     [1 / self.Tps, 1 / self.Tps],
                     [0, np.max(self.sVarDens)],
                     label="Tps",
                 )
             if hasattr(self, "Tmm10"):
-                plt.plot(
+                ax.plot(
                     [1 / self.Tmm10, 1 / self.Tmm10],
                     [0, np.max(self.sVarDens)],
                     label="Tmm10",
                 )
             if hasattr(self, "Tm02"):
-                plt.plot(
+                ax.plot(
                     [1 / self.Tm02, 1 / self.Tm02],
                     [0, np.max(self.sVarDens)],
                     label="Tm02",
                 )
-        plt.grid("on")
-        plt.xlabel(xlabel)
-        plt.ylabel(ylabel)
-        plt.legend()
+        ax.grid("on")
+        ax.set_xlabel(xlabel)
+        ax.set_ylabel(ylabel)
+        ax.legend()
         if xlim != -999.0:
-            plt.xlim(xlim)
+            ax.set_xlim(xlim)
         if savepath != "":
-            plt.savefig(savepath)
+            fig.savefig(savepath)
         return fig
-- 
2.43.0


From 81533bd95d222ea70f6f24ce5e482008c618ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 06/25] fix: a plot that fails closes the figure it opened

A plot method that raised (savepath not writable, Battjes & Groenendijk
without hm0, invalid argument) left its half-drawn figure open and current in
pyplot, where the caller had no handle to close it.
---
 deltares_wave_toolbox/cores/core_engine.py |  21 +++
 deltares_wave_toolbox/series.py            | 143 +++++++++++----------
 deltares_wave_toolbox/spectrum.py          |  61 +++++----
 3 files changed, 123 insertions(+), 102 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 9bf0937..871a03b 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -1,12 +1,33 @@
 # SPDX-License-Identifier: GPL-3.0-or-later
+import contextlib
 import numbers
 import sys
+from collections.abc import Iterator
 from typing import Any
 
+import matplotlib.pyplot as plt
 import numpy as np
+from matplotlib import axes, figure
 from numpy.typing import ArrayLike, NDArray
 
 
+@contextlib.contextmanager
+def new_figure() -> Iterator[tuple[figure.Figure, axes.Axes]]:
+    """Open a new figure, which is closed again when drawing or saving it fails
+
+    Yields
+    ------
+    tuple[figure.Figure, axes.Axes]
+        the figure and its axes
+    """
+    fig, ax = plt.subplots()
+    try:
+        yield fig, ax
+    except BaseException:
+        plt.close(fig)
+        raise
+
+
 def convert_to_array_type(x: ArrayLike) -> NDArray[Any]:
     """Converts input to numpy array
 
diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index ede0a55..57ef48b 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -1,5 +1,4 @@
 # SPDX-License-Identifier: GPL-3.0-or-later
-import matplotlib.pyplot as plt
 import numpy as np
 from matplotlib import figure
 from numpy import complex128, float64
@@ -161,19 +160,19 @@ class WaveHeights:
 
         """
         hwave_sorted, _ = core_time.sort_wave_params(self.hwave, self.twave)
-        fig, ax = plt.subplots()
-        ax.plot(
-            hwave_sorted,
-            np.linspace(0, self.nwave, self.nwave, self.nwave) / self.nwave,
-        )
+        with core_engine.new_figure() as (fig, ax):
+            ax.plot(
+                hwave_sorted,
+                np.linspace(0, self.nwave, self.nwave, self.nwave) / self.nwave,
+            )
 
-        ax.set_yscale("log")
-        ax.grid("on")
-        ax.set_xlabel("Wave height [$m$]")
-        ax.set_ylabel("P exceedance ")
+            ax.set_yscale("log")
+            ax.grid("on")
+            ax.set_xlabel("Wave height [$m$]")
+            ax.set_ylabel("P exceedance ")
 
-        if savepath != "":
-            fig.savefig(savepath)
+            if savepath != "":
+                fig.savefig(savepath)
         return fig
 
     def plot_exceedance_waveheight_Rayleigh(
@@ -229,50 +228,50 @@ class WaveHeights:
         )
 
         hwave_sorted, _ = core_time.sort_wave_params(self.hwave, self.twave)
-        fig, ax = plt.subplots()
+        with core_engine.new_figure() as (fig, ax):
 
-        ax.plot(
-            Rayleigh_x,
-            Rayleigh_theoretical_dist / H_normalize,
-            label="Theoretical Rayleigh distribution",
-        )
-
-        if plot_BG:
-            if hm0 == -1.0:
-                raise ValueError(
-                    "Please provide Hm0 when using Battjes & Groenendijk distribution"
-                )
-            else:
-                (
-                    hwave_BG,
-                    Pexceedance_BG,
-                ) = core_wavefunctions.compute_BattjesGroenendijk_wave_height_distribution(
-                    hm0, self.nwave, water_depth, cota_slope=cota_slope
-                )
-
-                ax.plot(
-                    np.sqrt(-np.log(Pexceedance_BG)),
-                    hwave_BG / H_normalize,
-                    label="Battjes & Groenendijk (2000) distribution",
-                )
+            ax.plot(
+                Rayleigh_x,
+                Rayleigh_theoretical_dist / H_normalize,
+                label="Theoretical Rayleigh distribution",
+            )
 
-        ax.plot(
-            Rayleigh_x, hwave_sorted / H_normalize, label="Wave height distribution"
-        )
+            if plot_BG:
+                if hm0 == -1.0:
+                    raise ValueError(
+                        "Please provide Hm0 when using Battjes & Groenendijk distribution"
+                    )
+                else:
+                    (
+                        hwave_BG,
+                        Pexceedance_BG,
+                    ) = core_wavefunctions.compute_BattjesGroenendijk_wave_height_distribution(
+                        hm0, self.nwave, water_depth, cota_slope=cota_slope
+                    )
+
+                    ax.plot(
+                        np.sqrt(-np.log(Pexceedance_BG)),
+                        hwave_BG / H_normalize,
+                        label="Battjes & Groenendijk (2000) distribution",
+                    )
+
+            ax.plot(
+                Rayleigh_x, hwave_sorted / H_normalize, label="Wave height distribution"
+            )
 
-        ax.grid("on")
-        ax.set_xlabel(r"$P_{exceedance}$ [$\%$]")
-        ax.set_ylabel(y_label)
-        ax.legend()
+            ax.grid("on")
+            ax.set_xlabel(r"$P_{exceedance}$ [$\%$]")
+            ax.set_ylabel(y_label)
+            ax.legend()
 
-        xtick_positions = np.array([100, 50, 20, 10, 5, 2, 1, 0.1, 0.01, 0.001])
-        ax.set_xticks(
-            rayleigh.ppf(1 - xtick_positions / 100, scale=1 / np.sqrt(2)),
-            labels=xtick_positions,
-        )
+            xtick_positions = np.array([100, 50, 20, 10, 5, 2, 1, 0.1, 0.01, 0.001])
+            ax.set_xticks(
+                rayleigh.ppf(1 - xtick_positions / 100, scale=1 / np.sqrt(2)),
+                labels=xtick_positions,
+            )
 
-        if savepath != "":
-            fig.savefig(savepath)
+            if savepath != "":
+                fig.savefig(savepath)
         return fig
 
     def plot_hist_waveheight(self, savepath: str = "") -> figure.Figure:
@@ -289,16 +288,16 @@ class WaveHeights:
             figure object
 
         """
-        fig, ax = plt.subplots()
-        ax.hist(self.hwave, label="Distribution")
+        with core_engine.new_figure() as (fig, ax):
+            ax.hist(self.hwave, label="Distribution")
 
-        ax.grid("on")
-        ax.set_xlabel("H [$m$]")
-        ax.set_ylabel("P ")
-        ax.legend()
+            ax.grid("on")
+            ax.set_xlabel("H [$m$]")
+            ax.set_ylabel("P ")
+            ax.legend()
 
-        if savepath != "":
-            fig.savefig(savepath)
+            if savepath != "":
+                fig.savefig(savepath)
         return fig
 
 
@@ -615,16 +614,18 @@ class Series(WaveHeights):
             figure object
 
         """
-        fig, ax = plt.subplots()
-        ax.plot(self.time, self.xTime, label="series")
-        if plot_crossing and hasattr(self, "tCross"):
-
-            ax.plot(self.tCross, np.asarray(self.tCross) * 0, "ro", label="crossing")
-        ax.grid("on")
-        ax.set_xlabel("time [$s$]")
-        ax.set_ylabel("z [$m$]")
-        ax.legend()
-
-        if savepath != "":
-            fig.savefig(savepath)
+        with core_engine.new_figure() as (fig, ax):
+            ax.plot(self.time, self.xTime, label="series")
+            if plot_crossing and hasattr(self, "tCross"):
+
+                ax.plot(
+                    self.tCross, np.asarray(self.tCross) * 0, "ro", label="crossing"
+                )
+            ax.grid("on")
+            ax.set_xlabel("time [$s$]")
+            ax.set_ylabel("z [$m$]")
+            ax.legend()
+
+            if savepath != "":
+                fig.savefig(savepath)
         return fig
diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 2bc5966..7afb567 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 
 import warnings
 
-import matplotlib.pyplot as plt
 import numpy as np
 from matplotlib import figure
 from numpy import float64
@@ -501,34 +500,34 @@ class Spectrum:
         figure.Figure
             figure object
         """
-        fig, ax = plt.subplots()
-        ax.plot(self.f, self.sVarDens, label="Spectrum")
-
-        if plot_periods:
-            if hasattr(self, "Tps"):
-                ax.plot(
-                    [1 / self.Tps, 1 / self.Tps],
-                    [0, np.max(self.sVarDens)],
-                    label="Tps",
-                )
-            if hasattr(self, "Tmm10"):
-                ax.plot(
-                    [1 / self.Tmm10, 1 / self.Tmm10],
-                    [0, np.max(self.sVarDens)],
-                    label="Tmm10",
-                )
-            if hasattr(self, "Tm02"):
-                ax.plot(
-                    [1 / self.Tm02, 1 / self.Tm02],
-                    [0, np.max(self.sVarDens)],
-                    label="Tm02",
-                )
-        ax.grid("on")
-        ax.set_xlabel(xlabel)
-        ax.set_ylabel(ylabel)
-        ax.legend()
-        if xlim != -999.0:
-            ax.set_xlim(xlim)
-        if savepath != "":
-            fig.savefig(savepath)
+        with core_engine.new_figure() as (fig, ax):
+            ax.plot(self.f, self.sVarDens, label="Spectrum")
+
+            if plot_periods:
+                if hasattr(self, "Tps"):
+                    ax.plot(
+                        [1 / self.Tps, 1 / self.Tps],
+                        [0, np.max(self.sVarDens)],
+                        label="Tps",
+                    )
+                if hasattr(self, "Tmm10"):
+                    ax.plot(
+                        [1 / self.Tmm10, 1 / self.Tmm10],
+                        [0, np.max(self.sVarDens)],
+                        label="Tmm10",
+                    )
+                if hasattr(self, "Tm02"):
+                    ax.plot(
+                        [1 / self.Tm02, 1 / self.Tm02],
+                        [0, np.max(self.sVarDens)],
+                        label="Tm02",
+                    )
+            ax.grid("on")
+            ax.set_xlabel(xlabel)
+            ax.set_ylabel(ylabel)
+            ax.legend()
+            if xlim != -999.0:
+                ax.set_xlim(xlim)
+            if savepath != "":
+                fig.savefig(savepath)
         return fig
-- 
2.43.0


From 19964a4f1103f3f1acff6c543a960e8ab89ea49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 07/25] fix: Series, WaveHeights and Spectrum keep copies of
 their arrays

A one-dimensional array passed to a constructor was kept by reference, so an
acquisition loop reusing its buffer changed the signal under an existing
Series, whose individual waves still were those of the old signal.
---
 deltares_wave_toolbox/series.py   | 10 ++++++----
 deltares_wave_toolbox/spectrum.py |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 57ef48b..2e7cc63 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -29,9 +29,10 @@ class WaveHeights:
         hwave, _ = core_engine.convert_to_vector(hwave)
         twave, _ = core_engine.convert_to_vector(twave)
 
-        self.hwave = hwave
+        # own copies, the caller may reuse the arrays
+        self.hwave = hwave.copy()
         self.nwave = len(hwave)
-        self.twave = twave
+        self.twave = twave.copy()
 
     def __str__(self) -> str:
         return f"Series with {self.nwave} elements"
@@ -326,8 +327,9 @@ class Series(WaveHeights):
             np.diff(time) / 100
         ), "Input error: time step is not equidistant"
 
-        self.time = time
-        self.xTime = xTime
+        # own copies, the caller may reuse the arrays
+        self.time = time.copy()
+        self.xTime = xTime.copy()
         self.nt = len(time)
         self.dt = np.mean(np.diff(self.time))
 
diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 7afb567..7c6f572 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -43,9 +43,10 @@ class Spectrum:
             fSize[0] == SSize[0]
         ), "compute_spectrum_params: Input error: array sizes differ in dimension"
 
-        self.f = f
-        self.sVarDens = sVarDens
-        self.D = D
+        # own copies, the caller may reuse the arrays
+        self.f = f.copy()
+        self.sVarDens = sVarDens.copy()
+        self.D = D.copy()
         self.nf = len(f)
 
         # 1D or 2D spectrum
-- 
2.43.0


From 576fc621bd0a4c5f3cfb8bdc069bd613aa03bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 08/25] fix: decompose_linear_ZS_series refuses incomplete or
 unaligned gauges

A missing gauge record was silently replaced by zeros and records on another
time axis were used as if simultaneous, which gave a wrong separation of
incident and reflected waves without any error.
---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index e8e4630..cc5253a 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -271,12 +271,20 @@ def decompose_linear_ZS_series(
              propagating in negative x-direction), in location x_loc(1)
     """
 
+    assert len(Series_objects) == len(
+        x_loc
+    ), "ZS: input error: Number of series and x_loc do not correspond."
+
     for i, series_object in enumerate(Series_objects):
 
         if i == 0:
             t = series_object.time
             xTime = np.zeros((len(t), len(x_loc)))
 
+        assert len(series_object.time) == len(t) and np.allclose(
+            series_object.time, t, rtol=0, atol=1e-3 * series_object.dt
+        ), "ZS: input error: Series do not have the same time axis."
+
         xTime[:, i] = series_object.xTime
 
     xTime1In, xTime1Re = decompose_linear_ZS(t, xTime, h, x_loc, w_loc, detLim)
-- 
2.43.0


From 3144bf0a738fefd9a791db1cbf69c8b0764d5fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 09/25] fix: uneven axes are refused whichever step differs,
 late axes accepted

---
 deltares_wave_toolbox/cores/core_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 871a03b..6b30f0c 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -88,7 +88,9 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(np.all((xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
+    # steps are only known to the rounding of the (possibly large) values themselves
+    tolerance = (1000000 + 4 * np.max(np.abs(x))) * sys.float_info.epsilon
+    isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < tolerance))
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From 4323924e86d2c9bd3d88d3ff130ea2089d77f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 10/25] fix: Series refuses records with lost or repeated
 samples whatever their length

---
 deltares_wave_toolbox/series.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 2e7cc63..40f50ec 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -326,6 +326,11 @@ class Series(WaveHeights):
         assert np.var(np.diff(time)) < np.mean(
             np.diff(time) / 100
         ), "Input error: time step is not equidistant"
+        # a lost or repeated sample hardly shows in the variance of a long record
+        assert np.all(
+            np.abs(np.diff(time) - np.mean(np.diff(time)))
+            < 0.5 * np.mean(np.diff(time))
+        ), "Input error: time step is not equidistant"
 
         # own copies, the caller may reuse the arrays
         self.time = time.copy()
-- 
2.43.0


From 1ae2feb1b685996da7326c13779410287076c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 11/25] fix: band filters keep every component of the band

---
 deltares_wave_toolbox/cores/core_spectral.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index ee70a27..19acd51 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -842,19 +842,19 @@ def applybandfilter(
 
     # --- Find index in frequency array corresponding to flow
     if flow <= f[0]:
-        ilow = 1
+        ilow = 0
     elif flow >= f[-1]:
         ilow = Nf
     else:
         ilow = np.where(f < flow)[0][-1] + 1
 
-    # --- Find index in frequency array corresponding to fhigh
+    # --- Find index in frequency array one beyond the last one below fhigh
     if fhigh <= f[0]:
-        ihigh = 1
+        ihigh = 0
     elif fhigh >= f[-1]:
         ihigh = Nf
     else:
-        ihigh = np.where(f < fhigh)[0][-1]
+        ihigh = np.where(f < fhigh)[0][-1] + 1
 
     # --- Initialize
     zFreq = np.zeros(len(xFreq)).astype(complex)
-- 
2.43.0


From 867538afde6ffc4c15fdc1d4c486098798c56f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 12/25] fix: documented deep and shallow water options of
 disper return a wave number

---
 deltares_wave_toolbox/cores/core_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index c03a5f7..02575ab 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -81,7 +81,7 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
             arg[iq] = -c[iq] / b[iq]
             q = q + arg
 
-    k = np.sign(w) * q / h
+        k = np.sign(w) * q / h
 
     ik = np.isnan(k)
     k[ik] = np.zeros(np.size(k[ik]))
-- 
2.43.0


From a13fe4e440a932b9152f66727b0cea63ff44858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 13/25] fix: statistics of a record without waves are returned
 instead of refused

---
 deltares_wave_toolbox/cores/core_time.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index a706487..e026f6c 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -58,11 +58,12 @@ def sort_wave_params(
 
     # Check on input arguments
     # --- Check whether the size of the input arguments is identical
-    is1d_array = core_engine.is1darray(hWave)
+    # --- arrays without any waves are empty
+    is1d_array = core_engine.is1darray(hWave) or hWave.size == 0
     if not is1d_array:
         raise ValueError("sort_wave_params: Input error, Input arrays hWave is not 1D")
 
-    is1d_array = core_engine.is1darray(tWave)
+    is1d_array = core_engine.is1darray(tWave) or tWave.size == 0
     if not is1d_array:
         raise ValueError("sort_wave_params: Input error, Input array tWave is not 1D")
 
@@ -261,13 +262,14 @@ def highest_waves_params(
     tWaveSorted = core_engine.convert_to_array_type(tWaveSorted)
 
     # Perform checks on the input arguments
-    is1d_array = core_engine.is1darray(hWaveSorted)
+    # --- arrays without any waves are empty
+    is1d_array = core_engine.is1darray(hWaveSorted) or hWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays hWaveSorted is not 1D"
         )
 
-    is1d_array = core_engine.is1darray(tWaveSorted)
+    is1d_array = core_engine.is1darray(tWaveSorted) or tWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays tWaveSorted is not 1D"
@@ -350,7 +352,8 @@ def exceedance_wave_height(hWaveSorted: NDArray[float64], excPerc: float) -> flo
     hWaveSorted = core_engine.convert_to_array_type(hWaveSorted)
 
     # Perform checks on the input arguments
-    is1d_array = core_engine.is1darray(hWaveSorted)
+    # --- arrays without any waves are empty
+    is1d_array = core_engine.is1darray(hWaveSorted) or hWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "exceedance_wave_height: Input error: Input arrays hWaveSorted is not 1D"
-- 
2.43.0


From e2e202e664f1493f381edfcf9e71b4ebfdcee970 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 14/25] fix: a moment with only one of its limits given keeps
 to that limit

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index b284fcb..18216e3 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -238,10 +238,14 @@ def compute_moment(
     integrand = freq ** (m) * spec
 
     # --- Depending on number of input arguments, compute the moment integral
-    if fmin == -1.0 or fmax == -1.0:  # integrate over all values in freq interval.
+    if fmin == -1.0 and fmax == -1.0:  # integrate over all values in freq interval.
         moment = integrate.simpson(integrand, x=freq)
     else:  # integrate over all values in sub interval.
-        # fmin and fmax are given
+        # fmin or fmax is given, the other one is that of the axis
+        if fmin == -1.0:
+            fmin = freq[0]
+        if fmax == -1.0:
+            fmax = freq[-1]
         fminn = fmin
         if m < 0 and f[0] == 0:
             if fmin == 0:
-- 
2.43.0


From e7ff51918e046f90da6f84ad5183e8ee1a224288 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 15/25] fix: realisations of spectra given as a column

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 19acd51..5ee95aa 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -650,7 +650,7 @@ def spectrum2timeseries(
 
     """
     f, fSize = core_engine.convert_to_vector(f)
-    xFreq, xFreqSize = core_engine.convert_to_vector(sVarDens)
+    sVarDens, xFreqSize = core_engine.convert_to_vector(sVarDens)
 
     if fSize[1] > 1 or xFreqSize[1] > 1:
         raise ValueError(
-- 
2.43.0


From 6fbdb8c4692f996ba73178d6120d33d6b614645c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 16/25] fix: a realisation ends at tEnd

---
 deltares_wave_toolbox/cores/core_spectral.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 5ee95aa..ccacabc 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -663,6 +663,9 @@ def spectrum2timeseries(
         )
 
     t = np.arange(tInit, tEnd + dt, dt)
+    # rounding may have added a point a whole step after the end
+    if len(t) > 1 and t[-1] > tEnd + (1 - 1e-6) * dt:
+        t = t[:-1]
 
     nTime = len(t)
     nTimeEven = int(2 * np.ceil(nTime / 2))
-- 
2.43.0


From 1faeffb6325518ddfbd4541f57363ab0575fc611 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 17/25] fix: coherence averages the cross spectrum, not its
 magnitude

---
 deltares_wave_toolbox/cores/core_spectral.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index ccacabc..241e9bc 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -210,13 +210,13 @@ def coherence(
         coh2 : NDArray[float64]
             coherence (magnitude-squared coherence)
     """
-    # --- Compute auto-spectral and cross-spectral (absolute value) densities
+    # --- Compute auto-spectral and (complex) cross-spectral densities
     #     on original frequency axis
     #     Note: Normalisation factors (2 / (df * Ntime * Ntime)) may be omitted,
     #     since they cancel out
     S11 = abs(xFreq1 * np.conj(xFreq1))
     S22 = abs(xFreq2 * np.conj(xFreq2))
-    S12 = abs(xFreq1 * np.conj(xFreq2))
+    S12 = xFreq1 * np.conj(xFreq2)
 
     # --- Apply band averaging
     f_coh2, S11_b = frequency_averaging(f, S11, dfDesired)
@@ -234,7 +234,7 @@ def coherence(
     S22_b[ismall] = small_number
 
     # --- Compute coherence
-    coh2 = (S12_b) ** 2 / (S11_b * S22_b)
+    coh2 = abs(S12_b) ** 2 / (S11_b * S22_b)
 
     return f_coh2, coh2
 
-- 
2.43.0


From 67f4a16eaeb86f01e4067de5303d4b35585707af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:32 +0000
Subject: [PATCH 18/25] fix: averaged integer densities are no longer truncated
 to integers

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 241e9bc..7a5c044 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -79,7 +79,7 @@ def frequency_averaging(
 
     # --- Initialize arrays
     f_coarse = np.zeros(len(f[0:nCoarse]))
-    sVarDens_coarse = np.zeros(len(f_coarse), dtype=type(sVarDens[0]))
+    sVarDens_coarse = np.zeros(len(f_coarse), dtype=np.mean(sVarDens[0]).dtype)
 
     # --- Perform the averaging
     for iFreq in np.arange(0, nCoarse):  # before np.arange(0,nCoarse)
-- 
2.43.0


From 26deb1afbd8469931896ceb6f2723b849099e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 19/25] fix: gauge weights outside 0 to 1 are refused

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index cc5253a..7fc0a18 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -110,7 +110,7 @@ def decompose_linear_ZS(
     ), "ZS: input error: Dimensions of x_loc and t do not correspond."
     # --- Values of w_loc should be between 0 and 1
     assert (
-        min(w_loc) > 0 or max(w_loc) <= 1
+        min(w_loc) >= 0 and max(w_loc) <= 1
     ), "ZS: input error: Values of w_loc must be between 0 and 1."
 
     w_loc_sum = sum(w_loc)
-- 
2.43.0


From d2782cdb544ccfd95dbd1f98a273b236186ce074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:57 +0000
Subject: [PATCH 20/25] fix: crossings of whole-number records do not overflow

---
 deltares_wave_toolbox/cores/core_time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index e026f6c..86088c8 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -142,7 +142,8 @@ def determine_zero_crossing(
     """
     # --- ensure input is of type ndarray
     t = core_engine.convert_to_array_type(t)
-    xTime = core_engine.convert_to_array_type(xTime)
+    # differences of whole numbers of a short type would overflow
+    xTime = core_engine.convert_to_array_type(xTime).astype(float)
 
     # Perform checks on the input arguments
     is1d_array = core_engine.is1darray(t)
-- 
2.43.0


From fefe990843294fef67da6f3387c7180e908beeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:57 +0000
Subject: [PATCH 21/25] fix: the root mean square of whole-number wave heights
 does not overflow

---
 deltares_wave_toolbox/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 40f50ec..a75b640 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -60,7 +60,7 @@ class WaveHeights:
             Hrms
 
         """
-        return np.sqrt(np.mean(self.hwave**2))
+        return np.sqrt(np.mean(self.hwave.astype(float) ** 2))
 
     def get_Hmax(self) -> float64:
         """Return maximum wave height
-- 
2.43.0


From 9c4ef64b81903a828388074ec9390c9d6b313c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:57 +0000
Subject: [PATCH 22/25] fix: axes of whole numbers are checked without overflow

---
 deltares_wave_toolbox/cores/core_engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 6b30f0c..28b8b9e 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -87,6 +87,8 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
     bool
         True when vector is monotonic increasing with constant step size
     """
+    # whole numbers of a short type would overflow
+    x = np.asarray(x, dtype=float)
     xDiff = np.diff(x)
     # steps are only known to the rounding of the (possibly large) values themselves
     tolerance = (1000000 + 4 * np.max(np.abs(x))) * sys.float_info.epsilon
-- 
2.43.0


From 66ccedc5a2a43d23d9f68a1d10981a74d43c2f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:57 +0000
Subject: [PATCH 23/25] fix: moments and JONSWAP spectra on whole frequencies

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 18216e3..cd47a7b 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -234,6 +234,9 @@ def compute_moment(
         freq = f
         spec = sVarDens
 
+    # --- Whole numbers have no negative powers
+    freq = freq.astype(float)
+
     # --- Compute the integrand, that is the product of f^m * S
     integrand = freq ** (m) * spec
 
@@ -332,6 +335,8 @@ def create_spectrum_jonswap(
     """
     # --- Ensure array input is of type ndarray.
     f, fSize = core_engine.convert_to_vector(f)
+    # whole numbers have no negative powers
+    f = f.astype(float)
 
     nf = fSize[0]
 
-- 
2.43.0


From 90acdc9fe915420c47ace4f03ddb7d91788d3496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:57 +0000
Subject: [PATCH 24/25] fix: wave numbers of whole-number frequencies do not
 overflow

---
 deltares_wave_toolbox/cores/core_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index 02575ab..2e2dcb1 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -47,7 +47,7 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
 
     # check if radial frequency is single value or of type array, if of type single value
     # convert to array to ensure this function can handle single values as well as arrays.
-    w = core_engine.convert_to_array_type(w)
+    w = core_engine.convert_to_array_type(w).astype(float)
 
     # if not (isinstance(w,np.ndarray)):
     #   w = w*np.ones(1)
-- 
2.43.0


From 22d84acf3cfe91c2fadc55bb888783205b351218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:40 +0000
Subject: [PATCH 25/25] fix: a record with unsigned time stamps that run
 backwards is refused

---
 deltares_wave_toolbox/series.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index a75b640..67af914 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -323,20 +323,21 @@ class Series(WaveHeights):
         xTime, xSize = core_engine.convert_to_vector(xTime)
 
         assert tSize[0] == xSize[0], "Input error: array sizes differ in dimension"
-        assert np.var(np.diff(time)) < np.mean(
-            np.diff(time) / 100
+        # unsigned numbers have no negative steps
+        steps = np.diff(time.astype(float))
+        assert np.var(steps) < np.mean(
+            steps / 100
         ), "Input error: time step is not equidistant"
         # a lost or repeated sample hardly shows in the variance of a long record
         assert np.all(
-            np.abs(np.diff(time) - np.mean(np.diff(time)))
-            < 0.5 * np.mean(np.diff(time))
+            np.abs(steps - np.mean(steps)) < 0.5 * np.mean(steps)
         ), "Input error: time step is not equidistant"
 
         # own copies, the caller may reuse the arrays
         self.time = time.copy()
         self.xTime = xTime.copy()
         self.nt = len(time)
-        self.dt = np.mean(np.diff(self.time))
+        self.dt = np.mean(steps)
 
         [
             hWave,
-- 
2.43.0


From e3a506cbba258dc372628108d590b919420f41d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 01/13] fix: retrieve_phase no longer writes into the caller's
 params

---
 pyotf/phaseretrieval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index ec7c637..a7594d9 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -70,7 +70,8 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
     assert max_iters > 0, "Must have at least one iteration"
     assert data.shape[1] == data.shape[2], "Data is not square in x/y"
     assert data.ndim == 3, "Data doesn't have enough dims"
-    # make sure the user hasn't screwed up the params
+    # make sure the user hasn't screwed up the params (without changing their dict)
+    params = dict(params)
     params.update(
         dict(vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1])
     )
-- 
2.43.0


From 7a4dd912df884036d32cc294ff3c812d9b430125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 02/13] fix: HanserPSF.zrange neither aliases nor reshapes the
 array it is given

---
 pyotf/otf.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index d2a2915..ab64880 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -319,11 +319,9 @@ class HanserPSF(BasePSF):
 
     @zrange.setter
     def zrange(self, value):
-        self._zrange = np.asarray(value)
-        # check if passed value is scalar
-        if not self._zrange.shape:
-            # convert to array for later multiplications
-            self._zrange.shape = (1,)
+        # copy, so that neither the caller nor the model can change the other's array, and make
+        # scalars 1D for later multiplications
+        self._zrange = np.array(value, ndmin=1)
         self._attribute_changed()
 
     def _gen_kr(self):
-- 
2.43.0


From 37b50932cbcb2343b8a032d540c32b2cfd776c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 03/13] fix: a failing apply_pupil keeps the pupil that was
 applied before

---
 pyotf/otf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index ab64880..3ace898 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -363,8 +363,6 @@ class HanserPSF(BasePSF):
         NOTE: that the internal state is created with fftfreq, which creates
         _unshifted_ frequences
         """
-        # clear internal state
-        self._attribute_changed()
         # generate internal coordinates
         self._gen_kr()
         # generate the pupil
@@ -421,8 +419,10 @@ class HanserPSF(BasePSF):
 
     def apply_pupil(self, pupil):
         """Apply a pupil function to the model."""
+        # compute first: if this fails the model is left as it was
+        PSFa = self._gen_psf(pupil)
         self._attribute_changed()
-        self.PSFa = self._gen_psf(pupil)
+        self.PSFa = PSFa
 
     @cached_property
     def OTFa(self):
-- 
2.43.0


From 4f5417857ee9f35071950d0f2b196f45982b9323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 04/13] fix: assigning zsize or zres is all-or-nothing when
 memory runs out

---
 pyotf/otf.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 3ace898..8c638b9 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -288,34 +288,33 @@ class HanserPSF(BasePSF):
         return super().__repr__()[:-1] + f", zrange={self.zrange!r})"
 
     def _gen_zrange(self):
-        """Generate the zrange from zsize and zres."""
-        self.zrange = (np.arange(self.zsize) - (self.zsize + 1) // 2) * self.zres
+        """Have the zrange generated from zsize and zres when it's next needed."""
+        # deferred so that assigning zsize or zres can't fail half way through
+        self._zrange = None
+        self._attribute_changed()
 
     @BasePSF.zsize.setter
     def zsize(self, value):
         """Set zsize."""
         # we need override this setter so that the zrange is recalculated
         BasePSF.zsize.fset(self, value)
-        # try and except is necessary for initialization
-        try:
-            self._gen_zrange()
-        except AttributeError:
-            pass
+        self._gen_zrange()
 
     @BasePSF.zres.setter
     def zres(self, value):
         """Set zres."""
         # same as for zsize
         BasePSF.zres.fset(self, value)
-        try:
-            self._gen_zrange()
-        except AttributeError:
-            pass
+        self._gen_zrange()
 
     @property
     def zrange(self):
         """Return range overwhich to calculate the psf."""
-        return self._zrange
+        zrange = self._zrange
+        if zrange is None:
+            zrange = (np.arange(self.zsize) - (self.zsize + 1) // 2) * self.zres
+            self._zrange = zrange
+        return zrange
 
     @zrange.setter
     def zrange(self, value):
-- 
2.43.0


From 3bea8d51486ef28b7af111d3357658989a0cd363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 05/13] fix: radial_profile (and the Apotome) with NumPy >=
 1.24, which has no np.int

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 37ef17e..5a5e0b5 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -396,7 +396,7 @@ def radial_profile(data, center=None, binsize=1.0):
     idx2 = idx - center[(Ellipsis,) + (np.newaxis,) * (data.ndim)]
     r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))
     # convert to int
-    r = np.round(r / binsize).astype(np.int)
+    r = np.round(r / binsize).astype(int)
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
     # sum the squares at equal r
-- 
2.43.0


From 9d94c0fca552639ce87279237289aae0e34f3c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 06/13] fix: plotting a pupil into the caller's axes leaves the
 current figure alone

---
 pyotf/phaseretrieval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index a7594d9..cc84623 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -366,10 +366,10 @@ def _plot_complex_pupil(mag, phase, axs=None):
     phase_img = ax_phase.matshow(
         np.ma.array(phase, mask=mag == 0), cmap="coolwarm", vmin=-np.pi, vmax=np.pi
     )
-    plt.colorbar(phase_img, ax=ax_phase)
+    fig.colorbar(phase_img, ax=ax_phase)
 
     mag_img = ax_mag.matshow(mag, cmap="inferno", norm=mpl.colors.PowerNorm(0.5))
-    plt.colorbar(mag_img, ax=ax_mag)
+    fig.colorbar(mag_img, ax=ax_mag)
 
     ax_phase.set_title("Pupil Phase", pad=0)
     ax_mag.set_title("Pupil Magnitude", pad=0)
-- 
2.43.0


From 49abef07b07e606ae24a9aa6fe347fcbbf250c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 07/13] fix: ConfocalMicroscope.wl_exc reports and sets the
 excitation wavelength in use

---
 pyotf/microscope.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index a845157..7f6593a 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -191,8 +191,6 @@ class ConfocalMicroscope(WidefieldMicroscope):
         doc="Size of the pinhole (in airy units relative to emission wavelength",
     )
 
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
-
     def __init__(self, *, wl_exc, pinhole_size, **kwargs):
         super().__init__(**kwargs)
         self.pinhole_size = pinhole_size
@@ -208,6 +206,19 @@ class ConfocalMicroscope(WidefieldMicroscope):
             + f", wl_exc={self.model_exc.wl}, pinhole_size={self.pinhole_size})"
         )
 
+    @property
+    def wl_exc(self):
+        """The excitation wavelength."""
+        return self.model_exc.wl
+
+    @wl_exc.setter
+    def wl_exc(self, value):
+        # change a copy, the model may be shared with a copy of this microscope
+        model_exc = copy.copy(self.model_exc)
+        model_exc.wl = value
+        self.model_exc = model_exc
+        self._attribute_changed()
+
     @property
     def model_psf(self):
         """Oversampled confocal PSF."""
-- 
2.43.0


From fe6e24462f801229b07be49c64de3fa57117f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 08/13] fix: SIM microscopes accept wiener=None and recompute
 when wiener or orientations change

---
 pyotf/microscope.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 7f6593a..d8b48c6 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -310,8 +310,6 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener < 0:
-            raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
 
     def __repr__(self):
         """Represent a SIM microscope."""
@@ -322,6 +320,28 @@ class BaseSIMMicroscope(WidefieldMicroscope):
             + f"orientations={self.orientations!r})"
         )
 
+    @property
+    def orientations(self):
+        """The different orentation angles of the excitation."""
+        return self._orientations
+
+    @orientations.setter
+    def orientations(self, value):
+        self._orientations = tuple(value)
+        self._attribute_changed()
+
+    @property
+    def wiener(self):
+        """The wiener parameter, None means that no deconvolution is performed."""
+        return self._wiener
+
+    @wiener.setter
+    def wiener(self, value):
+        if value is not None and value < 0:
+            raise ValueError(f"self.wiener is {value:} which should be greater than zero")
+        self._wiener = value
+        self._attribute_changed()
+
     @property
     def model_psf(self):
         """Oversampled SIM PSF.
-- 
2.43.0


From ba3f805821ace6bafdb8850c956336ca753c273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 09/13] fix: assigning oversample_factor resamples the model
 instead of binning the old grid

---
 pyotf/microscope.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index d8b48c6..1834c58 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -23,7 +23,7 @@ from functools import cached_property
 import numpy as np
 from scipy.signal import fftconvolve
 
-from .otf import HanserPSF, SheppardPSF
+from .otf import BasePSF, HanserPSF, SheppardPSF
 from .utils import NumericProperty, bin_ndarray, easy_fft, easy_ifft, radial_profile, slice_maker
 from .display import psf_plot, otf_plot
 
@@ -54,6 +54,26 @@ class WidefieldMicroscope(object):
         doc="By how much do you want to oversample the simulation",
     )
 
+    @oversample_factor.setter
+    def oversample_factor(self, value):
+        """Set oversample_factor and resample the models to match."""
+        if not isinstance(value, int):
+            raise TypeError(f"oversample_factor must be an {int}, var = {value}")
+        if value < 0:
+            raise ValueError("oversample_factor must be positive")
+        assert value % 2 == 1, "oversample_factor must be odd"
+        old = getattr(self, "_oversample_factor", value)
+        if value != old:
+            # change copies of the models, so that a refused resolution changes nothing
+            models = {k: copy.copy(m) for k, m in vars(self).items() if isinstance(m, BasePSF)}
+            res, size = self.pixel_size / value, self.psf_params["size"] // old * value
+            for model in models.values():
+                model.res, model.size = res, size
+            vars(self).update(models)
+            self.psf_params = dict(self.psf_params, res=res, size=size)
+        self._oversample_factor = value
+        self._attribute_changed()
+
     def __init__(self, *, model, na, ni, wl, size, pixel_size, oversample_factor, **kwargs):
         # set zsize and zres here because we don't want to oversample there.
 
-- 
2.43.0


From 6ec8280be1aac7282262ad3ff302febf69090e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 10/13] fix: refuse to plot unevenly spaced z positions
 whatever the unit of length

---
 pyotf/otf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 8c638b9..0e763ee 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -216,7 +216,8 @@ class BasePSF(object):
         try:
             # make sure there's only one size of z-step and that there's more than one
             zsteps = np.diff(self.zrange)
-            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean()):
+            # (purely relative, because the units, e.g. nm or m, are the user's choice)
+            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean(), atol=0):
                 raise RuntimeError(f"{self} doesn't have uniform z-steps ---> {zsteps}")
         except AttributeError:
             pass
-- 
2.43.0


From b3a685941785f857106b59384d27eed9e8277118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 11/13] fix: microscopes keep their own copy of the z range
 they are given

---
 pyotf/microscope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 1834c58..0cf6fb1 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -80,7 +80,8 @@ class WidefieldMicroscope(object):
         self.oversample_factor = oversample_factor
 
         self.psf_params = dict(na=na, ni=ni, wl=wl, zres=pixel_size, zsize=size)
-        self.psf_params.update(kwargs)
+        # copy, so that later changes to a z range passed in by the caller are not seen here
+        self.psf_params.update(copy.deepcopy(kwargs))
 
         assert self.oversample_factor % 2 == 1, "oversample_factor must be odd"
 
-- 
2.43.0


From 96214e5183ece09482f362c2be96e7b30307f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 12/13] fix: version lookup survives git failing after describe
 or printing nonsense

---
 pyotf/_version.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pyotf/_version.py b/pyotf/_version.py
index dddf342..cb61104 100644
--- a/pyotf/_version.py
+++ b/pyotf/_version.py
@@ -96,9 +96,16 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False, env=
         if verbose:
             print("unable to find command, tried %s" % (commands,))
         return None, None
-    stdout = p.communicate()[0].strip()
-    if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+    try:
+        stdout = p.communicate()[0].strip()
+        if sys.version_info[0] >= 3:
+            stdout = stdout.decode()
+    except (EnvironmentError, UnicodeDecodeError):
+        e = sys.exc_info()[1]
+        if verbose:
+            print("unable to read the output of %s" % dispcmd)
+            print(e)
+        return None, None
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
@@ -262,6 +269,8 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
     if full_out is None:
         raise NotThisMethod("'git rev-parse' failed")
     full_out = full_out.strip()
+    if not re.match(r"^[0-9a-f]{7,}$", full_out):
+        raise NotThisMethod("'git rev-parse' returned no revision")
 
     pieces = {}
     pieces["long"] = full_out
@@ -308,11 +317,15 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         # HEX: no tags
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"], cwd=root)
+        if count_out is None or not re.match(r"^[0-9]+$", count_out):
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)[0].strip()
-    pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
+    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)[0]
+    if date is not None:
+        date = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
+    pieces["date"] = date
 
     return pieces
 
-- 
2.43.0


From 9695fcefacc23e7117a92c7108c078911ba4d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 13/13] fix: fit_to_zernikes returns its own decomposition when
 fits run concurrently

---
 pyotf/phaseretrieval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index cc84623..ef29223 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -197,8 +197,9 @@ class PhaseRetrievalResult(object):
         zerns = zernike(r, theta, np.arange(1, num_zerns + 1))
         mag_coefs = _fit_to_zerns(self.mag, zerns, r)
         phase_coefs = _fit_to_zerns(self.phase, zerns, r)
-        self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
-        return self.zd_result
+        # return this fit, another thread may have stored a different one by now
+        self.zd_result = zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
+        return zd_result
 
     def _generate_psf(self, complex_pupil, size=None, zsize=None, zrange=None):
         """Make a perfect PSF."""
-- 
2.43.0


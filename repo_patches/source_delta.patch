From 284f66f705efae32d079c1c8350419c265aca5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:27 +0000
Subject: [PATCH 01/16] fix: install downloaded data atomically, version file
 last

An interrupted or failed download, or two simultaneous ones, could leave a
data directory that reported the current version but held partial files.
---
 pyspectral/utils.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 14a9dca..a555b82 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -6,6 +6,7 @@ import logging
 import os
 import sys
 import tarfile
+import tempfile
 import warnings
 from functools import wraps
 from inspect import getfullargspec
@@ -374,13 +375,13 @@ def download_rsr(dest_dir: str | Path | None = None, dry_run: bool = False) -> N
     dest_path = Path(dest_dir) if dest_dir is not None else local_rsr_dir
 
     LOG.info(f"Download RSR files and store in directory {dest_path}")
-    filename = dest_path / "pyspectral_rsr_data.tgz"
+    filename = "pyspectral_rsr_data.tgz"
     LOG.debug(f"RSR URL: {HTTP_PYSPECTRAL_RSR}")
     LOG.debug(f"Destination = {dest_path}")
     if dry_run:
         return
 
-    _download_tarball_and_extract(HTTP_PYSPECTRAL_RSR, filename, dest_path)
+    _download_and_install(HTTP_PYSPECTRAL_RSR, filename, dest_path, RSR_DATA_VERSION_FILENAME)
 
 
 def download_luts(aerosol_types=None, dry_run=False, aerosol_type=None):
@@ -411,8 +412,8 @@ def download_luts(aerosol_types=None, dry_run=False, aerosol_type=None):
         if dry_run:
             continue
 
-        local_tarball_pathname = subdir_path / "pyspectral_rayleigh_correction_luts.tgz"
-        _download_tarball_and_extract(lut_tarball_url, local_tarball_pathname, subdir_path)
+        _download_and_install(lut_tarball_url, "pyspectral_rayleigh_correction_luts.tgz", subdir_path,
+                              ATM_CORRECTION_LUT_VERSION[subname]["filename"])
 
 
 def _get_aerosol_types(aerosol_types, aerosol_type):
@@ -434,6 +435,28 @@ HEADERS = {
 }
 
 
+def _download_and_install(tarball_url: str, tarball_name: str, dest_dir: Path, version_filename: str) -> None:
+    """Download a tarball and put its files in *dest_dir*, the version file last.
+
+    Download and extraction take place in a private directory, and complete
+    files are then renamed into place. In this way neither an interrupted or
+    failed download nor a simultaneous one by another process can leave partial
+    data in *dest_dir* or a version file without the data it stands for.
+    """
+    with tempfile.TemporaryDirectory(prefix=".pyspectral_download_", dir=dest_dir,
+                                     ignore_cleanup_errors=True) as tmp_dir:
+        extract_dir = Path(tmp_dir) / "data"
+        extract_dir.mkdir()
+        _download_tarball_and_extract(tarball_url, Path(tmp_dir) / tarball_name, extract_dir)
+
+        extracted_files = [path for path in extract_dir.rglob("*") if path.is_symlink() or not path.is_dir()]
+        extracted_files.sort(key=lambda path: path == extract_dir / version_filename)
+        for path in extracted_files:
+            final_path = dest_dir / path.relative_to(extract_dir)
+            final_path.parent.mkdir(parents=True, exist_ok=True)
+            os.replace(path, final_path)
+
+
 def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extract_dir: Path) -> None:
     chunk_size = 1024 * 1024  # 1 MB
 
-- 
2.43.0


From 18d7086d28d63a9c857d1a5ce37cfca8cdbb111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:16 +0000
Subject: [PATCH 02/16] fix: write the Tb to radiance table atomically

A killed or failed creation, or simultaneous ones, left a truncated table
in the cache on which every later calculator failed.
---
 pyspectral/radiance_tb_conversion.py | 15 +++++++++++++--
 pyspectral/utils.py                  | 17 +++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 97a925e..6cc88d2 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -5,6 +5,7 @@ various satellite sensors
 """
 
 import logging
+import os
 from numbers import Number
 
 import numpy as np
@@ -12,7 +13,14 @@ from scipy.integrate import trapezoid
 
 from pyspectral.blackbody import C_SPEED, H_PLANCK, K_BOLTZMANN, blackbody, blackbody_wn
 from pyspectral.rsr_reader import RelativeSpectralResponse
-from pyspectral.utils import BANDNAMES, WAVE_LENGTH, WAVE_NUMBER, convert2wavenumber, get_bandname_from_wavelength
+from pyspectral.utils import (
+    BANDNAMES,
+    WAVE_LENGTH,
+    WAVE_NUMBER,
+    convert2wavenumber,
+    get_bandname_from_wavelength,
+    replace_when_complete,
+)
 
 LOG = logging.getLogger(__name__)
 
@@ -211,7 +219,10 @@ class RadTbConverter(object):
         tb_ = np.arange(TB_MIN, TB_MAX, self.tb_resolution)
         retv = self.tb2radiance(tb_, normalized=normalized)
         rad = retv['radiance']
-        np.savez(filepath, tb=tb_, radiance=rad)
+        if not os.fspath(filepath).endswith(".npz"):
+            filepath = os.fspath(filepath) + ".npz"
+        with replace_when_complete(filepath) as tmp_filepath:
+            np.savez(tmp_filepath, tb=tb_, radiance=rad)
 
     @staticmethod
     def read_tb2rad_lut(filepath):
diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index a555b82..1972018 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -2,12 +2,14 @@
 
 from __future__ import annotations
 
+import contextlib
 import logging
 import os
 import sys
 import tarfile
 import tempfile
 import warnings
+from collections.abc import Iterator
 from functools import wraps
 from inspect import getfullargspec
 from pathlib import Path
@@ -278,6 +280,21 @@ def sort_data(x_vals, y_vals):
     return x_vals, y_vals
 
 
+@contextlib.contextmanager
+def replace_when_complete(filename: str | Path) -> Iterator[str]:
+    """Get the name of a temporary file to write, which replaces *filename* when the block succeeds.
+
+    If the block is interrupted or fails, *filename* is left as it was. Other
+    processes never see a partially written file.
+    """
+    filename = os.path.realpath(filename)
+    with tempfile.TemporaryDirectory(prefix=".pyspectral_write_", dir=os.path.dirname(filename),
+                                     ignore_cleanup_errors=True) as tmp_dir:
+        tmp_filename = os.path.join(tmp_dir, os.path.basename(filename))
+        yield tmp_filename
+        os.replace(tmp_filename, filename)
+
+
 def convert2hdf5(ClassIn, platform_name, bandnames, scale=1e-06, detectors=None):
     """Retrieve original RSR data and convert to internal hdf5 format.
 
-- 
2.43.0


From 60de5abed05a02159ad3c5829f2f94448d21086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:16 +0000
Subject: [PATCH 03/16] fix: store the wavelengths, not the responses, when
 converting RSR data to hdf5

---
 pyspectral/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 1972018..c15d4ea 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -345,7 +345,7 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     dset = grp.create_dataset("response", arr.shape, dtype="f")
     dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr["wavelength"], scale)
 
 
 def _save_wavelengths(grp, arr, scale):
@@ -368,7 +368,7 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr[detectors[0]]["wavelength"], scale)
 
 
 def download_rsr(dest_dir: str | Path | None = None, dry_run: bool = False) -> None:
-- 
2.43.0


From a33485947342b25397fc47167ed8b976b0d467e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:16 +0000
Subject: [PATCH 04/16] fix: write converted RSR files atomically

A killed or failed conversion left a truncated file in place of the previous one.
---
 pyspectral/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index c15d4ea..d60f198 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -310,7 +310,7 @@ def convert2hdf5(ClassIn, platform_name, bandnames, scale=1e-06, detectors=None)
                             "rsr_{0}_{1}.h5".format(instr_name,
                                                     platform_name))
 
-    with h5py.File(filename, "w") as h5f:
+    with replace_when_complete(filename) as tmp_filename, h5py.File(tmp_filename, "w") as h5f:
         _write_global_attrs(h5f, instruments[0], platform_name, bandnames)
         _write_channels(h5f, instruments, bandnames, scale, detectors)
 
-- 
2.43.0


From 7209c6557923f11d0b9f6efb40cce35267eb9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:02 +0000
Subject: [PATCH 05/16] fix: do not use a cached Tb to radiance table made from
 other spectral responses

The cache is keyed by platform, instrument and band only, so a table made for
another detector or wave space, or from older RSR data, was used silently.
---
 pyspectral/near_infrared_reflectance.py | 9 +++++++++
 pyspectral/radiance_tb_conversion.py    | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index ef33ba0..d749cdd 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -134,6 +134,15 @@ class Calculator(RadTbConverter):
             self.lut = self.read_tb2rad_lut(self.lutfile)
             LOG.debug("File was there and has been read!")
 
+        if not self._lut_fits_rsr():
+            LOG.warning("The lut in %s was made from other spectral responses and will be replaced", self.lutfile)
+            self.lut = self.make_tb2rad_lut(self.lutfile)
+
+    def _lut_fits_rsr(self):
+        """Check (on a subset) that the lut is the one for the band, detector, wave space and responses in use."""
+        radiance = self.tb2radiance(self.lut["tb"][::100])["radiance"]
+        return np.allclose(self.lut["radiance"][::100], radiance, rtol=1e-6, atol=0)
+
     def derive_rad39_corr(self, bt11, bt13, method="rosenfeld"):
         """Derive the CO2 correction to be applied to the 3.9 channel.
 
diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 6cc88d2..602cc79 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -215,7 +215,7 @@ class RadTbConverter(object):
                 'scale': scale}
 
     def make_tb2rad_lut(self, filepath, normalized=True):
-        """Generate a Tb to radiance look-up table."""
+        """Generate a Tb to radiance look-up table, save it and return it."""
         tb_ = np.arange(TB_MIN, TB_MAX, self.tb_resolution)
         retv = self.tb2radiance(tb_, normalized=normalized)
         rad = retv['radiance']
@@ -223,6 +223,7 @@ class RadTbConverter(object):
             filepath = os.fspath(filepath) + ".npz"
         with replace_when_complete(filepath) as tmp_filepath:
             np.savez(tmp_filepath, tb=tb_, radiance=rad)
+        return {"tb": tb_, "radiance": rad}
 
     @staticmethod
     def read_tb2rad_lut(filepath):
-- 
2.43.0


From 86e1b55318b2b7de37219f9d8a9ef99187f63878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:03 +0000
Subject: [PATCH 06/16] fix: create the Tb to radiance table also for
 instruments with a slash in their name

---
 pyspectral/near_infrared_reflectance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index d749cdd..a00b7f1 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -95,7 +95,7 @@ class Calculator(RadTbConverter):
             LOG.debug("No lut filename available in config file. "
                       "Will generate filename automatically")
             lutname = "tb2rad_lut_{0}_{1}_{band}".format(
-                self.platform_name.lower(), self.instrument.lower(), band=self.bandname.lower())
+                self.platform_name.lower(), self.instrument.lower(), band=self.bandname.lower()).replace("/", "-")
             self.lutfile = os.path.join(tb2rad_dir, lutname + ".npz")
 
     def _lutfile_from_config(self, options, tb2rad_dir):
-- 
2.43.0


From 13182ea5688b77fb9d90e34c13d2ea5cfaa727b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:32 +0000
Subject: [PATCH 07/16] fix: keep the interpolated spectrum of a solar flux
 calculation local to the call

Two threads sharing a solar spectrum could use each other's interpolated spectrum.
---
 pyspectral/solar.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyspectral/solar.py b/pyspectral/solar.py
index 8159332..2712174 100644
--- a/pyspectral/solar.py
+++ b/pyspectral/solar.py
@@ -175,13 +175,13 @@ class SolarIrradianceSpectrum(object):
 
         # Interpolate solar spectrum to specified resolution and over specified
         # Spectral interval:
-        self.interpolate(dlambda=dlambda, ival_wavelength=(start, end))
+        ipol_wavelength, ipol_irradiance = self.interpolate(dlambda=dlambda, ival_wavelength=(start, end))
 
         # Mask out outside the response curve:
-        maskidx = np.logical_and(np.greater_equal(self.ipol_wavelength, start),
-                                 np.less_equal(self.ipol_wavelength, end))
-        wvl = np.repeat(self.ipol_wavelength, maskidx)
-        irr = np.repeat(self.ipol_irradiance, maskidx)
+        maskidx = np.logical_and(np.greater_equal(ipol_wavelength, start),
+                                 np.less_equal(ipol_wavelength, end))
+        wvl = np.repeat(ipol_wavelength, maskidx)
+        irr = np.repeat(ipol_irradiance, maskidx)
 
         # Calculate the solar-flux: (w/m2)
         if flux:
@@ -237,6 +237,7 @@ class SolarIrradianceSpectrum(object):
 
         self.ipol_wavelength = xspl
         self.ipol_irradiance = yspl
+        return xspl, yspl
 
     def plot(self, plotname=None, **options):
         """Plot the data."""
-- 
2.43.0


From c4f9ad6af0f2673cceed1a08ec71c5e7e831f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:25 +0000
Subject: [PATCH 08/16] fix: do not take a failing read for a band with a
 single detector

h5py raises KeyError also when a group can't be read from disk, and the other
detectors of the band were then left out silently.
---
 pyspectral/rsr_reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyspectral/rsr_reader.py b/pyspectral/rsr_reader.py
index 7f98def..8112cb5 100644
--- a/pyspectral/rsr_reader.py
+++ b/pyspectral/rsr_reader.py
@@ -327,12 +327,12 @@ def _detector_names(h5f, band_name: str) -> Iterator[str]:
 
 def _get_number_of_detectors4bandname(h5f, band_name: str) -> int:
     """Get the number of detectors (if any) for a specified band."""
-    try:
-        num_of_det = h5f[band_name].attrs['number_of_detectors']
-    except KeyError:
+    # NOTE: A KeyError is also what h5py raises if a group can't be read from disk
+    band_attrs = h5f[band_name].attrs
+    if 'number_of_detectors' not in band_attrs:
         LOG.debug("No detectors found - assume only one...")
-        num_of_det = 1
-    return num_of_det
+        return 1
+    return band_attrs['number_of_detectors']
 
 
 def _get_band_responses_per_detector(h5f, band_name: str, detector_name: str) -> np.ndarray:
-- 
2.43.0


From eddbf3971a30a2286c1f2d64543ca9ae196c802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:30 +0000
Subject: [PATCH 09/16] fix: do not leave out downloaded files if the
 extraction directory can't be listed

---
 pyspectral/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index d60f198..9e8fce0 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -466,14 +466,22 @@ def _download_and_install(tarball_url: str, tarball_name: str, dest_dir: Path, v
         extract_dir.mkdir()
         _download_tarball_and_extract(tarball_url, Path(tmp_dir) / tarball_name, extract_dir)
 
-        extracted_files = [path for path in extract_dir.rglob("*") if path.is_symlink() or not path.is_dir()]
-        extracted_files.sort(key=lambda path: path == extract_dir / version_filename)
+        extracted_files = sorted(_iter_files(extract_dir), key=lambda path: path == extract_dir / version_filename)
         for path in extracted_files:
             final_path = dest_dir / path.relative_to(extract_dir)
             final_path.parent.mkdir(parents=True, exist_ok=True)
             os.replace(path, final_path)
 
 
+def _iter_files(directory: Path) -> Iterator[Path]:
+    # NOTE: Unlike this, Path.rglob silently skips directories which can't be read
+    for path in directory.iterdir():
+        if path.is_dir() and not path.is_symlink():
+            yield from _iter_files(path)
+        else:
+            yield path
+
+
 def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extract_dir: Path) -> None:
     chunk_size = 1024 * 1024  # 1 MB
 
-- 
2.43.0


From 2f17d8fd3602f3c9274a8cbf43541ace32cc72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:57 +0000
Subject: [PATCH 10/16] fix: do not fail on plain arrays outside the wavelength
 range of the correction

---
 pyspectral/rayleigh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index caa585e..39394ed 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -237,7 +237,7 @@ class Rayleigh(RayleighConfigBaseClass):
                                              chunks=getattr(res, "chunks", None))
 
         res = np.clip(res, 0, 100)
-        if compute:
+        if compute and isinstance(res, da.Array):
             res = res.compute()
         return res
 
-- 
2.43.0


From 9daaa6ab81c772e057ebd9e6708b10e9fab45d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:44 +0000
Subject: [PATCH 11/16] fix: allow differently chunked inputs in the Rayleigh
 correction

Blocks were matched one to one, or one to all, without aligning the chunks
first. This failed or, if the redband was one block and the angles had blocks of
one line, gave a result of the wrong shape.
---
 pyspectral/rayleigh.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index 39394ed..d7bab05 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -41,6 +41,14 @@ def _map_blocks_or_direct_call(func, *args, **kwargs):
     return da.map_blocks(func, *args, **kwargs)
 
 
+def _chunk_alike(*arrays):
+    """Give all arrays the same chunks if any of them is chunked, as the correction is done block by block."""
+    chunks = next((arr.chunks for arr in arrays if da is not None and isinstance(arr, da.Array)), None)
+    if chunks is None:
+        return arrays
+    return tuple(None if arr is None else da.asanyarray(arr).rechunk(chunks) for arr in arrays)
+
+
 def _clip_angles_inside_coordinate_range(zenith_angle, zenith_secant_max):
     """Clipping solar- or satellite zenith angles to be inside the allowed coordinate range.
 
@@ -208,6 +216,7 @@ class Rayleigh(RayleighConfigBaseClass):
         # if the user gave us non-dask arrays we'll use the dask
         # version of the algorithm but return numpy arrays back
         compute = da is not None and not isinstance(sun_zenith, da.Array)
+        sun_zenith, sat_zenith, azidiff, redband = _chunk_alike(sun_zenith, sat_zenith, azidiff, redband)
 
         wvl, band_name = self._get_effective_wavelength_and_band_name(band_name_or_wavelength)
         repr_arr = sun_zenith if redband is None else redband
-- 
2.43.0


From 5eb993c9b2e74b84ee6392c6840956824af4d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:49 +0000
Subject: [PATCH 12/16] fix: remove temporary directories of the testing
 contexts when they are left

Until now they were removed when the garbage collector got to them, i.e. not
while an exception which left the context is still referred to.
---
 pyspectral/testing.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index 46c7fc1..b669a46 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -108,7 +108,7 @@ def mock_pyspectral_downloads(
         rsr_files_kwargs: Keyword arguments to pass to :func:`mock_rsr_files`.
 
     """
-    tmp_path_manager = None
+    tmp_path_manager: Any = nullcontext()
     if tmp_path is None:
         tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_")
         tmp_path = Path(tmp_path_manager.name)
@@ -128,14 +128,13 @@ def mock_pyspectral_downloads(
     rsr_files_kwargs = rsr_files_kwargs or {}
 
     with (
+        tmp_path_manager,
         override_config(config_options=config_options),
         mock_rayleigh_luts(rayleigh_dir=rayleigh_dir),
         init_tb_cache(tb2rad_dir),
         mock_rsr_files(rsr_dir, **rsr_files_kwargs),
     ):
         yield
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
 
 
 @contextlib.contextmanager
@@ -152,7 +151,7 @@ def mock_tb_conversion(
         rsr_files_kwargs: Keyword arguments to pass to :func:`mock_rsr_files`.
 
     """
-    tmp_path_manager = None
+    tmp_path_manager: Any = nullcontext()
     if tb2rad_dir is None:
         tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_")
         tb2rad_dir = Path(tmp_path_manager.name)
@@ -169,12 +168,9 @@ def mock_tb_conversion(
         rsr_dir,
         **rsr_files_kwargs,
     )
-    with config_cm, rsr_files_cm as load_rsr:
+    with tmp_path_manager, config_cm, rsr_files_cm as load_rsr:
         yield load_rsr
 
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
-
 
 @contextlib.contextmanager
 def init_tb_cache(tb2rad_dir: Path) -> Iterator[None]:
@@ -227,7 +223,7 @@ def mock_rsr(
             ``central_wavelengths``.
 
     """
-    tmp_path_manager = None
+    tmp_path_manager: Any = nullcontext()
     if rsr_dir is None:
         tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_")
         rsr_dir = Path(tmp_path_manager.name)
@@ -243,10 +239,8 @@ def mock_rsr(
         side_effect=side_effect,
         return_value=return_value,
     )
-    with config_cm, rsr_files_cm as load_rsr:
+    with tmp_path_manager, config_cm, rsr_files_cm as load_rsr:
         yield load_rsr
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
 
 
 @contextlib.contextmanager
@@ -351,7 +345,7 @@ def mock_rayleigh(
         atmospheres: Atmospheres to create LUTs for. Defaults to all supported
             atmosphere types.
     """
-    tmp_path_manager = None
+    tmp_path_manager: Any = nullcontext()
     if rayleigh_dir is None:
         tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_")
         rayleigh_dir = Path(tmp_path_manager.name)
@@ -372,10 +366,8 @@ def mock_rayleigh(
         atmospheres=atmospheres,
     )
     rsr_files_cm = mock_rsr_files(rsr_dir)
-    with config_cm, luts_cm, rsr_files_cm:
+    with tmp_path_manager, config_cm, luts_cm, rsr_files_cm:
         yield
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
 
 
 @contextlib.contextmanager
-- 
2.43.0


From 46e0d723aaa6dad9b332e0685e3adffa53faaf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:57 +0000
Subject: [PATCH 13/16] fix: read raw responses by column name also with numpy
 >= 1.20

With unpack=True numpy returns a list of columns for structured data, which
can't be indexed with a name.
---
 rsr_convert_scripts/agri_rsr.py      | 2 +-
 rsr_convert_scripts/ami_reader.py    | 1 -
 rsr_convert_scripts/avhrr_rsr.py     | 1 -
 rsr_convert_scripts/cocts_rsr.py     | 1 -
 rsr_convert_scripts/ghi_rsr.py       | 2 +-
 rsr_convert_scripts/mersi2_rsr.py    | 1 -
 rsr_convert_scripts/mersirm_rsr.py   | 1 -
 rsr_convert_scripts/msu_gs_reader.py | 1 -
 rsr_convert_scripts/viirs_rsr.py     | 2 +-
 rsr_convert_scripts/virr_rsr.py      | 1 -
 10 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/rsr_convert_scripts/agri_rsr.py b/rsr_convert_scripts/agri_rsr.py
index ca5dcc7..a65b596 100644
--- a/rsr_convert_scripts/agri_rsr.py
+++ b/rsr_convert_scripts/agri_rsr.py
@@ -84,7 +84,7 @@ class AGRIRSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True, delimiter='\t',
+                             delimiter='\t',
                              names=['wavelength',
                                     'response'],
                              skip_header=1)
diff --git a/rsr_convert_scripts/ami_reader.py b/rsr_convert_scripts/ami_reader.py
index 8ed8e6b..7ad006c 100644
--- a/rsr_convert_scripts/ami_reader.py
+++ b/rsr_convert_scripts/ami_reader.py
@@ -58,7 +58,6 @@ class AmiRSR(InstrumentRSR):
     def _load(self, scale=10000.0):
         """Load the AMI RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavenumber',
                                     'response'],
                              skip_header=4)
diff --git a/rsr_convert_scripts/avhrr_rsr.py b/rsr_convert_scripts/avhrr_rsr.py
index 97f632d..573bf9c 100644
--- a/rsr_convert_scripts/avhrr_rsr.py
+++ b/rsr_convert_scripts/avhrr_rsr.py
@@ -52,7 +52,6 @@ class AvhrrRSR(InstrumentRSR):
     def _load(self, scale=1.0):
         """Load the AVHRR RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=1)
diff --git a/rsr_convert_scripts/cocts_rsr.py b/rsr_convert_scripts/cocts_rsr.py
index 40d854b..a676f88 100644
--- a/rsr_convert_scripts/cocts_rsr.py
+++ b/rsr_convert_scripts/cocts_rsr.py
@@ -50,7 +50,6 @@ class COCTS_RSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength', 'ch1', 'ch2', 'ch3', 'ch4', 'ch5', 'ch6', 'ch7', 'ch8'],
                              skip_header=0)
 
diff --git a/rsr_convert_scripts/ghi_rsr.py b/rsr_convert_scripts/ghi_rsr.py
index f48fa41..61963b4 100644
--- a/rsr_convert_scripts/ghi_rsr.py
+++ b/rsr_convert_scripts/ghi_rsr.py
@@ -59,7 +59,7 @@ class GHIRSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True, delimiter='\t',
+                             delimiter='\t',
                              names=['wavelength',
                                     'response'],
                              skip_header=1)
diff --git a/rsr_convert_scripts/mersi2_rsr.py b/rsr_convert_scripts/mersi2_rsr.py
index c58597b..45bce1a 100644
--- a/rsr_convert_scripts/mersi2_rsr.py
+++ b/rsr_convert_scripts/mersi2_rsr.py
@@ -51,7 +51,6 @@ class Mersi2RSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=0)
diff --git a/rsr_convert_scripts/mersirm_rsr.py b/rsr_convert_scripts/mersirm_rsr.py
index ff409b9..7bc7416 100644
--- a/rsr_convert_scripts/mersirm_rsr.py
+++ b/rsr_convert_scripts/mersirm_rsr.py
@@ -43,7 +43,6 @@ class MersiRMRSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=1)
diff --git a/rsr_convert_scripts/msu_gs_reader.py b/rsr_convert_scripts/msu_gs_reader.py
index 21adc35..f4f4ef0 100644
--- a/rsr_convert_scripts/msu_gs_reader.py
+++ b/rsr_convert_scripts/msu_gs_reader.py
@@ -54,7 +54,6 @@ class MsugsRSR(InstrumentRSR):
     def _load(self, scale=10000.0):
         """Load the MSU-GS RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavenumber',
                                     'response'],
                              skip_header=4)
diff --git a/rsr_convert_scripts/viirs_rsr.py b/rsr_convert_scripts/viirs_rsr.py
index 9476572..603483d 100644
--- a/rsr_convert_scripts/viirs_rsr.py
+++ b/rsr_convert_scripts/viirs_rsr.py
@@ -131,7 +131,7 @@ class ViirsRSR(object):
                                  dtype=DTYPE1[self.platform_name])
         except ValueError:
             data = np.genfromtxt(self.filename,
-                                 unpack=True, skip_header=header_lines_to_skip,
+                                 skip_header=header_lines_to_skip,
                                  names=NAMES2[self.platform_name],
                                  dtype=DTYPE2[self.platform_name])
 
diff --git a/rsr_convert_scripts/virr_rsr.py b/rsr_convert_scripts/virr_rsr.py
index 5940660..4e7d7d6 100644
--- a/rsr_convert_scripts/virr_rsr.py
+++ b/rsr_convert_scripts/virr_rsr.py
@@ -49,7 +49,6 @@ class VirrRSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=0)
-- 
2.43.0


From 88a10541e0c16a3878e8f213b4c7d192b929557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:27 +0000
Subject: [PATCH 14/16] fix: name converted RSR files the way they are looked
 up

For instruments with a dash in their name (e.g. mersi-2) the converted file
could not be found when loading responses by platform and instrument name.
---
 pyspectral/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 9e8fce0..6a3dab9 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -305,7 +305,7 @@ def convert2hdf5(ClassIn, platform_name, bandnames, scale=1e-06, detectors=None)
     import h5py
 
     instruments = [ClassIn(bandnames[i], platform_name) for i in range(len(bandnames))]
-    instr_name = instruments[0].instrument.replace("/", "")
+    instr_name = instruments[0].instrument.replace("/", "").replace("-", "")
     filename = os.path.join(instruments[0].output_dir,
                             "rsr_{0}_{1}.h5".format(instr_name,
                                                     platform_name))
-- 
2.43.0


From 9b7d02beee0e151973efe8186245fff9602a4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:50 +0000
Subject: [PATCH 15/16] fix: do not install downloaded files through links that
 lead outside of the data directory

---
 pyspectral/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 6a3dab9..040f808 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -469,6 +469,8 @@ def _download_and_install(tarball_url: str, tarball_name: str, dest_dir: Path, v
         extracted_files = sorted(_iter_files(extract_dir), key=lambda path: path == extract_dir / version_filename)
         for path in extracted_files:
             final_path = dest_dir / path.relative_to(extract_dir)
+            if not final_path.parent.resolve().is_relative_to(dest_dir.resolve()):
+                raise OSError(f"Links in {dest_dir} lead outside of it, refusing to write {final_path}")
             final_path.parent.mkdir(parents=True, exist_ok=True)
             os.replace(path, final_path)
 
-- 
2.43.0


From 737bfab63d9b081e9b81109e344c4d04b54ca809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:27 +0000
Subject: [PATCH 16/16] fix: keep the data type of lazy limb-cooling
 corrections with angles of another type

---
 pyspectral/atm_correction_ir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspectral/atm_correction_ir.py b/pyspectral/atm_correction_ir.py
index c19df0e..e70dcc3 100644
--- a/pyspectral/atm_correction_ir.py
+++ b/pyspectral/atm_correction_ir.py
@@ -119,7 +119,8 @@ def viewzen_corr(data, view_zen):
         dask_data = da.where(view_zen == 0, data_tau0,
                              da.where((view_zen > 0) & (view_zen < 90),
                                       data_tau_delta, data))
-        return dask_data
+        # As for numpy types, the type of the angles doesn't change that of the data
+        return dask_data.astype(data_tau0.dtype)
     # expect numpy types otherwise
     y0, x0 = np.ma.where(view_zen == 0)
     data[y0, x0] += tau0(data[y0, x0])
-- 
2.43.0


From 5f0d3c4c26a823c8859c4fee2a1341808de73d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 01/63] fix: interpolate bathymetry without scipy's removed
 interp2d

---
 pyowc/calibration.py | 15 +++++----------
 pyowc/helper.py      | 34 +++++++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9aabe35..4ced7f6 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -9,7 +9,6 @@ import gsw
 import numpy as np
 
 from scipy.io import loadmat, savemat
-from scipy import interpolate
 
 from .core.stats import signal_variance, noise_variance, build_cov, fit_cond
 from .core.finders import find_besthist, find_25boxes, find_10thetas
@@ -17,7 +16,7 @@ from .data.wrangling import interp_climatology, map_data_grid
 from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locations, frontal_constraint_saf
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
-    check_and_make_numpy_arry, selected_historical_points
+    check_and_make_numpy_arry, selected_historical_points, topo_interpolator
 
 
 # pylint: disable=too-many-lines
@@ -174,12 +173,9 @@ def update_salinity_mapping(float_dir, config, float_name):
                                                          float_data['float_lat'] + 1,
                                                          config)
 
-            float_interp = interpolate.interp2d(float_x[0, :],
-                                                float_y[:, 0],
-                                                float_elev,
-                                                kind='linear')
+            float_interp = topo_interpolator(float_x[0, :], float_y[:, 0], float_elev)
 
-            float_data['float_z'] = -float_interp(float_long_tbase, float_data['float_lat'])[0]
+            float_data['float_z'] = -float_interp(float_long_tbase, float_data['float_lat'])
 
             # gather data from area surrounding the float location
             wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)
@@ -437,12 +433,11 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
 
-        grid_interp = interpolate.interp2d(x_grid[0, :], y_grid[:, 0],
-                                           elev, kind='linear')
+        grid_interp = topo_interpolator(x_grid[0, :], y_grid[:, 0], elev)
 
         z_grid = []
         for i in range(long_1[0].__len__()):
-            z_grid.append(grid_interp(long_1[0][i], lat[0][i]))
+            z_grid.append([grid_interp(long_1[0][i], lat[0][i])])
 
         z_grid = -np.array(z_grid)
         coord_float = np.column_stack((long.T, lat.T, z_grid))
diff --git a/pyowc/helper.py b/pyowc/helper.py
index 9672e85..854e5d1 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -5,7 +5,7 @@ from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 from scipy.io import loadmat
 
 from .data.fetchers import get_topo_grid
@@ -179,6 +179,28 @@ def process_profiles_la_variables(data, float_level_count, profile_index):
     return data
 
 
+def topo_interpolator(grid_long, grid_lat, grid_elev):
+    """ Bilinear interpolation of gridded elevation
+
+        Replaces scipy's interp2d(kind='linear'), which is no longer available
+
+    Parameters
+    ----------
+    grid_long : 1-D array of longitudes of the grid, ascending
+    grid_lat : 1-D array of latitudes of the grid, in either order
+    grid_elev : elevation at each (latitude, longitude)
+
+    Returns
+    -------
+    function giving the elevation at each pair of longitude and latitude
+
+    """
+    order = np.argsort(grid_lat)
+    spline = RectBivariateSpline(grid_lat[order], grid_long, grid_elev[order, :], kx=1, ky=1)
+
+    return lambda long, lat: spline.ev(lat, long)
+
+
 def process_profiles_grid_variables(grid_data, config):
     """
 
@@ -205,14 +227,12 @@ def process_profiles_grid_variables(grid_data, config):
                                               np.amax(grid_data['grid_lat']) + 1,
                                               config)
 
-    grid_interp = interp2d(grid_x[0], grid_y[:, 0],
-                           grid_elev, kind='linear')
+    grid_interp = topo_interpolator(grid_x[0], grid_y[:, 0], grid_elev)
 
-    # As a note, the reason we vectorise the function here is because we do not
-    # want to compare every longitudinal value to ever latitude. Rather, we simply
-    # want to interpolate each pair of longitudes and latitudes.
+    # As a note, we do not want to compare every longitudinal value to ever latitude.
+    # Rather, we simply want to interpolate each pair of longitudes and latitudes.
 
-    grid_z = -1 * np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat'])
+    grid_z = -1 * grid_interp(grid_long_tbase, grid_data['grid_lat'])
 
     grid_data['grid_z'] = grid_z
     grid_data['grid_x'] = grid_x
-- 
2.43.0


From 545623f10ebec7bbd4ee479e3e58f41a5e03b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 02/63] fix: interpolate salinity on theta levels with a scalar
 neighbour index

An index array made the interpolation input ragged, which numpy >= 1.24 rejects.
---
 pyowc/core/finders.py | 4 ++--
 pyowc/plot/plots.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 1e67149..dd0e072 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -639,7 +639,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -649,7 +649,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 7f9d62b..648c80c 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -451,7 +451,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -461,7 +461,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
-- 
2.43.0


From 04f2f999227732b3adc2c159b45b52fc9e9e5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 03/63] fix: extend an existing mapped file with new profiles

The reloaded per-profile settings were arrays, so appending a new profile raised,
a file written before the SAF option was refused, and small integer profile numbers
could wrap around.
---
 pyowc/helper.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 854e5d1..09abfad 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -34,25 +34,25 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
             float_mapped_data['la_map_sal_errors'] = float_mapped_data['la_mapsalerrors']
             float_mapped_data.pop('la_mapsalerrors')
 
-        # flatten the data
-        float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten()
-        float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten()
-        float_mapped_data["scale_lat_large"] = float_mapped_data['scale_lat_large'].flatten()
-        float_mapped_data["scale_long_small"] = float_mapped_data['scale_long_small'].flatten()
-        float_mapped_data["scale_lat_small"] = float_mapped_data['scale_lat_small'].flatten()
-        float_mapped_data["scale_phi_large"] = float_mapped_data['scale_phi_large'].flatten()
-        float_mapped_data["scale_phi_small"] = float_mapped_data['scale_phi_small'].flatten()
-        float_mapped_data["scale_age_large"] = float_mapped_data['scale_age_large'].flatten()
-        float_mapped_data["scale_age_small"] = float_mapped_data['scale_age_small'].flatten()
-        float_mapped_data["use_pv"] = float_mapped_data['use_pv'].flatten()
-        float_mapped_data["use_saf"] = float_mapped_data['use_saf'].flatten()
-        float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten()
-        float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten()
-
         # Check to see if this is an older version run without the saf constraint
         if not "use_saf" in float_mapped_data:
             float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
 
+        # flatten the data
+        float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten().astype(float)
+        float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten().tolist()
+        float_mapped_data["scale_lat_large"] = float_mapped_data['scale_lat_large'].flatten().tolist()
+        float_mapped_data["scale_long_small"] = float_mapped_data['scale_long_small'].flatten().tolist()
+        float_mapped_data["scale_lat_small"] = float_mapped_data['scale_lat_small'].flatten().tolist()
+        float_mapped_data["scale_phi_large"] = float_mapped_data['scale_phi_large'].flatten().tolist()
+        float_mapped_data["scale_phi_small"] = float_mapped_data['scale_phi_small'].flatten().tolist()
+        float_mapped_data["scale_age_large"] = float_mapped_data['scale_age_large'].flatten().tolist()
+        float_mapped_data["scale_age_small"] = float_mapped_data['scale_age_small'].flatten().tolist()
+        float_mapped_data["use_pv"] = float_mapped_data['use_pv'].flatten().tolist()
+        float_mapped_data["use_saf"] = float_mapped_data['use_saf'].flatten().tolist()
+        float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten().tolist()
+        float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten().tolist()
+
         # Get mapped data shape
         float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]
         max_depth = float_mapped_data["la_mapped_sal"].shape[0]
-- 
2.43.0


From eafbb59f59e65942f71539eec7c6662ac7e9be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 04/63] fix: sort the mapped columns by profile number once

Sorting the matrices twice left their columns in another order than the profile
numbers whenever the profiles were not mapped in ascending order.
---
 pyowc/calibration.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 4ced7f6..9de8edc 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -340,9 +340,6 @@ def update_salinity_mapping(float_dir, config, float_name):
     sorted_profile_index = data['la_profile_no'].argsort()
 
     # finalise the data sorted by profile number, make data type numpy arrays
-    data = sort_numpy_array(data, sorted_profile_index, ['la_ptmp', 'la_mapped_sal',
-                                                         'la_map_sal_errors', 'la_noise_sal',
-                                                         'la_signal_sal'])
     # check is numpy array
     data = check_and_make_numpy_arry(data)
 
-- 
2.43.0


From 73627f5a6d1ea9d51862ee89085c74ea6c64749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 05/63] fix: save the mapped file when no historical point was
 selected

---
 pyowc/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9de8edc..9283d6a 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -345,6 +345,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
     # remove problem element from dic before genral sort
     selected_hist = data.pop('selected_hist')
+    selected_hist_1 = selected_hist
 
     if len(selected_hist) > 0:
         selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))
-- 
2.43.0


From 5fbc8321b00b8596af466777d9a65eeb41cbe628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 06/63] fix: save and plot the mapped file at the place where
 it is read

The mapping step looked for earlier results, and the fit for its input, below the
float directory, but results were saved and plotted from its parent.
---
 pyowc/calibration.py    | 2 +-
 pyowc/plot/dashboard.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9283d6a..1bead72 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -356,7 +356,7 @@ def update_salinity_mapping(float_dir, config, float_name):
     data['selected_hist'] = selected_hist_1
 
     # define the saving location
-    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
 
     # save the data
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 3dadf17..f0d2143 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -27,7 +27,7 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
         Nothing, but will save the plots as PDFs
     """
 
-    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
-- 
2.43.0


From 6f1731260729da203c99c3cc1799d98153036b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 07/63] fix: extend an existing calseries file with new
 profiles

Adding a profile raised, and the flag of a profile without data was set at its
position in the source instead of at its profile number.
---
 pyowc/configuration.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 474fc36..c2ce0e5 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -230,9 +230,14 @@ def set_calseries(float_dir, float_name, system_config):
     # Add the missing profiles to the data set
     for i in range(missing_profiles_index.__len__()):
         missing = missing_profiles_index[i]
-        calib_profile_no.append(profile_no[missing])
         # set flag as the same as previous entry
-        calseries = np.append(calseries, calseries(max(missing - 1, 1)))
+        previous = np.argwhere(calib_profile_no < profile_no[missing]).flatten()
+        if previous.__len__() > 0:
+            previous = previous[np.argmax(calib_profile_no[previous])]
+        else:
+            previous = np.argmin(calib_profile_no)
+        calseries = np.append(calseries, calseries[previous])
+        calib_profile_no = np.append(calib_profile_no, profile_no[missing])
 
     # sort the calseries file by profile number
 
@@ -255,7 +260,7 @@ def set_calseries(float_dir, float_name, system_config):
         if sal_nan.__len__() == 0 or \
                 temp_nan.__len__() == 0 or \
                 pres_nan.__len__() == 0:
-            calseries[i] = 0
+            calseries[calib_profile_no == profile_no[i]] = 0
 
     savemat(calseries_filename, {'breaks': breaks,
                                  'max_breaks': max_breaks,
-- 
2.43.0


From 94e48cb80c60870e00f71af24daadc17ec327fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 08/63] fix: accept a calseries file without use_percent_gt

---
 pyowc/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index c2ce0e5..cb2680e 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -176,7 +176,7 @@ def set_calseries(float_dir, float_name, system_config):
         try:
             use_percent_gt = calseries_data['use_percent_gt']
 
-        except NameError:
+        except KeyError:
             use_percent_gt = 0.5
 
         print("Using parameters found in ", calseries_filename,
-- 
2.43.0


From 946db5786b7e38dc66947198d161731317f9c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 09/63] fix: remove a range bound given as a row of several
 values

A loaded bound is a matrix, whose length is its number of rows.
---
 pyowc/configuration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index cb2680e..f829029 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -202,19 +202,19 @@ def set_calseries(float_dir, float_name, system_config):
 
     # ensure values are in a realistic range
 
-    if use_theta_lt.__len__() > 1:
+    if np.size(use_theta_lt) > 1:
         print("More than one potential temperature boundary used, removing boundary...")
         use_theta_lt = []
 
-    if use_theta_gt.__len__() > 1:
+    if np.size(use_theta_gt) > 1:
         print("More than one potential temperature boundary used, removing boundary...")
         use_theta_gt = []
 
-    if use_pres_lt.__len__() > 1:
+    if np.size(use_pres_lt) > 1:
         print("More than one pressure boundary used, removing boundary...")
         use_pres_lt = []
 
-    if use_pres_gt.__len__() > 1:
+    if np.size(use_pres_gt) > 1:
         print("More than one pressure boundary used, removing boundary...")
         use_pres_gt = []
 
-- 
2.43.0


From a9198e6d35c54bba94d923bda7b2957eff747e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 10/63] fix: read calibration files with the postfix they are
 written with

---
 pyowc/calibration.py    | 2 +-
 pyowc/plot/dashboard.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 1bead72..38b16b6 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -443,7 +443,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
                                              system_config['FLOAT_CALSERIES_PREFIX'] + float_name +
-                                             system_config['FLOAT_MAPPED_POSTFIX']])
+                                             system_config['FLOAT_CALIB_POSTFIX']])
     float_calseries = loadmat(float_calseries_path)
 
     calseries = float_calseries['calseries']
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index f0d2143..9d89e9d 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -32,9 +32,9 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
     cal_data_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
     cal_series_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
 
     grid_data = loadmat(grid_data_loc)
     float_data = loadmat(float_data_loc)
-- 
2.43.0


From 556d1982888e0dd4906a633f5e3c1d0fdfb5b5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 11/63] fix: read hours and minutes of dates given as floats

A date of 8 or 10 digits read from a file as a float ends in '.0', which was
taken for its hour or minute and made the date invalid.
---
 pyowc/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index cf10c7b..25a9fa2 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -187,7 +187,8 @@ def change_dates(cal_dates):
     dec_dates = np.full(cal_dates.__len__(), 0, dtype=float)
 
     # cannot iterate through integers, so convert calendar dates into array of strings
-    cal_dates_string = list(map(str, cal_dates))
+    # (dates read from files are floats, leave out their decimal part)
+    cal_dates_string = [str(cal_date).split('.', maxsplit=1)[0] for cal_date in cal_dates]
 
     # go through and decimalise dates
     for i in range(0, cal_dates_string.__len__()):
-- 
2.43.0


From d7e0682ed9507befff0651017c7a787d60852a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 12/63] fix: read historical files with a single cast or a
 single level

read_mat removes dimensions of size 1; such files were silently skipped, and
the branch meant for them changed the cached contents of other files.
---
 pyowc/data/fetchers.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index dc8e8a8..f5d72da 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -19,19 +19,42 @@ from ..utilities import wrap_longitude, change_dates
 from ..configuration import print_cfg
 
 
+def _read_casts(filepath):
+    """Read a historical .mat file as vectors of casts and matrices of levels x casts.
+
+    read_mat removes the dimensions of size 1, so the matrices of a file with a single cast
+    or a single level need to be given their shape again.
+    """
+    data = read_mat(filepath)
+
+    for name in ('lat', 'long', 'dates'):
+        data[name] = np.asarray(data[name]).flatten()
+
+    no_casts = data['lat'].size
+
+    for name in ('pres', 'sal', 'ptmp', 'temp'):
+        if name in data and np.ndim(data[name]) < 2:
+            data[name] = np.asarray(data[name]).reshape((-1, no_casts))
+
+    if isinstance(data.get('source'), str):
+        data['source'] = [data['source']]
+
+    return data
+
+
 @lru_cache()
 def read_mat_ctd(filepath):
     """Cache the result of reading a ctd .mat file from disk."""
-    return read_mat(filepath)
+    return _read_casts(filepath)
 
 
 @lru_cache()
 def read_mat_bottle(filepath):
     """Load and transform a bottle .mat file."""
-    data = read_mat(filepath)
+    data = _read_casts(filepath)
 
     # if data dimensions don't match, transpose to avoid indexing issues
-    if (data['lat'].size == data['pres'].size and data['lat'].shape[1] == data['pres'].shape[1]):
+    if data['pres'].shape[1] != data['lat'].size == data['pres'].shape[0]:
         data['pres'] = data['pres'].T
         data['ptmp'] = data['ptmp'].T
         data['sal'] = data['sal'].T
@@ -43,7 +66,7 @@ def read_mat_bottle(filepath):
 @lru_cache()
 def read_mat_argo(filepath, pa_float_name):
     """Load and transform an Argo .mat file."""
-    data = read_mat(filepath)
+    data = _read_casts(filepath)
     # remove the argo float being analysed from the data
     not_use = []
     for i in range(0, data['lat'].__len__()):
@@ -331,15 +354,6 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
                 data = get_data(wmo_box, data_type, config, pa_float_name)
 
                 if data:
-                    # Sometimes the data comes in wrapped in as a 3d array, so convert to 2d
-                    if data['pres'].__len__() == 1:
-                        data['pres'] = data['pres'][0]
-                        data['sal'] = data['sal'][0]
-                        data['ptmp'] = data['ptmp'][0]
-                        data['lat'] = data['lat'][0].reshape(-1, 1)
-                        data['long'] = data['long'][0].reshape(-1, 1)
-                        data['dates'] = data['dates'][0].reshape(-1, 1)
-
                     #  check the index of each station to see if it should be loaded
                     data_length = data['lat'].__len__()
                     data_indices = np.arange(0, data_length) + starting_index
-- 
2.43.0


From 666983ac7313b73ead3446852780eaefd4c1c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 13/63] fix: leave out only the Argo casts of the float itself

A float number that is part of a longer one (5-digit numbers) also removed
the casts of the other float.
---
 pyowc/data/fetchers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index f5d72da..0c8eac2 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -10,6 +10,7 @@
 from functools import lru_cache
 import warnings
 import os
+import re
 import struct
 import numpy as np
 from scipy.io import loadmat
@@ -68,9 +69,11 @@ def read_mat_argo(filepath, pa_float_name):
     """Load and transform an Argo .mat file."""
     data = _read_casts(filepath)
     # remove the argo float being analysed from the data
+    # (its number may be part of the longer number of another float)
+    float_number = re.compile(r'(?<!\d)' + re.escape(pa_float_name) + r'(?!\d)')
     not_use = []
     for i in range(0, data['lat'].__len__()):
-        if str(data['source'][i]).find(pa_float_name) != -1:
+        if float_number.search(str(data['source'][i])):
             not_use.append(i)
 
     data['lat'] = np.array(np.delete(data['lat'], not_use))
-- 
2.43.0


From 76b4b61190a728f8215838a4ce215e655646f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 14/63] fix: keep the casts that follow a cast without levels

When the first selected cast had no level within the depth limit, the other
selected casts of its file could not be added and were silently lost.
---
 pyowc/data/fetchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 0c8eac2..dd34fb4 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -389,7 +389,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                             # if the new data we are adding is longer than our columns, we need to
                             # fill in NaNs in the other columns
-                            if new_depth > max_depth != 0:
+                            if new_depth > max_depth and how_many_cols != 0:
                                 grid_pres = np.append(grid_pres, np.ones(
                                     (how_many_cols, new_depth - max_depth)) * np.nan, axis=1
                                                       ).reshape((how_many_cols, how_many_rows))
-- 
2.43.0


From 7bdc50703437e1a1a94119621c7a7849a22a252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 15/63] fix: map a profile whose only pressure is at its first
 level

argwhere(...).any() is false when the only index found is 0.
---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 38b16b6..2c5e645 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -158,7 +158,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
         # if we have any good location data and pressure data from the float
         if not np.isnan(float_data['float_long']) and not np.isnan(float_data['float_lat']) \
-                and np.argwhere(np.isnan(float_data['float_pres']) == 0).any():
+                and not np.isnan(float_data['float_pres']).all():
 
             # tbase.int file requires longitudes from 0 to +/-180
             float_long_tbase = copy.deepcopy(float_data['float_long'])
-- 
2.43.0


From 189e2dd42bd9d0ee18f92db9ba60fdf21f22f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 16/63] fix: shift the float longitude when the casts lie west
 of Greenwich only

With casts at 320 to 360 and none beyond 360, a float between 0 and 20 was
compared with them at its unshifted longitude, a full turn away.
---
 pyowc/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 2c5e645..094f58d 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -194,7 +194,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
                 # make sure that the grid and float longitudes match at the 0-360 mark
                 float_long_0 = float_data['float_long']
-                if np.argwhere(grid_long > 360).__len__() > 0:
+                if np.argwhere(grid_long >= 320).__len__() > 0:
                     if 0 <= float_data['float_long'] <= 20:
                         float_long_0 += 360
 
@@ -222,7 +222,7 @@ def update_salinity_mapping(float_dir, config, float_name):
                         best_hist_data.update(best_hist_data_2)
 
                 # make the float longitude wrap around the 0-360 mark if the historical data has
-                if np.argwhere(best_hist_data['grid_long'] > 360).__len__() > 0:
+                if np.argwhere(best_hist_data['grid_long'] >= 320).__len__() > 0:
                     if 0 <= float_data['float_long'] <= 20:
                         float_data['float_long'] += 360
 
-- 
2.43.0


From f141cac5b6d3b16dd1d35984c19f87e626b029b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 17/63] fix: give the selected casts their own ocean depths

The depths were taken in the order of the selection, but the casts come in the
order of the files and those without valid levels are left out.
---
 pyowc/calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 094f58d..b8111bb 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -209,7 +209,9 @@ def update_salinity_mapping(float_dir, config, float_name):
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
 
-                best_hist_data['grid_z'] = grid_data['grid_z'][index]
+                # the casts come in the order of the files and without those that have no levels,
+                # so index does not tell their depths
+                best_hist_data['grid_z'] = process_profiles_grid_variables(dict(best_hist_data), config)['grid_z']
 
                 # If we are near the Subantarctic Front we need to figure out if
                 # the profile is north or south of it. Then we should remove data not on
-- 
2.43.0


From 5857c353863f9caee2571f9f349f764c3ba44c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 18/63] fix: leave a profile unmapped when no cast is close
 enough

An empty selection, or one of casts without valid levels, stopped the run with
an error and lost the mapping of all profiles.
---
 pyowc/calibration.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index b8111bb..94c5b66 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -205,10 +205,22 @@ def update_salinity_mapping(float_dir, config, float_name):
                                       phi_large, phi_small, map_age_large, map_age_small,
                                       map_use_pv, max_casts)
 
+                # this profile cannot be mapped if no cast is close enough
+                if index.size == 0:
+                    print("No historical cast close to profile ", profile_no[missing_profile])
+                    profile_index += 1
+                    continue
+
                 # Now that we have the indices of the best spatial and temporal data
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
 
+                # nor if none of the casts has valid levels
+                if best_hist_data['grid_lat'].size == 0:
+                    print("No historical data close to profile ", profile_no[missing_profile])
+                    profile_index += 1
+                    continue
+
                 # the casts come in the order of the files and without those that have no levels,
                 # so index does not tell their depths
                 best_hist_data['grid_z'] = process_profiles_grid_variables(dict(best_hist_data), config)['grid_z']
-- 
2.43.0


From 329375eae373c8cb39058517fa685bef62bac31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 19/63] fix: interpolate climatology that has no or flat levels
 around a float level

Casts of one level, no cast at all, or two consecutive levels of exactly the
float's temperature stopped the mapping with an error.
---
 pyowc/data/wrangling.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyowc/data/wrangling.py b/pyowc/data/wrangling.py
index f8daee4..9b7efdd 100644
--- a/pyowc/data/wrangling.py
+++ b/pyowc/data/wrangling.py
@@ -137,6 +137,14 @@ def interp_climatology(grid_sal, grid_theta, grid_pres, float_sal, float_theta,
         # calculate the weighting factor for all interpolants
         interp_factor, sign_changes = calculate_interpolation_weights(float_theta[index], grid_theta, grid_theta_diff)
 
+        # there is nothing to interpolate between consecutive levels of equal temperature
+        can_interp = np.isfinite(interp_factor)
+        interp_factor = interp_factor[can_interp]
+        sign_changes = tuple(location[can_interp] for location in sign_changes)
+
+        if not can_interp.any():
+            continue
+
         # interpolate values of pres
         output_placeholder[sign_changes] = interpolate_values(interp_factor, sign_changes, grid_pres, grid_pres_diff)
 
@@ -208,7 +216,7 @@ def _get_cleaned_grid_data(grid_stations, grid_sal_in, grid_theta_in, grid_pres_
 
     # find the max number of levels from all stations
     column_counts = np.count_nonzero(grid_good_data, axis=0)
-    max_level = np.max(column_counts)
+    max_level = np.max(column_counts, initial=0)
 
     for station_id in range(grid_stations):
         good_values = column_counts[station_id]
-- 
2.43.0


From c4f2edfbe523b026657efd1e9bdd60516f007a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 20/63] fix: bring in no WMO box twice near the poles

Rows of boxes beyond a pole were replaced by the row at the pole, so its casts
were loaded and used two or three times. They are empty, as in Matlab.
---
 pyowc/core/finders.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index dd0e072..009b181 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -385,6 +385,9 @@ def find_25boxes(pn_float_long, pn_float_lat, pa_wmo_boxes):
     ).reshape(37, 18)
     la_lookup_no = np.insert(la_lookup_no, 666, la_lookup_no[1]).reshape(38, 18).transpose()
 
+    # the box at the pole also contains the pole itself
+    pn_float_lat = np.minimum(pn_float_lat, 89.98)
+
     # Set up longitudinal and latitudinal values
     ln_x = []
     ln_y = []
@@ -419,6 +422,11 @@ def find_25boxes(pn_float_long, pn_float_lat, pa_wmo_boxes):
     if not np.isnan(pn_float_long) and not np.isnan(pn_float_lat):
         ln_i = []
         for i in range(0, 5):
+            # there are no boxes beyond the poles
+            if np.abs(ln_y[i]) > 90:
+                ln_i.extend([np.nan] * 5)
+                continue
+
             for j in range(0, 5):
                 ln_i.append(
                     nearest_neighbour(la_lookup_x, la_lookup_y, la_lookup_no, ln_x[j], ln_y[i])
-- 
2.43.0


From 2217be430dcd5f24bb57e39d226d03e9c176d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 21/63] fix: find no theta levels when there are none to choose
 from

Without usable levels, or with a pressure range of less than 10 dbar, the
search stopped with an error.
---
 pyowc/core/finders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 009b181..eea4bd5 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -487,6 +487,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
     p_levels = np.empty((no_levels, 1)) * np.nan
     var_sal_theta = []
     theta_levels = []
+    pres_levels = np.array([])
 
     # exclude unmapped, mixed layer
     unmapped = np.argwhere(np.isnan(la_ptmp))
@@ -574,7 +575,8 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
         # check we can get 10 theta levels. If not, alter pressure increment
         if pres_levels.__len__() < no_levels:
             increment = np.floor((max_pres - min_pres) / no_levels)
-            pres_levels = np.arange(min_pres, max_pres, increment)
+            if increment > 0:
+                pres_levels = np.arange(min_pres, max_pres, increment)
 
     # interpolate levels onto pressure increments
 
-- 
2.43.0


From 4fc2068109e50c540e496fcf5f95fd5b332aaa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 22/63] fix: leave the arrays given to find_10thetas and
 wrap_longitude unchanged

---
 pyowc/core/finders.py | 3 +++
 pyowc/utilities.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index eea4bd5..15d8a43 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -474,6 +474,9 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
         Theta levels where salinity varies the least
     """
 
+    # leave the arrays of the caller as they are
+    sal, ptmp, pres = sal.copy(), ptmp.copy(), pres.copy()
+
     # We only want 10 theta levels
     no_levels = 10
 
diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index 25a9fa2..14069e7 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -96,6 +96,9 @@ def wrap_longitude(grid_long):
         array of longitude values that can extend past 360
     """
 
+    # leave the array of the caller as it is
+    grid_long = grid_long.copy()
+
     neg_long = np.argwhere(grid_long < 0)
     grid_long[neg_long] = grid_long[neg_long] + 360
 
-- 
2.43.0


From de49e793909d5f1500e2fb07c03eada61dfcb349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 23/63] fix: read a historical file again when it was replaced

Within one process a new version of a file was never seen, so the result of a
mapping depended on what the process had handled before.
---
 pyowc/data/fetchers.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index dd34fb4..596613e 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -43,14 +43,21 @@ def _read_casts(filepath):
     return data
 
 
+def _file_version(filepath):
+    """Identify the contents of a file, so that a replaced file is not taken from the cache."""
+    status = os.stat(filepath)
+
+    return status.st_mtime_ns, status.st_size
+
+
 @lru_cache()
-def read_mat_ctd(filepath):
+def read_mat_ctd(filepath, file_version):  # pylint: disable=unused-argument
     """Cache the result of reading a ctd .mat file from disk."""
     return _read_casts(filepath)
 
 
 @lru_cache()
-def read_mat_bottle(filepath):
+def read_mat_bottle(filepath, file_version):  # pylint: disable=unused-argument
     """Load and transform a bottle .mat file."""
     data = _read_casts(filepath)
 
@@ -65,7 +72,7 @@ def read_mat_bottle(filepath):
 
 
 @lru_cache()
-def read_mat_argo(filepath, pa_float_name):
+def read_mat_argo(filepath, file_version, pa_float_name):  # pylint: disable=unused-argument
     """Load and transform an Argo .mat file."""
     data = _read_casts(filepath)
     # remove the argo float being analysed from the data
@@ -217,19 +224,18 @@ def get_data(wmo_box, data_type, config, pa_float_name):
     box_name = str(int(wmo_box[0]))
     # check if we should use this data. If so, get the data
     if wmo_box[data_type] == 1 and data_type == 1:
-        data = read_mat_ctd(
-            os.path.sep.join([config['HISTORICAL_DIRECTORY'], config['HISTORICAL_CTD_PREFIX'] + box_name + '.mat'])
-        )
+        filepath = os.path.sep.join(
+            [config['HISTORICAL_DIRECTORY'], config['HISTORICAL_CTD_PREFIX'] + box_name + '.mat'])
+        data = read_mat_ctd(filepath, _file_version(filepath))
     if wmo_box[data_type] == 1 and data_type == 2:
-        data = read_mat_bottle(
-            os.path.sep.join([config['HISTORICAL_DIRECTORY'], config['HISTORICAL_BOTTLE_PREFIX'] + box_name + '.mat'])
-        )
+        filepath = os.path.sep.join(
+            [config['HISTORICAL_DIRECTORY'], config['HISTORICAL_BOTTLE_PREFIX'] + box_name + '.mat'])
+        data = read_mat_bottle(filepath, _file_version(filepath))
 
     if wmo_box[data_type] == 1 and data_type == 3:
-        data = read_mat_argo(
-            os.path.sep.join([config['HISTORICAL_DIRECTORY'], config['HISTORICAL_ARGO_PREFIX'] + box_name + '.mat']),
-            pa_float_name,
-        )
+        filepath = os.path.sep.join(
+            [config['HISTORICAL_DIRECTORY'], config['HISTORICAL_ARGO_PREFIX'] + box_name + '.mat'])
+        data = read_mat_argo(filepath, _file_version(filepath), pa_float_name)
 
     return data
 
-- 
2.43.0


From a4cfaa51d9ae37c86ba6a2510f2dd935d9ae6c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 24/63] fix: estimate the error of a fit with found break
 points

The Monte Carlo loop stopped with an error (and grew its initial guess) as soon
as the best fit had a break point.
---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ac39a12..9fcb848 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -545,6 +545,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 # give an initial guess as the fitted break points to speed up calculation
                 nbr = real_breaks.__len__()
                 b_g = np.concatenate(([-1], real_breaks))
+                ubrk_g = []
 
                 for n in range(nbr):
                     ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))
@@ -555,7 +556,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate([xfit[0]], breaks)
+                btem = np.concatenate(([xfit[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
                 ixb = sorter(btem, xfit)
-- 
2.43.0


From f6fb3f66e4bdbe391e4757ab0e3810aa9a4bc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 25/63] fix: report the coefficients and breaks of the fit that
 was found

They were those of the last try of the search, which need not be its result.
---
 pyowc/core/stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 9fcb848..445b241 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -406,8 +406,8 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk_g = np.array(ubrk_g)
                 optim = least_squares(nlbpfun, ubrk_g,
                                       method='lm', ftol=tol, max_nfev=max_fun_evals)
-                ubrk = optim['x'][0]
-                residual = optim['fun']
+                # the last try of the search need not be its result
+                residual = nlbpfun(optim['x'])
 
             if breaks.__len__() > 0:
                 b_pts[0:nbr, nbr] = breaks.T
@@ -553,8 +553,8 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 optim = least_squares(nlbpfun, ubrk_g,
                                       method='lm', ftol=tol, max_nfev=max_fun_evals)
 
-                ubrk = optim['x'][0]
-                residual = optim['fun']
+                # the last try of the search need not be its result
+                residual = nlbpfun(optim['x'])
 
                 btem = np.concatenate(([xfit[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
-- 
2.43.0


From ab899334235530723b4b6e5053ddc252b499e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 26/63] fix: order observations, errors and covariance alike
 before the fit

The observations were left in their order while x was sorted, because the sort
index was taken from the sorted x; the covariance was never reordered.
---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 445b241..86e6103 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -178,10 +178,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
     # condition the series so that the fit is well behaved
     # sort by the independent variable
 
-    x = np.sort(x)
     sorted_index = np.argsort(x, kind='stable')
+    x = x[sorted_index]
     y = y[sorted_index]
     n_err = n_err[sorted_index]
+    lvcov = lvcov[np.ix_(sorted_index, sorted_index)]
 
     # scale x from -1 to 1
 
-- 
2.43.0


From 32d513fda828a3ae080e02c65a93c9f539013ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 27/63] fix: fit without a maximum number of breaks

The default and the case of prescribed breaks only were never reached.
---
 pyowc/core/stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 86e6103..0cf4149 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -282,6 +282,9 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 raise ValueError("Paramater " + param + " not found in parameter list") from None
 
     # intialise variable for search over number of break points
+    if isinstance(max_brk_in, list):
+        max_brk_in = nbr if setbreaks else max_brk_dflt
+
     max_brk_in = int(max_brk_in)
 
     if max_brk_in == -1:
-- 
2.43.0


From 68f66bfcc80393aca7440033516d48c4645b6d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 28/63] fix: compare fits when one of them is singular

The zero coefficients of a singular fit come as a column, which stopped the
fit of series with few profiles.
---
 pyowc/core/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 0cf4149..25f584e 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -309,7 +309,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
             nbr1 = nbr + 1
             A, residual = brk_pt_fit(xf, yf, w_i, breaks)
             b_pts[0:nbr, nbr + 1] = breaks.T
-            b_A[0:nbr + 2, nbr + 2] = A[0:nbr + 2]
+            b_A[0:nbr + 2, nbr + 2] = A.flatten()[0:nbr + 2]
             rss[0, nbr + 2] = np.sum(residual ** 2 / err_var)
             no_param = 2 * (nbr + 1)
             aic[0, nbr + 2] = ndf * np.log(rss[0, nbr + 2] / npts) + \
@@ -367,7 +367,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
         elif nbr == 0:
             # linear fit, no break points
             A, residual = brk_pt_fit(xf, yf, w_i)
-            b_A[0:2, 1] = A[0:2]
+            b_A[0:2, 1] = A.flatten()[0:2]
             rss[0, 1] = np.sum(residual ** 2 / err_var)
             aic[0, 1] = ndf * np.log(rss[0, 1] / npts) + ndf * (ndf + 2) / (ndf - 4)
 
@@ -419,7 +419,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
             else:
                 b_pts[0:nbr, nbr] = np.nan
 
-            b_A[0:nbr + 2, nbr + 1] = A[0:nbr + 2]
+            b_A[0:nbr + 2, nbr + 1] = A.flatten()[0:nbr + 2]
             rss[0, nbr + 1] = np.sum(residual ** 2 / err_var)
             p = 2 * (nbr + 1)
             aic[0, nbr + 1] = ndf * np.log(rss[0, nbr + 1] / npts) + ndf * (ndf + p) / (ndf - p - 2)
-- 
2.43.0


From 09b9a38c2fbcd24e7d958a3a90ff1f7ce664a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 29/63] fix: return missing values for each profile of a series
 without data

Single NaNs stopped calc_piecewisefit with an error.
---
 pyowc/core/stats.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 25f584e..041817f 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -162,12 +162,12 @@ def fit_cond(x, y, n_err, lvcov, *args):
     if npts == 0:
         print("Failed to find any good data")
 
-        condslope = np.nan
-        condslope_err = np.nan
-        time_deriv = np.nan
-        time_deriv_err = np.nan
-        sta_mean = np.nan
-        sta_rms = np.nan
+        condslope = np.ones(nfit) * np.nan
+        condslope_err = np.ones(nfit) * np.nan
+        time_deriv = np.ones((nfit, 1)) * np.nan
+        time_deriv_err = np.ones((nfit, 1)) * np.nan
+        sta_mean = np.ones((1, nfit)) * np.nan
+        sta_rms = np.ones((1, nfit)) * np.nan
         NDF = []
         fit_coef = []
         fit_breaks = []
-- 
2.43.0


From 7d4b38dc777c6770ed4608fa66dec37e87a189b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 30/63] fix: search break points in addition to prescribed ones

Prescribing fewer breaks than the maximum always stopped with an error. The
prescribed breaks stay, the others are searched, and the fit with only the
prescribed ones is one of the candidates.
---
 pyowc/core/stats.py | 46 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 041817f..cb98ba4 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -80,14 +80,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
         # TODO Address the use of globals in this file.
         global A, breaks, nbr1, ubrk_g, xf, yf, w_i, xblim  # pylint: disable=global-variable-not-assigned
 
-        if nbr1 > 1:
-            ubrk = ubrk_g[0:nbr1 - 1]
-            for i in range(nbr1, ubrk_g.__len__()):
-                ubrk.append(ubrk_i)
-
-        else:
-            ubrk = ubrk_i
-
+        ubrk = ubrk_i
         m_b = ubrk.__len__()
         fnumer = np.zeros(ubrk.shape)
         fnumer[0] = np.exp(ubrk[0])
@@ -99,7 +92,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
         ftem = (xblim[1] - xblim[0]) / fdenom
 
-        breaks = xblim[0] + ftem * fnumer
+        breaks = np.sort(np.concatenate((fixed_breaks, xblim[0] + ftem * fnumer)))
 
         if np.argwhere(np.diff(breaks) == 0).__len__() > 0:
             difference = np.argwhere(np.diff(breaks) == 0)
@@ -120,6 +113,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
     nbr1 = -1
     brk_init = [] # guesses for break point
     breaks = np.array([])
+    fixed_breaks = np.array([]) # break points that are not searched for
     setbreaks = 0
 
     nloops = 200  # number of loops to fit profile error
@@ -275,6 +269,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 if value.__len__() > 0:
                     breaks = value
                     breaks = (breaks - x_0) / x_scale
+                    fixed_breaks = breaks
                     nbr = breaks.__len__()
                     setbreaks = 1
 
@@ -308,11 +303,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
         elif max_brk_in > nbr:
             nbr1 = nbr + 1
             A, residual = brk_pt_fit(xf, yf, w_i, breaks)
-            b_pts[0:nbr, nbr + 1] = breaks.T
-            b_A[0:nbr + 2, nbr + 2] = A.flatten()[0:nbr + 2]
-            rss[0, nbr + 2] = np.sum(residual ** 2 / err_var)
+            b_pts[0:nbr, nbr] = breaks.T
+            b_A[0:nbr + 2, nbr + 1] = A.flatten()[0:nbr + 2]
+            rss[0, nbr + 1] = np.sum(residual ** 2 / err_var)
             no_param = 2 * (nbr + 1)
-            aic[0, nbr + 2] = ndf * np.log(rss[0, nbr + 2] / npts) + \
+            aic[0, nbr + 1] = ndf * np.log(rss[0, nbr + 1] / npts) + \
                               ndf * (ndf + no_param) / (ndf - no_param - 2)
 
         # we have the same number of specified breaks
@@ -383,28 +378,28 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
             # first guess for breaks as evenly distributed between 2nd and 2nd to last point
             else:
-                b_guess = -1 + 2 * np.arange(1, nbr + 1) / (nbr + 1)
+                n_free = nbr - fixed_breaks.__len__()
+                b_guess = -1 + 2 * np.arange(1, n_free + 1) / (n_free + 1)
 
             b_g = np.concatenate(([-1], b_guess))
             ubrk_g = []
 
             nbr = int(nbr)
-            for n in range(nbr):
-                ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))
+            for n in range(b_guess.__len__()):
+                ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[-1])))
 
             if setbreaks != 0:
                 # break points are already set
-                if nbr1 == max_brk:
+                if nbr == fixed_breaks.__len__():
                     A, residual = brk_pt_fit(xf, yf, w_i, breaks)
 
                 # fit over limited number of breaks
                 else:
-                    optim = least_squares(nlbpfun, ubrk_g[nbr1:nbr],
+                    optim = least_squares(nlbpfun, ubrk_g,
                                           method='lm', ftol=tol, max_nfev=max_fun_evals)
-                    ubrk = optim['x'][0]
-                    residual = optim['fun']
+                    # the last try of the search need not be its result
+                    residual = nlbpfun(optim['x'])
 
-                    ubrk = np.concatenate((ubrk_g[0:nbr1 - 1], ubrk))
             # get non-linear least squares for break points
             else:
                 ubrk_g = np.array(ubrk_g)
@@ -424,13 +419,14 @@ def fit_cond(x, y, n_err, lvcov, *args):
             p = 2 * (nbr + 1)
             aic[0, nbr + 1] = ndf * np.log(rss[0, nbr + 1] / npts) + ndf * (ndf + p) / (ndf - p - 2)
 
-    if setbreaks and nbr1 == max_brk:
+    if setbreaks and max_brk == fixed_breaks.__len__():
         best = pbrk + 2
 
     # decide which fit to use (offset, linear, piecewise)
     else:
-        if nbr1 > 1:
-            pbrk = np.arange((nbr1 - 1), max_brk)
+        # the fit with only the fixed break points is one of the candidates
+        if setbreaks:
+            pbrk = np.concatenate(([nbr1 - 1], pbrk))
 
         good = np.array(pbrk + 1, dtype=int)
         best = np.argmin(aic[0, good])
@@ -440,7 +436,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
         else:
             best = good + 1
 
-    if setbreaks & nbr1 == max_brk:
+    if setbreaks and max_brk == fixed_breaks.__len__():
         comment = "Fit evaluated "
 
     else:
-- 
2.43.0


From 14cebed87727e3d7f1e2797b487cc4af07ba2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 31/63] fix: calibrate each profile with its own mapping and
 series number

Mapped profiles and series numbers are stored in the order of the profile
numbers but were used at the position of the profile in the source.
---
 pyowc/calibration.py | 15 +++++++++++++--
 pyowc/helper.py      | 25 +++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 94c5b66..f064380 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -16,7 +16,8 @@ from .data.wrangling import interp_climatology, map_data_grid
 from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locations, frontal_constraint_saf
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
-    check_and_make_numpy_arry, selected_historical_points, topo_interpolator
+    check_and_make_numpy_arry, selected_historical_points, topo_interpolator, \
+    columns_of_profiles
 
 
 # pylint: disable=too-many-lines
@@ -428,6 +429,12 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     mapped_ptmp = float_mapped_data['la_ptmp']
     selected_hist = float_mapped_data['selected_hist']
 
+    # mapped profiles are in the order of their numbers, those of the source need not be
+    mapped_no = float_mapped_data['la_profile_no']
+    mapped_sal = columns_of_profiles(mapped_sal, mapped_no, profile_no)
+    mapsalerror = columns_of_profiles(mapsalerror, mapped_no, profile_no)
+    mapped_ptmp = columns_of_profiles(mapped_ptmp, mapped_no, profile_no)
+
     # retrieve XYZ of float position used to build covariance
     if selected_hist.__len__() > 0:
         if long.shape[0] > 1:
@@ -460,7 +467,9 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                              system_config['FLOAT_CALIB_POSTFIX']])
     float_calseries = loadmat(float_calseries_path)
 
-    calseries = float_calseries['calseries']
+    # so are the series numbers, a profile without one is not calibrated
+    calseries = columns_of_profiles(float_calseries['calseries'], float_calseries['calib_profile_no'],
+                                    profile_no, missing=0)
     max_breaks = float_calseries['max_breaks']
     breaks = float_calseries['breaks']
     use_theta_gt = float_calseries['use_theta_gt']
@@ -569,6 +578,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
     for i in range(n_seq):
         calindex = np.argwhere(calseries == unique_cal[i])[:, 1]
+        # the fit comes in the order of the profile numbers
+        calindex = calindex[np.argsort(profile_no[0, calindex], kind='stable')]
         k = calindex.__len__()
 
         # chose 10 float theta levels to use for the piecewise linear fit
diff --git a/pyowc/helper.py b/pyowc/helper.py
index 09abfad..e7da5f4 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -351,6 +351,31 @@ def sort_numpy_array(data, index, keys=None):
     return data
 
 
+def columns_of_profiles(data, data_profile_no, profile_no, missing=np.nan):
+    """
+
+    Parameters
+    ----------
+    data : matrix with a column for each of the profiles in data_profile_no
+    data_profile_no : profile numbers of the columns of data
+    profile_no : profile numbers of the wanted columns
+    missing : value in columns of profiles that data does not have
+
+    Returns
+    -------
+    matrix with a column for each profile in profile_no
+
+    """
+    columns = np.full((data.shape[0], profile_no.size), missing, dtype=float)
+
+    for i, number in enumerate(profile_no.flatten()):
+        found = np.argwhere(data_profile_no.flatten() == number)
+        if found.size > 0:
+            columns[:, i] = data[:, found[0, 0]]
+
+    return columns
+
+
 def selected_historical_points(data, hist_data, profile_index):
     """
 
-- 
2.43.0


From 0b377f9c7dab426a096d4a3911b8f65c59c16965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 32/63] fix: write missing calibration values when nothing was
 mapped

---
 pyowc/calibration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index f064380..d0dcc9c 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -436,6 +436,9 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     mapped_ptmp = columns_of_profiles(mapped_ptmp, mapped_no, profile_no)
 
     # retrieve XYZ of float position used to build covariance
+    # (not needed if nothing was mapped)
+    coord_float = np.full((profile_no.size, 3), np.nan)
+
     if selected_hist.__len__() > 0:
         if long.shape[0] > 1:
             long = long.flatten()
-- 
2.43.0


From dafba426d792425a3f82c290932ca7bc0ecb45c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 33/63] fix: find the ocean depth of a float on both sides of
 Greenwich

All longitudes were reduced by 360 when one was above 180, so the depths were
looked up in a region of more than a full turn.
---
 pyowc/calibration.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index d0dcc9c..0611cd9 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -446,11 +446,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         if lat.shape[0] > 1:
             lat = lat.flatten()
 
-        if np.any(long > 180):
-            long_1 = copy.deepcopy(long) - 360
-
-        else:
-            long_1 = copy.deepcopy(long)
+        long_1 = copy.deepcopy(long)
+        long_1[long_1 > 180] -= 360
 
         elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
-- 
2.43.0


From 308738fe2cfbd86ad98573fba23da96e96c0c730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 34/63] fix: use the maximum number of breaks of each series

A list of maxima is saved as a row, of which every series took the first.
---
 pyowc/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 0611cd9..c1d1c9d 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -470,7 +470,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     # so are the series numbers, a profile without one is not calibrated
     calseries = columns_of_profiles(float_calseries['calseries'], float_calseries['calib_profile_no'],
                                     profile_no, missing=0)
-    max_breaks = float_calseries['max_breaks']
+    # one for each series, given as a row or as a column
+    max_breaks = float_calseries['max_breaks'].reshape((-1, 1))
     breaks = float_calseries['breaks']
     use_theta_gt = float_calseries['use_theta_gt']
     use_theta_lt = float_calseries['use_theta_lt']
-- 
2.43.0


From 4a6d0f6a8102a24edd569d9f1f44519967b1fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 35/63] fix: calibrate with prescribed breaks

The breaks were passed as a column and time derivatives were stored by row,
which stopped the run; a series with no breaks allowed had them searched.
---
 pyowc/calibration.py | 50 +++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index c1d1c9d..ab15b1c 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -674,39 +674,23 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             else:
                 breaks_in = breaks[i, :]
-                breaks_in = breaks_in[np.argwhere(np.isfinite(breaks_in))]
-
-                if max_breaks[i]:
-                    (xfit, condslope, condslope_err,
-                     time_deriv_temp, time_deriv_err_temp,
-                     sta_mean_temp, sta_rms_temp, ndf,
-                     fit_coef, fit_breaks) = fit_cond(x, y, err,
-                                                      covariance,
-                                                      'breaks',
-                                                      breaks_in,
-                                                      'max_no_breaks',
-                                                      max_breaks[i][0])
-                    pcond_factor[0][calindex] = condslope
-                    pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
-                    sta_mean[0][calindex], = sta_mean_temp
-                    sta_rms[0][calindex] = sta_rms_temp
-
-                else:
-                    (xfit, condslope, condslope_err,
-                     time_deriv_temp, time_deriv_err_temp,
-                     sta_mean_temp, sta_rms_temp, ndf,
-                     fit_coef, fit_breaks) = fit_cond(x, y, err,
-                                                      covariance,
-                                                      'breaks',
-                                                      breaks_in)
-                    pcond_factor[0][calindex] = condslope
-                    pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
-                    sta_mean[0][calindex], = sta_mean_temp
-                    sta_rms[0][calindex] = sta_rms_temp
+                breaks_in = breaks_in[np.isfinite(breaks_in)]
+
+                (xfit, condslope, condslope_err,
+                 time_deriv_temp, time_deriv_err_temp,
+                 sta_mean_temp, sta_rms_temp, ndf,
+                 fit_coef, fit_breaks) = fit_cond(x, y, err,
+                                                  covariance,
+                                                  'breaks',
+                                                  breaks_in,
+                                                  'max_no_breaks',
+                                                  max_breaks[i][0])
+                pcond_factor[0][calindex] = condslope
+                pcond_factor_err[0][calindex] = condslope_err
+                time_deriv[0][calindex] = time_deriv_temp.flatten()
+                time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()
+                sta_mean[0][calindex], = sta_mean_temp
+                sta_rms[0][calindex] = sta_rms_temp
 
             # apply calibrations to float data
 
-- 
2.43.0


From 433cc32c2b4d7e4d6a2fd26769a361de8a4771bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 36/63] fix: accept repeated pressures next to the Subantarctic
 Front

---
 pyowc/data/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 596613e..e88504f 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -570,7 +570,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
         # Calculations for Argo float
         isok = np.argwhere((~np.isnan(float_pres)) & (~np.isnan(float_tmp)))
 
-        if not np.argwhere(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
+        if not np.any(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
                 np.min(float_pres[isok].T) < 300 < np.max(float_pres[isok].T)):
 
             # SAF:
@@ -652,7 +652,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
                     np.argwhere(~np.isnan(grid_pres[:, i]) & ~np.isnan(grid_sal[:, i]) & ~np.isnan(grid_ptmp[:, i])),
                     np.argwhere((np.diff(grid_pres[:, i])) != 0))
 
-                if not np.argwhere(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
+                if not np.any(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
                         np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])):
                     t300 = np.interp(300, grid_pres[isok, i], grid_tmp[isok, i], left=np.nan, right=np.nan)
 
-- 
2.43.0


From b3da6b12e84335079c482ef3201ad74cc3e63b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 37/63] fix: use the deepest level when finding the side of the
 front

---
 pyowc/data/fetchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index e88504f..3cb5718 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -650,7 +650,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
             for i in range(grid_long.__len__()):
                 isok = np.intersect1d(
                     np.argwhere(~np.isnan(grid_pres[:, i]) & ~np.isnan(grid_sal[:, i]) & ~np.isnan(grid_ptmp[:, i])),
-                    np.argwhere((np.diff(grid_pres[:, i])) != 0))
+                    np.argwhere(np.append(np.diff(grid_pres[:, i]) != 0, True)))
 
                 if not np.any(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
                         np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])):
-- 
2.43.0


From cf9bfabf948aa089a803a5b515d2c9803c5bc90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 38/63] fix: select historical casts when the maximum is one,
 two or four

---
 pyowc/core/finders.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 15d8a43..9ec7cc2 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -206,7 +206,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
             z_remain_dates = np.append(z_remain_dates, remain_hist_dates[int(i)])
 
         # work out how many large spatial data points needed
-        lsegment2 = math.ceil(max_casts / 3) + math.ceil(max_casts / 3) - index_rand.__len__()
+        lsegment2 = min(2 * math.ceil(max_casts / 3), max_casts) - index_rand.__len__()
 
         index_z = np.arange(lsegment2, int(len(z_remain_long)))
 
@@ -247,7 +247,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i1_ellipse = []
         for i in index_rand.flatten():
             i1_ellipse.append(index_ellipse[int(i)])
-        index_rand_ellipse = np.concatenate(np.array(i1_ellipse))
+        index_rand_ellipse = np.array(i1_ellipse, dtype=int).flatten()
 
         # index for hist_lat(index_random)
         # index2_large_spatial
@@ -260,7 +260,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i2_ellipse = []
         for i in i2_remain:
             i2_ellipse.append(index_ellipse[int(i)])
-        index_large_spatial = np.concatenate(np.array(i2_ellipse))
+        index_large_spatial = np.array(i2_ellipse, dtype=int).flatten()
 
         # index3_small_spatial
         i3_small = correlation_small_sorted[:leftover]
@@ -280,7 +280,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i3_ellipse = []
         for i in i3_remain:
             i3_ellipse.append(index_ellipse[int(i)])
-        index_small_spatial = np.concatenate(np.array(i3_ellipse))
+        index_small_spatial = np.array(i3_ellipse, dtype=int).flatten()
 
         index = np.concatenate((index_rand_ellipse, index_large_spatial, index_small_spatial))
 
-- 
2.43.0


From 26578965b66a0932389cbf082f6410304aafb3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 39/63] fix: give find_besthist's correlation its arguments in
 order

---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 9ec7cc2..6e5d993 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -190,7 +190,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         correlation_large = spatial_correlation_vec(remain_hist_long, long, longitude_large,
                                                     remain_hist_lat, lat, latitude_large,
                                                     remain_hist_dates, date, age_large,
-                                                    pv_hist, pv_float, phi_large)
+                                                    phi_large, pv_hist, pv_float)
 
         correlation_large_sorted = correlation_large.argsort()
 
@@ -235,7 +235,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
                                                     lat, latitude_small,
                                                     s_remain_hist_dates,
                                                     date, age_small,
-                                                    pv_hist, pv_float, phi_small)
+                                                    phi_small, pv_hist, pv_float)
 
         correlation_small_sorted = correlation_small.argsort()
 
-- 
2.43.0


From a55433fb7470bbbda138c58b1e295210545d0399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 40/63] fix: bring in no WMO box twice for positions next to a
 box boundary

---
 pyowc/core/finders.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 6e5d993..e8f2eef 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -385,23 +385,13 @@ def find_25boxes(pn_float_long, pn_float_lat, pa_wmo_boxes):
     ).reshape(37, 18)
     la_lookup_no = np.insert(la_lookup_no, 666, la_lookup_no[1]).reshape(38, 18).transpose()
 
-    # the box at the pole also contains the pole itself
-    pn_float_lat = np.minimum(pn_float_lat, 89.98)
+    # centre of the box with the profile, its neighbours are whole boxes away
+    box_long = la_lookup_x[np.abs(la_lookup_x - (pn_float_long + .01)).argmin()]
+    box_lat = la_lookup_y[np.abs(la_lookup_y - (pn_float_lat + .01)).argmin()]
 
     # Set up longitudinal and latitudinal values
-    ln_x = []
-    ln_y = []
-    ln_x.append(pn_float_long + .01)
-    ln_x.append(pn_float_long + 10.01)
-    ln_x.append(pn_float_long - 9.99)
-    ln_x.append(pn_float_long + 20.01)
-    ln_x.append(pn_float_long - 19.99)
-
-    ln_y.append(pn_float_lat + .01)
-    ln_y.append(pn_float_lat + 10.01)
-    ln_y.append(pn_float_lat - 9.99)
-    ln_y.append(pn_float_lat + 20.01)
-    ln_y.append(pn_float_lat - 19.99)
+    ln_x = [box_long + shift for shift in (0, 10, -10, 20, -20)]
+    ln_y = [box_lat + shift for shift in (0, 10, -10, 20, -20)]
 
     # wrap longitudinal values
     if ln_x[2] < 0:
-- 
2.43.0


From b1ff174de9701e9bf85263fd1fc67efa714eafa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 41/63] fix: make the covariance of two profiles independent of
 their order

---
 pyowc/core/stats.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index cb98ba4..726c240 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -934,13 +934,12 @@ def covarxy_pv(input_coords, coords, long, lat, phi, use_pv):
     z_coords = coords[:, 2]
 
     # define a vectorized function to calculation potential vorticity
-    potential_vorticity = np.vectorize(lambda latitude, depth:
-                                       (2 * 7.292 * 10 ** -5 *
-                                        np.sin(latitude * np.pi / 180)) / depth)
+    # (which is never zero, so that the covariance does not depend on the order of the points)
+    potential_vorticity_vec = np.vectorize(potential_vorticity)
 
     # calculate potential vorticity
-    pv_input_coords = potential_vorticity(input_coords[0], z_input_coords)
-    pv_coords = potential_vorticity(coords[:, 0], z_coords)
+    pv_input_coords = potential_vorticity_vec(input_coords[0], z_input_coords)
+    pv_coords = potential_vorticity_vec(coords[:, 0], z_coords)
 
     # calculate correlation
     cor_term = ((input_coords[0] - coords[:, 0]) / lat) ** 2 + \
@@ -948,7 +947,7 @@ def covarxy_pv(input_coords, coords, long, lat, phi, use_pv):
 
     # include potential vorticity in correlation, if the user has asked for it
 
-    if use_pv and pv_input_coords.any() and pv_coords.any() != 0:
+    if use_pv:
         cor_term = cor_term + ((pv_input_coords - pv_coords) /
                                np.sqrt(pv_input_coords ** 2 + pv_coords ** 2) /
                                phi) ** 2
-- 
2.43.0


From f9d9dba55fef85643c6ccd9b140748c64751db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 42/63] fix: return no fit for every singular system of the
 piecewise fit

---
 pyowc/core/stats.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 726c240..ed26b59 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -1031,19 +1031,22 @@ def brk_pt_fit(x_obvs, y_obvs, w_i, breaks=None):
     else:
         ls_est = np.dot(trends.T, trends)
 
-    if np.linalg.det(ls_est) == 0:
-        fit_param = np.zeros((b_length + 2, 1))
-        residual = y_obvs
-        print("ERROR in brk_pt_fit: DET(A) == 0")
-        return fit_param, residual
+    try:
+        if np.linalg.det(ls_est) == 0:
+            raise linalg.LinAlgError("DET(A) == 0")
 
-    # calculate fit parameters
-    if w_i.__len__() > 0:
-        fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)
+        # calculate fit parameters
+        if w_i.__len__() > 0:
+            fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)
 
-    else:
-        fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))
+        else:
+            fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))
 
+    except linalg.LinAlgError as error:
+        fit_param = np.zeros((b_length + 2, 1))
+        residual = y_obvs
+        print("ERROR in brk_pt_fit:", error)
+        return fit_param, residual
 
     # calculate fit estimate
     residual = y_obvs - np.dot(trends, fit_param)
-- 
2.43.0


From b97dcc2f62844335433891510a1d164e1c921dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 43/63] fix: fit the right line when the first profiles of a
 series have no data

The coefficients are those of a line through the first observation, but were
evaluated as if they belonged to the first profile.
---
 pyowc/core/stats.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ed26b59..b5338b1 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -493,10 +493,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
     P_2 = np.diag(P)
 
     # reduce matrix to have only one value per profile
-    btem = np.concatenate(([xfit[0]], breaks))
+    # the coefficients belong to the first observation, profiles before it have no data
+    btem = np.concatenate(([xf[0]], breaks))
     E = np.zeros((xfit.__len__(), best))
     E[:, 0] = np.ones((xfit.__len__(), 1)).T
-    ixb = sorter(btem, xfit)
+    ixb = np.maximum(sorter(btem, xfit), 0)
 
     if best >= 2:
         for j in range(best - 1):
@@ -514,7 +515,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
     # factor to increase monte carlo error estimate, taking into account
     # that we have correlated noise
-    P_3 = np.dot(E, P_2) / np.dot(E, P_1)
+    P_3 = np.dot(np.abs(E), P_2) / np.dot(np.abs(E), P_1)
 
     real_A = copy.deepcopy(A)
     real_E = copy.deepcopy(E)
@@ -556,10 +557,10 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 # the last try of the search need not be its result
                 residual = nlbpfun(optim['x'])
 
-                btem = np.concatenate(([xfit[0]], breaks))
+                btem = np.concatenate(([xf[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
-                ixb = sorter(btem, xfit)
+                ixb = np.maximum(sorter(btem, xfit), 0)
 
                 for j in range(best - 1):
                     # pointer to x values greater than break point j
-- 
2.43.0


From dce0bab47a0be45f77d5cf5a67ad2d3e1f29bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 44/63] fix: fit prescribed breaks also when no other breaks
 are allowed

The arrays of the candidates were made for zero breaks before the number of
prescribed ones was taken over, so max_no_breaks = 0 stopped the fit.
---
 pyowc/core/stats.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index b5338b1..0c2bacb 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -282,6 +282,10 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
     max_brk_in = int(max_brk_in)
 
+    # no further breaks are wanted than the given ones
+    if setbreaks and max_brk_in == 0:
+        max_brk_in = nbr
+
     if max_brk_in == -1:
         b_pts = np.ones((1, 1)) * np.nan
         b_A = np.ones((1, 1)) * np.nan
@@ -295,12 +299,8 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
     # check to see if we have set break points
     if setbreaks:
-        if max_brk_in == 0:
-            max_brk_in = nbr
-            nbr1 = nbr
-
         # we have fixed break points
-        elif max_brk_in > nbr:
+        if max_brk_in > nbr:
             nbr1 = nbr + 1
             A, residual = brk_pt_fit(xf, yf, w_i, breaks)
             b_pts[0:nbr, nbr] = breaks.T
-- 
2.43.0


From 820df33203c40ea74d63f654a0607f17bbac565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 45/63] fix: write missing values when there are too few sets
 of breaks

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index ab15b1c..50c2524 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -535,7 +535,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             sstatus = 0
 
-        for n in range(n_seq):
+        for n in range(min(n_seq, ns, max_breaks.__len__())):
             nb = np.argwhere(np.isfinite(breaks[n, :])).__len__()
 
             if nb > max_breaks[n]:
-- 
2.43.0


From ecd0c40d2862f37aedcbe9ec8bac4c6838e46bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 46/63] fix: map new profiles of a source with fewer levels
 than the mapped file

---
 pyowc/helper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index e7da5f4..08f7876 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -156,6 +156,9 @@ def process_profiles_la_variables(data, float_level_count, profile_index):
     -------
 
     """
+    # the columns that are there may have more levels than the source
+    float_level_count = max(float_level_count, data['la_ptmp'].shape[0])
+
     # if we are inserting changing a column in existing data
     if profile_index < data['la_ptmp'].shape[1]:
         data['la_ptmp'][:, profile_index] = np.nan * np.ones(float_level_count)
-- 
2.43.0


From a2b938ead3bae466ad4da23353bd77e988701972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 47/63] fix: fit a source with fewer levels than the mapped
 file

---
 pyowc/calibration.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 50c2524..1cc1106 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -431,9 +431,11 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
     # mapped profiles are in the order of their numbers, those of the source need not be
     mapped_no = float_mapped_data['la_profile_no']
-    mapped_sal = columns_of_profiles(mapped_sal, mapped_no, profile_no)
-    mapsalerror = columns_of_profiles(mapsalerror, mapped_no, profile_no)
-    mapped_ptmp = columns_of_profiles(mapped_ptmp, mapped_no, profile_no)
+    # (and they may have more levels, from an earlier source)
+    levels = pres.shape[0]
+    mapped_sal = columns_of_profiles(mapped_sal[:levels], mapped_no, profile_no)
+    mapsalerror = columns_of_profiles(mapsalerror[:levels], mapped_no, profile_no)
+    mapped_ptmp = columns_of_profiles(mapped_ptmp[:levels], mapped_no, profile_no)
 
     # retrieve XYZ of float position used to build covariance
     # (not needed if nothing was mapped)
-- 
2.43.0


From 58db35e4fc4a30ac185d53c23da717878029cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 48/63] fix: fit with series numbers given as a column

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 1cc1106..e7f2499 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -470,7 +470,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     float_calseries = loadmat(float_calseries_path)
 
     # so are the series numbers, a profile without one is not calibrated
-    calseries = columns_of_profiles(float_calseries['calseries'], float_calseries['calib_profile_no'],
+    calseries = columns_of_profiles(float_calseries['calseries'].reshape((1, -1)), float_calseries['calib_profile_no'],
                                     profile_no, missing=0)
     # one for each series, given as a row or as a column
     max_breaks = float_calseries['max_breaks'].reshape((-1, 1))
-- 
2.43.0


From 1ef0b408076cc968432cbd8b3adf61db4ca5d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 49/63] fix: fit with profile numbers stored in a small integer
 type

---
 pyowc/core/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 0c2bacb..ef5a19b 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -122,6 +122,8 @@ def fit_cond(x, y, n_err, lvcov, *args):
     max_fun_evals = 1000
 
     # form x and y variables for the fit
+    # profile numbers may be stored in an integer type too small for their sums
+    x = np.asarray(x, dtype=float)
     xfit = np.unique(x)
     nfit = xfit.__len__()
 
-- 
2.43.0


From 0787f370ec3a7adbcfee25c3f2e3d118e6b3cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 50/63] fix: use historical casts whose levels are stored as
 integers

---
 pyowc/data/fetchers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 3cb5718..8375eab 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -379,10 +379,10 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
                             # only use non-NaN values
                             not_nan = np.argwhere(np.isnan(data['pres'][:, i]) == 0)
 
-                            # get the non-NaN values
-                            pres = data['pres'][not_nan, i]
-                            sal = data['sal'][not_nan, i]
-                            ptmp = data['ptmp'][not_nan, i]
+                            # get the non-NaN values (whole numbers may be stored as integers)
+                            pres = data['pres'][not_nan, i].astype(float)
+                            sal = data['sal'][not_nan, i].astype(float)
+                            ptmp = data['ptmp'][not_nan, i].astype(float)
 
                             # remove values where pressure exceeds the maximum we want
                             # todo: Why is this not done during data fetching ????
-- 
2.43.0


From ff602de8dbbcc10e8c4d73ca15ebfed8c3b18422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 51/63] fix: find theta levels in profiles that are stored as
 integers

---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index e8f2eef..215b292 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -464,8 +464,8 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
         Theta levels where salinity varies the least
     """
 
-    # leave the arrays of the caller as they are
-    sal, ptmp, pres = sal.copy(), ptmp.copy(), pres.copy()
+    # leave the arrays of the caller as they are, and be able to hold missing values
+    sal, ptmp, pres = sal.astype(float), ptmp.astype(float), pres.astype(float)
 
     # We only want 10 theta levels
     no_levels = 10
-- 
2.43.0


From ef708a542c5c457bc91b3eab460bba82e1119bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 52/63] fix: find the ocean depth of a float whose longitudes
 are stored as integers

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index e7f2499..6521bff 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -448,7 +448,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         if lat.shape[0] > 1:
             lat = lat.flatten()
 
-        long_1 = copy.deepcopy(long)
+        long_1 = long.astype(float)
         long_1[long_1 > 180] -= 360
 
         elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,
-- 
2.43.0


From 64c066d57205d2bab886bcdb8563fa1d14460dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 53/63] fix: interpolate climatology whose levels are stored as
 integers

---
 pyowc/data/wrangling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyowc/data/wrangling.py b/pyowc/data/wrangling.py
index 9b7efdd..a1b8325 100644
--- a/pyowc/data/wrangling.py
+++ b/pyowc/data/wrangling.py
@@ -208,9 +208,9 @@ def find_sign_changes_in_columns(values):
 def _get_cleaned_grid_data(grid_stations, grid_sal_in, grid_theta_in, grid_pres_in):
     """Return a copy of grid data where finite values have been moved up to the top of each station."""
     # ensure no changes made to reference data
-    grid_sal = np.full_like(grid_sal_in, np.nan)
-    grid_theta = np.full_like(grid_theta_in, np.nan)
-    grid_pres = np.full_like(grid_pres_in, np.nan)
+    grid_sal = np.full_like(grid_sal_in, np.nan, dtype=float)
+    grid_theta = np.full_like(grid_theta_in, np.nan, dtype=float)
+    grid_pres = np.full_like(grid_pres_in, np.nan, dtype=float)
 
     grid_good_data = _get_finite_element_mask(grid_sal_in, grid_theta_in, grid_pres_in)
 
-- 
2.43.0


From 2e277e0d8b1c574fb128da3757f26a88b3a8041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 54/63] fix: leave out single levels, not whole rows, from the
 salinity variance plot

---
 pyowc/plot/plots.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 648c80c..847f386 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -353,7 +353,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_theta_lt.__len__() == 0 and use_theta_gt.__len__() > 0:
-        good = np.argwhere(ptmp < use_theta_gt)
+        good = ptmp < use_theta_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -368,10 +368,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_theta_lt < use_theta_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(theta_range_lt, theta_range_gt))
+            good = np.logical_and(theta_range_lt, theta_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(theta_range_gt, theta_range_lt))
+            good = np.logical_or(theta_range_gt, theta_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
@@ -382,7 +382,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:
-        good = np.argwhere(pres > use_pres_lt)
+        good = pres > use_pres_lt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -392,7 +392,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() == 0 and use_pres_gt.__len__() > 0:
-        good = np.argwhere(pres < use_pres_gt)
+        good = pres < use_pres_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -407,10 +407,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_pres_lt < use_pres_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(pres_range_lt, pres_range_gt))
+            good = np.logical_and(pres_range_lt, pres_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(pres_range_gt, pres_range_lt))
+            good = np.logical_or(pres_range_gt, pres_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
-- 
2.43.0


From 0af0f2335095a83acfe9dfaadd79240696e542cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 55/63] fix: draw both panels of the salinity curve plot in the
 same figure

---
 pyowc/plot/plots.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 847f386..52e8310 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -630,7 +630,6 @@ def cal_sal_curve_plot(sal, cal_sal, cal_sal_err, sta_sal, sta_sal_err, sta_mean
 
         # vertically averaged salinity plot
         plt.subplot(212)
-        plt.figure(1)
 
         plt.plot(profile_no[0], avg_sal_offset, color=(0, 1, 0), linestyle='-', linewidth=2)
         good = np.argwhere(np.isfinite(avg_sta_offset))
-- 
2.43.0


From ee518ac220b177c39207c85e3c82d6b403f2ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 56/63] fix: draw the salinity profile plot in a figure of its
 own

---
 pyowc/plot/plots.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 52e8310..f3c1224 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -224,8 +224,7 @@ def t_s_profile_plot(sal, ptmp, pres, sal_var, theta_levels, tlevels, plevels, f
         Nothing
     """
 
-    #plt.figure(1)
-    plt.figure(1, figsize=(7, 9))
+    plt.figure(figsize=(7, 9))
     # plot t-s profile
     plt.subplot(222)
 
-- 
2.43.0


From c24f6841d1a10da089dcbcc0f553b606eacdff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 57/63] fix: draw the trajectory plot in a figure of its own

---
 pyowc/plot/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index f3c1224..c2d65a6 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -52,6 +52,7 @@ def trajectory_plot(bath, reef, floats, climatology, float_name, config):
         Nothing
     """
 
+    plt.figure()
     axes = plt.gca()
     axes.set_aspect(1)
 
-- 
2.43.0


From 0c065ab7109536f189bdfb27a065aa1c252290c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 58/63] fix: plot floats whose longitudes are stored as
 integers

---
 pyowc/plot/dashboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 9d89e9d..4d9e38d 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -41,6 +41,7 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     cal_data = loadmat(cal_data_loc)
     cal_series = loadmat(cal_series_loc)
 
+    float_data['LONG'] = float_data['LONG'].astype(float)
     float_long = float_data['LONG']
     float_long[float_long > 180] -= 360
 
-- 
2.43.0


From 0fe7617bb0eb261c94eb097b7d9c18b492531d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 59/63] fix: plot floats whose levels are stored as integers

---
 pyowc/plot/dashboard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 4d9e38d..486d7a4 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -56,9 +56,9 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     plt.show()
 
     # get data ---------------
-    sal = np.array(float_data['SAL'])
-    ptmp = np.array(float_data['PTMP'])
-    pres = float_data['PRES']
+    sal = np.array(float_data['SAL'], dtype=float)
+    ptmp = np.array(float_data['PTMP'], dtype=float)
+    pres = np.array(float_data['PRES'], dtype=float)
     map_sal = grid_data['la_mapped_sal']
     map_ptmp = grid_data['la_ptmp']
     map_errors = grid_data['la_mapsalerrors']
-- 
2.43.0


From 63ef9e8ed140fa691eaf2efcd3db729b14f8c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:32 +0000
Subject: [PATCH 60/63] fix: search several break points beyond the evenly
 spread guess

The guess is a vector of zeros but for rounding, and the size of the first
step of the search is taken from it.
---
 pyowc/core/stats.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ef5a19b..baf18c3 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -390,6 +390,9 @@ def fit_cond(x, y, n_err, lvcov, *args):
             for n in range(b_guess.__len__()):
                 ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[-1])))
 
+            # the search takes its first step from the size of the guess, which must not be a rounding error
+            ubrk_g = np.round(ubrk_g, 6)
+
             if setbreaks != 0:
                 # break points are already set
                 if nbr == fixed_breaks.__len__():
@@ -553,6 +556,8 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 for n in range(nbr):
                     ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))
 
+                ubrk_g = np.round(ubrk_g, 6)
+
                 optim = least_squares(nlbpfun, ubrk_g,
                                       method='lm', ftol=tol, max_nfev=max_fun_evals)
 
-- 
2.43.0


From 927e695a50ccab13619d23397ca21afb0cc73df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 61/63] fix: keep break points in order when equal ones are set
 apart

---
 pyowc/core/stats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index baf18c3..a75fd1a 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -94,9 +94,10 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
         breaks = np.sort(np.concatenate((fixed_breaks, xblim[0] + ftem * fnumer)))
 
-        if np.argwhere(np.diff(breaks) == 0).__len__() > 0:
-            difference = np.argwhere(np.diff(breaks) == 0)
-            breaks[difference + 1] = breaks[difference + 1] + 0.00001
+        # equal breaks are set apart and stay in order
+        for i in range(1, breaks.__len__()):
+            if breaks[i] <= breaks[i - 1]:
+                breaks[i] = breaks[i - 1] + 0.00001
 
         A, residual = brk_pt_fit(xf, yf, w_i, breaks)
 
-- 
2.43.0


From bafb8513e53c4d42228e3e1c2ab2948e0c595e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:29 +0000
Subject: [PATCH 62/63] fix: give the error of the slope as rms error in
 original units

---
 pyowc/core/stats.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index a75fd1a..704b299 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -623,6 +623,10 @@ def fit_cond(x, y, n_err, lvcov, *args):
     if breaks.__len__() > 0:
         break_pts = breaks * x_scale + x_0
 
+    # rms errors of the coefficients
+    coef_err = np.sqrt(P_2) * y_scale
+    coef_err[1:] = coef_err[1:] / x_scale
+
     A[0] = A[0] * y_scale + y_0
     P[0] = P[0] * y_scale
 
@@ -646,7 +650,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
     elif best == 2:
         time_deriv = A[1] * np.ones((nfit, 1))
-        time_deriv_err = P_2[1] * np.ones((nfit, 1))
+        time_deriv_err = coef_err[1] * np.ones((nfit, 1))
 
     else:
         time_deriv = np.ones((nfit, 1)) * np.nan
@@ -654,7 +658,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
         for j in range(best - 1):
             ib = np.argwhere(ixb == j)
             time_deriv[ib] = A[j + 1]
-            time_deriv_err[ib] = P_2[j + 1]
+            time_deriv_err[ib] = coef_err[j + 1]
 
     condslope = yfit.T
     condslope_err = yerr.T
-- 
2.43.0


From e6fae0e77ef1c9af5e282997f010d903d1341940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 63/63] fix: start the search for breaks at the given initial
 breaks

---
 pyowc/core/stats.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 704b299..5937735 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -250,11 +250,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
             if param == 'initial_breaks':
                 # initial guess for breakpoints
-                brk_init = value
+                brk_init = np.sort(np.array(value, dtype=float).flatten())
 
-                # rescale
+                # rescale, the search goes from -1 to 1
                 brk_init = (brk_init - x_0) / x_scale
-                brk_init = (brk_init - xblim[0]) / np.diff(xblim)
+                brk_init = -1 + 2 * (brk_init - xblim[0]) / np.diff(xblim)
 
             elif param == 'max_no_breaks':
                 max_brk_in = value
@@ -371,17 +371,14 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
         else:
             nbr2 = brk_init.__len__()
+            n_free = int(nbr - fixed_breaks.__len__())
 
             # Check if there are enough initial guesses
-            if nbr2 >= nbr:
-                if brk_init.shape[0] > brk_init.shape[1]:
-                    brk_init = brk_init.T
-
-                b_guess = brk_init[0:nbr]
+            if nbr2 >= n_free:
+                b_guess = brk_init[0:n_free]
 
             # first guess for breaks as evenly distributed between 2nd and 2nd to last point
             else:
-                n_free = nbr - fixed_breaks.__len__()
                 b_guess = -1 + 2 * np.arange(1, n_free + 1) / (n_free + 1)
 
             b_g = np.concatenate(([-1], b_guess))
-- 
2.43.0


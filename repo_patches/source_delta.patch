From 17b6ccf3a450569b1e0131a25fd40f1239e86553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:46 +0000
Subject: [PATCH 01/25] fix: keep length-1 z/y/x dimensions in the reference
 state

Selecting an integer time index already drops the time dimension; the extra
squeeze() also dropped length-1 spatial dimensions, so a dataset with a single
level, row or column could not be used with steric().
---
 src/momlevel/reference.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/reference.py b/src/momlevel/reference.py
index ea44af3..53e89f2 100644
--- a/src/momlevel/reference.py
+++ b/src/momlevel/reference.py
@@ -56,15 +56,15 @@ def setup_reference_state(
     # initialize reference dataset
     reference = xr.Dataset()
 
-    # extract requested time level and squeeze the arrays
+    # extract requested time level
     reference["thetao"] = (
-        dset["thetao"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["thetao"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
     reference["so"] = (
-        dset["so"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["so"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
     reference["volcello"] = (
-        dset["volcello"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["volcello"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
 
     # calculate in situ reference density
-- 
2.43.0


From 63edaf951a27543c098b11b5e19ce6a96e8debcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:42 +0000
Subject: [PATCH 02/25] fix: deseason no longer edits the attributes of its
 input

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 779af5d..b869c17 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -742,7 +742,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
     assert isinstance(arr, xr.DataArray), "Input must be an xarray DataArray"
 
     # store array attributes for reassignment at the end
-    attrs = arr.attrs
+    attrs = dict(arr.attrs)
 
     # check that the specified time dimension exists
     core_dims = list(arr.dims)
-- 
2.43.0


From 1b5c955579aaf979426d0bfa05e0c8305345637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:42 +0000
Subject: [PATCH 03/25] fix: deseason honours tdim throughout

---
 src/momlevel/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index b869c17..3b93cee 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -773,7 +773,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         [
             366 if x is True else 365
             for x in [
-                cftime.is_leap_year(x.year, x.calendar) for x in list(arr.time.values)
+                cftime.is_leap_year(x.year, x.calendar) for x in list(arr[tdim].values)
             ]
         ]
     )
@@ -822,7 +822,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         result = result.assign_coords(coeff=coeff_coords)
         result = result.transpose("coeff", ...)
     else:
-        result = result.transpose("time", ...)
+        result = result.transpose(tdim, ...)
 
     # Calculate if original input array was not a dask array
     if keep_lazy is False:
-- 
2.43.0


From ef75a7b865aa22fe5df52c368020f099e5f0e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:42 +0000
Subject: [PATCH 04/25] fix: seasonal_cycle_model uses the year length it is
 given

---
 src/momlevel/trend.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 3b93cee..b1505bc 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -498,10 +498,12 @@ def seasonal_cycle_model(ts, daysinyear=365.0, tdim="time"):
     """
 
     time_length = ts.shape[0]
-    if isinstance(daysinyear, float) or isinstance(daysinyear, int):
-        time_dec = np.arange(time_length) / 365.0
-    else:
+    if np.ndim(daysinyear) == 0:
         time_dec = np.arange(time_length) / daysinyear
+    else:
+        # years of different length: accumulate the fraction of a year per step
+        daysinyear = np.asarray(daysinyear, dtype=float)
+        time_dec = np.cumsum(1.0 / daysinyear) - 1.0 / daysinyear
 
     assert len(ts) == len(
         time_dec
-- 
2.43.0


From 94322183dcd25de40d45dab88dbb1eae3ef8f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:42 +0000
Subject: [PATCH 05/25] fix: deseason knows that a 360_day year has 360 days

---
 src/momlevel/trend.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index b1505bc..f46c124 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -773,10 +773,12 @@ def deseason(arr, tdim="time", output_format="residuals"):
     # determine an array of the days in a year
     daysinyear = np.array(
         [
-            366 if x is True else 365
-            for x in [
-                cftime.is_leap_year(x.year, x.calendar) for x in list(arr[tdim].values)
-            ]
+            (
+                360
+                if x.calendar == "360_day"
+                else 366 if cftime.is_leap_year(x.year, x.calendar) else 365
+            )
+            for x in list(arr[tdim].values)
         ]
     )
 
-- 
2.43.0


From 9a545a974fdd4835ced867e3b6687e6d07ec9430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:42 +0000
Subject: [PATCH 06/25] fix: broadcast_trend subtracts the first value along
 the given dimension

---
 src/momlevel/trend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index f46c124..4a24b4a 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -106,8 +106,7 @@ def broadcast_trend(slope, dim_arr, subtract_time_zero=False):
 
     # Subtract first time step if asked to
     if subtract_time_zero:
-        tdim = "time"
-        result = result - result.isel({tdim: 0})
+        result = result - result.isel({dim_name: 0})
 
     return result
 
-- 
2.43.0


From daabd5cc44b81b2002dfef3cf62fff439fa981fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:42 +0000
Subject: [PATCH 07/25] fix: linear_detrend accepts variables whose units
 contain an inverse

---
 src/momlevel/trend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 4a24b4a..3bbca8c 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -186,7 +186,9 @@ def _detrend_array(arr, dim="time", order=1, mode="remove"):
     intercept = ds_trend[f"{varname}_intercept"]
 
     # construct the fitted line
-    fit_x = broadcast_trend(slope, arr[dim])
+    # (the slope is per nanosecond; say so without the units of the variable itself,
+    # which may contain an inverse unit of their own)
+    fit_x = broadcast_trend(slope.assign_attrs(units="ns-1"), arr[dim])
 
     if mode not in ["remove", "correct"]:
         raise ValueError(f"Unknown detrend mode '{mode}'")
-- 
2.43.0


From f3b483143a92cb0b4d843028d5582f829f94c84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:42 +0000
Subject: [PATCH 08/25] fix: seasonal_model honours tcoord throughout

---
 src/momlevel/trend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 3bbca8c..43feef5 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -414,19 +414,19 @@ def seasonal_model(da_timeseries, tcoord="time", return_model=False):
 
     model_da = xr.DataArray(
         model,
-        dims=["coeff", "time"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=["coeff", tcoord],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     model_da = model_da.expand_dims(dim=hashable_coords)
 
     pmodel_da = xr.DataArray(
         pmodel,
-        dims=["time", "coeff"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=[tcoord, "coeff"],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     pmodel_da = pmodel_da.expand_dims(dim=hashable_coords)
 
-    mcoeff = pmodel_da.dot(da_timeseries, dims="time")
+    mcoeff = pmodel_da.dot(da_timeseries, dims=tcoord)
 
     smodel = model_da.dot(mcoeff, dims="coeff")
     residuals = da_timeseries - smodel
-- 
2.43.0


From 386d224334d2fb19333dc24930e8bd1cf42e9918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:14 +0000
Subject: [PATCH 09/25] fix: trends along a datetime64 axis honour the
 requested time units

---
 src/momlevel/trend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 43feef5..fc53b84 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -3,6 +3,7 @@
 import warnings
 import cftime
 import numpy as np
+import pandas as pd
 import xarray as xr
 
 from xarray.core.missing import get_clean_interp_index
@@ -56,7 +57,7 @@ def broadcast_trend(slope, dim_arr, subtract_time_zero=False):
 
     # Determine if we have time trend. If so, check the units and convert
     # to nanoseconds if necessary
-    time_indexes = [xr.coding.cftimeindex.CFTimeIndex]
+    time_indexes = [xr.coding.cftimeindex.CFTimeIndex, pd.DatetimeIndex]
     if any([isinstance(dim_arr.indexes[dim_name], x) for x in time_indexes]):
         # Flag to throw default behavior warning
         warn_time_units = False
@@ -267,7 +268,7 @@ def calc_linear_trend(arr, dim="time", time_units=None):
     intercept = intercept.rename(f"{varname}_intercept")
 
     # determine slope units
-    time_indexes = [xr.coding.cftimeindex.CFTimeIndex]
+    time_indexes = [xr.coding.cftimeindex.CFTimeIndex, pd.DatetimeIndex]
     if any([isinstance(arr.indexes[dim], x) for x in time_indexes]):
         time_units = "ns" if time_units is None else time_units
 
-- 
2.43.0


From f7ef6e4edb18f959d5b248b23b1f71661a051682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:14 +0000
Subject: [PATCH 10/25] fix: geolocate_points honours loc_coords throughout

---
 src/momlevel/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 1b56c6a..51fb1d5 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -361,8 +361,8 @@ def geolocate_points(
     df2["dim_vals"] = list(df1.index)
 
     # Clean up coordinates
-    df2["real_coords"] = list(zip(df2["lat"].values, df2["lon"].values))
-    df2 = df2.drop(["yrad", "xrad", "lat", "lon"], axis=1)
+    df2["real_coords"] = list(zip(df2[ycoord2].values, df2[xcoord2].values))
+    df2 = df2.drop(["yrad", "xrad", ycoord2, xcoord2], axis=1)
 
     return df2
 
-- 
2.43.0


From 76f2e8455172d53c89e7bc4d0a57f447f3e4d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:14 +0000
Subject: [PATCH 11/25] fix: geolocate_points warns about exactly the points
 that it drops

---
 src/momlevel/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 51fb1d5..2758629 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -342,8 +342,8 @@ def geolocate_points(
     df2["distance"], df2["mod_index"] = ball.query(df2[["yrad", "xrad"]].values, k=1)
     df2["distance"] = df2["distance"] * rad_earth
 
-    if not disable_warning:
-        df_missing = df2[df2["distance"] >= threshold]
+    if not disable_warning and threshold is not None:
+        df_missing = df2[df2["distance"] > threshold]
         if len(df_missing) > 0:
             for _, row in df_missing.iterrows():
                 warnings.warn(
-- 
2.43.0


From 4974e6fc8048f15f5e5ab5ea87a8e978540df14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:14 +0000
Subject: [PATCH 12/25] fix: validate_dataset rejects a reference that has a
 time coordinate

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 2758629..5d060b1 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -727,7 +727,7 @@ def validate_dataset(dset, reference=False, strict=True, additional_vars=None):
     if reference:
         try:
             assert "time" not in [
-                x.lower for x in list(dset.coords)
+                str(x).lower() for x in list(dset.coords)
             ], "Reference dataset cannot contain a time coordinate"
         except AssertionError as e:
             exceptions.append(e)
-- 
2.43.0


From 790dec1c2e7a2a4265d0cd52e75747d29c1b2147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:14 +0000
Subject: [PATCH 13/25] fix: annual_average names its time axis after tcoord

---
 src/momlevel/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 5d060b1..73d1b4d 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -87,8 +87,8 @@ def annual_average(xobj, tcoord="time"):
             groups[grp].weighted(groups[grp][tcoord].dt.days_in_month).mean(tcoord)
         )
 
-    result = xr.concat(_annuals, dim="time")
-    result = result.transpose("time", ...)
+    result = xr.concat(_annuals, dim=tcoord)
+    result = result.transpose(tcoord, ...)
 
     def _find_ann_midpoint(year, calendar=calendar):
         """finds the midpoint of the year along the time dimension"""
@@ -102,7 +102,7 @@ def annual_average(xobj, tcoord="time"):
         for x in dict(groups).keys()
     ]
 
-    result = result.assign_coords({"time": new_time_axis})
+    result = result.assign_coords({tcoord: new_time_axis})
 
     if isinstance(xobj, xr.core.dataset.Dataset):
         for var in list(result.variables):
-- 
2.43.0


From 0825f719b215aeda3a7913493c46b5821b6ae191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:14 +0000
Subject: [PATCH 14/25] fix: steric(annual=True) works with a renamed time
 coordinate

---
 src/momlevel/steric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index abe23cb..6deee08 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -179,7 +179,7 @@ def steric(
             result[var].attrs = dset[var].attrs
 
     if annual:
-        result = annual_average(result)
+        result = annual_average(result, tcoord=tcoord)
 
     return (result, reference)
 
-- 
2.43.0


From bc8e5734b06f4c882b762e5162d2e5eaa2d7cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:14 +0000
Subject: [PATCH 15/25] fix: monthly_average accepts years that are not
 complete

---
 src/momlevel/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 73d1b4d..0b12c51 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -497,8 +497,8 @@ def monthly_average(xobj, tcoord="time"):
         )
 
         bounds = [
-            bounds[x] + (bounds[x + 1] - bounds[x]) / 2
-            for x in range(0, len(bounds) - 1)
+            bounds[x - 1] + (bounds[x] - bounds[x - 1]) / 2
+            for x in _ds["month"].values
         ]
 
         _ds = _ds.rename({"month": tcoord})
-- 
2.43.0


From a269fcf67251d53a841c5c123aecac9899fbe1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:14 +0000
Subject: [PATCH 16/25] fix: cells centered on a pole have the area of a polar
 cap

---
 src/momlevel/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 0b12c51..1e4e5b6 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -585,8 +585,9 @@ def standard_grid_cell_area(lat, lon, r_earth=6371.0e3):
     d_lon = lon[1] - lon[0]
 
     # Create coordinate arrays
-    lat0 = lat[:, None] - d_lat / 2  # Add dimension for broadcasting
-    lat1 = lat[:, None] + d_lat / 2
+    # (cells centered on a pole end at the pole)
+    lat0 = np.clip(lat[:, None] - d_lat / 2, -90.0, 90.0)
+    lat1 = np.clip(lat[:, None] + d_lat / 2, -90.0, 90.0)
     lon0 = lon[None, :] - d_lon / 2
     lon1 = lon[None, :] + d_lon / 2
 
-- 
2.43.0


From dbfce1c3c86ecd6487b8afbe8abc69f651f01847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:14 +0000
Subject: [PATCH 17/25] fix: the N2 adjustment follows the vertical coordinate
 it is given

---
 src/momlevel/derived.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 67b61b9..9d90fb9 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -406,7 +406,7 @@ def calc_n2(
         "units": "s-2",
     }
 
-    n2 = adjust_negative_n2(n2) if adjust_negative else n2
+    n2 = adjust_negative_n2(n2, zcoord=zcoord) if adjust_negative else n2
 
     return n2
 
@@ -817,7 +817,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
         in units of m s-1
     """
 
-    result = (np.sqrt(adjust_negative_n2(n2)) * dz).sum(zcoord) / np.pi
+    result = (np.sqrt(adjust_negative_n2(n2, zcoord=zcoord)) * dz).sum(zcoord) / np.pi
     result = xr.where(n2[0].isnull(), np.nan, result)
 
     result.attrs = {
-- 
2.43.0


From 9b894c08208952b03c1b002e91b470a15663fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:14 +0000
Subject: [PATCH 18/25] fix: linear alpha and beta are not truncated for
 integer temperatures

---
 src/momlevel/eos/linear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/eos/linear.py b/src/momlevel/eos/linear.py
index 300ae72..52a5e74 100644
--- a/src/momlevel/eos/linear.py
+++ b/src/momlevel/eos/linear.py
@@ -8,8 +8,6 @@ __all__ = [
     "beta",
 ]
 
-import numpy as np
-
 # In a linear equation of state, the density derivatives are typically not
 # calculated and are fixed parameters.
 
@@ -133,7 +131,7 @@ def alpha(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return -1.0 * (np.full_like(T, fill_value=DRHO_DT) / density(T, S, p))
+    return -1.0 * (drho_dtemp(T, S, p) / density(T, S, p))
 
 
 def beta(T, S, p):
@@ -159,4 +157,4 @@ def beta(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return np.full_like(T, fill_value=DRHO_DS) / density(T, S, p)
+    return drho_dsal(T, S, p) / density(T, S, p)
-- 
2.43.0


From 7d1873260c8807fcd1b622bd81a6d53e58f21924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:47 +0000
Subject: [PATCH 19/25] fix: extract_tidegauge aligns coordinates and mask by
 dimension name

---
 src/momlevel/tidegauge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/tidegauge.py b/src/momlevel/tidegauge.py
index 3aec20e..17ee6f0 100644
--- a/src/momlevel/tidegauge.py
+++ b/src/momlevel/tidegauge.py
@@ -102,11 +102,13 @@ def extract_tidegauge(
 
     # Check that dimensions are the same for x/y coords
     _xdims = tuple(_xcoord.dims)
-    _ydims = tuple(_xcoord.dims)
-    assert _xdims == _ydims
+    _ydims = tuple(_ycoord.dims)
+    assert set(_xdims) == set(_ydims)
+    _ycoord = _ycoord.transpose(*_xdims)
 
     # Make sure mask does not have missing values
     mask = mask.fillna(0.0) if mask is not None else xr.ones_like(_xcoord)
+    mask = mask.transpose(*_xdims)
     if mask.name != "mask":
         mask = mask.rename("mask")
 
-- 
2.43.0


From e0c3440e1ada554c9eea11499641d8b006b4909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:02 +0000
Subject: [PATCH 20/25] fix: deseason returns coefficients for a single time
 series

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index fc53b84..40a0a0c 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -601,7 +601,7 @@ def _detrend_deseason_chunk(chunk, axis=-1, daysinyear=365, output_format="resid
     if output_format == "coeff":
         # Reshape the chunk to 2D: (spatial_points, time)
         original_shape = chunk.shape
-        n_spatial_points = np.prod(original_shape[:-1])
+        n_spatial_points = int(np.prod(original_shape[:-1]))
         chunk_2d = chunk.reshape(n_spatial_points, original_shape[-1])
 
         # Apply the function to each spatial point
-- 
2.43.0


From 3fad9154029112ba9e347368a73221bd0b9ed7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:49 +0000
Subject: [PATCH 21/25] fix: calculations no longer clear the attributes of
 their input's coordinates

---
 src/momlevel/derived.py | 18 +++++++++---------
 src/momlevel/steric.py  |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 9d90fb9..12f9229 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -51,12 +51,12 @@ def adjust_negative_n2(n2, zcoord="z_l"):
        Adjusted Brunt-Väisälä frequency, or buoyancy frequency, in s-2
     """
 
-    # save original data mask and attributes
-    mask = xr.where(n2.isnull(), np.nan, 1.0)
+    # save original attributes
     attrs = n2.attrs
 
     # mask out negative values of N2
-    adjusted = xr.where(n2 <= 0.0, np.nan, n2)
+    # (`xr.where` would clear the attributes of the coordinates shared with the input)
+    adjusted = n2.where(n2 > 0.0)
 
     # set negative surface values of N^2 to 1.e-8
     adjusted[0] = adjusted[0].fillna(1.0e-8)
@@ -65,7 +65,7 @@ def adjust_negative_n2(n2, zcoord="z_l"):
     adjusted = adjusted.ffill(zcoord)
 
     # reapply mask and attributes from source N2
-    adjusted = adjusted * mask
+    adjusted = adjusted.where(n2.notnull())
     adjusted.attrs = {**attrs, "comment": "adjustment applied for negative values"}
 
     return adjusted
@@ -309,17 +309,17 @@ def calc_dz(levels, interfaces, depth, top=0.0, bottom=None, fraction=False):
 
     # calculate partial cell based on bottom boundary
     part = depth - ztop
-    part = xr.where(part < 0.0, 0.0, part)
+    part = part.where(part >= 0.0, 0.0)
     result = np.minimum(part, dz_field)
 
     # calculate partial cell based on top boundary
     part = zbot - top
-    part = xr.where(part < 0.0, 0.0, part)
+    part = part.where(part >= 0.0, 0.0)
     result = np.minimum(part, result)
 
     if fraction:
-        _dz_field = xr.where(dz_field == 0, np.nan, dz_field)
-        _dz_part = xr.where(result == 0, np.nan, result)
+        _dz_field = dz_field.where(dz_field != 0)
+        _dz_part = result.where(result != 0)
         result = _dz_part / _dz_field
 
     return result
@@ -818,7 +818,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
     """
 
     result = (np.sqrt(adjust_negative_n2(n2, zcoord=zcoord)) * dz).sum(zcoord) / np.pi
-    result = xr.where(n2[0].isnull(), np.nan, result)
+    result = result.where(n2[0].notnull())
 
     result.attrs = {
         "long name": "Ocean gravity wave speed of the first baroclinic mode",
diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index 6deee08..5f2518e 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -148,8 +148,8 @@ def steric(
 
     # otherwise calculate the change in density relative to the reference
     else:
-        delta_rho = xr.where(
-            reference["volcello"].notnull(), rho - reference["rho"], np.nan
+        delta_rho = (rho - reference["rho"]).where(
+            reference["volcello"].notnull(), np.nan
         )
         delta_rho = delta_rho.transpose(tcoord, ...)
         delta_rho.attrs = {
-- 
2.43.0


From 07f4ec0d44b93b2553f6e65fad0556c1507bacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:49 +0000
Subject: [PATCH 22/25] fix: spell long_name of wave speed and Rossby radius
 the CF way

---
 src/momlevel/derived.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 12f9229..f026bc6 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -587,7 +587,7 @@ def calc_rossby_rd(wave_speed, coriolis):
 
     radius = wave_speed / np.abs(coriolis)
     radius.attrs = {
-        "long name": "Rossby radius of deformation",
+        "long_name": "Rossby radius of deformation",
         "units": "m",
     }
     radius = radius.rename(None)
@@ -821,7 +821,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
     result = result.where(n2[0].notnull())
 
     result.attrs = {
-        "long name": "Ocean gravity wave speed of the first baroclinic mode",
+        "long_name": "Ocean gravity wave speed of the first baroclinic mode",
         "units": "m s-1",
     }
 
-- 
2.43.0


From 83a7518aa460f82e48f87f1ee2d3837a68c191b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:54 +0000
Subject: [PATCH 23/25] fix: steric(annual=True) keeps the requested output
 encoding

---
 src/momlevel/steric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index 5f2518e..de0d184 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -180,6 +180,8 @@ def steric(
 
     if annual:
         result = annual_average(result, tcoord=tcoord)
+        for var in result.data_vars:
+            result[var].encoding["dtype"] = dtype
 
     return (result, reference)
 
-- 
2.43.0


From c887c65a366921be00f52d9846d5bc156ca4a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:59 +0000
Subject: [PATCH 24/25] fix: density and spice calculations leave coordinate
 attributes alone

---
 src/momlevel/derived.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index f026bc6..7a4a99d 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -104,6 +104,7 @@ def calc_alpha(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     alpha.attrs = {
@@ -148,6 +149,7 @@ def calc_beta(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     beta.attrs = {
@@ -627,6 +629,7 @@ def calc_rho(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     rho.attrs = {
@@ -700,6 +703,7 @@ def calc_spice(thetao, so):
         thetao,
         so,
         dask="allowed",
+        keep_attrs=True,
     )
 
     pi.attrs = {
-- 
2.43.0


From f6604a958df15e15b8503257e9a7a3afac9a3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:23 +0000
Subject: [PATCH 25/25] fix: calc_n2 on interfaces needs a non-periodic
 vertical axis

xgcm refuses to transform along a periodic axis, and axes are periodic
unless told otherwise, so calc_n2(..., interfaces=...) always raised.
---
 src/momlevel/derived.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 7a4a99d..c56ddfa 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -391,7 +391,7 @@ def calc_n2(
 
     if interfaces is not None:
         _ds = xr.Dataset({"thetao": thetao, "so": so})
-        grid = xgcm.Grid(_ds, coords={"Z": {"center": zcoord}})
+        grid = xgcm.Grid(_ds, coords={"Z": {"center": zcoord}}, periodic=False)
         thetao = grid.transform(thetao, "Z", interfaces, method="linear")
         so = grid.transform(so, "Z", interfaces, method="linear")
         zcoord = interfaces.name
-- 
2.43.0


From 7da3eb0eea86b6b8c6861b823b3a756f4b05db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:34 +0000
Subject: [PATCH 01/35] fix: climate_anomaly: group years by four-digit year

Records spanning a century had the yearly means of years sharing their last
two digits added up.
---
 geocat/comp/climatologies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 1bc805a..c7f16d9 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -192,7 +192,7 @@ def climate_anomaly(
         'day': ('%m-%d', 'D'),
         'month': ('%m', 'MS'),
         'season': (None, 'QS-DEC'),
-        'year': ('%y', 'Y'),
+        'year': ('%Y', 'Y'),
     }
 
     if freq not in freq_dict:
-- 
2.43.0


From d9e3adee49032c7d035b0b724cd30ffaf3443888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 02/35] fix: month_to_season: drop out-of-range seasons by
 their time stamp

Dropping the first or last filtered month by position removed a month of a
complete DJF or NDJ season for records not starting in January, and kept
seasons stamped outside of the range of the data for the other seasons.
---
 geocat/comp/climatologies.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index c7f16d9..1df30c8 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -311,15 +311,6 @@ def month_to_season(
         {time_coord_name: dset[time_coord_name].dt.month.isin(months)}
     )
 
-    if (
-        season == 'DJF'
-    ):  # For this season, the last "mean" will be the value for Dec so we drop the last month
-        data_filter = data_filter.isel({time_coord_name: slice(None, -1)})
-    elif (
-        season == 'NDJ'
-    ):  # For this season, the first "mean" will be the value for Jan so we drop the first month
-        data_filter = data_filter.isel({time_coord_name: slice(1, None)})
-
     # Group the months into three and take the mean
     means = data_filter.resample({time_coord_name: quarter}).mean(keep_attrs=keep_attrs)
     # Set offset for supported array formats
@@ -337,8 +328,19 @@ def month_to_season(
         )
 
     # The line above tries to take the mean for all quarters even if there is not data for some of them
-    # Therefore, we must filter out the NaNs
-    return means.sel({time_coord_name: means[time_coord_name].dt.month == months[1]})
+    # Therefore, we must filter out the NaNs, as well as the means whose middle month is not in the data
+    def month_count(time):
+        return time.dt.year * 12 + time.dt.month
+
+    data_months = month_count(dset[time_coord_name])
+    season_months = month_count(means[time_coord_name])
+    return means.sel(
+        {
+            time_coord_name: (means[time_coord_name].dt.month == months[1])
+            & (season_months >= data_months.min().values)
+            & (season_months <= data_months.max().values)
+        }
+    )
 
 
 def calendar_average(
-- 
2.43.0


From cf820f81661d0ff49ea965fe550be4896b959d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 03/35] fix: calendar/climatology averages: one missing cell
 must not discard a period

dropna without how='all' discarded every period in which any grid cell was
missing (all of them for masked fields), and missing months then counted as
zeros in the weighted sums.
---
 geocat/comp/climatologies.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 1df30c8..04d0bf8 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -435,7 +435,7 @@ def calendar_average(
     dset = (
         dset.resample({time_dim: frequency})
         .mean(keep_attrs=keep_attrs)
-        .dropna(time_dim)
+        .dropna(time_dim, how='all')
     )
 
     # Weight the data by the number of days in each month
@@ -452,7 +452,10 @@ def calendar_average(
         weights = month_length.map(lambda group: group / group.sum())
 
         dset_weighted = dset * weights
-        dset = (dset_weighted).resample({time_dim: frequency}).sum()
+        # Missing months carry no weight
+        weights = dset.notnull() * weights
+        dset = (dset_weighted).resample({time_dim: frequency}).sum(min_count=1)
+        dset = dset / weights.resample({time_dim: frequency}).sum()
 
     # Center the time coordinate by inferring and then averaging the time bounds
     dset = _calculate_center_of_time_bounds(
@@ -633,14 +636,16 @@ def climatology_average(
             dset_filter = (
                 dset_filter.resample({time_dim: frequency})
                 .mean(keep_attrs=keep_attrs)
-                .dropna(time_dim)
+                .dropna(time_dim, how='all')
             )
 
             # Compute the weights for the months in each season so that the
             # seasonal averages account for months being of different lengths
             month_length = dset_filter[time_dim].dt.days_in_month
             weights = month_length / month_length.sum()
-            climatology = (dset_filter * weights).sum(dim=time_dim)
+            # Missing months carry no weight
+            climatology = (dset_filter * weights).sum(dim=time_dim, min_count=1)
+            climatology = climatology / (dset_filter.notnull() * weights).sum(dim=time_dim)
 
             seasonal_climates.append(climatology)
         dset = xr.concat(seasonal_climates, dim='season')
-- 
2.43.0


From 77784d99869007f4fda0d140b4c0dc3c8005e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 04/35] fix: climatology_average: label each bin from its own
 month, day and hour

Labels were taken from a contiguous range of the median year, which failed
whenever the bins are not such a range: 29 February with a non-leap median
year, records that cross the new year without covering it, or years < 1000.
---
 geocat/comp/climatologies.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 04d0bf8..3023cce 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -653,8 +653,13 @@ def climatology_average(
         return dset.assign_attrs(attrs)
 
     else:
-        # Retrieve floor of median year
-        median_yr = np.median(dset[time_dim].dt.year.values)
+        # Retrieve median year, or the closest year with a leap day if there is one in the data
+        years = dset[time_dim].dt.year.values
+        median_yr = np.median(years)
+        leap_years = years[(dset[time_dim].dt.strftime('%m-%d') == '02-29').values]
+        if key in {'hour', 'day'} and leap_years.size > 0:
+            median_yr = leap_years[np.abs(leap_years - median_yr).argmin()]
+        median_yr = round(median_yr)
 
         # Group data by format then calculate average of groups
         dset = (
@@ -664,16 +669,26 @@ def climatology_average(
         )
 
         # Center the time coordinate by inferring and then averaging the time bounds
-        start_time = dset[time_dim].values[0]
-        end_time = dset[time_dim].values[-1]
-        dset = _calculate_center_of_time_bounds(
-            dset,
+        # of the groups in the median year
+        periods = xr.date_range(
+            start=f'{median_yr:04d}-01-01',
+            end=f'{median_yr + 1:04d}-01-01',
+            freq=frequency,
+            calendar=calendar,
+            use_cftime=True,
+            inclusive='left',
+        )
+        labels = xr.DataArray(periods.strftime(format), dims=time_dim)
+        centers = _calculate_center_of_time_bounds(
+            labels,
             time_dim,
             frequency,
             calendar,
-            start=f'{median_yr:.0f}-{start_time}',
-            end=f'{median_yr:.0f}-{end_time}',
+            start=periods[0],
+            end=periods[-1],
             keep_attrs=keep_attrs,
         )
+        in_dset = labels.isin(dset[time_dim].values).values
+        dset = dset.assign_coords({time_dim: centers[time_dim][in_dset].values})
 
         return dset
-- 
2.43.0


From 8cad00ada25cf7ede3406085689dcad7b7f3efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 05/35] fix: calendar/climatology averages: keep periods
 without valid data

Discarding an interior period without valid data left fewer values than time
stamps (an error), and an empty season could not be averaged at all.
---
 geocat/comp/climatologies.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 3023cce..09be500 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -432,11 +432,7 @@ def calendar_average(
     calendar = _infer_calendar_name(dset[time_dim])
 
     # Group data
-    dset = (
-        dset.resample({time_dim: frequency})
-        .mean(keep_attrs=keep_attrs)
-        .dropna(time_dim, how='all')
-    )
+    dset = dset.resample({time_dim: frequency}).mean(keep_attrs=keep_attrs)
 
     # Weight the data by the number of days in each month
     if freq in ['season', 'year']:
@@ -633,10 +629,11 @@ def climatology_average(
             dset_filter = dset.sel({time_dim: dset[time_dim].dt.month.isin(months)})
 
             # Calculate monthly average before calculating seasonal climatologies
-            dset_filter = (
-                dset_filter.resample({time_dim: frequency})
-                .mean(keep_attrs=keep_attrs)
-                .dropna(time_dim, how='all')
+            dset_filter = dset_filter.resample({time_dim: frequency}).mean(
+                keep_attrs=keep_attrs
+            )
+            dset_filter = dset_filter.sel(
+                {time_dim: dset_filter[time_dim].dt.month.isin(months)}
             )
 
             # Compute the weights for the months in each season so that the
-- 
2.43.0


From 508c6c686be349cd6a46b5670b8fbdffb9e23a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 06/35] fix: seasonal averages: keep attributes of the time
 coordinate off the data

---
 geocat/comp/climatologies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 09be500..cafc099 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -444,7 +444,8 @@ def calendar_average(
         format, frequency = freq_dict[key]
         # Compute the weights for the months in each season so that the
         # seasonal/yearly averages account for months being of different lengths
-        month_length = dset[time_dim].dt.days_in_month.resample({time_dim: frequency})
+        month_length = dset[time_dim].dt.days_in_month.drop_attrs()
+        month_length = month_length.resample({time_dim: frequency})
         weights = month_length.map(lambda group: group / group.sum())
 
         dset_weighted = dset * weights
@@ -638,7 +639,7 @@ def climatology_average(
 
             # Compute the weights for the months in each season so that the
             # seasonal averages account for months being of different lengths
-            month_length = dset_filter[time_dim].dt.days_in_month
+            month_length = dset_filter[time_dim].dt.days_in_month.drop_attrs()
             weights = month_length / month_length.sum()
             # Missing months carry no weight
             climatology = (dset_filter * weights).sum(dim=time_dim, min_count=1)
-- 
2.43.0


From 3ebcffb988a908cb4a9372336ce266b2a1d127cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 07/35] fix: hybrid pressures: broadcast numpy coefficients
 against any surface pressure shape

Only two-dimensional surface pressures worked; a leading time axis of the
length of the levels was silently paired with the levels.
---
 geocat/comp/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a840b63..c10a13e 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -413,8 +413,8 @@ def pressure_at_hybrid_levels(psfc, hya, hyb, p0=100000.0):
 
     # broadcast if np inputs
     if isinstance(hya, np.ndarray):  # will be same type by here
-        hya = np.expand_dims(hya, axis=(1, 2))
-        hyb = np.expand_dims(hyb, axis=(1, 2))
+        hya = np.expand_dims(hya, axis=tuple(range(1, psfc.ndim + 1)))
+        hyb = np.expand_dims(hyb, axis=tuple(range(1, psfc.ndim + 1)))
 
     # Results in Pa
     # p(k) = hya(k) * p0 + hyb(k) * psfc
@@ -487,8 +487,8 @@ def delta_pressure_hybrid(
 
     # broadcast any np inputs or drop xarray lev dims
     if isinstance(hya, np.ndarray):  # hya and hyb already validated to be same type
-        hya = np.expand_dims(hya, axis=(1, 2))
-        hyb = np.expand_dims(hyb, axis=(1, 2))
+        hya = np.expand_dims(hya, axis=tuple(range(1, ps.ndim + 1)))
+        hyb = np.expand_dims(hyb, axis=tuple(range(1, ps.ndim + 1)))
     elif isinstance(hya, xr.DataArray):
         # drop lev coords for delta calculation, or xr will try to align
         if len(hya.coords) > 0:
-- 
2.43.0


From 6bf0b6390ea7f2c4c41de32b5641fd7556924bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 08/35] fix: delta_pressure_hybrid: drop all coordinates of the
 coefficients

With a further (scalar) coordinate listed first the level coordinate stayed,
the interfaces were aligned by it and all thicknesses came out as zero.
---
 geocat/comp/interpolation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index c10a13e..49936ad 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -491,10 +491,8 @@ def delta_pressure_hybrid(
         hyb = np.expand_dims(hyb, axis=tuple(range(1, ps.ndim + 1)))
     elif isinstance(hya, xr.DataArray):
         # drop lev coords for delta calculation, or xr will try to align
-        if len(hya.coords) > 0:
-            hya = hya.drop(list(hya.coords)[0])
-        if len(hyb.coords) > 0:
-            hyb = hyb.drop(list(hyb.coords)[0])
+        hya = hya.drop_vars(list(hya.coords))
+        hyb = hyb.drop_vars(list(hyb.coords))
         # make sure hya and hyb dims align, favor hya dim name
         if set(hya.dims) != set(hyb.dims):
             hyb = hyb.rename({hyb.dims[0]: hya.dims[0]})
-- 
2.43.0


From 21fcd692d4c19d1df2086374c92cfed2ad52697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 09/35] fix: interp_hybrid_to_pressure: accept auxiliary
 coordinates along the levels

---
 geocat/comp/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 49936ad..4b3ba92 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -741,10 +741,10 @@ def interp_hybrid_to_pressure(
 
     coords = {}
     for k, v in data.coords.items():
-        if k != lev_dim:
-            coords.update({k: v})
-        else:
+        if k == lev_dim:
             coords.update({"plev": new_levels})
+        elif lev_dim not in v.dims:
+            coords.update({k: v})
 
     output = output.transpose(*dims).assign_coords(coords)
 
-- 
2.43.0


From 27b9e194f14b974435d0873f6da959b9ae9a5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 10/35] fix: interp_hybrid_to_pressure: keep the order of
 unsorted new_levels

Values were returned for the sorted levels under the unsorted coordinate.
---
 geocat/comp/interpolation.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 4b3ba92..a9dbd5b 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -662,6 +662,26 @@ def interp_hybrid_to_pressure(
     except ValueError as vexc:
         raise ValueError(vexc.args[0])
 
+    # metpy only keeps the order of monotonic levels, so sort any others and restore their order
+    level_steps = np.diff(new_levels)
+    if (level_steps > 0).any() and (level_steps < 0).any():
+        order = np.argsort(new_levels)
+        output = interp_hybrid_to_pressure(
+            data,
+            ps,
+            hyam,
+            hybm,
+            p0,
+            np.asarray(new_levels)[order],
+            lev_dim,
+            method,
+            extrapolate,
+            variable,
+            t_bot,
+            phi_sfc,
+        )
+        return output.isel(plev=np.argsort(order))
+
     interp_axis = data.dims.index(lev_dim)
 
     # Calculate pressure levels at the hybrid levels
-- 
2.43.0


From d8d921b2aa7d7cf201fb99e8a137c99a18883600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 11/35] fix: interp_hybrid_to_pressure: accept unchunked data
 with chunked surface pressure

---
 geocat/comp/interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a9dbd5b..1d27453 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -682,6 +682,10 @@ def interp_hybrid_to_pressure(
         )
         return output.isel(plev=np.argsort(order))
 
+    # if any other input is chunked, data needs to be as well
+    if in_dask and data.chunks is None:
+        data = data.chunk()
+
     interp_axis = data.dims.index(lev_dim)
 
     # Calculate pressure levels at the hybrid levels
-- 
2.43.0


From e8c7b96bbab1915c0d073caee69f6cb4864d52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 12/35] fix: interp_sigma_to_hybrid: accept more hybrid than
 sigma levels and integer data

The output was a copy of the first len(hyam) sigma levels: too few of them
failed, and integer data truncated the interpolated values.
---
 geocat/comp/interpolation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 1d27453..9dc73bb 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -850,6 +850,12 @@ def interp_sigma_to_hybrid(
     # Calculate sigma levels at the hybrid levels
     sigma = _sigma_from_hybrid(ps, hyam, hybm, p0)  # Pa
 
+    def _empty_hybrid(sigma_data):
+        # floating point copy of the data with the number of hybrid levels
+        output = sigma_data.isel({lev_dim: np.zeros(len(hyam), dtype=int)})
+        output = output.drop_vars(lev_dim, errors='ignore')
+        return output.astype(np.result_type(data.dtype, np.float32))
+
     non_lev_dims = list(data.dims)
     if data.ndim > 1:
         non_lev_dims.remove(lev_dim)
@@ -858,7 +864,7 @@ def interp_sigma_to_hybrid(
 
         h_coords = sigma_stacked[0, :].copy()
 
-        output = data_stacked[:, : len(hyam)].copy()
+        output = _empty_hybrid(data_stacked)
 
         for idx, (d, s) in enumerate(zip(data_stacked, sigma_stacked)):
             output[idx, :] = xr.DataArray(
@@ -871,8 +877,8 @@ def interp_sigma_to_hybrid(
     else:
         h_coords = sigma
 
-        output = data[: len(hyam)].copy()
-        output[: len(hyam)] = xr.DataArray(
+        output = _empty_hybrid(data)
+        output[:] = xr.DataArray(
             _vertical_remap(func_interpolate, sigma.data, sig_coords.data, data.data),
             dims=[lev_dim],
         )
-- 
2.43.0


From 30eaec5d7415f0b28283d315fa3e489324a3971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 13/35] fix: interp_hybrid_to_pressure: find the lowest level
 when the coefficients lack coordinates

---
 geocat/comp/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 9dc73bb..07eb018 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -327,7 +327,7 @@ def _vertical_remap_extrap(
         A DataArray containing the data after extrapolation.
     """
 
-    sfc_index = pressure[lev_dim].argmax(dim=lev_dim)  # index of the model surface
+    sfc_index = data[lev_dim].argmax(dim=lev_dim)  # index of the model surface
     p_sfc = pressure.isel(
         {lev_dim: sfc_index}, drop=True
     )  # extract pressure at lowest level
-- 
2.43.0


From cb3bd084733c519eac1a02596982d16dff258cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:39 +0000
Subject: [PATCH 14/35] fix: interp_multidim: cyclic points for descending
 longitudes, leading dimensions in arrays

---
 geocat/comp/interpolation.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 07eb018..f1a8fe2 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -106,21 +106,18 @@ def _pre_interp_multidim(
 
     # add cyclic points and create new data array
     if cyclic:
-        padded_data = np.pad(data_in.values, ((0, 0), (1, 1)), mode='wrap')
-        padded_longitudes = np.pad(
-            data_in.coords[data_in.dims[-1]], (1, 1), mode='wrap'
-        )
-        padded_longitudes[0] -= 360
-        padded_longitudes[-1] += 360
-
-        data_in = xr.DataArray(
-            padded_data,
-            coords={
-                data_in.dims[-2]: data_in.coords[data_in.dims[-2]].values,
-                data_in.dims[-1]: padded_longitudes,
-            },
-            dims=data_in.dims,
-        )
+        lon_dim = data_in.dims[-1]
+        padding = [(0, 0)] * (data_in.ndim - 1) + [(1, 1)]
+        padded_data = np.pad(data_in.values, padding, mode='wrap')
+        padded_longitudes = np.pad(data_in.coords[lon_dim], (1, 1), mode='wrap')
+        # longitudes may run in either direction
+        turn = 360 if padded_longitudes[1] <= padded_longitudes[-2] else -360
+        padded_longitudes[0] -= turn
+        padded_longitudes[-1] += turn
+
+        coords = {k: v for k, v in data_in.coords.items() if lon_dim not in v.dims}
+        coords[lon_dim] = padded_longitudes
+        data_in = xr.DataArray(padded_data, coords=coords, dims=data_in.dims)
 
     return data_in
 
@@ -997,8 +994,11 @@ def interp_multidim(
             raise ValueError(
                 "Argument lat_in and lon_in must be provided if data_in is not an xarray"
             )
+        extra_dims = [f'dim_{i}' for i in range(np.ndim(data_in) - 2)]
         data_in = xr.DataArray(
-            data_in, dims=['lat', 'lon'], coords={'lat': lat_in, 'lon': lon_in}
+            data_in,
+            dims=extra_dims + ['lat', 'lon'],
+            coords={'lat': lat_in, 'lon': lon_in},
         )
 
     output_coords = {
-- 
2.43.0


From f49e6229a567b87a1e1bed50af7a506ee017d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 15/35] fix: heat_index: adjust the regression equation only

---
 geocat/comp/meteorology.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index eea45c9..5c90948 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -451,12 +451,14 @@ def heat_index(
     # use Rothfusz for > 79 F for default coeffs to match the published table
     # https://www.weather.gov/safety/heat-tools
     # https://www.weather.gov/images/safety/heatindexchart-650.jpg
-    heatindex = xr.where(heatindex >= crit, rothfusz, heatindex)
+    regression = heatindex >= crit
+    heatindex = xr.where(regression, rothfusz, heatindex)
 
+    # adjustments only belong to the regression equation
     # adjustment for rh <= 13, 80F <= t <= 112F
     heatindex = xr.where(
         np.logical_and(
-            relative_humidity <= 13,
+            regression & (relative_humidity <= 13),
             np.logical_and(temperature >= 80, temperature <= 112),
         ),
         heatindex
@@ -467,7 +469,7 @@ def heat_index(
     # adjustment for rh > 85 and 80F <= t <= 87F
     heatindex = xr.where(
         np.logical_and(
-            relative_humidity > 85,
+            regression & (relative_humidity > 85),
             np.logical_and(temperature >= 80, temperature <= 87),
         ),
         heatindex + ((relative_humidity - 85.0) / 10.0) * ((87.0 - temperature) / 5.0),
-- 
2.43.0


From bd68c719c5828d62080bcabb515324773979a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 16/35] fix: heat_index: check the humidity range also when
 values are missing

---
 geocat/comp/meteorology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 5c90948..23e6fe7 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -398,7 +398,7 @@ def heat_index(
         )
 
     # check relative humidity within valid range 0 to 100
-    if relative_humidity.min() < 0 or relative_humidity.max() > 100:
+    if (relative_humidity < 0).any() or (relative_humidity > 100).any():
         raise ValueError(
             'heat_index: invalid values for relative humidity, expected all between 0 and 100'
         )
-- 
2.43.0


From 940f909f27e69642a9e576beb6f76d2ae1b5f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 17/35] fix: relhum: missing temperatures give missing humidity

---
 geocat/comp/meteorology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 23e6fe7..c85036b 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -576,7 +576,8 @@ def relhum(
     # replace values of t above and below max and min values for temperature
     temperature = temperature.clip(mintemp, maxtemp)
 
-    it = (temperature - mintemp).astype(int)
+    # missing temperatures have no table entry, look up any and stay missing
+    it = xr.where(np.isnan(temperature), 0, temperature - mintemp).astype(int)
     t2 = mintemp + it
 
     es = (t2 + 1 - temperature) * table[it] + (temperature - t2) * table[it + 1]
-- 
2.43.0


From eba2556e48bf352e8eeee6d959763866fc93cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 18/35] fix: delta_pressure: surface within the first layer

---
 geocat/comp/meteorology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index c85036b..22925fa 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1254,6 +1254,10 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
         surface_pressure - (pressure_lev[end_level] + pressure_lev[end_level - 1]) / 2
     )  # bottom level
 
+    # a single layer spans the whole column
+    if start_level == end_level:
+        delta_pressure[start_level] = surface_pressure - pressure_top
+
     # Return delta_pressure to original order
     if is_pressuredecreasing:
         delta_pressure = np.flip(delta_pressure)
-- 
2.43.0


From dadfbd6736e59117df952d1dc0443c3db2d1a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 19/35] fix: relhum_ice, relhum_water: align inputs given in
 another dimension order

---
 geocat/comp/meteorology.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 22925fa..f91c8c2 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -682,7 +682,10 @@ def relhum_ice(
     # output as xarray if input as xarray
     if x_out:
         relative_humidity = xr.DataArray(
-            data=relative_humidity, coords=save_coords, dims=save_dims, attrs=save_attrs
+            data=relative_humidity.transpose(*save_dims),
+            coords=save_coords,
+            dims=save_dims,
+            attrs=save_attrs,
         )
 
     # if elevated to np array, return to original type
@@ -780,7 +783,10 @@ def relhum_water(
     # output as xarray if input as xarray
     if x_out:
         relative_humidity = xr.DataArray(
-            data=relative_humidity, coords=save_coords, dims=save_dims, attrs=save_attrs
+            data=relative_humidity.transpose(*save_dims),
+            coords=save_coords,
+            dims=save_dims,
+            attrs=save_attrs,
         )
 
     return relative_humidity
-- 
2.43.0


From d4663d3625f30a1e9234385379a156d40bc6a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 20/35] fix: variable lookup: prefer names in the listed order

---
 geocat/comp/gc_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/gc_util.py b/geocat/comp/gc_util.py
index 2b9c55f..e4fdb3d 100644
--- a/geocat/comp/gc_util.py
+++ b/geocat/comp/gc_util.py
@@ -117,16 +117,16 @@ def _find_var(
 
     # Then try direct name match
     if possible_names:
-        possible_names_expanded = set()
+        possible_names_expanded = []  # in order of preference
         for name in possible_names:
-            possible_names_expanded.update(
-                {
+            possible_names_expanded.extend(
+                [
                     name,
                     name.lower(),
                     name.upper(),
                     name.capitalize(),
                     '_'.join(word.capitalize() for word in name.split('_')),
-                }
+                ]
             )
 
         for name in possible_names_expanded:
-- 
2.43.0


From 1d733fc13fdd7e0f452c1c55a708b48cc3180e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 21/35] fix: zonal_meridional_psi: accept the other pressure
 coordinate names

---
 geocat/comp/meteorology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index f91c8c2..9b74fa6 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1524,8 +1524,8 @@ def zonal_meridional_psi(
         )
 
     # zonal means
-    da_v_zonal = ux_ipress.zonal_mean(lat=lat)
-    da_v_zonal['plev'] = ux_ipress[plev_coordname]
+    da_v_zonal = ux_ipress.zonal_mean(lat=lat).rename({plev_coordname: 'plev'})
+    da_v_zonal['plev'] = ux_ipress[plev_coordname].rename({plev_coordname: 'plev'})
     da_PS_zonal = uxds[surface_air_pressure_varname].zonal_mean(lat=lat)
 
     # Validate surface pressure before integration
-- 
2.43.0


From 034fd96cec6e3024f8bd4ba717da3614a5879135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 22/35] fix: fourier_filter: resolution and metadata for
 time_axis other than 0

---
 geocat/comp/fourier_filters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 9a663bf..4b0a17d 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -126,9 +126,8 @@ def fourier_filter(
     >>> axs[1].plot(np.imag(no_tide)[start:end])
     >>> fig.show()
     """
-    resolution = frequency / len(signal)
-    signal = np.swapaxes(signal, time_axis, 0)
-    res_fft = np.fft.fft(signal, axis=0)
+    resolution = frequency / np.shape(signal)[time_axis]
+    res_fft = np.fft.fft(np.swapaxes(np.asarray(signal), time_axis, 0), axis=0)
     cfl_index = m.floor(cutoff_frequency_low / resolution)
     cfln_index = 1 - cfl_index
     cfh_index = m.ceil(cutoff_frequency_high / resolution)
-- 
2.43.0


From 6f0ba57ff5fc7beaabc00dae7b4897f2baef2e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 23/35] fix: fourier_filter: high cutoff beyond the Nyquist
 frequency

---
 geocat/comp/fourier_filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 4b0a17d..6107dcf 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -131,6 +131,8 @@ def fourier_filter(
     cfl_index = m.floor(cutoff_frequency_low / resolution)
     cfln_index = 1 - cfl_index
     cfh_index = m.ceil(cutoff_frequency_high / resolution)
+    # no mode lies beyond the Nyquist frequency
+    cfh_index = min(cfh_index, len(res_fft) // 2 + 1)
     cfhn_index = 1 - cfh_index
     if low_pass:
         if cfl_index > 1:
-- 
2.43.0


From 0bc771c97d285c206e3793eea51b57dd9090f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 24/35] fix: gradient: single precision and integer coordinates

---
 geocat/comp/gradient.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/gradient.py b/geocat/comp/gradient.py
index 9bf8f1d..15afc94 100644
--- a/geocat/comp/gradient.py
+++ b/geocat/comp/gradient.py
@@ -239,8 +239,9 @@ def gradient(
     else:
         raise ValueError("lat or lon must be either both 1d or 2d.")
 
-    axis0loc = _arc_lat_wgs84(lat2d)
-    axis1loc = _arc_lon_wgs84(lon2d, lat2d)
+    # the series need double precision, whatever the type of the coordinates
+    axis0loc = _arc_lat_wgs84(lat2d.astype('float64'))
+    axis1loc = _arc_lon_wgs84(lon2d.astype('float64'), lat2d.astype('float64'))
 
     axis0dist = np.gradient(axis0loc, axis=0)
     axis1dist = np.gradient(axis1loc, axis=1)
-- 
2.43.0


From b546ec07df21be2ce1826afd68d166ae4168091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 25/35] fix: gradient: align data whose latitude is not the
 first dimension

---
 geocat/comp/gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geocat/comp/gradient.py b/geocat/comp/gradient.py
index 15afc94..550831c 100644
--- a/geocat/comp/gradient.py
+++ b/geocat/comp/gradient.py
@@ -218,6 +218,8 @@ def gradient(
                 if 'lat' in data.coords.keys() and 'lon' in data.coords.keys():
                     lon = data.coords['lon']
                     lat = data.coords['lat']
+                    if lat.ndim == 1 and lon.ndim == 1:  # latitude varies along axis 0
+                        data = data.transpose(*lat.dims, *lon.dims)
         elif isinstance(data, np.ndarray):
             raise Exception(
                 'lat or lon is None. \
-- 
2.43.0


From 09653947dfa2b2adf54bf3816d7c462560cd39eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 26/35] fix: pearson_r: accept Datasets

---
 geocat/comp/stats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 3b9f484..d4d7d4d 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -182,8 +182,9 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
     r : :class:`xarray.DataArray`, ndarray
         Pearson's correlation coefficient
     """
-    # if a and v are not xr.DataArrays
-    if not isinstance(a, xr.DataArray) and not isinstance(b, xr.DataArray):
+    # if a and b are not xarray objects
+    xr_types = (xr.DataArray, xr.Dataset)
+    if not isinstance(a, xr_types) and not isinstance(b, xr_types):
         if (dim is not None) and (axis is not None):
             warnings.warn(
                 "The `dim` keyword is unused with non xarray.DataArray inputs"
@@ -198,7 +199,7 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
             return xs_internal._pearson_r(a, b, weights, axis, skipna)
         except ValueError:
             print('Data along `axis` must have the same dimension as `weights`')
-    else:  # if a and b are xr.DataArrays
+    else:  # if a and b are xarray objects
         if (dim is not None) and (axis is not None):
             warnings.warn("The `axis` keyword is unused with xarray.DataArray inputs")
         try:
-- 
2.43.0


From 0fe8d085aabd859cb06056f8bdec2aed07c2d2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 27/35] fix: pearson_r: accept lists along an axis

---
 geocat/comp/stats.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index d4d7d4d..e845240 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -189,6 +189,12 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
             warnings.warn(
                 "The `dim` keyword is unused with non xarray.DataArray inputs"
             )
+        if isinstance(a, (list, tuple)):
+            a = np.asarray(a)
+        if isinstance(b, (list, tuple)):
+            b = np.asarray(b)
+        if isinstance(weights, (list, tuple)):
+            weights = np.asarray(weights)
         if axis is None:  # squash array to 1D for element wise computation
             axis = 0
             a = np.ravel(a)
-- 
2.43.0


From 3f2189cdab90569e9b8fac9cd4dcca4e1ba863e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 28/35] fix: eofunc_eofs, eofunc_pcs: time_dim=-1

---
 geocat/comp/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index e845240..3844a85 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -226,6 +226,7 @@ def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
             raise ValueError("ERROR eofunc_efs: `time_dim` out of bound.")
 
         # Transpose data if time_dim is not 0 (i.e. the first/left-most dimension)
+        time_dim = time_dim % data.ndim  # -1 is the last dimension
         dims_to_transpose = np.arange(data.ndim).tolist()
         dims_to_transpose.insert(
             0, dims_to_transpose.pop(dims_to_transpose.index(time_dim))
@@ -403,6 +404,7 @@ def eofunc_eofs(
         dims = ["eof"] + [data.dims[i] for i in range(data.ndim) if i != time_dim]
         coords = {k: v for (k, v) in data.coords.items() if k != data.dims[time_dim]}
     else:
+        time_dim = time_dim % data.ndim
         dims = ["eof"] + [f"dim_{i}" for i in range(data.ndim) if i != time_dim]
         coords = {}
 
-- 
2.43.0


From 8e43702ea5a89a2331d0b33e379e4eb615f30ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 29/35] fix: eofunc_eofs: keep the results off the attributes
 of the input

---
 geocat/comp/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 3844a85..a231b67 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -393,7 +393,7 @@ def eofunc_eofs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     attrs['eigenvalues'] = solver.eigenvalues(neigs=neofs)
     attrs['northTest'] = solver.northTest(neigs=neofs, vfscaled=vfscaled)
@@ -521,7 +521,7 @@ def eofunc_pcs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     dims = ["pc", "time"]
     if meta:
-- 
2.43.0


From 6460f902b45206f4c80973334154c942bb09d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 30/35] fix: eofunc_eofs, eofunc_pcs: metadata with time_dim,
 arrays and coordinates along time

---
 geocat/comp/stats.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index a231b67..154fade 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -377,6 +377,11 @@ def eofunc_eofs(
     `eofunc_n <https://www.ncl.ucar.edu/Document/Functions/Built-in/eofunc_n.shtml>`__,
     `eofunc_n_Wrap <https://www.ncl.ucar.edu/Document/Functions/Contributed/eofunc_n_Wrap.shtml>`__
     """
+    if isinstance(data, xr.DataArray):
+        time_dim = 0  # always the leftmost dimension
+    else:
+        meta = False  # nothing to copy
+
     data, solver = _generate_eofs_solver(
         data, time_dim=time_dim, weights=weights, center=center, ddof=ddof
     )
@@ -402,7 +407,9 @@ def eofunc_eofs(
 
     if meta:
         dims = ["eof"] + [data.dims[i] for i in range(data.ndim) if i != time_dim]
-        coords = {k: v for (k, v) in data.coords.items() if k != data.dims[time_dim]}
+        coords = {
+            k: v for (k, v) in data.coords.items() if data.dims[time_dim] not in v.dims
+        }
     else:
         time_dim = time_dim % data.ndim
         dims = ["eof"] + [f"dim_{i}" for i in range(data.ndim) if i != time_dim]
@@ -502,6 +509,11 @@ def eofunc_pcs(
     `eofunc_ts_n_Wrap <https://www.ncl.ucar.edu/Document/Functions/Contributed/eofunc_ts_n_Wrap.shtml>`__
     """
 
+    if isinstance(data, xr.DataArray):
+        time_dim = 0  # always the leftmost dimension
+    else:
+        meta = False  # nothing to copy
+
     data, solver = _generate_eofs_solver(
         data, time_dim=time_dim, weights=weights, center=center, ddof=ddof
     )
-- 
2.43.0


From 33d56c8715c74f5dbb4052a458a8ae2aac407fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 31/35] fix: interp_sigma_to_hybrid: keep the order of unsorted
 hybrid levels

---
 geocat/comp/interpolation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index f1a8fe2..ac8ac1f 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -160,6 +160,15 @@ def _sigma_from_hybrid(psfc, hya, hyb, p0=100000.0):
 def _vertical_remap(func_interpolate, new_levels, xcoords, data, interp_axis=0):
     """Execute the defined interpolation function on data."""
 
+    # metpy only keeps the order of monotonic levels, so sort any others and restore their order
+    level_steps = np.diff(new_levels)
+    if (level_steps > 0).any() and (level_steps < 0).any():
+        order = np.argsort(np.asarray(new_levels))
+        output = _vertical_remap(
+            func_interpolate, new_levels[order], xcoords, data, interp_axis
+        )
+        return np.take(output, np.argsort(order), axis=interp_axis)
+
     with warnings.catch_warnings():
         warnings.filterwarnings(
             "ignore", r"Interpolation point out of data bounds encountered"
-- 
2.43.0


From a2ee62ac52883f502836c053f40fcce00f3e8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:44 +0000
Subject: [PATCH 32/35] fix: interp_hybrid_to_pressure: declare the type of
 chunked results

---
 geocat/comp/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index ac8ac1f..714b253 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -745,7 +745,7 @@ def interp_hybrid_to_pressure(
             data.data,
             interp_axis,
             chunks=out_chunks,
-            dtype=data.dtype,
+            dtype=np.result_type(data.dtype, pressure.dtype, new_levels.dtype),
             drop_axis=[interp_axis],
             new_axis=[interp_axis],
         )
-- 
2.43.0


From 3ab879158ba5f45309d74d43d568592a40c0ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:58 +0000
Subject: [PATCH 33/35] fix: nmse squares integer fields in floating point

---
 geocat/comp/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 154fade..9ba9daf 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -120,8 +120,9 @@ def nmse(
 
     # weight by zero if modeled or observed is nan
     weights = weights.where(np.logical_not(np.isnan(observed) | np.isnan(modeled)), 0)
-    observed = observed.where(weights != 0, 0)
-    modeled = modeled.where(weights != 0, 0)
+    # (in floating point, integer differences may be too large to square)
+    observed = observed.where(weights != 0, 0.0)
+    modeled = modeled.where(weights != 0, 0.0)
 
     # make sure weights are a DataArray
     if isinstance(weights, xr.Dataset):
-- 
2.43.0


From ec73294d91a4fd586cf5274a137e91095bde305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:58 +0000
Subject: [PATCH 34/35] fix: keep the units of unsorted pressure levels

---
 geocat/comp/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 714b253..f5feb7c 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -671,6 +671,8 @@ def interp_hybrid_to_pressure(
     # metpy only keeps the order of monotonic levels, so sort any others and restore their order
     level_steps = np.diff(new_levels)
     if (level_steps > 0).any() and (level_steps < 0).any():
+        if isinstance(new_levels, (list, tuple)):
+            new_levels = np.asarray(new_levels)
         order = np.argsort(new_levels)
         output = interp_hybrid_to_pressure(
             data,
@@ -678,7 +680,7 @@ def interp_hybrid_to_pressure(
             hyam,
             hybm,
             p0,
-            np.asarray(new_levels)[order],
+            new_levels[order],
             lev_dim,
             method,
             extrapolate,
-- 
2.43.0


From 9ba0b1978c5ad443ead09a444ac9231f8626bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 35/35] fix: delta_pressure_hybrid: accept numpy numbers as
 reference pressure

---
 geocat/comp/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index f5feb7c..89416ac 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -467,7 +467,9 @@ def delta_pressure_hybrid(
     # type check
     if not {type(ps), type(hya), type(hyb)}.issubset({xr.DataArray, np.ndarray}):
         raise TypeError("Inputs must be xarray DataArrays or numpy arrays")
-    if type(p0) not in {float, int}:
+    if type(p0) not in {float, int} and not isinstance(
+        p0, (np.integer, np.floating)
+    ):
         raise TypeError(f"p0 must be a scalar numeric value, received {type(p0)}")
     if type(hya) is not type(hyb):
         raise TypeError(
-- 
2.43.0


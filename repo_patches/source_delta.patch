From 2dc396b139b8f1cbee4d9d2859d47563ea438f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 01/44] fix: get_model_outliers crashes on series without
 outliers

---
 anticipy/forecast_models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index a15ac6f..79a7a6a 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1390,6 +1390,9 @@ def get_model_outliers(df, window=3):
     dfo['is_spike'] = (dfo.mean_group_diff_abs -
                        dfo.mean_group_diff.abs()) > (thr_hi - thr_low) / 2
 
+    if not dfo.ischange.any():  # No outliers - nothing to do
+        return np.full(dfo.index.size, False), np.full(dfo.index.size, False)
+
     # Get the outlier start and end points for each group
     df_outl = (
         dfo.loc[dfo.ischange.astype(bool)].groupby('change_group').apply(
@@ -1398,9 +1401,6 @@ def get_model_outliers(df, window=3):
                  'outl_end': x[x_col].iloc[-1]})).reset_index()
     )
 
-    if df_outl.empty:  # No outliers - nothing to do
-        return np.full(dfo.index.size, False), np.full(dfo.index.size, False)
-
     dfo = dfo.merge(df_outl, how='left')
     # Get the start and end points in dfo
     if with_dates:
-- 
2.43.0


From 7cd828e08e75399845ec9c6630b579a7d9c1a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 02/44] fix: UK August bank holiday is last Monday of August in
 every year

---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 79a7a6a..00c2a94 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1648,7 +1648,7 @@ class CalendarBankHolUK(AbstractHolidayCalendar):
                 offset=DateOffset(weekday=MO(-1))
                 ),
         # August Bank holiday - Last Monday in August
-        Holiday('August Bank Holiday', month=8, day=30,
+        Holiday('August Bank Holiday', month=8, day=31,
                 offset=DateOffset(weekday=MO(-1))
                 )
     ]
-- 
2.43.0


From dd4812edc97799c4beabbf6175f9fe1f03ed8386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 03/44] fix: numeric series starting at x != 0 were
 extrapolated at the wrong x

---
 anticipy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index a87c88f..be91cb5 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -215,7 +215,7 @@ def get_s_x_extrapolate(
             index=index,
             data=np.arange(
                 x_start_actuals,
-                x_start_actuals + index.size)) + x_start_actuals
+                x_start_actuals + index.size))
     if model_requires_scaling(model):
         s_x = s_x / scaling_factor
     return s_x
-- 
2.43.0


From 6e90ae53e4ad36b24581a44cc841fb5a1d6e3e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 04/44] fix: forecast of numeric series leaves out the last
 actuals sample

---
 anticipy/model_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index be91cb5..9c71675 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -208,9 +208,8 @@ def get_s_x_extrapolate(
         index = pd.Index(
             np.arange(
                 date_start_actuals,
-                date_end_actuals +
-                100 *
-                extrapolate_years))
+                date_end_actuals + 1 +
+                int(100 * extrapolate_years)))
         s_x = pd.Series(
             index=index,
             data=np.arange(
@@ -406,7 +405,7 @@ def _fit_linear(df):
     dict_result = fit_model(model_linear, df)
     params = dict_result.get('metadata').params.iloc[0]
     df_pred = extrapolate_model(
-        model_linear, params, df.x.min(), df.x.max() + 1,
+        model_linear, params, df.x.min(), df.x.max(),
         extrapolate_years=0)
 
     df_out = (
-- 
2.43.0


From efc3cf172fd128e6eb7ff6a879ce8a8b57f0f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 05/44] fix: monthly, quarterly and yearly series could not be
 extrapolated by a fraction of a year

---
 anticipy/model_utils.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 9c71675..90f5620 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -187,10 +187,19 @@ def get_s_x_extrapolate(
         # Todo: change to dict to support more frequencies
         freq_units_per_year = dict_freq_units_per_year.get(freq_short, 365.0)
         extrapolate_units = extrapolate_years * freq_units_per_year
-        offset_input = {dict_dateoffset_input.get(freq_short):
-                            extrapolate_units}
-        date_end_forecast = date_end_actuals + \
-                            pd.DateOffset(**offset_input)
+        if freq_short in ('M', 'Q', 'Y', 'A'):
+            # Calendar periods have variable length and cannot be split:
+            # add a whole number of periods, rounded down
+            n_periods = int(extrapolate_units)
+            date_end_forecast = date_end_actuals
+            if n_periods > 0:
+                date_end_forecast += \
+                    n_periods * pd.tseries.frequencies.to_offset(freq)
+        else:
+            offset_input = {dict_dateoffset_input.get(freq_short):
+                                extrapolate_units}
+            date_end_forecast = date_end_actuals + \
+                                pd.DateOffset(**offset_input)
 
         i_date = pd.date_range(
             date_start_actuals,
-- 
2.43.0


From 36d8addc1d95f7a5ba6f45f58d0ac2ddb19a04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 06/44] fix: quarter-start series are not quarter-end series

---
 anticipy/model_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 90f5620..74d1639 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -331,7 +331,12 @@ def detect_freq(a_date):
             return 'M'
     elif min_date_delta >= pd.Timedelta(89, unit='d') and \
             min_date_delta <= pd.Timedelta(92, unit='d'):
-        return 'Q'
+        # QS is quarter start, Q is quarter end. We use QS if all dates match
+        # first of quarter
+        if s_date.dt.day.max() == 1 and (s_date.dt.month % 3 == 1).all():
+            return 'QS'
+        else:
+            return 'Q'
     elif min_date_delta >= pd.Timedelta(365, unit='d') and \
             min_date_delta <= pd.Timedelta(366, unit='d'):
         # YS is month start, Y is month end. We use MS if all dates match first
-- 
2.43.0


From a498402fc2f0569c06b22994d3f0a84f9499ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 07/44] fix: prediction interval of single-date and quarterly
 series

---
 anticipy/forecast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 0a4143a..c361d40 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1563,8 +1563,12 @@ class ForecastInput:
 
 
 def _get_days_from_freq(freq):
+    if freq is None:  # Unknown frequency, e.g. with a single date
+        return 1
     if freq.startswith('Y'):
         return 365
+    elif freq.startswith('Q'):
+        return 91
     elif freq.startswith('M'):
         return 30
     elif freq.startswith('W'):
-- 
2.43.0


From 7fc7e5462882912b75e8de1d72bebcdf41c1d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 08/44] fix: numeric series without valid samples crash instead
 of reporting EMPTY_TS

---
 anticipy/forecast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index c361d40..d734b23 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -494,9 +494,9 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
     # Get first and last actuals date, for metadata. If no a_date, use a_x
     # instead.
     date_start_actuals = i_date.min().date()\
-        if i_date is not None else a_x.min()
+        if i_date is not None else df_y[col_name_x].min()
     date_end_actuals = i_date.max().date()\
-        if i_date is not None else a_x.max()
+        if i_date is not None else df_y[col_name_x].max()
     actuals_x_range = '{}::{}'.format(date_start_actuals, date_end_actuals)
 
     if df_y.empty:
-- 
2.43.0


From 507b3c1c595f84e66967988cddb16d1fc1cb3e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 09/44] fix: series without a name, or with any name, are valid
 input

---
 anticipy/forecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index d734b23..fd28a55 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -328,7 +328,7 @@ def normalize_df(df_y,
         return None
 
     if isinstance(df_y, pd.Series):
-        df_y = df_y.to_frame()
+        df_y = df_y.to_frame(name=col_name_y)
     assert isinstance(df_y, pd.DataFrame)
     assert col_name_y in df_y.columns, \
         'Dataframe needs to have a column named "{}"'.format(
-- 
2.43.0


From 0162811c8635ab8056e7b2e2930d5ddf4068ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 10/44] fix: numeric index of the input was not used as x

---
 anticipy/forecast.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index fd28a55..dce909b 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -372,6 +372,12 @@ def normalize_df(df_y,
             df_y_tmp[col_name_date] = df_y_tmp[col_name_date].pipe(
                 pd.to_datetime)
 
+        # With no date, extract column x from a numeric index
+        if col_name_x not in df_y_tmp.columns and \
+                col_name_date not in df_y_tmp.columns and \
+                pd.api.types.is_numeric_dtype(df_y_tmp.index):
+            df_y_tmp[col_name_x] = df_y_tmp.index
+
         # if isinstance(df_y_tmp.index, pd.DatetimeIndex):
         # We don't need a date index after this point
         df_y_tmp = df_y_tmp.reset_index(drop=True)
@@ -380,7 +386,7 @@ def normalize_df(df_y,
             if col_name_date in df_y_tmp.columns:
                 df_y_tmp[col_name_x] = model_utils.get_normalized_x_from_date(
                     df_y_tmp[col_name_date])
-            else:  # With no date, extract column x from a numeric index
+            else:
                 df_y_tmp[col_name_x] = df_y_tmp.index
 
         l_df_results += [df_y_tmp]
-- 
2.43.0


From 78fa0fbad7f5e6980619b7fc87aa5a143223c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 11/44] fix: x counts days from the first date, not from the
 first row

---
 anticipy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 74d1639..1a29d68 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -117,7 +117,7 @@ dict_dateoffset_input = dict(
 
 def get_normalized_x_from_date(s_date):
     """Get column of days since Monday of first date"""
-    date_start = s_date.iloc[0]
+    date_start = s_date.min()
     # Convert to Monday
     date_start = date_start - pd.to_timedelta(date_start.weekday(), unit='D')
     s_x = (s_date - date_start).dt.days
-- 
2.43.0


From bbff7751e7306b4a3d22d8801dfe2f7abf5a5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 12/44] fix: date_start_actuals was ignored for series without
 dates

---
 anticipy/forecast.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index dce909b..557a4a0 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1198,8 +1198,11 @@ def run_forecast_single(df_y,
     df_y_unfiltered = df_y.copy()
 
     # Filter: only actuals after date_start_actuals
-    if date_start_actuals is not None and 'date' in df_y.columns:
-        df_y = df_y.loc[df_y.date >= date_start_actuals]
+    if date_start_actuals is not None:
+        if 'date' in df_y.columns:
+            df_y = df_y.loc[df_y.date >= date_start_actuals]
+        else:
+            df_y = df_y.loc[df_y.x >= date_start_actuals]
 
     date_start_actuals = df_y.date.min() \
         if 'date' in df_y.columns else df_y.x.min()
-- 
2.43.0


From e0a43a5a6756dde187a3da17fa01990b6f8f436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 13/44] fix: seasonal naive model without output was selected
 as best fit of daily series under 8 days

---
 anticipy/forecast.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 557a4a0..58713a4 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -570,13 +570,19 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
                 a_weights,
                 df_actuals=df_actuals)
             fit_time = (datetime.now() - time_start).total_seconds()
-            cost = 0.5 * np.nansum(a_residuals ** 2)
-            is_fit = True
             params = np.array([])
-            status = 'FIT'
+            # Naive models may have no output for any of the samples, e.g.
+            # snaive_wday with less than 8 days of data
+            is_fit = not np.all(np.isnan(a_residuals))
+            if is_fit:
+                cost = 0.5 * np.nansum(a_residuals ** 2)
+                status = 'FIT'
+                aic_c = model_utils.get_aic_c(cost, len(df_y), n_params)
+            else:
+                status = 'TS_TOO_SHORT'
+                aic_c = np.NaN
 
             # Process results
-            aic_c = model_utils.get_aic_c(cost, len(df_y), n_params)
 
             df_result = _get_df_fit_model(
                 source,
@@ -594,12 +600,12 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
 
             dict_result_df = {
                 'optimality': 0.,
-                'success': True,
+                'success': is_fit,
                 'cost': cost,
                 'iterations': 0.,
                 'jac_evals': 0.,
                 'status': 0,
-                'message': 'Naive model fitted',
+                'message': 'Naive model fitted' if is_fit else status,
                 'params': '-'
             }
             df_result_optimize = pd.DataFrame(
-- 
2.43.0


From 269c7b8dc547a2a807c824bbb573deeb745518a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 14/44] fix: linear models crash if all samples share the same
 x

---
 anticipy/forecast_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 00c2a94..fae26ec 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -765,7 +765,8 @@ def _f_init_params_linear(a_x=None, a_y=None, a_date=None, is_mult=False):
             a_x_size = np.unique(a_x).size - 1
         else:
             a_x_size = a_y.size - 1
-        A = (a_y[-1] - a_y[0]) / a_x_size
+        # Avoid division by zero if all samples share the same x
+        A = (a_y[-1] - a_y[0]) / max(a_x_size, 1)
         B = a_y[0]
         # Uniform low= 0*m, high = 1*m
         return np.array([A, B])
-- 
2.43.0


From b4abf199a14aa10b6714aca2798d788bb6f2528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 15/44] fix: ramp model crashes on series with multiple samples
 per x

---
 anticipy/forecast_models.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index fae26ec..aae1803 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1102,10 +1102,16 @@ def _f_init_params_ramp(a_x=None, a_y=None, a_date=None, is_mult=False):
         # We ignore the last 15% of the time series
         skip_samples = int(np.ceil(df.index.size * 0.15))
 
-        a = (df.head(-skip_samples).tail(
-            -skip_samples).nlargest(1, 'diff2').index[0]
-        )
-        b = df['diff2'].loc[a]
+        s_diff2 = df['diff2'].head(-skip_samples).tail(-skip_samples).dropna()
+        if s_diff2.empty:  # Not enough different x values
+            a = df.index[df.index.size // 2]
+            b = 0.
+        else:
+            a = s_diff2.nlargest(1).index[0]
+            b = s_diff2.loc[a]
+        # With multiple samples per x, bounds may exclude some x values
+        (a_min, _), (a_max, _) = _f_init_bounds_ramp(a_x, a_y, a_date)
+        a = np.clip(a, a_min, a_max)
         # TODO: replace b with estimation of slope in segment 2
         #   minus slope in segment 1 - see init_params_linear
         return np.array([a, b])
-- 
2.43.0


From 0cb822fb897023d4d065f4178a5b3277d03a1794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 16/44] fix: initial guess of sigmoid_step model was outside of
 its bounds

---
 anticipy/forecast_models.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index aae1803..0c5ea2d 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1025,6 +1025,13 @@ def _f_init_params_sigmoid_step(
         c = df.nlargest(1, 'diff').index[0]
         b = df.loc[c, 'y']
         d = b * b
+        if a_x is not None:
+            # Position of the step is a value of x. Initial values need to be
+            # within bounds
+            c = a_x[c]
+            (b_min, _, _), (b_max, _, _) = _f_init_bounds_sigmoid_step(
+                a_x, a_y, a_date)
+            b = np.clip(b, b_min, b_max)
         return b, c, d
 
 
-- 
2.43.0


From 3b68933493b6621c7c40eb92167ebaf8f748e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 17/44] fix: get_s_aic_c_best_result_key returned a position
 instead of a key

---
 anticipy/model_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 1a29d68..92c0247 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -298,10 +298,10 @@ def get_s_aic_c_best_result_key(s_aic_c):
     if s_aic_c.empty or s_aic_c.isnull().all():
         return None
     if (s_aic_c.values == -np.inf).any():
-        (key_best_result,) = (s_aic_c == -np.inf).to_numpy().nonzero()[0]
-        key_best_result = s_aic_c.index[key_best_result.min()]
+        l_best_result = (s_aic_c == -np.inf).to_numpy().nonzero()[0]
+        key_best_result = s_aic_c.index[l_best_result.min()]
     else:
-        key_best_result = s_aic_c.argmin()
+        key_best_result = s_aic_c.idxmin()
     return key_best_result
 
 
-- 
2.43.0


From ad089dd8e107dec4bb0aea7618b05d251684abd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 18/44] fix: dummy variables with the same name shared one
 cached mask

---
 anticipy/forecast_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 0c5ea2d..2b82a39 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1625,8 +1625,10 @@ def get_model_dummy(name, dummy, **kwargs):
 
 
     """
-    mask_name = 'mask_' + name
     f_dummy = _get_f_dummy(dummy)
+    # Cache variables are shared by all components of a composite model:
+    # different dummies with the same name need to have different masks
+    mask_name = 'mask_{}_{}'.format(name, id(f_dummy))
     _validate_f_dummy(f_dummy)
     f_model_dummy = _get_f_model_dummy(f_dummy, mask_name)
     dict_f_cache = {mask_name: f_dummy}
-- 
2.43.0


From cbe372d18b2bfe50d848b804049c0b785b255668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 19/44] fix: output of models with fixed parameters shared
 state between calls

---
 anticipy/forecast_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 2b82a39..f9c563e 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1863,9 +1863,10 @@ def fix_params_fmodel(forecast_model, l_params_fixed):
     n_params = len(i_null[0])
 
     def f_model_fixed(a_x, a_date, params, is_mult=False, **kwargs):
-        params_long = l_params_fixed
+        params_long = l_params_fixed.copy()
         params_long[i_null] = params
-        return forecast_model.f_model(a_x, a_date, params_long, is_mult)
+        return forecast_model.f_model(
+            a_x, a_date, params_long, is_mult, **kwargs)
 
     def f_init_params_fixed(a_x=None, a_y=None, a_date=None, is_mult=False):
         # return params short
-- 
2.43.0


From e839b863278868b2543780a85e776b9e5d22cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 20/44] fix: models with equal min and max bounds crash
 run_forecast

---
 anticipy/forecast.py        | 2 ++
 anticipy/forecast_models.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 58713a4..4da44f1 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1376,6 +1376,8 @@ def run_forecast_single(df_y,
         l_df_optimize_info += [df_optimize_info]
         source_long = df_metadata_tmp.source_long.iloc[0]
         params = df_metadata_tmp.params.iloc[0]
+        # Fitted model may be a simplified version of the input model
+        model = df_metadata_tmp.model_obj.iloc[0]
 
         if df_metadata_tmp.is_fit.iloc[0]:  # If model is fit
 
diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index f9c563e..77d119f 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1916,7 +1916,7 @@ def simplify_model(f_model, a_x=None, a_y=None, a_date=None):
         return f_model
     else:  # We make parameters fixed if their min and max bounds are equal
         params_fixed = np.full(f_model.n_params, np.NaN)
-        params_fixed[i_diff_zero, ] = bounds_max[i_diff_zero, ]
+        params_fixed[i_diff_zero] = np.array(bounds_max)[i_diff_zero]
         f_model = fix_params_fmodel(f_model, params_fixed)
         logger.info(
             'Some min and max bounds are equal - generating fixed model: %s',
-- 
2.43.0


From 783a474f4d1625815668c2147e2e2a25f67ca261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 21/44] fix: anticipy.app cannot be imported in python 3

---
 anticipy/app.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anticipy/app.py b/anticipy/app.py
index 05511cc..a7e68f2 100644
--- a/anticipy/app.py
+++ b/anticipy/app.py
@@ -16,11 +16,10 @@
 import logging
 import pandas as pd
 import os
-import forecast
-import forecast_plot
 import argparse
 
 # -- Private Imports
+from anticipy import forecast, forecast_plot
 
 # -- Globals
 logger = logging.getLogger(__name__)
-- 
2.43.0


From 884d9237345949e3a23caae75c5ed76edc429b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 22/44] fix: output folder of anticipy.app was the parent of
 path_out

---
 anticipy/app.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/app.py b/anticipy/app.py
index a7e68f2..5462940 100644
--- a/anticipy/app.py
+++ b/anticipy/app.py
@@ -55,7 +55,8 @@ def run_forecast_app(path_in, path_out=None, forecast_years=2.0,
         path_out = path_in
     assert os.path.exists(path_out)
 
-    path_folder = os.path.dirname(path_out)
+    path_folder = path_out if os.path.isdir(path_out) \
+        else os.path.dirname(path_out)
 
     logger_info('dir name', path_folder)
 
-- 
2.43.0


From 30748e18afe1ebaca0d4bf8ad2848144954582c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:48 +0000
Subject: [PATCH 23/44] fix: duplicate forecast samples if a naive model is
 also a trend model

---
 anticipy/forecast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 4da44f1..ec94ee5 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1326,7 +1326,9 @@ def run_forecast_single(df_y,
         # Default naive model. To force no naive models, use l_model_naive=[]
         l_model_naive = [forecast_models.model_snaive_wday] if freq == 'D' \
             else [forecast_models.model_naive]
-    l_model = l_model_naive + l_model
+    # A model may be in more than one list - we only need to fit it once
+    l_model = pd.Series(
+        l_model_naive + l_model, dtype=object).drop_duplicates().tolist()
 
     # exclude samples with weight = 0
     df_y = df_y.loc[df_y.weight > 0]
-- 
2.43.0


From b3d8d11dbb777af0f86e032cfcee2668318f1773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 24/44] fix: prediction interval used null-weight samples and
 zero-weight duplicates

---
 anticipy/forecast.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index ec94ee5..cdb441d 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1718,30 +1718,16 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
     else:
         l_cols = ['date']
 
-    if 'weight' in df_forecast.columns and (df_forecast.weight == 0).any():
-
-        # Filter out dates for outliers with weight=0
-        df_filtered_dates = (
-            df_forecast.loc[(df_forecast.weight > 0) &
-                            (df_forecast.is_actuals)]
-            [['date', 'source']]
-        )
-
-        # Take filtered actuals
-        df_actuals_unfiltered = df_forecast.loc[df_forecast.is_actuals &
-                                                ~df_forecast.y.isnull()]
-        df_actuals = (df_actuals_unfiltered[['date', 'y']]
-                      .merge(df_filtered_dates, how='inner')
-                      .rename({'y': 'actuals'}, axis=1)
-                      )
-        date_last_actuals = df_actuals.date.max()
+    df_actuals_unfiltered = df_forecast.loc[df_forecast.is_actuals &
+                                            ~df_forecast.y.isnull()]
+    if 'weight' in df_forecast.columns:
+        # Filter out null or zero-weight samples, e.g. outliers
+        df_actuals = df_actuals_unfiltered.loc[
+            df_actuals_unfiltered.weight > 0]
     else:  # No weight data - use all actuals rows
-        df_actuals_unfiltered = df_forecast.loc[df_forecast.is_actuals &
-                                                ~df_forecast.y.isnull()]
-        df_actuals = (df_actuals_unfiltered[['date', 'y']]
-                      .rename({'y': 'actuals'}, axis=1)
-                      )
-        date_last_actuals = df_actuals.date.max()
+        df_actuals = df_actuals_unfiltered
+    df_actuals = df_actuals[['date', 'y']].rename({'y': 'actuals'}, axis=1)
+    date_last_actuals = df_actuals.date.max()
     # Compute residuals for filtered actuals
     df_residuals_tmp = df_forecast.loc[
         ~df_forecast.is_actuals & ~df_forecast.y.pipe(
-- 
2.43.0


From d59e90d59f24fcb5039ff29f737a5b98ca33d36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 25/44] fix: naive models used zero-weight samples if their x
 had other samples

---
 anticipy/forecast.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index cdb441d..990e657 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1338,17 +1338,18 @@ def run_forecast_single(df_y,
 
     # Actuals table with filled x-axis gaps,
     #  used for extrapolation, naive model fitting
+    # Samples missing from df_y are ignored - set their weight to 0
+    df_y_unfiltered['weight'] = df_y['weight']
     df_actuals_interpolated = (
         df_y_unfiltered
             .pipe(model_utils.interpolate_df, interpolate_y=False)
-            .sort_values(['x'])
+            .assign(weight=lambda df: df.weight.fillna(0))
+            # With multiple samples per x, ignored or null samples go last
+            .assign(is_ignored=lambda df: ~(df.weight > 0.) | df.y.isnull())
+            .sort_values(['x', 'is_ignored'])
+            .drop(columns=['is_ignored'])
             .reset_index(drop=True)
-            # Update weight column in df_actuals_interpolated
-            .drop(columns=['weight'], errors='ignore')
-            .merge(df_y[['x', 'weight']], how='left')
     )
-    df_actuals_interpolated['weight'] = \
-        df_actuals_interpolated.weight.fillna(0)
     # Set all 0-weight samples to null
     df_actuals_interpolated['y'] = \
         df_actuals_interpolated['y'].where(
-- 
2.43.0


From 250bdacf59845853eb80719063ad90e3ee7dc909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 26/44] fix: monthly series with multiple samples per date
 crash even without gaps

---
 anticipy/model_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 92c0247..2fa626f 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -394,6 +394,11 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
         # We need to check if there are duplicate samples
         # - if that is the case, we crash b.c. scenario not supported by asfreq
         if df.date.duplicated().any():
+            i_date_full = pd.date_range(
+                df.date.min(), df.date.max(), freq=freq)
+            if i_date_full.isin(df.date).all():
+                # No gaps - e.g. months have irregular intervals
+                return df
             raise ValueError('Cannot fill gaps on series with multiple '
                              'samples per date')
         df_result = (
-- 
2.43.0


From 4b7536bf705f9102b55defb837d876daffafb04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:49 +0000
Subject: [PATCH 27/44] fix: null and zero-weight samples decided the
 composition of season_add_mult auto

---
 anticipy/model_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 2fa626f..f5a1851 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -484,17 +484,17 @@ def is_multiplicative(df, freq='M'):
     - If date information is unavailable (only x column), use additive
     - If less than 2 periods worth of data are available, use additive
     """
+    # Ignore null and zero-weight samples
+    df = df.loc[~df.y.pipe(pd.isna)]
+    if 'weight' in df.columns:
+        df = df.loc[df.weight > 0]
     if (df.y <= 0).any():
         return False
     if 'date' not in df.columns:
         return False
     if (df.date.max() - df.date.min()) < pd.Timedelta('60 days'):
         return False
-    # Check for series size
-    df_filtered = df.loc[~df.y.pipe(pd.isna)]
-    if 'weight' in df_filtered.columns:
-        df_filtered = df_filtered.loc[df_filtered.weight > 0]
-    if df_filtered.index.size < 4:  # Not enough samples to fit a linear model
+    if df.index.size < 4:  # Not enough samples to fit a linear model
         return False
     df_stats = _get_mult_sum_stats(df, freq)
     # Column corr_mean_to_var is constant
-- 
2.43.0


From 80576c445de56004194149d68342dba976318909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 28/44] fix: model_linear_nondec did not fit series starting at
 0 without growth

---
 anticipy/forecast_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 77d119f..40765f2 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -785,8 +785,10 @@ def f_init_params_linear_nondec(
         a_date=None,
         is_mult=False):
     params = _f_init_params_linear(a_x, a_y, a_date)
-    if params[0] < 0:
-        params[0] = 0
+    if params[0] <= 0:
+        # Start from within the bounds - the optimizer does not converge if
+        # it starts from a null slope and intercept, at the boundary
+        params[0] = np.ptp(a_y) / max(a_y.size - 1, 1)
     return params
 
 
-- 
2.43.0


From af2324257f20f70296343a668b2e25fc0b5d2931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 29/44] fix: samples of multiple sources without x are numbered
 by position in their source

---
 anticipy/forecast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 990e657..38e51f4 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -372,8 +372,10 @@ def normalize_df(df_y,
             df_y_tmp[col_name_date] = df_y_tmp[col_name_date].pipe(
                 pd.to_datetime)
 
-        # With no date, extract column x from a numeric index
-        if col_name_x not in df_y_tmp.columns and \
+        # With no date, extract column x from a numeric index. The index of a
+        # table with multiple sources does not number the samples of a source
+        if not multiple_sources and \
+                col_name_x not in df_y_tmp.columns and \
                 col_name_date not in df_y_tmp.columns and \
                 pd.api.types.is_numeric_dtype(df_y_tmp.index):
             df_y_tmp[col_name_x] = df_y_tmp.index
-- 
2.43.0


From ebb13ec0789bb681eb5bfd450860f46cf256e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 30/44] fix: AICc of perfect fits crashed for series of more
 than 4000 samples

---
 anticipy/model_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index f5a1851..7dce0be 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -281,12 +281,14 @@ def get_aic_c(fit_error, n, n_params):
             # multiple perfect fits - we use a patch instead
             # aicc = -float("inf")
             fit_error = 10 ** -320
-            aicc = n * math.log(fit_error / n) + 2 * n_params + \
+            # E / n can be too small for a float, so split the logarithm
+            aicc = n * (math.log(fit_error) - math.log(n)) + \
+                2 * n_params + \
                 (2 * n_params * (n_params + 1) / (n - n_params - 1))
 
     else:
         # Actual calculation of the AICc
-        aicc = n * math.log(fit_error / n) + 2 * n_params + \
+        aicc = n * (math.log(fit_error) - math.log(n)) + 2 * n_params + \
             (2 * n_params * (n_params + 1) / (n - n_params - 1))
 
     return aicc
-- 
2.43.0


From 75a8e24724e6daaa113c499ea6fddb637b50b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:17 +0000
Subject: [PATCH 31/44] fix: samples of sub-daily series were normalized out of
 order

---
 anticipy/forecast.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 38e51f4..9a43e53 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -407,8 +407,11 @@ def normalize_df(df_y,
     # Sort columns, filter unused columns
     df_result = df_result[[c for c in [
         'date', 'source', 'x', 'y', 'weight'] if c in df_result.columns]]
-    sort_columns = ['source', 'x'] if 'source' in df_result.columns else ['x']
-    df_result = df_result.sort_values(sort_columns).reset_index(drop=True)
+    # Samples of the same day, e.g. hourly, have the same x
+    sort_columns = [c for c in ['source', 'x', 'date']
+                    if c in df_result.columns]
+    df_result = df_result.sort_values(
+        sort_columns, kind='mergesort').reset_index(drop=True)
     return df_result
 
 
-- 
2.43.0


From dc43808968ff9c6f93bd9d1f7b9120d8a96bc7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 32/44] fix: numeric forecasts missed a sample, e.g. with
 extrapolate_years=0.29

---
 anticipy/model_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 7dce0be..863a7a7 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -218,7 +218,8 @@ def get_s_x_extrapolate(
             np.arange(
                 date_start_actuals,
                 date_end_actuals + 1 +
-                int(100 * extrapolate_years)))
+                # Rounding: e.g. 100 * 0.29 is slightly less than 29
+                int(round(100 * extrapolate_years, 6))))
         s_x = pd.Series(
             index=index,
             data=np.arange(
-- 
2.43.0


From 3e27db93605c9f987264dd4c3e0b71f89e2adc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:40 +0000
Subject: [PATCH 33/44] fix: png plots without width or height crash

---
 anticipy/forecast_plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index a8df364..f1b8780 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -93,7 +93,10 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
     act_col = '#00BFC4'
     for_col = '#F8766D'
     plt.style.use('ggplot')
-    figsize = (width / dpi, height / dpi)
+    # Width and height are optional
+    default_width, default_height = plt.rcParams['figure.figsize']
+    figsize = (width / dpi if width is not None else default_width,
+               height / dpi if height is not None else default_height)
 
     # Clean actuals - weights do not get plotted
     df_fcast = df_fcast.loc[df_fcast.model != 'weight']
-- 
2.43.0


From 4c1a8770d6f62910128dddeff26f401ffcb745fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:04 +0000
Subject: [PATCH 34/44] fix: png plots left out prediction intervals with other
 percentiles than 5 and 20

---
 anticipy/forecast_plot.py | 48 ++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index f1b8780..5745005 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -54,7 +54,9 @@ except ImportError:
 def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
                                 width=None, height=None, title=None, dpi=70,
                                 show_legend=True,
-                                include_interval=False):
+                                include_interval=False,
+                                pi_q1=5,
+                                pi_q2=20):
     """
     Creates matplotlib plot from forecast dataframe
 
@@ -83,6 +85,12 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
     :type dpi: int
     :param show_legend: Indicates whether legends will be displayed
     :type show_legend: bool
+    :param include_interval:
+    :type include_interval: bool
+    :param pi_q1: Percentile for outer prediction interval (defaults to 5%-95%)
+    :type pi_q1: int
+    :param pi_q2: Percentile for inner prediction interval (defaults to 20%-80%)
+    :type pi_q2: int
 
     :return: The plot
     :rtype: matplotlib plot instance
@@ -126,27 +134,21 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
             df_fcast.loc[source_filt & ~df_fcast['is_actuals'], 'y'],
             color=for_col, marker='None', linestyle='solid', label='Forecast')
 
-        # Fill area between 5th and 95th prediction interval
-        if include_interval and \
-                ('q5' in df_fcast.columns) and ('q95' in df_fcast.columns):
-            where_to_fill = (source_filt &
-                             (~df_fcast['is_actuals']) &
-                             (~df_fcast['q5'].isnull()) &
-                             (~df_fcast['q95'].isnull()))
-            ax.fill_between(df_fcast.index, df_fcast['q5'], df_fcast['q95'],
-                            where=where_to_fill,
-                            facecolor=for_col, alpha=0.2)
-
-        if include_interval and\
-                ('q20' in df_fcast.columns) and ('q80' in df_fcast.columns):
-            # Fill area between 20th and 80th prediction interval
-            where_to_fill_2 = (source_filt &
-                               (~df_fcast['is_actuals']) &
-                               (~df_fcast['q20'].isnull()) &
-                               (~df_fcast['q80'].isnull()))
-            ax.fill_between(df_fcast.index, df_fcast['q20'], df_fcast['q80'],
-                            where=where_to_fill_2,
-                            facecolor=for_col, alpha=0.2)
+        # Fill area of outer and inner prediction interval
+        for pi_q in [pi_q1, pi_q2]:
+            str_q_low = 'q{}'.format(pi_q)
+            str_q_hi = 'q{}'.format(100 - pi_q)
+            if include_interval and \
+                    (str_q_low in df_fcast.columns) and \
+                    (str_q_hi in df_fcast.columns):
+                where_to_fill = (source_filt &
+                                 (~df_fcast['is_actuals']) &
+                                 (~df_fcast[str_q_low].isnull()) &
+                                 (~df_fcast[str_q_hi].isnull()))
+                ax.fill_between(df_fcast.index,
+                                df_fcast[str_q_low], df_fcast[str_q_hi],
+                                where=where_to_fill,
+                                facecolor=for_col, alpha=0.2)
 
         if subplots:
             # Set the title of each subplot as per source name
@@ -435,7 +437,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
             fig = _matplotlib_forecast_create(df_fcast, subplots, sources,
                                               nrows, ncols, width, height,
                                               title, dpi, show_legend,
-                                              include_interval)
+                                              include_interval, pi_q1, pi_q2)
 
             path = '{}.png'.format(path)
             dirname, fname = os.path.split(path)
-- 
2.43.0


From 1d412dd8d8e9b475afca8ebcb931f45cf0295314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 35/44] fix: html plots to a new folder crash, png plots create
 it

---
 anticipy/forecast_plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 5745005..c6305d6 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -460,6 +460,10 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
                                           add_rangeslider,
                                           include_interval, pi_q1, pi_q2)
             path = '{}.html'.format(path)
+            dirname, fname = os.path.split(path)
+            if dirname != '' and not os.path.exists(dirname):
+                logger.error('Path missing {}'.format(path))
+                os.makedirs(dirname)
             py.offline.plot(fig, filename=path, show_link=False,
                             auto_open=auto_open, include_plotlyjs='cdn')
         else:
-- 
2.43.0


From 1cc368a6fbbf5e4a9a90303a39d0a91c6a78c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:44 +0000
Subject: [PATCH 36/44] fix: samples before date_start_actuals decided sampling
 frequency and gaps

---
 anticipy/forecast.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 9a43e53..b9afbe9 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1200,13 +1200,7 @@ def run_forecast_single(df_y,
     # source time series
     source = source_id
 
-    if 'date' in df_y.columns:
-        freq = detect_freq(df_y.date)
-    else:
-        freq = None
-
     df_y = df_y.copy()
-    df_y_unfiltered = df_y.copy()
 
     # Filter: only actuals after date_start_actuals
     if date_start_actuals is not None:
@@ -1215,6 +1209,14 @@ def run_forecast_single(df_y,
         else:
             df_y = df_y.loc[df_y.x >= date_start_actuals]
 
+    df_y_unfiltered = df_y.copy()
+
+    # Previous samples do not determine the sampling frequency
+    if 'date' in df_y.columns:
+        freq = detect_freq(df_y.date)
+    else:
+        freq = None
+
     date_start_actuals = df_y.date.min() \
         if 'date' in df_y.columns else df_y.x.min()
     date_end_actuals = df_y.date.max() \
-- 
2.43.0


From 3f25f71cfcdae7cdc25fa4e54f6e5d7dd15ebc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 37/44] fix: start date after the last sample of a series
 crashes the forecast

---
 anticipy/forecast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index b9afbe9..9e196e4 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1750,7 +1750,8 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
     if df_residuals.empty:  # May happen if no forecast could be generated
         logger.warning(
             'No forecast data for source %s',
-            df_forecast.source.head(1).iloc[0])
+            df_forecast.source.head(1).tolist()
+            if 'source' in df_forecast.columns else None)
         return df_actuals_unfiltered[l_cols + ['is_actuals', 'model', 'y']]
 
     # Generate table with prediction interval
-- 
2.43.0


From f5a8d9d99b351eaa04ff3ee9c7ae1ffb52c1cb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 38/44] fix: compositions of models without parameters crash
 when they are fitted

---
 anticipy/forecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 9e196e4..4668675 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -567,7 +567,7 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
             # 0-parameter model, no fit required
             time_start = datetime.now()
             a_residuals = get_residuals(
-                None,
+                np.array([]),
                 model,
                 a_x,
                 a_y,
-- 
2.43.0


From e44905c040e067bb52c8b120aa55f7965f962286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 39/44] fix: dates of null values decided the default candidate
 models

---
 anticipy/forecast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 4668675..e933929 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1041,7 +1041,7 @@ def _get_use_ramp(df_y):
     # By default,  piecewise linear requires > 2y
     if 'date' in df_y.columns:
         # Add calendar models
-        s_date_tmp = df_y.date
+        s_date_tmp = df_y.date.loc[df_y.y.notnull()]
         if 'weight' in df_y.columns:
             s_date_tmp = s_date_tmp.loc[df_y.weight > 0]
 
@@ -1065,7 +1065,7 @@ def _get_use_calendar(df_y):
     # use when x
     if 'date' in df_y.columns:
         # Add calendar models
-        s_date_tmp = df_y.date
+        s_date_tmp = df_y.date.loc[df_y.y.notnull()]
         if 'weight' in df_y.columns:
             s_date_tmp = s_date_tmp.loc[df_y.weight > 0]
 
@@ -1268,7 +1268,7 @@ def run_forecast_single(df_y,
     l_model_season_mult = None
     if l_model_season is None:
         if 'date' in df_y.columns:
-            s_date_tmp = df_y.date
+            s_date_tmp = df_y.date.loc[df_y.y.notnull()]
             if 'weight' in df_y.columns:
                 s_date_tmp = s_date_tmp.loc[df_y.weight > 0]
 
@@ -1294,7 +1294,7 @@ def run_forecast_single(df_y,
     if l_model_calendar is not None and 'date' in df_y.columns:
         # Add calendar models
 
-        s_date_tmp = df_y.date
+        s_date_tmp = df_y.date.loc[df_y.y.notnull()]
         if 'weight' in df_y.columns:
             s_date_tmp = s_date_tmp.loc[df_y.weight > 0]
 
-- 
2.43.0


From a4e85ad20a4c9338154a7bdc353e2011d973ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 40/44] fix: models with some fixed parameters ignore the
 requirements of the model on its input

---
 anticipy/forecast_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 40765f2..e6a3b30 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1888,7 +1888,10 @@ def fix_params_fmodel(forecast_model, l_params_fixed):
         n_params,
         f_model_fixed,
         f_init_params_fixed,
-        f_bounds_fixed)
+        f_bounds_fixed,
+        # The requirements of the model hold for its remaining parameters
+        l_f_validate_input=(
+            forecast_model.l_f_validate_input if n_params else None))
     return model_result
 
 
-- 
2.43.0


From ebb91d714a022f6f781ca586b08c1a9a2743fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 41/44] fix: a renamed column collides with an unrelated column
 of the default name

---
 anticipy/forecast.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index e933929..715ecbe 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -343,7 +343,12 @@ def normalize_df(df_y,
         col_name_date: 'date',
         col_name_source: 'source'
     }
-    df_y = df_y.copy().rename(rename_col_dict, axis=1)
+    # Unrelated columns with the name of a renamed column are not used
+    l_cols_unrelated = [
+        col_new for col, col_new in rename_col_dict.items()
+        if col in df_y.columns and col_new not in rename_col_dict]
+    df_y = df_y.drop(columns=l_cols_unrelated, errors='ignore').rename(
+        rename_col_dict, axis=1)
 
     # Placeholder - need to replace all references to col_name_z with z
     col_name_y = 'y'
-- 
2.43.0


From 98ad88a0a1320a2e1d2fabf4f274545202acdfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 42/44] fix: outlier masks depend on the origin of x and its
 fractional part

---
 anticipy/forecast_models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index e6a3b30..d4bd084 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1431,9 +1431,8 @@ def get_model_outliers(df, window=3):
                             (dfo.date >= pd.to_datetime(dfo.outl_start)) &
                             (dfo.date <= pd.to_datetime(dfo.outl_end)))
     else:
-        # For non-date x values, we fill na's and convert to int
-        dfo['outl_start'] = dfo.outl_start.fillna(0).astype(int)
-        dfo['outl_end'] = dfo.outl_end.fillna(0).astype(int)
+        # Samples out of any change have null start and end points, and are
+        # never in the mask
         # Create the mask for spikes and steps
         dfo['mask_spike'] = (dfo['is_spike'] &
                              (dfo.x >= dfo.outl_start) &
-- 
2.43.0


From d4e8997d13e75db40e80045bef968275ae2e8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 43/44] fix: input validation functions that return False were
 ignored

---
 anticipy/forecast_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index d4bd084..a202a57 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -510,7 +510,8 @@ class ForecastModel:
                         for f_validate_input in self.l_f_validate_input]
         except AssertionError:
             return False
-        return True
+        # Validation functions return True or nothing for valid inputs
+        return all(result is None or result for result in l_result)
 
     def init_cache(self, a_x, a_date):
         dict_cache_vars = dict()
-- 
2.43.0


From 724f6de493d64d890267db18c6a78bee56bb1262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:35 +0000
Subject: [PATCH 44/44] fix: initial guess of spike models without values had
 one parameter

---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index a202a57..68b9f8d 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -687,7 +687,7 @@ def _f_init_params_spike(a_x=None, a_y=None, a_date=None, is_mult=False):
     """ params are spike height, x start, x end """
     # if not a_y.any():
     if a_y is None:
-        return [1] + np.random.uniform(0, 1, 1) + [2]
+        return np.concatenate([[1], np.random.uniform(0, 1, 1), [2]])
     else:
         diffs = np.diff(a_y)
         # if diffs:
-- 
2.43.0


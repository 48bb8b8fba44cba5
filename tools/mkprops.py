"""Writes properties.jsonl (run by hand after editing the list below)"""
import json
import os

F, M, U, P, A = ['anticipy/' + s + '.py' for s in (
    'forecast', 'forecast_models', 'model_utils', 'forecast_plot', 'app')]
L = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    L.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))


prop('C01', 'Forecast echoes the actuals and covers its whole date grid',
     'For every valid input series, the actuals rows of the output are '
     'exactly the input samples in date order (the forecast table leaves out '
     'null values, the data table keeps them with their weights). The '
     'forecast rows of a regression model cover, exactly once and without '
     'null values, every sampling date from the first sample used to the end '
     'of the series plus the requested extension rounded down to whole '
     'samples; naive models may only miss dates before the end of the series. '
     'The simplified output is the forecast table of the full output.',
     ['inputs', 'configurations'],
     'every regular series (daily, weekly, monthly, quarterly, yearly or '
     'numeric; gaps, nulls, zero weights, several samples per date), every '
     'extension and candidate list',
     'Tests count rows for a handful of daily, weekly and monthly series '
     'without comparing dates or values; sampling frequency, gaps, null '
     'pattern and extension interact in ways samples do not cover.',
     [F, U],
     [('forecast assembly', F + ':run_forecast_single'),
      ('extrapolation grid', U + ':get_s_x_extrapolate'),
      ('cleaned actuals', F + ':get_df_actuals_clean')],
     ['run_forecast output tables'])

prop('C02', 'The selected model is the fitted candidate with the lowest AICc',
     'The candidates tried are exactly the combinations of the trend, '
     'seasonality, calendar and naive models given, or those the documented '
     'defaults select from the length and frequency of the series. Exactly '
     'one fitted candidate, the one with the minimum AICc, is flagged as best '
     'fit, and the forecast table holds that model only. Without the '
     'all-fits option the data and metadata tables hold just the best fit, '
     'with the same values.',
     ['inputs', 'configurations'],
     'every series and every list of candidate models, additive, '
     'multiplicative or both',
     'Tests check the name of the winner for a few series; the selection has '
     'to be right for any set of candidates and any data.',
     [F, M],
     [('candidate lists', F + ':get_list_model'),
      ('selection by aic_c', F + ':run_forecast_single'),
      ('default seasonality', M + ':get_l_model_auto_season')],
     ['metadata, data and forecast tables'])

prop('C03', 'Fit metadata describe the fitted model exactly',
     'For every fitted candidate, the reported model with the reported '
     'parameters reproduces the forecast rows of that candidate, and the '
     'reported cost is half the sum of its squared weighted residuals over '
     'the samples used, where the weight of a sample is divided by the number '
     'of samples sharing its date. The AICc follows from that cost, the '
     'number of samples used and the number of model parameters; source, '
     'weight range, frequency, date range, status and the optimizer table '
     'agree with the input and with each other.',
     ['inputs', 'configurations'],
     'every series (weights, nulls, repeated dates) and candidate list',
     'Tests print the metadata or check one field on one series; consistency '
     'between tables depends on filtering, weights and repeated dates.',
     [F, U],
     [('fit and residual normalization', F + ':fit_model'),
      ('AICc', U + ':get_aic_c'), ('forecast', F + ':extrapolate_model')],
     ['metadata, data and optimize_info tables'])

prop('C04', 'Fits of linear-in-parameter models are weighted least squares',
     'When a model is linear in its parameters (constant, linear, '
     'non-decreasing linear, weekday, weekend, dated step or spike, date '
     'lists, calendars, yearly Fourier and their sums), its fit reaches the '
     'minimum of the weighted squared error within the bounds of the model, '
     'up to the tolerance of the optimizer. Where that minimum is unique and '
     'well conditioned, the forecast over past and future dates is the one '
     'of the least-squares solution.',
     ['inputs', 'configurations'],
     'every series of moderate values (up to 1e5) and weights, every '
     'linear-in-parameter model',
     'Tests fit exact synthetic data of a few models; a biased fit shows only '
     'on noisy, weighted or repeated samples against an independent solution.',
     [F, M],
     [('optimization', F + ':optimize_least_squares'),
      ('residuals', F + ':get_residuals')],
     ['metadata cost, forecast values'])

prop('C05', 'Null and zero-weight samples never influence the forecast',
     'Replacing the values of samples with zero weight by any other values, '
     'or marking samples as null instead of giving them zero weight, changes '
     'no forecast value, no model selection, no fit statistic and no '
     'prediction interval. The same holds for null values with any weight '
     'and for null weights.',
     ['inputs'],
     'every series, every choice of ignored samples and values in them, every '
     'candidate list including naive and automatic composition',
     'One test of each kind uses one ignored sample and compares one output; '
     'each stage of the pipeline filters samples by itself.',
     [F, M, U],
     [('filters', F + ':fit_model'),
      ('naive model input', F + ':run_forecast_single'),
      ('interval residuals', F + ':_get_pi_single_source')],
     ['forecast table and metadata'])

prop('C06', 'Only relative sample weights matter',
     'Multiplying all weights by one positive constant leaves the forecast '
     'and the selected model unchanged, and equal weights give the forecast '
     'of the series without weights. Giving a sample a larger weight never '
     'moves the fit of a least-squares model away from that sample.',
     ['inputs'],
     'every series, weights and positive factor',
     'Tests compare a weighted with an unweighted run once; the metamorphic '
     'relation holds over all weights and factors.',
     [F],
     [('weighted residuals', F + ':get_residuals')],
     ['forecast table and metadata'])

prop('C07', 'Forecasts are equivariant to units, dates and row order',
     'Scaling or shifting the values of a series scales or shifts the '
     'forecast and its prediction interval in the same way, for additive '
     'models that can express it. Moving all dates by whole weeks, or a '
     'numeric index by any offset, moves the forecast dates and leaves the '
     'values unchanged; the order of input rows is irrelevant.',
     ['inputs'],
     'every series, every unit change, week shift, index offset and row '
     'permutation',
     'No test relates two runs; each relation quantifies over all series and '
     'all transformations.',
     [F, U],
     [('index normalization', U + ':get_normalized_x_from_date'),
      ('sorting', F + ':normalize_df'),
      ('interval of residuals', F + ':get_pi')],
     ['forecast table'])

prop('C08', 'Series in one table are forecast independently of each other',
     'The output for each source of a multi-source table is that of the '
     'source alone, whatever the other sources, their order or how their '
     'rows interleave, and no source is lost, duplicated or mixed. The same '
     'holds for lists of forecast inputs and for the aggregation of separate '
     'results.',
     ['inputs', 'configurations'],
     'every set of sources with different lengths, start dates and contents, '
     'every interleaving',
     'Tests run two similar sources; leaks between sources need sources of '
     'different shape and order.',
     [F],
     [('per-source loop', F + ':run_forecast'),
      ('per-source index', F + ':normalize_df'),
      ('per-source interval', F + ':get_pi')],
     ['output tables per source'])

prop('C09', 'All accepted input layouts give the same forecast',
     'The same series given as a column of dates, text dates, a date index, '
     'a series object, renamed columns or with unrelated extra columns gives '
     'the same forecast, likewise for numeric series with an index column or '
     'index. The caller\'s table is never modified.',
     ['inputs', 'configurations'],
     'every series and every combination of layouts',
     'Tests use each layout once on one series and mostly check that the '
     'call succeeds.',
     [F],
     [('input normalization', F + ':normalize_df')],
     ['output tables; input table after the call'])

prop('C10', 'Input normalization keeps every sample with its day count',
     'Normalizing an input keeps every row exactly once with its value, '
     'weight, date and source, orders rows by source and time, names the '
     'columns canonically and drops the rest. The time index counts days from '
     'the Monday of the week of the first date of each source, or is the '
     'given numeric index, or the position; normalizing twice is the same as '
     'once, and empty input gives nothing.',
     ['inputs', 'configurations'],
     'every table layout, row order, source set, date set and column naming',
     'Tests compare a few literal tables sorted by date.',
     [F, U],
     [('normalization', F + ':normalize_df'),
      ('day count', U + ':get_normalized_x_from_date')],
     ['normalize_df output'])

prop('C11', 'Sampling frequency is recognized from any regular series',
     'For every series sampled hourly, daily, weekly on any weekday, monthly, '
     'quarterly or yearly at the start or end of the period, the frequency '
     'detected regenerates the dates of the series. The answer does not '
     'depend on row order, repeated dates, gaps that leave two neighbouring '
     'samples, or on passing dates alone or in a table; fewer than two dates '
     'have no frequency.',
     ['inputs'],
     'every start date, length, frequency, gap pattern and order',
     'Tests check each frequency from one start date.',
     [U],
     [('detection', U + ':detect_freq')],
     ['detect_freq result'])

prop('C12', 'Gap filling adds the missing samples and changes no other',
     'Filling gaps returns one row per period between the first and last '
     'sample: all original rows unchanged, and rows for exactly the missing '
     'dates or indices, linearly interpolated (as null values of the input) '
     'or null as requested, with a consistent time index and mask. A series without gaps is returned as '
     'it is, also with several samples per date; gaps combined with repeated '
     'dates are rejected with an error.',
     ['inputs', 'configurations'],
     'every regular series and every set of missing samples',
     'Tests fill two or three literal gaps.',
     [U],
     [('gap filling', U + ':interpolate_df')],
     ['interpolate_df output'])

prop('C13', 'The extrapolation grid is exact',
     'For every start, end, frequency and extension, the grid of the '
     'forecast starts at the first actual, contains every period of that '
     'frequency once and in order, and ends the whole number of periods that '
     'fits in the extension after the last actual (365 days, 52 weeks, 12 '
     'months, 4 quarters or 1 year per year; 100 samples per year for '
     'numeric series). Its time index counts days (or samples) from the '
     'index of the first actual, scaled only for models that require it.',
     ['inputs', 'configurations'],
     'every date range, frequency, extension and starting index',
     'Tests check lengths for a few whole-year extensions.',
     [U, F],
     [('grid', U + ':get_s_x_extrapolate'),
      ('model evaluation', F + ':extrapolate_model'),
      ('scaling', U + ':apply_a_x_scaling')],
     ['get_s_x_extrapolate and extrapolate_model output'])

prop('C14', 'Model composition is pointwise algebra over parameter slices',
     'A sum or product of models evaluates, at every point, to the sum or '
     'product of its parts with consecutive slices of the parameters, at any '
     'nesting depth, with the parts evaluated in additive or multiplicative '
     'form accordingly. Names, parameter counts, bounds, initial guesses, '
     'input requirements and cached variables compose in the same order, and '
     'the null model is the identity of both operations. Composing never '
     'changes the parts.',
     ['inputs', 'programs'],
     'every expression over the available models, every parameter vector and '
     'set of dates',
     'Tests compose pairs of models with literal parameters; nesting depth '
     'and mixed sums and products are unbounded.',
     [M],
     [('operators', M + ':ForecastModel.__add__'),
      ('composition of functions', M + ':_get_f_add_2_f_models')],
     ['model call, name, n_params, f_bounds, f_init_params'])

prop('C15', 'Each model computes its documented formula',
     'Every predefined or generated model returns, for any time index, dates '
     'and parameters, one finite value per point equal to its documented '
     'formula, in additive and in multiplicative use. Values at a point '
     'depend on that point only, not on the length, order or other points of '
     'the series.',
     ['inputs'],
     'every model, parameter vector, index, date array, additive or '
     'multiplicative use',
     'Tests check literal arrays of ten points.',
     [M],
     [('model functions', M + ':ForecastModel.__call__')],
     ['model output'])

prop('C16', 'Cached variables never change results',
     'Evaluating a model with its cached variables gives the values of '
     'evaluating it without them, for every model and composition, and '
     'forecasts with and without the cache are the same. Every variable a '
     'model declares is available, and models with the same name do not '
     'share cached masks.',
     ['inputs', 'programs', 'configurations'],
     'every composition of models, dates and parameters; whole forecasts',
     'One test compares cached and uncached runs for a few models.',
     [M, F],
     [('cache', M + ':ForecastModel.init_cache'),
      ('use of the cache', F + ':optimize_least_squares')],
     ['model output, fit metadata, forecasts'])

prop('C17', 'Initial guesses are valid for every series',
     'For every model and composition and every series a fit accepts, the '
     'initial parameters have the right length, are finite and lie within '
     'the bounds of the model, also without the values of a series; bounds are ordered, and fitted parameters stay '
     'within the bounds. Input requirements of a model reject exactly the '
     'series documented (all weekdays present, positive values), and a model '
     'with unmet requirements is reported as such, not fitted.',
     ['inputs'],
     'every series (constant, negative, repeated, short, scaled) and every '
     'model or composition',
     'Tests use tens of smooth samples; guesses go out of bounds only on '
     'unusual shapes.',
     [M, F],
     [('guess and bounds', M + ':validate_initial_guess'),
      ('input validation', M + ':ForecastModel.validate_input')],
     ['f_init_params, f_bounds, fit_model metadata'])

prop('C18', 'Naive forecasts repeat the last valid samples',
     'The naive forecast of a date is the last valid value before it (for '
     'the first samples, the first valid value), and constant after the end '
     'of the series. The weekly naive forecast of a '
     'date is the last valid value on the same weekday before it, repeating '
     'the last week forever; dates without such a value have no forecast. '
     'Null, ignored and missing samples are skipped.',
     ['inputs'],
     'every series with gaps, nulls and zero weights, every extension',
     'Tests compare a few literal series; positions of gaps relative to week '
     'days and the end of the series are not covered.',
     [M, F],
     [('naive', M + ':_f_model_naive'),
      ('weekly naive', M + ':_f_model_snaive_wday')],
     ['forecast rows of naive models'])

prop('C19', 'Calendar and date models mark exactly the right days',
     'Holiday models mark, in every year, exactly the bank holidays of the '
     'country by the published rules, and models from calendars, holidays, '
     'date lists, number lists or functions mark exactly the listed points, '
     'one parameter per list or calendar. The mark of a date does not depend '
     'on the range or order of dates evaluated.',
     ['inputs'],
     'every date and date range, every list and calendar',
     'Tests check about ten dates of two or three years.',
     [M],
     [('calendar rules', M + ':CalendarBankHolUK'),
      ('dummy variables', M + ':get_model_dummy'),
      ('calendar models', M + ':get_model_from_calendars')],
     ['model output'])

prop('C20', 'Automatic seasonality depends only on span and sampling',
     'The seasonality candidates chosen for a series are a function of its '
     'date span and smallest interval only: weekly seasonality above one and '
     'a half weeks of daily data, yearly above one and a half years of at '
     'least quarterly data, combined by sum or product, always including no '
     'seasonality. Caller-supplied lists replace the defaults, an empty list '
     'disables that seasonality, and the list is sorted, without repetitions '
     'of distinct candidates.',
     ['inputs', 'configurations'],
     'every date set, order, repetition and candidate lists',
     'Tests check a few spans far from the thresholds.',
     [M],
     [('rules', M + ':get_l_model_auto_season')],
     ['get_l_model_auto_season output'])

prop('C21', 'AICc follows its formula and picks the minimum',
     'The information criterion equals its documented formula wherever it is '
     'defined, increases with the error and with the number of parameters, '
     'is defined for perfect fits, below any imperfect one, and is an error '
     'for too few samples. The key of the best result is the label of the '
     'minimum, the first of several minus infinities, and nothing when there '
     'is no value.',
     ['inputs'],
     'every error, sample count and parameter count; every list of values',
     'Tests check a handful of literal values.',
     [U],
     [('criterion', U + ':get_aic_c'),
      ('best key', U + ':get_s_aic_c_best_result_key')],
     ['function results'])

prop('C22', 'Prediction intervals are ordered and built from the residuals',
     'Every forecast row has four interval bounds, ordered, at the requested '
     'percentiles, and actuals have none. Over past dates each bound lies '
     'within the forecast plus the range of the centred residuals and '
     'matches their percentiles up to sampling error; future bounds never '
     'exceed the range reachable by the accumulated residuals, a perfect fit '
     'has zero width, and forecast values are not altered.',
     ['inputs', 'configurations'],
     'every forecast table, percentile pair and number of sources',
     'Tests display intervals or check column names; their values are random '
     'and tests compare none of them.',
     [F],
     [('interval', F + ':get_pi'),
      ('percentiles', F + ':_df_add_pi_percentiles')],
     ['interval columns'])

prop('C23', 'Prediction intervals widen once per widening period',
     'Over future dates the interval accumulates one residual per widening '
     'period (year, month, week, day or a given number of days) counted in '
     'samples of the series\' own frequency, so its spread is constant within '
     'a period and grows like the square root of the number of periods. '
     'Over past dates its spread is constant.',
     ['inputs', 'configurations'],
     'every sampling frequency, widening period and horizon',
     'Tests only check that the option is accepted.',
     [F],
     [('widening', F + ':_get_pi_single_source'),
      ('days per frequency', F + ':_get_days_from_freq')],
     ['interval columns over the horizon'])

prop('C24', 'Outlier detection finds isolated spikes and steps, nothing else',
     'A series without changes beyond the interquartile thresholds has no '
     'outliers; a spike far above the noise is marked as spike at its '
     'samples, a lasting step is marked as step and never as spike. Marks '
     'are invariant to value shifts and positive scaling and to using dates '
     'or numbers; forecasts with outlier search equal those with the marked '
     'samples given zero weight, and repeated dates are rejected.',
     ['inputs'],
     'every series, position, size and direction of spikes and steps',
     'Tests use a few literal series.',
     [M, F],
     [('detection', M + ':get_model_outliers'),
      ('use in forecasts', F + ':run_forecast_single')],
     ['get_model_outliers masks, run_forecast(find_outliers)'])

prop('C25', 'Automatic composition follows the documented variance rule',
     'A series is multiplicative only if it has dates, two or more months of '
     'data and positive values, and the monthly variance of its residuals to '
     'the linear trend correlates at least 0.8 with the monthly mean; '
     'otherwise additive. A forecast with automatic composition equals the '
     'forecast with the composition this rule selects.',
     ['inputs'],
     'every series with dates or numbers, nulls and ignored samples',
     'Tests check two generated series.',
     [U, F],
     [('rule', U + ':is_multiplicative'),
      ('use in forecasts', F + ':run_forecast_single')],
     ['is_multiplicative result, metadata add_mult'])

prop('C26', 'Plots show every series and interval of the forecast',
     'Plotting any forecast produces one panel per source with the actuals, '
     'the forecast and, if requested, both interval bands, each drawn with '
     'exactly the dates and values of the table. Saved files appear where '
     'asked, the forecast table is not modified, and unusable input or '
     'output arguments are refused without writing.',
     ['inputs', 'configurations'],
     'every forecast table (numeric or dated, one or many sources, with or '
     'without intervals)',
     'Tests look only at whether a file appears.',
     [P],
     [('plots', P + ':plot_forecast')],
     ['matplotlib figure contents, files'])

prop('C27', 'Short, empty or degenerate series give a status, not a crash',
     'For every series, however short, constant, huge, tiny or empty of '
     'valid samples, a forecast returns well-formed tables: models that '
     'cannot be fitted are reported as not fitted with the documented status, '
     'and never selected, and the actuals are still returned. Every sample '
     'count below the need of a model is reported as too short, never above.',
     ['inputs', 'configurations'],
     'every short, null, zero-weight, constant, extreme (up to 1e100) or '
     'single-date series',
     'Tests check empty and two-sample inputs for a few models.',
     [F],
     [('status', F + ':fit_model'),
      ('empty intervals', F + ':_get_pi_single_source')],
     ['output tables, status'])

prop('C28', 'The command line tool forecasts the file it is given',
     'For every valid input file the tool writes the forecast the library '
     'computes for its contents, in the requested folder and nowhere else, '
     'with the requested extension and interval, and the requested plots. '
     'Unusable files or columns end in an error without output; an unknown '
     'plot format gives the tables without plot.',
     ['inputs', 'configurations'],
     'every readable input table and option set',
     'No test runs the tool.',
     [A],
     [('tool', A + ':run_forecast_app')],
     ['output files'])

prop('C29', 'Samples before the start date play no part in the forecast',
     'A forecast with a start date equals the forecast of the series cut at '
     'that date: no earlier sample appears in the output or influences '
     'fits, selection, naive forecasts or intervals, whatever its value. '
     'Models whose parameters depend on the origin of the time index agree '
     'when both forecasts count time from the same sample.',
     ['inputs', 'configurations'],
     'every series, start date or index, and candidate list',
     'One test compares the first date of the output.',
     [F],
     [('filter', F + ':run_forecast_single')],
     ['output tables'])

prop('C30', 'Fixing parameters equals substituting them',
     'A model with some or all parameters fixed evaluates, for every value '
     'of the remaining ones, to the original with the fixed values '
     'substituted, with bounds and guesses of the remaining ones, in sums and '
     'products too. A model whose bounds leave a parameter one value is fitted '
     'and forecast as if that parameter was fixed, and repeated evaluations '
     'do not affect each other.',
     ['inputs', 'programs'],
     'every model, subset of fixed parameters and values',
     'Tests fix parameters of one or two models.',
     [M, F],
     [('fixing', M + ':fix_params_fmodel'),
      ('fully fixed', M + ':get_fixed_model'),
      ('simplification', M + ':simplify_model')],
     ['model output, fits and forecasts'])

prop('C31', 'Forecasts carry no hidden state between calls',
     'Any history of calls (fits, forecasts, compositions, plots, intervals, '
     'in any order and with failing calls in between) leaves models, inputs '
     'and earlier results unchanged, and repeating a call with the same '
     'random seed gives the same result as in a fresh process.',
     ['histories'],
     'every sequence of library calls',
     'Tests run each call once in an arbitrary order; state leaks need '
     'histories and comparison with a fresh run.',
     [F, M, U],
     [('shared models', M + ':ForecastModel'),
      ('copies of inputs', F + ':normalize_df')],
     ['results of repeated calls'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   'properties.jsonl')
with open(out, 'w') as f:
    for p in L:
        f.write(json.dumps(p) + '\n')
print(len(L), 'properties')

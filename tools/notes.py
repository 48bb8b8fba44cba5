"""Per property: deciding technique, what the oracle is, why tests cannot
settle it, and what is left out. Used for MANIFEST.json and DESIGN.md."""

N = {}


def note(i, technique, oracle, why, out=''):
    N[i] = dict(technique=technique, oracle=oracle, why=why, out=out)


note('C01', 'generated series against an independent date-grid model',
     'The grid is recomputed with plain date arithmetic from the spec of the '
     'generated series (not from the output): actuals row by row, forecast '
     'dates exactly once, no null values, sources, flags, column sets.',
     'The end of the grid depends on frequency, gaps, nulls at the ends, '
     'zero weights and the rounding of the extension; the tests use a few '
     'daily series.',
     'Sub-daily series, quarters that do not start in January.')
note('C02', 'generated candidate lists against a reference selection',
     'Names of all combinations are composed independently; the selected row '
     'must hold the minimum AICc of the fitted ones; runs with and without '
     'include_all_fits are compared; the default candidates are recomputed '
     'from the documented thresholds; candidates the optimizer gives up on '
     'are never selected and leave the others as they are.',
     'Selection depends on the interplay of lists, add/mult/both, failures '
     'of single candidates and spans around the thresholds.',
     'Ties of AICc: any of the tied models is accepted.')
note('C03', 'metadata recomputed from the tables of generated forecasts',
     'Weighted residuals, cost, AICc, ranges, weights text, parameter text '
     'and source_long are recomputed from the rows of the data table (also '
     'from single values and one sample per parameter) and '
     'from the model evaluated at the reported parameters.',
     'Weights times repeated samples times nulls decide the cost; the tests '
     'pin costs of a few unweighted series.')
note('C04', 'differential: scipy least_squares against linear algebra',
     'The design matrix of each linear-in-parameter model comes from the '
     'reference formulas; the minimum from numpy lstsq (or bounded '
     'lsq_linear). Costs must agree within the tolerance of the optimizer, '
     'forecasts where the matrix has condition below 1e4.',
     'Optimality is a statement over all parameter vectors.',
     'Values up to 1e5, condition up to 1e4: beyond, the optimizer of scipy '
     'stops at its own tolerance.')
note('C05', 'metamorphic: junk at ignored samples',
     'Two tables that differ only in the values of ignored samples (zero '
     'weight, null value, null weight) give the same output in every cell; '
     'ignored samples at the ends can be left out altogether.',
     'A leak needs an ignored sample in a special place (start, end, only '
     'sample of a month, one of several per date).',
     'find_outliers uses the values of zero-weight samples, as documented, '
     'and is left out.')
note('C06', 'metamorphic: scaled and equal weights',
     'Factor k: same forecasts, selection, intervals, cost times k squared; '
     'equal weights against none; a larger weight never increases the '
     'residual of its sample (least-squares models).',
     'Holds for every factor and model list.',
     'Selection is compared only with a clear winner; weights times values '
     'above 1e-4 for fitted models, since gtol of scipy is absolute; models '
     'whose parameters the samples determine.')
note('C07', 'metamorphic: units, dates, index, row order',
     'Transformed inputs; the inverse transform of the output is compared.',
     'Equivariance is a relation between runs, for every factor and shift.',
     'Models with a documented absolute scale (step guesses drawn at '
     'random) are compared with a clear winner only; undetermined models '
     'are left out.')
note('C08', 'differential: each source of a table alone',
     'Each source alone with the same random state is the oracle for its '
     'part of the table; also for input lists, intervals and the shared '
     'options (n_cum, percentiles, extrapolation).',
     'Leaks between sources need several sources of other length, '
     'frequency, interleaving, dead or null-only sources.',
     'Rows with a null source id are dropped.')
note('C09', 'metamorphic: 20 layouts of one series',
     'The canonical layout is the oracle for all others; all arguments are '
     'compared with deep copies after the calls.',
     'Layouts times series kinds times options.')
note('C10', 'reference model of normalization',
     'Rows are recomputed from the spec with plain Python; idempotence.',
     'Order, duplicates, sources and containers combine.')
note('C11', 'round trip: frequency regenerates the dates',
     'pd.date_range with the detected frequency must contain every date of '
     'the series and not be finer than the spec; other days of the week, '
     'month and year and intervals without a name must not be given one that '
     'loses dates.',
     'Every start date and frequency; the tests have a few starts.',
     'Two neighbouring samples must be left.')
note('C12', 'reference model of gap filling',
     'Grid and linear interpolation are recomputed row by row, also for '
     'daily samples that have no neighbours.',
     'Gaps in any place, length and frequency.',
     'A gap in a series with repeated dates must be rejected (ValueError).')
note('C13', 'reference grid by calendar arithmetic',
     'Stepwise date arithmetic per frequency; also numeric grids; values of '
     'fixed models over the grid.',
     'Ends of months, leap years, extensions of any length (up to decades).')
note('C14', 'reference evaluator over expression trees',
     'vlib/models.py evaluates the expression tree from the documented '
     'formulas with parameter slices; names, counts, bounds, guesses, '
     'requirements and cached variables are composed independently; the '
     'arguments each part receives are recorded and compared.',
     'Any tree of any models and parameters.')
note('C15', 'reference formulas, pointwise evaluation',
     'Formulas written from the documentation; the value at a subset of '
     'points must be that within any other set of points.',
     'Any dates, parameters and lengths.',
     'Parameters for which the formula is finite.')
note('C16', 'differential: with and without cache',
     'Evaluations, fits and forecasts with use_cache on and off, from the '
     'same random state, also with times of the day and with models that '
     'share a name.',
     'A stale cache needs two models or two date sets of the same name.')
note('C17', 'invariants of guesses and bounds over generated series',
     'Lengths, finiteness, order of bounds, guesses within bounds; documented '
     'requirements recomputed; models of the caller with validation '
     'functions of their own; guesses without values of a series.',
     'Guesses are random or depend on the series; tests sample one.')
note('C18', 'reference model of naive forecasts',
     'Plain loops over the valid samples; with repeated samples any valid '
     'value of the date is accepted.',
     'Nulls, gaps and ignored samples in any place.',
     'Several samples per date.')
note('C19', 'independent holiday rules',
     'Holidays by the published rules (Gregorian computus, n-th weekdays, '
     'observance), for every day of 1980 to 2060 and any range and order.',
     'A wrong rule shows in single years only.',
     'One-off decrees (for example jubilees).')
note('C20', 'reference selection rules',
     'Thresholds on span and interval recomputed; invariance under order, '
     'repetition and container; forecasts show the same candidates.',
     'Limits must be hit exactly.')
note('C21', 'reference formula in exact arithmetic',
     'The formula in extended precision; monotonicity; the key of the best '
     'result recomputed with plain Python.',
     'Extreme errors, counts, infinities, nulls and labels.')
note('C22', 'exact distribution of residual sums',
     'Tables are built with residuals on a lattice; the distribution of '
     'the sum of k residuals is computed exactly by convolution and each '
     'bound must lie in the Dvoretzky-Kiefer-Wolfowitz band (1e-14 per '
     'row); monotone levels from one random state; some series of hundreds '
     'of samples with larger residuals in the first half.',
     'Statements over a random quantity, every row and percentile.',
     'A source without residuals has no intervals.')
note('C23', 'exact distribution of residual sums per period',
     'As C22, with the number of residuals of each row given by the '
     'widening period; growth of the spread.',
     'Every frequency times every period.')
note('C24', 'generated events and invariances',
     'Series with known spikes and steps, exact masks; limits; shift, scale, '
     'sign, labels, origin of x (whole, negative, fractional); forecasts '
     'against zero weight at the marked samples; some series of hundreds '
     'of samples with other noise in the second half.',
     'Masks depend on positions, windows, ties and nulls.',
     'Events at least a window away from the ends and each other.')
note('C25', 'reference rule recomputed from the definition',
     'Linear trend by lstsq, monthly mean and variance, Pearson correlation; '
     'the same answer in other units and another period; some series of '
     'several years.',
     'The rule has several exceptions (span, dates, signs, samples).',
     'Correlations within 1e-4 of the limit.')
note('C26', 'drawn lines against the table',
     'The objects matplotlib drew, and the traces in the HTML file, are '
     'compared with the rows of the table; files written are listed; many '
     'sources, and sources without forecast or intervals; some series of '
     'more than a thousand samples.',
     'Panels, missing intervals, actuals with nulls, sources combine.',
     'Looks (colours, sizes).')
note('C27', 'degenerate series against a status model',
     'The documented status for each model and number of valid samples; '
     'well-formed tables; models the optimizer gives up on.',
     'Each count around each need times each way to lack samples.',
     'Values up to 1e100; products of models may end as NO-FIT.')
note('C28', 'differential: command line tool against the library',
     'The tool runs (in process and as a subprocess) in a scratch folder; '
     'the files are compared with the library forecast of the same file; '
     'ids and names with marks, unusual encodings of cells; actuals keep '
     'all their digits.',
     'Column names, folders, identifiers, dates, options combine.')
note('C29', 'metamorphic: earlier samples added',
     'The forecast of the cut series is the oracle; several sources may begin '
     'before, at or after the start.',
     'Any earlier samples, sampling, values.',
     'Without an x column only models that do not depend on the origin of '
     'x.')
note('C30', 'reference evaluator with substituted parameters',
     'Evaluation, bounds, guesses (same random state) and fits of fixed '
     'models against the original.',
     'Any subset of parameters of any composition.')
note('C31', 'stateful: histories against fresh processes',
     'Random histories of calls on shared tables and models; each result '
     'is that of a fresh process (server of forks started before any call, '
     'with another hash seed). Settings of the process (numpy, pandas, '
     'locale, folder, environment, logging) are as before. Pairs of calls '
     'whose dates share start, end or length find incomplete memo keys.',
     'Hidden state shows only in certain sequences.')

"""Calls into the public API with JSON-able options"""
from vlib import boot  # noqa
from vlib import models
from anticipy import forecast
import numpy as np
import pandas as pd


def kwargs(opts):
    """Translate options of a case to run_forecast() arguments"""
    kw = {}
    for k, v in opts.items():
        if k in ('trend', 'season', 'naive', 'calendar', 'season_yearly',
                 'season_weekly'):
            name = {'trend': 'l_model_trend', 'season': 'l_model_season',
                    'naive': 'l_model_naive', 'calendar': 'l_model_calendar',
                    'season_yearly': 'l_season_yearly',
                    'season_weekly': 'l_season_weekly'}[k]
            kw[name] = None if v is None else [models.build(e) for e in v]
        else:
            kw[k] = v
    return kw


def run(df, **opts):
    """Full dictionary output"""
    opts.setdefault('simplify_output', False)
    return forecast.run_forecast(df, **kwargs(opts))


def seeded_run(seed, df, **opts):
    np.random.seed(seed)
    return run(df, **opts)


def meta_by_model(meta):
    return {r['model']: r for r in meta.to_dict('records')}


def series_of(data, model):
    d = data.loc[~data.is_actuals.astype(bool) & (data.model == model)]
    return d


def dates_of(df):
    return list(df.date)


def ts(x):
    return pd.Timestamp(x)

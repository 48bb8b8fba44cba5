"""Imports: the code under test from /repo, Hypothesis from the tools venv."""
import importlib.machinery
import logging
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_ALLOWED = {'hypothesis', 'sortedcontainers', '_hypothesis_globals',
            '_hypothesis_ftz_detector', 'attr', 'attrs'}


class _ToolFinder:
    """Finds only the property-testing library in the tools venv, so that its
    numpy/pandas never shadow the ones the code under test runs with"""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split('.')[0] not in _ALLOWED or path is not None:
            return None
        return importlib.machinery.PathFinder.find_spec(name, [TOOLS])


sys.meta_path.append(_ToolFinder)
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np  # noqa
import pandas as pd  # noqa
import scipy.optimize  # noqa
import pandas.tseries.holiday  # noqa
import hypothesis  # noqa
# Never trust stale byte code of the code under test
sys.pycache_prefix = '/nonexistent-pycache'
import anticipy  # noqa
from anticipy import forecast, forecast_models, model_utils  # noqa
sys.pycache_prefix = None


def load(name):
    """Import another module of the code under test"""
    import importlib
    sys.pycache_prefix = '/nonexistent-pycache'
    try:
        return importlib.import_module('anticipy.' + name)
    finally:
        sys.pycache_prefix = None


assert os.path.realpath(anticipy.__file__).startswith(
    os.path.realpath(REPO) + os.sep), anticipy.__file__
logging.disable(logging.CRITICAL)
np.seterr(all='ignore')

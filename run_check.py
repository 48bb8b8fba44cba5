"""Entry point: run_check.py CXX [--replay FILE] [--facet F] [--scale S] [--workers N]"""
import glob
import importlib
import os
import sys
from vlib import runner


def selfcheck():
    """setup_cmd: nothing to build, so import every check and the library"""
    for p in sorted(glob.glob(os.path.join(runner.HERE, 'checks', 'c*.py'))):
        m = importlib.import_module(
            'checks.' + os.path.basename(p)[:-3])
        print(m.__name__, [f.name for f in m.FACETS])
    return 0


if __name__ == '__main__':
    sys.exit(selfcheck() if sys.argv[1:] == ['--selfcheck']
             else runner.main(sys.argv[1:]))

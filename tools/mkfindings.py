"""Writes known_findings.json (run by hand); commits are looked up by title"""
import json
import os
import subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--format=%h %s', '67fa22a..HEAD'],
    text=True).splitlines()
PROPS = {
    'a renamed column collides with': ['C09'],
    'models with some fixed parameters ignore': ['C17', 'C27'],
    'get_model_outliers crashes on series without': ['C24'],
    'UK August bank holiday': ['C19'],
    'numeric series starting at x != 0': ['C13'],
    'forecast of numeric series leaves out': ['C01', 'C13'],
    'monthly, quarterly and yearly series could': ['C13'],
    'quarter-start series are not': ['C11'],
    'prediction interval of single-date and quart': ['C23', 'C27'],
    'numeric series without valid samples': ['C27'],
    'series without a name, or with any name': ['C09'],
    'numeric index of the input': ['C09', 'C10'],
    'x counts days from the first date': ['C10', 'C07'],
    'date_start_actuals was ignored': ['C29'],
    'seasonal naive model without output': ['C02'],
    'linear models crash if all samples': ['C27'],
    'ramp model crashes on series with': ['C17'],
    'initial guess of sigmoid_step': ['C17'],
    'get_s_aic_c_best_result_key returned': ['C21'],
    'dummy variables with the same name': ['C16'],
    'output of models with fixed parameters': ['C30'],
    'models with equal min and max bounds': ['C30'],
    'anticipy.app cannot be imported': ['C28'],
    'output folder of anticipy.app': ['C28'],
    'duplicate forecast samples if': ['C01', 'C02'],
    'prediction interval used null-weight': ['C05', 'C22'],
    'naive models used zero-weight': ['C05'],
    'monthly series with multiple samples': ['C01'],
    'null and zero-weight samples decided': ['C25', 'C05'],
    'model_linear_nondec did not fit': ['C04'],
    'samples of sub-daily series were': ['C10'],
    'numeric forecasts missed a sample': ['C13'],
    'AICc of perfect fits crashed': ['C21', 'C27'],
    'samples of multiple sources without x': ['C08', 'C10'],
    'png plots without width or height': ['C26'],
    'png plots left out prediction intervals': ['C26'],
    'html plots to a new folder': ['C26'],
    'samples before date_start_actuals decided': ['C29'],
    'start date after the last sample': ['C29', 'C27'],
    'compositions of models without parameters': ['C17', 'C14'],
    'dates of null values decided the default': ['C05'],
}
EXTRA = os.path.join(ROOT, 'tools', 'fix_props.json')
if os.path.exists(EXTRA):
    PROPS.update(json.load(open(EXTRA)))
out, left = [], dict(PROPS)
for line in reversed(log):
    h, s = line.split(' ', 1)
    assert s.startswith('fix: '), s
    k = [k for k in PROPS if s[5:].startswith(k)]
    assert len(k) == 1, (s, k)
    left.pop(k[0])
    for p in PROPS[k[0]]:
        out.append(dict(kind='fixed', property=p, commit=h, what=s[5:],
                        line='fixed: property={} {} {}'.format(p, h, s[5:])))
assert not left, left
json.dump(out, open(os.path.join(ROOT, 'known_findings.json'), 'w'),
          indent=1)
print(len(out))

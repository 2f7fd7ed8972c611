"""
Runs steps of Python against SLAT's Python interface, and records what is
observed, one line for each step with a result:

    <step> <value> <value> ...     values of a query
    <step> ! <exception>           the step raised an exception

usage: pyworker.py STEPS.json LOG; a step is ["do", code] or ["q", expression].
Like slatdrv, it judges nothing.
"""
import json, os, sys

steps = json.load(open(sys.argv[1]))
log = open(sys.argv[2], 'w', buffering=1)
import pyslat, pyslatcore
import numpy as np
pyslat.LogToStdErr(False)
P = pyslat
MU, SD = pyslat.LOGNORMAL_MU_TYPE, pyslat.LOGNORMAL_SIGMA_TYPE


def flat(v):
    """The numbers in a result"""
    if v is None:
        return ['None']
    if isinstance(v, bool):
        return [str(int(v))]
    if isinstance(v, (int, float, np.number)):
        return ['%.17g' % v]
    if isinstance(v, pyslat.lognormaldist):
        return flat([v.mean_ln(), v.sd_ln(), v.mean(), v.median(), v.sd()])
    if isinstance(v, pyslatcore.LogNormalDist):
        return flat(pyslat.lognormaldist(v))
    if isinstance(v, str):
        return ['"%s"' % v.encode('unicode_escape').decode().replace(' ', '\\x20')]
    if isinstance(v, dict):
        return flat([x for kv in sorted(v.items()) for x in kv])
    try:
        return [x for e in v for x in flat(e)]
    except TypeError:
        return ['<%s>' % type(v).__name__]


env = {'P': P, 'core': pyslatcore, 'np': np, 'MU': MU, 'SD': SD, 'os': os}
for n, (kind, code) in enumerate(steps, 1):
    try:
        if kind == 'q':
            log.write('%d %s\n' % (n, ' '.join(flat(eval(code, env)))))
        else:
            exec(code, env)
    except Exception as e:
        log.write('%d ! %s: %s\n' % (n, type(e).__name__, ' '.join(str(e).split())[:300]))
log.write('END %d\n' % len(steps))
log.close()

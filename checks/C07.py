"""The demand hazard, and compound demand parameters."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
from scipy.special import ndtr, ndtri
import build, drv, ref, gen, formula
from report import Check, main


def lim(w):
    # More than ten a year: a power-law hazard, integrated where it doesn't apply
    return w if w < 10 else None


def make(seed):
    g = gen.Gen(seed)
    c = formula.Case(seed)
    em = gen.Emit(c, g)
    im = g.im()
    e = g.edp(im, compound=g.r.random() < 0.5)
    if len(e['probs']) == 2 and g.r.random() < 0.5:
        # make the curves cross in the range of interest
        p1, p2 = e['probs']
        a = g.lu(0.05, 0.3)
        x0 = g.lu(0.2, 1.5)
        s1, s2 = g.u(0.3, 0.6), g.u(0.3, 0.6)
        e['probs'] = [('mean', 'sd_ln', ('pow', a * x0 ** -0.7, 0.7), ('pow', s1, 0.0)),
                      ('mean', 'sd_ln', ('pow', a * x0 ** -1.3, 1.3), ('pow', s2, 0.0))]
    i = em.edp(e)
    for x in [g.lu(0.02, 4) for _ in range(6)]:
        mu, sg = (float(v) for v in ref.edp_params(e, np.float64(x)))
        d = (mu, sg)
        c.q('edp %s stats %s' % (i, drv.num(x)), 'statistics', [mu, sg, ref.mean(d), float(np.exp(mu)), ref.sd(d)], 1e-6, 1e-9)
        y = float(np.exp(mu + sg * g.u(-3, 3)))
        c.q('edp %s P %s %s' % (i, drv.num(x), drv.num(y)), 'P_exceedence', [float(ndtr(-(np.log(y) - mu) / sg))], 1e-6, 1e-12)
        p = g.u(0.001, 0.999)
        c.q('edp %s X %s %s' % (i, drv.num(x), drv.num(p)), 'X_at_exceedence', [float(np.exp(mu + sg * ndtri(p)))], 1e-6, 1e-12)
    xs = [g.lu(0.02, 4) for _ in range(g.r.randint(1, 17))]
    xs = g.repeated(xs)
    ps = [tuple(float(v) for v in ref.edp_params(e, np.float64(x))) for x in xs]
    for fn, f in (('vMeanLn', lambda d: d[0]), ('vSD_ln', lambda d: d[1]), ('vMean', ref.mean),
                  ('vMedian', lambda d: float(np.exp(d[0]))), ('vSD', ref.sd)):
        c.q('edp %s %s %s' % (i, fn, ' '.join(map(drv.num, xs))), 'statistics (list)', [f(d) for d in ps], 1e-6, 1e-9)
    ys = [g.lu(0.001, 1.0) for _ in range(6)]
    want = [ref.edp_lambda(e, y) for y in ys]
    def rates():
        at = g.repeated(range(6))
        c.q('edp %s vlambda %s' % (i, ' '.join(drv.num(ys[k]) for k in at)), 'rate (list)', [lim(want[k]) for k in at], 0.03, 1e-10)
    if g.r.random() < 0.6:
        rates()
    for y, w in zip(ys[:4], want[:4]):
        c.q('edp %s lambda %s' % (i, drv.num(y)), 'rate', [lim(w)], 0.03, 1e-10)
    rates()
    # what was reported is what is reported, whichever way it is asked for
    c.q('edp %s lambda %s' % (i, drv.num(ys[5])), 'rate', [lim(want[5])], 0.03, 1e-10)
    return c


def check():
    c = Check('C07', 'a case is a hazard curve with fates, and one demand model or a pair of them (half compound, half of '
                     'those made to cross), of any of six parameterisations; non-trivial when distinct by seed')
    exe = build.driver()
    n = 2000 if c.thorough else 220
    formula.run(c, formula.make_all(make, [c.seed * 100019 + k for k in range(n)]), exe)
    return c.finish(n // 2)


if __name__ == '__main__':
    main(check)

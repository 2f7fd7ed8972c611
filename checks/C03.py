"""Probabilistic functions are the lognormal distributions their parameters specify."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
from scipy.special import ndtr, ndtri
import build, drv, ref, gen, formula
from report import Check, main

num = drv.num


def make(seed):
    g = gen.Gen(seed)
    r = g.r
    c = formula.Case(seed)
    c.settings = False
    em = gen.Emit(c, g)
    mt = r.choice(['mean_ln', 'mean', 'median'])
    st = r.choice(['sd_ln', 'sd'])
    p = g.demand((mt, st))
    if st == 'sd' and r.random() < 0.5:
        # a dispersion unrelated to the mean: constant
        p = (mt, st, p[2], ('pow', g.lu(0.003, 0.3), 0.0))
    if st == 'sd_ln' and r.random() < 0.3:
        p = (mt, st, p[2], r.choice([('lin', [0.01, 0.5, 3.0], [g.u(0.1, 1.5) for _ in range(3)]), ('pow', g.u(0.1, 1), g.u(-0.2, 0.2))]))
    if mt == 'mean_ln' and r.random() < 0.3:
        # log of demand: any sign
        p = (mt, st, ('lin', [0.01, 1.0, 4.0], [g.u(-4, 4) for _ in range(3)]), p[3] if st == 'sd_ln' else ('pow', g.lu(0.01, 3), 0.5))
    i = em.prob(p)
    xs = [g.lu(0.02, 5) for _ in range(10)]
    xs += [r.choice(ref.knots(f)) for f in p[2:4] if ref.knots(f)]
    r.shuffle(xs)
    for x in xs:
        mu, sg = (float(v) for v in ref.params(p, np.float64(x)))
        if not (math.isfinite(mu) and 0.01 < sg < 4):
            continue
        d = (mu, sg)
        c.q('prob %s stats %s' % (i, num(x)), 'statistics: %s, %s' % (mt, st), [mu, sg, ref.mean(d), math.exp(mu), ref.sd(d)], 1e-8, 1e-10)
        for _ in range(3):
            z = g.u(-6, 6)
            y = math.exp(mu + z * sg)
            c.q('prob %s P %s %s' % (i, num(x), num(y)), 'P_exceedence', [float(ndtr(-z))], 1e-6, 1e-12)
            q = r.choice([g.u(0.001, 0.999), g.lu(1e-8, 1e-3), 1 - g.lu(1e-6, 1e-3)])
            c.q('prob %s X %s %s' % (i, num(x), num(q)), 'X_at_exceedence', [math.exp(mu + sg * float(ndtri(q)))], 1e-7, 0)
        c.q('prob %s P %s 0' % (i, num(x)), 'P_exceedence', [1.0], 0)
    return c


def check():
    c = Check('C03', 'a case is a probabilistic function, in one of six parameterisations (constant, power-law or tabulated '
                     'parameters), observed at up to a dozen points; non-trivial when distinct by seed')
    exe = build.driver()
    n = 10000 if c.thorough else 1200
    formula.run(c, formula.make_all(make, [c.seed * 1000037 + k for k in range(n)]), exe)
    return c.finish(n // 2)


if __name__ == '__main__':
    main(check)

"""Fragility functions partition outcomes into damage states."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
from scipy.special import ndtr
import build, drv, ref, gen, formula
from report import Check, main

num = drv.num


def make(seed):
    g = gen.Gen(seed)
    r = g.r
    c = formula.Case(seed)
    c.settings = False
    em = gen.Emit(c, g)
    fs = []
    for _ in range(r.choice([1, 2])):
        n = r.choice([1, 2, 3, 4, 5, 8, 20])
        kind = r.choice(['same', 'rising', 'any'])
        m, s = g.lu(0.001, 1), g.u(0.2, 0.8)
        f = []
        for k in range(n):
            f.append(ref.dist('median_sdln', m, s if kind == 'same' else g.u(0.1, 1.0)))
            m *= g.u(1.02, 2.5)
        fs.append((em.frag(f), f, kind))
    qs = []
    for i, f, kind in fs:
        qs.append(('frag %s n' % i, 'states', [float(len(f))], 0, 0))
        xs = [0.0, 1e-12, 1e9, 1e300, math.inf] + [math.exp(d[0] + d[1] * g.u(-4, 4)) for d in r.choices(f, k=10)] + [math.exp(f[0][0])]
        for x in xs:
            p = [0.0 if x == 0 else float(ndtr((math.log(x) - d[0]) / d[1])) if x < math.inf else 1.0 for d in f]
            qs.append(('frag %s exc %s' % (i, num(x)), 'reached', p, 1e-9, 1e-13))
            h = [max(a - b, 0.0) for a, b in zip(p, p[1:] + [0.0])]
            qs.append(('frag %s high %s' % (i, num(x)), 'highest', h, 1e-9, 1e-12))
            if kind == 'same':
                c_total = 1 - p[0] + sum(h)
                assert abs(c_total - 1) < 1e-9
    r.shuffle(qs)
    for q in qs:
        c.q(*q)
    return c


def check():
    c = Check('C08', 'a case is one or two fragility functions of 1 to 20 states, of equal or different dispersions, observed at '
                     'demands from zero to infinity; non-trivial when distinct by seed')
    exe = build.driver()
    n = 10000 if c.thorough else 1200
    formula.run(c, formula.make_all(make, [c.seed * 1000039 + k for k in range(n)]), exe)
    return c.finish(n // 2)


if __name__ == '__main__':
    main(check)

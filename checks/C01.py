"""Lognormal distributions: coherence, and moments of scaled, summed and mixed ones."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
from scipy.special import ndtr, ndtri
import build, drv, gen, formula
from report import Check, main

num = drv.num
INF = math.inf


class D:
    """Moments are kept, not (mu, sigma): sums and mixtures are about moments"""
    def __init__(self, m, cv2, err=1e-15):
        self.m, self.cv2, self.err = m, cv2, err     # err: error allowed in cv2 (rounding of sums of squares)
        self.s = math.sqrt(math.log1p(cv2)) if m > 0 else None
        self.mu = math.log(m) - math.log1p(cv2) / 2 if m > 0 else -INF


def parts(d, sigma=None):
    if d.m == 0:
        return [-INF, sigma, 0.0, 0.0, 0.0], 0, 1e-300
    # an error in cv^2 matters most to a small sigma
    es = math.sqrt(d.cv2 + d.err) - math.sqrt(d.cv2) + 1e-12 if d.cv2 < 1 else 1e-9
    return [d.mu, d.s, d.m, math.exp(d.mu), d.m * math.sqrt(d.cv2)], 1e-9, \
        [1e-9 + d.err, es, 0, 1e-9 * math.exp(d.mu) + d.err * d.m, es * d.m]


def make(seed):
    g = gen.Gen(seed)
    r = g.r
    c = formula.Case(seed)
    c.settings = False
    pool = []
    last = []

    def put(line, d, sigma=None, tag='parameters'):
        i = g.id('l')
        c('dist %s %s' % (i, line))
        w, rt, at = parts(d, sigma)
        c.q('dist %s parts' % i, tag, w, rt, at)
        pool.append((i, d, sigma))
        return i

    def value():
        return g.lu(1e-12, 1e12) if r.random() < 0.3 else g.lu(1e-3, 1e6)

    def spec():
        k = r.choice(['muln_sdln', 'mean_sdln', 'median_sdln', 'mean_sd'])
        s = r.choice([g.u(0.05, 1), g.lu(1e-3, 0.1), g.u(1, 3)])
        if r.random() < 0.08:
            s = 0.0
        m = value()
        # distributions which have something in common, but not everything
        if last and r.random() < 0.4:
            if r.random() < 0.6:
                k, m = last[-1][0], last[-1][1]
            else:
                s = last[-1][2]
        if s > 0:
            last.append((k, m, s))
        if k == 'mean_sd':
            if r.random() < 0.1:
                return put('mean_sd 0 0', D(0.0, 0.0), 0.0)
            return put('mean_sd %s %s' % (num(m), num(m * s)), D(m, s * s))
        if k == 'muln_sdln':
            return put('muln_sdln %s %s' % (num(math.log(m)), num(s)), D(math.exp(math.log(m) + s * s / 2), math.expm1(s * s)))
        if r.random() < 0.08:
            return put('%s 0 %s' % (k, num(s)), D(0.0, 0.0), None)
        if k == 'mean_sdln':
            return put('mean_sdln %s %s' % (num(m), num(s)), D(m, math.expm1(s * s)))
        return put('median_sdln %s %s' % (num(m), num(s)), D(m * math.exp(s * s / 2), math.expm1(s * s)))

    for _ in range(6):
        spec()
    for _ in range(14):
        k = r.choice(['sum', 'mix', 'scale', 'scalep', 'scalen', 'new'])
        if k == 'new':
            spec()
        elif k in ('scale', 'scalep', 'scalen'):
            i, d, s = r.choice(pool)
            f = {'scale': r.choice([g.lu(1e-3, 1e3), g.lu(1e-9, 1e9), 1.0, 0.0]), 'scalep': r.choice([0.0, 1.0, g.u(0, 1), g.lu(1e-15, 1)]),
                 'scalen': float(r.choice([0, 1, 2, 7, 1000]))}[k]
            m = d.m * f
            put('%s %s %s' % (k, i, num(f)), D(m, d.cv2 if m else 0.0, d.err), None, tag='scaled')
        else:
            n = r.choice([1, 2, 2, 3, 5, 12, 40, 200])
            ds = [r.choice(pool) for _ in range(n)]
            if r.random() < 0.3:
                # neighbours, which are more alike
                k0 = r.randrange(len(pool))
                ds = [pool[(k0 + j) % len(pool)] for j in range(n)]
            if k == 'sum':
                m = math.fsum(d.m for _, d, _ in ds)
                v = math.fsum(d.m ** 2 * d.cv2 for _, d, _ in ds)
                e = sum(d.m ** 2 * d.err for _, d, _ in ds)
                put('sum %d %s' % (n, ' '.join(i for i, _, _ in ds)), D(m, v / m ** 2, e / m ** 2 + 1e-14) if m else D(0.0, 0.0), None, 'sum')
            else:
                # outcomes may be as unlikely as they are dear
                ws = [g.lu(1e-15, 1.0) for _ in range(n)] if r.random() < 0.3 else [r.random() for _ in range(n)]
                if r.random() < 0.3:
                    ws[r.randrange(n)] = 0.0
                t = math.fsum(ws) * r.choice([1.0, 1.0, g.u(1, 3)]) or 1.0
                ws = [w / t for w in ws]
                if r.random() < 0.15:
                    ws = [0.0] * n
                    ws[r.randrange(n)] = 1.0
                m = math.fsum(w * d.m for w, (_, d, _) in zip(ws, ds))
                e2 = math.fsum(w * d.m ** 2 * (1 + d.cv2) for w, (_, d, _) in zip(ws, ds))
                e = sum(w * d.m ** 2 * d.err for w, (_, d, _) in zip(ws, ds)) + 1e-14 * n * e2
                if m and e2 / m ** 2 > 1e9:
                    continue
                put('mix %d %s %s' % (n, ' '.join(i for i, _, _ in ds), ' '.join(map(num, ws))),
                    D(m, max(e2 - m * m, 0.0) / m ** 2, e / m ** 2) if m else D(0.0, 0.0), None, 'mixture')
    for i, d, s in r.sample(pool, 8):
        c.q('dist %s Q 0' % i, 'impossible', [1.0 if d.m > 0 and d.s > 0 else None], 0)
        c.q('dist %s P 0' % i, 'impossible', [0.0 if d.m > 0 and d.s > 0 else None], 0)
        for p in (-0.25, 1.5):
            c.q('dist %s inv %s' % (i, num(p)), 'impossible probability', [math.nan if d.m > 0 and d.s > 1e-3 else None], 0)
        if d.m > 0 and d.s > 1e-2 and d.err < 1e-9 * d.cv2:
            for _ in range(4):
                z = r.choice([g.u(-6, 6), g.u(-3, 3), g.u(-20, 20)])
                x = math.exp(d.mu + z * d.s)
                zz = (math.log(x) - d.mu) / d.s
                c.q('dist %s P %s' % (i, num(x)), 'P(X<=x)', [float(ndtr(zz))], 1e-5, 4e-16)
                c.q('dist %s Q %s' % (i, num(x)), 'P(X>=x)', [float(ndtr(-zz))], 1e-5, 4e-16)
                p = r.choice([g.u(0.001, 0.999), g.lu(1e-9, 1e-3)])
                c.q('dist %s inv %s' % (i, num(p)), 'quantile', [float(np.exp(d.mu + d.s * ndtri(p)))], 1e-6, 0)
            c.q('dist %s inv 0' % i, 'quantile', [0.0], 0)
            c.q('dist %s inv 1' % i, 'quantile', [INF], 0)
            c.q('dist %s P 1e300' % i, 'P(X<=x)', [1.0], 1e-12)
            c.q('dist %s Q 1e300' % i, 'P(X>=x)', [0.0], 0, 1e-12)
        elif d.m > 0 and d.s == 0:
            c.q('dist %s P %s' % (i, num(d.m * 1.001)), 'certain', [1.0], 1e-12)
            c.q('dist %s Q %s' % (i, num(d.m * 1.001)), 'certain', [0.0], 0, 1e-12)
            c.q('dist %s Q %s' % (i, num(d.m * 0.999)), 'certain', [1.0], 1e-12)
        elif d.m == 0:
            c.q('dist %s Q %s' % (i, num(value())), 'zero', [0.0], 0, 1e-300)
            c.q('dist %s P %s' % (i, num(value())), 'zero', [1.0], 1e-12)
    return c


def check():
    c = Check('C01', 'a case builds 20 distributions: specified in any of four ways (some zero, some certain), and scaled, summed '
                     'and mixed in chains; each observed in all its parameters; non-trivial when distinct by seed')
    exe = build.driver()
    n = 20000 if c.thorough else 1500
    formula.run(c, formula.make_all(make, [c.seed * 1000003 + k for k in range(n)]), exe)
    return c.finish(n // 2)


if __name__ == '__main__':
    main(check)

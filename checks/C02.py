"""Deterministic functions: values and slopes, in any order of evaluation."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import build, drv, ref, gen, formula
from report import Check, main

num = drv.num


def function(g):
    r = g.r
    k = r.choice(['nlh', 'pow', 'lin', 'loglog', 'lin', 'loglog'])
    if k == 'nlh':
        return ('nlh', g.lu(0.1, 1e4), g.lu(0.5, 100), g.u(1, 100))
    if k == 'pow':
        return ('pow', g.lu(1e-6, 1e4) * r.choice([1, 1, -1]), g.u(-4, 4) if r.random() < 0.8 else float(r.choice([0, 1, 2, -1])))
    n = r.choice([2, 2, 3, 5, 17, 100, 300])
    if k == 'lin' and r.random() < 0.4:
        x0 = g.u(-100, 100)
        xs = [x0]
        while len(xs) < n:
            xs.append(xs[-1] + g.lu(1e-3, 30))
        ys = [g.u(-1e3, 1e3) for _ in xs]
    else:
        xs = [g.lu(1e-3, 1)]
        while len(xs) < n:
            xs.append(xs[-1] * g.u(1.01, 3 if n < 20 else 1.2))
        ys = [g.lu(1e-6, 1e3) for _ in xs]
        if r.random() < 0.3:
            ys.sort(reverse=True)
        if k == 'lin' and r.random() < 0.3:
            ys[r.randrange(n)] = 0.0
    return (k, xs, ys)


def points(g, f, n):
    r = g.r
    if f[0] in ('lin', 'loglog'):
        xs = f[1]
        out = []
        for _ in range(n):
            t = r.random()
            if t < 0.2:
                out.append(r.choice(xs))
            elif t < 0.3:
                out.append(xs[0] - g.lu(1e-6, 10) if f[0] == 'lin' else xs[0] * g.u(0.001, 1))
            elif t < 0.4:
                out.append(xs[-1] + g.lu(1e-6, 100))
            elif t < 0.5:
                out.append(r.choice([xs[0], xs[-1]]) * r.choice([1 - 1e-12, 1 + 1e-12]))
            else:
                i = r.randrange(len(xs) - 1)
                out.append(xs[i] + (xs[i + 1] - xs[i]) * r.random())
        return out
    if f[0] == 'nlh':
        return [r.choice([f[2] * g.u(0, 1), f[2] * g.lu(1e-6, 1), f[2], f[2] * g.u(1, 3), f[2] * 0.999999, 0.0, f[2] * g.lu(1, 1e6)]) for _ in range(n)]
    return [r.choice([g.lu(1e-3, 1e3), g.lu(1e-3, 1e3), 0.0, 1.0, g.lu(1e-12, 1e12)]) for _ in range(n)]


def make(seed):
    g = gen.Gen(seed)
    r = g.r
    c = formula.Case(seed)
    c.settings = False
    em = gen.Emit(c, g)
    fs = [function(g) for _ in range(r.choice([1, 2, 4]))]
    ids = [em.det(f) for f in fs]
    work = []
    for i, f in zip(ids, fs):
        ps = points(g, f, 25)
        o = r.choice(['random', 'up', 'down', 'zigzag'])
        if o != 'random':
            ps.sort(reverse=o == 'down')
        if o == 'zigzag':
            ps = [p for t in zip(ps, reversed(ps)) for p in t]
        if f[0] in ('lin', 'loglog'):
            # one after the other, and all of the table
            ps += list(f[1])
        work += [(i, f, p, k) for k, p in enumerate(ps)]
    if len(fs) > 1:
        work.sort(key=lambda t: (t[3], t[0]))       # interleave
    for i, f, x, _ in work:
        v = ref.val(f, x)
        v = float(v)
        scale = max(abs(y) for y in f[2]) if f[0] in ('lin', 'loglog') else abs(v)
        c.q('det %s at %s' % (i, num(x)), 'value: ' + f[0], [v], 1e-9, 1e-12 * scale if f[0] == 'lin' else 1e-300)
        if r.random() < 0.4:
            h = 1e-5 * max(1.0, abs(x))
            near = [k for k in ref.knots(f) if abs(x - k) < h]
            if not near and (f[0] != 'nlh' or (1e-5 < x)) and f[0] != 'pow' or (f[0] == 'pow' and x > 0.01):
                d = float(ref.deriv(f, x))
                # numerical differentiation can't do better than rounding allows
                c.q('det %s deriv %s' % (i, num(x)), 'slope: ' + f[0], [d], 1e-4, 1e-7 * max(abs(v), scale) * max(1.0, abs(x)) + 1e-12)
    # the data themselves, again
    return c


def check():
    c = Check('C02', 'a case is one to four functions (hyperbolic, power law, linear and log-log tables of 2 to 100 points), evaluated '
                     'in, at and outside their range, in random, rising, falling or zigzag order; non-trivial when distinct by seed')
    exe = build.driver()
    n = 8000 if c.thorough else 800
    formula.run(c, formula.make_all(make, [c.seed * 1000033 + k for k in range(n)]), exe)
    return c.finish(n // 2)


if __name__ == '__main__':
    main(check)

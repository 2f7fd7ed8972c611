"""Loss functions: the mixture of damage states' losses, for the number repaired."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import build, drv, ref, gen, formula
from report import Check, main

num = drv.num


def make(seed):
    g = gen.Gen(seed)
    r = g.r
    c = formula.Case(seed)
    c.settings = False
    em = gen.Emit(c, g)
    qs = []
    for _ in range(2):
        n = r.choice([1, 1, 2, 3, 4, 5, 9])
        l = g.loss(n)
        rare = r.random() < 0.25
        if rare:
            # outcomes as unlikely as they are dear
            l = (l[0], [(d[0] + math.log(g.lu(1e-6, 1e9)), d[1]) if l[0] == 's' else
                        d[:2] + tuple(v * k for k in [g.lu(1e-6, 1e9)] for v in d[2:4]) + d[4:] for d in l[1]])
        if l[0] == 's' and r.random() < 0.3:
            l[1][r.randrange(n)] = (-math.inf, 0.4)     # a state which costs nothing
        if l[0] == 's' and r.random() < 0.2:
            k = r.randrange(n)
            l[1][k] = (l[1][k][0], 0.0)                # a certain cost
        if l[0] == 'b' and r.random() < 0.5:
            # cheaper or dearer by number, shared limits
            lo = r.randint(1, 20)
            hi = lo + r.choice([1, 2, 3, 50, 1000])
            l = ('b', [(lo, hi, b[2], b[2] * g.u(0.1, 1.5), b[4]) for b in l[1]])
        if l[0] == 's' and any(d[0] == -math.inf for d in l[1]):
            ids = []
            for d in l[1]:
                i = g.id('l')
                if d[0] == -math.inf:
                    c('dist %s mean_sdln 0 %s' % (i, num(d[1])))
                else:
                    c('dist %s muln_sdln %s %s' % (i, num(d[0]), num(d[1])))
                ids.append(i)
            i = g.id('s')
            c('sloss %s %s' % (i, ' '.join(ids)))
        else:
            i = em.loss(l)
        qs.append(('loss %s n' % i, 'states', [float(n)], 0, 0))
        counts = [1, 2, r.randint(1, 60), 100]
        if l[0] == 'b':
            for b in l[1]:
                counts += [b[0] - 1, b[0], b[0] + 1, (b[0] + b[1]) // 2, b[1] - 1, b[1], b[1] + 1, r.randint(b[0], b[1])]
        for count in set(k for k in counts if k > 0):
            t = r.random()
            if t < 0.15:
                ps = [0.0] * n
                ps[r.randrange(n)] = 1.0
            elif t < 0.2:
                ps = [0.0] * n
            else:
                ps = [g.lu(1e-15, 1) if rare else r.random() * (r.random() < 0.9) for _ in range(n)]
                s = sum(ps) * r.choice([1.0, g.u(1, 4)]) or 1.0
                ps = [p / s for p in ps]
            adj = r.choice([1.0, g.lu(0.1, 10), 0.0 if r.random() < 0.1 else 2.0])
            d = ref.loss(l, ps, count, adj)
            # dispersion: loses precision only where it's next to nothing
            m = ref.mean(d)
            if m == 0:
                want = [None, None, 0.0, 0.0, 0.0]
            else:
                want = [d[0], d[1], m, math.exp(d[0]), ref.sd(d)]
            qs.append(('loss %s calc %d %s %s' % (i, count, num(adj), ' '.join(map(num, ps))), 'loss: ' + l[0], want, 1e-6,
                       [1e-7, 2e-7, 0, 1e-7 * m, 2e-7 * m]))
    r.shuffle(qs)
    for q in qs:
        c.q(*q)
    return c


def check():
    c = Check('C09', 'a case is two loss functions of 1 to 9 states, simple (some states free or certain) or bi-level, with counts '
                     'around every corner, random or certain damage, and adjustments; non-trivial when distinct by seed')
    exe = build.driver()
    n = 8000 if c.thorough else 1000
    formula.run(c, formula.make_all(make, [c.seed * 1000081 + k for k in range(n)]), exe)
    return c.finish(n // 2)


if __name__ == '__main__':
    main(check)

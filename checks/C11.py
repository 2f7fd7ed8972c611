"""Structures: costs by fate, total, annual and discounted."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import build, drv, ref, gen, formula
from report import Check, main

num = drv.num


def dist_parts(m, var, rt=0.01, small=0.0):
    """Expected parts (mu, sd_ln, mean, median, sd), with None where noise dominates"""
    m, var = float(m), max(float(var), 0.0)
    if m <= small:
        return [None, None, m, None, None]
    return [None, None, m, None, math.sqrt(var)]


def make(seed):
    g = gen.Gen(seed)
    c = formula.Case(seed)
    em = gen.Emit(c, g)
    st = g.structure(ngroups=g.r.choice([1, 1, 2, 3, 5, 8]))
    if g.r.random() < 0.15:
        # another group with the same definition, or the same group twice
        cg = g.r.choice(st['cgs'])
        st['cgs'].append(cg if g.r.random() < 0.5 else dict(cg))
    if g.r.random() < 0.15:
        st['rebuild'] = (st['rebuild'][0], 0.0)
    if g.r.random() < 0.15:
        st['demol'] = (st['demol'][0], 0.0)
    im = st['im']
    if not im.get('collapse') and g.r.random() < 0.4:
        st['rebuild'] = None
    if not im.get('demolition') and g.r.random() < 0.4:
        st['demol'] = None
    sid = em.structure(st)
    iid = em.im(im)
    big = sum(cg['count'] * max(ref.mean(d) for d in ref.loss_dists(cg['cost'], cg['count'])) * cg['ca'] for cg in st['cgs'])
    big += sum(ref.mean(st[k]) for k in ('rebuild', 'demol') if st[k])
    qs = [('n', 'groups', [float(len(st['cgs']))], 0, 0)]
    for x in [g.lu(0.02, 0.5), g.u(0.3, 1.2), g.u(0.8, 5), 0.5, 1.0]:
        m, v = (float(q[0]) for q in ref.struct_nc(st, x))
        r, d, co = (float(q) for q in ref.fates(im, np.float64(x)))
        small = 1e-5 * big
        at = [0, 0, 1e-7 * big, 0, 1e-5 * big]
        qs.append(('cost %s 0' % num(x), 'repair cost', dist_parts(m, v, small=small), 0.003, at))
        if st['rebuild']:
            mc, vc = ref.mean(st['rebuild']), ref.sd(st['rebuild']) ** 2
            e = m * (1 - co) + mc * co
            e2 = (m * m + v) * (1 - co) + (mc * mc + vc) * co
            qs.append(('cost %s 1' % num(x), 'cost with collapse', dist_parts(e, e2 - e * e, small=small), 0.003, at))
            qs.append(('deagg %s' % num(x), 'deaggregated cost', [None, None, m * (1 - co), None, None, None, None, mc * co, None, None], 0.003,
                       1e-7 * big))
        e, e2 = (float(q[0]) for q in ref.struct_total(st, x))
        qs.append(('total %s' % num(x), 'total cost', dist_parts(e, e2 - e * e, small=small), 0.003, at))
        f = [None] * 15
        f[2] = m * r
        if st['demol']:
            f[7] = ref.mean(st['demol']) * d
        if st['rebuild']:
            f[12] = ref.mean(st['rebuild']) * co
        qs.append(('fates %s' % num(x), 'costs by fate', f, 0.003, 1e-7 * big))
        if not any(abs(x - k) < 1e-5 * k for k in ref.knots(im['det'])):
            p = e * abs(float(ref.deriv(im['det'], x)))
            qs.append(('pdf %s' % num(x), 'density', [p], 0.003, 1e-7 * max(p, 1e-300) + 1e-7 * big))
    mu, sd = ref.struct_annual(st)
    ok = mu < 3 * big
    qs.append(('annual', 'annual cost', [None, None, mu if ok else None, None, sd if ok and sd < math.inf else None], 0.01, [0, 0, 1e-9 * big, 0, 1e-6 * big]))
    if ok:
        def npv(y, r):
            return mu * (y if abs(r * y) < 1e-12 else -math.expm1(-r * y) / r)
        for _ in range(3):
            r = g.r.choice([0.0, 0.0, g.u(0.001, 0.2), 1e-4, g.u(0.2, 3), g.lu(1e-20, 1e-9), -g.u(0.001, 0.1)])
            y = g.r.choice([0, 1, 10, 50, 100, 1000 if r >= 0 else 200, g.r.randint(1, 500)])
            qs.append(('npv %s %d' % (num(r), y), 'discounted cost', [npv(y, r)], 0.01, 1e-9 * big))
            ys = g.repeated([g.r.randint(0, 200) for _ in range(g.r.randint(1, 20))])
            qs.append(('vnpv %s %s' % (num(r), ' '.join(map(str, ys))), 'discounted cost (list)', [npv(y, r) for y in ys], 0.01, 1e-9 * big))
    g.r.shuffle(qs)
    for q, tag, want, rt, at in qs:
        c.q('struct %s %s' % (sid, q), tag, want, rt, at)
    return c


def empty(seed):
    """A structure without groups has no results, but asking for them is no error"""
    g = gen.Gen(seed)
    c = formula.Case(seed, 'empty')
    c('struct S')
    if g.r.random() < 0.5:
        c('dist r mean_sdln 100 0.3')
        c('rebuild S r')
        c('demol S r')
    c.q('struct S n', 'empty structure', [0.0], 0)
    for q, n in (('cost 0.5 0', 5), ('cost 0.5 1', 5), ('total 0.5', 5), ('fates 0.5', 15), ('deagg 0.5', 10), ('pdf 0.5', 1),
                 ('annual', 5), ('npv 0.05 50', 1), ('vnpv 0.05 1 2 3', 3)):
        c.q('struct S ' + q, 'empty structure', [None] * n)
    return c


def check():
    c = Check('C11', 'a case is a structure of 1-5 random groups with random fates, rebuild and demolition costs (some '
                     'certain, some absent), horizons and discount rates (some zero); non-trivial when distinct by seed')
    exe = build.driver()
    n = 500 if c.thorough else 110
    cases = formula.make_all(make, [c.seed * 100057 + k for k in range(n)]) + [empty(c.seed + k) for k in range(4)]
    formula.run(c, cases, exe)
    return c.finish(n // 2)


if __name__ == '__main__':
    main(check)

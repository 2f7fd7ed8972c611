"""Component group losses against the reference model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import build, drv, ref, gen, formula
from report import Check, main

num = drv.num


def group_queries(c, g, cid, cg, full=True):
    qs = []
    for x in [0.0] + [g.lu(0.003, 1.0) for _ in range(3)] + [g.lu(1, 50)]:
        ph = [float(v[0]) for v in ref.p_highest(cg['frag'], np.array([x]))]
        d = ref.loss(cg['cost'], ph, cg['count'], cg['ca'])
        if ref.mean(d) > 1e-200 or ref.mean(d) == 0:
            qs.append(('q cg %s edpcost %s' % (cid, num(x)), 'cost by demand',
                       [ref.mean(d), d[1] if ref.mean(d) else None, ref.sd(d), d[0] if ref.mean(d) else None], 1e-6, 1e-12, None))
        if cg['delay']:
            d = ref.loss(cg['delay'], ph, cg['count'], cg['da'])
            if ref.mean(d) > 1e-200 or ref.mean(d) == 0:
                qs.append(('q cg %s edpdelay %s' % (cid, num(x)), 'delay by demand',
                           [ref.mean(d), d[1] if ref.mean(d) else None, ref.sd(d)], 1e-6, 1e-12, None))
    big = cg['count'] * max(ref.mean(d) for d in ref.loss_dists(cg['cost'], cg['count'])) * cg['ca']
    for x in [g.lu(0.03, 0.5), g.u(0.3, 1.2), g.u(0.8, 4)]:
        e, s = ref.group_dist(cg, x)
        ok = e > 1e-5 * big      # otherwise the dispersion is that of numerical noise
        qs.append(('q cg %s imcost %s' % (cid, num(x)), 'cost by intensity', [e, s if ok else None], 0.003, [1e-7 * big, 1e-3], None))
        qs.append(('q cg %s distim %s' % (cid, num(x)), 'cost distribution by intensity',
                   [None, s if ok else None, e, None, None], 0.003, [0, 1e-3, 1e-7 * big, 0, 0], None))
        qs.append(('q cg %s pds %s' % (cid, num(x)), 'damage states by intensity', [float(v) for v in ref.group_pds(cg, x)[:, 0]], 0.003, 1e-6, None))
        if cg['delay']:
            bd = cg['count'] * max(ref.mean(d) for d in ref.loss_dists(cg['delay'], cg['count'])) * cg['da']
            e, s = ref.group_dist(cg, x, 'delay')
            ok = e > 1e-5 * bd
            qs.append(('q cg %s imdelay %s' % (cid, num(x)), 'delay by intensity', [e, s if ok else None], 0.003, [1e-7 * bd, 1e-3], (cg, x)))
    if full:
        a = ref.group_annual(cg)
        qs.append(('q cg %s annual' % cid, 'annual cost', [a if a < 10 * big else None], 0.01, 1e-9 * big, None))
        r = [float(v) for v in ref.group_rate(cg)]
        qs.append(('q cg %s rate' % cid, 'damage rates', [v if v < 10 else None for v in r], 0.02, 1e-8, None))
        for f in (g.u(0.02, 0.3), g.u(0.3, 0.9)):
            l = ref.group_lambda(cg, f * big)
            qs.append(('q cg %s lambda %s' % (cid, num(f * big)), 'cost rate', [l if l < 10 else None], 0.02, 1e-8, None))
    g.r.shuffle(qs)
    # some again: the answer must be the same one
    qs += g.r.sample(qs, min(3, len(qs)))
    for q in qs:
        c.q(q[0][2:], *q[1:])


def make(seed):
    g = gen.Gen(seed)
    c = formula.Case(seed)
    em = gen.Emit(c, g)
    im = g.im()
    e = g.edp(im)
    cg = g.cg(e, delay=g.r.random() < 0.6)
    if g.r.random() < 0.3 and cg['cost'][0] == 'b':
        # counts at the corners of a bi-level loss
        cg['count'] = max(1, g.r.choice(cg['cost'][1])[g.r.randint(0, 1)] + g.r.choice([-1, 0, 0, 1]))
    group_queries(c, g, em.cg(cg), cg)
    return c


def explain(case, n, k, tag, got, want, note):
    """The dispersion of the delay of several components, in the way recorded as a known finding"""
    if tag != 'delay by intensity' or k != 1 or not note:
        return None
    cg, x = note
    if cg['count'] <= 1:
        return None
    bad = defective_delay_sd(cg, x)
    return 'delay-dispersion-count' if formula.close(got, bad, 0.02, 2e-3) else None


def defective_delay_sd(cg, x):
    """Dispersion, if only the mean (and not the dispersion) given the demand is divided by the count"""
    n = cg['count']
    mu, sg = ref.edp_params(cg['edp'], np.array([x]))
    edp = np.exp(np.clip(mu[:, None] + sg[:, None] * ref._z[None, :], -600, 600))
    e, e2 = ref.loss_moments(cg['delay'], cg['frag'], n, cg['da'], edp)
    m = float(np.sum(e * ref._phi)) / n
    second = float(np.sum(((e / n) ** 2 + np.maximum(e2 - e * e, 0)) * ref._phi))
    v = max(second - m * m, 0)
    return float(np.sqrt(np.log1p(v / (m * m))))


def check():
    c = Check('C10', 'a case is a component group: random hazard, (compound) demand model, 1-5 damage states, simple or '
                     'bi-level cost and delay, count and factors; non-trivial when distinct by seed')
    exe = build.driver()
    n = 600 if c.thorough else 120
    formula.run(c, formula.make_all(make, [c.seed * 100043 + k for k in range(n)]), exe, explain=explain)
    return c.finish(n // 2)


if __name__ == '__main__':
    main(check)

"""Fates at every intensity, and the rates of collapse and demolition."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, drv, ref, gen, formula
from report import Check, main

GRID = [0.0, 1e-6, 1e-3, 0.02, 0.1, 0.3, 0.7, 1.0, 1.7, 2.5, 4.0, 9.0, 60.0, 1e6]


def fates(im, x):
    r, d, c = ref.fates(im, x)
    return [float(r), float(d), float(c)]


def make(seed):
    g = gen.Gen(seed)
    c = formula.Case(seed)
    em = gen.Emit(c, g)
    im = g.im()
    if im.get('collapse') and im.get('demolition') and g.r.random() < 0.3:
        # dispersions which make the curves cross
        im['demolition'] = ref.dist('median_sdln', g.u(0.5, 2.5), g.u(0.2, 0.7))
    i = em.im(im)

    def observe():
        xs = g.r.sample(GRID, 6) + [g.lu(0.01, 10) for _ in range(4)]
        for x in xs:
            c.q('im %s fates %s' % (i, drv.num(x)), 'fates', fates(im, x), 1e-9, 1e-13)
        xs = g.repeated(xs)
        for fn, k in (('vrep', 0), ('vdem', 1), ('vcoll', 2)):
            c.q('im %s %s %s' % (i, fn, ' '.join(map(drv.num, xs))), 'fates (list)', [fates(im, x)[k] for x in xs], 1e-9, 1e-13)
        ys = [x for x in xs if x > 0]
        c.q('im %s vlambda %s' % (i, ' '.join(map(drv.num, ys))), 'hazard (list)', [float(ref.val(im['det'], x)) for x in ys], 1e-9, 1e-300)
        c.q('im %s lambda %s' % (i, drv.num(ys[0])), 'hazard', [float(ref.val(im['det'], ys[0]))], 1e-9, 1e-300)
        qs = [('collrate', ref.coll_rate(im)), ('demrate', ref.dem_rate(im))]
        g.r.shuffle(qs)
        for fn, want in qs:
            c.q('im %s %s' % (i, fn), fn, [want if want < 10 else None], 0.02, 1e-9)

    observe()
    # changes: each observed again
    for _ in range(g.r.randint(1, 3)):
        k = g.r.choice(['collapse', 'demolition', 'collapsep', 'demolitionp', 'replace'])
        if k == 'replace':
            old = em.det(im['det'])
            nd = g.hazard()
            im = dict(im, det=nd)
            c('replace det %s %s', old, em.det(nd))
        else:
            f = k.rstrip('p') if k != 'collapse' and k != 'demolition' else k
            d = ref.dist('median_sdln', g.u(0.4, 3.5), g.u(0.2, 0.7))
            im = dict(im, **{f: d})
            c('%s %s %s', k, i, em.dist(d))
        observe()
    return c


def check():
    c = Check('C06', 'a case is a hazard curve with random (or no) collapse and demolition distributions, observed, then '
                     'changed one to three times and observed after each change; non-trivial when distinct by seed')
    exe = build.driver()
    n = 1500 if c.thorough else 150
    formula.run(c, formula.make_all(make, [c.seed * 100003 + k for k in range(n)]), exe)
    return c.finish(n // 2)


if __name__ == '__main__':
    main(check)

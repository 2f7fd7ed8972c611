"""Seeded generation of models, in the range structural engineers use, and of
the script lines which build them."""
import math, random
from drv import num
import ref


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0

    def id(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def u(self, a, b):
        return self.r.uniform(a, b)

    def lu(self, a, b):
        return math.exp(self.r.uniform(math.log(a), math.log(b)))

    def repeated(self, xs):
        """A list in which values recur: next to each other, or further apart"""
        r = self.r
        k = r.random()
        if k < 0.4:
            return list(xs)
        out = []
        for _ in range(r.choice([len(xs), len(xs), 24, 41])):
            out += [r.choice(xs)] * r.choice([1, 1, 2, 3])
        if k < 0.6:
            out.sort(reverse=k < 0.5)
        return out

    # --- specs

    def hazard(self, kind=None):
        r = self.r
        k = kind or r.choice(['nlh', 'nlh', 'pow', 'loglog', 'loglog', 'lin'])
        if k == 'nlh':
            return ('nlh', self.lu(200, 3000), self.u(10, 60), self.u(40, 80))
        if k == 'pow':
            return ('pow', self.lu(1e-5, 1e-3), -self.u(1.5, 3.5))
        # sampled from a power-like hazard, perturbed, decreasing
        n = r.randint(4, 12)
        xs = sorted(set(self.lu(0.01, 3.0) for _ in range(n)))
        a, b = self.lu(1e-5, 1e-3), -self.u(1.2, 3)
        ys = [a * x ** b for x in xs]
        ys = [min(y, 1.0 / (i + 1)) if False else y * self.u(0.9, 1.0) for i, y in enumerate(ys)]
        ys = sorted(ys, reverse=True)
        for i in range(1, len(ys)):
            if ys[i] >= ys[i - 1]:
                ys[i] = ys[i - 1] * 0.9
        return (k, xs, ys)

    def demand(self, kind=None):
        """A probabilistic EDP | IM function: median around 0.02-0.5 at im=0.5"""
        r = self.r
        mt, st = kind or (r.choice(['mean_ln', 'mean', 'median']), r.choice(['sd_ln', 'sd_ln', 'sd']))
        a, b = self.lu(0.02, 0.5), self.u(0.6, 1.4)
        if mt == 'mean_ln':
            xs = [1e-6 * (1e7 ** (i / 15.0)) for i in range(16)]
            f = ('lin', xs, [math.log(a) + b * math.log(x / 0.5) for x in xs])
        else:
            f = ('pow', a * 0.5 ** -b, b) if r.random() < 0.8 else \
                ('loglog', [1e-6, 0.1, 1.0, 10.0], [a * (x / 0.5) ** b * self.u(0.9, 1.1) for x in (1e-6, 0.1, 1.0, 10.0)])
        s = self.u(0.25, 0.7)
        if st == 'sd_ln':
            g = ('pow', s, 0.0) if r.random() < 0.6 else ('lin', [0.05, 1.5], [s, self.u(0.25, 0.7)])
        elif mt == 'mean_ln':
            # sd proportional to a typical value
            xs = f[1]
            g = ('loglog', xs, [s * math.exp(y) for y in f[2]])
        elif f[0] == 'pow':
            g = ('pow', s * f[1], f[2])
        else:
            g = ('loglog', f[1], [s * y for y in f[2]])
        return (mt, st, f, g)

    def im(self, collapse=None, demolition=None, kind=None):
        r = self.r
        m = {'det': self.hazard(kind)}
        if collapse if collapse is not None else r.random() < 0.6:
            m['collapse'] = ref.dist('median_sdln', self.u(0.8, 3.0), self.u(0.3, 0.6))
        if demolition if demolition is not None else r.random() < 0.5:
            if m.get('collapse'):
                c = m['collapse']
                # the same dispersion, earlier median: never more likely to collapse than to be lost
                m['demolition'] = (c[0] - self.u(0.1, 0.8), c[1])
            else:
                m['demolition'] = ref.dist('median_sdln', self.u(0.8, 2.5), self.u(0.3, 0.6))
        return m

    def edp(self, im, compound=None):
        if compound if compound is not None else self.r.random() < 0.15:
            return {'im': im, 'probs': [self.demand(), self.demand()]}
        return {'im': im, 'probs': [self.demand()]}

    def frag(self, n=None):
        n = n or self.r.randint(1, 5)
        m = self.lu(0.01, 0.3)
        out = []
        for i in range(n):
            out.append(ref.dist('median_sdln', m, self.u(0.25, 0.6)))
            m *= self.u(1.3, 2.5)
        return out

    def loss(self, n, kind=None):
        k = kind or self.r.choice(['s', 's', 'b'])
        c = self.lu(0.01, 10.0)
        out = []
        for i in range(n):
            if k == 's':
                out.append(ref.dist('mean_sdln', c, self.u(0.1, 0.7)))
            else:
                lo = self.r.randint(1, 10)
                hi = lo + self.r.randint(1, 30)
                out.append((lo, hi, c, c * self.u(0.3, 1.0), self.u(0.1, 0.7)))
            c *= self.u(1.2, 4)
        return (k, out)

    def cg(self, edp, delay=None):
        r = self.r
        f = self.frag()
        g = {'edp': edp, 'frag': f, 'cost': self.loss(len(f)), 'delay': None,
             'count': r.choice([1, 1, 2, 3, 5, 12, 40]), 'ca': r.choice([1.0, 1.0, self.u(0.3, 2.5)]),
             'da': r.choice([1.0, self.u(0.3, 2.5)])}
        if delay if delay is not None else r.random() < 0.4:
            g['delay'] = self.loss(len(f))
        return g

    def structure(self, ngroups=None, im=None, **kw):
        im = im or self.im(**kw)
        edps = [self.edp(im) for _ in range(self.r.randint(1, 3))]
        s = {'im': im, 'cgs': [self.cg(self.r.choice(edps)) for _ in range(ngroups or self.r.randint(1, 4))],
             'rebuild': None, 'demol': None}
        scale = sum(max(ref.mean(d) for d in ref.loss_dists(g['cost'], g['count'])) * g['count'] for g in s['cgs'])
        s['rebuild'] = ref.dist('mean_sdln', scale * self.u(0.5, 3), self.u(0.1, 0.5))
        s['demol'] = ref.dist('mean_sdln', scale * self.u(0.5, 3), self.u(0.1, 0.5))
        return s


class Emit:
    """Write the script lines which build spec objects; one id per spec object"""
    def __init__(self, script, gen):
        self.s, self.g = script, gen
        self.ids = {}
        self.keep = []

    def fresh(self, p, spec):
        i = self.g.id(p)
        self.ids[id(spec)] = i
        self.keep.append(spec)
        return i

    def det(self, f, share=True):
        if share and id(f) in self.ids:
            return self.ids[id(f)]
        i = self.fresh('d', f)
        if f[0] in ('lin', 'loglog'):
            self.s('det %s %s %s' % (i, f[0], ' '.join(num(v) for v in list(f[1]) + list(f[2]))))
        else:
            self.s('det %s %s %s' % (i, f[0], ' '.join(num(v) for v in f[1:])))
        return i

    def dist(self, d):
        i = self.g.id('l')
        self.s('dist %s muln_sdln %s %s' % (i, num(d[0]), num(d[1])))
        return i

    def prob(self, p):
        if id(p) in self.ids:
            return self.ids[id(p)]
        a, b = self.det(p[2]), self.det(p[3])
        i = self.fresh('p', p)
        self.s('prob %s %s %s %s %s' % (i, p[0], p[1], a, b))
        return i

    def im(self, m):
        if id(m) in self.ids:
            return self.ids[id(m)]
        d = self.det(m['det'])
        i = self.fresh('i', m)
        self.s('im %s %s' % (i, d))
        if m.get('collapse'):
            self.s('collapse %s %s' % (i, self.dist(m['collapse'])))
        if m.get('demolition'):
            self.s('demolition %s %s' % (i, self.dist(m['demolition'])))
        return i

    def edp(self, e):
        if id(e) in self.ids:
            return self.ids[id(e)]
        m = self.im(e['im'])
        ps = [self.prob(p) for p in e['probs']]
        i = self.fresh('e', e)
        self.s('%s %s %s %s' % ('edp' if len(ps) == 1 else 'cedp', i, m, ' '.join(ps)))
        return i

    def frag(self, f):
        if id(f) in self.ids:
            return self.ids[id(f)]
        ds = [self.dist(d) for d in f]
        i = self.fresh('f', f)
        self.s('frag %s %s' % (i, ' '.join(ds)))
        return i

    def loss(self, l):
        if id(l) in self.ids:
            return self.ids[id(l)]
        if l[0] == 's':
            ds = [self.dist(d) for d in l[1]]
            i = self.fresh('s', l)
            self.s('sloss %s %s' % (i, ' '.join(ds)))
        else:
            i = self.fresh('b', l)
            self.s('bloss %s %s' % (i, ' '.join('%d %d %s %s %s' % (a, b, num(c), num(d), num(e)) for a, b, c, d, e in l[1])))
        return i

    def cg(self, g):
        if id(g) in self.ids:
            return self.ids[id(g)]
        e, f, c = self.edp(g['edp']), self.frag(g['frag']), self.loss(g['cost']) if g['cost'] else '-'
        d = self.loss(g['delay']) if g['delay'] else '-'
        i = self.fresh('g', g)
        self.s('cg %s %s %s %s %s %d %s %s' % (i, e, f, c, d, g['count'], num(g['ca']), num(g['da'])))
        return i

    def structure(self, s):
        if id(s) in self.ids:
            return self.ids[id(s)]
        gs = [self.cg(g) for g in s['cgs']]
        i = self.fresh('S', s)
        self.s('struct %s' % i)
        for g in gs:
            self.s('addcg %s %s' % (i, g))
        if s.get('rebuild'):
            self.s('rebuild %s %s' % (i, self.dist(s['rebuild'])))
        if s.get('demol'):
            self.s('demol %s %s' % (i, self.dist(s['demol'])))
        return i

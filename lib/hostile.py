"""Scripts with no regard for sense: any operation, in any order, with any arguments."""
import history, gen
from drv import num

WILD = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-300, 5e-324, -1e-300, 1e-12, 1e12, 1e300, -1e300, 1.7e308,
        float('inf'), float('-inf'), float('nan'), 1e-3, 100.0, 2.0 ** 31, 2.0 ** 63, -2.0 ** 31]
COUNTS = [0, 1, 1, 2, 3, 7, 100, -1, 2147483647, -2147483648, 1000000]
KINDS = ('det', 'prob', 'im', 'edp', 'frag', 'loss', 'cg', 'struct')


class Hostile:
    def __init__(self, seed, steps, wild=None, threads=None):
        self.seed = seed
        h = history.History(seed, 0, 'c15')
        self.r, self.g = h.r, gen.Gen('c15 values %s' % (seed,))
        self.wild = self.r.choice([0.0, 0.05, 0.3, 0.7]) if wild is None else wild
        self.lines = []
        self.ids = {k: [o.id for o in h.objs[k]] for k in KINDS}
        self.ids['dist'] = []
        self.watches = []
        self.serial = 0
        self.ops = {}
        team = self.r.choice([1, 1, 2, 4, 8]) if threads is None else threads
        self.team = team
        self.lines += [l for l in h.lines if not l.startswith('q ')]
        self.lines.insert(0, 'nest %d' % self.r.choice([1, 2]))
        self.lines[2] = 'threads %d' % team
        assert self.lines[1].startswith('tol')
        self.lines.insert(3, 'evallimit %d' % self.r.choice([64, 200, 300]))
        self.lines.insert(4, 'searchlimit %d' % self.r.choice([20, 100, 300]))
        self.ids['dist'] = [l.split()[1] for l in self.lines if l.startswith('dist ')]
        while len(self.ids['dist']) < 3:
            self.dist()
        for _ in range(steps):
            self.step()
        self.end()
        self.text = '\n'.join(self.lines) + '\n'

    def did(self, what):
        self.ops[what] = self.ops.get(what, 0) + 1

    # --- values

    def v(self, a=1e-3, b=3.0):
        return num(self.r.choice(WILD) if self.r.random() < self.wild else self.g.lu(a, b))

    def p(self):
        return num(self.r.choice(WILD) if self.r.random() < self.wild else self.r.random())

    def vs(self, n=None):
        return ' '.join(self.v() for _ in range(self.r.choice([0, 1, 2, 5, 20]) if n is None else n))

    def n(self):
        return str(self.r.choice(COUNTS) if self.r.random() < self.wild else self.r.choice([1, 1, 2, 5, 20]))

    def id(self, kind):
        return self.r.choice(self.ids[kind]) if self.ids[kind] else 'none'

    def new(self, kind):
        self.serial += 1
        i = 'h%s%d' % (kind, self.serial)
        # sometimes in place of another, which is forgotten
        if self.ids[kind] and self.r.random() < 0.1:
            return self.r.choice(self.ids[kind])
        self.ids[kind].append(i)
        return i

    def states(self):
        return self.r.choice([0, 1, 2, 3, 5]) if self.r.random() < self.wild + 0.1 else self.r.choice([1, 2, 3])

    # --- operations

    def make(self, kind):
        r = self.r
        self.did('make ' + kind)
        if kind == 'det':
            t = r.choice(['nlh', 'pow', 'lin', 'loglog', 'lin', 'loglog'])
            if t in ('nlh', 'pow'):
                v = self.vs(3 if t == 'nlh' else 2)
            else:
                n = r.choice([0, 1, 2, 3, 8, 30])
                xs = [self.v() for _ in range(n)]
                if r.random() < 0.8:
                    try:
                        xs.sort(key=float)
                    except ValueError:
                        pass
                v = ' '.join(xs) + ' ' + self.vs(n)
            self.lines.append('det %s %s %s' % (self.new('det'), t, v))
        elif kind == 'prob':
            self.lines.append('prob %s %s %s %s %s' % (self.new('prob'), r.choice(['mean_ln', 'mean', 'median', 'mean_ln', 'mean', 'median', 'bad']),
                                                       r.choice(['sd_ln', 'sd', 'sd_ln', 'sd', 'bad']), self.id('det'), self.id('det')))
        elif kind == 'im':
            self.lines.append('im %s %s' % (self.new('im'), self.id('det')))
        elif kind == 'edp':
            self.lines.append(('edp %s %s %s' if r.random() < 0.6 else 'cedp %s %s %s ' + self.id('prob')) % (self.new('edp'), self.id('im'), self.id('prob')))
        elif kind == 'frag':
            ds = [self.id('dist') for _ in range(self.states())]
            self.lines.append('frag %s %s' % (self.new('frag'), ' '.join(ds)))
        elif kind == 'loss':
            n = self.states()
            if r.random() < 0.5:
                self.lines.append('sloss %s %s' % (self.new('loss'), ' '.join(self.id('dist') for _ in range(n))))
            else:
                self.lines.append('bloss %s %s' % (self.new('loss'), ' '.join('%s %s %s %s %s' % (self.n(), self.n(), self.v(), self.v(), self.v()) for _ in range(n))))
        elif kind == 'cg':
            opt = lambda p: self.id('loss') if r.random() < p else '-'
            self.lines.append('cg %s %s %s %s %s %s %s %s' % (self.new('cg'), self.id('edp'), self.id('frag'), opt(0.85), opt(0.4), self.n(), self.v(), self.v()))
        elif kind == 'struct':
            self.lines.append('struct %s' % self.new('struct'))
        elif kind == 'dist':
            self.dist()

    def dist(self):
        r = self.r
        t = r.choice(['muln_sdln', 'mean_sdln', 'median_sdln', 'mean_sd', 'mean_sdln', 'default', 'scale', 'scalep', 'scalen', 'sum', 'mix'])
        if t in ('scale', 'scalep', 'scalen'):
            a = '%s %s' % (self.id('dist'), self.n() if t == 'scalen' else self.p())
        elif t in ('sum', 'mix'):
            n = r.choice([0, 1, 2, 5])
            a = '%d %s' % (n, ' '.join(self.id('dist') for _ in range(n)))
            if t == 'mix':
                m = n if r.random() < 0.8 else r.choice([0, 1, 3, 6])
                a += ' ' + ' '.join(num(1.0 / max(n, 1)) if r.random() < 0.6 else self.p() for _ in range(m))
        else:
            a = '%s %s' % (self.v(), self.v())
        self.lines.append('dist %s %s %s' % (self.new('dist'), t, a))

    def query(self):
        r = self.r
        k = r.choice(['det', 'prob', 'dist', 'im', 'edp', 'edp', 'frag', 'loss', 'cg', 'cg', 'cg', 'struct', 'struct', 'struct', 'maq'])
        if k == 'maq':
            self.did('query: maq')
            return 'q maq %s %s %s %s %s %s' % (r.choice(['lognormal', 'exp', 'gamma', 'pareto', 'const', 'step', 'box', 'osc', 'neg', 'inf', 'hash', 'zero']),
                                                r.choice(['-', 'nan', 'nanlow', 'nanat', 'throwat']), self.v(), self.v(), self.v(), self.n())
        v, p = self.v(), self.p()
        q = {'det': ['at ' + v, 'deriv ' + v],
             'prob': ['P %s %s' % (v, self.v()), 'X %s %s' % (v, p), 'stats ' + v],
             'dist': ['parts', 'Q ' + v, 'P ' + v, 'inv ' + p],
             'im': ['collrate 0', 'demrate 0', 'lambda ' + v, 'deriv ' + v, 'fates ' + v] + ['%s %s' % (f, self.vs()) for f in ('vlambda', 'vcoll', 'vdem', 'vrep')],
             'edp': ['lambda ' + v, 'P %s %s' % (v, self.v()), 'X %s %s' % (v, p), 'stats ' + v] +
                    ['%s %s' % (f, self.vs()) for f in ('vlambda', 'vMean', 'vMeanLn', 'vMedian', 'vSD', 'vSD_ln')],
             'frag': ['n', 'exc ' + v, 'high ' + v],
             'loss': ['n', 'calc %s %s %s' % (self.n(), self.v(), ' '.join(self.p() for _ in range(r.choice([0, 1, 2, 3, 5]))))],
             'cg': ['edpcost ' + v, 'imcost ' + v, 'distim ' + v, 'rate', 'pds ' + v, 'annual', 'edpdelay ' + v, 'imdelay ' + v] +
                   (['lambda ' + self.n().replace('1000000', '20').replace('2147483647', '20')] if r.random() < 0.3 else []),
             'struct': ['cost %s %d' % (v, r.randint(0, 1)), 'total ' + v, 'pdf ' + v, 'fates ' + v, 'deagg ' + v, 'annual', 'npv %s %s' % (self.p(), self.n())]}[k]
        q = r.choice(q)
        self.did('query: %s %s' % (k, q.split()[0]))
        return 'q %s %s %s' % (k, self.id(k), q)

    def step(self):
        r = self.r
        x = r.choice(['query'] * 10 + ['par'] * 2 + ['make'] * 4 + ['replace'] * 4 + ['del'] * 3 + ['str'] * 2 + ['notify', 'watch', 'unwatch', 'addcg', 'addcg', 'rmcg', 'rmcg',
                      'fate', 'fate', 'costs', 'setting', 'clearcaches'])
        if x not in ('make', 'query'):
            self.did(x)
        if x == 'query':
            for _ in range(r.randint(1, 5)):
                self.lines.append(self.query())
        elif x == 'par':
            qs = [self.query() for _ in range(r.randint(2, 12))]
            qs += [r.choice(qs) for _ in range(r.randint(0, 6))]
            self.lines += ['par %d' % len(qs)] + qs
        elif x == 'make':
            self.make(r.choice(KINDS + ('dist',)))
        elif x == 'replace':
            k = r.choice(KINDS)
            self.lines.append('replace %s %s %s' % (k, self.id(k), self.id(k)))
        elif x == 'del':
            self.lines.append(self.delete())
        elif x == 'str':
            k = r.choice(('det', 'prob', 'im', 'edp', 'frag', 'cg', 'cg', 'struct', 'dist', 'stats'))
            self.lines.append('str %s %s' % (k, self.id(k) if k != 'stats' else '-'))
        elif x == 'notify':
            k = r.choice(KINDS[:-1])
            self.lines.append('notify %s %s' % (k, self.id(k)))
        elif x == 'watch':
            k = r.choice(KINDS[:-1])
            self.watches.append('w%d' % len(self.watches))
            self.lines.append('watch %s %s %s' % (k, self.id(k), self.watches[-1]))
        elif x == 'unwatch':
            if self.watches:
                self.lines.append('unwatch ' + r.choice(self.watches))
        elif x in ('addcg', 'rmcg'):
            self.lines.append('%s %s %s' % (x, self.id('struct'), self.id('cg')))
        elif x == 'fate':
            self.lines.append('%s %s %s' % (r.choice(['collapse', 'demolition', 'collapsep', 'demolitionp']), self.id('im'), self.id('dist')))
        elif x == 'costs':
            self.lines.append('%s %s %s' % (r.choice(['rebuild', 'demol']), self.id('struct'), self.id('dist')))
        elif x == 'setting':
            self.lines.append(r.choice(['tol ' + num(r.choice([0.0, -1.0, 1e-300, 1e-6, 1e-2, 10.0, 1e300, float('nan'), float('inf')])),
                                        'evallimit %d' % r.choice([0, 1, 2, 3, 10, 64, 300]),
                                        'searchlimit %d' % r.choice([0, 1, 2, 10, 100, 300]), 'method %d' % r.randint(0, 4),
                                        'usedefault ' + r.choice(['tol', 'method']), 'resetstats', 'q get settings -', 'q get stats -']))
            if 'get' in self.lines[-1]:
                self.lines[-1] = 'q get - ' + self.lines[-1].split()[2]
        else:
            self.lines.append(x)

    def delete(self):
        k = self.r.choice([k for k in KINDS if self.ids[k]] or ['det'])
        i = self.id(k)
        if i in self.ids[k]:
            self.ids[k].remove(i)
        return 'del %s %s' % (k, i)

    def end(self):
        """Take the model apart, using what remains"""
        r = self.r
        left = sum(len(self.ids[k]) for k in KINDS)
        while left > r.randint(0, 12):
            self.lines.append(self.delete())
            self.did('del')
            left -= 1
            x = r.random()
            if x < 0.3:
                self.lines.append(self.query())
            elif x < 0.4:
                k = r.choice(KINDS[:-1])
                self.lines.append('notify %s %s' % (k, self.id(k)))
            elif x < 0.5:
                k = r.choice(KINDS)
                self.lines.append('replace %s %s %s' % (k, self.id(k), self.id(k)))
        ks = list(KINDS)
        r.shuffle(ks)
        self.did('destroy everything')
        self.lines.append('delall ' + ' '.join(ks))


def make(arg):
    return Hostile(*arg)

"""Histories with invalid definitions and requests among the valid ones. The same history
without them should give the same results, and each of them an exception."""
import random
from history import History
from pyhist import PyHistory, CLASS, KINDS
from drv import num


def corrupt(r, xs):
    """An increasing list which no longer is, at one place"""
    xs = list(xs)
    i = r.randrange(1, len(xs))
    x = r.random()
    if x < 0.4:
        xs[i] = xs[i - 1]
    elif x < 0.7:
        xs[i], xs[i - 1] = xs[i - 1], xs[i]
    elif x < 0.9:
        # barely
        xs[i] = xs[i - 1] * (1 - 1e-12 if xs[i - 1] > 0 else 1 + 1e-12) - 1e-300
    else:
        xs[r.randrange(len(xs))] = float('nan')
    return xs


class RefusedPy(PyHistory):
    """refused: {step: kind}; ignored: those which are refused without an exception"""
    def __init__(self, seed, steps):
        self.x = random.Random('c21 %s' % (seed,))
        self.refused, self.ignored, self.busy, self.ready = {}, {}, True, False
        self.probes = set()
        super().__init__(seed, steps)

    def start(self):
        super().start()
        self.busy, self.ready = False, True

    def change(self):
        self.inject(0.5)
        super().change()
        self.inject(0.5)
        if self.x.random() < 0.3:
            self.probe()

    def query(self):
        if self.ready:
            self.inject(0.15)
            if self.x.random() < 0.1:
                self.probe()
        super().query()

    def inject(self, p):
        if self.busy:
            return
        self.busy = True
        while self.x.random() < p:
            y = self.bad()
            if y:
                what, code = y
                # what exists may change in making one up, but not the order of steps
                self.steps.append(['do', code])
                (self.ignored if what.startswith('ignored') else self.refused)[len(self.steps)] = what
                self.count('refused: ' + what)
        self.busy = False

    def probe(self):
        """What is registered"""
        x = self.x
        names = []
        for k in KINDS:
            names.append('sorted(map(str, P.%s.defs))' % CLASS[k])
            for pid, o in list(self.names[k].items()):
                if o.var and o.current:
                    names.append("P.%s.lookup(%s) is %s" % (CLASS[k], pid, o.var))
        names += ['sorted(map(str, P.recorder.defs))']
        self.steps.append(['q', '[%s]' % ', '.join(x.sample(names, min(6, len(names))))])
        self.probes.add(len(self.steps))
        o = self.any(x.choice(KINDS[:-1]))
        if o:
            self.steps.append(['q', '__import__("re").sub("0x[0-9a-f]+", "", str(%s))' % self.ref(o)])
            self.probes.add(len(self.steps))
        self.steps.append(['q', '[float(l.split(": ")[1]) for l in P.Format_Statistics().splitlines() if l.split(": ")[0].strip() in ("Tolerance", "Integration Eval Limit", "Search Eval Limit")]'])
        self.probes.add(len(self.steps))


    def any(self, kind):
        l = [o for o in self.objs[kind] if o.current]
        return self.x.choice(l) if l else None

    def badid(self, kind):
        x = self.x
        l = [p for p, o in self.names[kind].items() if p]
        y = x.random()
        return x.choice(l) if l and y < 0.7 else "'refused %d'" % x.randint(1, 3) if y < 0.9 else 'None'

    def nums(self, n, ordered=False):
        v = [round(self.g.lu(0.01, 5), 4) for _ in range(n)]
        return sorted(set(v)) if ordered else v

    def bad(self):
        x = self.x
        return getattr(self, 'bad_' + x.choice(['det', 'det', 'det', 'prob', 'im', 'edp', 'frag', 'frag', 'loss', 'loss', 'cg', 'addcg', 'addcg', 'set', 'recorder',
                                                'settings', 'dist', 'import', 'states', 'argument', 'core']))()

    def bad_det(self):
        x = self.x
        i = self.badid('det')
        y = x.choice(['type', 'pow', 'nlh', 'one', 'lengths', 'order', 'order', 'negative', 'lists', 'text', 'none', 'few', 'list'])
        if y == 'type':
            return 'kind of function', 'P.detfn(%s, %r, [0.1, 1.5])' % (i, x.choice(['powerlaw', '', 'Power Law', None, 3, 'lognormal']))
        if y == 'pow':
            return 'parameters of a power law', "P.detfn(%s, 'power law', %r)" % (i, self.nums(x.choice([0, 1, 3, 4])))
        if y == 'nlh':
            return 'parameters of a hyperbola', "P.detfn(%s, 'hyperbolic', %r)" % (i, self.nums(x.choice([0, 1, 2, 4])))
        t = x.choice(['linear', 'loglog'])
        xs = self.nums(x.randint(3, 6), True)
        if len(xs) < 3:
            return None
        ys = self.nums(len(xs))
        if y == 'one':
            xs, ys = xs[:1], ys[:1]
            if x.random() < 0.3:
                xs, ys = [], []
        elif y == 'lengths':
            if x.random() < 0.5:
                ys = ys[:-1] if x.random() < 0.5 else ys[:1]
            else:
                xs = xs[:-1] if x.random() < 0.5 else xs[:1]
        elif y == 'order':
            xs = corrupt(x, xs)
        elif y == 'negative':
            t = 'loglog'
            xs[0] = -x.choice([1e-9, 0.1, 3.0])
        elif y == 'lists':
            return 'lists of data', 'P.detfn(%s, %r, %s)' % (i, t, x.choice(['[%r]' % xs, repr(xs), '[]']))
        elif y == 'text':
            return 'parameters which are not numbers', 'P.detfn(%s, %s)' % (i, x.choice(["'power law', ['a', 2]", "'hyperbolic', [1, 2, None]", "'linear', [[0.1, 'x'], [1, 2]]", "'loglog', [[0.1, 0.2], [1, None]]"]))
        elif y == 'none':
            return 'no parameters', 'P.detfn(%s, %r, %s)' % (i, x.choice(['linear', 'power law']), x.choice(['None', '{}', '()']))
        elif y == 'few':
            xs, ys = xs[:2], ys[:2]
            xs[x.randrange(2)] = float('nan')
        elif y == 'list':
            return 'lists of data', 'P.detfn(%s, %r, [%r, %r])' % (i, x.choice(['power law', 'hyperbolic']), xs, ys)
        f = lambda l: '[%s]' % ', '.join("float('nan')" if v != v else repr(v) for v in l)
        return 'data: ' + y, 'P.detfn(%s, %r, [%s, %s])' % (i, t, f(xs), f(ys))

    def bad_prob(self):
        x = self.x
        i = self.badid('prob')
        a, b = self.any('det'), self.any('det')
        if not a or not b:
            return None
        a, b = self.ref(a), self.ref(b)
        t, m, s = 'lognormal', '[MU.MEDIAN_X, %s]' % a, '[SD.SD_LN_X, %s]' % b
        y = x.randrange(6)
        if y == 0:
            t = x.choice(['normal', '', 'power law', 'Lognormal'])
        elif y == 1:
            m = '[%s, %s]' % (x.choice(['3', '-1', '99', 'None', '"mean"', 'MU.MEAN_INVALID', 'int(MU.MEAN_INVALID)']), a)
        elif y == 2:
            s = '[%s, %s]' % (x.choice(['2', '-1', '99', 'None', '"sd"', 'SD.SD_INVALID']), b)
        elif y == 3:
            m, s = x.choice([('[MU.MEDIAN_X, None]', s), (m, '[SD.SD_LN_X, None]'), ('[MU.MEDIAN_X]', s), ('None', s), (m, 'None'), (m, '[SD.SD_LN_X, 0.4]')])
        elif y == 4:
            e = self.any('edp') or self.any('frag')
            if not e:
                return None
            m = '[MU.MEDIAN_X, %s]' % self.ref(e)
        else:
            m = '[%s, MU.MEDIAN_X]' % a
        return 'demand', "P.probfn(%s, %r, %s, %s)" % (i, t, m, s)

    def bad_im(self):
        p = self.any('prob')
        return 'measure', 'P.im(%s, %s)' % (self.badid('im'), self.x.choice(['None', '0.5', '"im 0"', self.ref(p) if p else '[]']))

    def bad_edp(self):
        x = self.x
        i, p, d, e = self.any('im'), self.any('prob'), self.any('det'), self.any('edp')
        if not (i and p and d and e):
            return None
        i, p, d, e = map(self.ref, (i, p, d, e))
        return 'demand on a measure', 'P.edp(%s, %s)' % (self.badid('edp'), x.choice(
            ['None, ' + p, i + ', None', '%s, %s' % (p, i), '%s, %s' % (i, d), '%s, %s, %s' % (i, e, d), '%s, None, %s' % (i, e), '%s, %s' % (d, p), '%s, %s, %s' % (i, p, p), i]))

    def table(self, n):
        return [[v, round(self.g.u(0.1, 0.6), 3)] for v in self.nums(n, True)]

    def bad_frag(self):
        x = self.x
        i = self.badid('frag')
        opt = x.choice(["{'mu': MU.MEDIAN_X, 'sd': SD.SD_LN_X}", "{'mu': MU.MEAN_LN_X, 'sd': SD.SD_LN_X}"])
        rows = self.table(x.randint(2, 5))
        y = x.choice(['none', 'kinds', 'order', 'order', 'short', 'options', 'text', 'db'])
        if len(rows) < 2:
            return None
        if y == 'none':
            rows = []
        elif y == 'kinds':
            opt = x.choice(["{'mu': MU.MEDIAN_X, 'sd': SD.SD_X}", "{'mu': MU.MEAN_LN_X, 'sd': SD.SD_X}", "{'mu': 99, 'sd': SD.SD_LN_X}", "{'mu': MU.MEAN_X, 'sd': 99}",
                            "{'mu': MU.MEAN_INVALID, 'sd': SD.SD_LN_X}", "{'mu': MU.MEAN_X, 'sd': SD.SD_INVALID}", "{'mu': None, 'sd': SD.SD_X}"])
        elif y == 'order':
            ms = corrupt(x, [a for a, _ in rows])
            if any(m != m for m in ms):
                return None
            rows = [[m, s] for m, (_, s) in zip(ms, rows)]
        elif y == 'short':
            rows[x.randrange(len(rows))] = x.choice([[0.3], []])
        elif y == 'options':
            opt = x.choice(["{'mu': MU.MEDIAN_X}", "{'sd': SD.SD_LN_X}", '{}', 'None', 'MU.MEDIAN_X'])
        elif y == 'text':
            rows[x.randrange(len(rows))][x.randrange(2)] = x.choice(['a', None])
        elif y == 'db':
            l = [p for p in self.names['frag'] if p]
            if not l:
                return None
            return 'fragility without a function', x.choice(['P.fragfn_db(%s, {})', 'P.fragfn(%s)']) % x.choice(l)
        return 'fragility: ' + y, 'P.fragfn_user(%s, %s, %r)' % (i, opt, rows)

    def bad_loss(self):
        x = self.x
        i = self.badid('loss')
        if x.random() < 0.5:
            opt = x.choice(["{'mu': MU.MEDIAN_X, 'sd': SD.SD_LN_X}", "{'mu': MU.MEAN_X, 'sd': SD.SD_X}"])
            rows = self.table(x.randint(1, 4))
            y = x.choice(['none', 'kinds', 'short', 'options', 'text'])
            if y == 'none':
                rows = []
            elif y == 'kinds':
                opt = x.choice(["{'mu': MU.MEDIAN_X, 'sd': SD.SD_X}", "{'mu': MU.MEAN_LN_X, 'sd': SD.SD_X}", "{'mu': 99, 'sd': SD.SD_LN_X}", "{'mu': MU.MEAN_X, 'sd': 99}"])
            elif y == 'short':
                rows[x.randrange(len(rows))] = x.choice([[0.3], []])
            elif y == 'options':
                opt = x.choice(["{'mu': MU.MEDIAN_X}", "{'sd': SD.SD_LN_X}", '{}', 'None'])
            else:
                a = x.randrange(len(rows))
                rows[a] = x.choice([['a', 0.3], [0.3, 'a'], [0.3, None]])
            return 'loss: ' + y, 'P.simplelossfn(%s, %s, %r)' % (i, opt, rows)
        rows = ['[%d, %d, %s, %s, 0.4]' % (x.randint(1, 4), x.randint(5, 30), self.nums(1)[0], self.nums(1)[0]) for _ in range(x.randint(1, 4))]
        y = x.randrange(4)
        a = x.randrange(len(rows))
        if y == 0:
            rows = []
        elif y == 1:
            rows[a] = '[1, 10, 3.0, 2.0]'
        elif y == 2:
            rows[a] = x.choice(['None', '[1, "x", 3.0, 2.0, 0.4]', '[1.5, 10, 3.0, 2.0, 0.4]', '[1, 10, None, 2.0, 0.4]', '7'])
        else:
            rows = ['core.MakeBiLevelLoss(1, 10, 3.0, 2.0, 0.4)', x.choice(['None', '3', '"x"'])]
        return 'loss: two levels', 'P.bilevellossfn(%s, [%s])' % (i, ', '.join(rows))

    def bad_cg(self):
        x = self.x
        e, f, l = self.any('edp'), self.any('frag'), self.any('loss')
        if not (e and f and l):
            return None
        a = [self.ref(e), self.ref(f), self.ref(l), self.ref(l), '3', '1.0', '1.0']
        n = x.randrange(8)
        if n == 7:
            a.pop(x.randrange(3))
        else:
            a[n] = {0: x.choice(['None', self.ref(f), '"e"']), 1: x.choice(['None', self.ref(l), 'P.fragfn(None)']), 2: x.choice([self.ref(f), '3', 'P.lossfn("unused")._func + 1']), 3: x.choice([self.ref(f), '3.5']),
                    4: x.choice(['None', '1.5', '"x"', '2**40']), 5: x.choice(['None', '"x"', '[1.0]']), 6: x.choice(['None', '"x"'])}[n]
            if '"unused"' in a[2]:
                a[2] = '3'
        return 'group', 'P.compgroup(%s, %s)' % (self.badid('cg'), ', '.join(a))

    def bad_addcg(self):
        """A group on another measure"""
        x = self.x
        l = [(s, g) for s in self.objs['struct'] if s.current and s.cgs for g in self.objs['cg'] if g.current and g.edp.im is not s.cgs[0].edp.im]
        if not l:
            s = self.any('struct')
            return ('no group', '%s.AddCompGroup(%s)' % (self.ref(s), x.choice(['None', '3', '"g"']))) if s else None
        s, g = x.choice(l)
        return 'group on another measure', '%s.AddCompGroup(%s)' % (self.ref(s), self.ref(g))

    def bad_set(self):
        x = self.x
        if x.random() < 0.5:
            i = self.any('im')
            return ('missing distribution', '%s.%s(%s)' % (self.ref(i), x.choice(['SetCollapse', 'SetDemolition']), x.choice(['None', '0.5', '[1.0, 0.4]', self.ref(i)]))) if i else None
        s = self.any('struct')
        return ('missing distribution', '%s.%s(%s)' % (self.ref(s), x.choice(['setRebuildCost', 'setDemolitionCost']), x.choice(['None', '100.0', '{}', self.ref(s)]))) if s else None

    def bad_recorder(self):
        x = self.x
        o = self.any(x.choice(['im', 'edp', 'cg', 'struct']))
        if not o:
            return None
        t = {'im': ['imrate', 'collapse'], 'edp': ['edpim', 'edprate'], 'cg': ['dsim', 'dsedp', 'costim', 'costrate', 'delayim'], 'struct': ['totalcost', 'deagg', 'pdf', 'structcost']}[o.kind]
        t = x.choice(t)
        opt = '{}' if t != 'structcost' else "{'structcost-type': %r, 'discount-rate': 0.05}" % x.choice(['by-edp', 'by-frag', 'by-fate', 'npv'])
        y = x.random()
        if y < 0.6:
            return 'recorder without points', "P.MakeRecorder('r%d', %r, %s, %s, None, None)" % (x.randint(1, 2), t, self.ref(o), opt)
        return 'recorder with bad points', "P.MakeRecorder('r%d', %r, %s, %s, None, [0.1, 'x'])" % (x.randint(1, 2), t if t != 'structcost' else 'pdf', self.ref(o), '{}')

    def bad_settings(self):
        x = self.x
        y = x.randrange(5)
        if y == 0:
            return 'integration method', 'P.Set_Integration_Method(%s)' % x.choice(['5', '-1', '99', '"directed"', 'None'])
        if y == 1:
            return 'limit', 'P.Set_Integration_%s_Limit(%s)' % (x.choice(['Eval', 'Search']), x.choice(['-1', '"x"', 'None', '2**40']))
        if y == 2:
            return 'tolerance', 'P.Set_Integration_Tolerance(%s)' % x.choice(['"x"', 'None', '[0.1]'])
        if y == 3:
            return 'ignored: tolerance', 'P.Set_Integration_Tolerance(%s)' % x.choice(['0', '0.0', '-0.1', '-1e300', 'float("nan")'])
        return 'ignored: limit', 'P.Set_Integration_%s_Limit(0)' % x.choice(['Eval', 'Search'])

    def bad_dist(self):
        x = self.x
        return 'distribution', x.choice(['core', 'P']) + x.choice(['.MakeLogNormalDist(0.5, MU.MEDIAN_X, 0.4, SD.SD_X)', '.MakeLogNormalDist(0.5, MU.MEAN_LN_X, 0.4, SD.SD_X)', '.MakeLogNormalDist(0.5, 99, 0.4, SD.SD_X)',
                                       '.MakeLogNormalDist(0.5, MU.MEAN_X, 0.4, 99)', '.MakeLogNormalDist(None, MU.MEAN_X, 0.4, SD.SD_X)', '.MakeLogNormalDist(0.5, SD.SD_X, 0.4, "x")'])

    def bad_import(self):
        x = self.x
        k, f = x.choice([('prob', 'ImportProbFn'), ('im', 'ImportIMFn')])
        i = self.badid(k)
        y = x.randrange(3)
        if y == 0:
            return 'missing file', 'P.%s(%s, "./nosuchfile.txt")' % (f, i)
        n = './' + self.new_id('bad') + '.txt'
        text = 'header\nx y\n' + ('0.1 0.002\nwords here\n' if y == 1 else '0.5 0.002 0.001\n0.3 0.004 0.005\n0.2 0.005 0.006\n')
        return 'bad file', 'open(%r, "w").write(%r); P.%s(%s, %r)' % (n, text, f, i, n)

    def bad_states(self):
        """A loss for another number of states than the fragility: what it's asked for can't be calculated"""
        x = self.x
        e, f = self.any('edp'), self.any('frag')
        if not (e and f):
            return None
        n = x.choice([k for k in (1, 2, 3, 4, 5) if k != self.nstates])
        if x.random() < 0.5:
            l = "P.simplelossfn(None, {'mu': MU.MEAN_X, 'sd': SD.SD_LN_X}, %r)" % ([[2.0, 0.3]] * n)
        else:
            l = 'P.bilevellossfn(None, %r)' % ([[1, 10, 3.0, 2.0, 0.4]] * n)
        which = x.choice(['Cost', 'Delay'])
        q = x.choice(['E_%s_EDP(0.05)', 'SD_ln_%s_EDP(0.05)', 'E_%s_IM(0.4)', 'SD_ln_%s_IM(0.4)'] + (['E_annual_cost()', 'lambda_cost(5)', 'E_cost(10, 0.05)'] if which == 'Cost' else []))
        q = q % which if '%' in q else q
        return 'numbers of states', 'P.compgroup(None, %s, %s, %s, %d, 1.0, 1.0).%s' % (self.ref(e), self.ref(f), l + ', None' if which == 'Cost' else 'None, ' + l, x.randint(1, 5), q)

    def bad_argument(self):
        x = self.x
        o = self.any(x.choice(['det', 'prob', 'im', 'edp', 'cg', 'struct', 'frag']))
        if not o:
            return None
        q = {'det': ['ValueAt(%s)'], 'prob': ['Mean(%s)', 'X_at_exceedence(%s, 0.5)', 'SD_ln(%s)'], 'im': ['getlambda(%s)', 'pRepair(%s)', 'pCollapse(%s)'], 'edp': ['getlambda(%s)', 'Mean(%s)', 'X_at_exceedence(%s, 0.1)'],
             'cg': ['E_Cost_EDP(%s)', 'E_Cost_IM(%s)', 'pDS_IM(%s)', 'lambda_cost(%s)', 'E_cost(10, %s)'], 'struct': ['Cost(%s, True)', 'TotalCost(%s)', 'pdf(%s)', 'E_cost(10, %s)', 'DeaggregatedCost(%s)'], 'frag': ['pExceeded(%s)']}[o.kind]
        return 'argument', '%s.%s' % (self.ref(o), x.choice(q) % x.choice(['None', '"x"', '["x"]', '[None]', '']))

    def bad_core(self):
        x = self.x
        k = x.choice(['det', 'prob', 'im', 'edp', 'frag', 'loss', 'cg'])
        o, p = self.any(k), self.any(x.choice([j for j in KINDS[:-1] if j != k]))
        if not o or not p:
            return None
        return 'replacement', '%s.function().replace(%s)' % (self.ref(o), x.choice(['None', '3', self.ref(p) + '.function()', self.ref(o)]))

    def without(self):
        """The same steps, without those which should change nothing"""
        bad = set(self.refused) | set(self.ignored)
        return [['do', 'pass'] if n in bad else s for n, s in enumerate(self.steps, 1)]


class RefusedCpp(History):
    def __init__(self, seed, steps):
        self.x = random.Random('c21c %s' % (seed,))
        self.refused = {}
        self.on = False
        super().__init__(seed, steps, 'c21')
        self.without = ''.join('#\n' if n in self.refused else l + '\n' for n, l in enumerate(self.lines, 1))

    def change(self):
        self.on = True
        while self.x.random() < 0.6:
            y = self.bad()
            if y:
                self.lines.append(y[1])
                self.refused[len(self.lines)] = y[0]
        return super().change()

    def query(self):
        if self.on and self.x.random() < 0.15:
            y = self.bad()
            if y:
                self.lines.append(y[1])
                self.refused[len(self.lines)] = y[0]
        return super().query()

    def any(self, k):
        l = self.objs[k]
        return self.x.choice(l) if l else None

    def bad(self):
        x, g = self.x, self.g
        y = x.choice(['det', 'det', 'negative', 'prob', 'frag', 'loss', 'addcg', 'addcg', 'addcg', 'mix', 'calc', 'settings', 'states'])
        nn = lambda l: ' '.join(num(v) for v in l)
        if y in ('det', 'negative'):
            t = x.choice(['lin', 'loglog'])
            xs = sorted(set(round(g.lu(0.01, 5), 4) for _ in range(x.randint(3, 6))))
            if len(xs) < 3:
                return None
            if y == 'negative':
                xs[0] = -x.choice([1e-9, 0.1, 3.0])
                return 'data: negative', 'det bad loglog %s %s' % (nn(xs), nn(g.lu(0.1, 1) for _ in xs))
            xs = xs[:x.randint(0, 1)] if x.random() < 0.2 else corrupt(x, xs)
            return 'data', 'det bad %s %s %s' % (t, nn(xs), nn(g.lu(0.1, 1) for _ in xs))
        if y == 'prob':
            a, b = self.any('det'), self.any('det')
            return 'demand', 'prob bad %s %s %s %s' % (x.choice([('bad', 'sd_ln'), ('median', 'bad'), ('bad', 'bad'), ('mean_ln', 'bad'), ('bad', 'sd')]) + (a.id, b.id))
        if y == 'frag':
            if x.random() < 0.2:
                return 'fragility: none', 'frag bad'
            ms = sorted(set(round(g.lu(0.01, 5), 4) for _ in range(x.randint(2, 5))))
            if len(ms) < 2:
                return None
            ms = corrupt(x, ms)
            if any(m != m for m in ms):
                return None
            ids = []
            for m in ms:
                ids.append(self.new_id('l'))
                self.lines.append('dist %s muln_sdln %s %s' % (ids[-1], num(m), num(g.u(0.1, 0.6))))
            return 'fragility: order', 'frag bad ' + ' '.join(ids)
        if y == 'loss':
            return 'loss: none', x.choice(['sloss bad', 'bloss bad'])
        if y == 'addcg':
            l = [(s, c) for s in self.objs['struct'] if s.cgs for c in self.objs['cg'] if c.edp.im is not s.cgs[0].edp.im]
            if not l:
                return None
            s, c = x.choice(l)
            return 'group on another measure', 'addcg %s %s' % (s.id, c.id)
        if y == 'mix':
            n = x.randint(1, 4)
            ids = []
            for _ in range(n):
                ids.append(self.new_id('l'))
                self.lines.append('dist %s muln_sdln %s %s' % (ids[-1], num(g.u(-2, 2)), num(g.u(0.1, 0.6))))
            return 'numbers of weights', 'dist %s mix %d %s %s' % (x.choice([ids[0], 'bad']), n, ' '.join(ids), ' '.join(['0.2'] * x.choice([k for k in range(6) if k != n])))
        if y == 'calc':
            l = self.any('loss')
            if not l:
                return None
            n = len(l.spec[1])
            return 'numbers of states', 'q loss %s calc %d 1.0 %s' % (l.id, x.randint(1, 5), ' '.join(['0.2'] * x.choice([k for k in range(7) if k != n])))
        if y == 'states':
            # a group whose loss has another number of states
            e, f = self.any('edp'), self.any('frag')
            n = x.choice([k for k in (1, 2, 3, 4, 5) if k != self.nstates])
            i, j = self.new_id('b'), self.new_id('g')
            self.lines.append('bloss %s %s' % (i, ' '.join(['1 10 3.0 2.0 0.4'] * n)))
            self.lines.append('cg %s %s %s %s - 2 1.0 1.0' % (j, e.id, f.id, i))
            return 'numbers of states', 'q cg %s %s' % (j, x.choice(['edpcost 0.05', 'imcost 0.4', 'annual', 'lambda 5', 'distim 0.4']))
        return 'ignored: settings', x.choice(['tol 0', 'tol -0.5', 'tol nan', 'evallimit 0', 'searchlimit 0'])


def make_py(arg):
    return RefusedPy(*arg)


def make_cpp(arg):
    return RefusedCpp(*arg)

"""Histories of definitions, redefinitions and queries made through pyslat; what each query
should give comes from a copy of the model built afresh in C++ (see history.emit), or, for
what isn't a number of the library's (names, groupings), from the description itself."""
import math, re
import numpy as np
import gen
from history import Obj, emit
from drv import num

IMS = [0.12, 0.5, 1.1, 1]
EDPS = [0.01, 0.06, 0.3, 1]
KINDS = ('det', 'prob', 'im', 'edp', 'frag', 'loss', 'cg', 'struct')
CLASS = {'det': 'detfn', 'prob': 'probfn', 'im': 'im', 'edp': 'edp', 'frag': 'fragfn', 'loss': 'lossfn', 'cg': 'compgroup', 'struct': 'structure'}
MUS = {'muln_sdln': ('MEAN_LN_X', 'SD_LN_X'), 'mean_sdln': ('MEAN_X', 'SD_LN_X'), 'median_sdln': ('MEDIAN_X', 'SD_LN_X'), 'mean_sd': ('MEAN_X', 'SD_X')}
MT = {'mean_ln': 'MU.MEAN_LN_X', 'mean': 'MU.MEAN_X', 'median': 'MU.MEDIAN_X'}
ST = {'sd_ln': 'SD.SD_LN_X', 'sd': 'SD.SD_X'}
TYPE = {'pow': 'power law', 'nlh': 'hyperbolic', 'lin': 'linear', 'loglog': 'loglog'}


def spell(d, kind):
    """A distribution (mu and sigma of its logarithm) in other words"""
    m, s = d
    return {'muln_sdln': (kind, float(m), float(s)),
            'mean_sdln': (kind, math.exp(m + s * s / 2), float(s)),
            'median_sdln': (kind, math.exp(m), float(s)),
            'mean_sd': (kind, math.exp(m + s * s / 2), math.exp(m + s * s / 2) * math.sqrt(math.expm1(s * s)))}[kind]


class PyHistory:
    def __init__(self, seed, steps, settings=True):
        self.seed = seed
        self.g = gen.Gen('c18 %s' % (seed,))
        self.r = self.g.r
        self.steps = []          # of Python
        self.fresh = []          # models built afresh in C++
        self.pairs = []          # (step, line of fresh or None, what, how to compare)
        self.counts = {}
        self.serial = 0
        self.nstates = self.r.randint(1, 4)
        self.objs = {k: [] for k in KINDS}     # which can be reached
        self.all = []
        self.names = {k: {} for k in KINDS}
        self.threads = 3 if self.r.random() < 0.1 else 1
        self.fresh.append('threads %d' % self.threads)
        if settings:
            self.settings()
            if self.threads == 1:
                self.statistics()
        self.start()
        self.queries(self.r.randint(4, 10))
        for _ in range(steps):
            for _ in range(self.r.choice([1, 1, 2, 3])):
                self.change()
            self.queries(self.r.randint(3, 7))
        self.ftext = '\n'.join(self.fresh) + '\n'

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def new_id(self, p):
        self.serial += 1
        return '%s%d' % (p, self.serial)

    def do(self, code):
        self.steps.append(['do', code])
        return len(self.steps)

    # --- spelling

    def lit(self, v):
        """A number"""
        v = float(v)
        r = self.r
        if v == int(v) and abs(v) < 1e9 and r.random() < 0.4:
            return '%d' % v
        return 'np.float64(%r)' % v if r.random() < 0.1 else repr(v)

    def seq(self, items, outer=False):
        x = self.r.random()
        if x < 0.7 or not items:
            return '[%s]' % ', '.join(items)
        if x < 0.85 and not outer:
            return '(%s,)' % ', '.join(items)
        return 'np.array([%s], float)' % ', '.join(items)

    def spec(self, d, kind=None):
        return spell(d, kind or self.r.choice(list(MUS)))

    def pydist(self, d):
        if d is None:
            return self.r.choice(['P.DefaultLogNormalDist()', 'core.MakeLogNormalDist()'])
        m, s = MUS[d[0]]
        return '%s.MakeLogNormalDist(%s, MU.%s, %s, SD.%s)' % (self.r.choice(['P', 'core']), self.lit(d[1]), m, self.lit(d[2]), s)

    def ref(self, o):
        """How to refer to an object"""
        if o.var and (o.pid is None or not o.current or self.r.random() < 0.5):
            return o.var
        assert o.pid is not None and o.current
        return 'P.%s.lookup(%s)' % (CLASS[o.kind], o.pid)

    def pid(self, kind, group):
        r = self.r
        x = r.random()
        if x < 0.12:
            return None
        n = r.randint(1, 3)
        return r.choice(["'%s %d'" % (group, n), "'%s-%d'" % (group, n), "('%s', %d)" % (group, n)]) if x < 0.3 else "'%s%d'" % (group, n)

    # --- definitions

    def define(self, kind, pid, code, **kw):
        """code has %s for the identifier"""
        var = self.new_id('o')
        o = Obj(kind, None, pid=pid, given=pid, var=var, current=True, **kw)
        self.do('%s = %s' % (var, code % {'id': pid}))
        self.count('definitions: ' + kind)
        if pid is not None:
            old = self.names[kind].get(pid)
            if old is not None:
                self.count('redefinitions: ' + kind)
                old.current = False
                if kind != 'struct':
                    self.swap(old, o)
                if not old.var and old in self.objs[kind]:
                    self.objs[kind].remove(old)
            self.names[kind][pid] = o
            if self.r.random() < 0.15:
                # reached only by its name
                self.do('del ' + var)
                o.var = None
        self.objs[kind].append(o)
        self.all.append(o)
        return o

    def swap(self, old, new):
        for o in self.all:
            if o is new:
                continue
            for name, v in list(o.__dict__.items()):
                if v is old:
                    setattr(o, name, new)
                elif name in ('probs', 'cgs') and isinstance(v, list):
                    setattr(o, name, [new if x is old else x for x in v])

    def pick(self, kind, ok=lambda o: True):
        """One in use: definitions since replaced are only asked, not used again"""
        l = [o for o in self.objs[kind] if o.current and ok(o)]
        return self.r.choice(l) if l else None

    def reuse(self, kind, new, p=0.5, ok=lambda o: True):
        return (self.pick(kind, ok) if self.r.random() < p else None) or new()

    def new_det(self, spec, use, pid=0):
        t = TYPE[spec[0]]
        if spec[0] in ('lin', 'loglog'):
            a = '[%s, %s]' % (self.seq([self.lit(v) for v in spec[1]]), self.seq([self.lit(v) for v in spec[2]]))
        elif spec[0] == 'nlh':
            # alpha, then the asymptotes of im and rate, as the interface orders them; see pyslatcore.cpp
            a = self.seq([self.lit(v) for v in (spec[3], spec[2], spec[1])], True)
        else:
            a = self.seq([self.lit(v) for v in spec[1:]], True)
        pid = self.pid('det', 'f ' + use) if pid == 0 else pid
        return self.define('det', pid, "P.detfn(%%(id)s, '%s', %s)" % (t, a), spec=spec, use=use)

    def new_prob(self, pid=0, kind=None):
        mt, st, f, g = self.g.demand(kind)
        uf, ug = 'f ' + mt, 'g ' + st if st == 'sd_ln' else 'g %s %s' % (st, mt)
        a = self.reuse('det', lambda: self.new_det(f, uf), 0.3, lambda o: o.use == uf)
        b = self.reuse('det', lambda: self.new_det(g, ug), 0.3, lambda o: o.use == ug)
        pid = self.pid('prob', 'p') if pid == 0 else pid
        q = self.r.choice(['[%s, %s]', '(%s, %s)'])
        # a and b may be redefined by each other's definition
        return self.define('prob', pid, "P.probfn(%%(id)s, 'lognormal', %s, %s)" % (q % (MT[mt], self.ref(a)), q % (ST[st], self.ref(b))),
                           mt=mt, st=st, f=a, g=b)

    def im_dist(self, which):
        g = self.g
        d = {'collapse': (math.log(g.u(0.8, 3)), g.u(0.3, 0.6)), 'demolition': (math.log(g.u(0.4, 2.0)), g.u(0.3, 0.6)),
             'cost': (math.log(g.lu(1, 100)), g.u(0.1, 0.5))}[which]
        return self.spec(d)

    def new_im(self, pid=0):
        r = self.r
        d = self.reuse('det', lambda: self.new_det(self.g.hazard(), 'im'), 0.3, lambda o: o.use == 'im')
        pid = self.pid('im', 'im') if pid == 0 else pid
        o = self.define('im', pid, 'P.im(%%(id)s, %s)' % self.ref(d), det=d, collapse=None, demolition=None)
        for w in ('collapse', 'demolition'):
            if r.random() < 0.55:
                self.set_fate(o, w)
        return o

    def set_fate(self, o, w):
        d = self.im_dist(w)
        setattr(o, w, d)
        self.do('%s.Set%s(%s)' % (self.ref(o), w.capitalize(), self.pydist(d)))

    def new_edp(self, im, pid=0):
        r = self.r
        if pid == 0:
            # a structure's groups stay with its intensity measure
            pid = self.pid('edp', 'e of %s' % im.number)
        if r.random() < 0.25:
            parts = [self.reuse('edp', lambda: self.new_simple(im), 0.8, lambda e: len(e.probs) == 1) for _ in range(2)]
            if all(p.current for p in parts):
                return self.define('edp', pid, 'P.edp(%%(id)s, %s, %s, %s)' % (self.ref(im), self.ref(parts[0]), self.ref(parts[1])),
                                   im=im, probs=[p.probs[0] for p in parts])
        return self.new_simple(im, pid)

    def new_simple(self, im, pid=None):
        p = self.reuse('prob', self.new_prob)
        return self.define('edp', pid, 'P.edp(%%(id)s, %s, %s)' % (self.ref(im), self.ref(p)), im=im, probs=[p])

    def data(self, spec):
        """A table of distributions, and what they are"""
        kind = self.r.choice(list(MUS))
        ds = [spell(d, kind) for d in spec]
        m, s = MUS[kind]
        return ds, self.r.choice(["{'mu': MU.%s, 'sd': SD.%s}", "dict(mu=MU.%s, sd=SD.%s)"]) % (m, s)

    def new_frag(self, pid=0):
        ds, options = self.data(self.g.frag(self.nstates))
        pid = self.pid('frag', 'fr') if pid == 0 else pid
        rows = [self.seq([self.lit(v) for v in d[1:]]) for d in ds]
        return self.define('frag', pid, 'P.fragfn_user(%%(id)s, %s, [%s])' % (options, ', '.join(rows)), spec=ds)

    def new_loss(self, pid=0):
        r = self.r
        k, l = self.g.loss(self.nstates)
        pid = self.pid('loss', 'l') if pid == 0 else pid
        if k == 's':
            ds, options = self.data(l)
            rows = [self.seq([self.lit(v) for v in d[1:]]) for d in ds]
            if r.random() < 0.1:
                i = r.randrange(len(ds))
                ds[i] = None
                rows[i] = '[None, None]'
            return self.define('loss', pid, 'P.simplelossfn(%%(id)s, %s, [%s])' % (options, ', '.join(rows)), spec=(k, ds))
        rows = ['%d, %d, %s, %s, %s' % (a, b, self.lit(c), self.lit(d), self.lit(e)) for a, b, c, d, e in l]
        if r.random() < 0.3:
            # the script interpreter makes them beforehand
            t = ', '.join('%s.MakeBiLevelLoss(%s)' % (r.choice(['P', 'core']), x) for x in rows)
        else:
            t = ', '.join('[%s]' % x for x in rows)
        return self.define('loss', pid, 'P.bilevellossfn(%%(id)s, [%s])' % t, spec=(k, l))

    def new_cg(self, edp, pid=0):
        r = self.r
        f = self.reuse('frag', self.new_frag)
        c = self.reuse('loss', self.new_loss) if r.random() < 0.85 else None
        d = self.reuse('loss', self.new_loss) if r.random() < 0.5 else None
        # (defining the delay may have redefined the cost)
        if c is not None and not c.current:
            c = self.names['loss'][c.pid]
        n, ca, da = r.choice([1, 2, 5, 20]), r.choice([1.0, self.g.u(0.3, 2)]), r.choice([1.0, self.g.u(0.3, 2)])
        pid = self.pid('cg', 'g of %s' % edp.im.number) if pid == 0 else pid
        return self.define('cg', pid, 'P.compgroup(%%(id)s, %s, %s, %s, %s, %d, %s, %s)' % (
            self.ref(edp), self.ref(f), self.ref(c) if c else 'None', self.ref(d) if d else 'None', n, self.lit(ca), self.lit(da)),
            edp=edp, frag=f, cost=c, delay=d, count=n, ca=ca, da=da)

    def new_struct(self, im):
        o = self.define('struct', self.pid('struct', 's'), 'P.structure(%(id)s)', cgs=[], rebuild=None, demol=None)
        gs = [g for g in self.objs['cg'] if g.current and g.edp.im is im]
        self.r.shuffle(gs)
        for g in gs[:self.r.randint(1, 3)]:
            self.addcg(o, g)
        for w in ('rebuild', 'demol'):
            if self.r.random() < 0.9:
                self.set_cost(o, w)
        return o

    def addcg(self, o, g):
        o.cgs = o.cgs + [g]
        self.do('%s.AddCompGroup(%s)' % (self.ref(o), self.ref(g)))

    def set_cost(self, o, w):
        d = self.im_dist('cost')
        setattr(o, w, d)
        self.do('%s.set%sCost(%s)' % (self.ref(o), {'rebuild': 'Rebuild', 'demol': 'Demolition'}[w], self.pydist(d)))

    def settings(self):
        r = self.r
        tol = r.choice([1e-2, 2e-3, 0.05])
        ev, se, m = r.choice([1024, 500, 3000]), r.choice([1024, 400]), r.randrange(5)
        names = ['BINARY_SUBDIVISION', 'REVERSE_BINARY_SUBDIVISION', 'LOW_FIRST_REVERSE_BINARY_SUBDIVISION', 'SCATTERED', 'DIRECTED']
        x = r.random()
        if x < 0.4:
            self.do('P.IntegrationSettings(%r, %d)' % (tol, ev))
        elif x < 0.9:
            self.do('P.Set_Integration_Eval_Limit(%d)' % ev)
            self.do('P.Set_Integration_Tolerance(%r)' % tol)
        if x < 0.9:
            self.fresh += ['tol %r' % tol, 'evallimit %d' % ev]
        if r.random() < 0.5:
            self.do('P.Set_Integration_Search_Limit(%d)' % se)
            self.fresh.append('searchlimit %d' % se)
        if r.random() < 0.7:
            self.do('P.Set_Integration_Method(P.INTEGRATION_METHOD.%s)' % names[m])
            self.fresh.append('method %d' % m)
        # what format_statistics says of the settings
        self.expect('[float(l.split(": ")[1]) for l in P.Format_Statistics().splitlines() if l.split(": ")[0].strip() in ("Tolerance", "Integration Eval Limit", "Search Eval Limit")]',
                    'get it format', 'settings', 'last3')
        self.method = m

    def statistics(self):
        """The same integrations are counted alike"""
        e = self.new_simple(self.im(None))
        i = emit(self.fresh, e, self.new_id, {})
        self.do('P.Reset_Statistics()')
        self.fresh.append('resetstats')
        ys = self.r.sample(EDPS, 3)
        self.expect('%s.getlambda([%s])' % (e.var, ', '.join(map(self.lit, ys))), 'edp %s vlambda %s' % (i, ' '.join(map(num, ys))), 'edp H.getlambda')
        names = ["Number of Calls", "Successes", "Integration Failures", "NANs", "Number Search Fails", "Max Integration Evals",
                 "Total Integration Evals", "Total Search Evals", "Tolerance", "Integration Eval Limit", "Search Eval Limit"]
        self.expect('(lambda t: [t[k] for k in %r])({l.split(": ")[0]: float(l.split(": ")[1].split()[0]) for l in P.Format_Statistics().splitlines() if ": " in l and l.split(": ")[0] in %r})' % (names, names),
                    'get it format', 'statistics')

    forgets = True
    memo = None      # what's already built afresh, while the model doesn't change
    ims = 0

    def im(self, pid=0):
        o = self.new_im(pid)
        self.ims += 1
        o.number = self.ims
        return o

    def start(self):
        r = self.r
        ims = []
        for i in range(r.choice([1, 2, 2])):
            ims.append(self.im("'im %d'" % i if r.random() < 0.8 else None))
        edps = [self.new_edp(r.choice(ims)) for _ in range(r.randint(1, 3))]
        for _ in range(r.randint(1, 4)):
            e = self.pick('edp')
            self.new_cg(e)
        for _ in range(r.choice([1, 2])):
            self.new_struct(self.pick('cg').edp.im)

    def change(self):
        r = self.r
        x = r.choice(['det', 'det', 'prob', 'im', 'edp', 'frag', 'loss', 'cg', 'fate', 'fate', 'cost', 'cost', 'addcg', 'addcg',
                      'rmcg', 'new', 'forget', 'import'] + (['clear'] if self.forgets and r.random() < 0.1 else []))
        named = lambda k: self.pick(k, lambda o: o.pid is not None and self.names[k].get(o.pid) is o)
        self.count('change: ' + x)
        if x in ('det', 'prob', 'im', 'edp', 'frag', 'loss', 'cg'):
            o = named(x)
            if o is None:
                return
            if x == 'det':
                w = o.use.split()
                if w[0] == 'im':
                    self.new_det(self.g.hazard(), 'im', o.pid)
                elif w[0] == 'f':
                    self.new_det(self.g.demand((w[1], 'sd_ln'))[2], o.use, o.pid)
                else:
                    self.new_det(self.g.demand((w[2] if len(w) > 2 else 'median', w[1]))[3], o.use, o.pid)
            elif x == 'im':
                n = self.new_im(o.pid)
                n.number = o.number
            elif x == 'edp':
                if not self.reachable(o.im):
                    return
                self.new_edp(o.im, o.pid)
            elif x == 'cg':
                e = self.pick('edp', lambda e: e.im is o.edp.im)
                if e:
                    self.new_cg(e, o.pid)
            else:
                {'prob': self.new_prob, 'frag': self.new_frag, 'loss': self.new_loss}[x](o.pid)
        elif x == 'fate':
            o = self.pick('im')
            if o:
                self.set_fate(o, r.choice(['collapse', 'demolition']))
        elif x == 'cost':
            o = self.pick('struct')
            if o:
                self.set_cost(o, r.choice(['rebuild', 'demol']))
        elif x == 'addcg':
            o = self.pick('struct')
            if o and len(o.cgs) < 6:
                c = self.pick('cg', lambda c: not o.cgs or c.edp.im is o.cgs[0].edp.im)
                if c:
                    self.addcg(o, c)
        elif x == 'rmcg':
            o = self.pick('struct')
            if o:
                gs = [c for c in o.cgs if self.reachable(c)]
                if gs and (len(o.cgs) > 1 or r.random() < 0.3):
                    c = r.choice(gs)
                    l = list(o.cgs)
                    l.remove(c)
                    o.cgs = l
                    self.do('%s.RemoveCompGroup(%s)' % (self.ref(o), self.ref(c)))
        elif x == 'new':
            im = self.pick('im')
            if im:
                self.new_edp(im)
                e = self.pick('edp', lambda e: e.im is im)
                if e:
                    self.new_cg(e)
                    if r.random() < 0.5:
                        self.new_struct(im)
        elif x == 'forget':
            # no variable refers to it any more; others may use it
            k = r.choice(KINDS[:-1])
            l = [o for o in self.objs[k] if o.var]
            if len(l) > 2:
                o = r.choice(l)
                self.do('del ' + o.var)
                o.var = None
                if not (o.pid is not None and o.current and self.names[k].get(o.pid) is o):
                    self.objs[k].remove(o)
        elif x == 'import':
            self.import_file()
        elif x == 'clear':
            # names are forgotten: what's defined next replaces nothing
            self.do('P.ClearCaches()')
            for k in KINDS:
                self.names[k] = {}
                for o in list(self.objs[k]):
                    o.pid = None
                    if not o.var:
                        self.objs[k].remove(o)
            self.steps.append(['q', 'P.im.lookup("im 0")'])
            self.pairs.append((len(self.steps), None, 'lookup', ['None']))

    def reachable(self, o):
        return o in self.objs[o.kind] and o.current

    def import_file(self):
        r = self.r
        what = r.choice(['prob', 'im'])
        n = r.randint(2, 6)
        xs = sorted(set(round(self.g.lu(0.02, 3), 4) for _ in range(n + 2)))
        name = self.new_id('data')
        d = r.choice(['', '', 'in'])
        if d:
            self.do("os.makedirs('in', exist_ok=True); P.set_input_directory('in')")
        else:
            self.do("P.set_input_directory('.')")
        given = r.choice([name, name + '.csv', name + '.txt'])
        path = os_path(d, given if '.' in given else given + '.csv')
        if r.random() < 0.3:
            given = './' + path
        pid = self.pid('prob', 'p') if what == 'prob' else r.choice([None, "'im 0'", "'im 1'"])
        if what == 'im':
            # it takes the place of one with the same name
            old = self.names['im'].get(pid) if pid else None
            a, b = self.g.lu(1e-5, 1e-3), -self.g.u(1.2, 3)
            rows = [(x, float('%.6g' % (a * x ** b))) for x in xs]
            spec = ('loglog', [x for x, _ in rows], [y for _, y in rows])
            det = Obj('det', None, spec=spec, use='im', current=True, pid=None, var=None)
            self.all.append(det)
            text = 'header\nIM rate\n' + ''.join('%r %r\n' % row for row in rows)
            self.do('open(%r, "w").write(%r)' % (path, text))
            o = self.define('im', pid, 'P.ImportIMFn(%%(id)s, %r)' % given, det=det, collapse=None, demolition=None)
            if old:
                o.number = old.number
            else:
                self.ims += 1
                o.number = self.ims
            self.ask(o, '[H.getlambda(x) for x in [0.1, 0.5, 1.7]]', 'vlambda 0.1 0.5 1.7', 'imported im')
        else:
            runs = r.randint(2, 6)
            a, b, s = self.g.lu(0.02, 0.5), self.g.u(0.6, 1.4), self.g.u(0.25, 0.7)
            mu, sigma, text = [0.0], [0.0], 'header\nIM values\n'
            for x in xs:
                v = [float('%.5g' % (a * (x / 0.5) ** b * math.exp(s * r.gauss(0, 1)))) for _ in range(runs)]
                w = list(v)
                if runs > 3 and r.random() < 0.3:
                    w[r.randrange(runs)] = 0.0     # a collapse
                v = [math.log(y) for y in w if y]
                mu.append(math.exp(np.mean(v)))
                sigma.append(float(np.std(v, ddof=1)))
                text += '%r %s\n' % (x, ' '.join(map(repr, w)))
            f, g = [Obj('det', None, spec=('lin', [0.0] + xs, y), use='import', current=True, pid=None, var=None) for y in (mu, sigma)]
            self.all += [f, g]
            self.do('open(%r, "w").write(%r)' % (path, text))
            o = self.define('prob', pid, 'P.ImportProbFn(%%(id)s, %r)' % given, mt='median', st='sd_ln', f=f, g=g)
            self.ask(o, '[[H.Median(x), H.SD_ln(x)] for x in (%r, 0.7)]' % (xs[0] / 2), None, 'imported demand', [
                v for x in (xs[0] / 2, 0.7) for v in (np.interp(x, [0] + xs, mu), np.interp(x, [0] + xs, sigma))] if xs[-1] > 0.7 else None)

    # --- queries

    def expect(self, expr, query, what, how=None):
        self.steps.append(['q', expr])
        self.fresh.append('q ' + query)
        self.pairs.append((len(self.steps), len(self.fresh), what, how))

    def ask(self, o, expr, query, what, direct=None):
        if query is None and direct is None:
            return
        h = self.ref(o)
        self.steps.append(['q', re.sub(r'\bH\b', lambda m: h, expr)])
        if direct is not None:
            self.pairs.append((len(self.steps), None, what, direct))
        else:
            i = emit(self.fresh, o, self.new_id, {} if self.memo is None else self.memo)
            k, how = o.kind, None
            if isinstance(query, tuple):
                query, how = query
            self.fresh.append('q %s %s %s' % (k, i, query))
            self.pairs.append((len(self.steps), len(self.fresh), what, how))

    def text(self, s):
        return '"%s"' % s.encode('unicode_escape').decode().replace(' ', '\\x20')

    def query(self):
        r = self.r
        k = r.choice(['det', 'prob', 'im', 'im', 'edp', 'edp', 'edp', 'frag', 'loss', 'cg', 'cg', 'cg', 'cg', 'cg', 'struct', 'struct', 'struct', 'struct', 'struct', 'dist'])
        if k == 'dist':
            return self.query_dist()
        l = self.objs[k]
        if not l:
            return
        o = r.choice(l)
        a, y = r.choice(IMS), r.choice(EDPS)
        if r.random() < 0.3:
            a, y = self.g.lu(0.02, 3), self.g.lu(0.003, 1)
        some = lambda l: r.sample(l, r.randint(1, len(l)))
        A, Y, p = self.lit(a), self.lit(y), r.choice([0.1, 0.5, 0.93])
        na, ny = num(a), num(y)
        la, ly = some(IMS), some(EDPS)
        LA, LY = '[%s]' % ', '.join(map(self.lit, la)), '[%s]' % ', '.join(map(self.lit, ly))
        nla, nly = ' '.join(map(num, la)), ' '.join(map(num, ly))
        dists = '%s'
        if k == 'det':
            q = [('H.ValueAt(%s)' % A, 'at ' + na)]
        elif k == 'prob':
            q = [('[H.MeanLn(%s), H.SD_ln(%s), H.Mean(%s), H.Median(%s), H.SD(%s)]' % ((A,) * 5), 'stats ' + na),
                 ('H.X_at_exceedence(%s, %r)' % (A, p), 'X %s %r' % (na, p)),
                 ('H.function().P_exceedence(%s, %s)' % (A, Y), 'P %s %s' % (na, ny))]
        elif k == 'im':
            q = [('H.getlambda(%s)' % A, 'lambda ' + na), ('H.getlambda(%s)' % LA, 'vlambda ' + nla),
                 ('[H.pRepair(%s), H.pDemolition(%s), H.pCollapse(%s)]' % (A, A, A), 'fates ' + na),
                 ('H.pRepair(%s)' % LA, 'vrep ' + nla), ('H.pDemolition(%s)' % LA, 'vdem ' + nla), ('H.pCollapse(%s)' % LA, 'vcoll ' + nla),
                 ('H.CollapseRate()', 'collrate'), ('H.DemolitionRate()', 'demrate')]
        elif k == 'edp':
            m = r.choice(['MeanLn', 'SD_ln', 'Mean', 'Median', 'SD'])
            q = [('H.getlambda(%s)' % Y, 'lambda ' + ny), ('H.getlambda(%s)' % LY, 'vlambda ' + nly),
                 ('[H.MeanLn(%s), H.SD_ln(%s), H.Mean(%s), H.Median(%s), H.SD(%s)]' % ((A,) * 5), 'stats ' + na),
                 ('H.%s(%s)' % (m, LA), 'v%s %s' % (m, nla)), ('H.%s(%s)' % (m, LA), 'v%s %s' % (m, nla)),
                 ('H.X_at_exceedence(%s, %r)' % (A, p), 'X %s %r' % (na, p)),
                 ('H.function().P_exceedence(%s, %s)' % (A, Y), 'P %s %s' % (na, ny))]
        elif k == 'frag':
            q = [('H.pExceeded(%s)' % Y, 'exc ' + ny), ('H.function().pHighest(%s)' % Y, 'high ' + ny),
                 ('[H.size()]', 'n'), ('H.function().n_states()', 'n')]
        elif k == 'loss':
            q = [('H.function().n_states()', 'n')]
        elif k == 'cg':
            t, l = r.choice([1, 10, 50]), r.choice([0.01, 0.05, 0.1, 0, 1])
            q = [('[H.E_Cost_EDP(%s), H.SD_ln_Cost_EDP(%s)]' % (Y, Y), ('edpcost ' + ny, 'first2')),
                 ('[H.E_Cost_IM(%s), H.SD_ln_Cost_IM(%s)]' % (A, A), 'imcost ' + na),
                 ('[H.E_Delay_EDP(%s), H.SD_ln_Delay_EDP(%s)]' % (Y, Y), ('edpdelay ' + ny, 'first2')),
                 ('[H.E_Delay_IM(%s), H.SD_ln_Delay_IM(%s)]' % (A, A), 'imdelay ' + na),
                 ('H.E_annual_cost()', 'annual'), ('H.E_cost(%d, %s)' % (t, self.lit(l)), ('annual', ('npv', t, l))),
                 ('H.pDS_IM(%s)' % A, 'pds ' + na), ('H.Rate()', 'rate')]
            if o.cost and r.random() < 0.1:
                q = [('H.lambda_cost(5)', 'lambda 5')]
            if r.random() < 0.15:
                q = [('[H.size()]', None, 'size', [float(self.nstates)])]
                q.append(('[str(H.get_IM().id())]', None, 'group', [self.name(o.edp.im)]))
                q.append(('H.function().get_Name()', None, 'group', [self.name(o)]))
        else:
            t, l, c = r.choice([1, 2, 10, 50]), r.choice([0.01, 0.05, 0.1, 0, 1]), r.random() < 0.5
            q = [('H.Cost(%s, %s)' % (A, c), 'cost %s %d' % (na, c)), ('H.Cost(%s, %s)' % (A, c), 'cost %s %d' % (na, c)),
                 ('H.TotalCost(%s)' % A, 'total ' + na), ('H.CostsByFate(%s)' % A, 'fates ' + na),
                 ('H.DeaggregatedCost(%s)' % A, 'deagg ' + na), ('H.AnnualCost()', 'annual'),
                 ('H.E_cost(%d, %s)' % (t, self.lit(l)), 'npv %s %d' % (num(l), t)), ('H.pdf(%s)' % A, 'pdf ' + na)]
            x = r.random()
            if x < 0.1 and o.rebuild:
                return self.ask_dist('%s.getRebuildCost()' % self.ref(o), o.rebuild)
            if x < 0.2 and o.demol:
                return self.ask_dist('%s.getDemolitionCost()' % self.ref(o), o.demol)
            if 0.2 < x < 0.35 and o.cgs:
                w = r.choice(['EDP', 'Fragility'])
                by = {}
                for c in o.cgs:
                    by.setdefault(id(c.edp if w == 'EDP' else c.frag), []).append(str(eval(str(c.given))))
                q = [('sorted(["|"] + sorted(c.get_Name() for c in l) for l in H.ComponentsBy%s())' % w, None, 'grouping',
                      [self.text(t) for l in sorted(['|'] + sorted(l) for l in by.values()) for t in l])]
                q.append(('[str(H.get_IM().id())]', None, 'grouping', [self.name(o.cgs[0].edp.im)]))
            elif x > 0.97:
                self.do('%s.Clear_Cache()' % self.ref(o))
        x = r.choice(q)
        if len(x) == 4:
            self.ask(o, x[0], None, x[2], x[3])
        else:
            self.ask(o, x[0], x[1], k + ' ' + x[0].replace('[', '(').split('(')[0 if x[0][0] != '[' else 1])
        self.count('asked of replaced definitions' if not o.current else 'asked')

    def name(self, o):
        return self.text(str(eval(str(o.given))))

    def ask_dist(self, expr, d, q='parts'):
        i = self.new_id('l')
        self.fresh.append('dist %s %s %s %s' % (i, d[0], num(d[1]), num(d[2])))
        self.expect(expr, 'dist %s %s' % (i, q), 'distribution')

    def query_dist(self):
        r = self.r
        d = self.spec((self.g.u(-3, 3), self.g.u(0.1, 1)))
        x = self.r.choice([0.3, 1, 7, 0.05])
        v = self.pydist(d)
        y = r.random()
        if y < 0.3:
            ds = [self.spec((self.g.u(-3, 3), self.g.u(0.1, 1))) for _ in range(r.randint(1, 4))]
            ids = []
            for e in ds:
                ids.append(self.new_id('l'))
                self.fresh.append('dist %s %s %s %s' % (ids[-1], e[0], num(e[1]), num(e[2])))
            i = self.new_id('l')
            self.fresh.append('dist %s sum %d %s' % (i, len(ids), ' '.join(ids)))
            self.expect('core.AddDistributions(%s)' % ('[%s]' % ', '.join(map(self.pydist, ds))), 'dist %s parts' % i, 'distribution')
        elif y < 0.6:
            self.ask_dist('P.lognormaldist(%s)' % v, d)
        else:
            m, q = r.choice([('p_at_least', 'Q'), ('p_at_most', 'P'), ('x_at_p', 'inv')])
            if q == 'inv':
                x = r.choice([0.1, 0.5, 0.99])
            self.ask_dist('%s.%s(%s)' % (v, m, self.lit(x)), d, '%s %s' % (q, num(x)))

    def queries(self, n):
        self.memo = {}
        for _ in range(n):
            self.query()
        self.memo = None


def os_path(d, n):
    return d + '/' + n if d else n


def make(arg):
    return PyHistory(*arg)

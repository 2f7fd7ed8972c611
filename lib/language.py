"""Scripts in SLAT's language, written in many ways, and the calls of the Python interface they stand for."""
import math
import gen

CLASSES = {'det': 'detfn', 'prob': 'probfn', 'im': 'im', 'edp': 'edp', 'frag': 'fragfn', 'loss': 'lossfn', 'cg': 'compgroup', 'struct': 'structure'}
KEYWORDS = set('''log inputdir outputdir title print detfn probfn collapse demolition collrate im edp fragfn lossfn compgroup structure
 rebuildcost demolitioncost imrate edpim edprate dsedp dsim lossds costedp delayim delayedp costim structcost dsrate anncost costrate
 totalcost pdf deagg mean_ln_x median_x mean_x sd_ln_x sd_x maq binary revbin lowrev scattered directed hyperbolic powerlaw loglog linear
 lognormal simple bilevel cost disp upper_cost lower_cost lower_n upper_n mean_uncert var_uncert message integration recorder analyze set
 importprobfn importimfn intstats reset'''.split())
MT = {'mean_ln': ('mean_ln_x', 'MU.MEAN_LN_X'), 'mean': ('mean_x', 'MU.MEAN_X'), 'median': ('median_x', 'MU.MEDIAN_X')}
ST = {'sd_ln': ('sd_ln_x', 'SD.SD_LN_X'), 'sd': ('sd_x', 'SD.SD_X')}
METHODS = {'binary': 'BINARY_SUBDIVISION', 'revbin': 'REVERSE_BINARY_SUBDIVISION', 'lowrev': 'LOW_FIRST_REVERSE_BINARY_SUBDIVISION',
           'scattered': 'SCATTERED', 'directed': 'DIRECTED'}
MEANS = ['mean_x', 'mean_ln_x', 'median_x', 'sd_ln_x', 'sd_x']
STRAY = list('@?!%&^~`|=<>') + ['\u00e9']


class Stmt:
    def __init__(self, words, code, makes=None):
        self.words, self.code, self.makes = words, code, makes


class Lang:
    def __init__(self, seed, size):
        self.seed = seed
        self.g = gen.Gen('c19 %s' % (seed,))
        self.r = self.g.r
        self.counts = {}
        self.defs = {k: {} for k in CLASSES}     # name: what's needed to use it well
        self.used = {k: [] for k in CLASSES}     # every name
        self.vars = {}                           # name: Python
        self.titles = []
        self.list = []                           # statements
        self.recs = []
        self.files = set()
        self.inputs = []                         # (path, text)
        self.nstates = self.r.randint(1, 4)
        self.serial = 0
        self.pinned = set()
        self.indir = '.'
        self.start()
        for _ in range(size):
            self.something()
        if self.r.random() < 0.8:
            self.analyze()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # --- spelling

    def name(self, kind, fresh=0.5):
        """Names of different kinds of things don't interfere"""
        r = self.r
        if self.used[kind] and r.random() > fresh:
            return r.choice(self.used[kind])
        while True:
            self.serial += 1
            n = r.choice(['%s%d', '%s_%d', '_%s%d', '%s.%d', '.%s%d', '%sX%d', 'e%s%d']) % (
                r.choice(['a', 'B', 'im', 'cost', 'set', 'simple', 'mean_x', 'log', 'IM', 'x.y', 'to', 'E']), self.serial if r.random() < 0.7 else r.randint(1, 3))
            if n not in KEYWORDS:
                return n

    def word(self, v, exact=False):
        """A number: text, and its value"""
        r = self.r
        v = float('%.*g' % (r.choice([2, 4, 8]), v)) if r.random() < 0.6 and not exact else float(v)
        if v == int(v) and 0 <= v < 1e9 and r.random() < 0.6:
            return ('%0*d' % (r.choice([1, 1, 3]), v), repr(int(v)))
        return self.real(v)

    def real(self, v):
        r = self.r
        v = float(v)
        t = r.choice([repr(v), '%.17g' % v, '%.16e' % v, '%.17g' % v, ('%.16e' % v).replace('e', 'E')])
        if all(c in '0123456789-' for c in t):
            t += r.choice(['.', '.0'])
        if v >= 0 and r.random() < 0.1:
            t = '+' + t
        return (t, repr(float(t)))

    def num(self, v, exact=False):
        """A number where variables and Python may stand as well: words, Python"""
        r = self.r
        x = r.random()
        if x < 0.8:
            t, p = self.word(v, exact)
            return [t], p
        if x < 0.9:
            t, p = self.word(v, exact)
            n = self.var(p, [t])
            return ['$', n], p
        t, p = self.word(v, exact)
        if exact:
            return ['$(%s)' % p], p
        e = r.choice(['%s', ' %s ', '(%s)', 'math.sqrt(%s)**2', '\n%s\t', 'numpy.array([1.0, %s])[1]', 'math.exp(math.log(%s))', '-(-%s)']) if v > 0 else '%s'
        p = e % p
        return ['$(%s)' % p], '(%s)' % p.strip()

    def var(self, code, words, name=None):
        r = self.r
        free = [v for v in self.vars if v not in self.pinned]
        n = name or (r.choice(free) if free and r.random() < 0.4 else self.name('det', 1))
        while n in self.pinned and not name:
            n = self.name('det', 1)
        # the statement being written uses it
        self.pinned.add(n)
        if n in self.vars:
            self.count('variables set again')
        self.vars[n] = code
        self.add(['set', n] + words, None)
        self.count('variables set')
        return n

    def string(self):
        """A string: text, value"""
        r = self.r
        v = ''.join(r.choice(['a', 'b c', ' ', '"', "'", '\\', '$', '#', ';', '--append', '\n', '\t', 'é', '(', ')', '[', 'x:', '%d', '{}', 'set', '10'])
                    for _ in range(r.choice([0, 1, 2, 4, 7])))
        q = r.choice('\'"')
        other = '"' if q == "'" else "'"
        t = v.replace('\\', '\\\\').replace(q, '\\' + q)
        if q == "'" and r.random() < 0.2:
            t = t.replace(other, '\\' + other)
        return q + t + q, repr(v)

    def add(self, words, code, makes=None):
        self.list.append(Stmt(words + [';'], code, makes))
        if words[0] != 'set':
            self.pinned = set()
        return len(self.list) - 1

    def lookup(self, kind, name):
        return 'P.%s.lookup(%r)' % (CLASSES[kind], name)

    def make(self, kind, name, info, words, code):
        i = self.add(words, code % {'id': repr(name)}, (kind, name))
        old = self.defs[kind].get(name)
        if old is not None:
            self.count('names redefined')
        self.defs[kind][name] = info
        if name not in self.used[kind]:
            self.used[kind].append(name)
        self.count('definitions: ' + kind)
        return name

    def pick(self, kind, ok=lambda info: True):
        l = [n for n in self.used[kind] if n in self.defs[kind] and ok(self.defs[kind][n])]
        return self.r.choice(l) if l else None

    def same(self, kind, ok):
        """A name for something new, or the name of something like it"""
        if self.r.random() < 0.3:
            n = self.pick(kind, ok)
            if n:
                return n
        return self.name(kind, 1)

    # --- definitions

    def pairs(self, rows):
        words, code = [], []
        for row in rows:
            w, c = [], []
            for v in row:
                a, b = self.num(v) if not isinstance(v, tuple) else v
                w += a + [',']
                c.append(b)
            words += ['['] + w[:-1] + [']', ',']
            code.append('[%s]' % ', '.join(c))
        return words[:-1], code

    def det(self, spec, use):
        r = self.r
        n = self.same('det', lambda i: i['use'] == use)
        k = spec[0]
        if k in ('lin', 'loglog'):
            xs, ys, ws = [], [], []
            for x, y in zip(spec[1], spec[2]):
                a, b = self.num(x, True), self.num(y, True)
                ws += ['['] + a[0] + [','] + b[0] + [']', ',']
                xs.append(a[1])
                ys.append(b[1])
            words = [{'lin': 'linear', 'loglog': 'loglog'}[k]] + ws[:-1]
            code = '%r, [[%s], [%s]]' % (words[0], ', '.join(xs), ', '.join(ys))
        else:
            vs = [self.num(v) for v in ((spec[3], spec[2], spec[1]) if k == 'nlh' else spec[1:])]
            words = [{'nlh': 'hyperbolic', 'pow': 'powerlaw'}[k]]
            for a, _ in vs:
                words += a + [',']
            words = words[:-1]
            code = '%r, [%s]' % ({'nlh': 'hyperbolic', 'pow': 'power law'}[k], ', '.join(b for _, b in vs))
        return self.make('det', n, {'use': use}, ['detfn', n] + words, 'P.detfn(%%(id)s, %s)' % code)

    def options(self, mt, st):
        """Lognormal options, in either order; the defaults needn't be written"""
        r = self.r
        m = ['--mu', MT[mt][0]] if mt != 'mean_ln' or r.random() < 0.4 else []
        s = ['--sd', ST[st][0]] if st != 'sd_ln' or r.random() < 0.4 else []
        return m + s if r.random() < 0.5 else s + m

    def fname(self, n):
        if self.r.random() < 0.25:
            words = [n] if self.r.random() < 0.6 else ["'%s'" % n]
            v = self.var(repr(n), words)
            return ['$', v]
        return [n]

    def prob(self, name=None):
        mt, st, f, g = self.g.demand()
        uf, ug = 'f ' + mt, 'g ' + st if st == 'sd_ln' else 'g %s %s' % (st, mt)
        a = self.reuse('det', lambda i: i['use'] == uf, lambda: self.det(f, uf))
        b = self.reuse('det', lambda i: i['use'] == ug, lambda: self.det(g, ug))
        n = name or self.same('prob', lambda i: True)
        wa = self.fname(a)
        wb = self.fname(b)
        return self.make('prob', n, {}, ['probfn', n, 'lognormal'] + wa + [','] + wb + self.options(mt, st),
                         "P.probfn(%%(id)s, 'lognormal', [%s, %s], [%s, %s])" % (MT[mt][1], self.lookup('det', a), ST[st][1], self.lookup('det', b)))

    def reuse(self, kind, ok, new, p=0.5):
        return (self.r.random() < p and self.pick(kind, ok)) or new()

    def dist(self, mt, st, m, s):
        """A lognormal distribution of given mu and sigma, in the terms asked for: words, Python"""
        v = {'mean_ln': m, 'mean': math.exp(m + s * s / 2), 'median': math.exp(m)}[mt]
        w = s if st == 'sd_ln' else math.exp(m + s * s / 2) * math.sqrt(math.expm1(s * s))
        a, b = self.num(v), self.num(w)
        return a[0] + [','] + b[0], (a[1], b[1])

    def kinds(self):
        return self.r.choice([('mean_ln', 'sd_ln'), ('mean', 'sd_ln'), ('median', 'sd_ln'), ('mean', 'sd')])

    def pydist(self, mt, st, c):
        return 'P.MakeLogNormalDist(%s, %s, %s, %s)' % (c[0], MT[mt][1], c[1], ST[st][1])

    def im(self):
        r = self.r
        if r.random() < 0.15:
            return self.import_im()
        d = self.reuse('det', lambda i: i['use'] == 'im', lambda: self.det(self.g.hazard(), 'im'))
        n = self.same('im', lambda i: True)
        n = self.make('im', n, {'name': n}, ['im', n, d], 'P.im(%%(id)s, %s)' % self.lookup('det', d))
        for w in ('collapse', 'demolition'):
            if r.random() < 0.5:
                self.fate(n, w)
        return n

    def fate(self, n, w):
        g = self.g
        m, s = {'collapse': (math.log(g.u(0.8, 3)), g.u(0.3, 0.6)), 'demolition': (math.log(g.u(0.4, 2.0)), g.u(0.3, 0.6))}[w]
        mt, st = self.kinds()
        words, c = self.dist(mt, st, m, s)
        self.add([w, n] + words + self.options(mt, st), '%s.Set%s(%s)' % (self.lookup('im', n), w.capitalize(), self.pydist(mt, st, c)))
        self.count('fates set')

    def edp(self):
        i = self.reuse('im', lambda i: True, self.im, 0.8)
        p = self.reuse('prob', lambda i: True, self.prob)
        n = self.same('edp', lambda e: e['im'] == i)
        return self.make('edp', n, {'im': i}, ['edp', n, i, p], 'P.edp(%%(id)s, %s, %s)' % (self.lookup('im', i), self.lookup('prob', p)))

    def table(self, spec):
        """Distributions, in the same terms"""
        mt, st = self.kinds()
        rows = [self.dist(mt, st, m, s) for m, s in spec]
        words, code = [], []
        for w, c in rows:
            words += ['['] + w + [']', ',']
            code.append('[%s, %s]' % c)
        return words[:-1] + self.options(mt, st), "{'mu': %s, 'sd': %s}, [%s]" % (MT[mt][1], ST[st][1], ', '.join(code))

    def frag(self):
        words, code = self.table(self.g.frag(self.nstates))
        n = self.same('frag', lambda i: True)
        return self.make('frag', n, {}, ['fragfn', n] + words, 'P.fragfn_user(%%(id)s, %s)' % code)

    def loss(self):
        k, l = self.g.loss(self.nstates)
        n = self.same('loss', lambda i: True)
        if k == 's':
            words, code = self.table(l)
            return self.make('loss', n, {}, ['lossfn', n, 'simple'] + words, 'P.simplelossfn(%%(id)s, %s)' % code)
        words, code = self.pairs([[([str(a)], str(a)), ([str(b)], str(b)), c, d, e] for a, b, c, d, e in l])
        return self.make('loss', n, {}, ['lossfn', n, 'bilevel'] + words, 'P.bilevellossfn(%%(id)s, [%s])' % ', '.join(code))

    def cg(self):
        r = self.r
        e = self.reuse('edp', lambda i: True, self.edp, 0.8)
        f = self.reuse('frag', lambda i: True, self.frag)
        c = self.reuse('loss', lambda i: True, self.loss)
        d = self.reuse('loss', lambda i: True, self.loss) if r.random() < 0.5 else None
        im = self.defs['edp'][e]['im']
        n = self.same('cg', lambda i: i['im'] == im)
        count = r.choice([1, 2, 5, 20])
        words = [str(count)]
        adj = []
        for _ in range(r.choice([0, 0, 1, 2])):
            t, p = self.real(self.g.u(0.3, 2))
            words.append(t)
            adj.append(p)
        adj += ['1.0'] * (2 - len(adj))
        return self.make('cg', n, {'im': im, 'delay': d}, ['compgroup', n, e, f, c] + ([d] if d else []) + words,
                         'P.compgroup(%%(id)s, %s, %s, %s, %s, %d, %s, %s)' % (self.lookup('edp', e), self.lookup('frag', f), self.lookup('loss', c),
                                                                             self.lookup('loss', d) if d else 'None', count, adj[0], adj[1]))

    def struct(self):
        r = self.r
        first = self.reuse('cg', lambda i: True, self.cg)
        im = self.defs['cg'][first]['im']
        while r.random() < 0.3:
            self.cg()
        gs = [n for n in self.used['cg'] if self.defs['cg'][n]['im'] == im]
        gs = [r.choice(gs) for _ in range(r.randint(1, 4))] if r.random() < 0.1 else r.sample(gs, min(len(gs), r.randint(1, 4)))
        n = self.same('struct', lambda i: True)
        words = []
        for g in gs:
            words += [g, ',']
        code = '_s = P.structure(%(id)s)' + ''.join('\n_s.AddCompGroup(%s)' % self.lookup('cg', g).replace('%', '%%') for g in gs)
        self.make('struct', n, {'im': im, 'gs': gs}, ['structure', n] + words[:-1], code)
        for w in ('rebuild', 'demolition'):
            if r.random() < 0.8:
                self.cost(n, w)
        return n

    def cost(self, n, w):
        mt, st = self.kinds()
        words, c = self.dist(mt, st, math.log(self.g.lu(1, 100)), self.g.u(0.1, 0.5))
        self.add([w + 'cost', n] + words + self.options(mt, st),
                 '%s.set%sCost(%s)' % (self.lookup('struct', n), w.capitalize(), self.pydist(mt, st, c)))
        self.count('costs set')

    # --- files

    def input(self, text):
        r = self.r
        name = r.choice(['data%d', 'D.%d', 'in_%d.csv', 'x%d.txt', '%d']) % (len(self.inputs) + 1)
        if r.random() < 0.3:
            d = r.choice(['in', 'in/deep', '.'])
            self.add(['inputdir', d], 'P.set_input_directory(%r)' % d)
            self.indir = d
        given = name
        last = name.rsplit('/', 1)[-1]
        path = name if '.' in last else name + '.csv'
        if self.indir != '.':
            path = self.indir + '/' + path
        if name[0].isdigit():
            # numbers aren't file names
            given = './' + path
        elif r.random() < 0.2:
            given = './' + path
        self.inputs.append((path, text))
        self.count('files imported')
        return given

    def import_im(self):
        g = self.g
        xs = sorted(set(round(g.lu(0.02, 3), 4) for _ in range(self.r.randint(4, 8))))
        a, b = g.lu(1e-5, 1e-3), -g.u(1.2, 3)
        f = self.input('header\nIM rate\n' + ''.join('%r %.6g\n' % (x, a * x ** b) for x in xs))
        n = self.same('im', lambda i: True)
        return self.make('im', n, {'name': n}, ['importimfn', n, f], 'P.ImportIMFn(%%(id)s, %r)' % f)

    def import_prob(self):
        g, r = self.g, self.r
        xs = sorted(set(round(g.lu(0.02, 3), 4) for _ in range(r.randint(4, 8))))
        a, b, s = g.lu(0.02, 0.5), g.u(0.6, 1.4), g.u(0.25, 0.7)
        n = r.randint(3, 6)
        f = self.input('header\nIM values\n' + ''.join('%r %s\n' % (x, ' '.join('%.5g' % (a * (x / 0.5) ** b * math.exp(s * r.gauss(0, 1))) for _ in range(n))) for x in xs))
        n = self.same('prob', lambda i: True)
        return self.make('prob', n, {}, ['importprobfn', n, f], 'P.ImportProbFn(%%(id)s, %r)' % f)

    def destination(self):
        """Words, and options of a recorder"""
        r = self.r
        if r.random() < 0.25:
            return [], None, None
        f = r.choice(['out', 'Out.txt', 'd/out', 'd.csv', './here', './x/y.z', '_o', 'o2'])
        a = r.choice([[], [], ['--append'], ['--new']])
        return [f] + a, f, a == ['--append']

    # --- recorders

    def at(self, scale):
        """Words, and Python; the words can have reals only"""
        r, g = self.r, self.g
        x = r.random()
        a, b = sorted([g.lu(0.05, 2) * scale, g.lu(0.05, 2) * scale])
        if x < 0.35:
            l = [self.real(g.lu(0.02, 3) * scale) for _ in range(r.choice([1, 2, 3, 3, 5]))]
            w = []
            for t, _ in l:
                w += [t, ',']
            return w[:-1], '[%s]' % ', '.join(p for _, p in l)
        if x < 0.55:
            n = r.randint(1, 5)
            step = float('%.4g' % ((b - a) / n + 0.01 * scale))
            a = float('%.4g' % a)
            end = float('%.6g' % (a + n * step + r.choice([0, 0.25, -0.25]) * step))
            (ta, pa), (ts, ps), (te, pe) = self.real(a), self.real(step), self.real(end)
            return [ta, ':', ts, ':', te], '[%s + i * %s for i in range(%d)]' % (pa, ps, n + 1)
        if x < 0.75:
            n = r.randint(2, 5)
            (ta, pa), (te, pe) = self.real(a), self.real(b * 1.5)
            if r.random() < 0.5:
                return [ta, ':', te, '--linear', str(n)], '[%s + (%s - %s) * i / %d for i in range(%d)]' % (pa, pe, pa, n - 1, n)
            return [ta, ':', te, '--log', str(n)], '[%s * (%s / %s) ** (i / %d) for i in range(%d)]' % (pa, pe, pa, n - 1, n)
        l = [g.lu(0.02, 3) * scale for _ in range(r.randint(1, 4))]
        if x < 0.85:
            words, lits = ['['], []
            for v in l:
                t, p = self.word(v)
                words += [t, ',']
                lits.append(p)
            if r.random() < 0.5:
                v = self.var('[%s]' % ', '.join(lits), words[:-1] + [']'])
            else:
                v = self.var('[%s]' % ', '.join(lits), ['$([%s])' % ', '.join(lits)])
            return ['$', v], '[%s]' % ', '.join(lits)
        if x < 0.95:
            code = r.choice(['[%s]', 'numpy.array([%s])', 'list(map(math.sqrt, [%s]))', 'map(math.exp, [%s])']) % ', '.join('%.6g' % v for v in l)
        else:
            code = 'pyslat.frange(%.4g, %.4g, %.4g)' % (a, b * 1.2, b / 2)
        return ['$(%s)' % code], code

    def cols(self, l):
        """Columns: words, and Python"""
        r = self.r
        if l is None:
            return [], 'None'
        words = ['--cols']
        for i, c in enumerate(l):
            if i:
                words.append(',')
            if isinstance(c, str) and c in MEANS:
                words.append(c if r.random() < 0.7 else r.choice(["'%s'", '"%s"']) % c)
            elif isinstance(c, str):
                words.append(r.choice(["'%s'", '"%s"']) % c)
            else:
                words.append(str(c))
        if r.random() < 0.2:
            v = self.var(repr(l), ['$(%r)' % (l,)])
            words = ['--cols', '$', v]
        return words, repr(l)

    def recorder(self):
        r = self.r
        kind = r.choice(['det', 'prob', 'im', 'edp', 'cg', 'cg', 'cg', 'struct', 'struct', 'struct'])
        o = self.pick(kind)
        if o is None:
            return
        t = r.choice({'det': ['detfn'], 'prob': ['probfn'], 'im': ['imrate', 'collapse', 'collrate'], 'edp': ['edpim', 'edprate'],
                      'cg': ['dsedp', 'dsim', 'costedp', 'costim', 'delayedp', 'delayim', 'costrate', 'dsrate'],
                      'struct': ['totalcost', 'deagg', 'pdf', 'annual', 'by-edp', 'by-frag', 'by-fate', 'npv']}[kind])
        if t.startswith('delay') and not self.defs['cg'][o]['delay']:
            return
        typ = 'structcost' if t in ('annual', 'by-edp', 'by-frag', 'by-fate', 'npv') else t
        opts, cols, at, words = [], None, 'None', []
        wd, f, append = self.destination()
        if f is not None:
            opts += ["'filename': %r" % f, "'append': %r" % append]
        wc = []
        if t in ('probfn', 'edpim') and r.random() < 0.7:
            cols = [r.choice(MEANS + [0.1, 0.5, 0.84]) for _ in range(r.randint(1, 4))]
        elif t in ('annual', 'by-edp', 'by-frag', 'by-fate') and r.random() < 0.6:
            cols = [r.choice(MEANS) for _ in range(r.randint(1, 4))]
        elif t in ('costedp', 'costim', 'delayedp', 'delayim') and r.random() < 0.6:
            cols = [r.choice(['mean_x', 'sd_ln_x']) for _ in range(r.randint(1, 3))]
        elif t in ('dsedp', 'dsim') and r.random() < 0.6:
            cols = [r.choice(['E(DS)', r.randint(1, self.nstates), 'DS%d' % r.randint(1, self.nstates)]) for _ in range(r.randint(1, 4))]
        wc, pc = self.cols(cols)
        if t not in ('dsrate', 'collrate', 'annual', 'npv'):
            wa, at = self.at(0.1 if t in ('edprate', 'dsedp', 'costedp', 'delayedp') else 1.0)
            if t == 'costrate':
                a, b = self.real(self.g.lu(0.5, 10))
                wa, at = [a], '[%s]' % b
        words = [typ, o]
        if t == 'npv':
            a, b, c = r.randint(1, 5), r.randint(1, 9), r.randint(6, 40)
            rate = self.real(r.choice([0.05, 0.1, 0.0, 0.035]))
            words += ['--npv', str(a), ':', str(b), ':', str(c), rate[0]]
            opts += ["'structcost-type': 'npv'", "'discount-rate': %s" % rate[1]]
            at = repr(list(range(a, c, b)))
            pc = 'None'
        elif t == 'annual':
            mt, st = self.kinds()
            lo = self.options(mt, st)
            words += ['--annual'] + lo + wc
            opts.append("'structcost-type': 'annual'")
            pc = repr(sorted(x for x in lo if x not in ('--mu', '--sd')) + (cols or []))
        elif typ == 'structcost':
            words += ['--' + t] + wa + wc
            opts.append("'structcost-type': %r" % t)
        elif t not in ('dsrate', 'collrate'):
            words += wa + wc
            if t == 'pdf' and r.random() < 0.3:
                words.append('--normalise')
                opts.append("'normalise': True")
        n = r.choice(self.recs) if self.recs and r.random() < 0.2 else self.name('det', 1)
        if n not in self.recs:
            self.recs.append(n)
        self.count('recorders: ' + t)
        self.add(['recorder', n] + words + wd, 'P.MakeRecorder(%r, %r, %s, {%s}, %s, %s)' % (
            n, typ, self.lookup(kind, o), ', '.join(opts), pc, at))

    def analyze(self):
        self.add(['analyze'], 'for _r in P.recorder.all(): _r.run()')
        self.count('analyses')

    # --- the rest

    def printing(self):
        r = self.r
        x = r.random()
        wd, f, append = self.destination()
        if x < 0.5:
            y = r.random()
            if y < 0.4:
                t, p = self.string()
                w = [t]
            elif y < 0.6 and self.vars:
                n = r.choice(list(self.vars))
                w, p = ['$', n], self.vars[n]
            elif y < 0.75:
                e = r.choice(['math.pi', '[1, 2.5]', "'a' + 'b'", 'numpy.array([1, 2])', '(1, (2, 3))', 'list(map(math.sqrt, (4, 9)))', ' (7 //\n2)', "{'a': 1}['a']", 'pyslat.FUNCTION_TYPE.LIN'])
                w, p = ['$(%s)' % e], '(%s)' % e
            elif y < 0.9 or not wd:
                return self.setting()
            else:
                w, p = [], "''"
            w = ['print', 'message'] + w
        elif x < 0.6:
            w, p = ['print', 'title'], repr(''.join('\n' + t for t in self.titles))
        else:
            k = r.choice([k for k in CLASSES if k != 'struct'])
            o = self.pick(k)
            if o is None:
                return
            w, p = ['print', CLASSES[k], o], self.lookup(k, o)
        self.printed(w, p, wd, f, append)

    def printed(self, w, p, wd, f, append):
        if f is None:
            self.add(w, 'print(str(%s))' % p)
        else:
            self.add(w + wd, 'with open(%r, %r) as _f: print(str(%s), file=_f)' % (f, 'a' if append else 'w', p))
        self.count('printed')

    def parameter(self, depth=0):
        r = self.r
        x = r.random()
        if x < 0.3 or depth > 2:
            t, p = self.word(r.choice([-1, 1]) * self.g.lu(0.01, 100) if r.random() < 0.7 else r.randint(0, 9))
            return [t], p
        if x < 0.5:
            t, p = self.string()
            return [t], p
        if x < 0.65:
            n = self.name('det', 1)
            return [n], repr(n)
        if x < 0.85:
            words, code = ['['], []
            for _ in range(r.randint(1, 4)):
                w, p = self.parameter(9) if r.random() < 0.5 else self.leaf()
                words += w + [',']
                code.append(p)
            return words[:-1] + [']'], '[%s]' % ', '.join(code)
        words, code, keys = ['('], [], []
        for _ in range(r.choice([1, 2, 3, 3])):
            k = self.name('det', 1)
            kw, kp = ([k], repr(k)) if r.random() < 0.6 else (lambda s: ([s[0]], s[1]))(self.string())
            if keys and r.random() < 0.25:
                kw, kp = r.choice(keys)
            keys.append((kw, kp))
            w, p = self.parameter(depth + 1)
            words += kw + [':'] + w + [',']
            code.append('%s: %s' % (kp, p))
        return words[:-1] + [')'], '{%s}' % ', '.join(code)

    def leaf(self):
        r = self.r
        if r.random() < 0.5:
            t, p = self.string()
            return [t], p
        n = self.name('det', 1)
        return [n], repr(n)

    def setting(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            if r.random() < 0.3 and self.vars:
                n = r.choice(list(self.vars))
                n = self.var(self.vars[n], ['$', n])
            else:
                w, p = self.parameter()
                n = self.var(p, w)
            if r.random() < 0.4:
                wd, f, append = self.destination()
                w, p = ['print', 'message', '$', n], self.vars[n]
                self.printed(w, p, wd, f, append)
            self.pinned = set()
        elif x < 0.75:
            t, p = self.string()
            self.titles.append(eval(p))
            self.add(['title', t], None)
        elif x < 0.85:
            d = r.choice(["out1", "out2/deep", ".", "o"])
            self.add(['outputdir', d], 'P.set_output_directory(%r)' % d)
        elif x < 0.95:
            w = r.choice(['print', 'reset'])
            self.add(['intstats', w], {'print': 'print(P.Format_Statistics())', 'reset': 'P.Reset_Statistics()'}[w])
        else:
            self.add(['log', '--nostderr'], 'P.LogToStdErr(False)')
        self.count('settings')

    def integration(self):
        r = self.r
        ints = lambda v: r.choice([([str(v)], str(v)), ([str(v)], str(v)), (['$(%d)' % v], str(v))])
        tol, lim = self.num(r.choice([1e-2, 2e-3, 0.05])), ints(r.choice([1024, 500, 3000]))
        words = ['integration', 'maq'] + tol[0] + lim[0]
        code = 'P.IntegrationSettings(%s, %s)' % (tol[1], lim[1])
        if r.random() < 0.7:
            m = r.choice(list(METHODS))
            se = ints(r.choice([1024, 400]))
            words += [m] + se[0]
            code += '; P.Set_Integration_Search_Limit(%s); P.Set_Integration_Method(P.INTEGRATION_METHOD.%s)' % (se[1], METHODS[m])
        self.add(words, code)
        self.count('integration settings')

    def start(self):
        r = self.r
        if r.random() < 0.5:
            self.integration()
        for _ in range(r.choice([1, 1, 2])):
            self.struct()

    def something(self):
        r = self.r
        x = r.random()
        if x < 0.3:
            self.recorder()
        elif x < 0.5:
            self.printing()
        elif x < 0.6:
            self.setting()
        elif x < 0.63:
            self.integration()
        elif x < 0.66:
            self.analyze()
        elif x < 0.7:
            n = self.pick('im')
            if n:
                self.fate(n, r.choice(['collapse', 'demolition']))
        elif x < 0.74:
            n = self.pick('struct')
            if n:
                self.cost(n, r.choice(['rebuild', 'demolition']))
        elif x < 0.76:
            self.import_prob()
        else:
            k = r.choice(['det', 'prob', 'im', 'edp', 'frag', 'loss', 'cg', 'struct'])
            if k == 'det':
                u = r.choice(['im', 'f'])
                self.det(self.g.hazard(), 'im')
            else:
                getattr(self, k)()

    # --- text

    def layout(self, words):
        """The statement: white space and comments between words"""
        r = self.r
        out = ''
        punct = '[],:;()'
        for i, w in enumerate(words):
            if i:
                p = words[i - 1]
                free = p in punct or w in punct
                x = r.random()
                if p == '$' or x < 0.4 and free:
                    sep = ''
                elif x < 0.85:
                    sep = ' '
                else:
                    sep = r.choice(['\n', '\t', '  ', '\r\n', ' \n\n ', '# x; y\n', ' # "it\'s" (\n', '#\n', ' # set a 1;\r\n', '#; ##$(é\n'])
                if sep == '#\n' and not free:
                    sep = ' #\n'
                out += sep
            out += w
        return out

    def text(self, stmts):
        r = self.r
        out = ''
        for s in stmts:
            out += self.layout(s.words)
            out += r.choice(['\n', '\n', '\n', ' ', '', '\n# comment\n', '  # c;\n', '\n\n'])
        if r.random() < 0.2:
            out += '# the end'
        return out

    # --- what's wrong

    def bad(self):
        """A script which can't be run: (statements run before it fails, or None if it can't be read at all; text; what's wrong)"""
        r = self.r
        k = r.randrange(len(self.list) + 1)
        if r.random() < 0.35:
            return self.unreadable()
        defined = {c: [] for c in CLASSES}
        for s in self.list[:k]:
            if s.makes:
                defined[s.makes[0]].append(s.makes[1])
        kinds = ['im', 'edp', 'prob', 'cg', 'struct', 'fate', 'cost', 'print', 'recorder', 'var', 'python', 'analyze']
        r.shuffle(kinds)
        for w in kinds:
            words = self.wrong(w, defined, {s.words[1] for s in self.list[:k] if s.words[0] == 'set'})
            if words:
                break
        l = self.list[:k] + [Stmt(words + [';'], None)] + self.list[k:]
        return k, self.text(l), 'undefined: ' + ' '.join(words)

    def wrong(self, w, defined, variables):
        r = self.r

        def one(c):
            return r.choice(defined[c])

        def none(c):
            """No such name, or the name of something else"""
            l = [n for k in CLASSES for n in defined[k] if n not in defined[c]]
            if w != 'structure' and r.random() < 0.3:
                l = []
            return r.choice(l) if l else r.choice(['nosuch', '_', '.'])
        D = defined
        if w == 'im':
            return ['im', 'new', none('det')]
        if w == 'edp' and D['im'] and D['prob']:
            return ['edp', 'new'] + r.choice([[one('im'), none('prob')], [none('im'), one('prob')]])
        if w == 'prob' and D['det']:
            l = [[one('det')], [none('det')]]
            r.shuffle(l)
            if not r.random() < 0.3:
                return ['probfn', 'new', 'lognormal'] + l[0] + [','] + l[1]
            l[l.index(r.choice(l))] = ['$', 'no.such']
            return ['probfn', 'new', 'lognormal'] + l[0] + [','] + l[1]
        if w == 'cg' and D['cg']:
            l = [one('edp'), one('frag'), one('loss')]
            classes = ['edp', 'frag', 'loss']
            if r.random() < 0.5:
                l.append(one('loss'))
                classes.append('loss')
            i = r.randrange(len(l))
            l[i] = none(classes[i])
            return ['compgroup', 'new'] + l + ['1']
        if w == 'struct' and D['cg']:
            l = [one('cg') for _ in range(r.randint(0, 2))]
            l.insert(r.randint(0, len(l)), none('cg'))
            # (nor does the name have to be new)
            return ['structure', r.choice(['new'] + D['struct'])] + [x for g in l for x in (',', g)][1:]
        if w == 'fate':
            return [r.choice(['collapse', 'demolition']), none('im'), '1', ',', '0.5']
        if w == 'cost':
            return [r.choice(['rebuildcost', 'demolitioncost']), none('struct'), '1', ',', '0.5']
        if w == 'print':
            c = r.choice([c for c in CLASSES if c != 'struct'])
            return ['print', CLASSES[c], none(c)] + r.choice([[], ['new.file']])
        if w == 'recorder':
            t, c = r.choice([('detfn', 'det'), ('probfn', 'prob'), ('imrate', 'im'), ('collapse', 'im'), ('edpim', 'edp'), ('edprate', 'edp'), ('dsedp', 'cg'),
                             ('dsim', 'cg'), ('costedp', 'cg'), ('costim', 'cg'), ('delayim', 'cg'), ('costrate', 'cg'), ('totalcost', 'struct'),
                             ('deagg', 'struct'), ('pdf', 'struct')])
            if r.random() < 0.3:
                return ['recorder', 'new', 'structcost', none('struct')] + r.choice([['--annual'], ['--by-edp', '0.5'], ['--by-fate', '0.5']])
            if r.random() < 0.3:
                return ['recorder', 'new'] + r.choice([['dsrate', none('cg')], ['collrate', none('im')]])
            if D[c] and r.random() < 0.2:
                return ['recorder', 'new', t, one(c), '$', 'no.such']
            return ['recorder', 'new', t, none(c), '0.5']
        if w == 'var':
            x = [n for n in self.vars if n not in variables]
            v = ['$', r.choice(x) if x and r.random() < 0.5 else 'no.such']
            return r.choice([['print', 'message'] + v, ['set', 'new'] + v, ['detfn', 'new', 'powerlaw', '1', ','] + v, ['fragfn', 'new', '[', '0.1', ',', '0.5', ']', ',', '['] + v + [',', '0.5', ']'],
                             ['lossfn', 'new', 'bilevel', '[', '1', ',', '5', ','] + v + [',', '2.0', ',', '0.5', ']'], ['integration', 'maq', '0.01'] + v])
        if w == 'python':
            e = r.choice(['1/0', 'nosuch', 'open("f")', '1 +', 'math.nosuch', 'numpy.array(', "''.join(1)", '', 'os.getcwd()'])
            if e.count('(') != e.count(')'):
                e = '1 1'
            return r.choice([['print', 'message', '$(%s)' % e], ['set', 'new', '$(%s)' % e], ['detfn', 'new', 'powerlaw', '$(%s)' % e, ',', '1']])
        return None

    def unreadable(self):
        r = self.r
        l = [Stmt(list(s.words), None) for s in self.list]
        k = r.randrange(len(l))
        ws = l[k].words
        x = r.randrange(6)
        if x == 0:
            ws.pop()
            what = 'no semicolon'
        elif x == 1:
            c = r.choice(STRAY)
            ws.insert(r.choice([i for i in range(len(ws)) if not i or ws[i - 1] != '$']), c)
            what = 'stray ' + c
        elif x == 2:
            ws.pop(0)
            what = 'no keyword'
        elif x == 3:
            del l[k + 1:]
            del ws[r.randint(1, len(ws) - 1):]
            if ws[-1] == '$':
                ws.pop()
            what = 'cut short'
        elif x == 4:
            ws[0] = r.choice([ws[0].upper(), ws[0][:-1] + ws[0][-1] * 2, ws[0] + '1', '"%s"' % ws[0]])
            what = 'keyword ' + ws[0]
        else:
            ws.insert(r.choice([0, len(ws)]), r.choice([';', 'x', '1', '}', ')', ']', "'s'"]))
            what = 'extra word'
        return None, self.text(l) if x != 3 else ' '.join(self.layout(s.words) for s in l), 'unreadable: %s in "%s"' % (what, ' '.join(ws))

    def observations(self):
        q = []
        for k in CLASSES:
            for n in self.used[k]:
                q.append(('%s %s' % (k, n), 'str(%s)' % self.lookup(k, n)))
                h = self.lookup(k, n)
                if k == 'det':
                    q.append((k + ' ' + n, '[%s and %s.ValueAt(x) for x in (0.1, 0.7)]' % (h, h)))
                elif k == 'prob':
                    q.append((k + ' ' + n, '%s and [%s.Mean(0.4), %s.SD_ln(0.4)]' % (h, h, h)))
                elif k == 'im':
                    q.append((k + ' ' + n, '%s and [%s.getlambda(0.4), %s.pCollapse(0.9), %s.pDemolition(0.9)]' % (h, h, h, h)))
                elif k == 'edp':
                    q.append((k + ' ' + n, '%s and [%s.getlambda(0.05), %s.Mean(0.3)]' % (h, h, h)))
                elif k == 'frag':
                    q.append((k + ' ' + n, '%s and %s.pExceeded(0.06)' % (h, h)))
                elif k == 'cg':
                    q.append((k + ' ' + n, '%s and [%s.E_Cost_EDP(0.05), %s.E_Cost_IM(0.3), %s.E_Delay_EDP(0.05), %s.size()]' % (h, h, h, h, h)))
                elif k == 'struct':
                    q.append((k + ' ' + n, '%s and [%s.TotalCost(0.4), %s.AnnualCost()]' % (h, h, h)))
        q.append(('settings', 'P.Format_Statistics()'))
        q.append(('recorders', '[str(x) for x in P.recorder.all()]'))
        return q


def make(arg):
    return Lang(*arg)

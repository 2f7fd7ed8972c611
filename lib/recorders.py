"""Histories of models, recorders on them, and runs of those; what each file (or the standard output) should
hold is known from the points and columns asked for, and from the queries which the columns stand for."""
import math, os, re
from history import Obj
from pyhist import PyHistory

MEANS = ['mean_x', 'mean_ln_x', 'median_x', 'sd_ln_x', 'sd_x']
METHOD = dict(mean_x='Mean', mean_ln_x='MeanLn', median_x='Median', sd_ln_x='SD_ln', sd_x='SD')
PART = dict(mean_x='mean', mean_ln_x='mean_ln', median_x='median', sd_ln_x='sd_ln', sd_x='sd')
TYPES = {'det': ['detfn'], 'prob': ['probfn'], 'im': ['imrate', 'collapse', 'collrate'], 'edp': ['edpim', 'edprate'],
         'cg': ['dsedp', 'dsim', 'costedp', 'costim', 'delayedp', 'delayim', 'costrate', 'dsrate'],
         'struct': ['totalcost', 'deagg', 'pdf', 'annual', 'by-edp', 'by-frag', 'by-fate', 'npv']}


class Block:
    """What one run prints: header is a list of words, cells (step, how) with the values of the rest of the table"""
    def __init__(self, what, header, keys, width, values, keyed=True, tolerant=False, name=None, normalise=False, code=''):
        self.__dict__.update(locals())


class RecPy(PyHistory):
    forgets = False      # names stay known

    def __init__(self, seed, steps):
        self.recs = []
        self.byname = {}
        self.files = {}          # path: blocks
        self.outdir = None
        self.blocks = []         # all
        self.runs = []           # (step which reads what was printed, blocks)
        self.inputs = set()
        self.failures = {}
        super().__init__(seed, steps, settings=False)

    def pid(self, kind, group):
        n = self.r.randint(1, 3)
        # anonymous objects, and those whose names aren't text, aren't recorded
        return "'%s%s%d'" % (group, self.r.choice(['', ' ', '-']) if kind not in ('edp', 'im') else ' ', n)

    def new_simple(self, im, pid=0):
        return super().new_simple(im, self.pid('edp', 'e of %s' % im.number) if pid in (0, None) else pid)

    def im(self, pid=0):
        return super().im(pid or "'im x%d'" % self.ims)

    def change(self):
        if self.r.random() < 0.08:
            self.outdir = self.r.choice(['out', 'out/deeper', '.', 'other'])
            self.do('P.set_output_directory(%r)' % self.outdir)
            self.count('output directories set')
        else:
            super().change()

    def import_file(self):
        # (anonymous measures have no name to print)
        pass

    def query(self):
        r = self.r
        x = r.random()
        if x < 0.45 or not self.recs:
            self.new_recorder()
        elif x < 0.95:
            self.run_recorder(r.choice(self.recs))
        else:
            self.run_all()

    # --- points and columns

    def points(self, scale):
        r, g = self.r, self.g
        x = r.random()
        a, b = sorted([g.lu(0.05, 2) * scale, g.lu(0.05, 2) * scale])
        if x < 0.45:
            v = [g.lu(0.02, 3) * scale for _ in range(r.choice([1, 2, 3, 5]))]
            if r.random() < 0.2:
                v.append(v[0])       # once more
            if r.random() < 0.1:
                v = []
            return v, r.choice(['[%s]', '(%s,)' if v else '[%s]', 'np.array([%s])', 'iter([%s])']) % ', '.join(map(repr, v))
        if x < 0.65:
            n = r.randint(1, 6)
            step = (b - a) / n + 0.01 * scale
            if r.random() < 0.3:
                b = a + n * step
            frac = r.choice([0, 0.2, -0.2])
            end = a + n * step + frac * step
            return [a + i * step for i in range(n + 1)], r.choice(['P.frange(%r, %r, %r)', 'list(P.frange(%r, %r, %r))']) % (a, end, step)
        n = r.randint(2, 6)
        if x < 0.8:
            return [a + (b - a) * i / (n - 1) for i in range(n)], 'P.linrange(%r, %r, %d)' % (a, b, n)
        return [a * (b / a) ** (i / (n - 1)) for i in range(n)], 'P.logrange(%r, %r, %d)' % (a, b, n)

    def new_recorder(self):
        r = self.r
        kind = r.choice(['det', 'prob', 'im', 'edp', 'cg', 'cg', 'struct', 'struct'])
        o = self.pick(kind, lambda o: kind != 'struct' or o.cgs)
        if o is None:
            return
        t = r.choice(TYPES[kind])
        typ, opt, cols, at = t, [], None, None
        if t == 'costrate' and not o.cost or t.startswith('delay') and not o.delay and r.random() < 0.7:
            return
        if t in ('annual', 'by-edp', 'by-frag', 'by-fate', 'npv'):
            typ = 'structcost'
            opt.append("'structcost-type': %r" % t)
        if t in ('probfn', 'edpim') and r.random() < 0.8:
            cols = [r.choice(MEANS + [0.1, 0.5, 0.84]) for _ in range(r.randint(1, 5))]
        elif t in ('totalcost', 'annual', 'by-edp', 'by-frag', 'by-fate') and r.random() < 0.7:
            cols = [r.choice(MEANS) for _ in range(r.randint(1, 5))]
        elif t in ('costedp', 'costim', 'delayedp', 'delayim') and r.random() < 0.6:
            cols = [r.choice(['mean_x', 'sd_ln_x']) for _ in range(r.randint(1, 3))]
        elif t in ('dsedp', 'dsim') and r.random() < 0.6:
            cols = [r.choice(['E(DS)', r.randint(1, self.nstates), 'DS%d' % r.randint(1, self.nstates)]) for _ in range(r.randint(1, 4))]
        keys = None
        rate = 0.0
        if t == 'npv':
            a, b, c = r.randint(1, 5), r.randint(6, 40), r.randint(1, 15)
            rate = r.choice([0.05, 0.1, 0.0])
            keys = list(range(a, b, c))
            at = '%r' % keys if r.random() < 0.5 else 'range(%d, %d, %d)' % (a, b, c)
            opt.append("'discount-rate': %r" % rate)
        elif t not in ('dsrate', 'collrate', 'annual'):
            edp = t in ('edprate', 'dsedp', 'costedp', 'delayedp')
            keys, at = self.points(0.1 if edp else 5.0 if t == 'costrate' else 1.0)
            if t in ('costrate',):
                keys, at = keys[:2], '%r' % keys[:2]
        normalise = t == 'pdf' and r.random() < 0.5
        if normalise:
            opt.append("'normalise': True")
        path = None
        x = r.random()
        append = None
        if x < 0.8:
            path = r.choice(['a', 'b', 'c.txt', 'd.csv', './here', './here.dat', 'e.f'])
            opt.append("'filename': %r" % path)
            append = r.choice([None, False, True])
            if append is not None:
                opt.append("'append': %r" % append)
        elif x < 0.9:
            opt.append("'filename': None")
            if r.random() < 0.5:
                opt.append("'append': %r" % r.choice([True, False]))
        r.shuffle(opt)
        name = r.choice([None, "'rec %d'" % r.randint(1, 4), "'rec %d'" % r.randint(1, 4)])
        var = self.new_id('R')
        # (the constructor describes it on the standard output)
        self.do('%s = P.MakeRecorder(%s, %r, %s, {%s}, %r, %s)' % (var, name, typ, self.ref(o), ', '.join(opt), cols, at))
        rec = Obj('rec', None, pid=name, given=name, var=var, current=True, t=t, target=o, cols=cols, keys=keys, path=path, append=append,
                  normalise=normalise, rate=rate)
        self.all.append(rec)
        self.recs.append(rec)
        self.count('recorders: ' + t)
        if name:
            if name in self.byname:
                self.count('recorders redefined')
            self.byname[name] = rec

    # --- runs

    def label(self, o):
        return eval(o.pid)

    def usable(self, o):
        if o.kind == 'struct':
            # (the name may be another's now)
            return bool(o.cgs) and bool(o.current or o.var) and all(c.current and c.edp.current and c.frag.current for c in o.cgs)
        return o.current

    def block(self, rec):
        """Ask for what it should print"""
        t, o = rec.t, rec.target
        h = self.ref(o)
        keys = rec.keys
        cols = rec.cols
        name = None
        im = lambda: self.label({'im': lambda: o, 'edp': lambda: o.im, 'cg': lambda: o.edp.im, 'struct': lambda: o.cgs[0].edp.im}[o.kind]())
        if t == 'detfn':
            header, e = ['x', 'y'], ['%s.ValueAt(x)']
        elif t in ('probfn', 'edpim'):
            cols = cols or ['mean_ln_x', 'sd_ln_x']
            header = ['x' if t == 'probfn' else im()] + [str(c) for c in cols]
            e = ['%s.' + ('X_at_exceedence(x, %r)' % c if isinstance(c, float) else METHOD[c] + '(x)') for c in cols]
        elif t in ('imrate', 'edprate'):
            header, e = [im() if t == 'imrate' else 'EDP', 'lambda'], ['%s.getlambda(x)']
        elif t == 'collapse':
            header, e = [im(), 'p(Demolition)', 'p(Collapse)'], ['%s.pDemolition(x)', '%s.pCollapse(x)']
        elif t in ('dsedp', 'dsim'):
            if cols is None:
                cols = ['DS%d' % (i + 1) for i in range(self.nstates)] + ['E(DS)']
            header = ['EDP' if t == 'dsedp' else im()] + [str(c) for c in cols]
            if t == 'dsedp':
                h = self.ref(o.frag)
            q = '%s.pExceeded(x)' if t == 'dsedp' else '%s.pDS_IM(x)'
            e = ['sum(%s)' % q if c == 'E(DS)' else q + '[%d]' % (int(str(c).replace('DS', '')) - 1) for c in cols]
        elif t in ('costedp', 'costim', 'delayedp', 'delayim'):
            cols = cols or ['mean_x', 'sd_ln_x']
            what, by = ('Cost' if t.startswith('cost') else 'Delay'), t[-3:].upper() if t.endswith('edp') else 'IM'
            header = ['EDP' if by == 'EDP' else im()] + cols
            e = ['%%s.%s_%s_%s(x)' % ({'mean_x': 'E', 'sd_ln_x': 'SD_ln'}[c], what, by) for c in cols]
        elif t == 'costrate':
            header, e = ['t', 'Rate'], ['%s.lambda_cost(x)']
        elif t == 'totalcost':
            cols = cols or ['mean_x', 'sd_ln_x']
            header, e = [im()] + cols, ['%%s.TotalCost(x).%s()' % PART[c] for c in cols]
        elif t == 'deagg':
            header = [im(), 'mean_nc', 'sd_nc', 'mean_c', 'sd_c']
            e = ['%%s.DeaggregatedCost(x)[%d].%s()' % (i, f) for i in (0, 1) for f in ('mean', 'sd_ln')]
        elif t == 'pdf':
            header, e = [im(), 'pdf'], ['%s.pdf(x)']
        elif t == 'by-fate':
            cols = cols or ['mean_x']
            fates = ['repair', 'demo', 'coll']
            header = [im()] + ['%s.%s' % (f, c) for f in fates for c in cols]
            e = ['%%s.CostsByFate(x)[%d].%s()' % (i, PART[c]) for i in range(3) for c in cols]
        elif t in ('by-edp', 'by-frag'):
            cols = cols or ['mean_x']
            by = {}
            for c in o.cgs:
                g = c.edp if t == 'by-edp' else c.frag
                by.setdefault(self.label(g), []).append(c)
            header = [im()] + ['%s.%s' % (k, c) for k in sorted(by) for c in cols]
            e = []
            for k in sorted(by):
                d = 'P.lognormaldist(core.AddDistributions([%s]))' % ', '.join(
                    'core.MakeLogNormalDist(%s.E_Cost_IM(x), MU.MEAN_X, %s.SD_ln_Cost_IM(x), SD.SD_LN_X)' % (c, c) for c in map(self.ref, by[k]))
                e += ['%s.%s()' % (d, PART[c]) for c in cols]
        elif t == 'npv':
            header, e = ['Year', 'E[ALt]'], ['%%s.E_cost(x, %r)' % rec.rate]
        elif t == 'dsrate':
            header, e = ['DS%d' % (i + 1) for i in range(self.nstates)], ['%s.Rate()']
        elif t == 'annual':
            cols = cols or ['mean_x']
            header, e = cols, ['%%s.AnnualCost().%s()' % PART[c] for c in cols]
        elif t == 'collrate':
            name = self.label(o)
            header, e = ['IM', 'rate(Demolition)', 'rate(Collapse)'], ['%s.DemolitionRate()', '%s.CollapseRate()']
        one = '[%s]' % ', '.join(x.replace('%s', h) for x in e)
        if keys is None:
            self.steps.append(['q', one])
        else:
            self.steps.append(['q', '[%s for x in %r]' % (one, keys)])
        return Block(t, header, keys, self.nstates if t == 'dsrate' else len(e), len(self.steps), keys is not None, name=name, normalise=rec.normalise)

    def target(self, rec):
        p = rec.path
        if p is None:
            return None
        if not os.path.dirname(p):
            p = os.path.join(self.outdir or '.', p)
        if not os.path.splitext(p)[1]:
            p += '.csv'
        return os.path.normpath(p)

    def printed(self, b, rec):
        p = self.target(rec)
        if p is None:
            return [b]
        if rec.append and p in self.files:
            self.files[p] = self.files[p] + [b]
            self.count('runs which append')
        else:
            if p in self.files:
                self.count('files written again')
            self.files[p] = [b]
        return []

    def run_recorder(self, rec):
        if not self.usable(rec.target):
            return
        # queries may come first: what's cached mustn't matter
        first = self.r.random() < 0.5
        b = self.block(rec) if first else None
        n = self.do('import io, contextlib; B = io.StringIO()\nwith contextlib.redirect_stdout(B): %s.run()' % rec.var)
        if b is None:
            b = self.block(rec)
        b.code = rec
        b.run = n
        self.blocks.append(b)
        self.count('runs: ' + rec.t)
        out = self.printed(b, rec)
        self.steps.append(['q', 'B.getvalue()'])
        self.runs.append((len(self.steps), out, 'standard output', n))
        p = self.target(rec)
        if p is not None:
            self.steps.append(['q', 'open(%r).read()' % p])
            self.runs.append((len(self.steps), self.files[p], p, n))

    def run_all(self):
        recs = [x for x in self.byname.values()]
        if not all(self.usable(x.target) for x in recs):
            return
        n = self.do('import io, contextlib; B = io.StringIO()\nwith contextlib.redirect_stdout(B): [x.run() for x in P.recorder.all()]')
        out = []
        for x in recs:
            b = self.block(x)
            b.code, b.run = x, n
            self.blocks.append(b)
            out += self.printed(b, x)
        self.count('runs of all')
        self.steps.append(['q', 'B.getvalue()'])
        self.runs.append((len(self.steps), out, 'standard output', n))
        for p in sorted({self.target(x) for x in recs if x.path}):
            self.steps.append(['q', 'open(%r).read()' % p])
            self.runs.append((len(self.steps), self.files[p], p, n))


def number(s):
    try:
        return float(s)
    except ValueError:
        return None


def close(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= 1.1e-5 * max(abs(a), abs(b))


def compare(text, blocks, tokens, errors, count):
    """What's wrong with text, or None"""
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    elif text:
        return 'does not end with a line'
    i = 0
    for b in blocks:
        values = tokens.get(b.values)
        if values is None:
            return 'no values to compare with: %s' % errors.get(b.values)
        if i >= len(lines) or lines[i].split() != ' '.join(b.header).split():
            return 'line %d should be the header %s of %s: %r' % (i + 1, b.header, b.what, lines[i] if i < len(lines) else None)
        i += 1
        n = 1 if b.keys is None else len(b.keys)
        if len(values) != n * b.width:
            return 'expected %d values, had %d' % (n * b.width, len(values))
        big = 1.0
        if b.normalise:
            big = max([v for v in values if v == v] + [0.0])
            if not big > 0 or big != big:
                return 'undefined'
        for k in range(n):
            if i >= len(lines):
                return 'row %d of %s (%s) is missing' % (k + 1, b.what, b.keys[k] if b.keys else '')
            row = lines[i]
            if b.name is not None:
                row = row.strip()
                if not row.startswith(b.name):
                    return 'row of %s should start with %s: %r' % (b.what, b.name, row)
                row = row[len(b.name):]
            cells = [number(c) for c in row.split()]
            want = [v / big for v in values[k * b.width:(k + 1) * b.width]]
            if b.keys is not None:
                want = [float(b.keys[k])] + want
            if len(cells) != len(want) or any(c is None or not close(c, w) for c, w in zip(cells, want)):
                return 'row %d of %s is %r; should be %s' % (k + 1, b.what, lines[i], want)
            count('rows')
            count('cells', len(cells))
            i += 1
    if i != len(lines):
        return '%d more lines: %r' % (len(lines) - i, lines[i])
    return None


def make(arg):
    return RecPy(*arg)

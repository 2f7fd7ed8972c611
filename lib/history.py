"""Histories of changes to a model: each change is written for the driver, and made to
a description of the model, from which a fresh copy can be written at any point."""
import gen, ref
from drv import num

KINDS = ('det', 'prob', 'im', 'edp', 'frag', 'loss', 'cg', 'struct')
IMS = [0.12, 0.5, 1.1]
EDPS = [0.01, 0.06, 0.3]


class Obj:
    def __init__(self, kind, id, **kw):
        self.kind, self.id = kind, id
        self.__dict__.update(kw)


def emit(s, o, new_id, memo):
    """Lines which build o (and what it uses) as it is now; returns its id"""
    if id(o) in memo:
        return memo[id(o)]
    e = lambda x: emit(s, x, new_id, memo)

    def dist(d):
        i = new_id('l')
        if d is None:
            s.append('dist %s default' % i)
        else:
            # (kind, mu, sigma), or mu and sigma of the logarithm
            k, a, b = d if len(d) == 3 else ('muln_sdln',) + tuple(d)
            s.append('dist %s %s %s %s' % (i, k, num(a), num(b)))
        return i
    if o.kind == 'det':
        f = o.spec
        i = new_id('d')
        if f[0] in ('lin', 'loglog'):
            s.append('det %s %s %s' % (i, f[0], ' '.join(num(v) for v in list(f[1]) + list(f[2]))))
        else:
            s.append('det %s %s %s' % (i, f[0], ' '.join(num(v) for v in f[1:])))
    elif o.kind == 'prob':
        a, b = e(o.f), e(o.g)
        i = new_id('p')
        s.append('prob %s %s %s %s %s' % (i, o.mt, o.st, a, b))
    elif o.kind == 'im':
        d = e(o.det)
        i = new_id('i')
        s.append('im %s %s' % (i, d))
        for k in ('collapse', 'demolition'):
            if getattr(o, k):
                s.append('%s %s %s' % (k, i, dist(getattr(o, k))))
    elif o.kind == 'edp':
        m = e(o.im)
        ps = [e(p) for p in o.probs]
        i = new_id('e')
        s.append('%s %s %s %s' % ('edp' if len(ps) == 1 else 'cedp', i, m, ' '.join(ps)))
    elif o.kind == 'frag':
        ds = [dist(d) for d in o.spec]
        i = new_id('f')
        s.append('frag %s %s' % (i, ' '.join(ds)))
    elif o.kind == 'loss':
        k, l = o.spec
        if k == 's':
            ds = [dist(d) for d in l]
            i = new_id('s')
            s.append('sloss %s %s' % (i, ' '.join(ds)))
        else:
            i = new_id('b')
            s.append('bloss %s %s' % (i, ' '.join('%d %d %s %s %s' % (a, b, num(c), num(d), num(x)) for a, b, c, d, x in l)))
    elif o.kind == 'cg':
        a, f = e(o.edp), e(o.frag)
        c, d = (e(x) if x else '-' for x in (o.cost, o.delay))
        i = new_id('g')
        s.append('cg %s %s %s %s %s %d %s %s' % (i, a, f, c, d, o.count, num(o.ca), num(o.da)))
    elif o.kind == 'struct':
        gs = [e(g) for g in o.cgs]
        i = new_id('S')
        s.append('struct %s' % i)
        s.extend('addcg %s %s' % (i, g) for g in gs)
        for k in ('rebuild', 'demol'):
            if getattr(o, k):
                s.append('%s %s %s' % (k, i, dist(getattr(o, k))))
    memo[id(o)] = i
    return i


class History:
    def __init__(self, seed, steps, tag='c12'):
        self.seed = seed
        self.g = gen.Gen('%s %s' % (tag, seed))
        self.r = self.g.r
        self.lines = []          # the history
        self.fresh = []          # models built afresh, and the same queries
        self.pairs = []          # (line of history, line of fresh, what)
        self.changes = {}
        self.nstates = self.r.randint(1, 4)
        self.objs = {k: [] for k in KINDS}
        self.threads = 4 if self.r.random() < 0.15 else 1
        self.serial = 0
        pre = ['tol %g' % self.r.choice([1e-2, 2e-3]), 'threads %d' % self.threads]
        self.lines += pre
        self.fresh += pre
        self.start()
        self.last = ''
        self.queries(self.r.randint(4, 10))
        self.run(steps)
        self.text = '\n'.join(self.lines) + '\n'
        self.ftext = '\n'.join(self.fresh) + '\n'

    def run(self, steps):
        for _ in range(steps):
            n = self.r.choice([1, 1, 1, 2, 3])
            self.last = ''
            for _ in range(n):
                for _ in range(20):
                    c = self.change()
                    if c:
                        break
                if c:
                    self.changes[c] = self.changes.get(c, 0) + 1
                    self.last += c + ' '
            self.queries(self.r.randint(3, 8))

    def new_id(self, p):
        self.serial += 1
        return '%s%d' % (p, self.serial)

    # --- objects

    def add(self, kind, **kw):
        o = Obj(kind, None, **kw)
        memo = {id(x): x.id for k in KINDS for x in self.objs[k]}
        memo.update(self.dead)
        o.id = emit(self.lines, o, self.new_id, memo)
        self.objs[kind].append(o)
        return o

    dead = {}

    def pick(self, kind, ok=lambda o: True):
        l = [o for o in self.objs[kind] if ok(o)]
        return self.r.choice(l) if l else None

    def new_hazard(self):
        return self.add('det', spec=self.g.hazard(), use='im')

    def new_prob(self, mt=None, st=None):
        mt, st, f, g = self.g.demand((mt, st) if mt else None)
        a = self.add('det', spec=f, use='f ' + mt)
        b = self.add('det', spec=g, use='g ' + st if st == 'sd_ln' else 'g %s %s' % (st, mt))
        return self.add('prob', mt=mt, st=st, f=a, g=b)

    def dist(self, which):
        g = self.g
        return {'collapse': lambda: ref.dist('median_sdln', g.u(0.8, 3), g.u(0.3, 0.6)),
                'demolition': lambda: ref.dist('median_sdln', g.u(0.4, 2.0), g.u(0.3, 0.6)),
                'cost': lambda: ref.dist('mean_sdln', g.lu(1, 100), g.u(0.1, 0.5))}[which]()

    def new_im(self):
        r = self.r
        d = self.pick('det', lambda o: o.use == 'im') if r.random() < 0.3 else None
        return self.add('im', det=d or self.new_hazard(), collapse=self.dist('collapse') if r.random() < 0.6 else None,
                        demolition=self.dist('demolition') if r.random() < 0.5 else None)

    def new_edp(self, im):
        ps = [(self.pick('prob') if self.r.random() < 0.4 else None) or self.new_prob() for _ in range(self.r.choice([1, 1, 2]))]
        return self.add('edp', im=im, probs=ps)

    def new_frag(self):
        return self.add('frag', spec=self.g.frag(self.nstates))

    def new_loss(self):
        return self.add('loss', spec=self.g.loss(self.nstates))

    def new_cg(self, edp):
        r = self.r
        re = lambda kind, new: (self.pick(kind) if r.random() < 0.4 else None) or new()
        return self.add('cg', edp=edp, frag=re('frag', self.new_frag), cost=re('loss', self.new_loss) if r.random() < 0.9 else None,
                        delay=re('loss', self.new_loss) if r.random() < 0.4 else None, count=r.choice([1, 2, 5, 20]),
                        ca=r.choice([1.0, self.g.u(0.3, 2)]), da=r.choice([1.0, self.g.u(0.3, 2)]))

    def start(self):
        r = self.r
        self.dead = {}
        ims = [self.new_im() for _ in range(r.choice([1, 2, 2]))]
        edps = [self.new_edp(r.choice(ims)) for _ in range(r.randint(1, 3))]
        cgs = [self.new_cg(r.choice(edps)) for _ in range(r.randint(1, 4))]
        for _ in range(r.choice([1, 2])):
            im = r.choice(cgs).edp.im
            gs = [g for g in cgs if g.edp.im is im]
            r.shuffle(gs)
            self.add('struct', cgs=gs[:r.randint(1, 3)], rebuild=self.dist('cost') if r.random() < 0.9 else None,
                     demol=self.dist('cost') if r.random() < 0.9 else None)

    # --- changes

    def swap(self, kind, old, new):
        """old's clients now use new"""
        for k in KINDS:
            for o in self.objs[k] + list(self.zombies):
                for name, v in list(o.__dict__.items()):
                    if v is old:
                        setattr(o, name, new)
                    elif isinstance(v, list) and name in ('probs', 'cgs'):
                        setattr(o, name, [new if x is old else x for x in v])
    zombies = ()

    def change(self):
        r = self.r
        x = r.choice(['det', 'det', 'prob', 'im', 'edp', 'frag', 'loss', 'cg', 'collapse', 'demolition', 'rebuild', 'demol',
                      'addcg', 'addcg', 'rmcg', 'del', 'notify', 'newclient', 'clear'])
        reuse = r.random() < 0.35
        if x == 'det':
            o = self.pick('det')
            n = self.pick('det', lambda d: d.use == o.use) if reuse else None
            if n is None:
                if o.use == 'im':
                    n = self.new_hazard()
                else:
                    w = o.use.split()
                    if w[0] == 'f':
                        n = self.add('det', spec=self.g.demand((w[1], 'sd_ln'))[2], use=o.use)
                    else:
                        n = self.add('det', spec=self.g.demand((w[2] if len(w) > 2 else 'median', w[1]))[3], use=o.use)
        elif x == 'prob':
            o = self.pick('prob')
            n = (self.pick('prob') if reuse else None) or self.new_prob()
        elif x == 'im':
            o = self.pick('im')
            n = (self.pick('im') if reuse else None) or self.new_im()
        elif x == 'edp':
            o = self.pick('edp')
            n = self.pick('edp', lambda e: e.im is o.im) if reuse else None
            if n is None:
                if o.im not in self.objs['im']:
                    return None
                n = self.new_edp(o.im)
        elif x == 'frag':
            o = self.pick('frag')
            n = (self.pick('frag') if reuse else None) or self.new_frag()
        elif x == 'loss':
            o = self.pick('loss')
            if not o:
                return None
            n = (self.pick('loss') if reuse else None) or self.new_loss()
        elif x == 'cg':
            o = self.pick('cg')
            if not o:
                return None
            n = self.pick('cg', lambda c: c.edp.im is o.edp.im) if reuse else None
            if n is None:
                e = self.pick('edp', lambda e: e.im is o.edp.im)
                if e is None:
                    return None
                n = self.new_cg(e)
        elif x in ('collapse', 'demolition'):
            o = self.pick('im')
            d = self.dist(x)
            setattr(o, x, d)
            i = self.new_id('l')
            self.lines += ['dist %s muln_sdln %s %s' % (i, num(d[0]), num(d[1])), '%s%s %s %s' % (x, r.choice(['', 'p']), o.id, i)]
            return x
        elif x in ('rebuild', 'demol'):
            o = self.pick('struct')
            d = self.dist('cost')
            setattr(o, x, d)
            i = self.new_id('l')
            self.lines += ['dist %s muln_sdln %s %s' % (i, num(d[0]), num(d[1])), '%s %s %s' % (x, o.id, i)]
            return x
        elif x == 'addcg':
            o = self.pick('struct')
            if len(o.cgs) > 5:
                return None
            c = self.pick('cg', lambda c: not o.cgs or c.edp.im is o.cgs[0].edp.im)
            if not c:
                return None
            o.cgs = o.cgs + [c]
            self.lines.append('addcg %s %s' % (o.id, c.id))
            return x
        elif x == 'rmcg':
            o = self.pick('struct')
            gs = [c for c in o.cgs if c in self.objs['cg']]
            if not gs or (len(o.cgs) == 1 and r.random() < 0.7):
                return None
            c = r.choice(gs)
            l = list(o.cgs)
            l.remove(c)
            o.cgs = l
            self.lines.append('rmcg %s %s' % (o.id, c.id))
            return x
        elif x == 'del':
            # forget an object, which others may still use
            k = r.choice(KINDS[:-1])
            if len(self.objs[k]) < 3:
                return None
            o = self.pick(k)
            self.objs[k].remove(o)
            self.zombies = list(self.zombies) + [o]
            self.dead[id(o)] = None
            self.lines.append('del %s %s' % (k, o.id))
            return x
        elif x == 'notify':
            k = r.choice(KINDS[:-1])
            o = self.pick(k)
            if not o:
                return None
            self.lines.append('notify %s %s' % (k, o.id))
            return x
        elif x == 'clear':
            self.lines.append('clearcaches')
            return x
        else:
            # another client of what exists
            im = self.pick('im')
            y = r.random()
            if y < 0.4:
                self.new_edp(im)
            else:
                e = self.pick('edp', lambda e: e.im in self.objs['im'])
                if not e:
                    return None
                self.new_cg(e)
            return x
        self.swap(x, o, n)
        self.lines.append('replace %s %s %s' % (x, o.id, n.id))
        return 'replace ' + x + (' by one in use' if reuse else '')

    # --- queries

    def query(self):
        r = self.r
        k = r.choice(['prob', 'im', 'edp', 'edp', 'cg', 'cg', 'cg', 'cg', 'struct', 'struct', 'struct', 'struct'])
        o = self.pick(k)
        if not o:
            return None
        a = num(r.choice(IMS))
        y = num(r.choice(EDPS))
        q = {'prob': ['stats ' + a, 'P %s %s' % (a, y)],
             'im': ['lambda ' + a, 'deriv ' + a, 'collrate 0', 'demrate 0', 'fates ' + a],
             'edp': ['lambda ' + y, 'vlambda ' + y, 'stats ' + a, 'P %s %s' % (a, y), 'X %s 0.3' % a],
             'cg': ['edpcost ' + y, 'imcost ' + a, 'distim ' + a, 'rate', 'pds ' + a, 'annual'],
             'struct': ['cost %s 0' % a, 'cost %s 1' % a, 'total ' + a, 'pdf ' + a, 'fates ' + a, 'deagg ' + a, 'annual', 'annual', 'npv 0.05 30']}[k]
        if k == 'cg':
            if o.delay:
                q += ['edpdelay ' + y, 'imdelay ' + a]
            if o.cost and r.random() < 0.2:
                q = ['lambda 5']
        return k, o, r.choice(q)

    def queries(self, n):
        memo = {}
        for _ in range(n):
            x = self.query()
            if not x:
                continue
            k, o, q = x
            self.lines.append('q %s %s %s' % (k, o.id, q))
            i = emit(self.fresh, o, self.new_id, memo)
            self.fresh.append('q %s %s %s' % (k, i, q))
            self.pairs.append((len(self.lines), len(self.fresh), '%s %s' % (k, q.split()[0]), self.last))
        # and those asked for before are cached: ask again of the same objects
        old = [p for p in self.pairs if self.lines[p[0] - 1].split()[2] in {o.id for k in KINDS for o in self.objs[k]}]
        for p in self.r.sample(old, min(len(old), n)):
            w = self.lines[p[0] - 1].split()
            o = next(o for o in self.objs[w[1]] if o.id == w[2])
            q = ' '.join(w[3:])
            if 'delay' in q and not o.delay or q.startswith('lambda 5') and not o.cost:
                continue
            self.lines.append(self.lines[p[0] - 1])
            i = emit(self.fresh, o, self.new_id, memo)
            self.fresh.append('q %s %s %s' % (w[1], i, q))
            self.pairs.append((len(self.lines), len(self.fresh), '%s %s (asked before)' % (w[1], w[3]), self.last))

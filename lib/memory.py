"""Scripts which are repeated, and what is allocated after each repetition."""
import history
from drv import num

REPEAT = 48


def marks(n):
    """Repetitions between which the use of memory is compared"""
    return n // 8, n // 4, n // 2, n


def growth(use, what=('blocks', 'bytes')):
    """use: what is in use after each repetition. None, or what grows in proportion to the repetitions"""
    ms = marks(len(use))
    for i, name in enumerate(what):
        v = [use[m - 1][i] for m in ms]
        d = [b - a for a, b in zip(v, v[1:])]
        # each of these takes twice as many repetitions as that before
        least = [(b - a) * (8 if name == 'bytes' else 0.5) for a, b in zip(ms, ms[1:])]
        if all(x >= l for x, l in zip(d, least)) and all(1.4 * x <= y <= 3 * x for x, y in zip(d, d[1:])):
            return '%s in use after %s repetitions: %s' % (name, ', '.join(map(str, ms)), ', '.join(map(str, map(int, v))))
    return None


class Live(history.History):
    """A model which changes, and changes back, over and over"""

    def __init__(self, seed, changes, discard=None, repeat=REPEAT):
        self.seed, self.pending = seed, changes
        super().__init__(seed, 0, 'c22 live')
        base, self.lines = self.lines, []
        self.kinds = {}
        while self.pending:
            self.pending -= 1
            k = self.there_and_back()
            self.kinds[k] = self.kinds.get(k, 0) + 1
        self.cycle = self.lines
        n = len(base)
        if discard:
            # the whole of it is made again each time
            self.cycle = base + self.cycle + ['delall ' + discard]
            base, n = [], 0
        self.text = '\n'.join(base + (self.cycle + ['heap']) * repeat) + '\n'
        self.heaps = [n + (k + 1) * (len(self.cycle) + 1) for k in range(repeat)]

    def ask(self, n=3):
        memo = len(self.lines)
        while len(self.lines) < memo + n:
            x = self.query()
            if x and not (x[2].startswith('lambda 5') or x[2] == 'annual' and self.r.random() < 0.7):
                self.lines.append('q %s %s %s' % (x[0], x[1].id, x[2]))

    def others(self, kind, o):
        """Something to replace o by"""
        if kind == 'det':
            if o.use == 'im':
                return self.new_hazard()
            w = o.use.split()
            if w[0] == 'f':
                return self.add('det', spec=self.g.demand((w[1], 'sd_ln'))[2], use=o.use)
            return self.add('det', spec=self.g.demand((w[2] if len(w) > 2 else 'median', w[1]))[3], use=o.use)
        return {'prob': self.new_prob, 'im': self.new_im, 'edp': lambda: self.new_edp(o.im), 'frag': self.new_frag,
                'loss': self.new_loss, 'cg': lambda: self.new_cg(o.edp), 'struct': lambda: self.add('struct', cgs=list(o.cgs), rebuild=o.rebuild, demol=o.demol)}[kind]()

    def there_and_back(self):
        r = self.r
        what = r.choice(['replace'] * 10 + ['set', 'set', 'member', 'watch', 'refused', 'clear', 'notify', 'describe', 'itself'])
        if what == 'replace':
            kind = r.choice(['det', 'det', 'prob', 'im', 'edp', 'frag', 'loss', 'cg'])
            o = self.pick(kind)
            if o is None:
                return 'nothing'
            live = {k: list(v) for k, v in self.objs.items()}
            n = self.others(kind, o)
            self.lines.append('replace %s %s %s' % (kind, o.id, n.id))
            if r.random() < 0.3:
                # the very object which was replaced
                self.ask()
                self.lines.append('replace %s %s %s' % (kind, n.id, o.id))
                self.ask(2)
                return 'replace %s, and by itself' % kind
            if r.random() < 0.3:
                self.lines.append('del %s %s' % (kind, o.id))
            self.ask()
            memo = {id(x): x.id for k in history.KINDS for x in self.objs[k] if x is not o}
            history.emit(self.lines, o, lambda p: self.new_id('l') if p == 'l' else o.id, memo)
            self.lines.append('replace %s %s %s' % (kind, n.id, o.id))
            if r.random() < 0.5:
                self.lines.append('del %s %s' % (kind, n.id))
                self.objs = live
            self.ask(2)
            return 'replace ' + kind
        if what == 'set':
            kind, w = r.choice([('im', 'collapse'), ('im', 'demolition'), ('struct', 'rebuild'), ('struct', 'demol')])
            o = self.pick(kind)
            for _ in range(2):
                d = self.dist(w if kind == 'im' else 'cost')
                i = self.new_id('l')
                self.lines += ['dist %s muln_sdln %s %s' % (i, num(d[0]), num(d[1])),
                               '%s%s %s %s' % (w, r.choice(['', 'p']) if kind == 'im' else '', o.id, i)]
                self.ask(2)
            return 'set ' + w
        if what == 'member':
            o = self.pick('struct')
            g = self.pick('cg', lambda c: not o.cgs or c.edp.im is o.cgs[0].edp.im)
            if g is None:
                return 'nothing'
            l = ['addcg %s %s', 'rmcg %s %s'] if r.random() < 0.6 or g not in o.cgs else ['rmcg %s %s', 'addcg %s %s']
            for x in l:
                self.lines.append(x % (o.id, g.id))
                self.ask(2)
            return 'add and remove a group'
        k = r.choice(history.KINDS[:-1])
        o = self.pick(k)
        if o is None:
            return 'nothing'
        if what == 'watch':
            i = self.new_id('w')
            self.lines += ['watch %s %s %s' % (k, o.id, i), 'notify %s %s' % (k, o.id), 'unwatch ' + i]
            return 'callbacks'
        if what == 'refused':
            i, d, m, s = self.new_id('d'), self.pick('det').id, self.pick('im'), self.pick('struct')
            self.lines += ['det %s loglog 1 2 3 -1 0 1' % i, 'det %s lin 1 2' % i, 'im i_none ' + i,
                           'dist %s mean_sdln -1 0.5' % i, 'dist %s muln_sdln 1 -0.5' % i, 'replace im %s %s' % (m.id, i),
                           'prob %s mean sd %s none' % (i, d), 'q im %s lambda nan' % m.id, 'q struct %s cost -1 1' % s.id]
            return 'requests and definitions which are refused'
        if what == 'clear':
            self.lines.append('clearcaches')
            self.ask(2)
        elif what == 'notify':
            self.lines.append('notify %s %s' % (k, o.id))
            self.ask(2)
        elif what == 'describe':
            self.lines += ['str %s %s' % (k, o.id)] if k != 'loss' else []
            self.lines.append('str stats -')
        else:
            self.lines.append('replace %s %s %s' % (k, o.id, o.id))
            self.ask(2)
        return what


class Rebuilt:
    """A history which is repeated, everything being discarded in between (or replaced by its successor)"""

    def __init__(self, seed, text, order, repeat=24):
        self.seed = seed
        one = text.rstrip('\n').split('\n') + (['delall ' + ' '.join(order)] if order else [])
        self.text = '\n'.join((one + ['heap']) * repeat) + '\n'
        self.heaps = [(k + 1) * (len(one) + 1) for k in range(repeat)]

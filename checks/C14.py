"""C14: clients are told of every change, exactly while they are registered."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, drv, harness
from history import History, KINDS
from report import Check, main

USES = {'prob': ('f', 'g'), 'im': ('det',), 'edp': ('im', 'probs'), 'cg': ('edp', 'frag', 'cost', 'delay'), 'struct': ('cgs',)}


def used(o):
    out = []
    for name in USES.get(o.kind, ()):
        v = getattr(o, name)
        out += v if isinstance(v, list) else [v] if v is not None else []
    return out


class Watched(History):
    """A history of changes, each followed by asking every watcher what it has been told"""
    def __init__(self, seed, steps):
        self.watchers = {}
        self.expect = []      # (line, name, wanted, last)
        super().__init__(seed, steps, 'c14')

    def alive(self):
        seen, todo = {}, [o for k in KINDS for o in self.objs[k]]
        while todo:
            o = todo.pop()
            if id(o) not in seen:
                seen[id(o)] = o
                todo += used(o)
        return seen

    def above(self, o):
        """What uses o, directly or not"""
        objs = self.alive()
        users = {}
        for x in objs.values():
            for y in used(x):
                users.setdefault(id(y), []).append(x)
        seen, todo = {}, [o]
        while todo:
            for u in users.get(id(todo.pop()), []):
                if id(u) not in seen:
                    seen[id(u)] = u
                    todo.append(u)
        return seen

    def swap(self, kind, old, new):
        self.swapped = (old, new, self.above(old), {n: o for n, (o, k) in self.watchers.items()})
        super().swap(kind, old, new)

    def run(self, steps):
        r = self.r
        for _ in range(steps):
            if r.random() < 0.4 or len(self.watchers) < 4:
                for _ in range(r.randint(1, 3)):
                    k = r.choice(KINDS[:-1])
                    o = self.pick(k)
                    if o:
                        n = self.new_id('w')
                        self.lines.append('watch %s %s %s' % (k, o.id, n))
                        self.watchers[n] = [o, False]
            if r.random() < 0.25 and self.watchers:
                n = r.choice(sorted(self.watchers))
                if not self.watchers[n][1]:
                    self.lines.append('unwatch ' + n)
                    self.watchers[n][1] = True
            self.swapped = None
            live = self.alive()
            before = {n: (o, off or id(o) not in live) for n, (o, off) in self.watchers.items()}
            start = len(self.lines)
            if r.random() < 0.3:
                c = self.more()
            else:
                c = self.change()
            if not c:
                continue
            self.changes[c] = self.changes.get(c, 0) + 1
            last = self.lines[-1] if len(self.lines) > start else ''
            direct, told, moved = None, {}, None
            w = last.split()
            if self.swapped and self.swapped[0] is not self.swapped[1]:
                moved, target, told, _ = self.swapped
            elif self.swapped:
                direct, told = self.swapped[0], self.swapped[2]
            elif w and w[0] == 'notify':
                direct = next(o for o in self.objs[w[1]] if o.id == w[2])
                told = self.above(direct)
            elif w and w[0].rstrip('p') in ('collapse', 'demolition'):
                direct = next(o for o in self.objs['im'] if o.id == w[1])
                told = self.above(direct)
            for n, (o, off) in sorted(before.items()):
                if off:
                    want = 'nothing'
                elif o is moved:
                    want = 'replaced'
                    self.watchers[n][0] = target
                elif o is direct:
                    want = 'once' if not self.swapped else 'self'
                elif id(o) in told:
                    want = 'told'
                else:
                    want = 'nothing'
                at = self.watchers[n][0]
                q = 'q watch %s counts' % n
                if want != 'nothing' and at in self.objs[at.kind]:
                    q += ' %s %s' % (at.kind, at.id)
                self.lines.append(q)
                self.expect.append((len(self.lines), n, want, last))
            # a deleted client is gone for good
            live = self.alive()
            for n, (o, off) in self.watchers.items():
                if id(o) not in live:
                    self.watchers[n][1] = True

    def more(self):
        """Changes which say more about clients: to and fro, by itself, by one with clients"""
        r = self.r
        k = r.choice(['det', 'prob', 'im', 'edp', 'frag', 'loss', 'cg'])
        o = self.pick(k)
        if not o:
            return None
        x = r.random()
        if x < 0.35:
            n = o
        elif k == 'det':
            n = self.pick(k, lambda d: d.use == o.use)
        elif k == 'edp':
            n = self.pick(k, lambda e: e.im is o.im)
        elif k == 'cg':
            n = self.pick(k, lambda c: c.edp.im is o.edp.im)
        else:
            n = self.pick(k)
        self.swap(k, o, n)
        self.lines.append('replace %s %s %s' % (k, o.id, n.id))
        return 'replace %s by %s' % (k, 'itself' if n is o else 'one in use')

    def queries(self, n):
        pass


def make(arg):
    return Watched(*arg)


OK = {'nothing': lambda c, r: c == 0 and r == 0, 'once': lambda c, r: c == 1 and r == 0, 'told': lambda c, r: c >= 1 and r == 0,
      'replaced': lambda c, r: c == 0 and r == 1, 'self': lambda c, r: c + r == 1}
MEANS = {'nothing': 'not to be told', 'once': 'to be told once', 'told': 'to be told', 'replaced': 'to be given the replacement, once',
         'self': 'to be told once'}


def body():
    ck = Check('C14', 'each case is a history of registrations, removals, changes, replacements and deletions (of plain replaceable objects, or of a model\'s); distinct histories')
    ck.assumptions = ['callbacks don\'t register, remove or notify on the object which is calling them (its lock isn\'t recursive)',
                      'concurrently with others, clients register, are removed, and are told of changes; replacement is sequential']
    import formula
    n = 10 if ck.thorough else 1
    s = ck.seed * 1000
    plain = build.harness('clienttest', 'plain')
    asan = build.harness('clienttest', 'asan')
    harness.collect(ck, 'sequential', plain, [(s + i, 10000) for i in range(8 * n)], 250)
    harness.collect(ck, 'sequential, sanitized', asan, [(s + 100 + i, 1000) for i in range(8 * n)], 250)
    harness.collect(ck, 'free', plain, [(s + 200 + i, 2000, 'par') for i in range(4 * n)], 250, workers=2)
    for v, label, m in (('sched', 'scheduled', 4000), ('tsan', 'raced', 300)):
        exe = harness.optional(ck, 'clienttest', v)
        if exe:
            harness.collect(ck, label, exe, [(s + 300 + i, m, 'par') for i in range(8 * n)], 250, workers=4)

    hs = formula.make_all(make, [((ck.seed, k), 80 if ck.thorough else 40) for k in range(3000 if ck.thorough else 400)])
    exe = build.driver('plain')
    for h, r in zip(hs, drv.run_many(exe, [h.text for h in hs])):
        ck.case(h.seed)
        for k, c in h.changes.items():
            ck.count('model: ' + k, c)
        if r.crashed():
            ck.violation('crash', 'seed %s: %s: %s' % (h.seed, 'did not end' if r.timeout else 'ended with %s' % r.rc, r.err[-1500:]), h.text)
            continue
        for line, name, want, last in h.expect:
            v = r.values.get(line)
            ck.count('watchers expected ' + MEANS[want])
            if v is None or not OK[want](*v[:2]):
                ck.violation('told' if want != 'nothing' else 'nothing', 'seed %s: after "%s" a client (%s) was told of %s changes and %s replacements, expected %s' % (
                    h.seed, last, name, v and v[0], v and v[1], MEANS[want]), h.text)
                break
            if len(v) > 2 and not v[2]:
                ck.violation('lost', 'seed %s: after "%s" a client (%s) has been given the wrong object' % (h.seed, last, name), h.text)
                break
    h = hs[0]
    ck.sample({'history': h.seed, 'lines': h.lines[-12:]})
    return ck.finish()


main(body)

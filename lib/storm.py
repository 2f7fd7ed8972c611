"""Histories in which queries are made concurrently, by several threads at once."""
import history
from drv import num


class Storm(history.History):
    """
    Each round of queries is made by a team of threads, in no particular order,
    several of them asking for the same things. `text` is the concurrent
    script, `ftext` that of one thread, alone, with every query on the same line.
    """
    def __init__(self, seed, steps, batch=(6, 24), threads=(2, 3, 4, 8), tag='c16', tol=(1e-2, 2e-3)):
        self.batch, self.tols = batch, tol
        self.marks = []       # lines of the script which are different when alone
        self.team = None
        super().__init__(seed, 0, tag)
        self.team = self.r.choice(threads)
        self.lines[1] = 'threads %d' % self.team
        self.lines[0] = 'tol %g' % self.r.choice(tol)
        self.nested = self.r.random() < 0.5
        self.lines.insert(2, 'nest %d' % (2 if self.nested else 1))
        self.asked = 0
        self.steps(steps)
        self.text = '\n'.join(self.lines) + '\n'
        alone = list(self.lines)
        alone[1] = 'threads 1'
        self.ftext = '\n'.join('#' if l.startswith('par ') else l for l in alone) + '\n'

    def queries(self, n):
        pass

    def settings(self):
        return 'team of %d%s' % (self.team, ', nested' if self.nested else '')

    def steps(self, steps):
        r = self.r
        for k in range(steps):
            if k > 0:
                for _ in range(r.choice([1, 1, 2])):
                    for _ in range(20):
                        c = self.change()
                        if c:
                            self.changes[c] = self.changes.get(c, 0) + 1
                            break
            n = r.randint(*self.batch)
            qs = []
            while len(qs) < n:
                x = self.query()
                if x is None:
                    break
                q = 'q %s %s %s' % (x[0], x[1].id, x[2])
                # several threads ask the same thing, or things which share much of what they need
                for _ in range(r.choice([1, 1, 2, 3])):
                    qs.append(q)
            r.shuffle(qs)
            if r.random() < 0.6:
                # start together on the same thing
                o = self.pick('struct') or self.pick('edp')
                if o.kind == 'struct':
                    qs = ['q struct %s %s' % (o.id, r.choice(['annual', 'total 0.5', 'annual', 'cost 0.5 1', 'deagg 0.5']))
                          for _ in range(r.randint(2, 6))] + qs
                else:
                    qs = ['q edp %s lambda %s' % (o.id, num(history.EDPS[1])) for _ in range(r.randint(2, 6))] + qs
            xs = [num(r.choice(history.IMS + history.EDPS)) for _ in range(r.randint(3, 12))]
            if r.random() < 0.7:
                o = self.pick('edp')
                qs.insert(r.randint(0, len(qs)), 'q edp %s %s %s' % (o.id, r.choice(['vlambda', 'vMean', 'vMedian', 'vSD', 'vSD_ln', 'vMeanLn']), ' '.join(xs)))
            if r.random() < 0.4:
                o = self.pick('im')
                qs.insert(r.randint(0, len(qs)), 'q im %s %s %s' % (o.id, r.choice(['vlambda', 'vcoll', 'vdem', 'vrep']), ' '.join(xs)))
            self.lines.append('par %d' % len(qs))
            self.lines += qs
            self.asked += len(qs)
            # and what each of them is, once they have finished
            for q in r.sample(qs, min(3, len(qs))):
                self.lines.append(q)
                self.asked += 1


def make(arg):
    return Storm(*arg[0], **arg[1])

"""C05: integration settings take effect, and statistics account for every integration."""
import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, drv, gen
from report import Check, main
from drv import num

# calls, successes, fails, nans, search fails, max int, total int, max search, total search
CALLS, OKS, FAILS, NANS, SFAILS, MAXI, TOTI, MAXS, TOTS = range(9)
NAMES = ['calls', 'successes', 'integration failures', 'nans', 'search failures', 'greatest integration',
         'total integration evaluations', 'greatest search', 'total search evaluations']
DEFAULTS = {'tol': 1e-3, 'evallimit': 2048.0, 'searchlimit': 2048.0, 'method': 4.0}
ORDER = ('tol', 'evallimit', 'searchlimit', 'method')


def same(a, b):
    return all(x == y or (x != x and y != y) for x, y in zip(a, b)) and len(a) == len(b)


def lu(r, a, b):
    return math.exp(r.uniform(math.log(a), math.log(b)))


def job(r):
    """An integration: found or not, converging or not, defined or not"""
    fam = r.choice(['lognormal', 'exp', 'gamma', 'halfnormal', 'zero', 'lognormal', 'box', 'hash'])
    A, m, s = lu(r, 1e-3, 1e3), lu(r, 0.05, 20), r.uniform(1, 5)
    if fam == 'lognormal':
        m, s = math.log(m), r.uniform(0.2, 1)
    opt, k = '-', 0
    if r.random() < 0.25:
        opt, k = r.choice(['nan', 'nanlow', 'nanwin']), lu(r, 0.01, 20)
    return 'q maq %s %s %s %s %s %s' % (fam, opt, num(A), num(m), num(s), num(k))


def settings_op(r, st):
    """A change of settings: lines, and the settings expected after it"""
    st = dict(st)
    x = r.random()
    if x < 0.12:
        return 'reset', dict(DEFAULTS)
    k = r.choice(ORDER)
    if x < 0.24:
        st[k] = DEFAULTS[k]
        return 'usedefault %s' % k, st
    if x < 0.36 and k != 'method':
        return {'tol': r.choice(['tol 0', 'tol -1e-3', 'tol nan']), 'evallimit': 'evallimit 0', 'searchlimit': 'searchlimit 0'}[k], st
    v = {'tol': r.choice([1e-2, 1e-4, 1e-5, lu(r, 1e-6, 0.5)]), 'evallimit': r.choice([1, 10, r.randint(5, 200), 10000, 3000000000]),
         'searchlimit': r.choice([1, 3, r.randint(3, 300), 10000, 4000]), 'method': r.randrange(5)}[k]
    if k == 'searchlimit' and v == 10000 and st['evallimit'] > 1e6:
        v = 9000
    st[k] = float(v)
    return '%s %s' % (k, num(v)), st


def script(st):
    return ['tol %s' % num(st['tol']), 'evallimit %d' % st['evallimit'], 'searchlimit %d' % st['searchlimit'], 'method %d' % st['method']]


class History:
    def __init__(self, seed):
        r = random.Random('c05 %s' % (seed,))
        self.seed = seed
        self.lines, self.st = [], dict(DEFAULTS)
        self.settings, self.jobs, self.stats, self.fmt = [], [], [], []
        self.batch, self.batches = [], []
        threads = r.choice([1, 2, 3, 4, 8])
        self.threads = threads
        self.lines.append('threads %d' % threads)
        self.lines.append('resetstats')
        for _ in range(r.randint(10, 30)):
            for _ in range(r.randint(0, 3)):
                l, self.st = settings_op(r, self.st)
                self.lines.append(l)
                self.lines.append('q get - settings')
                self.settings.append((len(self.lines), l, dict(self.st)))
            # an unlimited evaluation of something which doesn't converge takes too long
            if self.st['evallimit'] > 1e6 and r.random() < 0.9:
                l, self.st['evallimit'] = 'evallimit 5000', 5000.0
                self.lines.append(l)
            if self.st['evallimit'] <= 1e6:
                if r.random() < 0.4:
                    n = r.randint(2, 24)
                    self.lines.append('par %d' % n)
                else:
                    n = r.randint(1, 4)
                for _ in range(n):
                    self.lines.append(job(r))
                    self.jobs.append((len(self.lines), self.lines[-1], dict(self.st)))
                    self.batch.append(len(self.jobs) - 1)
            if r.random() < 0.5:
                self.lines.append('q get - stats')
                self.stats.append((len(self.lines), list(self.batch), dict(self.st)))
                self.lines.append('q get - format')
                self.fmt.append((len(self.lines), len(self.lines) - 1))
            if r.random() < 0.2:
                self.lines.append('resetstats')
                self.batch = []
        self.text = '\n'.join(self.lines) + '\n'
        # each integration alone, in a new process with nothing but its settings
        alone, self.alone_at, prev = [], [], None
        for line, q, st in self.jobs:
            if st != prev:
                alone += ['reset'] + script(st)
                prev = st
            alone += ['resetstats', q, 'q get - stats']
            self.alone_at.append(len(alone))
        self.alone = '\n'.join(alone) + '\n'


def judge(ck, h, r, r1):
    for x, what, text in ((r, 'history', h.text), (r1, 'one by one', h.alone)):
        if x.crashed():
            ck.violation('termination', 'seed %s %s: %s %s' % (h.seed, what, 'no answer' if x.timeout else 'ended with %s' % x.rc, x.err[-600:]), text)
            return
    ck.case(h.seed)
    ck.count('histories with %d threads' % h.threads)
    for line, l, st in h.settings:
        ck.count('settings read back')
        want = [st[k] for k in ORDER]
        if r.values.get(line) != want:
            ck.violation('settings', 'seed %s: after "%s" the settings are %s, should be %s' % (h.seed, l, r.values.get(line), want), h.text)
            return
    one = []
    for (line, q, st), at in zip(h.jobs, h.alone_at):
        got, alone, s1 = r.values.get(line), r1.values.get(at - 1), r1.values.get(at)
        ck.count('integrations')
        if got is None or alone is None or s1 is None:
            ck.violation('exception', 'seed %s: %s: %s' % (h.seed, q, r.errors.get(line) or r1.errors.get(at - 1)), h.text)
            return
        if not same(got, alone):
            ck.violation('settings effect', 'seed %s: "%s" under %s gives %s, but %s with the same settings and nothing before' % (
                h.seed, q, st, got, alone), h.text)
            return
        one.append(s1)
        I, ok, ev, actual, nans = alone
        out = s1[OKS:SFAILS + 1]
        kind = 'success' if s1[OKS] else 'search' if s1[SFAILS] else 'nan' if s1[NANS] else 'fail'
        ck.count('outcome: ' + kind)
        good = s1[CALLS] == 1 and sum(out) == 1 and all(v in (0, 1) for v in out)
        good &= (kind in ('success', 'search')) == bool(ok) and (kind == 'nan') == (nans > 0)
        good &= kind != 'search' or (I == 0 and s1[TOTS] == actual == ev and s1[TOTI] == 0)
        good &= kind == 'search' or s1[TOTI] == ev
        good &= s1[MAXI] == (ev if kind == 'success' else 0)
        good &= s1[TOTS] <= actual and s1[TOTS] <= max(st['searchlimit'], 2) + 2
        good &= s1[MAXS] == (s1[TOTS] if kind in ('success', 'fail') else 0) or kind == 'nan'
        good &= s1[9:] == [st[k] for k in ORDER]
        if not good:
            ck.violation('statistics', 'seed %s: "%s" alone gives %s (%d evaluations counted), statistics %s' % (
                h.seed, q, alone, actual, dict(zip(NAMES, s1))), h.alone)
            return
    for line, batch, st in h.stats:
        ck.count('statistics compared')
        b = [one[k] for k in batch]
        want = [sum(s[i] for s in b) if i not in (MAXI, MAXS) else max([s[i] for s in b] + [0]) for i in range(9)]
        got = r.values.get(line)
        if got is None or got[:9] != want or got[9:] != [st[k] for k in ORDER]:
            ck.violation('statistics', 'seed %s: after %d integrations (%d threads) the statistics are %s, should be %s' % (
                h.seed, len(b), h.threads, got, want + [st[k] for k in ORDER]), h.text)
            return
        ck.sample({'seed': h.seed, 'integrations': len(b), 'threads': h.threads, 'statistics': dict(zip(NAMES, got))})
    for line, stat in h.fmt:
        ck.count('printed statistics compared')
        got, s = r.values.get(line), r.values.get(stat)
        want = [s[CALLS], s[OKS], s[FAILS], s[NANS], s[SFAILS], s[MAXI], s[TOTI], s[TOTS], s[9], s[10], s[11]]
        if got is None or any(abs(a - b) > 1e-4 * abs(b) for a, b in zip(got, want) if True) or any(a != a for a in got):
            ck.violation('printed statistics', 'seed %s: printed %s, should be %s' % (h.seed, got, want), h.text)
            return


def storms(ck, exe, n, each):
    """Statistics of many concurrent integrations"""
    r = random.Random('storm %d' % ck.seed)
    for i in range(n):
        threads = r.choice([2, 4, 8, 16])
        nint = r.choice([each // 4, each])
        sl = r.choice([2, 4, 60])
        text = '\n'.join(['method %d' % r.randrange(5), 'tol %g' % r.choice([0.5, 1e-2, 1e-4]), 'searchlimit %d' % sl, 'evallimit %d' % r.choice([6, 200, 2000]),
                          'resetstats', 'q maq lognormal storm %d %d 1 %s 0.5' % (nint, threads, num(r.uniform(-1, 1))), 'q get - stats']) + '\n'
        x = drv.run_many(exe, [text], threads=threads)[0]
        if x.crashed():
            ck.violation('termination', 'storm: %s' % ('no answer' if x.timeout else x.err[-500:]), text)
            continue
        got, s = x.values.get(6), x.values.get(7)
        ck.case(('storm', i, text))
        ck.count('concurrent integrations accounted for', int(got[0]))
        calls, good, zero, fail, total, most = got
        want = [calls, good, fail, zero, most, total]
        have = [s[CALLS], s[OKS], s[FAILS] + s[NANS], s[SFAILS], s[MAXI], s[TOTI]]
        if want != have:
            ck.violation('concurrent statistics', '%d integrations by %d threads: recorded calls, successes, unsuccessful, search failures, greatest, total %s; made %s' % (
                nint, threads, have, want), text)


def models(ck, exe, n):
    """The statistics of model queries: every call has one outcome"""
    jobs = []
    for k in range(n):
        g = gen.Gen(hash((ck.seed, k)) & 0xffffffff)
        lines = []
        em = gen.Emit(lambda f, *a: lines.append(f % a if a else f), g)
        s = g.structure()
        i = em.structure(s)
        lines += ['threads %d' % g.r.choice([1, 4]), 'tol %g' % g.r.choice([1e-2, 1e-3, 1e-9]), 'evallimit %d' % g.r.choice([20, 2048]), 'resetstats']
        lines += ['q struct %s annual' % i, 'q struct %s total %s' % (i, num(g.u(0.01, 2))), 'q get - stats']
        jobs.append('\n'.join(lines) + '\n')
    for text, x in zip(jobs, drv.run_many(exe, jobs, threads=2)):
        if x.crashed():
            ck.violation('termination', 'model: %s' % ('no answer' if x.timeout else x.err[-500:]), text)
            continue
        s = x.values[max(x.values)]
        ck.case(('model', text))
        ck.count('integrations within models', int(s[CALLS]))
        if s[CALLS] != sum(s[OKS:SFAILS + 1]) or not s[CALLS]:
            ck.violation('conservation', 'statistics of a model\'s queries don\'t add up: %s' % dict(zip(NAMES, s)), text)


def body():
    ck = Check('C05', 'each case is a history of settings changes, integrations (serial and concurrent) and statistics, or a storm of concurrent integrations; histories are distinct')
    ck.assumptions = ['integrands which throw have no outcome, and are not included',
                      'the statistics of histories are compared with sums and maxima of those of each integration made alone']
    exe = build.driver('plain')
    hs = [History((ck.seed, k)) for k in range(1500 if ck.thorough else 120)]
    rs = drv.run_many(exe, [h.text for h in hs])
    r1 = drv.run_many(exe, [h.alone for h in hs])
    for h, a, b in zip(hs, rs, r1):
        judge(ck, h, a, b)
    storms(ck, exe, 60 if ck.thorough else 12, 100000 if ck.thorough else 20000)
    models(ck, exe, 400 if ck.thorough else 40)
    return ck.finish()


main(body)

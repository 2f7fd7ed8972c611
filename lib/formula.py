"""
Differential monitor: run generated models through the driver, and compare every
value it records with the independent reference.

Integration is iterative, and only promises its tolerance when it converges; a
value which differs from the reference only counts if it does so under every
one of several settings (methods and tolerances).
"""
import math, multiprocessing, os
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
import build, drv
from report import Check

# (tolerance, evaluation limit, search limit, method)
TIGHT = [(1e-5, 100000, 100000, None), (1e-6, 200000, 200000, None), (1e-6, 200000, 200000, 0),
         (1e-6, 200000, 200000, 1), (1e-5, 200000, 200000, 3)]


class Case:
    """One script: lines which build a model, and queries with what is expected"""
    def __init__(self, seed, label=''):
        self.seed, self.label = seed, label
        self.lines = []
        self.expect = []      # (line index, tag, want, rtol, atol, note)
        self.settings = True
        self.nontrivial = True
        self.threads = (1, 1, 4, 3)[seed % 4]

    def __call__(self, fmt, *a):
        self.lines.append(fmt % a if a else fmt)
        return len(self.lines)

    def q(self, text, tag, want, rtol=0.01, atol=1e-12, note=None):
        """want: list of values (None: anything), or 'error'"""
        n = self('q ' + text)
        self.expect.append((n, tag, want, rtol, atol, note))
        return n

    def text(self, s):
        pre = []
        if self.settings:
            pre = ['tol %g' % s[0], 'evallimit %d' % s[1], 'searchlimit %d' % s[2]]
            if s[3] is not None:
                pre.append('method %d' % s[3])
        pre += ['#'] * (4 - len(pre))
        return '\n'.join(pre + self.lines) + '\n'


def close(a, b, rtol, atol):
    if b != b:
        return a != a
    if a != a:
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * abs(b)


def mismatches(case, r):
    """{(line, component): (tag, got, want, note)}"""
    bad = {}
    for n, tag, want, rtol, atol, note in case.expect:
        line = n + 4
        if line not in r.values:
            if want == 'error' and line in r.errors:
                continue
            bad[(n, -1)] = (tag, r.errors.get(line, 'no result'), want, note)
            continue
        if want == 'error':
            bad[(n, -1)] = (tag, r.values[line], 'an exception', note)
            continue
        got = r.values[line]
        if len(got) != len(want):
            bad[(n, -1)] = (tag, got, want, note)
            continue
        for k, (a, b) in enumerate(zip(got, want)):
            if b is None:
                continue
            rt = rtol[k] if isinstance(rtol, (list, tuple)) else rtol
            at = atol[k] if isinstance(atol, (list, tuple)) else atol
            if not close(a, b, rt, at):
                bad[(n, k)] = (tag, a, b, note)
    return bad


def make_all(make, seeds):
    """Build the cases (with their expected values) in parallel"""
    with multiprocessing.Pool(os.cpu_count() or 4) as p:
        return p.map(make, seeds, chunksize=4)


def run(check, cases, exe, settings=TIGHT, timeout=60, threads=None, explain=None):
    """explain(case, n, k, tag, got, want, note) -> key of a known finding, or None"""
    confirmed = []

    def level(i, todo):
        """Those which differ from the reference, still"""
        s = settings[i]
        res = drv.run_many(exe, [c.text(s) for c, _ in todo], timeout=timeout, threads=threads,
                           env=[{} if threads else {'OMP_NUM_THREADS': str(c.threads)} for c, _ in todo])
        nxt = []
        for (c, bad0), r in zip(todo, res):
            if r.crashed():
                check.violation('crash', 'seed %s %s: driver ended with %s: %s' % (c.seed, c.label, r.rc, r.err[-1500:]), c.text(s))
                continue
            bad = mismatches(c, r)
            if i == 0:
                observe(c, r, bad)
            for k in sorted(bad):
                tag, got, want, note = bad[k]
                key = explain(c, k[0], k[1], tag, got, want, note) if explain else None
                if key:
                    check.violation(key, 'seed %s %s' % (c.seed, c.lines[k[0] - 1]), '')
                    del bad[k]
            if bad0 is not None:
                for k in bad0:
                    if k not in bad:
                        check.count('not converged at first, confirmed by other settings')
                bad = {k: v for k, v in bad.items() if k in bad0}
            if bad and c.settings and i + 1 < len(settings):
                nxt.append((c, bad))
            elif bad:
                confirmed.append(c.seed)
                for (n, k), (tag, got, want, note) in sorted(bad.items())[:5]:
                    check.violation('value:' + tag, 'seed %s %s: "%s" value %d is %s, expected %s %s' % (
                        c.seed, c.label, c.lines[n - 1], k, got, want, note or ''), c.text(s))
        return nxt

    def observe(c, r, bad):
        check.case((c.seed, c.label), c.nontrivial)
        check.count('models')
        check.count('models run by %d threads' % (threads or c.threads))
        for n, tag, want, rtol, atol, note in c.expect:
            got = r.values.get(n + 4)
            check.count('compared: ' + tag, len(want) if want != 'error' else 1)
            if got is not None and want != 'error' and len(got) == len(want):
                for k, (a, b) in enumerate(zip(got, want)):
                    if b is None or (n, k) in bad or not math.isfinite(b):
                        continue
                    rt = rtol[k] if isinstance(rtol, (list, tuple)) else rtol
                    at = atol[k] if isinstance(atol, (list, tuple)) else atol
                    lim = at + rt * abs(b)
                    if lim > 0:
                        check.err(tag, abs(a - b) / lim)
        if len(check.samples) < 3 and c.expect:
            n, tag, want, *_ = c.expect[len(c.expect) // 2]
            check.sample({'seed': c.seed, 'query': c.lines[n - 1], 'observed': r.values.get(n + 4, r.errors.get(n + 4)),
                          'expected': want})

    doubtful = level(0, [(c, None) for c in cases])
    # (when there are many, some will do)
    while doubtful and not confirmed:
        todo, doubtful = doubtful[:6], doubtful[6:]
        for i in range(1, len(settings)):
            if todo:
                todo = level(i, todo)

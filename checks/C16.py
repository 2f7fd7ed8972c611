"""C16: concurrent queries are free of races, and give what one thread gives."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, drv, formula, harness, storm
from report import Check, main


def same(a, b):
    return len(a) == len(b) and all((x != x and y != y) or x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y)) for x, y in zip(a, b))


def compare(ck, label, hs, alone, together):
    for h, a, b in zip(hs, alone, together):
        ck.case((label, h.seed, b.schedule[0] if b.schedule else 0))
        ck.count(label + ': histories, ' + h.settings())
        races = drv.tsan_races(b.err)
        for where, rep in races[:2]:
            ck.violation('race:' + where, '%s, seed %s: %s' % (label, h.seed, where), h.text + '\n' + rep)
        if a.crashed():
            ck.violation('crash', '%s, seed %s, by one thread: ended with %s: %s' % (label, h.seed, a.rc, a.err[-1500:]), h.ftext)
            continue
        if b.rc == 96:
            ck.violation('wedged', '%s, seed %s: %s' % (label, h.seed, b.err[-600:]), h.text)
            continue
        if b.crashed() and not (b.rc == 97 and b.complete):
            ck.violation('crash', '%s, seed %s: ended with %s: %s' % (label, h.seed, b.rc, b.err[-1500:]), h.text)
            continue
        for n in sorted(set(a.values) | set(b.values) | set(a.errors) | set(b.errors)):
            ck.count(label + ': results compared')
            x, y = a.values.get(n, a.errors.get(n)), b.values.get(n, b.errors.get(n))
            if isinstance(x, list) and isinstance(y, list):
                if all(v == v for v in x):
                    ck.count(label + ': defined results')
                if same(x, y):
                    continue
            elif x is not None and y is not None and not isinstance(x, list) and not isinstance(y, list):
                continue
            ck.violation('value', '%s, seed %s (%s): line %d "%s" gives %s; one thread gets %s' % (label, h.seed, h.settings(), n, h.lines[n - 1], y, x), h.text)
            break
        if b.schedule:
            ck.count(label + ': switches between threads', b.schedule[1])
            ck.count(label + ': points at which threads could switch', b.schedule[2])
            ck.distinct.setdefault(label, set()).add(b.schedule[0])


def body():
    ck = Check('C16', 'each case is a history of changes and rounds of concurrent queries, compared with the same queries made by one thread; scheduled ones distinct by interleaving')
    ck.assumptions = ['changes are made between rounds of queries, not during them',
                      'scheduled: threads switch at synchronising operations only']
    ck.distinct = {}
    n = 10 if ck.thorough else 1
    plain = build.driver('plain')
    s = ck.seed

    hs = formula.make_all(storm.make, [(((s, 'free', k), 8), {}) for k in range(300 * n)])
    alone = drv.run_many(plain, [h.ftext for h in hs])
    compare(ck, 'free', hs, alone, drv.run_many(plain, [h.text for h in hs], threads=2))

    small = {'batch': (3, 8), 'threads': (2, 3, 4), 'tol': (0.05, 0.01)}
    exe = harness.optional(ck, 'slatdrv', 'tsan')
    if exe:
        hs = formula.make_all(storm.make, [(((s, 'raced', k), 3), small) for k in range(160 * n)])
        alone = drv.run_many(plain, [h.ftext for h in hs])
        compare(ck, 'raced', hs, alone, drv.run_many(exe, [h.text for h in hs], threads=2, env={'MG_DELAY': '1'}))
    exe = harness.optional(ck, 'slatdrv', 'sched')
    if exe:
        hs = formula.make_all(storm.make, [(((s, 'scheduled', k), 3), small) for k in range(60 * n)])
        alone = drv.run_many(plain, [h.ftext for h in hs])
        for rep in range(8):
            envs = [{'SLATDRV_SCHEDULE': '%d,%d,%d' % (s * 100003 + 8 * k + rep, rep % 2, 1 + (k + rep) % 6)} for k in range(len(hs))]
            compare(ck, 'scheduled', hs, alone, drv.run_many(exe, [h.text for h in hs], env=envs))
        ck.count('scheduled: distinct interleavings', len(ck.distinct.get('scheduled', ())))
    h = hs[0]
    ck.sample({'seed': h.seed, 'setting': h.settings(), 'lines': h.lines[-8:]})
    return ck.finish()


main(body)

"""C12: after any change, results are those of a model built afresh."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, drv
from history import History
from report import Check, main

def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != x or y != y:
            if (x == x) != (y == y):
                return False
        elif abs(x - y) > 1e-9 * max(abs(x), abs(y)):
            return False
    return True


def make(arg):
    return History(*arg)


def body():
    ck = Check('C12', 'each case is a history of changes to a model, with every query repeated on a model built from scratch (in a process of its own) in the state at that point; distinct histories')
    ck.assumptions = ['model sizes: up to 2 IMs, 3-6 EDPs and groups, 2 structures to start with', 'groups of a structure stay on its intensity measure']
    import formula
    hs = formula.make_all(make, [((ck.seed, k), 60 if ck.thorough else 16) for k in range(2000 if ck.thorough else 200)])
    exe = build.driver('plain')
    rs = drv.run_many(exe, [h.text for h in hs])
    rf = drv.run_many(exe, [h.ftext for h in hs])
    for h, a, b in zip(hs, rs, rf):
        ck.case(h.seed)
        for k, n in h.changes.items():
            ck.count('change: ' + k, n)
        bad = None
        for x, what in ((a, 'history'), (b, 'fresh')):
            if x.crashed():
                ck.violation('crash', 'seed %s: %s %s: %s' % (h.seed, what, 'did not end' if x.timeout else 'ended with %s' % x.rc, x.err[-1500:]),
                             h.text if what == 'history' else h.ftext)
                bad = True
        if bad:
            continue
        prev = {}
        for la, lb, what, last in h.pairs:
            va, vb = a.values.get(la), b.values.get(lb)
            ck.count('compared: ' + what)
            if va is None or vb is None:
                if (va is None) != (vb is None) or a.errors.get(la) != b.errors.get(lb):
                    ck.violation('value', 'seed %s: "%s" after %s: %s; built afresh: %s' % (
                        h.seed, h.lines[la - 1], last, va or a.errors.get(la), vb or b.errors.get(lb)), h.text)
                    break
                ck.count('exceptions alike')
                continue
            if any(math.isfinite(v) for v in vb):
                ck.count('with finite values')
            q = h.lines[la - 1]
            if q in prev and not same(prev[q], va):
                ck.count('results which a change had changed')
            prev[q] = va
            if not same(va, vb):
                ck.violation('value:' + what.split()[0], 'seed %s: line %d "%s" after %s: %s; a model built afresh has %s' % (
                    h.seed, la, q, last, va, vb), h.text + '\n--- afresh (line %d)\n' % lb + h.ftext)
                break
        if h.pairs:
            la, lb, what, last = h.pairs[-1]
            ck.sample({'seed': h.seed, 'query': h.lines[la - 1], 'after': last, 'value': a.values.get(la), 'afresh': b.values.get(lb)})
    return ck.finish()


main(body)

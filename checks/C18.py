"""C18: the Python interface computes what the C++ library computes."""
import math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, drv, formula, pybuild, pyhist, pyhostile, pyrun
from report import Check, main


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif x != x or y != y:
            if (x == x) != (y == y):
                return False
        elif x != y and abs(x - y) > 1e-9 * max(abs(x), abs(y)):
            return False
    return True


def expected(v, how):
    """What the interface should give, where the library gives v"""
    if how == 'first2':
        return v[:2]
    if how == 'last3':
        return v[-3:]
    if how and how[0] == 'npv':
        t, l = how[1:]
        return [v[0] * (t if l == 0 else (1 - math.exp(-l * t)) / l)]
    return v


def judge(ck, label, h, p, f):
    if p.crashed():
        ck.violation('crash', '%s, seed %s: Python ended with %s: %s' % (label, h.seed, p.rc, p.err[-1500:]), pyrun.script(h.steps))
        return
    if f.crashed():
        ck.violation('crash', '%s, seed %s: C++ %s: %s' % (label, h.seed, f.rc, f.err[-1500:]), h.ftext)
        return
    asked = {x[0] for x in h.pairs}
    for n, e in sorted(p.errors.items()):
        if n not in asked:
            ck.violation('refused', '%s, seed %s: step %d "%s" raised %s' % (label, h.seed, n, h.steps[n - 1][1], e), pyrun.script(h.steps[:n]))
            return
    for n, line, what, how in h.pairs:
        got = p.tokens.get(n)
        ck.count('compared: ' + what)
        if line is None:
            want = how
        else:
            want = f.values.get(line)
            if want is not None:
                want = expected(want, how)
                if any(math.isfinite(v) for v in want):
                    ck.count('with finite values')
        if want is None and got is None:
            ck.count('exceptions alike')
            continue
        if want is None or got is None or not same(got, want):
            ck.violation('value:' + what.split()[0], '%s, seed %s: step %d "%s" gives %s; the library gives %s' % (
                label, h.seed, n, h.steps[n - 1][1], got if got is not None else p.errors.get(n),
                want if want is not None else f.errors.get(line)), pyrun.script(h.steps[:n]) + '\n--- afresh (line %s)\n' % line + h.ftext)
            return


def body():
    ck = Check('C18', 'each case is a history of definitions, redefinitions and queries in Python, each query compared with a model built afresh in C++ in the state at that point; distinct histories')
    ck.assumptions = ['compound demands use the demand models their parts had when they were made',
                      'groups of a structure stay on its intensity measure', 'settings are made before the first query']
    k = 8 if ck.thorough else 1
    hs = formula.make_all(pyhist.make, [((ck.seed, i), 14) for i in range(220 * k)])
    module = pybuild.module('plain')
    exe = build.driver('plain')
    one = [h for h in hs if h.threads == 1]
    more = [h for h in hs if h.threads > 1]
    rp = pyrun.run_many(module, [h.steps for h in one]) + pyrun.run_many(module, [h.steps for h in more], threads=3)
    rf = drv.run_many(exe, [h.ftext for h in one + more])
    for h, p, f in zip(one + more, rp, rf):
        ck.case(h.seed)
        for c, n in h.counts.items():
            ck.count(c, n)
        judge(ck, 'plain', h, p, f)
        ck.sample({'seed': h.seed, 'steps': [s[1] for s in h.steps[-3:]], 'observed': p.tokens.get(h.pairs[-1][0])})
    # memory errors, and anything which ends the process rather than raising an exception
    asan = pybuild.module('asan')
    some = one[:40 * k]
    for h, p, f in zip(some, pyrun.run_many(asan, [h.steps for h in some], variant='asan'), rf):
        ck.case(('asan', h.seed))
        judge(ck, 'AddressSanitizer', h, p, f)
    kinds = set()
    jobs = formula.make_all(pyhostile.make, [((ck.seed, i), 120) for i in range(64 * k)])
    for i, ((steps, counts), p) in enumerate(zip(jobs, pyrun.run_many(asan, [j[0] for j in jobs], variant='asan', timeout=200))):
        ck.case(('hostile', i))
        ck.count('hostile: calls which gave something', len(p.tokens))
        ck.count('hostile: calls which raised an exception', len(p.errors))
        kinds |= set(counts)
        for e in p.errors.values():
            ck.count('hostile: ' + e.split(':')[0])
        if p.crashed():
            ck.violation('crash', 'hostile, seed %s: Python ended with %s: %s' % (i, p.rc, p.err[-1500:]), pyrun.script(steps))
    ck.count('hostile: kinds of call', len(kinds))
    return ck.finish()


main(body)

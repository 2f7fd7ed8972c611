"""C21: invalid definitions and requests are refused and change nothing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, drv, formula, pybuild, pyrun, refuse
from report import Check, main


def same(a, b):
    return len(a) == len(b) and all(x == y or (isinstance(x, float) and isinstance(y, float) and ((x != x and y != y) or (
        abs(x - y) <= 1e-12 * max(abs(x), abs(y))))) for x, y in zip(a, b))


def judge(ck, label, h, steps, refused, a, b, va, vb, script, show):
    """a: with the refused steps; b: without"""
    for r, what in ((a, 'with'), (b, 'without')):
        if r.crashed():
            ck.violation('crash', '%s, seed %s, %s the invalid steps: ended with %s: %s' % (label, h.seed, what, r.rc, r.err[-1500:]), script(len(steps)))
            return
    for n, what in sorted(refused.items()):
        if n not in a.errors:
            if what.startswith('ignored'):
                ck.count('left as it was: ' + what)
                continue
            ck.violation('accepted:' + what, '%s, seed %s: step %d "%s" (%s) was accepted' % (label, h.seed, n, show(n), what), script(n))
            return
        ck.count('refused: ' + what)
    since = None
    for n in range(1, len(steps) + 1):
        if n in refused:
            since = n
            continue
        x, y, e, f = va.get(n), vb.get(n), a.errors.get(n), b.errors.get(n)
        if x is None and y is None and e is None and f is None:
            continue
        ck.count('observations compared')
        if since:
            ck.count('observations after a refusal')
        if (e is None) != (f is None) or (x is None) != (y is None) or (x is not None and not same(x, y)):
            ck.violation('changed', '%s, seed %s: step %d "%s" gives %s after step %s "%s" (%s) was refused; without that, %s' % (
                label, h.seed, n, show(n), x if x is not None else e, since, show(since) if since else '', refused.get(since), y if y is not None else f), script(n))
            return


def body():
    ck = Check('C21', 'each case is a history with invalid definitions and requests among valid ones, run with and without them; every one must raise an exception, and all observations be the same; distinct histories')
    ck.assumptions = ['one thread', 'tolerances and limits which are not positive are ignored, with a message in the log rather than an exception']
    k = 8 if ck.thorough else 1
    hs = formula.make_all(refuse.make_py, [((ck.seed, i), 12) for i in range(160 * k)])
    for h in hs:
        h.plain = h.without()
    for variant, some in (('plain', hs), ('asan', hs[:24 * k])):
        module = pybuild.module(variant)
        ra = pyrun.run_many(module, [h.steps for h in some], variant=variant)
        rb = pyrun.run_many(module, [h.plain for h in some], variant=variant)
        for h, a, b in zip(some, ra, rb):
            ck.case(('py', variant, h.seed))
            judge(ck, 'Python', h, h.steps, {**h.refused, **h.ignored}, a, b, a.tokens, b.tokens, lambda n: pyrun.script(h.steps[:n]), lambda n: h.steps[n - 1][1])
    ck.sample({'seed': hs[0].seed, 'refused': [hs[0].steps[n - 1][1] for n in sorted(hs[0].refused)][:10]})
    cs = formula.make_all(refuse.make_cpp, [((ck.seed, i), 14) for i in range(160 * k)])
    for variant, some in (('plain', cs), ('asan', cs[:40 * k])):
        exe = build.driver(variant)
        ra = drv.run_many(exe, [h.text for h in some])
        rb = drv.run_many(exe, [h.without for h in some])
        for h, a, b in zip(some, ra, rb):
            ck.case(('c++', variant, h.seed))
            judge(ck, 'C++', h, h.lines, h.refused, a, b, a.values, b.values, lambda n: '\n'.join(h.lines[:n]) + '\n', lambda n: h.lines[n - 1])
    return ck.finish()


main(body)

"""C17: each thread has its own context."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, drv, formula, harness, storm
from report import Check, main


def body():
    ck = Check('C17', 'each case is an episode of nested scopes and teams, every thread comparing what it reports with its own record (or a storm of queries, each leaving the context as it found it); scheduled episodes distinct by interleaving')
    ck.assumptions = ['threads are those of OpenMP teams, up to three deep',
                      'the text of each context is compared, not the separators between them']
    n = 10 if ck.thorough else 1
    s = ck.seed * 1000
    plain = build.harness('ctxtest', 'plain')
    harness.collect(ck, 'first use', plain, [(s + i, 2, 'lazy') for i in range(200 * n)], 60, workers=4)
    harness.collect(ck, 'free', plain, [(s + i, 200) for i in range(8 * n)], 150, workers=4)
    harness.collect(ck, 'sanitized', build.harness('ctxtest', 'asan'), [(s + 100 + i, 40) for i in range(4 * n)], 150, workers=4)
    for v, label, m, lazy in (('sched', 'scheduled', 100, 80), ('tsan', 'raced', 30, 24)):
        exe = harness.optional(ck, 'ctxtest', v)
        if exe:
            harness.collect(ck, label, exe, [(s + 300 + i, m) for i in range(8 * n)], 150, {'MG_DELAY': '1'}, workers=8)
            harness.collect(ck, label + ', first use', exe, [(s + 400 + i, 2, 'lazy') for i in range(lazy * n)], 60, {'MG_DELAY': '1'}, workers=8)
    hs = formula.make_all(storm.make, [(((ck.seed, k), 5), {'tag': 'c17'}) for k in range(1000 if ck.thorough else 100)])
    for h, r in zip(hs, drv.run_many(build.driver(), [h.text for h in hs], threads=4, env={'SLATDRV_CTX': '1'})):
        ck.case(('queries', h.seed))
        if r.crashed() or not r.contexts:
            ck.violation('crash', 'queries, seed %s: ended with %s: %s' % (h.seed, r.rc, r.err[-1500:]), h.text)
            continue
        ck.count('queries with their contexts compared', r.contexts[0])
        if r.contexts[1]:
            ck.violation('query', 'seed %s: a query changed the context of its thread: %s' % (h.seed, r.err[-600:]), h.text)
    return ck.finish()


main(body)

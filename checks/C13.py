"""C13: a cache computes each value once, returns it to everyone, and never wedges."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, harness
from report import Check, main


def body():
    ck = Check('C13', 'each case is an episode of concurrent reads, clears and failing computations of a few caches; for the scheduled harness, distinct by interleaving')
    ck.assumptions = ['computations don\'t read the cache they are for (no cycles)',
                      'scheduled: threads switch at locks and within computations, so what happens between is atomic there; the free-running and sanitized harnesses don\'t have that limit']
    n = 10 if ck.thorough else 1
    base = ck.seed * 1000
    plain = build.harness('cachetest', 'plain')
    harness.collect(ck, 'free', plain, [(base + 100 + i, 20000) for i in range(8 * n)], 250, workers=4)
    exe = harness.optional(ck, 'cachetest', 'sched')
    if exe:
        harness.collect(ck, 'scheduled', exe, [(base + i, 20000) for i in range(8 * n)], 250)
    exe = harness.optional(ck, 'cachetest', 'tsan', ('RELAXED',))
    if exe:
        harness.collect(ck, 'sanitized', exe, [(base + 200 + i, 4000, 'unjudged') for i in range(8 * n)], 250, {'MG_DELAY': '1'}, workers=4)
    return ck.finish()


main(body)

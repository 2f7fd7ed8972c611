"""C15: no use of the interface makes the library misuse memory."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, drv, formula, hostile
from report import Check, main

ENV = {'SLATDRV_LENIENT': '1'}


def what(err):
    for p in (r'SUMMARY: \w+Sanitizer: (.*)', r'(runtime error: .*)', r"(Assertion '.*' failed)", r'(Error: .*)', r'terminate called (.*)',
              r'== +((?:Invalid|Conditional|Use of|Process terminating).*)'):
        m = re.search(p, err)
        if m:
            return re.sub(r'0x[0-9a-f]+', '', re.sub(r'\S*/', '', m.group(1)))[:150]
    return 'ended abnormally'


def valgrind(exe, h):
    """Reads of uninitialised memory, which AddressSanitizer doesn't see"""
    try:
        p = subprocess.run(['valgrind', '-q', '--error-exitcode=55', '--leak-check=no', exe], input=h.text, text=True, errors='replace',
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, OMP_NUM_THREADS='1', **ENV), timeout=250)
    except subprocess.TimeoutExpired:
        return None
    return p


def body():
    ck = Check('C15', 'each case is a script of operations, with wild arguments, in any order, run to the destruction of everything under one instrumentation; distinct by script and instrumentation')
    ck.assumptions = ['integrations limited to 300 evaluations', 'changes are made by one thread, and queries by teams of up to 8',
                      'uninitialised memory: valgrind, one thread']
    n = 12 if ck.thorough else 1
    for variant, count, steps in (('asan', 420, 60), ('asserts', 160, 60), ('plain', 300, 60)):
        hs = formula.make_all(hostile.make, [((ck.seed, variant, k), steps) for k in range(count * n)])
        for h, r in zip(hs, drv.run_many(build.driver(variant), [h.text for h in hs], env=ENV)):
            ck.case((variant, h.seed))
            ck.count(variant + ': scripts')
            ck.count(variant + ': operations', len(h.lines))
            ck.count(variant + ': values', len(r.values))
            ck.count(variant + ': exceptions', len(r.errors))
            for k, m in h.ops.items():
                ck.count(k, m)
            if r.crashed():
                ck.violation(what(r.err), '%s, script %s: ended with %s: %s: %s' % (variant, h.seed, r.rc, what(r.err), r.err[-1500:]), h.text + '\n--- ' + r.err)
    exe = build.driver('plain')
    hs = formula.make_all(hostile.make, [((ck.seed, 'valgrind', k), 30, None, 1) for k in range(24 * n)])
    with ThreadPoolExecutor(max_workers=os.cpu_count()) as ex:
        for h, p in zip(hs, ex.map(lambda h: valgrind(exe, h), hs)):
            if p is None:
                ck.count('valgrind: too slow')
                continue
            ck.case(('valgrind', h.seed))
            ck.count('valgrind: scripts')
            if p.returncode:
                err = '\n'.join(l for l in p.stderr.split('\n') if l.startswith('=='))
                ck.violation(what(err), 'valgrind, script %s: ended with %s: %s' % (h.seed, p.returncode, err[:1500]), h.text + '\n--- ' + err)
    ck.sample({'script': hs[0].lines[-12:]})
    return ck.finish()


main(body)

"""C04: integration succeeds only with the right answer, within its limits."""
import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, drv
from report import Check, main
from drv import num

TOLS = (1e-2, 1e-3, 1e-4, 1e-6)
# Adaptive rules can be satisfied too soon, so accuracy is judged over a population:
# (worst relative error of any, of those the tolerance is asked for)
WORST = {1e-2: 1.0, 1e-3: 0.8, 1e-4: 0.3, 1e-6: 5e-3}

# the default limits are plenty
LIMIT = {1e-2: 2048, 1e-3: 2048, 1e-4: 8192, 1e-6: 100000}


def lu(r, a, b):
    return math.exp(r.uniform(math.log(a), math.log(b)))


def integrand(r):
    fam = r.choice(['lognormal', 'exp', 'gamma', 'halfnormal', 'pareto'])
    A, m, s = lu(r, 1e-9, 1e9), lu(r, 0.02, 50), 1.0
    if fam == 'lognormal':
        m, s = math.log(m), r.choice([r.uniform(0.05, 0.2), r.uniform(0.2, 1.5), r.uniform(0.2, 1.5)])
    elif fam == 'gamma':
        s = r.uniform(1, 8)
    elif fam == 'pareto':
        s = r.uniform(2.2, 6)
    return fam, A, m, s


def accuracy(ck, exe, n, batches):
    """Every integrand under every method and tolerance"""
    jobs = []
    for b in range(batches):
        r = random.Random('acc %d %d' % (ck.seed, b))
        fs = [integrand(r) for _ in range(n)]
        for meth in range(5):
            lines, meta = [], []
            for tol in TOLS:
                lines += ['tol %g' % tol, 'method %d' % meth, 'evallimit %d' % LIMIT[tol], 'searchlimit 2048']
                for k, (fam, A, m, s) in enumerate(fs):
                    lines.append('q maq %s - %s %s %s 0' % (fam, num(A), num(m), num(s)))
                    meta.append((len(lines), tol, k))
            jobs.append((meth, fs, '\n'.join(lines) + '\n', meta))
    res = drv.run_many(exe, [j[2] for j in jobs])
    cells = {}
    for (meth, fs, text, meta), r in zip(jobs, res):
        if r.crashed():
            ck.violation('termination', 'method %d: integrations of smooth functions %s: %s' % (
                meth, 'did not end' if r.timeout else 'ended the process (%s)' % r.rc, r.err[-800:]), text)
            continue
        for line, tol, k in meta:
            fam, A, m, s = fs[k]
            ck.case((meth, tol, fs[k]))
            ck.count('accuracy: method %d tolerance %g' % (meth, tol))
            ck.count('accuracy: ' + fam)
            if line in r.errors:
                ck.violation('exception', '%s: %s' % (fs[k], r.errors[line]), text)
                continue
            I, ok, ev, actual, nans = r.values[line]
            what = 'integral of %s(A=%g, m=%g, s=%g), method %d, tolerance %g' % (fam, A, m, s, meth, tol)
            if not ok:
                ck.violation('unsuccessful', what + ': unsuccessful after %d evaluations (limit %d)' % (actual, LIMIT[tol]), text)
                continue
            e = abs(I / A - 1) if math.isfinite(I) else math.inf
            cells.setdefault((meth, tol), []).append(e / tol)
            ck.err('worst error, tolerance %g' % tol, e / WORST[tol])
            if e > WORST[tol]:
                ck.violation('accuracy', what + ': %.9g, should be %.9g' % (I, A), text)
            if len(ck.samples) < 3 and k == 3:
                ck.sample({'integrand': fs[k], 'method': meth, 'tolerance': tol, 'integral': I, 'evaluations': actual})
    for (meth, tol), l in sorted(cells.items()):
        l.sort()
        med, q90, far = l[len(l) // 2], l[int(len(l) * .9)], sum(x > 3 for x in l) / len(l)
        ck.err('median error / tolerance', med / 0.1)
        ck.err('90% error / tolerance', q90 / 0.7)
        ck.err('fraction beyond 3 tolerances', far / 0.06)
        if med > 0.1 or q90 > 0.7 or far > 0.06:
            ck.violation('accuracy', 'method %d, tolerance %g: over %d integrands with known integrals the median error is %.3g tolerances, 90%% are within %.3g, %.1f%% are beyond 3' % (
                meth, tol, len(l), med, q90, 100 * far), jobs[meth][2])


def limits(ck, exe, n):
    """Hostile integrands and small limits: bounded, terminating, and never wrongly successful"""
    jobs = []
    for b in range(n):
        r = random.Random('lim %d %d' % (ck.seed, b))
        lines, meta = [], []
        for _ in range(60):
            tol, meth = r.choice(TOLS), r.randrange(5)
            el = r.choice([1, 2, 5, r.randint(3, 60), r.randint(30, 1000), 2048])
            sl = r.choice([1, 2, 3, r.randint(3, 100), 2048, 2048])
            lines += ['tol %g' % tol, 'method %d' % meth, 'evallimit %d' % el, 'searchlimit %d' % sl]
            for _ in range(6):
                opt, k = '-', 0.0
                if r.random() < 0.5:
                    fam, A, m, s = integrand(r)
                    known = True
                    x = r.random()
                    if x < 0.5:
                        opt, k = r.choice(['nan', 'nanlow', 'nanwin']), lu(r, 1e-3, 100)
                    elif x < 0.6:
                        opt, k = 'throwat', float(r.randint(1, 60))
                else:
                    fam = r.choice(['const', 'step', 'box', 'osc', 'neg', 'inf', 'hash', 'zero'])
                    A, m, s, known = lu(r, 1e-20, 1e20), lu(r, 1e-3, 1e3), lu(r, 1e-3, 10), fam == 'zero'
                lines.append('q maq %s %s %s %s %s %s' % (fam, opt, num(A), num(m), num(s), num(k)))
                meta.append((len(lines), fam, A, m, s, opt, k, tol, meth, el, sl, known))
        jobs.append(('\n'.join(lines) + '\n', meta))
    res = drv.run_many(exe, [j[0] for j in jobs])
    over = tried = 0
    for (text, meta), r in zip(jobs, res):
        if r.crashed():
            done = max(list(r.values) + list(r.errors) + [0])
            nxt = [m for m in meta if m[0] > done]
            ck.violation('termination', 'an integration %s: %s %s' % (
                'did not end' if r.timeout else 'ended the process (%s)' % r.rc, nxt[:1], r.err[-1500:]), text)
            continue
        for line, fam, A, m, s, opt, k, tol, meth, el, sl, known in meta:
            what = 'integral of %s(A=%g, m=%g, s=%g) [%s %g], method %d, tolerance %g, limits %d (search %d)' % (
                fam, A, m, s, opt, k, meth, tol, el, sl)
            if line in r.errors:
                ck.case((line, what))
                ck.count('limits: exception from the integrand')
                if opt != 'throwat' or r.errors[line] != 'integrand':
                    ck.violation('exception', what + ': ' + r.errors[line], text)
                continue
            I, ok, ev, actual, nans = r.values[line]
            ck.case((line, what))
            ck.count('limits: %s' % ('successful' if ok else 'NaN met' if nans else 'limit reached'))
            bound = max(sl, 2) + 2 + 2 * el + 4
            ck.err('evaluations / bound', actual / bound)
            if actual > bound:
                ck.violation('limits', what + ': %d evaluations' % actual, text)
            if ok and nans:
                ck.violation('nan', what + ': successful (%g) though %d evaluations were undefined' % (I, nans), text)
            if not ok and math.isfinite(I):
                ck.violation('unsuccessful', what + ': unsuccessful, but returned %g' % I, text)
            if ok and not math.isfinite(I):
                if fam not in ('inf', 'const', 'step'):
                    ck.violation('success', what + ': successful, but returned %g' % I, text)
            if ok and fam == 'zero' and I != 0:
                ck.violation('success', what + ': %g' % I, text)
            # a search limited too far, or of something too small, finds nothing, and says zero
            if ok and known and fam != 'zero' and I != 0 and not nans:
                tried += 1
                e = abs(I / A - 1)
                over += e > 3 * tol
                ck.count('limits: successful with known integrals')
    if tried:
        ck.err('limits: fraction beyond 3 tolerances', over / tried / 0.08)
        if tried >= 200 and over / tried > 0.08:
            ck.violation('accuracy', '%d of %d successful integrations with small limits are beyond 3 tolerances of the right answer' % (over, tried),
                         jobs[0][0])


def body():
    ck = Check('C04', 'each case is one integration of a function with a known integral, or a hostile one, under one method, tolerance and pair of limits, all evaluations counted; all are distinct')
    ck.assumptions = ['accuracy is judged over populations (median, 90th percentile, fraction beyond 3 tolerances) and by a bound on the worst, since any adaptive rule is sometimes satisfied too soon',
                      'integrands too small or narrow for the search to find are taken as zero, as documented']
    exe = build.driver('plain')
    accuracy(ck, exe, 400, 8 if ck.thorough else 1)
    limits(ck, exe, 400 if ck.thorough else 32)
    return ck.finish()


main(body)

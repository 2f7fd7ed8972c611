"""C19: scripts do what the equivalent calls do, and mistakes in them are reported."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import formula, language, pybuild, pyrun
from report import Check, main

RUN = '''import sys, runpy, os, SlatInterpreter
_argv = ['SlatInterpreter.py'] + %r
try:
    if %r:
        sys.argv = _argv
        runpy.run_path(os.path.join(os.path.dirname(P.__file__), 'SlatInterpreter.py'), run_name='__main__')
    else:
        SlatInterpreter.main(_argv)
except SystemExit as e:
    if e.code: raise ValueError('exit %%s' %% e.code)'''


def setup(h):
    code = "import math, numpy, io, contextlib; pyslat = P\nfor d in ('in/deep', 'd', 'x'): os.makedirs(d, exist_ok=True)"
    return [['do', code]] + [['do', 'open(%r, "w").write(%r)' % f] for f in h.inputs]


def quiet(code):
    return 'with contextlib.redirect_stdout(io.StringIO()):\n ' + code.replace('\n', '\n ')


def asked(h, steps):
    n = len(steps)
    return steps + [['q', c] for _, c in h.observations()], n


def script_job(h, texts, command):
    names = ['script%d.slat' % i for i in range(len(texts))]
    steps = setup(h) + [['do', 'open(%r, "w", newline="").write(%r)' % f] for f in zip(names, texts)]
    steps.append(['do', RUN % (names, command)])
    run = len(steps)
    steps, first = asked(h, steps)
    return steps, run, first


def calls_job(h, stmts):
    steps = setup(h)
    first = len(steps)
    # (only what's asked to be printed matters)
    steps = steps + [['do', s.code if s.words[0] in ('print', 'analyze', 'intstats') else quiet(s.code)] for s in stmts if s.code]
    last = len(steps)
    steps, n = asked(h, steps)
    return steps, (first, last), n


NUMBER = re.compile(r'(?<![\w.])([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))(?![\w.])')


def same_string(a, b, tolerance):
    """But for addresses, and the last digits of numbers"""
    if a == b:
        return True
    x, y = [NUMBER.split(re.sub(r'0x[0-9a-f]{5,}', '0x', t)) for t in (a, b)]
    if len(x) != len(y):
        return False
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q and not (i % 2 and close(float(p), float(q), tolerance)):
            return False
    return True


def close(x, y, tolerance):
    return x == y or x != x and y != y or abs(x - y) <= tolerance * max(abs(x), abs(y))


def same(a, b):
    if a is None or b is None:
        return a is b
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, float) and isinstance(y, float):
            if not close(x, y, 1e-9):
                return False
        elif not same_string(str(x).replace('\\x20', ' '), str(y).replace('\\x20', ' '), 1e-9):
            return False
    return True


def same_line(a, b):
    return same_string(' '.join(a.split()), ' '.join(b.split()), 1.1e-5)


def same_text(a, b):
    """None, or where they differ"""
    x, y = a.split('\n'), b.split('\n')
    for i in range(max(len(x), len(y))):
        if i >= len(x) or i >= len(y) or not same_line(x[i], y[i]):
            return 'line %d is %r; should be %r' % (i + 1, x[i] if i < len(x) else None, y[i] if i < len(y) else None)
    return None


def within(lines, output):
    """The first of the lines which isn't found, in its place, in the output"""
    j = 0
    for l in lines:
        while j < len(output) and not same_line(output[j], l):
            j += 1
        if j == len(output):
            return l
        j += 1
    return None


def echo(out, texts):
    for t in texts:
        t = t.replace('\r\n', '\n')
        i = out.find(t)
        if i >= 0:
            out = out[:i] + out[i + len(t):]
    return out


def replay(texts, calls):
    return ''.join('--- script\n%s\n' % t for t in texts) + '--- the equivalent calls\n' + pyrun.script(calls)


def compare(ck, h, texts, stmts, what, a, ja, b, jb):
    """a: result of the script; b: of the calls"""
    sa, run, na = ja
    sb, (first, last), nb = jb
    rep = replay(texts, [s for s in sb[:last]])
    for i, (name, code) in enumerate(h.observations()):
        ea, eb = a.errors.get(na + i + 1), b.errors.get(nb + i + 1)
        ck.count('observations')
        if (ea is None) != (eb is None):
            ck.violation('observation', 'seed %s: %s: %s of %s gives %s; after the equivalent calls, %s' % (
                h.seed, what, code, name, ea or a.tokens.get(na + i + 1), eb or b.tokens.get(nb + i + 1)), rep)
            return False
        if ea is None and not same(a.tokens.get(na + i + 1), b.tokens.get(nb + i + 1)):
            ck.violation('observation', 'seed %s: %s: %s of %s gives %s; after the equivalent calls, %s' % (
                h.seed, what, code, name, a.tokens.get(na + i + 1), b.tokens.get(nb + i + 1)), rep)
            return False
    fa = {os.path.normpath(f): t for f, t in a.files.items() if not f.endswith('.slat')}
    fb = {os.path.normpath(f): t for f, t in b.files.items()}
    if set(fa) != set(fb):
        ck.violation('files', 'seed %s: %s: files %s; after the equivalent calls, %s' % (h.seed, what, sorted(fa), sorted(fb)), rep)
        return False
    for f in sorted(fa):
        bad = same_text(fa[f], fb[f])
        ck.count('files compared')
        if bad:
            ck.violation('file', 'seed %s: %s: %s: %s' % (h.seed, what, f, bad), rep)
            return False
    # (but for what the library logs)
    bad = within([l for l in b.out.split('\n') if not re.match(r'\[20\d\d-', l)], echo(a.out, texts).split('\n'))
    ck.count('lines of standard output compared', b.out.count('\n'))
    if bad is not None:
        ck.violation('output', 'seed %s: %s: the standard output has no %r (in its place)' % (h.seed, what, bad), rep)
        return False
    return True


def prepare(arg):
    h = language.make(arg)
    r = h.r
    jobs = []
    n = len(h.list)
    # one script, or several, in which variables aren't shared
    split = n
    if r.random() < 0.25:
        cuts = [i for i in range(1, n) if not uses_before(h.list, i)]
        if cuts:
            split = r.choice(cuts)
    parts = [h.list[:split], h.list[split:]] if split < n else [h.list]
    texts = [h.text(p) for p in parts]
    command = r.random() < 0.3
    jobs.append(('good', texts, n, 'script' if len(texts) == 1 else 'two scripts', script_job(h, texts, command), calls_job(h, h.list)))
    for _ in range(2):
        k, text, what = h.bad()
        jobs.append(('bad', [text], k, what, script_job(h, [text], r.random() < 0.3), calls_job(h, h.list[:k or 0])))
    return h, jobs


def uses_before(l, i):
    """Whether statements from i on use variables or titles from before"""
    known = set()
    for s in l[i:]:
        for j, w in enumerate(s.words):
            if w == '$' and s.words[j + 1] not in known:
                return True
        if s.words[0] == 'set':
            known.add(s.words[1])
        if s.words[:2] == ['print', 'title']:
            return True
    return False


def body():
    ck = Check('C19', 'each case is a script of random statements (spelling, order of options, white space, comments, quotes, variables, Python, several files), run by the interpreter, against the calls it stands for; or one with a mistake; distinct scripts')
    ck.assumptions = ['the equivalent calls are right, which C18 and C20 decide']
    k = 8 if ck.thorough else 1
    module = pybuild.module('plain', interpreter=True)
    prepared = formula.make_all(prepare, [((ck.seed, i), 14) for i in range(160 * k)])
    steps, index = [], []
    for h, jobs in prepared:
        for j in jobs:
            steps += [j[4][0], j[5][0]]
            index.append((h, j))
    results = pyrun.run_many(module, steps, files=True)
    for (h, j), a, b in zip(index, results[::2], results[1::2]):
        kind, texts, n, what, ja, jb = j
        judge(ck, h, kind, texts, n, what, a, ja, b, jb)
    for h, jobs in prepared:
        for c, m in h.counts.items():
            ck.count(c, m)
    ck.sample({'script': prepared[0][1][0][1][0][:1500]})
    ck.sample({'mistakes': [j[3] for _, jobs in prepared[:6] for j in jobs[1:]]})
    return ck.finish()


def judge(ck, h, kind, texts, n, what, a, ja, b, jb):
    ck.case((h.seed, kind, what, texts))
    rep = replay(texts, jb[0][:jb[1][1]])
    for p, who in ((a, 'the interpreter'), (b, 'Python')):
        if p.crashed():
            ck.violation('crash', 'seed %s: %s ended with %s: %s' % (h.seed, who, p.rc, p.err[-1500:]), rep)
            return
    first, last = jb[1]
    failed = [i for i in range(first + 1, last + 1) if i in b.errors]
    error = a.errors.get(ja[1])
    if failed:
        # the library refuses something: so should the interpreter
        ck.count("scripts refused by the library");
        if error is None and not (kind == 'bad' and n is None):
            ck.violation('accepted', 'seed %s: "%s" raised %s, the interpreter did not' % (h.seed, jb[0][failed[0] - 1][1], b.errors[failed[0]]), rep)
        return
    if kind == 'good':
        ck.count('scripts run')
        if error is not None:
            ck.violation('refused', 'seed %s: the interpreter raised %s' % (h.seed, error), rep)
            return
        compare(ck, h, texts, h.list, what, a, ja, b, jb)
        return
    ck.count('mistakes: ' + what.split(':')[0])
    if error is None:
        ck.violation('unreported', 'seed %s: not reported: %s' % (h.seed, what), rep)
        return
    if n is not None:
        compare(ck, h, texts, h.list[:n], 'after a mistake (%s)' % what, a, ja, b, jb)


main(body)

"""C20: recorders write every requested value once, in order, with its key."""
import codecs, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, drv, formula, pybuild, pyrun, recorders
from report import Check, main


def text(tokens):
    if len(tokens) == 1 and isinstance(tokens[0], str):
        return codecs.decode(tokens[0][1:-1], 'unicode_escape')
    return None


def judge(ck, h, p):
    if p.crashed():
        ck.violation('crash', 'seed %s: Python ended with %s: %s' % (h.seed, p.rc, p.err[-1500:]), pyrun.script(h.steps))
        return
    values = {b.values for b in h.blocks}
    undefined = set()
    for n, e in sorted(p.errors.items()):
        kind, code = h.steps[n - 1]
        if n in values:
            continue     # a query: its recorder fails alike, below
        ran = [b for b in h.blocks if b.run == n]
        if any(b.values in p.errors for b in ran) or any(b.normalise and 'ZeroDivision' in e for b in ran):
            undefined.add(n)
            ck.count('runs whose values are undefined')
            continue
        if kind == 'q' and 'FileNotFound' in e and undefined:
            continue
        ck.violation('refused', 'seed %s: step %d "%s" raised %s' % (h.seed, n, code, e), pyrun.script(h.steps[:n]))
        return
    for n, blocks, where, run in h.runs:
        if any(b.run in undefined for b in blocks) or run in undefined:
            continue
        got = p.tokens.get(n)
        t = text(got) if got is not None else None
        if t is None:
            continue
        bad = recorders.compare(t, blocks, p.tokens, p.errors, ck.count)
        if bad == 'undefined':
            ck.count('runs whose values are undefined')
            continue
        ck.count('outputs compared')
        ck.count('outputs compared: ' + ('standard output' if where == 'standard output' else 'files'))
        for b in blocks:
            ck.count('tables: ' + b.what)
        if bad:
            ck.violation('output:' + (blocks[-1].what if blocks else 'nothing'), 'seed %s: step %d, %s after "%s": %s' % (
                h.seed, n, where, h.steps[run - 1][1].split('\n')[-1], bad), pyrun.script(h.steps[:n]) + '\n--- printed\n' + t)
            return
    if not undefined:
        found = {os.path.normpath(f) for f in p.files}
        if found != set(h.files):
            ck.violation('files', 'seed %s: files %s; should be %s' % (h.seed, sorted(found), sorted(h.files)), pyrun.script(h.steps))


def body():
    ck = Check('C20', 'each case is a history of a changing model with recorders defined, redefined and run on it; every file and the standard output compared with the points and columns asked for, and with the queries they stand for; distinct histories')
    ck.assumptions = ['measures, demands, fragilities and groups have names (text), as they do in scripts', 'cells have six significant digits', 'columns which make sense for the type of recorder']
    k = 8 if ck.thorough else 1
    hs = formula.make_all(recorders.make, [((ck.seed, i), 16) for i in range(400 * k)])
    module = pybuild.module('plain')
    for h, p in zip(hs, pyrun.run_many(module, [h.steps for h in hs], files=True)):
        ck.case(h.seed)
        for c, n in h.counts.items():
            if not c.startswith(('definitions', 'redefinitions')):
                ck.count(c, n)
        judge(ck, h, p)
    h = hs[0]
    ck.sample({'seed': h.seed, 'recorders': [s[1] for s in h.steps if 'MakeRecorder' in s[1]][:3], 'files': {f: [b.what for b in bs] for f, bs in h.files.items()}})
    return ck.finish()


main(body)

"""C22: what a model no longer uses is given back."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, drv, formula, memory, pybuild, pyrun
from history import History
from hostile import Hostile
from pyhist import PyHistory
import refuse
from report import Check, main

ORDERS = ['cg struct det prob im edp frag loss dist watch', 'struct cg edp im prob det frag loss watch dist',
          'det prob im frag loss edp dist cg watch struct', 'watch loss frag cg im struct dist prob edp det']
PY_REPEAT = 32


def live(arg):
    seed, k = arg, arg[2] % 6
    return memory.Live(seed, 8) if k < 4 else memory.Live(seed, 8, ORDERS[k % 4], 32)


def rebuilt(seed):
    # a share of them aren't discarded: each object is replaced by its successor
    k = seed[1] % 5
    return memory.Rebuilt(seed, History(seed, 3, 'c22').text, ORDERS[k].split() if k < 4 else [], 16)


def hostile(seed):
    k = seed[1] % 5
    return memory.Rebuilt(seed, Hostile(('c22', seed), 40).text, ORDERS[k].split() if k < 4 else [], 32)


def refused(seed):
    k = seed[1] % 5
    return memory.Rebuilt(seed, refuse.make_cpp((('c22', seed), 5)).text, ORDERS[k].split() if k < 4 else [], 16)


def python(seed):
    h = PyHistory(('c22', seed), 6) if seed[1] % 3 else refuse.make_py((('c22', seed), 6))
    return seed, h.steps


def cpp(ck, exe, label, cases, threads):
    res = drv.run_many(exe, [c.text for c in cases], threads=threads, env={'SLATDRV_LENIENT': '1'}, timeout=100)
    for c, r in zip(cases, res):
        use = [r.values.get(l) for l in c.heaps]
        if r.crashed() or None in use:
            ck.violation('crash', '%s, seed %s, %d threads: ended with %s: %s' % (label, c.seed, threads, r.rc, r.err[-1500:]), c.text)
            continue
        ck.case((label, threads, c.seed))
        ck.count(label + ': repetitions', len(use))
        ck.count(label + ': operations', len(c.text.split('\n')))
        for k, n in getattr(c, 'kinds', {}).items():
            ck.count('there and back: ' + k, n)
        m = memory.marks(len(use))
        ck.count(label + (': exactly as many blocks after the last as after the first eighth' if use[-1][0] == use[m[0] - 1][0] else ': different numbers of blocks'))
        ck.sample({'kind': label, 'seed': c.seed, 'threads': threads, 'blocks and bytes after repetitions %s' % (m,): [use[x - 1] for x in m]}, 8)
        g = memory.growth(use)
        if g:
            ck.violation('growth', '%s, seed %s, %d threads: %s' % (label, c.seed, threads, g), c.text)


def run_python(module, heap, steps, threads):
    d = tempfile.mkdtemp(prefix='mem-', dir=build.scratch())
    try:
        os.mkdir(os.path.join(d, 'work'))
        with open(os.path.join(d, 'steps.json'), 'w') as f:
            json.dump(steps, f)
        e = dict(os.environ)
        e.update({'PYTHONPATH': module, 'OMP_NUM_THREADS': str(threads), 'OMP_WAIT_POLICY': 'passive', 'LD_PRELOAD': heap, 'PYTHONMALLOC': 'pymalloc',
                  'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONIOENCODING': 'utf-8', 'LC_ALL': 'C.UTF-8'})
        log = os.path.join(d, 'log')
        with open(os.path.join(d, 'err'), 'w+b') as err:
            for t in (150, 300):
                try:
                    p = subprocess.run([pybuild.PY, os.path.join(build.VERIF, 'driver', 'pymemory.py'), os.path.join(d, 'steps.json'), str(PY_REPEAT), log],
                                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, cwd=os.path.join(d, 'work'), env=e, timeout=t)
                    break
                except subprocess.TimeoutExpired:
                    if t == 300:
                        raise drv.Hang(pyrun.script(steps), t)
            err.seek(max(0, err.seek(0, 2) - 3000))
            tail = err.read().decode(errors='replace')
        return p.returncode, json.load(open(log)) if p.returncode == 0 else None, tail
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body():
    ck = Check('C22', 'each case is a script repeated in one process, with what is allocated counted after each repetition; distinct scripts')
    ck.assumptions = ['growth counts where it is in proportion to the repetitions: at least a block for every two of them, or eight bytes for each, between every two of four marks',
                      'what is allocated by way of malloc() and its kin, and objects of Python']
    k = 6 if ck.thorough else 1
    exe = build.program('slatdrv-heap', [os.path.join(build.VERIF, 'driver', f) for f in ('slatdrv.cpp', 'heap.cpp')], 'plain')
    for threads, n in ((1, 80), (3, 20)):
        cpp(ck, exe, 'model changed and changed back', formula.make_all(live, [(ck.seed, threads, i) for i in range(n * k)]), threads)
        cpp(ck, exe, 'model built, changed and discarded', formula.make_all(rebuilt, [(ck.seed, i + 10000 * threads) for i in range(n * k)]), threads)
        cpp(ck, exe, 'model with requests and definitions refused', formula.make_all(refused, [(ck.seed, i + 10000 * threads) for i in range(n * k // 2)]), threads)
        cpp(ck, exe, 'anything', formula.make_all(hostile, [(ck.seed, i + 10000 * threads) for i in range(n * k)]), threads)

    module = pybuild.module('plain')
    heap = os.path.join(build.scratch(), 'heap.so')
    build.run(['g++', '-O2', '-shared', '-fPIC', os.path.join(build.VERIF, 'driver', 'heap.cpp'), '-o', heap], 'heap')
    jobs = [(s, t, 1 if i % 4 else 3) for i, (s, t) in enumerate(formula.make_all(python, [(ck.seed, i) for i in range(60 * k)]))]
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda j: run_python(module, heap, j[1], j[2]), jobs))
    for (seed, steps, threads), (rc, out, err) in zip(jobs, res):
        if rc != 0:
            ck.violation('crash', 'Python, seed %s, %d threads: ended with %s: %s' % (seed, threads, rc, err), pyrun.script(steps))
            continue
        ck.case(('python', threads, seed))
        use = out['use']
        m = memory.marks(len(use))
        ck.count('Python: repetitions', len(use))
        ck.count('Python: operations', len(use) * out['steps'])
        ck.count('Python: exactly as many blocks after the last as after the first quarter' if use[-1][0] == use[m[1] - 1][0] else 'Python: different numbers of blocks')
        ck.sample({'kind': 'Python', 'seed': seed, 'threads': threads, 'blocks, bytes and objects after repetitions %s' % (m,): [use[x - 1] for x in m]}, 10)
        g = memory.growth(use, ('blocks', 'bytes', 'objects'))
        if g:
            ck.violation('growth', 'Python, seed %s, %d threads: %s' % (seed, threads, g), pyrun.script(steps))
    return ck.finish()


main(body)

"""Run steps of Python against SLAT's Python interface, and read what was observed."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, drv, pybuild

WORKER = os.path.join(build.VERIF, 'driver', 'pyworker.py')


class PyResult:
    """tokens[step] = list of floats and strings; errors[step] = text"""
    def __init__(self):
        self.tokens, self.errors = {}, {}
        self.rc, self.err, self.out = 0, '', ''
        self.complete = self.timeout = False
        self.files = {}       # what was left in the working directory

    def crashed(self):
        return not self.timeout and (self.rc != 0 or not self.complete)


def token(s):
    if s.startswith('"') or s == 'None' or s.startswith('<'):
        return s
    try:
        return float(s)
    except ValueError:
        return s


def run(module, steps, timeout=120, threads=1, variant='plain', files=False, env=None):
    """In a working directory of its own, which is removed afterwards"""
    d = tempfile.mkdtemp(prefix='py-', dir=build.scratch())
    r = PyResult()
    try:
        work = os.path.join(d, 'work')
        os.mkdir(work)
        with open(os.path.join(d, 'steps.json'), 'w') as f:
            json.dump(steps, f)
        e = dict(os.environ)
        e.update(drv.SAN)
        e.update({'PYTHONPATH': module, 'OMP_NUM_THREADS': str(threads), 'OMP_WAIT_POLICY': 'passive',
                  'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONIOENCODING': 'utf-8', 'LC_ALL': 'C.UTF-8'})
        e.update(pybuild.preload(variant))
        e.update(env or {})
        log = os.path.join(d, 'log')
        err = open(os.path.join(d, 'err'), 'w+b')
        out = open(os.path.join(d, 'out'), 'w+b')
        try:
            p = subprocess.run([pybuild.PY, WORKER, os.path.join(d, 'steps.json'), log], stdin=subprocess.DEVNULL,
                               stdout=out, stderr=err, timeout=timeout, env=e, cwd=work)
            r.rc = p.returncode
        except subprocess.TimeoutExpired:
            r.timeout = True
        err.seek(max(0, err.seek(0, 2) - 6000))
        r.err = err.read().decode(errors='replace')
        out.seek(0)
        r.out = out.read(4000000).decode(errors='replace')
        err.close()
        out.close()
        if os.path.exists(log):
            for l in open(log, errors='replace'):
                l = l.rstrip('\n')
                w = l.split(' ', 1)
                if w[0] == 'END':
                    r.complete = True
                elif w[0].isdigit():
                    rest = w[1] if len(w) > 1 else ''
                    if rest.startswith('! '):
                        r.errors[int(w[0])] = rest[2:]
                    else:
                        r.tokens[int(w[0])] = [token(t) for t in rest.split()]
        if files:
            for top, _, names in os.walk(work):
                for n in names:
                    p = os.path.join(top, n)
                    r.files[os.path.relpath(p, work)] = open(p, errors='replace').read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r


def run_many(module, jobs, timeout=100, threads=1, variant='plain', files=False, env=None):
    """jobs: lists of steps"""
    n = max(1, (os.cpu_count() or 4) // threads)
    slow = []

    def one(steps, timeout=timeout):
        if len(slow) >= 3:
            return None
        r = run(module, steps, timeout, threads, variant, files, env)
        if r.timeout:
            slow.append(steps)
        return r
    with ThreadPoolExecutor(max_workers=n) as ex:
        res = list(ex.map(one, jobs))
    again = [i for i, r in enumerate(res) if r is not None and r.timeout]
    if again:
        # the machine may just have been busy
        left = [i for i, r in enumerate(res) if i not in again[:2] and (r is None or r.timeout)]
        for l, k in ((again[:2], 2), (left, n)):
            del slow[:]
            with ThreadPoolExecutor(max_workers=k) as ex:
                for i, r in zip(l, ex.map(lambda i: one(jobs[i], 2 * timeout), l)):
                    if r is None or r.timeout:
                        raise drv.Hang(script((slow or [jobs[i]])[0]), 2 * timeout)
                    res[i] = r
    return res


def script(steps):
    """Steps as readable Python"""
    return '\n'.join(c if k == 'do' else 'print(%s)' % c for k, c in steps) + '\n'

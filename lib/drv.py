"""Run slatdrv scripts, and read the observations they record."""
import os, subprocess, re
from concurrent.futures import ThreadPoolExecutor
import build

SAN = {'ASAN_OPTIONS': 'abort_on_error=0:detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1',
       'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98',
       'TSAN_OPTIONS': 'halt_on_error=0:exitcode=97:detect_deadlocks=0:report_signal_unsafe=0:history_size=4'}


class Result:
    """values[line] = list of floats, errors[line] = text; rc, tail of stderr"""
    def __init__(self):
        self.values, self.errors = {}, {}
        self.rc = 0
        self.err = ''
        self.timeout = False
        self.complete = False
        self.schedule = None     # hash, switches and steps of the scheduler
        self.contexts = None     # compared, changed

    def crashed(self):
        return (not self.timeout) and (self.rc != 0 or not self.complete)


def fnum(s):
    try:
        return float(s)
    except ValueError:
        if 'nan' in s:
            return float('nan')
        raise


def run(exe, script, timeout=300, threads=None, env=None):
    e = dict(os.environ)
    e.update(SAN)
    e['OMP_NUM_THREADS'] = str(threads or 1)
    e['OMP_DYNAMIC'] = 'false'
    e['OMP_WAIT_POLICY'] = 'passive'
    if env:
        e.update(env)
    r = Result()
    try:
        p = subprocess.run([exe], input=script, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout, env=e, errors='replace')
    except subprocess.TimeoutExpired as x:
        r.timeout = True
        out = x.stdout or b''
        parse(r, out.decode(errors='replace') if isinstance(out, bytes) else out)
        return r
    r.rc = p.returncode
    r.err = p.stderr[-6000:]
    if r.rc == 3:
        raise build.HarnessError('script error: ' + p.stderr[-500:])
    parse(r, p.stdout)
    return r


def parse(r, out):
    for l in out.split('\n'):
        if l.startswith('END '):
            r.complete = True
            continue
        w = l.split(' ', 1)
        if w[0] == 'SCHEDULE':
            r.schedule = [int(x) for x in w[1].split()]
        if w[0] == 'CONTEXTS':
            r.contexts = [int(x) for x in w[1].split()]
        if not w[0].isdigit():
            continue
        n = int(w[0])
        rest = w[1] if len(w) > 1 else ''
        if rest.startswith('!'):
            r.errors[n] = rest[2:]
        else:
            try:
                r.values[n] = [fnum(x) for x in rest.split()]
            except ValueError:
                pass


class Hang(Exception):
    """A script which doesn't end, given plenty of time, twice"""
    def __init__(self, script, seconds):
        super().__init__('no end after %d s, twice' % seconds)
        self.script = script


def run_many(exe, scripts, timeout=60, threads=None, env=None, jobs=None):
    """env may be a list, of one for each script"""
    jobs = jobs or max(1, (os.cpu_count() or 4) // (threads or 1))
    slow = []
    envs = env if isinstance(env, list) else [env] * len(scripts)

    def one(a):
        if len(slow) >= 3:
            return None
        r = run(exe, a[0], timeout, threads, a[1])
        if r.timeout:
            slow.append(a[0])
        return r
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        res = list(ex.map(one, zip(scripts, envs)))
    again = [i for i, r in enumerate(res) if r is not None and r.timeout]
    if again:
        # the machine may just have been busy
        some = again[:2]
        left = [i for i, r in enumerate(res) if i not in some and (r is None or r.timeout)]
        for l, n in ((some, 2), (left, jobs)):
            with ThreadPoolExecutor(max_workers=n) as ex:
                for i, r in zip(l, ex.map(lambda i: run(exe, scripts[i], 2 * timeout, threads, envs[i]), l)):
                    if r.timeout:
                        raise Hang(scripts[i], 2 * timeout)
                    res[i] = r
    return res


def tsan_races(err):
    """Reports of data races in which SLAT's code took part: [(where, report)]"""
    out = []
    for rep in err.split('==================\n'):
        if 'WARNING: ThreadSanitizer' not in rep or build.SRC not in rep:
            continue
        m = re.search(r'SUMMARY: ThreadSanitizer: (.*)', rep)
        out.append((re.sub(r'\S*/', '', m.group(1)) if m else rep[:200], rep))
    return out


class Script:
    """A script under construction: lines, and what is expected of the queries."""
    def __init__(self):
        self.lines = []
        self.expect = []     # (line number, tag, checker data)

    def __call__(self, fmt, *a):
        self.lines.append(fmt % a if a else fmt)
        return len(self.lines)

    def q(self, text, tag=None, **data):
        n = self('q ' + text)
        self.expect.append((n, tag, data))
        return n

    def text(self):
        return '\n'.join(self.lines) + '\n'


def num(x):
    return '%.17g' % x

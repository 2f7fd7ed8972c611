"""Run the test harnesses of driver/ (which judge themselves), and collect what they report."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import build, drv


def launch(exe, args, timeout, env=None):
    e = dict(os.environ)
    e.update(drv.SAN)
    e['OMP_WAIT_POLICY'] = 'passive'
    e.update(env or {})
    try:
        p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors='replace', timeout=timeout, env=e)
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), ''
    return p.returncode, p.stdout, p.stderr


def collect(ck, label, exe, jobs, timeout, env=None, workers=None):
    wedged = [1 for v in ck.violations if v[0] == 'wedged']

    def one(args):
        if len(wedged) >= 2:
            return 'skipped', '', ''
        r = launch(exe, args, timeout, env)
        if r[0] is None:
            wedged.append(1)
        return r
    with ThreadPoolExecutor(max_workers=workers or os.cpu_count()) as ex:
        res = list(ex.map(one, jobs))
    for args, (rc, out, err) in zip(jobs, res):
        if rc == 'skipped':
            continue
        cmd = '%s harness %s, arguments %s' % (label, os.path.basename(exe), ' '.join(map(str, args)))
        viol = re.findall(r'^VIOL (\S+) (.*)$', out, re.M)
        for rule, text in viol[:3]:
            ck.violation(rule, '%s: %s' % (cmd, text), out[:20000])
        if rc is None:
            ck.violation('wedged', '%s: did not finish (%d s)' % (cmd, timeout), out[-4000:])
            continue
        if rc == 96:
            ck.violation('wedged', '%s: %s' % (cmd, err[-400:]), err[-4000:])
            continue
        races = drv.tsan_races(err)
        for where, rep in races[:2]:
            ck.violation('race:' + where, '%s: %s' % (cmd, where), rep)
        m = re.search(r'^DONE (.*)$', out, re.M)
        if not m or rc not in (0, 97):
            if not viol and not races:
                ck.violation('crash', '%s: ended with %s: %s' % (cmd, rc, err[-1500:]), out[-3000:] + err)
            continue
        for kv in m.group(1).split():
            k, v = kv.rsplit('=', 1)
            if k not in ('violations',):
                k = '%s: %s' % (label, k.replace('_', ' '))
                if 'deepest' in k or 'longest' in k:
                    ck.counts[k] = max(ck.counts.get(k, 0), int(v))
                else:
                    ck.count(k, int(v))
        n = int(re.search(r'(?:episodes|histories)=(\d+)', m.group(1)).group(1))
        d = int(re.search(r'distinct(?:_interleavings)?=(\d+)', m.group(1)).group(1))
        for i in range(n):
            ck.case((label, args[0], i if label != 'scheduled' else i % max(d, 1)))
        ck.sample({'harness': label, 'arguments': args, 'observed': m.group(1)[:600]})


def optional(ck, name, variant, defines=()):
    """A harness with our own OpenMP runtime, or None where SLAT has come to need more of one"""
    try:
        return build.harness(name, variant, defines)
    except build.HarnessError as e:
        if 'undefined reference' in str(e) and ('GOMP' in str(e) or 'omp_' in str(e)):
            ck.assumptions.append('not run: %s (%s): needs parts of OpenMP our runtime lacks' % (name, variant))
            return None
        raise

"""Builds of /repo's current working tree, in a scratch directory of this run."""
import atexit, glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SLAT_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

_scratch = None


class HarnessError(Exception):
    """The machinery (not the property) failed; the run is inconclusive."""


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='slatverif-')
        atexit.register(lambda d=_scratch: shutil.rmtree(d, ignore_errors=True))
    return _scratch


BASE = ['-g', '-std=gnu++14', '-fopenmp', '-DBOOST_ALL_DYN_LINK', '-fPIC', '-w',
        '-include', 'functional', '-include', 'memory', '-I', SRC]
LIBS = ['-lboost_log', '-lboost_thread', '-lboost_system', '-lboost_filesystem',
        '-lgsl', '-lgslcblas', '-lm', '-lpthread']
VARIANTS = {
    'plain': (['-O2'], ['-fopenmp']),
    'asan': (['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr',
              '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
             ['-fopenmp', '-fsanitize=address,undefined']),
    'asserts': (['-O1', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_DEBUG'], ['-fopenmp']),
    # OpenMP programs linked with our own runtime (runtime/minigomp.c) instead of libgomp
    'tsan': (['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer'], ['-fsanitize=thread']),
    'sched': (['-O1'], []),
}
NOT_LIB = ('main', 'hello', 'hellomain', 'example2', 'total_loss_debug', 'unit_test', 'pyslatcore')


def lib_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(SRC, '*.cpp'))):
        b = os.path.splitext(os.path.basename(f))[0]
        if b in NOT_LIB or b.endswith('_test'):
            continue
        out.append(f)
    return out


def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode != 0:
        raise HarnessError('%s failed:\n%s\n%s' % (what, ' '.join(map(str, cmd)), p.stdout[-4000:]))
    return p.stdout


def compile_all(jobs, what='compile'):
    """jobs: list of command lines, run in parallel"""
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(lambda c: run(c, what), jobs))


def program(name, sources, variant='plain', extra=(), extra_objs=(), link=()):
    """Compile SLAT's library sources and the harness sources, and link them."""
    d = os.path.join(scratch(), variant)
    os.makedirs(d, exist_ok=True)
    cf, lf = VARIANTS[variant]
    jobs, objs = [], []
    for f in lib_sources():
        o = os.path.join(d, 'lib_' + os.path.basename(f)[:-4] + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(['g++'] + BASE + cf + ['-c', f, '-o', o])
    for f in sources:
        o = os.path.join(d, name + '_' + os.path.splitext(os.path.basename(f))[0] + '.o')
        objs.append(o)
        jobs.append(['g++'] + BASE + cf + list(extra) + ['-c', f, '-o', o])
    compile_all(jobs)
    exe = os.path.join(d, name)
    run(['g++'] + lf + objs + list(extra_objs) + ['-o', exe] + list(link) + LIBS, 'link')
    return exe


def runtime(variant):
    """The object file of our OpenMP runtime, for the 'tsan' and 'sched' variants"""
    o = os.path.join(scratch(), 'minigomp-%s.o' % variant)
    if not os.path.exists(o):
        run(['gcc', '-O1', '-g'] + (['-DSCHED'] if variant == 'sched' else []) +
            ['-c', os.path.join(VERIF, 'runtime', 'minigomp.c'), '-o', o], 'runtime')
    return o


def harness(name, variant='plain', defines=()):
    """A harness of driver/ linked with the library, and our runtime where the variant needs it"""
    mini = variant in ('tsan', 'sched')
    return program(name, [os.path.join(VERIF, 'driver', name + '.cpp')], variant,
                   extra=(['-DMINIGOMP'] if mini else []) + ['-D' + d for d in defines],
                   extra_objs=[runtime(variant)] if mini else [])


def driver(variant='plain'):
    return harness('slatdrv', variant)

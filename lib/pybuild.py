"""Build SLAT's Python interface (and the interpreter) from /repo's working tree."""
import glob, os, shutil, subprocess, sysconfig
from concurrent.futures import ThreadPoolExecutor
import build

PY = '/usr/bin/python3'       # with numpy and the ANTLR runtime; the headers are its own
# the options of Makefile.common which this SWIG still knows
SWIG = ['swig', '-python', '-c++', '-o']


def _py_include():
    return subprocess.run([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'],
                          stdout=subprocess.PIPE, text=True).stdout.strip()


def module(variant='plain', interpreter=False):
    """Returns a directory to put on PYTHONPATH"""
    d = os.path.join(build.scratch(), 'py-' + variant)
    done = os.path.join(d, 'done')
    if not os.path.exists(done):
        os.makedirs(d, exist_ok=True)
        cf, lf = build.VARIANTS[variant]
        od = os.path.join(build.scratch(), variant)
        os.makedirs(od, exist_ok=True)
        wrap = os.path.join(d, 'wrap_pyslatcore.cpp')
        build.run(SWIG + [wrap, '-I' + build.SRC, '-outdir', d, os.path.join(build.SRC, 'pyslatcore.i')], 'swig')
        jobs, objs = [], []
        for f in build.lib_sources():
            o = os.path.join(od, 'lib_' + os.path.basename(f)[:-4] + '.o')
            objs.append(o)
            if not os.path.exists(o):
                jobs.append(['g++'] + build.BASE + cf + ['-c', f, '-o', o])
        for f in (os.path.join(build.SRC, 'pyslatcore.cpp'), wrap):
            o = os.path.join(d, os.path.basename(f)[:-4] + '.o')
            objs.append(o)
            # the generated wrapper takes long to optimise
            opt = ['-O0'] if f == wrap else []
            jobs.insert(0, ['g++'] + build.BASE + cf + opt + ['-I', _py_include(), '-c', f, '-o', o])
        build.compile_all(jobs)
        build.run(['g++', '-shared'] + lf + objs + ['-o', os.path.join(d, '_pyslatcore.so')] + build.LIBS, 'link')
        shutil.copy(os.path.join(build.SRC, 'pyslat.py'), d)
        open(done, 'w').close()
    if interpreter and not os.path.exists(os.path.join(d, 'SlatInterpreter.py')):
        for g in ('slatLexer.g4', 'slatParser.g4'):
            # ANTLR puts its output relative to the grammar
            shutil.copy(os.path.join(build.SRC, g), d)
            build.run(['antlr4', '-Dlanguage=Python3', '-lib', d, g], 'antlr', cwd=d)
        shutil.copy(os.path.join(build.SRC, 'SlatInterpreter.py'), d)
    return d


def preload(variant):
    """What has to be loaded before Python for a sanitized module"""
    if variant != 'asan':
        return {}
    libs = [subprocess.run(['g++', '-print-file-name=' + l], stdout=subprocess.PIPE, text=True).stdout.strip()
            for l in ('libasan.so', 'libubsan.so', 'libstdc++.so')]
    return {'LD_PRELOAD': ' '.join(libs)}

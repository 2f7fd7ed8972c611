"""
Repeats steps of Python (as pyworker.py runs them), forgetting in between what they defined,
and reports what is allocated after each repetition (counted by heap.cpp, preloaded).

    pymemory.py STEPS REPETITIONS LOG
"""
import array, ctypes, gc, json, os, sys

steps = json.load(open(sys.argv[1]))
repetitions = int(sys.argv[2])
heap = ctypes.CDLL(None)
heap.heap_blocks.restype = heap.heap_bytes.restype = ctypes.c_long

import numpy as np
import pyslat
import pyslatcore
pyslat.LogToStdErr(False)

code = []
for k, c in steps:
    try:
        code.append((k == 'q', compile(c, 'step', 'eval' if k == 'q' else 'exec')))
    except SyntaxError:
        pass
names = {'P': pyslat, 'core': pyslatcore, 'np': np, 'MU': pyslat.LOGNORMAL_MU_TYPE, 'SD': pyslat.LOGNORMAL_SIGMA_TYPE, 'os': os}
ours = set(names) | {'__builtins__'}
blocks, size, objects = (array.array('q', [0] * repetitions) for _ in range(3))
raised = array.array('q', [0])


def once():
    for ask, c in code:
        try:
            if ask:
                eval(c, names)
            else:
                exec(c, names)
        except Exception:
            raised[0] += 1
    for n in list(names):
        if n not in ours:
            del names[n]


for i in range(repetitions):
    once()
    gc.collect()
    blocks[i], size[i], objects[i] = heap.heap_blocks(), heap.heap_bytes(), sys.getallocatedblocks()

with open(sys.argv[3], 'w') as f:
    json.dump({'use': list(zip(blocks, size, objects)), 'raised': raised[0] // repetitions, 'steps': len(code)}, f)

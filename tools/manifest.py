"""Writes MANIFEST.json from the list of checks (run after adding one)."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = 'differential runtime monitor: recorded executions of the real library, judged offline against an independent reference model'
T = {
 'C01': (ORACLE, 'values agree with the reference on every generated distribution'),
 'C02': (ORACLE, 'values agree with the reference on every generated function; undefined arguments not judged'),
 'C03': (ORACLE, 'values agree with the reference on every generated function'),
 'C04': (ORACLE.replace('reference model', 'oracle (known integrals, evaluations counted)'), 'bounds on evaluations and undefined values for every integration; accuracy over populations'),
 'C05': ('metamorphic runtime monitor: statistics and results of histories and concurrent storms against those of each integration made alone', 'exact agreement on every generated history'),
 'C06': (ORACLE, 'values agree with the reference on every generated model and change; integration trusted only where several settings agree'),
 'C07': (ORACLE, 'values agree with the reference on every generated model; rates above 10/yr not judged'),
 'C08': (ORACLE, 'values agree with the reference on every generated fragility function'),
 'C09': (ORACLE, 'values agree with the reference on every generated loss function'),
 'C10': (ORACLE, 'values agree with the reference on every generated group; one recorded finding'),
 'C11': (ORACLE, 'values agree with the reference on every generated structure'),
 'C12': ('differential runtime monitor: each observation of a history of changes against a model built afresh in its final state', 'agreement after every generated change'),
 'C13': ('runtime monitor of caches (exactly-once, freshness, no lost wake-ups) under ThreadSanitizer and under a seeded scheduler which replaces the OpenMP runtime', 'no violation in the schedules explored; data races judged by ThreadSanitizer'),
 'C14': ('runtime monitor: callbacks counted against a model of who is registered where, over histories on plain objects and whole models; AddressSanitizer, ThreadSanitizer and a seeded scheduler for concurrent registration', 'exact agreement on every generated history'),
 'C15': ('AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ debug mode and valgrind over scripts of operations in any order with wild arguments', 'no report or abnormal end in the executions observed'),
 'C16': ('ThreadSanitizer (with an OpenMP runtime it understands), a seeded scheduler, and differential runtime monitoring of concurrent queries against one thread', 'no race, deadlock or difference in the executions observed'),
 'C17': ('runtime monitor: every reported context against the record of the thread and its ancestors, free-running, under a seeded scheduler, and under ThreadSanitizer and AddressSanitizer', 'exact agreement on every generated episode'),
 'C18': ('differential runtime monitor: each query of a history of Python calls against the C++ library on the model described at that point; AddressSanitizer over hostile calls', 'agreement on every generated history'),
 'C19': ('differential runtime monitor: model, settings, files and output after a generated script against those after the equivalent Python calls; mistakes planted in scripts must be reported', 'agreement on every generated script'),
 'C20': ('runtime monitor: every file and the standard output of generated histories of recorders against the points and columns asked for and the queries they stand for', 'agreement on every generated history'),
 'C21': ('metamorphic runtime monitor: histories with refused definitions and requests against the same histories without them (AddressSanitizer on a share)', 'agreement on every generated history'),
}
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(D, 'properties.jsonl'))]
checks = []
for p in props:
    if p in T:
        checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3-vt checks/%s.py' % p,
                       'thorough_cmd': 'VERIF_TIER=thorough python3-vt checks/%s.py' % p,
                       'technique': T[p][0], 'level': 'exploration', 'level_note': T[p][1]})
na = [{'property': p, 'reason': NA.get(p, 'check under construction')} for p in props if p not in T]
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)

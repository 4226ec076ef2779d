#!/usr/bin/env python3
"""writes MANIFEST.json (the list of checks; the harnesses are described in harness/specs.py)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PH = 'runtime monitoring: generated phrases run through the real parser, every result judged online by an independent calendar oracle'
T = {
    'C01': 'sanitizers (ASan, UBSan, checked STL) under hostile generated inputs, plus offline comparison of two builds that differ only in the contents of uninitialised memory; valgrind memcheck on short texts; libFuzzer in the thorough run',
    'C02': 'runtime monitoring: validity oracle on every result of every parser and refiner stage under hostile inputs',
    'C03': 'runtime monitoring: span invariants on every result at every stage, and reparsing of every span',
    'C04': 'runtime monitoring: offline comparison of recorded results of the same calls in processes with different histories',
    'C05': 'ThreadSanitizer on first-use and sharing workloads, results compared with the sequential run of the same calls',
    'C06': 'runtime monitoring: metamorphic oracle, phrases in surroundings against the same phrases alone',
    'C07': 'runtime monitoring: random operation sequences against an executable model after every operation',
    'C19': 'runtime monitoring: recorded input and output of the overlap refiner judged by rules and an executable model',
    'C20': 'runtime monitoring: recorded input and output of the zone refiner and the pipeline against an executable model',
    'C21': 'runtime monitoring: recorded input and output of the date-time refiner against an executable model, and end-to-end oracles',
    'C22': 'runtime monitoring: recorded input and output of the date range refiner against an executable model, and end-to-end oracles',
    'C23': 'runtime monitoring: the built program is run and its output and status judged by phrase oracles and the library pipeline',
    'C24': 'runtime monitoring: generated amounts around the limits of the calendar and of machine integers, every result judged online by an independent calendar model',
    'C26': 'runtime monitoring: the library\'s answer for random components compared with an independent calendar model',
    'C25': 'runtime monitoring: rendering and conversion of random components against an independent calendar model',
}
N = {
    'C01': 'No report on the executions made (bounds: texts up to 1000 bytes). Red-zone sanitizers miss intra-object overflows; a hang is a case over 60-90 s of CPU time, confirmed by a second run.',
    'C05': 'No race report and equal results on the schedules observed; trusts ThreadSanitizer; the lazily filled facet cache of libstdc++ locales is warmed beforehand.',
}
DEF = 'Held on the executions made and counted in the evidence file; trusts the independent oracle in /verif/harness and the public getters through which results are read.'
checks = []
for i in range(1, 100):
    p = 'C%02d' % i
    if not os.path.exists(os.path.join(V, 'harness', p + '.cpp')):
        continue
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s --thorough' % p,
                       technique=T.get(p, PH), level='exploration', level_note=N.get(p, DEF)))
m = dict(version=1, setup_cmd='g++ --version && clang++ --version && python3 tools/prebuild.py',
         hooks=dict(guard='CHRONO_VERIF_HOOKS', enable='no hooks were needed: the guard is unused and /repo carries no instrumentation', source_commits=[]),
         checks=checks, not_applicable=[],
         notes='check.py builds /repo/src (and time.cpp) with harness/*.cpp in several compiler variants under /verif/build, keyed by content.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

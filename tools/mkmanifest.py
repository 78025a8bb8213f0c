#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
    'C01': 'deterministic simulation, injected write/flush/close faults and full disks, differential against the fault-free run',
    'C02': 'deterministic simulation, injected open and read faults, differential against the fault-free run',
    'C03': 'deterministic simulation, seeded read chunking, buffer and table sizes and shifts, metamorphic oracle',
    'C04': 'deterministic simulation, seeded perturbation of heap, stack, environment, clock and descriptors, differential',
    'C05': 'deterministic simulation, injected allocation failures, differential against the fault-free run',
    'C06': 'deterministic simulation, seeded sequences of files in one process, differential against one process per file',
    'C07': 'deterministic simulation, crash and torn-write injection followed by a rerun, differential',
    'C08': 'deterministic simulation, seeded interleaving of several processes on one file system, differential',
    'C09': 'deterministic simulation, injected fork/exec/linker/wait faults, reference model of the link step',
    'C10': 'deterministic simulation, torn inputs judged by an independent scanner',
    'C11': 'deterministic simulation, injected faults under step, operation and memory bounds',
    'C12': 'deterministic simulation, injected environment errors, crash and message invariants',
    'C13': 'deterministic simulation with a virtual clock that advances and jumps at chosen operations',
    'C14': 'deterministic simulation with descriptor accounting and limits, reference model of include depth',
    'C15': 'deterministic simulation, accounting of every file system change',
    'C16': 'deterministic simulation of the heap, seeded histories and text lengths, memory accounting compared between a short and a long history',
    'G01': 'deterministic simulation at instruction granularity, injected signals, scribbled memory beyond the red zone',
    'G02': 'deterministic simulation of devices behind volatile objects, access history compared with a reference',
    'G03': 'deterministic simulation at instruction granularity, invariant on neighbouring bytes after every instruction',
    'G04': 'deterministic simulation at instruction granularity, invariant on untorn accesses',
    'G05': 'deterministic simulation of threads at instruction granularity under a seeded scheduler',
    'G06': 'deterministic simulation with register, flag and stack garbage injected at calls, invariants at every call and return',
    'G07': 'deterministic simulation at instruction granularity, bytes around objects trapped and garbled by another party, invariant on reads',
    'G08': 'deterministic simulation at instruction granularity, garbage at calls, invariant on stack and x87 depth at every backward jump',
    'G09': 'deterministic simulation of the program loader: seeded placement of sections, stack and memory, seeded binding of symbols; refinement against the program at ordinary addresses',
}
NOTE_P = ('Seeded search: holds on every simulated run made, no proof. The whole of lacc runs as built from /repo with its system calls, heap, clock and '
          'child processes simulated; the linker is a stub. Trusts the simulator, checked against the native compiler on the corpus.')
NOTE_G = ('Seeded search over schedules of compiled code executed instruction by instruction on the processor; holds on every simulated run made, no proof. '
          'Trusts the simulator, gcc as reference compiler and the processor.')
NA = {
    'N01': 'a deterministic sequential function of the source text: no schedule, clock, I/O fault or crash takes part, so fault simulation cannot decide it; differential compiler testing would',
    'N02': 'a relation between two fault-free sequential runs that needs an assembler as oracle; nothing for a scheduler or fault injector to vary',
    'N03': 'a sequential semantic relation between optimisation levels, no schedule or fault involved (the part that involves volatile objects and concurrency is G02 and G05)',
    'N04': 'a sequential relation between fault-free runs, nothing for a scheduler or fault injector to vary',
    'N05': 'sequential interoperation with other compilers, decided by differential testing, not by schedules or faults (the part about registers garbled at calls is G06)',
    'N06': 'a fixpoint of fault-free sequential builds, no schedule or fault involved',
    'N07': 'a sequential function of the source text; only input that ends too early, a result of torn writes, is decided by simulation (C10)',
    'N08': 'a sequential function of the source text, no schedule or fault involved',
}
import sys
claimed = sys.argv[1].split(',') if len(sys.argv) > 1 else sorted(TECH)
checks, na = [], []
for p in P:
    i = p['id']
    if i in claimed and i in TECH:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH[i], level='exploration', level_note=NOTE_P if i[0] == 'C' else NOTE_G))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.split('\n')
hooks = [l.split()[0] for l in log if ' hook: ' in l]
m = dict(version=1, setup_cmd='python3 setup.py',
         hooks=dict(guard='LACC_SIM', enable='psim/build.sh compiles /repo/src/lacc.c with -DLACC_SIM -DAMALGAMATION and links it to the simulator', source_commits=hooks),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')

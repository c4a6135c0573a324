#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE_T = 'Seeded sampling of single faults and fault mixes over real tool binaries, every violation minimised and replayed in a fresh process. Trusts the system-call seam, and the undisturbed run as the reference for complete results.'
CLAIMED = {p: (NOTE_T, 'exploration') for p in ('T01', 'T02', 'T03', 'T04', 'T05', 'T06', 'T07')}
NOTE_K = 'Seeded sampling of histories, crash points and faults over the real save, load and removal code in a child process; every violation is minimised and replayed. Trusts the system-call seam and a map-based reference model of the stored iterations.'
NOTE_R = 'Seeded sampling of faults, crash points and environments over the real main program, serial and distributed; every violation is minimised and replayed. Trusts the system-call seam, the undisturbed run as reference, and a small replacement of the HDF5 library.'
NOTE_M = 'Seeded sampling of schedules, delays and failures of the real distributed engine on a simulated message-passing layer; every violation is minimised and replayed. Trusts the simulator of the message-passing standard, and the serial run as reference.'
CLAIMED.update({p: (NOTE_K, 'exploration') for p in ('C01', 'C02', 'C03', 'C04')})
CLAIMED.update({p: (NOTE_R, 'exploration') for p in ('C05', 'C06', 'C10', 'C11', 'C12')})
CLAIMED.update({p: (NOTE_M, 'exploration') for p in ('C07', 'C08')})
NOTE_O = 'Seeded sampling of interleavings down to single memory accesses, with the real threaded code compiled for access reporting, on a simulated OpenMP library; race detection by vector clocks, results against the one-thread run. Accesses inside uninstrumented libraries other than LAPACK, memory functions and allocation are not seen.'
CLAIMED['C09'] = (NOTE_O, 'exploration')
NUM = 'pure function of its input: no schedule, clock, input/output, fault or interleaving takes part, so a simulator has nothing to decide'
m = dict(version=1, setup_cmd='python3 driver/build.py',
         hooks=dict(guard='none', enable='no hooks in /repo are needed: the checks interpose system calls, the allocator and the message-passing headers from outside', source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CLAIMED:
        note, level = CLAIMED[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 driver/check.py %s --tier quick' % i, thorough_cmd='python3 driver/check.py %s --tier thorough' % i,
                                technique='deterministic simulation with fault injection', level=level, level_note=note))
    else:
        m['not_applicable'].append(dict(property=i, reason=NUM))
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

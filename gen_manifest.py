#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
NOTE = {
 'C05': 'Statistical: exact inclusion probabilities against ensembles of complete simulated histories; thresholds beyond 6 sigma, so a pass excludes gross bias, not biases below about one percent.',
 'C13': 'Differential: the three real implementations run in lockstep on identical draws; a defect shared by all three is not visible here.',
 'C18': 'The scheduler preempts at every instrumented memory access of the library, sequentially consistent; instruction reordering by hardware is not simulated.',
 'C21': 'AddressSanitizer and array-bounds instrumentation of the plain build plus guard zones and allocation counters, over the histories explored.',
}
STD = 'Seeded search: every run is one repeatable execution of the real headers under injected schedules and faults, judged by an oracle independent of the code; assurance is limited to the histories explored (counts in the evidence file). Trusts the compiler and the reference models in /verif/sim.'
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
NA = json.load(open(os.path.join(here, 'not_applicable.json'))) if os.path.exists(os.path.join(here, 'not_applicable.json')) else {}
m = {'version': 1, 'setup_cmd': 'python3 vp.py build',
     'checks': [{'property': i, 'quick_cmd': 'python3 vp.py check %s' % i, 'thorough_cmd': 'python3 vp.py check %s --tier thorough' % i,
                 'evidence_file': 'evidence/%s.json' % i, 'technique': 'deterministic simulation with fault injection, seeded search',
                 'level': 'exploration', 'level_note': (NOTE[i] + ' ' if i in NOTE else '') + STD} for i in ids if i in PROPS],
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'check not built yet')} for i in ids if i not in PROPS],
     'notes': 'The library injects its randomness, clock, hash, allocation and math functions through template parameters, so no hooks are needed in /repo.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)

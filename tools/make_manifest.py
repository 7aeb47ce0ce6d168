#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with an entry in check.py's CHECKS is claimed."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from check import CHECKS
REF = 'property-based testing: generated inputs against an independent reference model'
TECH = {
    'C06': 'property-based testing: generated integrands with known integrals, metamorphic relations and a settings model',
    'C13': 'property-based testing: generated models against independent nested quadrature, and metamorphic scaling relations',
    'C16': 'stateful (model-based) property-based testing: random histories, every answer compared with a freshly built object',
    'C17': 'stateful and schedule-generating property-based testing with injected faults',
    'C18': 'stateful (model-based) property-based testing of generated callback histories',
    'C19': 'differential property-based testing: the same generated model with different thread counts and schedules',
    'C20': 'differential property-based testing: generated Python models against the reference model and the compiled core',
    'C21': 'grammar-based generation of SLAT scripts, run by the interpreter and compared with the Python interface',
    'C22': 'property-based testing: generated recorders, their files parsed and compared with the values recomputed',
    'C23': 'property-based testing: generated input files, imported and compared with the statistics of the data',
}
NOTE = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                            'technique': TECH.get(i, REF), 'level': 'exploration',
                            'level_note': NOTE.get(i, 'Holds on every generated case, whose number, rule and samples are in the evidence file; trusts the '
                                                      'reference in harness/ and the stated generator ranges (DESIGN.md).')})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

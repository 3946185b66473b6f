"""Writes MANIFEST.json from the registered rules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from hb.rules import base
for m in ('server', 'client', 'storage', 'message', 'rest', 'crypto', 'misc', 'tracing', 'units', 'exact', 'records', 'generic'):
    if os.path.exists(os.path.join(V, 'hb', 'rules', m + '.py')):
        importlib.import_module('hb.rules.' + m)
from manifest_na import NA
FAM = 'static analysis: '
T = {}
TECH_DEFAULT = 'path-sensitive value-flow analysis of compiler MIR'
NOTE = 'Decides the stated rule for every path of the analysed functions, from the MIR of the current tree, without running it. Trusted: rustc\'s MIR, the models of std/dependency functions in hb/models.py (e.g. an ECDSA verification is one opaque predicate of key, message and signature), and the loop summarisation of hb/engine.py. Unmodelled external calls are opaque results, never assumed harmless.'
from tech import TECH
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    if i in base.RULES:
        t, n = TECH.get(i, (TECH_DEFAULT, ''))
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': FAM + t, 'level': 'other', 'level_note': (n + ' ' if n else '') + NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Not claimed yet: its static rule is still being built.')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

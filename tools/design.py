"""Writes DESIGN.md: the prose below, and per property what the registered rule says (python3 tools/design.py > DESIGN.md)."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + '/tools')
from hb.rules import base
for m in ('server', 'client', 'storage', 'message', 'rest', 'crypto', 'misc', 'tracing', 'units', 'exact', 'records', 'generic'):
    importlib.import_module('hb.rules.' + m)
from tech import TECH
from manifest_na import NA
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
seeded = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    seeded.setdefault(d['property'], []).append((f.split('/')[-2], ' '.join(d['what_it_breaks'].split()), ' '.join(d['needs'].split())))
where = {p: f[0].__module__.split('.')[-1] + '.py' for p, f in base.RULES.items()}

print(open(V + '/tools/design_head.md').read().rstrip() + '\n')
print('## 5. Properties and how each is decided\n')
print('The file named after each title holds its rule. "Rule" is the text the check also writes into its evidence; "reach" is what the rule covers '
      'that tests cannot. "Planted" lists the bugs under `seeded/` written against the property; every one listed is caught by that property\'s check.\n')
for p in props:
    i = p['id']
    if i not in base.RULES:
        continue
    fn, rule = base.RULES[i]
    t, n = TECH[i]
    print('### %s %s  (`hb/rules/%s`)\n' % (i, p['title'], where[i]))
    print('- **Method.** %s.' % (t[0].upper() + t[1:]))
    print('- **Rule.** %s.' % (rule[0].upper() + rule[1:].rstrip('.')))
    print('- **Bounds.** %s' % n)
    print('- **Reach.** %s' % p['why_tests_cant'])
    if seeded.get(i):
        print('- **Planted.** ' + '; '.join('`%s` (%s)' % (a, b) for a, b, c in seeded[i]) + '.')
    print()
print('## 6. Not applicable\n')
for p in props:
    if p['id'] not in base.RULES:
        print('- **%s %s.** %s' % (p['id'], p['title'], NA[p['id']]))
print()
print(open(V + '/tools/design_tail.md').read().rstrip())

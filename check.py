#!/usr/bin/env python3
"""check.py <property>...: decide properties from /repo's current source.  Exit 0: held; 1: violated; 2: undecided."""
import importlib, json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)


def known():
    fixed, findings = [], []
    p = os.path.join(VERIF, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else ():
        l = l.strip()
        if l.startswith('finding:'):
            d = dict(x.split('=', 1) for x in [l[8:].strip().split(' ', 1)[0]])
            findings.append((d['property'], l[8:].strip().split(' ', 1)[1].split(' -- ')[0].strip(), l.split(' -- ', 1)[1]))
    return findings


def run(pid, tier):
    from hb.rules import base
    for m in ('server', 'client', 'storage', 'message', 'rest', 'crypto', 'misc', 'tracing', 'units', 'exact', 'records', 'generic'):
        if os.path.exists(os.path.join(VERIF, 'hb', 'rules', m + '.py')):
            importlib.import_module('hb.rules.' + m)
    from hb import build
    if pid not in base.RULES:
        print('no rule for', pid)
        return 2
    fn, rule = base.RULES[pid]
    ck = base.Check(pid, tier)
    try:
        fn(ck)
    except (base.AnalysisError, build.AnalysisError) as e:
        # what was refuted before the analysis stopped stays refuted
        if not ck.violations():
            print('UNDECIDED property=%s %s' % (pid, e))
            return 2
        ck.notes.append('analysis incomplete: %s' % e)
    vs = ck.violations()
    kf = [f for f in known() if f[0] == pid]
    new, seen = [], []
    for k, where, detail in vs:
        hit = next((f for f in kf if f[1] == k), None)
        (seen if hit else new).append((k, where, detail, hit))
    n = len(ck.obls)
    ok = sum(1 for o in ck.obls if o[1])
    st = {'states': sum(s.I.states for s in ck.sessions), 'calls': sum(s.I.calls for s in ck.sessions), 'loops': sum(len(s.I.loops) for s in ck.sessions),
          'functions_inlined': len(set().union(*[s.I.inlined for s in ck.sessions]) if ck.sessions else ())}
    cov = {'explanation': rule, 'obligations': n, 'discharged': ok, 'distinct_obligations': len({o[0] for o in ck.obls}),
           'analysed': {k: v for k, v in list(ck.counts.items())}, 'engine': st, 'samples': ck.samples or [o[0] for o in ck.obls[:8]],
           'obligation_list': sorted({o[0] for o in ck.obls})[:200]}
    if ck.notes:
        cov['notes'] = ck.notes
    if seen:
        cov['known_findings'] = [s[0] for s in seen]
    if new:
        cov['violations'] = [{'what': k, 'where': w, 'detail': d} for k, w, d, _ in new]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - ck.t0, 3)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k, w, d, hit in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, hit[2]))
    if n == 0:
        print('UNDECIDED property=%s no obligations were generated' % pid)
        return 2
    print('%s: %d obligations, %d discharged, %s (%.1fs)' % (pid, n, ok, ', '.join('%d %s' % (v, k) for k, v in ck.counts.items()), time.time() - ck.t0))
    if new:
        d = os.path.join(VERIF, '.cache', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + '.json')
        json.dump({'property': pid, 'rule': rule, 'violations': [{'what': k, 'where': w, 'detail': x} for k, w, x, _ in new]}, open(p, 'w'), indent=1)
        for k, w, x, _ in new[:20]:
            print('  - %s%s%s' % (k, ' [%s]' % w if w else '', ': ' + x if x else ''))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return 0


def main():
    tier = os.environ.get('VERIF_TIER', 'quick')
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if ids == ['all']:
        from hb.rules import base
        import json as j
        ids = [c['property'] for c in j.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]
    rc = 0
    for pid in ids:
        try:
            r = run(pid, tier)
        except Exception:
            traceback.print_exc()
            r = 2
        if len(ids) > 1 and r:
            print('>>', pid, 'exit', r)
        rc = max(rc, r) if rc != 1 else 1
    sys.stdout.flush()
    os._exit(rc)


t = threading.Thread(target=main)
t.start()
t.join()

"""Tries behaviour-preserving edits: refactor.py <spec.py> [ids…] [--props C01,C02] [--each].
The spec defines REFACTORS = [dict(id, edits=[(file, old, new)], props)].  The edits are applied together (or one by one with --each) in a
scratch copy; the baseline tests must pass and every check must stay quiet."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import sh, fresh, tests, W, V, B


FAST = False


def apply(r):
    for f, old, new in r['edits']:
        p = os.path.join(W, f)
        s = open(p).read()
        n = s.count(old)
        if n == 0 or (n > 1 and not r.get('all')):
            print('NOT APPLIED', r['id'], f, n, repr(old[:60]))
            return False
        open(p, 'w').write(s.replace(old, new))
    return True


def run(rs, props):
    fresh()
    rs = [r for r in rs if apply(r)]
    if FAST:
        r = sh('cd %s && . /opt/vp/env.sh >/dev/null 2>&1; cd %s && CARGO_TARGET_DIR=%s/chk cargo check --offline 2>&1 | grep -E "^error" -A9' % (W, W, B))
        failed, n = (None, r.stdout[:1500]) if 'error' in r.stdout else ([], 119)
    else:
        failed, n = tests()
    if failed is None:
        print('does not compile', [r['id'] for r in rs], n)
        return
    if failed or n < 119:
        print('tests fail', failed, n)
        return
    ps = props or sorted(set(p for r in rs for p in (r.get('props') or ['all']))) 
    if 'all' in ps:
        ps = ['all'] if not FAST else ['C%02d' % i for i in range(1, 60) if i not in (40, 50, 51, 52, 53, 54, 56)]
    r = sh('cd %s && HB_REPO=%s HB_CACHE=%s/cache timeout 1800 python3 check.py %s' % (V, W, B, ' '.join(ps)))
    bad = [l for l in r.stdout.splitlines() if not l.startswith('ok') and l.strip()]
    print('ALARM' if r.returncode == 1 else 'UNDECIDED' if r.returncode else 'quiet', [r['id'] for r in rs])
    open(B + '/refactor.log', 'w').write(r.stdout)
    if r.returncode:
        for l in [x for x in bad if 'obligations,' not in x and 'KNOWN' not in x][:30]:
            print('   ', l[:400])
    sys.stdout.flush()


if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    a = sys.argv[2:]
    props = None
    if '--props' in a:
        i = a.index('--props')
        props = a[i + 1].split(',')
        del a[i:i + 2]
    each = '--each' in a
    FAST = '--fast' in a          # compile only, no tests, not the two slow checks
    a = [x for x in a if x != '--fast']
    a = [x for x in a if x != '--each']
    rs = [r for r in g['REFACTORS'] if not a or any(r['id'] == x or (x.endswith('*') and r['id'].startswith(x[:-1])) for x in a)]
    if each:
        for r in rs:
            run([r], props)
    else:
        run(rs, props)

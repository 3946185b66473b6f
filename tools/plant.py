"""Plants a bug: plant.py <spec.py>.  The spec defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
Each is tried in a scratch copy (/tmp/w/repo): it must compile, pass the baseline tests, and its demo must fail only with it."""
import json, os, re, shutil, subprocess, sys
B = os.environ.get('HB_SCRATCH', '/tmp/w')
W = B + '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Runs demo.rs as an integration test of a copy of the crate; everything it writes is in a scratch folder.
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= RUSTFLAGS="-W dependency_on_unit_never_type_fallback"
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/crate" "$scratch/crate/tests" "$scratch/data"
cp -r Cargo.toml src "$scratch/crate/"
for lock in Cargo.lock /opt/vp/Cargo.lock.generated; do [ -f "$lock" ] && cp "$lock" "$scratch/crate/Cargo.lock" && break; done
printf '\\n[workspace]\\n' >> "$scratch/crate/Cargo.toml"
cp "$here/demo.rs" "$scratch/crate/tests/demo.rs"
if [ -d "$here/stub" ]; then cp -r "$here/stub" "$scratch/stub"; printf '\\n[patch.crates-io]\\neasy-upnp = { path = "%s/stub" }\\n' "$scratch" >> "$scratch/crate/Cargo.toml"; fi
export DEMO_SCRATCH="$scratch/data" CARGO_TARGET_DIR="$PWD/target"
cd "$scratch/crate" && timeout 280 cargo test --offline -q --test demo @FLAGS@ -- --test-threads=1
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    if not os.path.isdir(W):
        os.makedirs(B, exist_ok=True)
        sh('cp -a /repo %s' % W)
    sh('cd %s && git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD' % W)


def tests():
    env = '. /opt/vp/env.sh; cd %s; ' % W
    r = sh('flock /tmp/hb-tests.lock bash -c \'%s cargo test --workspace --no-fail-fast --offline -- --test-threads 8\'' % env)
    open(B + '/test.log', 'w').write(r.stdout)
    if 'could not compile' in r.stdout:
        return None, r.stdout[-3000:]
    passed = set(re.findall(r'^test (\S.*?)(?: - should panic)? \.\.\. ok', r.stdout, re.M))
    failed = set(re.findall(r'^test (\S.*?) \.\.\. FAILED', r.stdout, re.M))
    if failed:
        open(B + '/test_fail.log', 'w').write(r.stdout)
    return failed, len(passed)


def plant(b):
    d = os.path.join(V, 'seeded', b['id'])
    fresh()
    own = set(sh('cd %s && git log --format=%%H --grep="^base$" -1' % W).stdout.split())
    for f, old, new in b['edits']:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            return 'edit of %s matches %d times' % (f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = sh('cd %s && git diff' % W).stdout
    # removed lines must come from the original repository
    base = sh('cd /repo && git rev-list --max-parents=0 HEAD').stdout.split()[0]
    cur = None
    ok = False
    for l in diff.splitlines():
        m = re.match(r'--- a/(.*)', l)
        if m:
            orig = set(x.strip() for x in sh('cd /repo && git show %s:%s' % (base, m.group(1))).stdout.splitlines())
            continue
        if l.startswith('-') and not l.startswith('---') and l[1:].strip():
            if l[1:].strip() in orig:
                ok = True
            else:
                print('   note: %s removes a line which is not original: %s' % (b['id'], l))
    if not ok and any(l.startswith('-') and not l.startswith('---') for l in diff.splitlines()):
        return 'changes no original line'
    failed, n = tests()
    if failed is None:
        return 'does not compile\n' + n
    if failed or n < 119:
        return 'tests fail: %s (%s pass)' % (sorted(failed), n)
    tmp = B + '/demo'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.sh', 'w').write(DEMO_SH.replace(' @FLAGS@', b.get('flags') and ' ' + b['flags'] or ''))
    if b.get('stub'):
        shutil.copytree(os.path.join(V, 'tools', 'bugs', 'stub'), tmp + '/stub')
    os.chmod(tmp + '/demo.sh', 0o755)
    open(tmp + '/demo.rs', 'w').write(b['demo'])
    r1 = sh('cd %s && bash %s/demo.sh' % (W, tmp))
    open(B + '/demo1.log', 'w').write(r1.stdout)
    if r1.returncode == 0 or ('test result: FAILED' not in r1.stdout and 'signal: 6' not in r1.stdout and not (b['prop'] == 'C55' and 'cannot be s' in r1.stdout)):
        return 'demo does not fail with the bug:\n' + r1.stdout[-2500:]
    sh('cd %s && git checkout -q -- .' % W)
    r2 = sh('cd %s && bash %s/demo.sh' % (W, tmp))
    if r2.returncode != 0:
        return 'demo fails without the bug:\n' + r2.stdout[-2500:]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    for f in ('demo.sh', 'demo.rs'):
        shutil.copy(tmp + '/' + f, d + '/' + f)
    if b.get('stub'):
        shutil.copytree(tmp + '/stub', d + '/stub')
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    return None


def check(b):
    """What the checks say about the planted bug."""
    fresh()
    sh('cd %s && git apply %s/seeded/%s/patch.diff' % (W, V, b['id']))
    r = sh('cd %s && HB_REPO=%s HB_CACHE=%s/cache timeout 900 python3 check.py %s' % (V, W, B, b['prop']))
    sh('cd %s && git checkout -q -- .' % W)
    return r.returncode, [l for l in r.stdout.splitlines() if l.startswith('  - ') or 'UNDEC' in l or 'rror' in l][:4]


if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    for b in g['BUGS']:
        if only and b['id'] not in only and '--check' not in only:
            continue
        if '--check' not in only:
            e = plant(b)
            if e:
                print('NOT PLANTED', b['id'], e)
                continue
        rc, ls = check(b)
        print({0: 'MISSED', 1: 'caught', 2: 'UNDECIDED'}.get(rc, rc), b['id'], b['prop'], *ls, sep='\n      ' if rc != 0 else ' ')
        sys.stdout.flush()

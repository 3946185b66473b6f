"""Type-checks the crate, with the witness crate on top of it, under combinations of its features."""
import itertools, os, re, shutil, subprocess
from . import build as B

FEATURES = B.ALL


def quick():
    """Every combination of any three features being on or off occurs in one of these 18 subsets."""
    out = [(), tuple(FEATURES)]
    for f in FEATURES:
        out += [(f,), tuple(x for x in FEATURES if x != f)]
    return out


def every():
    return [c for r in range(len(FEATURES) + 1) for c in itertools.combinations(FEATURES, r)]


def prepare(name='witness', source='lib.rs'):
    d = os.path.join(B.CACHE, name)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    toml = '[package]\nname = "hyperborea-%s"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nserde = "1"\nhyperborealib = { path = "%s", default-features = false }\n\n[profile.dev]\ndebug = 0\n\n[features]\n' % (name, B.REPO)
    toml += ''.join('%s = ["hyperborealib/%s"]\n' % (f, f) for f in FEATURES)
    put(os.path.join(d, 'Cargo.toml'), toml)
    put(os.path.join(d, 'src', 'lib.rs'), open(os.path.join(B.VERIF, 'witness', source)).read())
    lock = os.path.join(B.REPO, 'Cargo.lock')
    src = open(lock if os.path.exists(lock) else B.LOCK_FALLBACK).read()
    stamp = os.path.join(d, 'lock.from')
    if not os.path.exists(stamp) or open(stamp).read() != src:
        put(os.path.join(d, 'Cargo.lock'), src)
        put(stamp, src)
    return d


def put(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        open(p, 'w').write(s)


def env():
    e = B.base_env('stable')
    e.pop('RUSTFLAGS', None)
    e['CARGO_TARGET_DIR'] = os.path.join(B.CACHE, 'witness-target')
    return e


def check(d, subset):
    """None if both crates type-check under the subset, else (crate, message, location)."""
    r = subprocess.run(['cargo', 'check', '--offline', '--lib', '--features', ','.join(subset)], cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        return None
    m = re.search(r'could not compile `([^`]*)`', r.stdout)
    e = re.search(r'^(error(?:\[E\d+\])?: .*)\n(?:\s*-->\s*(\S+))?', r.stdout, re.M)
    if not m or m.group(1) not in ('hyperborealib', 'hyperborea-witness'):
        raise B.AnalysisError('cargo check fails outside the crate (%s): %s' % (','.join(subset), r.stdout[-1500:]))
    loc = re.search(r'-->\s*(\S+)', r.stdout[e.start():]) if e else None
    w = loc.group(1) if loc else ''
    w = w.replace(B.REPO + '/', '')
    return m.group(1), e.group(1) if e else r.stdout[-500:], w


def forget():
    """Drop what was built of the two crates themselves; the dependencies stay."""
    t = os.path.join(B.CACHE, 'witness-target', 'debug')
    for sub in ('deps', '.fingerprint'):
        d = os.path.join(t, sub)
        for f in os.listdir(d) if os.path.isdir(d) else ():
            if 'hyperborea' in f:
                p = os.path.join(d, f)
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)


def run(subsets):
    with B.Locked('witness'):
        d = prepare()
        forget()
        try:
            return {s: check(d, s) for s in subsets}
        finally:
            forget()


def claims(text):
    """[(name of the claim, first line, last line)] of a witness file: one per top-level function."""
    out = []
    for i, l in enumerate(text.split('\n'), 1):
        m = re.match(r'fn (\w+)', l)
        if m:
            out.append([m.group(1), i, i])
        elif out:
            out[-1][2] = i
    return [tuple(x) for x in out if x[0] not in ('shared', 'sent')]


def threads(subsets):
    """{claim: {subset: None or (message, culprit)}} for the claims of witness/threads.rs."""
    res = {}
    with B.Locked('witness'):
        d = prepare('threads', 'threads.rs')
        cl = claims(open(os.path.join(B.VERIF, 'witness', 'threads.rs')).read())
        forget()
        try:
            for s in subsets:
                r = subprocess.run(['cargo', 'check', '--offline', '--lib', '--features', ','.join(s)], cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                for c, _, _ in cl:
                    res.setdefault(c, {})[s] = None
                if r.returncode == 0:
                    continue
                n = 0
                for m in re.finditer(r'^error(?:\[E\d+\])?: (.*)\n((?:(?!^error|^warning).*\n?)*)', r.stdout, re.M):
                    msg, rest = m.group(1), m.group(2)
                    if not re.search(r'cannot be (sent|shared) between threads|is not `Send`|is not `Sync`|implementation of `(Send|Sync)`|not general enough|higher-ranked lifetime', msg + rest):
                        continue
                    w = re.search(r'--> (?:threads/)?src/lib\.rs:(\d+)', rest)
                    hit = [c for c, a, b in cl if w and a <= int(w.group(1)) <= b]
                    culprit = re.search(re.escape(B.REPO) + r'/(\S+?):\d+:\d+', rest)
                    for c in hit:
                        n += 1
                        res[c][s] = (msg, culprit.group(1) if culprit else '')
                if not n:
                    raise B.AnalysisError('the thread witnesses do not type-check for another reason (%s): %s' % (','.join(s), r.stdout[-1500:]))
        finally:
            forget()
    return res


if __name__ == '__main__':
    for s, r in run(quick()).items():
        if r:
            print(s, r)

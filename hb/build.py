"""Builds the rustc driver and extracts facts from /repo's current tree.

Nothing of the analysed crate is executed: cargo check runs our driver as the
workspace wrapper, and the driver dumps type-checked MIR as JSON."""
import os, sys, json, hashlib, subprocess, fcntl, shutil, re, time, pickle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HB_REPO', '/repo')
CACHE = os.environ.get('HB_CACHE', os.path.join(VERIF, '.cache'))
LOCK_FALLBACK = '/opt/vp/Cargo.lock.generated'
CRATE = 'hyperborealib'
ALL = ['serde', 'tracing', 'client-reqwest', 'server-axum', 'port-forward-upnp',
       'router-global-table', 'traversal-bfs-recursion', 'inbox-stored-queue']
CONFIGS = {
    'main': [f for f in ALL if f != 'tracing'],
    'full': ALL,
    'bare': [],
    'release': [f for f in ALL if f != 'tracing'],
}
for _f in CONFIGS['main']:
    CONFIGS['no-' + _f] = [f for f in CONFIGS['main'] if f != _f]
    CONFIGS['only-' + _f] = [_f]
# Debug assertions off, as in an optimised build; arithmetic stays checked, so that the programs can be compared.
PROFILE = {'release': ['--config', 'profile.dev.package.%s.debug-assertions=false' % CRATE, '--config', 'profile.dev.package.%s.overflow-checks=true' % CRATE]}


class AnalysisError(Exception):
    pass


def base_env(toolchain):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO', 'RUST'))}
    e['HOME'] = '/root'
    e['PATH'] = '/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['RUSTUP_TOOLCHAIN'] = toolchain
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    e['RUSTFLAGS'] = '-W dependency_on_unit_never_type_fallback'
    return e


def sysroot():
    return subprocess.check_output(['rustc', '--print', 'sysroot'], env=base_env('nightly'), text=True).strip()


class Locked:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        try:
            with open(p, 'rb') as f:
                h.update(f.read())
        except FileNotFoundError:
            h.update(b'-')
        h.update(b'\0')
    return h.hexdigest()[:24]


def repo_files():
    out = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        out += [os.path.join(root, f) for f in sorted(fs)]
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs', '.cargo/config.toml', 'rust-toolchain', 'rust-toolchain.toml'):
        out.append(os.path.join(REPO, f))
    return out


def driver():
    src = os.path.join(VERIF, 'driver', 'hbdump.rs')
    h = file_hash([src])
    out = os.path.join(CACHE, 'hbdump-' + h)
    if os.path.exists(out):
        return out, h
    with Locked('driver'):
        if os.path.exists(out):
            return out, h
        tmp = out + '.tmp'
        r = subprocess.run(['rustc', '-O', '--edition', '2021', src, '-o', tmp], env=base_env('nightly'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisError('driver does not build:\n' + r.stdout[-4000:])
        os.rename(tmp, out)
    return out, h


def workdir():
    """/repo itself when it has a Cargo.lock, else a scratch copy with the recorded one."""
    return REPO


def ensure_lock(d):
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock) and os.path.exists(LOCK_FALLBACK):
        shutil.copy(LOCK_FALLBACK, lock)
        return True
    return False


def run_driver(repo, feats, out, drv, target, extra=()):
    env = base_env('nightly')
    env.update(CARGO_TARGET_DIR=target, HB_CRATE=CRATE, HB_OUT=out,
               LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=drv)
    # cargo's freshness cache would skip the wrapper
    for pat in ('debug/build/' + CRATE, 'debug/.fingerprint'):
        p = os.path.join(target, pat)
        if pat.endswith(CRATE):
            shutil.rmtree(p, ignore_errors=True)
        elif os.path.isdir(p):
            for f in os.listdir(p):
                if f.startswith(CRATE + '-'):
                    shutil.rmtree(os.path.join(p, f), ignore_errors=True)
    cmd = ['cargo', 'check', '--offline', '--lib', '--no-default-features']
    if feats:
        cmd += ['--features', ','.join(feats)]
    cmd += extra
    return subprocess.run(cmd, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def facts_path(config):
    drv, dh = driver()
    h = file_hash(repo_files())
    return os.path.join(CACHE, 'facts-%s-%s-%s.json' % (config, h, dh[:8])), drv


def extract(config):
    path, drv = facts_path(config)
    if os.path.exists(path):
        return path
    with Locked('facts'):
        if os.path.exists(path):
            return path
        made = ensure_lock(REPO)
        tmp = path + '.tmp'
        if os.path.exists(tmp):
            os.remove(tmp)
        target = os.path.join(CACHE, 'target')
        r = run_driver(REPO, CONFIGS[config], tmp, drv, target, PROFILE.get(config, ()))
        if r.returncode and 'cannot be built from' in r.stdout or (r.returncode and 'never' in r.stdout and 'fallback' in r.stdout):
            # The analysis compiler (nightly) lets diverging inference variables fall back to `!`,
            # the build compiler (stable) to `()`.  Pin the latter in a scratch copy.
            scratch = os.path.join(CACHE, 'scratch')
            shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch)
            for f in ('Cargo.toml', 'Cargo.lock'):
                shutil.copy(os.path.join(REPO, f), scratch)
            shutil.copytree(os.path.join(REPO, 'src'), os.path.join(scratch, 'src'))
            for m in re.finditer(r'--> (src/[^:]+):(\d+):', r.stdout):
                f = os.path.join(scratch, m.group(1))
                ls = open(f).read().split('\n')
                n = int(m.group(2)) - 1
                ls[n] = ls[n].replace('Result<_,', 'Result<(),')
                open(f, 'w').write('\n'.join(ls))
            r = run_driver(scratch, CONFIGS[config], tmp, drv, target, PROFILE.get(config, ()))
            shutil.rmtree(scratch, ignore_errors=True)
        if made:
            os.remove(os.path.join(REPO, 'Cargo.lock'))
        if r.returncode or not os.path.exists(tmp):
            raise AnalysisError('the crate does not type-check (%s):\n%s' % (config, r.stdout[-6000:]))
        os.rename(tmp, path)
        # keep the cache small
        olds = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith('facts-') and f.endswith('.json')), key=os.path.getmtime)
        for o in olds[:-24]:
            try:
                os.remove(o)
            except OSError:
                pass
    return path


_loaded = {}


def load(config='main'):
    if config not in _loaded:
        p = extract(config)
        with open(p) as f:
            _loaded[config] = json.load(f)
    return _loaded[config]


if __name__ == '__main__':
    t = time.time()
    for c in sys.argv[1:] or ['main', 'full']:
        print(extract(c), round(time.time() - t, 1))

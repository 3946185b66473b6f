"""Tracing only observes: C43.  Secrets never leave: C29."""
import sys
from .base import *
from .misc import entries, short_name, NOFACTS_OF
from . import server as SV

# ------------------------------------------------------------------ C43
_ids = {}


def intern(x):
    return _ids.setdefault(x, len(_ids))


CLO = re.compile(r'\{(closure|coroutine[^#}]*|impl|const|async[^#}]*)#\d+\}')


class Names:
    """Serialises the values of one outcome with call sites, loop variables and memory cells named by
    order of appearance, so that outcomes of two builds of one function can be compared."""

    def __init__(self):
        self.num, self.memo, self.fixed = {}, {}, False

    def name(self, k, alt):
        if k not in self.num:
            if self.fixed:
                return ('new', alt)
            self.num[k] = len(self.num)
        return self.num[k]

    def plain(self, x):
        if isinstance(x, Term):
            return self.t(x)
        if isinstance(x, tuple):
            return tuple(self.plain(y) for y in x)
        if isinstance(x, str):
            return CLO.sub(r'{\1}', x)
        if isinstance(x, (frozenset, set)):
            return tuple(sorted(map(repr, x)))
        return x

    def t(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op == 'call':
            r = ('call', self.plain(t.a[0]), self.plain(t.a[1]), None if t.a[2] is None else self.name(('site', t.a[2]), 0), self.plain(t.a[3]) if len(t.a) > 3 else ())
        elif t.op == 'fut':
            r = ('fut', self.plain(t.a[0]), self.plain(t.a[1]), self.name(('site', t.a[2]), 0), self.plain(t.a[3]))
        elif t.op == 'phi':
            r = ('phi', self.name(t, 0), t.a[2], self.plain(t.a[3]) if len(t.a) > 3 else None)
        elif t.op in ('ref', 'loc', 'ptr', 'refmut'):
            r = (t.op, self.name(('cell', t.a[0]), 0)) + tuple(self.plain(x) for x in t.a[1:])
        elif t.op == 'agg' and t.a[0][0] in ('closure', 'coroutine'):
            r = ('agg', CLO.sub('', str(t.a[0][1])), self.plain(t.a[1]))
        elif t.op == 'eq':
            r = ('eq',) + tuple(self.plain(x) for x in sorted(t.a, key=anonymous))
        elif t.op == 'bin' and t.a[0] in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor'):
            r = ('bin', t.a[0]) + tuple(self.plain(x) for x in sorted(t.a[1:3], key=anonymous)) + tuple(t.a[3:])
        else:
            r = (t.op,) + tuple(self.plain(x) for x in t.a)
        r = intern(r)
        self.memo[t] = r
        return r

    def facts(self, f):
        out = set()
        for t, x in f.v.items():
            out.add(('v', self.t(t), self.plain(x)))
        for t, x in f.b.items():
            out.add(('b', self.t(t), x))
        for t, x in f.r.items():
            out.add(('r', self.t(t), self.plain(x)))
        for t, x in f.s.items():
            out.add(('s', self.t(t), x))
        return frozenset(out)

    def events(self, evs):
        out = []
        for e in evs:
            if e.kind == 'tracing':
                continue
            if e.kind == 'loop':
                out.append(self.loop(e.data))
                continue
            out.append((e.kind, self.plain(e.name), self.plain(e.args), self.plain(e.res) if e.res is not None else None))
        return tuple(out)

    def loop(self, lp):
        k = ('loop', id(lp))
        if k in self.num:
            return ('loop', self.num[k])
        me = self.name(k, 0)
        if self.fixed:
            return ('loop', 'inner')
        ways = []
        for i, s in enumerate(lp.paths):
            evs = s.events()
            n = max([j for j, e in enumerate(evs) if e.kind == 'loop' and e.data is lp], default=-1)
            backs = tuple((self.t(ph), self.plain(b[i]) if i < len(b) and b[i] is not None else None) for ph, (init, b) in lp.phis.items())
            ways.append((self.events(evs[n + 1:]), tuple(sorted(backs, key=repr))))
        inits = tuple((self.t(ph), self.plain(init) if init is not None else None) for ph, (init, b) in lp.phis.items())
        return ('loop', me, tuple(sorted(set(ways), key=repr)), tuple(sorted(inits, key=repr)))


class Anonymous(Names):
    def name(self, k, alt):
        return '_'


ANON = Anonymous()


def anonymous(t):
    """An order on the operands of commutative operators which does not depend on the build."""
    return ANON.t(t)


def signature_of(o):
    n = Names()
    evs = n.events(o.events)
    ret = n.t(o.ret)
    mem = tuple(sorted(((str(k[1]), n.t(v)) for k, v in o.st.mem.items() if isinstance(k, tuple) and k and k[0] == 'in'), key=repr))
    n.fixed = True
    n.memo = dict(n.memo)
    return (evs, ret, mem), n.facts(o.facts)


def panics_of(I):
    out = set()
    for p in I.panics:
        out.add((p.kind, CLO.sub(r'{\1}', short_name(p.chain[0]) if p.chain else ''), p.where.split(':')[0] if isinstance(p.where, str) else str(p.where[0]) if p.where else ''))
    return out


def differ(outs_a, outs_b):
    """None, or a description of an outcome of one side with no counterpart."""
    A = [signature_of(o) for o in outs_a]
    B_ = [signature_of(o) for o in outs_b]
    ia = {}
    for i, (s, f) in enumerate(A):
        ia.setdefault(s, []).append((i, f))
    ib = {}
    for i, (s, f) in enumerate(B_):
        ib.setdefault(s, []).append((i, f))
    for s, l in ib.items():
        for i, f in l:
            if not any(g <= f for _, g in ia.get(s, ())):
                return 'an outcome with the feature has no counterpart without it', outs_b[i]
    for s, l in ia.items():
        for i, g in l:
            if not any(g <= f for _, f in ib.get(s, ())):
                return 'an outcome without the feature has no counterpart with it', outs_a[i]
    return None


def compare(ck, key, sp, runs):
    """runs: [(label, outs, interp)], the first one without the feature."""
    _, base, bi = runs[0]
    pb = panics_of(bi)
    for label, outs, I in runs[1:]:
        ck.count('compared paths', len(outs))
        d = differ(base, outs)
        det = ''
        if d:
            o = d[1]
            det = '%s: returns %s after %s' % (d[0], show(o.ret)[:150], '; '.join(repr(e)[:100] for e in o.events[-3:]))
        ck.ob('%s: same results and effects with tracing %s' % (key, label), d is None, sp, det)
        more = panics_of(I) - pb
        ck.ob('%s: no new panics with tracing %s' % (key, label), not more, sp, ', '.join('%s in %s' % x[:2] for x in sorted(more))[:300])


@prop('C43', 'two builds of the crate, without and with the tracing feature, are interpreted abstractly function by function (every public function and trait method, every endpoint handler, every HTTP adapter closure), the second one once with every log statement enabled and once with every one disabled; up to renaming of call sites each path of one has a path of the other with the same result, final receiver state and sequence of effects, the conditions of the path without the feature being implied')
def c43(ck):
    Fm, Ff = ck.facts('main'), ck.facts('full')
    full = {}
    for b in entries(Ff):
        full.setdefault(b['name'], []).append(b)
    seen = {}
    for b in entries(Fm):
        k = seen.get(b['name'], 0)
        seen[b['name']] = k + 1
        l = full.get(b['name'], [])
        key = short_name(b['name'])
        if not ck.ob('%s exists with the tracing feature' % key, k < len(l), b['sp']):
            continue
        runs = []
        for label, F, body, on in (('absent', 'main', b, False), ('enabled', 'full', l[k], True), ('disabled', 'full', l[k], False)):
            ses = ck.session(config=F)
            ses.I.tracing = on
            runs.append((label, ses.entry(body), ses.I))
        ck.count('functions')
        compare(ck, key, b['sp'], runs)
    runs = {}
    for label, cfg, on in (('absent', 'main', False), ('enabled', 'full', True), ('disabled', 'full', False)):
        ses, hs = SV.handlers(ck, config=cfg, tracing=on)
        for h in hs:
            runs.setdefault(h.name, []).append((label, h.outs, ses.I))
        for name, o, I in adapters(ck, cfg, on):
            runs.setdefault(name, []).append((label, o, I))
    for n, r in runs.items():
        ck.count('handlers')
        if ck.ob('%s is registered with and without the feature' % n, len(r) == 3):
            compare(ck, n, '', r)
    ck.floor('functions', 100)
    ck.floor('handlers', 5)


def adapters(ck, cfg, on):
    F = ck.facts(cfg)
    from .misc import impls_of, impl_method
    for aid, im in impls_of(F, 'HttpServer'):
        for verb in ('get', 'post'):
            ses = ck.session(config=cfg, transparent=('HttpServer',))
            ses.I.tracing = on
            for o in ses.entry(impl_method(F, im, verb))[:1]:
                for clo in sorted({x for v in o.st.mem.values() for x in subterms(v) if x.op == 'agg' and x.a[0][0] == 'closure'}, key=lambda x: x.id):
                    hb = F.bodies[clo.a[0][1]]
                    ses.I.panics.clear()
                    outs = ses.apply(clo, [mk('par', 'arg%d' % i) for i in range(hb['argc'] - 1)], State(dict(o.st.mem), NOFACTS_OF(o), None))
                    yield '%s::%s handler' % (aid.split('::')[-1], verb), outs, ses.I


# ------------------------------------------------------------------ C56
@prop('C56', 'the crate is built with different sets of optional features, and with and without debug assertions, and the builds are interpreted abstractly function by function (every public function and trait method both builds have, every endpoint handler, every HTTP adapter closure); up to renaming of call sites each path of one has a path of the other with the same result, final receiver state and sequence of effects, and no build has a panic the other lacks (debug assertions aside)')
def c56(ck):
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing
    feats = [f for f in FX.build.CONFIGS['main']]
    cfgs = ['release', 'bare'] + ['no-' + f for f in feats]
    if ck.tier == 'thorough':
        cfgs += ['only-' + f for f in feats]
    for c in cfgs:
        FX.build.extract(c)
    global _BASE
    _BASE = everything(ck, 'main')
    with ProcessPoolExecutor(6, mp_context=multiprocessing.get_context('fork')) as pool:
        for c, (obls, counts) in zip(cfgs, pool.map(one_config, cfgs)):
            ck.count('builds compared')
            for x in obls:
                ck.ob(*x)
            for k, n in counts.items():
                ck.count(k, n)
    ck.floor('functions', 300)
    ck.floor('handlers', 20)


def everything(ck, cfg):
    """{name: (outcomes, interpreter, location)} of everything reachable from outside in one build."""
    F = ck.facts(cfg)
    out, seen = {}, {}
    for b in entries(F):
        k = seen.get(b['name'], 0)
        seen[b['name']] = k + 1
        ses = ck.session(config=cfg)
        out['fn', b['name'], k] = ses.entry(b), ses.I, b['sp']
    ses, hs = SV.handlers(ck, config=cfg)
    for h in hs:
        out['handler', h.name, 0] = h.outs, ses.I, h.where
    for name, o, I in adapters(ck, cfg, False):
        out['handler', name, 0] = o, I, ''
    return out


def one_config(cfg):
    sys.setrecursionlimit(200000)
    ck = Check('C56', 'quick')
    mine = everything(ck, cfg)
    what = 'without debug assertions' if cfg == 'release' else 'with no optional feature' if cfg == 'bare' else 'without feature %s' % cfg[3:] if cfg.startswith('no-') else 'with feature %s alone' % cfg[5:]
    for key, (outs, I, sp) in mine.items():
        if key not in _BASE:
            continue
        kind, name = key[0], short_name(key[1])
        bouts, bI, bsp = _BASE[key]
        ck.count('functions' if kind == 'fn' else 'handlers')
        ck.count('compared paths', len(outs))
        d = differ(outs, bouts) if cfg == 'release' else differ(bouts, outs)
        det = ''
        if d:
            o = d[1]
            det = 'one build returns %s after %s, the other never does' % (show(o.ret)[:150], '; '.join(repr(e)[:100] for e in o.events[-3:]))
        ck.ob('%s: same results and effects %s' % (name, what), d is None, bsp or sp, det)
        more = panics_of(I) - panics_of(bI)
        ck.ob('%s: no new panics %s' % (name, what), not more, bsp or sp, ', '.join('%s in %s' % x[:2] for x in sorted(more))[:300])
        if cfg != 'release':
            more = panics_of(bI) - panics_of(I)
            ck.ob('%s: no panics that go away %s' % (name, what), not more, bsp or sp, ', '.join('%s in %s' % x[:2] for x in sorted(more))[:300])
    return ck.obls, ck.counts


# ------------------------------------------------------------------ C29
# What a term reveals about secret keys: 'bytes' (key material or something computed from it that is not
# public), 'key' (a key object), 'box' (a value with a key object inside), None.
PUBLIC = {'pubkey', 'vk', 'ecdsa_sign', 'sigbytes', 'ecdsa_verify', 'sig_from', 'len', 'aead_decrypt', 'hkdf_ok'}
SINKS = re.compile(r'^(HttpClient|Router|MessagesInbox|Traversal|PortForwarder)::|(^|::)(fs|io|net|process|env|os|log|tracing|reqwest|axum|easy_upnp|tokio)(::|$)|_print|_eprint')


class Secrets:
    def __init__(self, F, key='SecretKey'):
        self.F = F
        self.key = adt_named(F, key)['id']
        self.params = {}
        self.encoded = ()            # parameters which are secret keys in an encoded form
        self.memo = {}
        self.kinds = {}

    # -- types
    def peel(self, t):
        while t is not None and (t['k'] in ('ref', 'ptr') or t['k'] == 'adt' and t['id'].split('::')[-1] in ('Arc', 'Rc', 'Box', 'Pin', 'Mutex', 'RwLock', 'ManuallyDrop') and self.args(t)):
            t = self.F.types[t['el']] if t['k'] in ('ref', 'ptr') else self.args(t)[0]
        return t

    def args(self, t):
        a = [self.F.types[x] for x in t.get('args', t.get('ga', ())) if isinstance(x, int)]
        return a

    def kind(self, t, depth=0):
        """Does a type carry secret keys?"""
        t = self.peel(t)
        if t is None or depth > 8:
            return None
        if t['k'] in ('adt',):
            if t['id'] == self.key or t['id'].startswith('k256::') and t['id'].endswith(('SecretKey', 'SigningKey', 'NonZeroScalar')) or 'elliptic_curve' in t['id'] and t['id'].endswith('::SecretKey'):
                return 'key'
            k = (t['id'],)
            if k in self.kinds:
                r = self.kinds[k]
            else:
                self.kinds[k] = None
                r = None
                a = self.F.adts.get(t['id'])
                if a and a.get('local'):
                    for v in a['variants']:
                        for f in v['fields']:
                            if f['ty'] is not None and self.kind(self.F.types[f['ty']], depth + 1):
                                r = 'box'
                self.kinds[k] = r
            if r is None:
                for x in self.args(t):
                    if self.kind(x, depth + 1):
                        return 'box'
            return r
        if t['k'] in ('tuple', 'slice', 'array'):
            for x in t.get('els', [t['el']] if 'el' in t else []):
                if self.kind(self.F.types[x], depth + 1):
                    return 'box'
        return None

    def typ(self, t):
        """Declared type of a parameter or of a field reached from one."""
        if t.op == 'par':
            return self.peel(self.params.get(t.a[0]))
        if t.op == 'fld':
            b = self.typ(t.a[0])
            if b and b['k'] == 'adt':
                a = self.F.adts.get(b['id'])
                for v in (a['variants'] if a else ()):
                    if t.a[1] in (None, v['name']):
                        for f in v['fields']:
                            if str(f['name']) == str(t.a[2]):
                                if f['ty'] is None:
                                    return None
                                ft = self.F.types[f['ty']]
                                if ft['k'] == 'param' and self.args(b):
                                    return self.peel(self.args(b)[0])
                                return self.peel(ft)
        return None

    # -- values
    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self.judge(t)
        self.memo[t] = r
        return r

    def judge(self, t):
        if t.op == 'par' and t.a[0] in self.encoded:
            return 'bytes'
        if t.op in ('par', 'fld'):
            ty = self.typ(t)
            if ty is not None:
                return self.kind(ty)
            if t.op == 'par':
                return None
            if t.a[1] == 'Err' and t.a[0].op == 'call' and not str(t.a[0].a[0]).startswith('hyperborealib'):
                return None                # errors of other libraries describe the failure, not the data
            b = self.of(t.a[0])
            return b if b != 'box' else None
        if t.op in ('len', 'eq', 'discr', 'undef', 'static', 'int', 'str'):
            return None
        if t.op == 'call':
            n = t.a[0] if isinstance(t.a[0], str) else ''
            if n in PUBLIC:
                return None
            if n in ('sk_random',):
                return 'key'
            if n in ('sk_from',):
                return 'key'
            if n in ('sk', 'to_nonzero_scalar'):
                return 'key' if self.any(t.a[1]) else None
            if n == 'aead_encrypt':
                return self.of(t.a[1][-1])
            if re.search(r'hash::Hash(er)?::', n):
                return None
            if re.search(r'field::debug$|^debug$|(^|::)Debug::fmt$|::Formatter::debug_|::Debug(Struct|Tuple|List|Map|Set|Inner)::', n):
                r = self.any(t.a[1])
                return None if r in ('key', 'box') else r
            return 'bytes' if self.any(t.a[1]) else None
        if t.op == 'agg':
            if t.a[0][0] == 'adt' and t.a[0][1] == self.key:
                return 'key'
            r = {self.of(x) for x in t.a[1]} - {None}
            return 'bytes' if 'bytes' in r else 'box' if r else None
        if t.op == 'cipher':
            return None
        r = None
        for x in children(t):
            k = self.of(x)
            r = 'bytes' if k == 'bytes' or r == 'bytes' else k or r
        return r

    def any(self, ts):
        r = {self.of(x) for x in ts} - {None}
        return 'bytes' if 'bytes' in r else 'box' if 'box' in r else 'key' if r else None

    def culprit(self, t):
        """The smallest revealing subterm."""
        for x in children(t):
            if self.of(x):
                c = self.culprit(x)
                if c is not None:
                    return c
        return t


def redacted(ck, F, S_):
    """Printing a key with {:?} reveals nothing: its Debug is derived over k256's redacting one."""
    key = S_.key
    for tr, name in (('Debug', 'Debug'), ('Display', 'Display'), ('LowerHex', 'LowerHex')):
        ims = [im for a, im in impls_of(F, tr) if a == key and im['trait'].split('::')[-1] == tr]
        for im in ims:
            b = impl_method(F, im, 'fmt')
            if b is None:
                continue
            inner = F.adts[key]['variants'][0]['fields']
            safe = b['derived'] and all((F.types[f['ty']].get('id') or '').endswith('SecretKey') for f in inner)
            if not safe:
                ses = ck.session(config='full')
                bad = None
                for o in ses.entry(b):
                    for t in [o.ret] + [x for e in o.events for x in e.args] + list(o.st.mem.values()):
                        S_.params = {'self': {'k': 'adt', 'id': key}}
                        S_.memo = {}
                        for x in subterms(t):
                            if S_.of(x) == 'bytes':
                                bad = x
                safe = bad is None
            ck.ob('%s of a secret key does not show it' % tr, safe, b['sp'])


@prop('C29', 'every public function, endpoint handler and HTTP adapter is interpreted abstractly with every log statement enabled, secret keys being the values of type SecretKey (and fields of that type) and everything computed from them other than public keys, signatures and ciphertexts; none may reach a log record (other than by the redacting Debug of the key types), a request, URL or reply, a driver or file operation, an error value, standard output, or the result of a function other than the key\'s own serialisation functions')
def c29(ck):
    F = ck.facts('full')
    S_ = Secrets(F)
    redacted(ck, F, S_)
    own_impl = {im['id'] for im in F.impls.values() if self_adt(F, im) == S_.key}
    for b in entries(F):
        own = b['impl'] in own_impl
        name = short_name(b['name'])
        ps = {}
        for i in range(b['argc']):
            ps[b['locals'][i + 1][1] or 'arg%d' % i] = F.types[b['locals'][i + 1][0]]
        S_.params, S_.memo = ps, {}
        S_.encoded = set(ps) if own and b['impl'] and not F.impls[b['impl']].get('trait') and 'self' not in ps and gives_key(F, S_, b) else ()
        ses = ck.session(config='full')
        ses.I.tracing = True
        outs = ses.entry(b)
        ck.count('functions')
        leaks(ck, S_, name, b['sp'], outs, own, b)
    S_.encoded = ()
    ses, hs = SV.handlers(ck, config='full')
    new = [b for b in inherent(F, 'Server', 'new', many=True) if 'middleware' in b['name']][0]
    ps = {new['locals'][i + 1][1]: F.types[new['locals'][i + 1][0]] for i in range(new['argc'])}
    S_.params, S_.memo = ps, {}
    for h in hs:
        ck.count('handlers')
        leaks(ck, S_, h.name, h.where, h.outs, False, None)
    for name, outs, I in adapters(ck, 'full', True):
        ck.count('handlers')
        S_.params, S_.memo = {}, {}
        leaks(ck, S_, name, '', outs, False, None)
    ck.floor('functions', 100)
    ck.floor('tracing records', 1)


def gives_key(F, S_, b):
    """Reads a secret key from something: an associated function which can fail and gives a key."""
    t = F.types[b['locals'][0][0]]
    return t['k'] == 'adt' and t['id'].endswith('::Result') and any(S_.kind(x) == 'key' for x in S_.args(t)[:1])


def leaks(ck, S_, name, sp, outs, own, b):
    seen = set()

    def sink(what, ts, where):
        for t in ts:
            k = S_.of(t)
            if k:
                c = S_.culprit(t)
                ck.ob('%s: no secret in %s' % (name, what), False, where, '%s carries %s' % (show(t)[:120], show(c)[:120]))
                return
        ck.ob('%s: no secret in %s' % (name, what), True)

    def events(evs):
        for e in evs:
            if id(e) in seen:
                continue
            seen.add(id(e))
            if e.kind == 'tracing':
                ck.count('tracing records')
                sink('log records', e.args, e.where[1])
            elif e.kind == 'loop':
                for s in e.data.paths:
                    events(s.events())
                for k, bb, s in e.data.exits:
                    events(s.events())
            elif e.kind == 'call' and isinstance(e.name, str):
                if SINKS.search(e.name) and not (own and '::' in e.name and e.name.split('::')[0] in ('serde',)):
                    ck.count('outgoing operations')
                    sink('what is given to %s' % norm(e.name), [x for x in e.args if S_.of(x) != 'box' or not receiver(e, x)], e.where[1])
    for o in outs:
        ck.count('paths')
        events(o.events)
        if b is None:
            sink('its reply', [o.ret], sp)
            continue
        for f, v, pl in result_of(o) if is_adt(o.ret) and o.ret.a[0][2] in ('Ok', 'Err') else []:
            if v == 'Err':
                ck.count('errors')
                sink('its errors', pl, sp)
        if not own:
            sink_bytes(ck, S_, name, o, sp)


def receiver(e, x):
    """The object an operation is called on."""
    return bool(e.args) and x is e.args[0]


def sink_bytes(ck, S_, name, o, sp):
    bad = S_.of(o.ret) == 'bytes'
    ck.ob('%s: no key material in its result' % name, not bad, sp, show(o.ret)[:200] if bad else '')

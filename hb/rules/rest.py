"""Headers, validation, certificates, replies and their JSON forms: C02, C03, C21-C25."""
from .base import *

SELF = mk('par', 'self')


def pty(F, body, i):
    t = F.types[body['locals'][i + 1][0]]
    while t and t['k'] == 'ref':
        t = F.types[t['el']]
    return t


def params_of(F, body):
    """[(name, peeled type)]"""
    return [(body['locals'][i + 1][1] or 'arg%d' % i, pty(F, body, i)) for i in range(body['argc'])]


def type_name(t):
    return t['id'].split('::')[-1] if t and t['k'] == 'adt' else t['s'] if t else '?'


def header(F, aid):
    """How to reach the signed header from a value of type aid: ('seed'|'reply', path) or None."""
    path = ''
    for _ in range(4):
        d = FIELDS.get(aid)
        if not d:
            return None
        if d[1]:
            fs = d[0].get('Success')
            return ('reply', path) if fs and 'proof_sign' in fs else None
        fs = next(iter(d[0].values()))
        if 'proof_seed' in fs and 'proof_sign' in fs and 'public_key' in fs:
            return 'seed', path
        a = F.adts[aid]
        if len(fs) != 1:
            return None
        t = F.types[a['variants'][0]['fields'][0]['ty']]
        if t['k'] != 'adt':
            return None
        aid = t['id']
        path += ('.' if path else '') + fs[0]
    return None


def F_or(t, path):
    return F_(t, path) if path else t


def valid_ways(o):
    """[(facts, verdict)] of a validator outcome: verdict True/False/'Err'."""
    out = []
    for f, v, pl in result_of(o):
        if v == 'Err':
            out.append((f, 'Err'))
        elif v == 'Ok':
            out += resolve_bool(f, pl[0])
    return out


@prop('C02', 'for every validate method of a signed header (request, info, reply and every request/reply type wrapping one), every path and every way of answering Ok(true) must know the seed >= 2^63 and the carried signature verifying over the big-endian seed under the carried key; paths where the signature does not parse must be errors; every constructor taking a secret key must build key and signature from that key and exactly the header\'s (or given) seed')
def c02(ck):
    F = ck.F
    for ty, aid, name, b in all_inherent(F, 'validate'):
        if not aid.startswith('hyperborealib::rest_api'):
            continue
        h = header(F, aid)
        if h is None:
            continue
        ck.count('validators')
        ses = ck.session()
        outs = ses.entry(b)
        ps = params_of(F, b)
        hv = F_or(SELF, h[1])
        n = 0
        for o in outs:
            ck.count('validator paths')
            if h[0] == 'reply':
                seeds = [mk('par', p[0], 'u64') for p in ps[1:] if p[1]['k'] == 'int']
                if len(seeds) != 1:
                    raise AnalysisError('%s::validate: no seed parameter' % ty)
                seed, pk, sg = seeds[0], fld(hv, 'Success', 'public_key'), fld(hv, 'Success', 'proof_sign')
            else:
                seed, pk, sg = F_(hv, 'proof_seed'), F_(hv, 'public_key'), F_(hv, 'proof_sign')
            for f, verdict in valid_ways(o):
                if h[0] == 'reply' and f.variant(hv) == 'Error':
                    continue
                if verdict is True:
                    n += 1
                    bad = proved(f, pk, seed, sg)
                    ck.ob('%s::validate answers valid only with a proof' % ty, bad is None, b['sp'], bad)
                unparsed = any(t.op == 'call' and t.a[0] == 'sig_from' and x == ('is', 'Err') and same(f, t.a[1][0], sg) for t, x in f.v.items())
                if unparsed:
                    ck.ob('%s::validate reports a malformed signature' % ty, verdict == 'Err', b['sp'], 'answers %s' % verdict)
        ck.ob('%s::validate can accept' % ty, n > 0, b['sp'])
    ck.floor('validators', 9)
    # constructors
    for ty, aid, name, b in all_inherent(F):
        if not aid.startswith('hyperborealib::rest_api') or '::middleware::' in aid:
            continue
        h = header(F, aid)
        if h is None:
            continue
        ps = params_of(F, b)
        sks = [mk('par', p[0]) for p in ps if type_name(p[1]) == 'SecretKey']
        if len(sks) != 1 or b.get('abi_closure'):
            continue
        ses = ck.session()
        outs = ses.entry(b)
        done = False
        for o in outs:
            r = o.ret
            if not is_adt(r):
                continue
            hv = F_or(r, h[1])
            if h[0] == 'reply':
                if not is_adt(hv, 'Success'):
                    continue
                seeds = [mk('par', p[0], 'u64') for p in ps if p[1]['k'] == 'int' and p[1]['s'] == 'u64']
                if len(seeds) != 1:
                    raise AnalysisError('%s::%s: no seed parameter' % (ty, name))
                seed, pk, sg = seeds[0], fld(hv, 'Success', 'public_key'), fld(hv, 'Success', 'proof_sign')
            else:
                seed, pk, sg = F_(hv, 'proof_seed'), F_(hv, 'public_key'), F_(hv, 'proof_sign')
            done = True
            ck.ob('%s::%s carries the public key of its secret key' % (ty, name), same(o.facts, pk, pubkey_of(sks[0])), b['sp'], show(pk)[:200])
            ck.ob('%s::%s signs exactly its seed with its secret key' % (ty, name), same(o.facts, sg, signature(sks[0], be64(seed))), b['sp'], show(sg)[:300])
        if done:
            ck.count('constructors')
    ck.floor('constructors', 9)


def cert_ok(ck, f, cert, client_pk, server_pk):
    """None if the path knows the certificate is valid for this client and server."""
    tok = F_(cert, 'token')
    if not same(f, F_(tok, 'public_key'), server_pk):
        return 'the certificate is not known to name the expected server'
    if not sign_ok(f, client_pk, token_bytes(ck, tok), F_(cert, 'sign')):
        return 'the certificate signature is not known to verify over the whole token under the client\'s key'
    return None


def token_bytes(ck, tok):
    """The token's encoding, as the library computes it."""
    if not hasattr(ck, '_tok'):
        b = inherent(ck.F, 'ConnectionToken', 'to_bytes')
        ses = ck.session()
        outs = ses.entry(b)
        if len(outs) != 1:
            raise AnalysisError('token encoding depends on the path')
        ck._tok = outs[0].ret
    return rewrite(ck._tok, lambda x: tok if x is SELF else None)


@prop('C03', 'every way ConnectionCertificate::validate, ConnectRequest::validate and AnnounceRequest::validate can answer Ok(true) must know that the certificate names the expected server key and that its signature verifies over the encoding of the whole token under the client key (for requests also the request proof); the server indexes a connecting or announced client only on paths knowing the same; certificates are made by signing the same encoding')
def c03(ck):
    F = ck.F
    tb = token_bytes(ck, SELF)
    parts = subterms(tb)
    ck.ob('the signed encoding covers the time', be64(F_(SELF, 'auth_date')) in parts, '', show(tb))
    ck.ob('the signed encoding covers the server key', call('sec1', (F_(SELF, 'public_key.0'),)) in parts, '', show(tb))
    b = inherent(F, 'ConnectionCertificate', 'validate')
    ps = params_of(F, b)
    keys = [mk('par', n) for n, t in ps[1:] if type_name(t) == 'PublicKey']
    if len(keys) != 2:
        raise AnalysisError('ConnectionCertificate::validate no longer takes two keys')
    n = 0
    for o in ck.session().entry(b):
        for f, v in valid_ways(o):
            ck.count('verdicts')
            if v is True:
                n += 1
                bad = cert_ok(ck, f, SELF, keys[0], keys[1])
                ck.ob('ConnectionCertificate::validate accepts only a valid certificate', bad is None, b['sp'], bad)
            if any(t.op == 'call' and t.a[0] == 'sig_from' and x == ('is', 'Err') for t, x in f.v.items()):
                ck.ob('ConnectionCertificate::validate reports a malformed signature', v == 'Err' or v is False, b['sp'])
    ck.ob('ConnectionCertificate::validate can accept', n > 0, b['sp'])
    for ty in ('ConnectRequest', 'AnnounceRequest'):
        b = inherent(F, ty, 'validate')
        body = F_(SELF, '0.request')
        n = 0
        for o in ck.session().entry(b):
            for f, v in valid_ways(o):
                ck.count('verdicts')
                if v is not True:
                    continue
                n += 1
                bad = proved(f, F_(SELF, '0.public_key'), F_(SELF, '0.proof_seed'), F_(SELF, '0.proof_sign'))
                ck.ob('%s::validate accepts only a proved request' % ty, bad is None, b['sp'], bad)
                if ty == 'ConnectRequest':
                    sp = [mk('par', n_) for n_, t in params_of(F, b)[1:] if type_name(t) == 'PublicKey']
                    if len(sp) != 1:
                        raise AnalysisError('ConnectRequest::validate no longer takes the server key')
                    bad = cert_ok(ck, f, F_(body, 'certificate'), F_(SELF, '0.public_key'), sp[0])
                elif f.variant(body) == 'Server':
                    continue
                else:
                    c = fld(body, 'Client', 'client')
                    bad = cert_ok(ck, f, F_(c, 'certificate'), F_(c, 'public_key'), F_(fld(body, 'Client', 'server'), 'public_key'))
                ck.ob('%s::validate accepts only a valid certificate' % ty, bad is None, b['sp'], bad)
        ck.ob('%s::validate can accept' % ty, n > 0, b['sp'])
    # creation
    b = inherent(F, 'ConnectionCertificate', 'new')
    ps = params_of(F, b)
    sk = [mk('par', n) for n, t in ps if type_name(t) == 'SecretKey'][0]
    pk = [mk('par', n) for n, t in ps if type_name(t) == 'PublicKey'][0]
    for o in ck.session().entry(b):
        ck.ob('ConnectionCertificate::new names the given server', same(o.facts, F_(o.ret, 'token.public_key'), pk), b['sp'])
        ck.ob('ConnectionCertificate::new signs the whole token with the given key', same(o.facts, F_(o.ret, 'sign'), signature(sk, token_bytes(ck, F_(o.ret, 'token')))), b['sp'], show(F_(o.ret, 'sign'))[:200])
    # the server's own use
    from . import server as SV
    ses, hs = SV.posts(ck)
    own = pubkey_of(F_(mk('par', 'server_driver'), 'params.secret_key'))
    n = 0
    for h in hs:
        for o in h.outs:
            for e in SV.all_drv(o):
                if e.name == 'Router::index_local_client':
                    n += 1
                    bad = cert_ok(ck, e.facts, SV.body('certificate'), SV.hdr('public_key'), own)
                    ck.ob('%s: indexes the client only with a valid certificate for this server' % h.path, bad is None, e.where[1], bad)
                elif e.name == 'Router::index_remote_client':
                    n += 1
                    c, s = e.args[1], e.args[2]
                    bad = cert_ok(ck, e.facts, SV.part(c, 'certificate'), SV.part(c, 'public_key'), SV.part(s, 'public_key'))
                    ck.ob('%s: indexes the client only with a valid certificate for its server' % h.path, bad is None, e.where[1], bad)
    ck.count('indexing sites', n)
    ck.floor('indexing sites', 2)


# ------------------------------------------------------------------ statuses
def variants(F, name):
    a = adt_named(F, name)
    return a['id'], [v['name'] for v in a['variants']]


def const_of(outs, what):
    """The single constant a function gives (all paths agree)."""
    rs = {o.ret for o in outs}
    if len(rs) != 1:
        raise AnalysisError('%s does not give a single value: %s' % (what, [show(r)[:60] for r in rs]))
    return next(iter(rs))


def status_table(ck):
    """{variant: (code, is_success)} computed from the source."""
    if hasattr(ck, '_st'):
        return ck._st
    F = ck.F
    aid, vs = variants(F, 'ResponseStatus')
    tc, isx = inherent(F, 'ResponseStatus', 'to_code'), inherent(F, 'ResponseStatus', 'is_success')
    t = {}
    for v in vs:
        ses = ck.session()
        c = const_of(ses.entry(tc, [adt(aid, v)]), 'to_code of ' + v)
        s = const_of(ses.entry(isx, [adt(aid, v)]), 'is_success of ' + v)
        if c.op != 'int' or s.op != 'bool':
            raise AnalysisError('to_code/is_success of %s is not a constant' % v)
        t[v] = (c.a[0], bool(s.a[0]))
    ck._st = t
    return t


@prop('C21', 'to_code and is_success are evaluated abstractly on every variant: codes distinct, is_success exactly for 100..=199; from_code on each code gives that variant; every path of from_code on an unknown code that gives a status knows the code to be that status\'s, every other path gives None')
def c21(ck):
    F = ck.F
    aid, vs = variants(F, 'ResponseStatus')
    tab = status_table(ck)
    fc = inherent(F, 'ResponseStatus', 'from_code')
    codes = {}
    for v in vs:
        code, succ = tab[v]
        ck.count('statuses')
        ck.ob('the code of %s is its own' % v, code not in codes, fc['sp'], 'code %d is also the code of %s' % (code, codes.get(code)))
        codes[code] = v
        ck.ob('%s counts as success exactly if its code is 100..199' % v, succ == (100 <= code <= 199), fc['sp'], 'code %d, is_success %s' % (code, succ))
        outs = ck.session().entry(fc, [I(code, 'u64')])
        for o in outs:
            ck.ob('the code of %s reads back as it' % v, is_adt(o.ret, 'Some') and o.ret.a[1][0] is adt(aid, v), fc['sp'], '%d reads as %s' % (code, show(o.ret)))
    p = mk('par', fc['locals'][1][1] or 'arg0', 'u64')
    for o in ck.session().entry(fc):
        ck.count('reading paths')
        for f, vn, pl in opt_of(o):
            if vn == 'None':
                continue
            for f2, var in enum_ways(F, f, pl[0], aid):
                lo, hi = f2.interval(canon(f2, p))[:2]
                ck.ob('a number that is no code is rejected', (lo, hi) == (tab[var][0],) * 2 or same(f2, p, I(tab[var][0], 'u64')), fc['sp'],
                      'codes %s..%s read as %s' % (lo, hi, var))
    ck.floor('statuses', 5)
    ck.sample(tab)


def opt_of(o):
    t = o.ret
    if is_adt(t):
        return [(o.facts, t.a[0][2], list(t.a[1]))]
    out = []
    for v in ('Some', 'None'):
        f = o.facts.with_variant(t, v)
        if f is not None:
            out.append((f, v, [fld(t, v, '0')] if v == 'Some' else []))
    return out


def enum_ways(F, facts, t, aid):
    if is_adt(t):
        return [(facts, t.a[0][2])]
    out = []
    for v in F.adts[aid]['variants']:
        f = facts.with_variant(t, v['name'])
        if f is not None:
            out.append((f, v['name']))
    return out


@prop('C22', 'every place of the crate that builds a Success or Error reply (all bodies, all paths; statuses handed in by a caller are judged at the calls): a Success is built only with a status known to be a success status, an Error only with one known not to be; reading a reply from JSON gives the Success form exactly on the paths where the status read is a success status')
def c22(ck):
    F = ck.F
    aid = reply_adt(F)
    said, vs = variants(F, 'ResponseStatus')
    tab = status_table(ck)
    good = {v for v in vs if tab[v][1]}
    fs = FIELDS[aid][0]
    roots = [b for b in F.bodies.values() if b['kind'] in ('Fn', 'AssocFn') and b['blocks'] and b['id'].startswith('hyperborealib') and not b['derived']]
    skip = set()
    n = 0
    for b in sorted(roots, key=lambda x: x['id']):
        if not builds_reply(F, b, aid):
            continue
        ses = ck.session()
        ses.I.watch = {aid}
        outs = ses.entry(b)
        from_handlers = b['name'].split('::')[-1] == 'new' and 'middleware' in b['name']
        if from_handlers:
            for o in outs[:1]:
                for e in o.events:
                    if e.name in ('HttpServer::get', 'HttpServer::post'):
                        ses.apply(e.args[2], [mk('par', 'client_address')] + ([mk('par', 'request')] if e.name.endswith('post') else []))
        ck.count('functions that build replies')
        for _, var, v, facts, fr in ses.I.built:
            st = v.a[1][fs[var].index('status')]
            n += 1
            if st.op == 'par' or (st.op == 'fld' and st.a[0].op == 'par'):
                ck.count('statuses handed in by a caller')
                continue            # judged where the caller picks it
            ways = {x for f, x in enum_ways(F, facts, st, said)}
            bad = [x for x in ways if (x in good) != (var == 'Success')]
            ck.ob('%s builds %s replies only with fitting statuses' % (short_fn(b), var), not bad, b['sp'], 'status can be %s' % ', '.join(sorted(bad)))
    ck.count('reply constructions', n)
    ck.floor('reply constructions', 4)
    fj = trait_method(F, 'AsJson', 'Response', 'from_json')
    seen = set()
    for o in ck.session().entry(fj):
        for f, v, pl in result_of(o):
            if v != 'Ok':
                continue
            r = pl[0]
            if not is_adt(r, None, aid):
                ck.ob('reading a reply builds it', False, fj['sp'], show(r)[:200])
                continue
            st = r.a[1][fs[r.a[0][2]].index('status')]
            for f2, x in enum_ways(F, f, st, said):
                seen.add(x)
                ck.ob('a reply with status %s reads in the fitting form' % x, (x in good) == (r.a[0][2] == 'Success'), fj['sp'], 'reads as %s' % r.a[0][2])
    for x in vs:
        ck.ob('a reply with status %s can be read' % x, x in seen, fj['sp'])


def reply_adt(F):
    r = [a['id'] for a in F.adts.values() if a['id'].startswith('hyperborealib::') and {v['name'] for v in a['variants']} == {'Success', 'Error'}
         and all('status' in [f['name'] for f in v['fields']] for v in a['variants'])]
    if len(r) != 1:
        raise AnalysisError('expected exactly one reply header type, found %d' % len(r))
    return r[0]


def short_fn(b):
    return re.sub(r'hyperborealib::', '', strip_generics(b['name'])) or b['name']


def mentions_agg(b, aid):
    for bb in b['blocks']:
        for s in bb['s']:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == aid:
                return True
    return False


def builds_reply(F, b, aid):
    """b (or a closure in it) builds a reply, directly or through local constructors."""
    memo = F.__dict__.setdefault('_builds', {})
    kids = F.__dict__.setdefault('_kids', None)
    if kids is None:
        kids = {}
        for x in F.bodies.values():
            if '{closure' in x['id']:
                kids.setdefault(x['id'].split('::{closure')[0], []).append(x)
        F._kids = kids

    def go(x, d):
        if x['id'] in memo:
            return memo[x['id']]
        memo[x['id']] = False
        r = mentions_agg(x, aid)
        if not r and d < 8:
            for bb in x['blocks']:
                t = bb['t']
                if t[0] == 'call' and t[1][0] == 'k' and t[1][1]['k'] == 'fn':
                    f = t[1][1]['f']
                    y = F.bodies.get(f['rid'] or f['id'])
                    if y is not None and y['id'].startswith('hyperborealib') and y['blocks'] and go(y, d + 1):
                        r = True
                        break
            if not r:
                r = any(go(k, d + 1) for k in kids.get(x['id'], ()))
        memo[x['id']] = r
        return r
    return go(b, 0)


# ------------------------------------------------------------------ JSON
class RoundTrip(HB):
    """Reading back nested values is assumed to invert writing them (each type is proved on its own)."""

    def boundary(self, st, fr, c, trait, method, targs, args):
        if trait.endswith('::AsJson') and method == 'from_json':
            from .loops import element_of
            t = element_of(self, st.facts, self.deref_val(st, args[0]))
            if t.op == 'fld' and t.a[1] == 'Ok' and t.a[0].op == 'call' and t.a[0].a[0] == 'AsJson::to_json':
                if t.a[0].a[3][:1] == tuple(targs[:1]):
                    return [(st, adt(RES_ID, 'Ok', t.a[0].a[1][0]))]
        return super().boundary(st, fr, c, trait, method, targs, args)


RES_ID = 'core::result::Result'


def equals(I, facts, t, x, depth=0):
    """Is t the value x (component-wise, under the path's knowledge)?"""
    from .loops import same_list
    if same(facts, t, x):
        return True
    if depth > 6:
        return False
    t2 = canon(facts, t)
    if t2.op == 'agg' and t2.a[0][0] == 'adt':
        d = FIELDS.get(t2.a[0][1])
        if d:
            fs, isenum = d
            var = t2.a[0][2]
            if isenum and len(fs) > 1 and facts.variant(x) != var and facts.variant(canon(facts, x)) != var:
                return False
            return all(equals(I, facts, o, fld(x, var if isenum else None, n), depth + 1) for o, n in zip(t2.a[1], fs[var]))
    if t2.op == 'phi':
        l = same_list(I, facts, t)
        return l is not t and same(facts, l, x)
    return False


def json_types(F):
    """[(type name, adt id or None, impl)] of every AsJson implementation with its own code."""
    out = []
    for a, im in impls_of(F, 'AsJson'):
        tj, fj = impl_method(F, im, 'to_json'), impl_method(F, im, 'from_json')
        if tj is None or fj is None:
            continue
        t = F.types[im['self']]
        out.append((t['s'].split('<')[0].split('::')[-1] if t['k'] == 'adt' else t['s'], t['id'] if t['k'] == 'adt' else None, tj, fj))
    return out


def rt_session(ck, **k):
    ses = ck.session(display=True)
    I = RoundTrip(ck.F)
    I.expand_display = True
    ses.I = I
    return ses


PRIMS = None


@prop('C23', 'composition of reader after writer for every AsJson implementation with its own code: run to_json abstractly on an arbitrary value of each variant, run from_json on the JSON term it gives (nested values by induction over types, codecs by their inverse axioms, lists by complete element-wise maps) and require every path to give Ok of a value equal, field by field, to the one written; every variant must be writable')
def c23(ck):
    F = ck.F
    aid = reply_adt(F)
    tab = status_table(ck)
    for name, ty, tj, fj in json_types(F):
        local = ty is not None and ty.startswith('hyperborealib')
        a = F.adts.get(ty)
        vs = [v['name'] for v in a['variants']] if local and a['kind'] == 'enum' else [None]
        ses = rt_session(ck)
        me = ses.I.param_value('self', ses.I.T(tj['locals'][1][0]))
        written = set()
        for o in ses.entry(tj):
            ck.count('writer paths')
            for f, v, pl in result_of(o):
                if v != 'Ok':
                    continue
                var = f.variant(SELF)
                if ty == aid:
                    sv = f.variant(fld(SELF, var, 'status'))
                    if sv is None:
                        raise AnalysisError('the status written is not followed')
                    if tab[sv][1] != (var == 'Success'):
                        continue        # excluded by C22
                written.add(var)
                st = State()
                st.facts = f
                outs = ses.entry(fj, [pl[0]], None, st)
                label = name if var is None else '%s::%s' % (name, var)
                ck.ob('%s: what was written can be read' % label, bool(outs), fj['sp'])
                for o2 in outs:
                    for f2, v2, pl2 in result_of(o2):
                        ck.count('reader paths')
                        if v2 != 'Ok':
                            ck.ob('%s: what was written is accepted by the reader' % label, False, fj['sp'], 'reader fails: %s' % show(pl2[0])[:200])
                            continue
                        r = pl2[0]
                        if equals(ses.I, f2, r, me):
                            ck.ob('%s: reads back equal' % label, True)
                            continue
                        r = canon(f2, r)
                        if is_adt(r, None, ty) and local:
                            d, isenum = FIELDS[ty]
                            if isenum and r.a[0][2] != var:
                                ck.ob('%s: reads back as the same variant' % label, False, fj['sp'], 'reads as %s' % r.a[0][2])
                                continue
                            for n, x in zip(d[r.a[0][2]], r.a[1]):
                                ck.ob('%s.%s: reads back equal' % (label, n), equals(ses.I, f2, x, fld(SELF, var if isenum else None, n)), fj['sp'], 'reads as %s' % show(x)[:200])
                        else:
                            ck.ob('%s: reads back equal' % label, False, fj['sp'], 'reads as %s' % show(r)[:300])
        ck.count('types')
        for v in vs:
            ck.ob('%s: can be written' % (name if v is None else '%s::%s' % (name, v)), (v in written) or (v is None and bool(written)), tj['sp'])
    ck.floor('types', 20)


JV = 'serde_json::value::Value'


def leaves(j, path=()):
    """{key path: value term} of a written JSON term."""
    if is_adt(j, 'Object', JV) and j.a[1][0].op == 'jmap':
        out = {}
        for kv in j.a[1][0].a:
            k = kv.a[0]
            if k.op != 'str':
                raise AnalysisError('JSON key is not a constant: %s' % show(k)[:80])
            out.update(leaves(kv.a[1], path + (k.a[0],)))
        return out
    if is_adt(j, 'Object', JV) and j.a[1][0] is EMPTY:
        return {}
    return {path: j}


def jkind(t):
    if is_adt(t, None, JV):
        return t.a[0][2]
    if t.op == 'fld' and t.a[0].op == 'call' and t.a[0].a[0] == 'AsJson::to_json':
        return 'nested'
    return '?'


def chain(j, path):
    for k in path:
        j = fld(call('jget', (j, S(k))), 'Some', '0')
    return j


def plain_json(t):
    """Different ways to reach a JSON member, as one."""
    def f(x):
        if x.op == 'fld' and x.a[0].op == 'call' and x.a[0].a[0] == 'jas_object' and x.a[1] == 'Some':
            return rewrite(x.a[0].a[1][0], f)
        if x.op == 'fld' and x.a[1] == 'Object':
            return rewrite(x.a[0], f)
        if x.op == 'call' and x.a[0] == 'jidx':
            return fld(call('jget', (rewrite(x.a[1][0], f), x.a[1][1])), 'Some', '0')
        return None
    return rewrite(t, f)


ACCESS = {'String': {'jas_str'}, 'Number': {'jas_u64'}, 'Bool': {'jas_bool'}, 'Array': {'jas_array'}, 'nested': set(), 'Null': set()}


def read_evidence(facts, ch, kinds):
    """Does the path know that the member at chain term ch is there, has a written kind, and is valid?  None or what is missing."""
    good = False
    for t, x in facts.v.items():
        if ch not in subterms(plain_json(t)):
            continue
        p = plain_json(t)
        v = x[1] if x[0] == 'is' else None
        if p.op == 'call' and p.a[0] in ('jas_str', 'jas_u64', 'jas_bool', 'jas_array', 'jas_object', 'jas_i64', 'jas_f64') and p.a[1][0] is ch:
            if v == 'None':
                return 'it may have the wrong JSON type'
            if v == 'Some':
                if any(p.a[0] in ACCESS[k] for k in kinds):
                    good = True
        elif p.op == 'call' and (p.a[0] == 'AsJson::from_json' or p.a[0].startswith('from_value')) and p.a[1][0] is ch:
            if v == 'Ok':
                good = True
            elif v == 'Err':
                return 'its value may be invalid'
        elif p is ch and v in ('String', 'Number', 'Bool', 'Array', 'Null') and v in kinds:
            good = True
        elif v == 'Err':
            return 'its value may be invalid'
    for t, x in facts.b.items():
        p = plain_json(t)
        if p.op == 'call' and p.a[0].startswith('jis_') and p.a[1][0] is ch and x is True and p.a[0][4:].capitalize() in kinds:
            good = True
    return None if good else 'nothing shows that it is there with the right JSON type'


OPTIONAL = {('ClientInfo', 'address'), ('LookupRequestBody', 'client_type')}


def written_keys(ck, ty, name, tj, fj):
    """{variant: {key path: set of kinds written}}, optional key paths."""
    F = ck.F
    ses = rt_session(ck)
    keys, optional = {}, set()
    for o in ses.entry(tj):
        for f, v, pl in result_of(o):
            if v != 'Ok':
                continue
            var = f.variant(SELF)
            for p, x in leaves(pl[0]).items():
                keys.setdefault(var, {}).setdefault(p, set()).add(jkind(x))
                for n, fl in OPTIONAL:
                    if n == name and jkind(x) == 'Null' and f.variant(fld(SELF, None, fl)) == 'None':
                        optional.add(p)
    return keys, optional


@prop('C24', 'for every AsJson implementation with its own code: on every path of from_json that answers Ok, each member its writer writes for the variant read is known present with the JSON type written, and no conversion of it is known to have failed; list members are element-wise complete; no field is a constant that the JSON read does not determine; only the client address and the lookup\'s client type may be missing')
def c24(ck):
    from .loops import mapped
    F = ck.F
    for name, ty, tj, fj in json_types(F):
        local = ty is not None and ty.startswith('hyperborealib')
        if not local and ty is None:
            continue
        keys, optional = written_keys(ck, ty, name, tj, fj)
        ck.count('types')
        ses = rt_session(ck)
        J = ses.I.param_value(fj['locals'][1][1] or 'arg0', ses.I.T(fj['locals'][1][0]))
        for o in ses.entry(fj):
            for f, v, pl in result_of(o):
                if v != 'Ok':
                    continue
                ck.count('accepting paths')
                r = pl[0]
                var = None
                if local and FIELDS[ty][1]:
                    if not is_adt(r, None, ty):
                        ck.ob('%s: the variant read is known' % name, False, fj['sp'], show(r)[:200])
                        continue
                    var = r.a[0][2]
                label = name if var is None else '%s::%s' % (name, var)
                for p, kinds in keys.get(var, {}).items():
                    if p in optional:
                        continue
                    bad = read_evidence(f, chain(J, p), kinds)
                    ck.count('members judged')
                    ck.ob('%s: "%s" is required' % (label, '.'.join(p) or 'value'), bad is None, fj['sp'], bad)
                lost = [t for t, w in f.v.items() if w == ('is', 'Err') and t.op == 'call' and J in subterms(t)]
                ck.ob('%s: no value that does not parse is taken for an absent one' % label, not lost, fj['sp'], show(lost[0])[:200] if lost else '')
                if is_adt(r, None, ty) and local:
                    for n, x in zip(FIELDS[ty][0][r.a[0][2]], r.a[1]):
                        if (name, n) in OPTIONAL:
                            if is_adt(x, 'None'):
                                given = [t for t, w in f.v.items() if w == ('is', 'Some') and t.op == 'call' and t.a[0] == 'jas_str' and any(chain(J, p) in subterms(t) for p in optional)]
                                ck.ob('%s.%s: a text that is given is not taken for an absent one' % (label, n), not given, fj['sp'], show(given[0])[:200] if given else '')
                            continue
                        if x.op == 'phi':
                            m = mapped(ses.I, f, x)
                            ck.ob('%s.%s: every element is read' % (label, n), m is not None and J in subterms(m[0]), fj['sp'], show(x)[:200])
                        elif J not in subterms(x) and not determined(f, x, J):
                            ck.ob('%s.%s: comes from the JSON read' % (label, n), False, fj['sp'], 'is the constant %s' % show(x)[:100])
    ck.floor('types', 20)


def determined(facts, x, J):
    """Is the constant x what the JSON read says?"""
    if is_adt(x):
        # a value of an enumerated type, picked by comparing a member, or a null limit
        if not x.a[1]:
            return any(v is True and J in subterms(t) for t, v in facts.b.items()) or any(J in subterms(t) for t in list(facts.s) + list(facts.r)) \
                or any(v[0] == 'is' and v[1] not in ('Some', 'None', 'Ok', 'Err') and J in subterms(t) for t, v in facts.v.items())
        return all(determined(facts, y, J) for y in x.a[1])
    for t, v in facts.b.items():
        if v is True and t.op == 'eq' and x in t.a and any(J in subterms(y) for y in t.a):
            return True
    for t, v in facts.r.items():
        if J in subterms(t) and x.op == 'int' and tuple(v[:2]) == (x.a[0], x.a[0]):
            return True
    return False


@prop('C58', 'on every path on which a JSON reader answers FieldNotFound(name), or FieldValueInvalid with a name, for every AsJson implementation with its own code, the path knows that a member whose key is the (last part of the) name was absent or could not be read as the type asked for')
def c58(ck):
    F = ck.F
    err_ty = adt_named(F, 'AsJsonError')['id']
    for name, ty, tj, fj in json_types(F):
        ck.count('readers')
        ses = rt_session(ck)
        for o in ses.entry(fj):
            for f, v, pl in result_of(o):
                if v != 'Err':
                    continue
                e = canon(f, pl[0])
                for kind, what in (('FieldNotFound', 'missing'), ('FieldValueInvalid', 'invalid')):
                    if not is_adt(e, kind, err_ty) or e.op != 'agg':
                        continue
                    s = e.a[1][0]
                    if s.op == 'str' and what == 'invalid' and not re.match(r'^[\w.]+$', s.a[0]):
                        continue               # a sentence, not a name
                    ck.count('refusals')
                    bad = missing(f) | (found_other(f) if what == 'invalid' else set())
                    ck.ob('%s: "%s" is reported %s only when it is' % (name, text_of(s), what), s.op == 'str' and (s.a[0].split('.')[-1] in bad or memberless(f, s.a[0].split('.')[:-1])), fj['sp'], '%s on that path: %s' % (what, ', '.join(sorted(bad)) or 'nothing known'))
    ck.floor('readers', 20)
    ck.floor('refusals', 30)


def text_of(s):
    return s.a[0] if s.op == 'str' else show(s)[:100]


def memberless(f, at):
    """Does the path know that the value read, or the member it is named to be in, is no object?"""
    for t, w in f.v.items():
        if t.op == 'call' and t.a[0] == 'jas_object' and (w == ('is', 'None') or w[0] == 'not' and 'Some' in w[1]):
            x = t.a[1][0]
        elif w[0] == 'is' and w[1] in ('Null', 'Bool', 'Number', 'String', 'Array') or w[0] == 'not' and 'Object' in w[1]:
            x = t
        else:
            continue
        if x.op == 'par' or at and at[-1] in last_keys(x):
            return True
    return any(y is False and t.op == 'call' and t.a[0] == 'jis_object' and (t.a[1][0].op == 'par' or at and at[-1] in last_keys(t.a[1][0])) for t, y in f.b.items())


def missing(f):
    """Keys of members the path knows to be absent or of another type."""
    out = set()
    for t, w in f.v.items():
        if w in (('is', 'None'), ('is', 'Err')) or w[0] == 'not' and w[1] & {'Some', 'Ok'}:
            out |= last_keys(t)
        elif w[0] == 'not' and t.op != 'call':
            out |= last_keys(t)              # not the JSON kind asked for
        elif w[0] == 'is' and (t.op == 'fld' or t.op == 'call' and t.a[0] == 'jidx'):
            out |= last_keys(t)
    for t, y in f.b.items():
        if y is False:
            for x in subterms(t):
                if x.op == 'call' and (str(x.a[0]).startswith('jis_') or str(x.a[0]).endswith('contains_key')):
                    out |= last_keys(x)
    return out


def found_other(f):
    """Keys of members whose value the path found different from something."""
    out = set()
    for t, y in f.b.items():
        if y is False:
            for x in subterms(t):
                if x.op in ('fld', 'call'):
                    out |= last_keys(x)
    return out


def last_keys(t):
    """Key of the member t is about."""
    for _ in range(40):
        if t.op == 'fld':
            t = t.a[0]
        elif t.op == 'call' and t.a[0] in ('jget', 'jidx') and len(t.a[1]) == 2:
            return {t.a[1][1].a[0]} if t.a[1][1].op == 'str' else set()
        elif t.op == 'call' and str(t.a[0]).endswith('contains_key') and len(t.a[1]) == 2:
            return {t.a[1][1].a[0]} if t.a[1][1].op == 'str' else set()
        elif t.op == 'mapget':
            k = t.a[1]
            return {k.a[0]} if k.op == 'str' else set()
        elif t.op == 'call' and t.a[1]:
            t = t.a[1][0]
        elif t.op in ('cast', 'un') and isinstance(t.a[-1], Term):
            t = t.a[-1]
        else:
            return set()
    return set()


@prop('C25', 'every aggregate of a versioned type built anywhere but in its reader has the constant STANDARD_VERSION as its version; every Ok path of a versioned type\'s writer and reader knows the version to equal STANDARD_VERSION, the writer writes it as a number under "standard" and the reader reads it from there; every path that knows another version is declared answers InvalidStandard')
def c25(ck):
    F = ck.F
    items = [b for b in F.bodies.values() if b['name'].endswith('::STANDARD_VERSION') and b['kind'] not in ('Fn', 'AssocFn')]
    if len(items) != 1:
        raise AnalysisError('STANDARD_VERSION not found')
    ses = ck.session()
    outs = ses.I.run_blocks(State(), Frame(0, items[0], {}, items[0], 0))
    ver = outs[0].ret
    if ver.op != 'int':
        raise AnalysisError('STANDARD_VERSION is not a constant')
    versioned = {a: d for a, d in FIELDS.items() if a.startswith('hyperborealib') and any('standard' in fs for fs in d[0].values())}
    jt = {ty: (name, tj, fj) for name, ty, tj, fj in json_types(F) if ty in versioned}
    ck.ob('every versioned type is read and written as JSON', set(jt) == set(versioned), '', str(set(versioned) ^ set(jt)))
    readers = {fj['id'] for _, _, fj in jt.values()}
    for b in sorted(F.bodies.values(), key=lambda x: x['id']):
        if b['kind'] not in ('Fn', 'AssocFn') or not b['blocks'] or not b['id'].startswith('hyperborealib') or b['derived'] or b['id'] in readers:
            continue
        if not any(mentions_agg(b, a) for a in versioned) and not any(mentions_agg(k, a) for k in closures_of(F, b) for a in versioned):
            continue
        if '::_::' in b['id']:
            continue
        s = ck.session()
        s.I.watch = set(versioned)
        s.entry(b)
        ck.count('constructing functions')
        for aid, var, v, facts, fr in s.I.built:
            if fr.root['id'] in readers:
                continue
            ck.count('constructions')
            x = v.a[1][FIELDS[aid][0][var].index('standard')]
            ck.ob('%s creates %s with the library\'s version' % (short_fn(b), aid.split('::')[-1]), same(facts, x, ver), b['sp'], 'version is %s' % show(x)[:100])
    ck.floor('constructions', 1)
    for ty, (name, tj, fj) in sorted(jt.items()):
        ck.count('versioned types')
        d, isenum = FIELDS[ty]
        ses = rt_session(ck)
        for o in ses.entry(tj):
            var = o.facts.variant(SELF) if isenum else None
            sv = fld(SELF, var, 'standard')
            for f, v, pl in result_of(o):
                if v == 'Ok':
                    ck.ob('%s: written only with the supported version' % name, same(f, sv, ver), tj['sp'], 'version in %s' % (f.interval(sv)[:2],))
                    x = leaves(pl[0]).get(('standard',))
                    ck.ob('%s: the version is written' % name, x is not None and is_adt(x, 'Number', JV) and same(f, x.a[1][0].a[0], sv), tj['sp'], show(x)[:100] if x is not None else 'not written')
                elif f.eval(eq(sv, ver)) is False:
                    ck.ob('%s: writing another version is refused as such' % name, refused(pl[0], f, sv), tj['sp'], show(pl[0])[:200])
        J = ses.I.param_value(fj['locals'][1][1] or 'arg0', ses.I.T(fj['locals'][1][0]))
        declared = fld(call('jas_u64', (chain(J, ('standard',)),)), 'Some', '0')
        n = 0
        for o in ses.entry(fj):
            facts = o.facts
            for f, v, pl in result_of(o):
                dv = [t for t in set(f.r) | set(x for t in f.b for x in subterms(t)) if plain_json(t) is declared]
                known = any(same(f, t, ver) for t in dv)
                other = any(f.eval(eq(t, ver)) is False for t in dv)
                if v == 'Ok':
                    n += 1
                    ck.ob('%s: read only with the supported version' % name, known, fj['sp'], 'a reading path does not know the declared version')
                    r = pl[0]
                    if is_adt(r, None, ty):
                        x = r.a[1][d[r.a[0][2]].index('standard')]
                        ck.ob('%s: the version read is kept' % name, same(f, x, ver), fj['sp'], show(x)[:100])
                elif other:
                    ck.ob('%s: reading another version is refused as such' % name, refused(pl[0], f, dv[0]), fj['sp'], show(pl[0])[:200])
        ck.ob('%s: can be read' % name, n > 0, fj['sp'])
    ck.floor('versioned types', 4)


def refused(e, f, v):
    return is_adt(e, 'InvalidStandard') and (plain_json(e.a[1][0]) is plain_json(v) or same(f, e.a[1][0], v))


def closures_of(F, b):
    builds_reply(F, b, reply_adt(F))
    return F._kids.get(b['id'], ())

"""What operations ask for and hand back, keys, signatures, times, acceptance: C44-C49."""
from .base import *
from .loops import *
from . import client as CL, server as SV, rest as R

SELF = mk('par', 'self')
ZERO = TM.I(0, 'usize')


# ------------------------------------------------------------------ C44
def certificate_for(ck, f, cert, secret, server):
    """Is cert a fresh certificate of this secret key for that server?"""
    tok = F_(cert, 'token')
    if not same(f, F_(tok, 'public_key'), server):
        return 'it names %s' % show(F_(tok, 'public_key'))[:150]
    if not same(f, F_(cert, 'sign'), signature(secret, R.token_bytes(ck, tok))):
        return 'its signature is %s' % show(F_(cert, 'sign'))[:150]
    return None


def text(v):
    """Terms a parameter may be turned into when used as a text."""
    return (v, call('str', (v,)), call('display', (v,)))


def is_text(f, t, v):
    return any(same(f, t, x) for x in text(v)) or displayed(t, v)


def displayed(t, v):
    return t.op == 'call' and t.a[0] in ('display', 'to_string', 'str') and t.a[1][0] is v


@prop('C44', 'on every path of every client operation that contacts a server: the verb and path are the documented ones, the request carries the public key of the client driver\'s own secret key and that key\'s signature of its seed, and every field of its body is the caller\'s argument, the session\'s record or the driver\'s info it documents (the connection certificate made by the client\'s key for the expected server); the address asked is the one given, resolved, or the connected server\'s; on every successful path the value returned is exactly the reply\'s content; the client made from a server driver has the driver\'s own key, server type and configured address')
def c44(ck):
    secret = F_(SELF, 'driver.secret_key')
    own = pubkey_of(secret)
    conn = F_(SELF, 'connected_server')
    for op in CL.ops(ck):
        sp = op.body['sp']
        ps = [mk('par', n) for n in CL.par_names(op.body)]
        tys = [R.type_name(t) for _, t in R.params_of(ck.F, op.body)]

        def par(i, kind=None):
            if i >= len(ps):
                raise AnalysisError('%s has no parameter %d' % (op.id, i))
            return ps[i]

        def ob(what, good, detail=''):
            ck.ob('%s: %s' % (op.id, what), good, sp, detail)
        seen = set()
        paths = [(o.facts, o.events, o) for o in op.outs]
        paths += [(s.facts, s.events(), None) for l in loops_of(op.outs) for s in l.paths]
        for f, evs, o in paths:
            for h in CL.https(evs):
                key = (h.verb, h.path, h.req, tuple(h.addr))
                if key in seen:
                    continue
                seen.add(key)
                ck.count('requests')
                verb, path = WIRE[op.name][0] if h.path == WIRE[op.name][0][1] or len(WIRE[op.name]) < 2 else WIRE[op.name][1]
                ob('performs the documented request', (h.verb, h.path) == (verb, path), '%s %s' % (h.verb, h.path))
                ef = h.e.facts
                a = h.addr[0] if len(h.addr) == 1 else cat(h.addr)
                if op.name in ('get_info', 'get_clients', 'get_servers', 'connect', 'connect_to'):
                    ob('asks the given server', is_text(ef, a, par(1)), show(a)[:200])
                elif op.name in ('disconnect', 'poll'):
                    ob('asks the connected server', same(ef, a, F_(conn, 'address')), show(a)[:200])
                elif op.name in ('announce', 'send'):
                    ob('asks the server the given address resolves to', resolved(ef, a, par(1)), show(a)[:200])
                if h.verb == 'get':
                    continue
                if h.req is None:
                    ob('the request sent is known', False, show(h.body)[:200])
                    continue
                ck.count('signed requests')
                r = h.req
                hd = lambda x: F_(r, '0.' + x)
                ob('the request is made in the client\'s own name', same(ef, hd('public_key'), own), show(hd('public_key'))[:200])
                ob('the request is signed with the client\'s own key', same(ef, hd('proof_sign'), signature(secret, be64(hd('proof_seed')))), show(hd('proof_sign'))[:200])
                b = hd('request')
                body(ck, op, ob, ef, b, par, secret, own, conn, f, evs)
        if op.name in ('send', 'poll'):
            # neither is harmless when repeated: a message would be stored twice, polled messages would be lost
            again = [e for l in loops_of(op.outs) for s in l.paths for e in (since(s.events(), l) or []) if e.kind == 'call' and e.name.startswith('HttpClient::')]
            ob('makes its request only once', not again and all(len(CL.https(o.events)) <= 1 for o in op.outs), show(again[0].args[1])[:200] if again else '')
        for o in op.outs:
            for v, pl in CL.okness(o):
                if v == 'Ok':
                    ck.count('successful paths')
                    returned(ck, op, ob, o, pl[0])
    ck.floor('requests', 10)
    ck.floor('signed requests', 7)
    # the client's own record
    for b in [inherent(ck.F, 'ConnectedClient', 'get_client')]:
        for o in ck.session().entry(b):
            r = o.ret
            good = same(o.facts, F_(r, 'public_key'), own) and same(o.facts, F_(r, 'certificate'), F_(SELF, 'connection_certificate')) and same(o.facts, F_(r, 'info'), F_(SELF, 'driver.info'))
            ck.ob('ConnectedClient::get_client describes this client', good, b['sp'], show(r)[:200])
    b = inherent(ck.F, 'ConnectedClient', 'disconnected')
    for o in ck.session().entry(b):
        ck.ob('ConnectedClient::disconnected keeps the client\'s identity', same(o.facts, F_(o.ret, 'driver'), F_(SELF, 'driver')), b['sp'], show(o.ret)[:200])
    # a server acting as a client does so under its own key, as a server reached at its own address
    b = inherent(ck.F, 'ServerDriver', 'as_client')
    for o in ck.session().entry(b):
        r, f = o.ret, o.facts
        ck.ob('ServerDriver::as_client acts with the server\'s own key', same(f, F_(r, 'secret_key'), F_(SELF, 'params.secret_key')), b['sp'], show(r)[:200])
        kind, addr = F_(r, 'info.client_type'), F_(r, 'info.address')
        kind = f.variant(kind) or (kind.a[0][2] if R.is_adt(kind) else None)
        ck.ob('ServerDriver::as_client describes the server', kind == 'Server' and f.variant(addr) == 'Some' and is_text(f, fld(addr, 'Some', '0'), F_(SELF, 'params.address')), b['sp'], show(r)[:200])


WIRE = {
    'get_info': [('get', '/api/v1/info')], 'get_clients': [('get', '/api/v1/clients')], 'get_servers': [('get', '/api/v1/servers')],
    'connect': [('get', '/api/v1/info'), ('post', '/api/v1/connect')], 'connect_to': [('post', '/api/v1/connect')],
    'disconnect': [('post', '/api/v1/disconnect')], 'announce': [('post', '/api/v1/announce')], 'lookup': [('post', '/api/v1/lookup')],
    'send': [('post', '/api/v1/send')], 'poll': [('post', '/api/v1/poll')],
}


def resolved(f, a, given):
    """a is the Ok payload of awaiting address::resolve(given, self)."""
    a = canon(f, a)
    if a.op != 'fld' or a.a[1] != 'Ok':
        return False
    t = a.a[0]
    if t.op == 'await':
        t = t.a[0]
    if t.op != 'call' or 'resolve' not in str(t.a[0]):
        return False
    xs = list(t.a[1])
    return any(is_text(f, x, given) for x in xs) and any(x is SELF or mentions(x, SELF) for x in xs)


def body(ck, op, ob, f, b, par, secret, own, conn, pf, evs):
    g = lambda x: F_(b, x)
    if op.name in ('connect', 'connect_to'):
        if op.name == 'connect_to':
            want = par(2)
        else:
            class P:
                facts, ret = f, UNIT
            infos = [r for h, r in CL.replies(P, CL.https(evs)) if CL.is_info(r)]
            if not infos:
                ob('the certificate is for the server whose info was fetched', False)
                return
            want = F_(fld(infos[-1], 'Ok', '0'), 'public_key')
        bad = certificate_for(ck, f, g('certificate'), secret, want)
        ob('submits its own certificate for the expected server', bad is None, bad)
        ob('submits the driver\'s client info', same(f, g('client'), F_(SELF, 'driver.info')), show(g('client'))[:200])
    elif op.name == 'announce':
        c = fld(b, 'Client', 'client')
        ob('announces a client', (is_adt(b) and b.a[0][2] == 'Client') or f.variant(b) == 'Client', show(b)[:150])
        ob('announces its own key', same(f, F_(c, 'public_key'), own), show(c)[:200])
        ob('announces the session\'s certificate', same(f, F_(c, 'certificate'), F_(SELF, 'connection_certificate')), show(c)[:200])
        ob('announces the driver\'s client info', same(f, F_(c, 'info'), F_(SELF, 'driver.info')), show(c)[:300])
        ob('announces the connected server', same(f, fld(b, 'Client', 'server'), conn), show(fld(b, 'Client', 'server'))[:200])
    elif op.name == 'lookup':
        ob('looks for the given key', same(f, g('public_key'), par(1)), show(b)[:200])
        ob('looks for the given client type', same(f, g('client_type'), par(2)), show(b)[:200])
    elif op.name == 'send':
        s = g('sender')
        ob('sends in its own name', same(f, F_(s, 'client.public_key'), own), show(s)[:200])
        ob('sends with the session\'s certificate', same(f, F_(s, 'client.certificate'), F_(SELF, 'connection_certificate')), show(s)[:200])
        ob('describes the sender as a thin client', any(same(f, F_(s, 'client.info'), x) for x in thin(ck)), show(F_(s, 'client.info'))[:200])
        ob('names the connected server for replies', same(f, F_(s, 'server'), conn), show(s)[:300])
        ob('sends to the given receiver', same(f, g('receiver_public'), par(2)), show(b)[:200])
        ob('sends to the given channel', is_text(f, g('channel'), par(3)), show(g('channel'))[:200])
        ob('sends the given message', same(f, g('message'), par(4)), show(g('message'))[:200])
    elif op.name == 'poll':
        ob('polls the given channel', is_text(f, g('channel'), par(1)), show(g('channel'))[:200])
        ob('polls with the given limit', same(f, g('limit'), par(2)), show(g('limit'))[:200])


def thin(ck):
    """The values ClientInfo::thin() gives."""
    F = ck.F
    b = inherent(F, 'ClientInfo', 'thin')
    return [canon(o.facts, o.ret) for o in ck.session().entry(b)]


def returned(ck, op, ob, o, v):
    hs = CL.https(o.events)
    rs = CL.replies(o, hs)
    f = o.facts
    if op.name in ('get_info', 'get_clients', 'get_servers'):
        ok = False
        for h, r in rs:
            x = fld(r, 'Ok', '0')
            want = {'get_info': x, 'get_clients': F_(x, 'clients'), 'get_servers': F_(x, 'servers')}[op.name]
            ok = ok or same(f, v, want)
        ob('returns exactly what was answered', ok, show(v)[:200])
    elif op.name == 'poll':
        ok = False
        for h, r in rs:
            x = fld(CL.shape_of(o, r)[1], 'Success', 'response')
            ok = ok or (same(f, fld(v, None, '0'), F_(x, 'messages')) and same(f, fld(v, None, '1'), F_(x, 'remaining')))
        ob('returns exactly the polled messages and the remaining count', ok, show(v)[:300])
    elif op.name == 'disconnect':
        ob('gives back the same client', same(f, F_(v, 'driver'), F_(SELF, 'driver')), show(v)[:200])
    elif op.name == 'lookup':
        var = f.variant(v)
        if var != 'Some':
            return
        t = fld(v, 'Some', '0')
        ok, why = False, show(t)[:300]
        for h, r in rs:
            s = CL.shape_of(o, r)[1]
            x = fld(s, 'Success', 'response')
            k = f.variant(x)
            if k not in ('Local', 'Remote'):
                continue
            p = lambda i: fld(t, None, str(i))
            good = same(f, p(0), fld(x, k, 'client')) and same(f, p(2), fld(x, k, 'available'))
            if k == 'Remote':
                good = good and same(f, p(1), fld(x, k, 'server'))
            else:
                good = good and same(f, F_(p(1), 'public_key'), fld(s, 'Success', 'public_key'))
                good = good and len(h.addr) == 1 and same(f, F_(p(1), 'address'), h.addr[0])
            ok = ok or good
        ob('returns exactly the client, server and availability that were answered', ok, why)


# ------------------------------------------------------------------ C45
@prop('C45', 'on every path of the registered GET handlers: the info reply carries the public key of the server driver\'s own key, a fresh seed and that key\'s signature of it; the clients (servers) reply is exactly the list the routing table gave for its local clients (servers), and empty only where the routing table could not give one; no GET handler performs any other routing table or inbox operation')
def c45(ck):
    ses, hs = SV.handlers(ck)
    gets = {h.path: h for h in hs if h.verb == 'get'}
    sk = F_(mk('par', 'server_driver'), 'params.secret_key')
    for p in ('/api/v1/info', '/api/v1/clients', '/api/v1/servers'):
        if p not in gets:
            raise AnalysisError('endpoint GET %s is not registered' % p)
    for p, h in gets.items():
        ck.count('public endpoints')
        want = {'/api/v1/clients': ('Router::local_clients', 'clients'), '/api/v1/servers': ('Router::servers', 'servers')}.get(p)
        for o in h.outs:
            evs = SV.drv_events(o)
            for e in SV.all_drv(o):
                ck.ob('%s: only reads what it publishes' % p, want is not None and e.name == want[0], e.where[1], e.name)
            r = o.ret
            if p == '/api/v1/info':
                ck.count('replies')
                ck.ob('%s: names the server\'s own key' % p, same(o.facts, F_(r, 'public_key'), pubkey_of(sk)), h.where, show(F_(r, 'public_key'))[:200])
                ck.ob('%s: signs its seed with the server\'s key' % p, same(o.facts, F_(r, 'proof_sign'), signature(sk, be64(F_(r, 'proof_seed')))), h.where, show(F_(r, 'proof_sign'))[:200])
            elif want is not None:
                ck.count('replies')
                v = F_(r, want[1])
                es = [e for e in evs if e.name == want[0]]
                okv = bool(es) and o.facts.variant(es[-1].res)
                if okv == 'Ok':
                    ck.ob('%s: publishes exactly the %s of the routing table' % (p, want[1]), same(o.facts, same_list(ses.I, o.facts, v), fld(es[-1].res, 'Ok', '0')), h.where, show(v)[:300])
                else:
                    ck.ob('%s: publishes nothing but the %s of the routing table' % (p, want[1]), okv == 'Err' and TM.is_empty(v), h.where, show(v)[:300])
    ck.floor('public endpoints', 3)
    ck.floor('replies', 3)


# ------------------------------------------------------------------ C46
@prop('C46', 'for both key types and both encodings (bytes, base64 text): the reader run abstractly on the writer\'s output answers only Ok with the very key that was written; on arbitrary input every Ok path carries the key the curve library validated from exactly the given (base64-decoded) bytes, and input the curve library accepts is never refused; the public key of a secret key is the curve library\'s')
def c46(ck):
    F = ck.F
    for ty, pairs, parse in (('SecretKey', (('serialize', 'deserialize'), ('to_base64', 'from_base64')), 'sk_from'),
                             ('PublicKey', (('to_bytes', 'from_bytes'), ('to_base64', 'from_base64')), 'from_sec1')):
        for w, r in pairs:
            wb, rb = inherent(F, ty, w), inherent(F, ty, r)
            ses = ck.session()
            for o in ses.entry(wb):
                ck.count('written forms')
                s2 = ck.session()
                n = 0
                for o2 in s2.entry(rb, [o.ret]):
                    for f, v, pl in result_of(o2):
                        n += 1
                        ck.count('composed paths')
                        ck.ob('%s::%s reads what %s wrote' % (ty, r, w), v == 'Ok' and same(f, pl[0], SELF), rb['sp'], '%s %s' % (v, show(pl[0])[:200]))
                if not n:
                    raise AnalysisError('%s::%s has no outcome' % (ty, r))
            s3 = ck.session()
            given = mk('par', CL.par_names(rb)[0])
            n = 0
            for o in s3.entry(rb):
                for f, v, pl in result_of(o):
                    ck.count('reading paths')
                    if v == 'Ok':
                        n += 1
                        k = canon(f, F_(pl[0], '0'))
                        src = parsed_from(k, parse)
                        ck.ob('%s::%s gives only a key the curve library validated' % (ty, r), src is not None and f.variant(call(parse, (src,))) == 'Ok', rb['sp'], show(k)[:200])
                        if src is not None:
                            ck.ob('%s::%s reads exactly the given %s' % (ty, r, 'bytes' if w in ('serialize', 'to_bytes') else 'text'), whole_of(f, src, given, 'base64' in r), rb['sp'], show(src)[:200])
                    else:
                        ck.ob('%s::%s refuses only what does not decode' % (ty, r), refusal_known(f, parse), rb['sp'], '; '.join(f.show())[:300])
            ck.ob('%s::%s can succeed' % (ty, r), n > 0, rb['sp'])
    b = inherent(F, 'SecretKey', 'public_key')
    for o in ck.session().entry(b):
        ck.ob('SecretKey::public_key is the public half of this key', same(o.facts, o.ret, pubkey_of(SELF)), b['sp'], show(o.ret)[:200])
    ck.floor('composed paths', 4)
    ck.floor('reading paths', 4)


def parsed_from(k, parse):
    if k.op == 'fld' and k.a[1] == 'Ok' and k.a[0].op == 'call' and k.a[0].a[0] == parse:
        return k.a[0].a[1][0]
    return None


def whole_of(f, t, given, text):
    """The whole of what was given, decoded from base64 if it is text."""
    t = canon(f, t)
    if text:
        if not (t.op == 'fld' and t.a[1] == 'Ok' and t.a[0].op == 'call' and t.a[0].a[0] == 'b64dec'):
            return False
        t = t.a[0].a[1][0]
    return is_text(f, t, given) or same(f, t, given)


def refusal_known(f, parse):
    return any(t.op == 'call' and t.a[0] in (parse, 'b64dec') and x == ('is', 'Err') for t, x in f.v.items())


# ------------------------------------------------------------------ C47
@prop('C47', 'create_signature gives, on every path, the bytes of the curve library\'s signature of exactly the given message under this key; verify_signature answers true exactly on the paths where the curve library verified the parsed signature over exactly the given message under this key, false exactly where it did not, and an error only where the signature does not parse; the shared secret is, on every path, the 32 bytes the key expansion gives for the key agreement of this secret and the given public key, the given salt and one constant')
def c47(ck):
    F = ck.F
    b = inherent(F, 'SecretKey', 'create_signature')
    msg = mk('par', CL.par_names(b)[1])
    for o in ck.session().entry(b):
        ck.count('signing paths')
        ck.ob('a signature is made with this key over exactly the message', same(o.facts, o.ret, signature(SELF, msg)), b['sp'], show(o.ret)[:300])
    b = inherent(F, 'PublicKey', 'verify_signature')
    ns = CL.par_names(b)
    msg, sig = mk('par', ns[1]), mk('par', ns[2])
    want = verified(SELF, msg, sig)
    for o in ck.session().entry(b):
        for f, v in R.valid_ways(o):
            ck.count('verdicts')
            if v is True:
                ck.ob('true only if the signature verifies over the message under this key', sign_ok(f, SELF, msg, sig), b['sp'], '; '.join(f.show())[:300])
            elif v is False:
                ck.ob('false only if the signature does not verify', excluded(f, want) or excluded(f, call('sig_from', (sig,))), b['sp'], '; '.join(f.show())[:300])
            else:
                ck.ob('an error only for a malformed signature', excluded(f, call('sig_from', (sig,))), b['sp'], '; '.join(f.show())[:300])
    b = inherent(F, 'SecretKey', 'create_shared_secret')
    ns = CL.par_names(b)
    other, salt = mk('par', ns[1]), mk('par', ns[2])
    for o in ck.session().entry(b):
        ck.count('derivation paths')
        t = o.ret
        if t.op == 'call' and t.a[0] == 'arr':
            t = t.a[1][0]
        if t.op == 'arr':
            t = t.a[0]
        good = t.op == 'call' and t.a[0] == 'hkdf_expand'
        ck.ob('the shared secret is the expanded key, all of it', good, b['sp'], show(o.ret)[:300])
        if not good:
            continue
        ex, info, n = t.a[1][:3]
        ck.ob('32 bytes are derived', n.op == 'int' and n.a[0] == 32, b['sp'], show(n))
        ck.ob('the derivation label is a constant', not any(x.op == 'par' for x in subterms(info)), b['sp'], show(info)[:100])
        okx = ex.op == 'call' and ex.a[0] == 'hkdf_extract'
        ck.ob('the key is extracted from the key agreement', okx, b['sp'], show(ex)[:200])
        if not okx:
            continue
        dh, s = ex.a[1][:2]
        ck.ob('the given salt is used', same(o.facts, s, salt), b['sp'], show(s)[:200])
        okd = dh.op == 'call' and dh.a[0] == 'ecdh'
        ck.ob('the key agreement is of this secret key', okd and any(x is F_(SELF, '0') for x in subterms(dh.a[1][0])) and not mentions(dh.a[1][0], other), b['sp'], show(dh)[:200])
        ck.ob('the key agreement is with the given public key', okd and any(x is F_(other, '0') for x in subterms(dh.a[1][1])) and not mentions(dh.a[1][1], SELF), b['sp'], show(dh)[:200])
    ck.floor('signing paths', 1)
    ck.floor('verdicts', 3)
    ck.floor('derivation paths', 1)


def excluded(f, t):
    """The path knows that t did not succeed."""
    t = canon(f, t)
    return f.variant(t) == 'Err' or any(x == ('is', 'Err') and y.op == t.op == 'call' and y.a[0] == t.a[0] and canon(f, y) is t for y, x in f.v.items())


# ------------------------------------------------------------------ C48
def is_now(t):
    """Seconds since the Unix epoch of a clock reading made here."""
    return t.op == 'call' and t.a[0] == 'secs:u64' and t.a[1][0].op == 'call' and t.a[1][0].a[0] == 'since_epoch' and t.a[1][0].a[1][0].op == 'call' and t.a[1][0].a[1][0].a[0] == 'now'


@prop('C48', 'on every path of the timestamp function, of every constructor that stamps a record with the current time (tokens, certificates, connect requests, message records) and of the inbox\'s add operation: the recorded time is the whole seconds since the Unix epoch of a system clock reading made on that very path; a constructor given a time records exactly that time')
def c48(ck):
    F = ck.F
    b = free_fn(F, 'time', 'timestamp')
    for o in ck.session().entry(b):
        ck.count('clock readings')
        ck.ob('timestamp gives the current Unix time in seconds', is_now(o.ret), b['sp'], show(o.ret)[:200])
    n = 0
    for ty, aid, name, b in all_inherent(F):
        if not aid.startswith('hyperborealib::rest_api') or '::middleware::' in aid or b.get('derived'):
            continue
        ret = b['locals'][0][0]
        rt = F.types[ret]
        path = {'ConnectionToken': 'auth_date', 'ConnectionCertificate': 'token.auth_date', 'MessageInfo': 'received_at', 'ConnectRequestBody': 'certificate.token.auth_date',
                'ConnectRequest': '0.request.certificate.token.auth_date'}.get(R.type_name(rt))
        if path is None:
            continue
        ps = R.params_of(F, b)
        if any(p[0] == 'self' for p in ps) or b['argc'] and ps[0][0] == 'self':
            continue
        for o in ck.session().entry(b):
            v = F_(o.ret, path)
            given = [mk('par', p[0], 'u64') for p in ps if p[1]['k'] == 'int' and p[1]['s'] == 'u64']
            held = [mk('par', p[0]) for p in ps if p[1]['k'] == 'adt' and R.type_name(p[1]) in ('ConnectionToken', 'ConnectionCertificate')]
            ck.count('stamped records')
            if given:
                ck.ob('%s::%s records the given time' % (ty, name), v is given[0], b['sp'], show(v)[:200])
            elif held:
                ck.ob('%s::%s keeps the time of what it is given' % (ty, name), mentions(v, held[0]) and v.op == 'fld', b['sp'], show(v)[:200])
            else:
                n += 1
                ck.ob('%s::%s records the current time' % (ty, name), is_now(v), b['sp'], show(v)[:200])
    from . import storage as ST
    for a, im in impls_of(F, trait_named(F, 'MessagesInbox')):
        b = impl_method(F, im, 'add_message')
        if b is None:
            continue
        outs = ck.session().entry(b)
        m = 0
        for o in outs:
            for e in o.events:
                for x in [y for t in e.args for y in subterms(t)]:
                    if is_adt(x) and x.a[0][1].endswith('::MessageInfo'):
                        m += 1
                        ck.count('stored messages')
                        ck.ob('%s: a stored message is stamped with the current time' % a.split('::')[-1], is_now(F_(x, 'received_at')), b['sp'], show(F_(x, 'received_at'))[:200])
    ck.floor('clock readings', 1)
    ck.floor('stamped records', 3)


# ------------------------------------------------------------------ C49
def assume_proof(f, pk, seed, sign):
    """[facts]: the ways the path is possible with a valid proof."""
    out = []
    for g in f.assume(mk('bin', 'Lt', seed, TM.I(TOP, 'u64'), 'u64'), False):
        out += assume_sign(g, pk, be64(seed), sign)
    return out


def assume_sign(g, pk, msg, sign):
    if excluded(g, verified(pk, msg, sign)):
        return []
    if sign.op != 'call' or sign.a[0] != 'sigbytes':
        if excluded(g, call('sig_from', (sign,))):
            return []
    return [g]


def assume_cert(ck, fs, cert, client, server):
    out = []
    tok = F_(cert, 'token')
    for f in fs:
        for g in f.assume(eq(F_(tok, 'public_key'), server), True):
            out += assume_sign(g, client, R.token_bytes(ck, tok), F_(cert, 'sign'))
    return out


@prop('C49', 'contradiction rule: for every validator, every path and way of not answering "valid" is contradictory once the documented conditions are assumed on it (seed >= 2^63, the signature parses and verifies, the certificate names the server and verifies); every error reply of a POST handler is contradictory with a valid request whose routing-table and inbox operations all succeeded; every error of a client operation is contradictory with a delivered, decoded success reply that proves the expected server')
def c49(ck):
    F = ck.F
    for ty, aid, name, b in all_inherent(F, 'validate'):
        if not aid.startswith('hyperborealib::rest_api'):
            continue
        ps = R.params_of(F, b)
        h = R.header(F, aid)
        if h is None and ty != 'ConnectionCertificate':
            continue
        ck.count('validators')
        for o in ck.session().entry(b):
            for f, v in R.valid_ways(o):
                ck.count('verdicts')
                if v is True:
                    continue
                left = [f]
                if h is not None:
                    hv = R.F_or(SELF, h[1])
                    if h[0] == 'reply':
                        if f.variant(hv) == 'Error':
                            continue
                        seed = [mk('par', p[0], 'u64') for p in ps[1:] if p[1]['k'] == 'int'][0]
                        left = assume_proof(f, fld(hv, 'Success', 'public_key'), seed, fld(hv, 'Success', 'proof_sign'))
                    else:
                        left = assume_proof(f, F_(hv, 'public_key'), F_(hv, 'proof_seed'), F_(hv, 'proof_sign'))
                keys = [mk('par', n) for n, t in ps[1:] if R.type_name(t) == 'PublicKey']
                if ty == 'ConnectionCertificate':
                    left = assume_cert(ck, left, SELF, keys[0], keys[1])
                elif ty == 'ConnectRequest':
                    left = assume_cert(ck, left, F_(SELF, '0.request.certificate'), F_(SELF, '0.public_key'), keys[0])
                elif ty == 'AnnounceRequest':
                    bd = F_(SELF, '0.request')
                    c = fld(bd, 'Client', 'client')
                    if any(g.variant(bd) != 'Server' for g in left):
                        left = assume_cert(ck, left, F_(c, 'certificate'), F_(c, 'public_key'), F_(fld(bd, 'Client', 'server'), 'public_key'))
                ck.ob('%s::validate accepts every valid value' % ty, not left, b['sp'], 'answers %s although valid: %s' % (v, '; '.join(left[0].show())[:300] if left else ''))
    # the server answers proved requests
    ses, hs = SV.posts(ck)
    own = pubkey_of(F_(mk('par', 'server_driver'), 'params.secret_key'))
    for h in hs:
        for o in h.outs:
            k, r = SV.shape(o.facts, o.ret)
            if k != 'Error':
                continue
            ck.count('error replies')
            if any(o.facts.variant(e.res) == 'Err' for e in SV.drv_events(o)):
                continue
            left = assume_proof(o.facts, SV.hdr('public_key'), SV.hdr('proof_seed'), SV.hdr('proof_sign'))
            if h.path == '/api/v1/connect':
                left = assume_cert(ck, left, SV.body('certificate'), SV.hdr('public_key'), own)
            elif h.path == '/api/v1/announce':
                bd = SV.body('')
                c, s = fld(bd, 'Client', 'client'), fld(bd, 'Client', 'server')
                out = []
                for g in left:
                    out += [g] if g.variant(bd) == 'Server' else assume_cert(ck, [g], F_(c, 'certificate'), F_(c, 'public_key'), F_(s, 'public_key'))
                left = out
            ck.ob('%s: a valid request whose operation succeeded is answered with success' % h.path, not left, h.where, 'refused with %s' % ('; '.join(left[0].show())[:300] if left else ''))
    # the client accepts proved replies
    for op in CL.ops(ck):
        if op.name == 'lookup':
            continue
        for o in op.outs:
            for v, pl in CL.okness(o):
                if v == 'Ok':
                    continue
                ck.count('failing client paths')
                f = o.facts
                if any(x == ('is', 'Err') and t.op in ('await', 'call') and (t.op == 'await' or str(t.a[0]).split('::')[0] in ('AsJson', 'HttpClient') or 'http' in str(t.a[0])) for t, x in f.v.items()):
                    continue
                if any(x == ('is', 'None') and any(y.op == 'call' and str(y.a[0]).startswith('HttpClient') for y in subterms(t)) for t, x in f.v.items()):
                    continue
                hs_ = CL.https(o.events)
                rs = CL.replies(o, hs_)
                left = [f]
                if any(not CL.is_info(r) and CL.shape_of(o, r)[0] == 'Error' for h, r in rs):
                    continue
                for h, r in rs:
                    nxt = []
                    for g in left:
                        if CL.is_info(r):
                            x = fld(r, 'Ok', '0')
                            nxt += assume_proof(g, F_(x, 'public_key'), F_(x, 'proof_seed'), F_(x, 'proof_sign'))
                        elif op.name in CL.UNSIGNED or h.req is None:
                            nxt.append(g)
                        else:
                            s = fld(fld(r, 'Ok', '0'), None, '0')
                            pk = fld(s, 'Success', 'public_key')
                            for g2 in assume_proof(g, pk, F_(h.req, '0.proof_seed'), fld(s, 'Success', 'proof_sign')):
                                exp = expected(op, o, hs_)
                                nxt += g2.assume(eq(pk, exp), True) if exp is not None else [g2]
                    left = nxt
                ck.ob('%s: a proved success reply is accepted' % op.id, not left, op.body['sp'], 'fails although proved: %s' % ('; '.join(left[0].show())[:400] if left else ''))
    ck.floor('validators', 9)
    ck.floor('failing client paths', 6)


def expected(op, o, hs):
    if op.name in ('disconnect', 'poll'):
        return F_(SELF, 'connected_server.public_key')
    if op.name == 'connect_to':
        return mk('par', CL.par_names(op.body)[2])
    if op.name == 'connect':
        infos = [r for h, r in CL.replies(o, hs) if CL.is_info(r)]
        return F_(fld(infos[-1], 'Ok', '0'), 'public_key') if infos else None
    return None

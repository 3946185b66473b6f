"""Server REST endpoints: C01, C04, C05, C06, C07, C22 (handlers), C13 (server half)."""
from .base import *
from . import loops as LP

DRV = ('Router::', 'MessagesInbox::')


class Handler:
    def __init__(self, verb, path, targs, closure, where):
        self.verb, self.path, self.targs, self.closure, self.where = verb, path, targs, closure, where
        self.outs = None

    @property
    def name(self):
        return '%s %s' % (self.verb, self.path)


def tname(t):
    while t and t[0] in ('ref',):
        t = t[1]
    return t[1].split('::')[-1] if t and t[0] == 'adt' else str(t)


def handlers(ck, run=True, config='main', tracing=True):
    """Endpoints registered by Server::new, their handlers run on every path."""
    ses = ck.session(config=config)
    ses.I.tracing = tracing
    new = inherent(ck.facts(config), 'Server', 'new', many=True)
    new = [b for b in new if 'middleware' in b['name']]
    if len(new) != 1:
        raise AnalysisError('middleware Server::new not found')
    outs = ses.entry(new[0])
    hs = []
    for o in outs[:1]:
        for e in o.events:
            if e.name in ('HttpServer::get', 'HttpServer::post'):
                path = e.args[1]
                if path.op != 'str':
                    raise AnalysisError('endpoint path is not constant: %s' % path)
                hs.append(Handler(e.name.split('::')[1], path.a[0], e.data, e.args[2], e.where[1]))
    for o in outs[1:]:
        ps = [(e.name, e.args[1]) for e in o.events if e.name in ('HttpServer::get', 'HttpServer::post')]
        if len(ps) != len(hs):
            raise AnalysisError('Server::new registers different endpoints on different paths')
    if run:
        for h in hs:
            st = State()
            args = [mk('par', 'client_address')]
            if h.verb == 'post':
                args.append(mk('par', 'request'))
            h.outs = ses.apply(h.closure, args, st)
            ck.count('endpoints')
            ck.count('endpoint paths', len(h.outs))
    if ses.I.escapes:
        raise AnalysisError('handler code escapes into %s' % (ses.I.escapes[0],))
    return ses, hs


def shape(facts, t):
    """('Success'|'Error'|None, aggregate)"""
    r = newtypes(t)
    if r.op == 'agg' and r.a[0][0] == 'adt' and r.a[0][2] in ('Success', 'Error'):
        return r.a[0][2], r
    return facts.variant(r), r


def rf(agg_, name):
    """Named field of a Response aggregate."""
    fs = FIELDS[agg_.a[0][1]][0][agg_.a[0][2]]
    return agg_.a[1][fs.index(name)]


def drv_events(o):
    return [e for e in o.events if e.kind == 'call' and e.name.startswith(DRV)]


def looped(o):
    """Routing-table and inbox calls made in completed iterations of the loops on the way to an outcome: (event, facts at the
    end of the iteration)."""
    seen, out = set(), []

    def go(events):
        for e in events:
            if e.kind != 'loop' or id(e.data) in seen:
                continue
            lp = e.data
            seen.add(id(lp))
            for s in lp.paths:
                mine = LP.since(s.events(), lp) or []
                out.extend((x, s.facts) for x in mine if x.kind == 'call' and x.name.startswith(DRV))
                go(mine)
            for k, b, s in lp.exits:
                go(LP.since(s.events(), lp) or [])
    go(o.events)
    return out


def all_drv(o):
    return drv_events(o) + [e for e, f in looped(o)]


REQ = mk('par', 'request')


def hdr(x):
    return F_(REQ, '0.' + x)


def posts(ck):
    ses, hs = handlers(ck)
    p = [h for h in hs if h.verb == 'post']
    ck.floor('endpoints', 9)
    return ses, p


@prop('C01', 'on every path of every registered POST handler (found by running the registration code abstractly), a call on the routing table or inbox and every success reply must be dominated by the path facts "seed >= 2^63" and "the carried signature verifies over the big-endian seed under the carried key"; unproved paths must end in an error reply')
def c01(ck):
    ses, hs = posts(ck)
    for h in hs:
        for o in h.outs:
            for e in all_drv(o):
                ck.count('driver calls')
                bad = proved(e.facts, hdr('public_key'), hdr('proof_seed'), hdr('proof_sign'))
                ck.ob('%s: %s only with a proved request' % (h.path, e.name), bad is None, e.where[1], bad)
            k, r = shape(o.facts, o.ret)
            bad = proved(o.facts, hdr('public_key'), hdr('proof_seed'), hdr('proof_sign'))
            if bad is None:
                continue
            ck.count('unproved paths')
            ck.ob('%s: a request without a valid proof gets an error reply' % h.path, k == 'Error', h.where, 'a path with no proof returns %s (%s)' % (k, bad))
    ck.floor('driver calls', 6)
    ck.floor('unproved paths', 6)


def driver_secret(h):
    """The server's own secret key as the handler captured it."""
    return None


@prop('C04', 'every success reply a POST handler can return (all paths) is built with the public key of the server driver\'s own secret key and a signature by that key over the big-endian proof seed of the request being answered')
def c04(ck):
    ses, hs = posts(ck)
    sk = F_(mk('par', 'server_driver'), 'params.secret_key')
    for h in hs:
        n = 0
        for o in h.outs:
            k, r = shape(o.facts, o.ret)
            if k == 'Error':
                continue
            n += 1
            ck.count('success replies')
            if k is None or r.op != 'agg':
                ck.ob('%s: reply is built from the request' % h.path, False, h.where, 'reply %s' % show(r)[:200])
                continue
            ck.ob('%s: success reply names the server\'s own key' % h.path, same(o.facts, rf(r, 'public_key'), pubkey_of(sk)), h.where, show(rf(r, 'public_key'))[:200])
            ck.ob('%s: success reply signs the request\'s own seed with the server key' % h.path,
                  same(o.facts, rf(r, 'proof_sign'), signature(sk, be64(hdr('proof_seed')))), h.where, show(rf(r, 'proof_sign'))[:300])
        ck.ob('%s: has a success reply' % h.path, n > 0, h.where, 'no path succeeds')
    ck.floor('success replies', 6)


# endpoint -> operations that may answer it: event name, condition, expected arguments (after the receiver)
def body(x):
    return hdr('request.' + x) if x else hdr('request')


def want_client():
    return lambda f, t: (same(f, part(t, 'public_key'), hdr('public_key')) and same(f, part(t, 'certificate'), body('certificate')) and same(f, part(t, 'info'), body('client')))


def part(t, name):
    return fld(t, None, name)


def variant_field(v, name):
    return fld(body(''), v, name)


def eqto(x):
    return lambda f, t: same(f, t, x)


def optexts(x):
    return lambda f, t: same(f, t, x) or t is call('str', (x,))


OPS = {
    '/api/v1/connect': [('Router::index_local_client', None, [('client', want_client())])],
    '/api/v1/disconnect': [('Router::disconnect', None, [('public key', lambda f, t: same(f, t, hdr('public_key')))])],
    '/api/v1/announce': [
        ('Router::index_remote_client', 'Client', [('client', lambda f, t: same(f, t, variant_field('Client', 'client'))), ('server', lambda f, t: same(f, t, variant_field('Client', 'server')))]),
        ('Router::index_server', 'Server', [('server', lambda f, t: same(f, t, variant_field('Server', 'server')))])],
    '/api/v1/send': [('MessagesInbox::add_message', None, [('sender', lambda f, t: same(f, t, body('sender'))), ('receiver', lambda f, t: same(f, t, body('receiver_public'))),
                                                           ('channel', lambda f, t: same(f, t, body('channel'))), ('message', lambda f, t: same(f, t, body('message')))])],
    '/api/v1/poll': [('MessagesInbox::poll_messages', None, [('receiver', lambda f, t: same(f, t, hdr('public_key'))), ('channel', lambda f, t: same(f, t, body('channel'))),
                                                             ('limit', lambda f, t: same(f, t, body('limit')))])],
}
MUTATING = {'Router::index_local_client', 'Router::index_remote_client', 'Router::index_server', 'Router::disconnect', 'MessagesInbox::add_message', 'MessagesInbox::poll_messages'}


@prop('C05', 'argument identity: on every path, every argument of the routing-table and inbox operations a handler performs is the field of the signed request (or the signer\'s key) the endpoint is about; no other mutating operation is performed; a poll reply carries what the poll returned')
def c05(ck):
    ses, hs = posts(ck)
    seen = set()
    for h in hs:
        if h.path == '/api/v1/lookup':
            for o in h.outs:
                for e in all_drv(o):
                    ck.ob('%s: does not change records' % h.path, e.name not in MUTATING, e.where[1], e.name)
            seen.add(h.path)
            continue
        spec = OPS.get(h.path)
        if spec is None:
            for o in h.outs:
                for e in all_drv(o):
                    ck.ob('%s: undocumented endpoint does not change records' % h.path, e.name not in MUTATING, e.where[1], e.name)
            continue
        seen.add(h.path)
        for o in h.outs:
            n = 0
            # an operation repeated by a loop counts once more, unless the loop only repeats it after it failed
            again = [(e, f.variant(e.res) != 'Err') for e, f in looped(o)]
            for e, counts in [(e, True) for e in drv_events(o)] + again:
                ck.count('driver calls')
                m = [s for s in spec if s[0] == e.name]
                if not m:
                    ck.ob('%s: performs only its own operation' % h.path, e.name not in MUTATING, e.where[1], 'calls %s' % e.name)
                    continue
                n += counts
                op, var, args = m[0]
                if var is not None:
                    ck.ob('%s: %s only for the %s form of the request' % (h.path, op, var), e.facts.is_(body(''), var), e.where[1])
                for (nm, pred), t in zip(args, e.args[1:]):
                    ck.ob('%s: %s gets the %s of the signed request' % (h.path, op, nm), pred(e.facts, t), e.where[1], 'argument is %s' % show(canon(e.facts, t))[:300])
            ck.ob('%s: operation performed at most once' % h.path, n <= 1, h.where, '%d operations' % n)
            k, r = shape(o.facts, o.ret)
            if k == 'Success' and h.path == '/api/v1/poll':
                ev = [e for e in drv_events(o) if e.name == 'MessagesInbox::poll_messages']
                if ev and r.op == 'agg':
                    b = rf(r, 'response')
                    pair = fld(ev[0].res, 'Ok', '0')
                    ck.ob('%s: reply carries the polled messages' % h.path, same(o.facts, part(b, 'messages'), fld(pair, None, '0')), h.where, show(b)[:300])
                    ck.ob('%s: reply carries the remaining count' % h.path, same(o.facts, part(b, 'remaining'), fld(pair, None, '1')), h.where, show(b)[:300])
    for p in list(OPS) + ['/api/v1/lookup']:
        if p not in seen:
            raise AnalysisError('endpoint %s is not registered' % p)
    ck.floor('driver calls', 6)


@prop('C06', 'on every path of a handler that ends in a success reply, the endpoint\'s routing-table or inbox operation was awaited on that path and its result is known to be Ok; every path on which an awaited operation is known to have failed ends in an error reply')
def c06(ck):
    ses, hs = posts(ck)
    for h in hs:
        for o in h.outs:
            k, r = shape(o.facts, o.ret)
            evs = drv_events(o)
            failed = [e for e in evs if o.facts.variant(e.res) == 'Err']
            for e in failed:
                ck.count('failing paths')
                ck.ob('%s: a failing %s gives an error reply' % (h.path, e.name), k == 'Error', e.where[1])
            if k == 'Error':
                continue
            ck.count('success paths')
            for e, f in looped(o):
                ck.ob('%s: success only after %s succeeded' % (h.path, e.name), f.variant(e.res) == 'Ok' or any(x.name == e.name for x in evs), e.where[1], 'it may fail in an iteration of a loop before success is returned')
            for e in evs:
                ck.ob('%s: success only after %s succeeded' % (h.path, e.name), o.facts.variant(e.res) == 'Ok', e.where[1], 'its result is not known to be Ok where success is returned')
            if h.path in OPS:
                req = [s for s in OPS[h.path] if s[1] is None or o.facts.is_(body(''), s[1])]
                ck.ob('%s: success only with the operation performed' % h.path, bool(req) and all(any(e.name == s[0] for e in evs) for s in req), h.where,
                      'a path returns success without %s' % ' / '.join(s[0] for s in OPS[h.path]))
            elif h.path == '/api/v1/lookup':
                ck.ob('%s: success only with the operation performed' % h.path, any(e.name.startswith('Router::lookup') for e in evs), h.where)
    ck.floor('success paths', 6)
    ck.floor('failing paths', 5)


@prop('C07', 'on every path of the lookup handler: each routing-table lookup is for the key and type of the request; the reply body is Local with the local lookup\'s client and availability if that found one, else Remote with the remote lookup\'s client, server and availability, else Hint with the hint lookup\'s servers, and Hint only when both lookups answered None')
def c07(ck):
    ses, hs = posts(ck)
    h = [x for x in hs if x.path == '/api/v1/lookup']
    if len(h) != 1:
        raise AnalysisError('lookup endpoint not found')
    h = h[0]
    pk, ty = body('public_key'), body('client_type')
    for o in h.outs:
        evs = drv_events(o)
        for e in all_drv(o):
            if e.name.startswith('Router::lookup') and len(e.args) >= 3:
                ck.count('lookups')
                ck.ob('%s asks for the requested key' % e.name, same(e.facts, e.args[1], pk), e.where[1], show(canon(e.facts, e.args[1]))[:200])
                ck.ob('%s asks for the requested type' % e.name, same(e.facts, e.args[2], ty), e.where[1], show(canon(e.facts, e.args[2]))[:200])
        k, r = shape(o.facts, o.ret)
        if k == 'Error':
            continue
        if r.op != 'agg':
            ck.ob('reply is built by the handler', False, h.where, show(r)[:200])
            continue
        b = rf(r, 'response')
        ev = {}
        for e in evs:
            ev.setdefault(e.name, []).append(e)

        def found(nm):
            """(result payload or None, state: 'some' 'none' 'unasked' '?')"""
            es = ev.get('Router::' + nm, [])
            if not es:
                return None, 'unasked'
            e = es[-1]
            okv = fld(e.res, 'Ok', '0')
            v = o.facts.variant(okv)
            return fld(okv, 'Some', '0'), {'Some': 'some', 'None': 'none'}.get(v, '?')
        loc, lst = found('lookup_local_client')
        rem, rst = found('lookup_remote_client')
        var = b.a[0][2] if is_adt(b) else None
        ck.count('success replies')
        ck.ob('success reply has a known form', var in ('Local', 'Remote', 'Hint'), h.where, show(b)[:200])
        if var is None:
            continue
        fs = FIELDS[b.a[0][1]][0][var]
        g = lambda n: b.a[1][fs.index(n)]
        if var == 'Local':
            ck.ob('local answer is the locally found client', lst == 'some' and same(o.facts, g('client'), fld(loc, None, '0')), h.where, show(g('client'))[:200])
            ck.ob('local answer has the found availability', lst == 'some' and same(o.facts, g('available'), fld(loc, None, '1')), h.where, show(g('available'))[:200])
        elif var == 'Remote':
            ck.ob('remote answer only when not known locally', lst == 'none', h.where, 'local lookup: ' + lst)
            ck.ob('remote answer is the remotely found client', rst == 'some' and same(o.facts, g('client'), fld(rem, None, '0')), h.where, show(g('client'))[:200])
            ck.ob('remote answer names the found server', rst == 'some' and same(o.facts, g('server'), fld(rem, None, '1')), h.where, show(g('server'))[:200])
            ck.ob('remote answer has the found availability', rst == 'some' and same(o.facts, g('available'), fld(rem, None, '2')), h.where, show(g('available'))[:200])
        else:
            ck.ob('hint only when not known locally', lst == 'none', h.where, 'local lookup: ' + lst)
            ck.ob('hint only when not known remotely', rst == 'none', h.where, 'remote lookup: ' + rst)
            es = ev.get('Router::lookup_remote_client_hint', [])
            ck.ob('hint lists the hinted servers', bool(es) and same(o.facts, g('servers'), fld(es[-1].res, 'Ok', '0')), h.where, show(g('servers'))[:200])
    ck.floor('success replies', 3)
    ck.floor('lookups', 3)

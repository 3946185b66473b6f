"""Client operations: C08-C13."""
from .base import *
from .loops import *

PRE = 'AsJson::'


def url_parts(t):
    """(address terms, path) of a request URL."""
    ps = list(t.a) if t.op == 'cat' else [t]
    path = ps[-1].a[0] if ps and ps[-1].op == 'str' else None
    rest = ps[:-1]
    if path is not None and not path.startswith('/'):
        i = path.find('/api/')
        if i < 0:
            return rest, None
        path = path[i:]
    if rest and rest[0].op == 'str' and rest[0].a[0] in ('http://', 'https://'):
        rest = rest[1:]
    return rest, path


class Http:
    """One HTTP request of a client operation and the reply decoded from it."""

    def __init__(self, e):
        self.e = e
        self.verb = e.name.split('::')[1]
        self.addr, self.path = url_parts(e.args[1])
        self.body = e.args[2] if len(e.args) > 2 else None
        self.req = None
        if self.body is not None:
            t = self.body
            if t.op == 'fld' and t.a[0].op == 'call' and t.a[0].a[0] == 'AsJson::to_json':
                self.req = t.a[0].a[1][0]
                self.req_ty = t.a[0].a[3]

    def of(self, r):
        """Was reply r (from_json call) decoded from this request's response?"""
        t = r.a[1][0]
        while t.op == 'fld':
            t = t.a[0]
        return t is self.e.res


def reads(t):
    """from_json calls mentioned in a term."""
    return [x for x in subterms(t) if x.op == 'call' and x.a[0] == 'AsJson::from_json']


def https(o_events):
    return [Http(e) for e in o_events if e.kind == 'call' and e.name in ('HttpClient::get', 'HttpClient::post')]


def replies(o, hs):
    """[(Http, from_json call)] decoded on this path."""
    out = []
    for t in list(o.facts.v) + [o.ret]:
        for r in reads(t):
            for h in hs:
                if h.of(r) and (h, r) not in out:
                    out.append((h, r))
    return out


class Op:
    def __init__(self, ty, name, body, outs, ses):
        self.ty, self.name, self.body, self.outs, self.ses = ty, name, body, outs, ses

    @property
    def id(self):
        return '%s::%s' % (self.ty, self.name)


OPNAMES = {'get_info', 'get_clients', 'get_servers', 'connect', 'connect_to', 'disconnect', 'announce', 'lookup', 'send', 'poll'}


def ops(ck):
    """Every public operation of the client middleware that talks to a server, on every path."""
    out = []
    res = free_fn(ck.F, 'address', 'resolve')
    for ty, aid, name, body in all_inherent(ck.F):
        if '::middleware::' not in aid or ty not in ('Client', 'ConnectedClient') or not body['exported']:
            continue
        ses = ck.session(opaque=lambda b: b['id'] == res['id'])
        try:
            outs = ses.entry(body)
        except AnalysisError as e:
            raise AnalysisError('%s::%s: %s' % (ty, name, e))
        if ses.I.escapes:
            raise AnalysisError('%s::%s: code escapes into %s' % (ty, name, ses.I.escapes[0]))
        evs = [e for o in outs for e in o.events] + [e for l in loops_of(outs) for s in l.paths for e in s.events()]
        if not any(e.kind == 'call' and e.name.startswith('HttpClient::') for e in evs):
            continue
        out.append(Op(ty, name, body, outs, ses))
        ck.count('operations')
        ck.count('operation paths', len(outs))
    have = {o.name for o in out}
    if not OPNAMES <= have:
        raise AnalysisError('client operations not found: %s' % ', '.join(sorted(OPNAMES - have)))
    return out


def is_info(r):
    ty = r.a[3]
    return bool(ty) and ty[0][0] == 'adt' and ty[0][1].endswith('InfoResponse')


def shape_of(o, r):
    """(variant, response term) of the decoded reply of from_json call r."""
    v = fld(r, 'Ok', '0')
    inner = fld(v, None, '0')
    return o.facts.variant(inner), inner


UNSIGNED = {'get_clients', 'get_servers'}


def judged(o, h, r):
    """None if the reply is known to be valid for the request sent, else the reason."""
    if o.facts.variant(r) != 'Ok':
        return 'the reply was not decoded'
    if is_info(r):
        v = fld(r, 'Ok', '0')
        return proved(o.facts, F_(v, 'public_key'), F_(v, 'proof_seed'), F_(v, 'proof_sign'))
    var, x = shape_of(o, r)
    if var != 'Success':
        return 'the reply is not known to be a success reply'
    if h.req is None:
        return 'the request sent is not known'
    return proved(o.facts, fld(x, 'Success', 'public_key'), F_(h.req, '0.proof_seed'), fld(x, 'Success', 'proof_sign'))


def okness(o):
    return [(v, pl) for f, v, pl in result_of(o)]


@prop('C08', 'on every path of every client operation that returns Ok (for lookup: Ok(Some)): a reply was decoded from this operation\'s own request, it is known to be of the success shape, its seed (the one inside the request that was sent) is known >= 2^63 and its signature is known to verify under the carried key; and every reply mentioned in the returned value satisfies this')
def c08(ck):
    for op in ops(ck):
        if op.name in UNSIGNED:
            continue
        n = 0
        for o in op.outs:
            hs = https(o.events)
            for v, pl in okness(o):
                if v != 'Ok':
                    continue
                if op.name == 'lookup':
                    ov = o.facts.variant(pl[0])
                    if ov == 'None':
                        continue
                    if ov is None:
                        ck.ob('%s: result is found or not found' % op.id, False, op.body['sp'], show(pl[0])[:200])
                        continue
                n += 1
                ck.count('successful paths')
                rs = replies(o, hs)
                signed = [(h, r) for h, r in rs]
                used = [(h, r) for h, r in signed if any(x is r for x in subterms(pl[0]))]
                last = [(h, r) for h, r in signed if h.e is hs[-1].e] if hs else []
                ck.ob('%s: success only with a decoded reply' % op.id, bool(last), op.body['sp'], 'a path returns Ok without a reply to its request')
                for h, r in {id(x[1]): x for x in used + last}.values():
                    bad = judged(o, h, r)
                    ck.ob('%s: success only with a reply proved valid for the request to %s' % (op.id, h.path), bad is None, op.body['sp'], bad)
                src = {id(r) for h, r in rs}
                alien = [r for r in reads(pl[0]) if id(r) not in src]
                ck.ob('%s: returned data comes from replies to its own requests' % op.id, not alien, op.body['sp'], str(alien[:1])[:200])
        ck.ob('%s: can succeed' % op.id, n > 0, op.body['sp'])
    ck.floor('operations', 10)
    ck.floor('successful paths', 7)


def accessor(ck, ty, name):
    return inherent(ck.F, ty, name)


@prop('C09', 'on every Ok path of connect, connect_to, disconnect and poll the success reply\'s key is known equal to the expected server key; the session returned by connecting carries that key, the address the request was sent to, and the certificate inside the request that was sent')
def c09(ck):
    me = mk('par', 'self')
    for op in ops(ck):
        if op.name not in ('connect', 'connect_to', 'disconnect', 'poll'):
            continue
        n = 0
        for o in op.outs:
            hs = [h for h in https(o.events)]
            for v, pl in okness(o):
                if v != 'Ok':
                    continue
                n += 1
                ck.count('successful paths')
                posts = [h for h in hs if h.verb == 'post']
                rs = [(h, r) for h, r in replies(o, posts)]
                if not rs:
                    ck.ob('%s: succeeds only after a reply' % op.id, False, op.body['sp'])
                    continue
                h, r = rs[-1]
                key = fld(shape_of(o, r)[1], 'Success', 'public_key')
                if op.name in ('disconnect', 'poll'):
                    want = F_(me, 'connected_server.public_key')
                elif op.name == 'connect_to':
                    ps = [mk('par', n_) for n_ in par_names(op.body)]
                    want = ps[2]
                else:
                    infos = [r2 for h2, r2 in replies(o, hs) if is_info(r2)]
                    if not infos:
                        ck.ob('%s: the expected key is the one the server info proved' % op.id, False, op.body['sp'])
                        continue
                    want = F_(fld(infos[-1], 'Ok', '0'), 'public_key')
                ck.ob('%s: succeeds only if the reply is signed by the expected server key' % op.id, same(o.facts, key, want), op.body['sp'],
                      'reply key %s, expected %s' % (show(canon(o.facts, key))[:150], show(want)[:80]))
                if op.name in ('connect', 'connect_to'):
                    s = pl[0]
                    ck.ob('%s: session remembers the expected server key' % op.id, same(o.facts, F_(s, 'connected_server.public_key'), want), op.body['sp'], show(F_(s, 'connected_server.public_key'))[:200])
                    a = F_(s, 'connected_server.address')
                    par = mk('par', par_names(op.body)[1])
                    ck.ob('%s: session remembers the address used' % op.id, len(h.addr) == 1 and (a is h.addr[0] or same(o.facts, a, h.addr[0])) and mentions(a, par), op.body['sp'], show(a)[:200])
                    ck.ob('%s: session remembers the submitted certificate' % op.id, h.req is not None and same(o.facts, F_(s, 'connection_certificate'), F_(h.req, '0.request.certificate')), op.body['sp'],
                          show(F_(s, 'connection_certificate'))[:200])
                    ck.ob('%s: session keeps the client driver' % op.id, same(o.facts, F_(s, 'driver'), F_(me, 'driver')), op.body['sp'])
        ck.ob('%s: can succeed' % op.id, n > 0, op.body['sp'])
    ck.floor('successful paths', 4)


def par_names(body):
    """Parameter names in order."""
    return [body['locals'][i + 1][1] or 'arg%d' % i for i in range(body['argc'])]


@prop('C10', 'for connect_to, connect, disconnect, announce, send and poll, on every path: if the decoded reply has the error shape the operation returns the request-failed error whose status and reason are that reply\'s; if sending, receiving or decoding failed the operation returns an error; Ok is returned only where the reply is known not to be an error; an error path of the reqwest adapter fails only where sending, receiving or decoding did, whatever the HTTP status')
def c10(ck):
    for op in ops(ck):
        if op.name not in ('connect_to', 'connect', 'disconnect', 'announce', 'send', 'poll'):
            continue
        nerr = 0
        for o in op.outs:
            hs = https(o.events)
            rs = replies(o, hs)
            oks = okness(o)
            for h in hs:
                if o.facts.variant(h.e.res) == 'Err':
                    ck.count('failing paths')
                    ck.ob('%s: a failed %s is an error' % (op.id, h.path), all(v == 'Err' for v, _ in oks), op.body['sp'])
            for h, r in rs:
                if o.facts.variant(r) == 'Err':
                    ck.count('failing paths')
                    ck.ob('%s: an undecodable reply is an error' % op.id, all(v == 'Err' for v, _ in oks), op.body['sp'])
                if is_info(r):
                    continue
                var, x = shape_of(o, r)
                if o.facts.variant(r) != 'Ok':
                    continue
                if var == 'Error':
                    nerr += 1
                    ck.count('error reply paths')
                    for v, pl in oks:
                        good = v == 'Err' and request_failed(o.facts, pl[0], x)
                        ck.ob('%s: an error reply is reported with its own status and reason' % op.id, good, op.body['sp'], 'returns %s %s' % (v, show(pl[0])[:200]))
                elif var is None:
                    ck.ob('%s: success only where the reply is known not to be an error reply' % op.id, all(v == 'Err' for v, _ in oks), op.body['sp'])
            for v, pl in oks:
                if v == 'Ok':
                    # no body at all is not a reply
                    ck.ob('%s: success only with a reply' % op.id, bool([1 for h, r in rs if h.e is hs[-1].e]) if hs else False, op.body['sp'])
        ck.ob('%s: error replies are told apart' % op.id, nerr > 0, op.body['sp'], 'no path distinguishes an error reply')
    # the HTTP client hands on what was answered, whatever the HTTP status it came with
    for aid, im in impls_of(ck.F, 'HttpClient'):
        if not aid:
            continue
        for verb in ('get', 'post'):
            b = impl_method(ck.F, im, verb)
            for o in ck.session().entry(b):
                if not any(v == 'Err' for f, v, pl in result_of(o)):
                    continue
                ck.count('transport failures')
                causes = [t.a[0] if t.op == 'await' else t for t, x in o.facts.v.items() if x == ('is', 'Err')]
                causes = [str(t.a[0]).split('::')[-1] for t in causes if t.op == 'call']
                good = any(c in TRANSPORT for c in causes)
                ck.ob('%s::%s fails only where sending or decoding fails' % (aid.split('::')[-1], verb), good, b['sp'], 'a path fails after: %s' % (', '.join(causes) or 'no failing operation'))
    ck.floor('error reply paths', 6)
    ck.floor('failing paths', 6)


TRANSPORT = {'send', 'execute', 'build', 'json', 'text', 'text_with_charset', 'bytes', 'chunk', 'json_parse', 'from_utf8', 'parse', 'to_json'}


def request_failed(facts, e, reply):
    if not is_adt(e):
        return False
    fs = FIELDS.get(e.a[0][1])
    if not fs:
        return False
    names = fs[0][e.a[0][2]]
    if 'status' not in names or 'reason' not in names:
        return False
    return same(facts, e.a[1][names.index('status')], fld(reply, 'Error', 'status')) and same(facts, e.a[1][names.index('reason')], fld(reply, 'Error', 'reason'))


def http_req(verb, path):
    def f(e):
        return e.kind == 'call' and e.name == 'HttpClient::' + verb and url_parts(e.args[1])[1] == path
    return f


def http_addr(e):
    ps = url_parts(e.args[1])[0]
    return ps[0] if len(ps) == 1 else cat(ps)


@prop('C11', 'worklist rule on the lookup loop: requests only in the loop, one per iteration, to an address taken from the queue and known not to be in a set that only grows and afterwards contains it; the queue starts as exactly the connected server\'s address; on an accepted hint every hinted address is queued; an iteration with a failed, invalid or error reply continues unless it is provably the first; a server is passed over only if it is known to be in that set; not found is returned only when the queue is known empty')
def c11(ck):
    op = [o for o in ops(ck) if o.name == 'lookup'][0]
    sp = op.body['sp']
    I = op.ses.I
    W = Worklist(I, op.outs, http_req('post', '/api/v1/lookup'), http_addr)
    ck.count('loops', len(loops_of(op.outs)))
    for okk, why in W.once():
        ck.ob('each address is asked at most once', okk, sp, why)
    qi = W.start()
    ps = parts_of(I, None, qi)
    home = F_(mk('par', 'self'), 'connected_server.address')
    ck.ob('the search starts at the connected server', ps is not None and len(ps) == 1 and ps[0][0] == 'one' and same(None, ps[0][1], home), sp, show(qi)[:200])
    sk = W.skips()
    ck.ob('a server is passed over only if it was asked before', not sk, sp, '; '.join(sk[0].facts.show())[:300] if sk else '')
    hints = 0
    for i, st in enumerate(W.lp.paths):
        ck.count('iteration paths')
        hs = [Http(e) for e in W.requests(st)]
        class O:        # a path as an outcome
            facts, ret = st.facts, UNIT
        for h, r in replies(O, hs):
            var, x = shape_of(O, r)
            body = fld(x, 'Success', 'response')
            if st.facts.variant(r) == 'Ok' and var == 'Success' and judged(O, h, r) is None and st.facts.variant(body) == 'Hint':
                hints += 1
                ck.ob('every hinted address is queued', W.follows(i, st, fld(body, 'Hint', 'servers'), 'address'), sp, 'queue becomes %s' % show(W.back(i, W.queue))[:300])
            elif st.facts.variant(r) == 'Ok' and var == 'Success' and judged(O, h, r) is None:
                ck.ob('a found client ends the search', st.facts.variant(body) not in ('Local', 'Remote'), sp, 'a %s answer is dropped' % st.facts.variant(body))
            elif st.facts.variant(r) == 'Ok' and var == 'Success' and judged(O, h, r) is not None:
                # hints of an unproved reply must not steer the search
                q = W.back(i, W.queue)
                ck.ob('hints of an unproved reply are not followed', not any(mentions(p, r) for p in [q]), sp, show(q)[:200])
    ck.count('hint paths', hints)
    if not hints:
        ck.ob('accepted hints are followed', False, sp, 'no iteration handles a hint')
    for o in op.outs:
        evs = since(o.events, W.top)
        for v, pl in okness(o):
            reqs = [e for e in evs if W.is_req(e)] if evs is not None else []
            if v == 'Err':
                ck.count('error exits')
                ok_ = evs is None or first_only(W, o.facts)
                ck.ob('a failing server ends the search only if it is the connected one', ok_, sp, 'a path with facts %s returns Err' % '; '.join(f for f in o.facts.show() if 'HttpClient' not in f)[:300])
            elif o.facts.variant(pl[0]) == 'None':
                ck.count('not-found exits')
                ck.ob('not found only when no unasked server remains', W.exhausted(o.facts), sp)
    ck.floor('not-found exits', 1)


ZERO = TM.I(0, 'usize')


def first_only(W, facts):
    """The path is possible only in the first iteration."""
    for ph, (init, backs) in W.lp.phis.items():
        if ph is W.queue or ph is W.next:
            continue
        init = W.init(ph)
        if init.op == 'bool' and facts.eval(ph) is init.a[0] and all((b.op == 'bool' and b.a[0] != init.a[0]) or (b is ph and later_only(W, W.lp.paths[i]))
                                                                     for i, b in enumerate(backs)):
            return True
        # counters and sets that were empty at the start and grew in every iteration that asked a server
        if is_empty(init) or init.op == 'int':
            if is_empty(init):
                z = facts.interval(length(ph)) == (0, 0)
            else:
                lo, hi = facts.interval(ph)
                z = lo == hi == init.a[0]
            if z and all(grows(W, i, ph) for i in range(len(W.lp.paths))):
                return True
    home = F_(mk('par', 'self'), 'connected_server.address')
    for t, x in facts.b.items():
        if x is True and t.op == 'eq' and any(mentions(a, home) for a in t.a) and any(popped(None, y) is W.queue for a in t.a for y in subterms(a)):
            return True
    return False


def later_only(W, st):
    """The path is impossible in the first iteration: it found something in a collection that started empty."""
    return any(x is True and t.op == 'contains' and t.a[0] in W.lp.phis and is_empty(W.init(t.a[0])) for t, x in st.facts.b.items())


def grows(W, i, ph):
    b = W.back(i, ph)
    if b is None:
        return False
    st = W.lp.paths[i]
    if b.op == 'bin' and b.a[0] == 'Add' and ph in (b.a[1], b.a[2]) and any(x.op == 'int' and x.a[0] > 0 for x in (b.a[1], b.a[2])):
        return True
    g = grown(W.I, ph, b)
    if g:
        return True
    # unchanged: only where the set is known to be non-empty already
    return g == [] and any(x is True and t.op == 'contains' and t.a[0] is ph for t, x in st.facts.b.items())


@prop('C12', 'worklist rule on every traversal driver: server lists are requested only in the loop, one per iteration, from an address known not to be in a set that only grows and afterwards contains it; the queue starts as the routing table\'s servers; on every path of an iteration the taken server is indexed; every server of a received list is queued; a server is passed over only if it is known to be in that set; the loop is left only with an empty queue')
def c12(ck):
    tr = trait_named(ck.F, 'Traversal')
    bodies = [(a, impl_method(ck.F, im, 'traverse')) for a, im in impls_of(ck.F, tr)]
    bodies = [(a, b) for a, b in bodies if b is not None]
    n = 0
    for a, b in bodies:
        ses = ck.session()
        outs = ses.entry(b)
        I = ses.I
        evs = [e for o in outs for e in o.events]
        nm = a.split('::')[-1]
        sp = b['sp']
        if not any(e.kind == 'loop' for e in evs) and not any(e.name.startswith('HttpClient::') for e in evs if e.kind == 'call'):
            ck.count('drivers without requests')
            continue
        n += 1
        ck.count('traversal drivers')
        W = Worklist(I, outs, http_req('get', '/api/v1/servers'), http_addr)
        for okk, why in W.once():
            ck.ob('%s: each server is asked at most once' % nm, okk, sp, why)
        srv = None
        for o in outs:
            for e in o.events:
                if e.kind == 'call' and e.name == 'Router::servers':
                    srv = e.res
        qi = W.start()
        ck.ob('%s: starts from all known servers' % nm, srv is not None and same(None, qi, fld(srv, 'Ok', '0')), sp, show(qi)[:200])
        for o in outs:
            if since(o.events, W.top) is None:
                ck.ob('%s: gives up only if the known servers cannot be listed' % nm, srv is not None and o.facts.variant(srv) == 'Err', sp)
            else:
                ck.ob('%s: ends only when every server was visited' % nm, W.exhausted(o.facts), sp, 'left with servers in the queue')
        sk = W.skips()
        ck.ob('%s: a server is passed over only if it was asked before' % nm, not sk, sp, '; '.join(sk[0].facts.show())[:300] if sk else '')
        lists = 0
        for i, st in enumerate(W.lp.paths):
            ck.count('iteration paths')
            ev = since(st.events(), W.lp)
            el = None
            for s2 in W.iteration_states(W.lp):
                el = el or W.element(s2)
            idx = [e for e in ev if e.kind == 'call' and e.name == 'Router::index_server']
            ck.ob('%s: every server taken from the queue is indexed' % nm, any(same(st.facts, e.args[1], el) for e in idx), sp,
                  'an iteration does not index the server it took')
            hs = [Http(e) for e in W.requests(st)]
            class O:
                facts, ret = st.facts, UNIT
            for h, r in replies(O, hs):
                if st.facts.variant(r) == 'Ok':
                    lists += 1
                    ck.ob('%s: every discovered server is queued' % nm, W.follows(i, st, F_(fld(r, 'Ok', '0'), 'servers'), None), sp, show(W.back(i, W.queue))[:300])
        ck.ob('%s: received server lists are followed' % nm, lists > 0, sp)
    ck.floor('traversal drivers', 1)


@prop('C13', 'the set of (verb, path, request type, reply type) registered by the server equals the set used by the client operations, and operations of a connected client that address its own server use the connected server\'s address')
def c13(ck):
    from . import server as SV
    ses, hs = SV.handlers(ck, run=False)
    def tn(t):
        while t and t[0] == 'ref':
            t = t[1]
        return t[1] if t and t[0] == 'adt' else str(t)
    srv = {}
    for h in hs:
        ck.count('registered endpoints')
        ck.ob('%s is registered once' % h.name, (h.verb, h.path) not in srv, h.where)
        srv[(h.verb, h.path)] = ([tn(t) for t in h.targs[1:2 if h.verb == 'get' else 3]], h.where)
    used = {}
    home = F_(mk('par', 'self'), 'connected_server.address')
    for op in ops(ck):
        evs = []
        for o in op.outs:
            evs += [(e, o.facts, o.ret) for e in o.events]
        for l in loops_of(op.outs):
            for s in l.paths:
                evs += [(e, s.facts, UNIT) for e in s.events()]
        for e, f, ret in evs:
            if e.kind != 'call' or e.name not in ('HttpClient::get', 'HttpClient::post'):
                continue
            h = Http(e)
            ck.ob('%s: endpoint path is constant' % op.id, h.path is not None, e.where[1], show(e.args[1])[:200])
            rt = {tn(r.a[3][0]) for t in list(f.v) + [ret] for r in reads(t) if h.of(r)}
            u = used.setdefault((h.verb, h.path), [set(), set(), set(), e.where[1]])
            u[0].add(op.id)
            if h.req is not None:
                u[1].add(tn(h.req_ty[0]))
            elif h.verb == 'post':
                ck.ob('%s: body is an encoded request' % op.id, False, e.where[1])
            u[2] |= rt
            if op.name in ('disconnect', 'poll'):
                ck.ob('%s: is sent to the connected server' % op.id, len(h.addr) == 1 and same(f, h.addr[0], home), e.where[1], show(e.args[1])[:200])
            elif op.ty == 'Client':
                par = mk('par', par_names(op.body)[1])
                ck.ob('%s: is sent to the given server' % op.id, len(h.addr) == 1 and mentions(h.addr[0], par), e.where[1], show(e.args[1])[:200])
            elif op.name in ('announce', 'send') and h.path.endswith((op.name,)):
                par = mk('par', par_names(op.body)[1])
                ck.ob('%s: is sent to the resolved server' % op.id, any(mentions(a, par) for a in h.addr), e.where[1], show(e.args[1])[:200])
    for k, u in sorted(used.items(), key=lambda x: str(x[0])):
        ck.count('client endpoints')
        nm = '%s %s' % k
        ck.ob('%s used by the client is registered by the server' % nm, k in srv, u[3])
        if k not in srv:
            continue
        tys, where = srv[k]
        ck.sample('%s: server %s, client %s -> %s' % (nm, tys, sorted(u[1]), sorted(u[2])))
        if k[0] == 'post':
            ck.ob('%s: same request type on both sides' % nm, u[1] == {tys[0]}, u[3], 'client %s, server %s' % (sorted(u[1]), tys[0]))
        ck.ob('%s: same reply type on both sides' % nm, u[2] == {tys[-1]}, u[3], 'client %s, server %s' % (sorted(u[2]), tys[-1]))
    for k in srv:
        ck.ob('%s %s has a client operation' % k, k in used, srv[k][1])
    want = {'get_info': ('get', '/api/v1/info'), 'get_clients': ('get', '/api/v1/clients'), 'get_servers': ('get', '/api/v1/servers')}
    for n in OPNAMES - {'connect', 'connect_to'} - set(want):
        want[n] = ('post', '/api/v1/' + n)
    want['connect_to'] = ('post', '/api/v1/connect')
    for n, k in sorted(want.items()):
        ck.ob('%s uses %s %s' % ((n,) + k), any(x.endswith('::' + n) for x in used.get(k, [()])[0]), '')
    ck.floor('registered endpoints', 9)
    ck.floor('client endpoints', 9)

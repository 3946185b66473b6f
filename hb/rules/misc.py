"""HTTP layer, panics, secrets, unsafe code, addresses, features, tracing: C14, C27, C29, C30, C39, C40, C43."""
from .base import *
from .rest import SELF, params_of, type_name, rt_session
from .storage import op_of
from .loops import loops_of


# ------------------------------------------------------------------ C14
def chain_of(t):
    """A builder chain as [(method, args)] from its start."""
    out = []
    while t.op == 'call' and isinstance(t.a[0], str):
        out.append((op_of(t.a[0]), t.a[1][1:] if t.a[1] else ()))
        if not t.a[1]:
            break
        t = t.a[1][0]
    out.reverse()
    return out, t


STATUS = {'CONTINUE': 100, 'OK': 200, 'CREATED': 201, 'ACCEPTED': 202, 'NO_CONTENT': 204, 'MOVED_PERMANENTLY': 301, 'FOUND': 302, 'NOT_MODIFIED': 304, 'BAD_REQUEST': 400, 'UNAUTHORIZED': 401,
          'PAYMENT_REQUIRED': 402, 'FORBIDDEN': 403, 'NOT_FOUND': 404, 'METHOD_NOT_ALLOWED': 405, 'NOT_ACCEPTABLE': 406, 'REQUEST_TIMEOUT': 408, 'CONFLICT': 409, 'GONE': 410, 'PAYLOAD_TOO_LARGE': 413,
          'UNSUPPORTED_MEDIA_TYPE': 415, 'IM_A_TEAPOT': 418, 'UNPROCESSABLE_ENTITY': 422, 'TOO_MANY_REQUESTS': 429, 'INTERNAL_SERVER_ERROR': 500, 'NOT_IMPLEMENTED': 501, 'BAD_GATEWAY': 502,
          'SERVICE_UNAVAILABLE': 503, 'GATEWAY_TIMEOUT': 504}


def status_of(t):
    """Numeric HTTP status of a status term, or None."""
    if t.op == 'int':
        return t.a[0]
    if t.op == 'fld' and t.a[1] == 'Ok' and t.a[0].op == 'call' and op_of(str(t.a[0].a[0])) in ('from_u16', 'try_from') and t.a[0].a[1]:
        return status_of(t.a[0].a[1][0])
    if t.op == 'call' and op_of(str(t.a[0])) in ('from', 'into') and t.a[1]:
        return status_of(t.a[1][0])
    m = re.search(r'::([A-Z_]+)\b', str(t.a[0])) if t.op == 'constx' else None
    return STATUS.get(m.group(1)) if m else None


def reply_of(t):
    """(status, body term) of an HTTP response term."""
    for _ in range(6):
        if t.op == 'call' and isinstance(t.a[0], str) and op_of(t.a[0]) in ('into_response', 'from', 'into') and t.a[1]:
            t = t.a[1][0]
            continue
        if is_adt(t, 'Ok') or is_adt(t, 'Err'):
            t = t.a[1][0]
            continue
        break
    if t.op == 'fld' and t.a[1] == 'Ok':
        t = t.a[0]
    if t.op == 'agg' and t.a[0][0] == 'tuple' and len(t.a[1]) >= 2:
        return status_of(t.a[1][0]) if status_of(t.a[1][0]) is not None or len(t.a[1]) != 2 or not headers(t.a[1][0]) else 200, t.a[1][-1]
    if t.op == 'call' and isinstance(t.a[0], str):
        ch, start = chain_of(t)
        names = [n for n, a in ch]
        if 'body' in names:
            st = [status_of(a[0]) for n, a in ch if n == 'status' and a]
            return (st[-1] if st else 200), [a for n, a in ch if n == 'body'][-1][0]
    if t.op == 'call' and t.a[0] in ('json_text', 'json_bytes') or t.op == 'cat' or t.op == 'fld' and json_body(t, fld(t, 'Ok', '0') if t.a[0].op != 'call' or not t.a[0].a[1] else t.a[0].a[1][0]) \
            or is_adt(t) and 'Json' in str(t.a[0][1]) and len(t.a[1]) == 1:
        return 200, t
    return None, None


def headers(t):
    """An array of headers, or a map of them, as the first part of a reply."""
    return t.op == 'agg' and t.a[0][0] in ('array', 'tuple') or t.op == 'cat' or t.op == 'hav' or t.op == 'call' and 'HeaderMap' in str(t.a[0])


def callbacks(o):
    return [e for e in o.events if e.kind == 'call' and isinstance(e.name, tuple) and e.name[0] == 'callback']


def fails(ck, key, o, f, v):
    """A path on which an external operation is known to have failed must return an error."""
    for t, x in f.v.items():
        c = t.a[0] if t.op == 'await' else t
        if x == ('is', 'Err') and c.op == 'call' and isinstance(c.a[0], str):
            ck.ob('%s: a failure of %s is reported' % (key, norm(c.a[0])), v == 'Err', '', 'a path on which it failed answers %s' % v)


def from_reply(f, t, resp):
    """Is t JSON decoded from the received response resp (the Ok value of send)?"""
    for _ in range(6):
        if t is resp:
            return True
        if t.op == 'fld' and t.a[1] == 'Ok' and t.a[0].op == 'call':
            c = t.a[0]
            n = str(c.a[0])
            if op_of(n) in ('json', 'text', 'bytes', 'json_parse', 'text_with_charset', 'error_for_status') and c.a[1]:
                t = c.a[1][0]
                continue
        return False
    return False


@prop('C14', 'AxumHttpServer::get/post: the registered router is the previous one (or an empty one) with the given path routed, under the matching verb, to a handler; on every path of the POST handler the callback is called at most once and only with the request decoded (from_json Ok) from the JSON parsed (Ok) from the received body, undecodable bodies give status 500 without a call, and the reply is the JSON text of the callback\'s result, or status 500 if it does not encode; serve runs the built router and reports every failure; ReqwestHttpClient and the generic request methods answer Ok only with data decoded from the received body of the request sent to the given URL, and report every failure')
def c14(ck):
    F = ck.F
    servers = [(a, im) for a, im in impls_of(F, 'HttpServer') if a]
    for aid, im in servers:
        ty = aid.split('::')[-1]
        for verb in ('get', 'post'):
            b = impl_method(F, im, verb)
            ck.count('registrations')
            ses = ck.session(transparent=('HttpServer',))
            ps = [p[0] for p in params_of(F, b)]
            path, cb = mk('par', ps[1]), mk('par', ps[2])
            handled = False
            for o in ses.entry(b):
                self = o.st.mem.get(('in', ps[0]))
                key = '%s::%s' % (ty, verb)
                r = next((x for x in subterms(self) if x.op == 'call' and isinstance(x.a[0], str) and op_of(x.a[0]) == 'route'), None) if self is not None else None
                if not ck.ob('%s: registers a route' % key, r is not None, b['sp'], show(self)[:200] if self is not None else 'the server is unchanged'):
                    continue
                prev, p, h = r.a[1][:3]
                old = fld(fld(SELF, None, '0'), 'Some', '0')
                known = o.facts.variant(fld(SELF, None, '0'))
                okp = prev is old if known == 'Some' else prev.op == 'call' and (str(prev.a[0]).startswith('default:') or op_of(str(prev.a[0])) in ('new', 'default')) and known == 'None'
                ck.ob('%s: keeps the routes registered before' % key, okp, b['sp'], 'the route is added to %s%s' % (show(prev)[:120], '' if known else ' (whether there were routes is not checked)'))
                ck.ob('%s: registers the given path' % key, same(o.facts, p, path), b['sp'], show(p)[:100])
                ck.ob('%s: registers the handler for its verb' % key, h.op == 'call' and op_of(str(h.a[0])) == verb, b['sp'], show(h)[:100])
                ck.ob('%s: the route is what is kept' % key, is_adt(self) and is_adt(fld(self, None, '0'), 'Some') and fld(fld(self, None, '0'), 'Some', '0') is r, b['sp'], show(self)[:150])
                clo = next((x for x in subterms(h) if x.op == 'agg' and x.a[0][0] == 'closure'), None)
                if clo is None:
                    raise AnalysisError('%s: no handler closure found' % key)
                if handled:
                    continue
                handled = True
                handler(ck, F, ses, key, verb, clo, cb, o, b)
        serve(ck, F, ty, im)
    ck.floor('registrations', 2)
    client(ck, F)


def handler(ck, F, ses, key, verb, clo, cb, o, b):
    hb = F.bodies.get(clo.a[0][1])
    n = (hb['argc'] - 1) if hb else (2 if verb == 'post' else 1)
    args = [mk('par', 'conn%d' % i if i else 'conn') for i in range(n)]
    if verb == 'post':
        args[-1] = mk('par', 'body')
    body = args[-1]
    st = State(dict(o.st.mem), NOFACTS_OF(o), None)
    good = 0
    for h in ses.apply(clo, args, st):
        ck.count('handler paths')
        cs = callbacks(h)
        code, rb = reply_of(h.ret)
        if code is None:
            raise AnalysisError('%s: the reply is not understood: %s' % (key, show(h.ret)[:200]))
        ck.ob('%s: the handler is called at most once' % key, len(cs) <= 1, b['sp'])
        json = call('json_parse', (body,))
        if verb == 'post':
            bad = None
            for t, x in h.facts.v.items():
                if x == ('is', 'Err') and t.op == 'call' and (t.a[0] == 'json_parse' or t.a[0] == 'AsJson::from_json'):
                    bad = t
            if bad is not None:
                what = 'a body that is not JSON' if bad.a[0] == 'json_parse' else 'a body that does not decode'
                ck.ob('%s: %s does not reach the handler' % (key, what), not cs, b['sp'])
                ck.ob('%s: %s gets status 500' % (key, what), code == 500, b['sp'], 'status %s' % code)
            for c in cs:
                reqs = [x for a in c.args[1:] for x in subterms(a) if x.op == 'call' and x.a[0] == 'AsJson::from_json']
                okr = c.args[-1].op == 'fld' and c.args[-1].a[1] == 'Ok' and c.args[-1].a[0].op == 'call' and c.args[-1].a[0].a[0] == 'AsJson::from_json'
                src = c.args[-1].a[0].a[1][0] if okr else None
                okr = okr and h.facts.variant(c.args[-1].a[0]) == 'Ok' and src.op == 'fld' and src.a[1] == 'Ok' and src.a[0].op == 'call' and src.a[0].a[0] == 'json_parse' \
                    and same(h.facts, src.a[0].a[1][0], body) and h.facts.variant(src.a[0]) == 'Ok'
                ck.ob('%s: the handler gets the request decoded from the received body' % key, okr, b['sp'], show(c.args[-1])[:200])
            if bad is None and not cs:
                ck.ob('%s: a decoded request reaches the handler' % key, False, b['sp'], '; '.join(map(str, h.facts.show()))[:300])
        else:
            ck.ob('%s: the handler is called' % key, len(cs) == 1, b['sp'])
        for c in cs:
            tj = [t for t in h.facts.v if t.op == 'call' and t.a[0] == 'AsJson::to_json' and c.res in subterms(t.a[1][0])]
            if not tj:
                ck.ob('%s: the reply is the JSON form of what the handler answered' % key, False, b['sp'], show(rb)[:200])
            for t in tj:
                if h.facts.variant(t) == 'Ok':
                    good += 1
                    want = call('json_text', (fld(t, 'Ok', '0'),))
                    got = rb
                    while got.op == 'cat' and len(got.a) == 1:
                        got = got.a[0]
                    direct = t.a[1][0] is mk('await', c.res) or same(h.facts, t.a[1][0], mk('await', c.res))
                    ck.ob('%s: the reply is the JSON form of what the handler answered' % key, direct and (got is want or same(h.facts, got, want) or json_body(got, fld(t, 'Ok', '0'))), b['sp'], show(rb)[:200])
                    ck.ob('%s: an encoded reply has a success status' % key, 200 <= code < 300, b['sp'], 'status %s' % code)
                elif h.facts.variant(t) == 'Err':
                    ck.ob('%s: a reply that cannot be encoded gives status 500' % key, code == 500, b['sp'], 'status %s' % code)
    ck.ob('%s: replies can be sent' % key, good > 0, b['sp'])


def json_body(t, j):
    """axum::Json(j), or serde_json::to_string/to_vec(j)."""
    if is_adt(t) and len(t.a[1]) == 1:
        t = t.a[1][0]
    if t is j:
        return True
    if t.op == 'fld' and t.a[1] == 'Ok':
        t = t.a[0]
    return t.op == 'call' and (t.a[0] in ('json_text', 'json_bytes') or op_of(str(t.a[0])) in ('to_string', 'to_vec', 'to_string_pretty', 'to_vec_pretty')) and len(t.a[1]) > 0 and t.a[1][0] is j


def NOFACTS_OF(o):
    from ..cond import NOFACTS
    return NOFACTS


def serve(ck, F, ty, im):
    b = impl_method(F, im, 'serve')
    ses = ck.session(transparent=('HttpServer',))
    n = 0
    for o in ses.entry(b):
        ck.count('serving paths')
        self0 = fld(SELF, None, '0')
        for f, v, pl in result_of(o):
            fails(ck, '%s::serve' % ty, o, f, v)
            if v == 'Ok':
                n += 1
                srv = [x for t in f.v if f.variant(t) == 'Ok' for x in subterms(t) if x.op == 'call' and isinstance(x.a[0], str) and op_of(x.a[0]) == 'serve']
                ck.ob('%s::serve: succeeds only after serving' % ty, bool(srv), b['sp'])
                for s in srv:
                    if f.variant(self0) == 'Some':
                        ck.ob('%s::serve: serves the registered routes' % ty, fld(self0, 'Some', '0') in set(subterms(s)), b['sp'], show(s)[:300])
                    addr = [x for x in subterms(s) if x.op == 'par' and x.a[0] == params_of(F, b)[1][0]]
                    ck.ob('%s::serve: listens on the given address' % ty, bool(addr), b['sp'], show(s)[:300])
            elif v not in ('Ok', 'Err'):
                raise AnalysisError('%s::serve: the result is not understood' % ty)
    ck.ob('%s::serve can serve' % ty, n > 0, b['sp'])


def client(ck, F):
    for aid, im in impls_of(F, 'HttpClient'):
        if not aid:
            continue
        ty = aid.split('::')[-1]
        for verb in ('get', 'post'):
            b = impl_method(F, im, verb)
            ps = [p[0] for p in params_of(F, b)]
            url = mk('par', ps[1])
            key = '%s::%s' % (ty, verb)
            n = 0
            for o in ck.session().entry(b):
                ck.count('client paths')
                for f, v, pl in result_of(o):
                    fails(ck, key, o, f, v)
                    if v != 'Ok':
                        continue
                    n += 1
                    sends = [e for e in o.events if e.kind == 'call' and isinstance(e.name, str) and op_of(e.name) in ('send', 'execute') and f.variant(e.res) == 'Ok']
                    if not ck.ob('%s: answers only after a request was sent' % key, bool(sends), b['sp']):
                        continue
                    e = sends[-1]
                    resp = fld(e.res, 'Ok', '0')
                    ch, _ = chain_of(e.args[0])
                    names = [x[0] for x in ch]
                    req = [x for x in subterms(e.args[0]) if x.op == 'call' and isinstance(x.a[0], str) and op_of(x.a[0]) in ('get', 'post', 'put', 'delete', 'patch', 'head', 'request')]
                    ck.ob('%s: sends its own verb to the given URL' % key, bool(req) and (op_of(req[-1].a[0]) == verb or op_of(req[-1].a[0]) == 'request' and verb.upper() in show(req[-1])) and any(same(f, x, url) for x in req[-1].a[1]), b['sp'], show(e.args[0])[:200])
                    if verb == 'post':
                        body = mk('par', ps[2])
                        js = [x for x in subterms(e.args[0]) if x.op == 'call' and isinstance(x.a[0], str) and op_of(x.a[0]) in ('json', 'body')]
                        ck.ob('%s: sends the given body as JSON' % key, any(same(f, x.a[1][-1], body) and op_of(x.a[0]) == 'json' or json_body(x.a[1][-1], body) for x in js), b['sp'], show(e.args[0])[:200])
                    bt = fld(pl[0], None, 'body')
                    if is_adt(bt, 'None'):
                        continue
                    inner = bt.a[1][0] if is_adt(bt, 'Some') else None
                    if inner is None:
                        # an Option computed from the reply: what it holds if it holds something
                        inner = fld(bt, 'Some', '0')
                    okb = from_reply(f, inner, resp)
                    if not okb and inner.op == 'fld' and inner.a[1] == 'Some' and inner.a[0].op == 'call':
                        okb = resp in set(subterms(inner))
                    ck.ob('%s: yields only the body received' % key, okb, b['sp'], show(inner)[:200])
                    st = fld(pl[0], None, 'status')
                    ck.ob('%s: yields the status received' % key, resp in set(subterms(st)) and 'status' in show(st), b['sp'], show(st)[:200])
            ck.ob('%s can succeed' % key, n > 0, b['sp'])
    for name in ('get_request', 'post_request'):
        b = default_method(F, 'HttpClient', name)
        verb = name.split('_')[0]
        ps = [p[0] for p in params_of(F, b)]
        n = 0
        for o in ck.session().entry(b):
            ck.count('client paths')
            for f, v, pl in result_of(o):
                fails(ck, 'HttpClient::%s' % name, o, f, v)
                sent = [e for e in o.events if e.kind == 'call' and e.name in ('HttpClient::get', 'HttpClient::post')]
                for e in sent:
                    ck.ob('HttpClient::%s: sends its own verb to the given URL' % name, e.name == 'HttpClient::' + verb and same(f, e.args[1], mk('par', ps[1])), b['sp'], repr(e)[:200])
                    if verb == 'post':
                        req = mk('par', ps[2])
                        t = e.args[2]
                        ck.ob('HttpClient::%s: sends the given request, encoded' % name, t.op == 'fld' and t.a[1] == 'Ok' and t.a[0].op == 'call' and t.a[0].a[0] == 'AsJson::to_json' and same(f, t.a[0].a[1][0], req), b['sp'], show(t)[:200])
                ck.ob('HttpClient::%s: sends at most one request' % name, len(sent) <= 1, b['sp'])
                if v == 'Ok':
                    n += 1
                    t = pl[0]
                    okt = bool(sent) and t.op == 'fld' and t.a[1] == 'Ok' and t.a[0].op == 'call' and t.a[0].a[0] == 'AsJson::from_json' and f.variant(t.a[0]) == 'Ok' \
                        and t.a[0].a[1][0] is fld(fld(fld(sent[-1].res, 'Ok', '0'), None, 'body'), 'Some', '0')
                    ck.ob('HttpClient::%s: yields only what was decoded from the received body' % name, okt, b['sp'], show(t)[:200])
        ck.ob('HttpClient::%s can succeed' % name, n > 0, b['sp'])


# ------------------------------------------------------------------ C27
LOCAL = {'Router', 'MessagesInbox', 'PortForwarder'}      # drivers: they also read this machine's own files
CAN_PANIC = re.compile(r'''(^|::)(split_off|split_at_mut|copy_within|rotate_left|rotate_right|swap_with_slice|select_nth_unstable|step_by|
    |from_secs_f64|from_secs_f32|from_timestamp|range_mut|drain_range|unwrap_or_panic|pow|ilog|ilog2|ilog10|isqrt|strict_\w+|div_euclid|rem_euclid|next_power_of_two|
    |swap|replace_range|insert_str|to_digit|from_digit|clamp|exact_div|from_bytes_unchecked|get_unchecked|get_unchecked_mut|from_raw_parts)$'''.replace('\n', '').replace(' ', ''))


def own(name):
    return 'hyperborealib' in name


def entries(F):
    """Public functions and trait methods: whatever data reaches the library passes through one of them."""
    out = []
    for b in F.bodies.values():
        if own(b['name']) and b['kind'] in ('Fn', 'AssocFn') and not (b['derived'] and F.impls[b['impl']]['trait'].split('::')[-1] in ('PartialEq', 'PartialOrd', 'Ord')) and (b['exported'] or b['impl'] and F.impls[b['impl']]['trait']):
            out.append(b)
    return sorted(out, key=lambda b: b['name'])


def short_name(n):
    n = re.sub(r'hyperborealib::(?:[a-z_0-9]+::)*', '', n)
    return n


def discharge(p):
    """Panics which cannot happen for reasons outside the value domain."""
    k = ' '.join(show(d) for d in p.detail)
    if p.kind == 'unwrap' and p.detail:
        t = p.detail[0]
        if t.op == 'call' and isinstance(t.a[0], str) and op_of(t.a[0]) == 'body' and constant_reply(t):
            return 'an HTTP reply built from constants'
        if t.op == 'call' and isinstance(t.a[0], str) and 'into_vec' not in t.a[0] and ('RwLock::' in t.a[0] or 'Mutex::' in t.a[0]):
            return 'a lock, poisoned only by another panic'
        if 'SystemTime' in k and 'duration_since' in k:
            return 'the clock is after 1970'
    return None


def constant_reply(t):
    ch, start = chain_of(t)
    for n, a in ch:
        if n == 'body':
            continue
        for x in a:
            for y in subterms(x):
                if y.op in ('par', 'hav', 'fld'):
                    return False
    return True


@prop('C27', 'every public function and trait method of the crate, every HTTP handler closure of the server and every registered endpoint is interpreted abstractly on arbitrary arguments; each operation that can panic (asserts and overflow checks in the MIR, calls of diverging functions, unwrap/expect, indexing, slicing, UTF-8 boundary, length-checked copies and conversions) must be infeasible under the facts of every path reaching it; calls of other library functions that can panic on bad arguments are refused')
def c27(ck):
    F = ck.F
    from . import server as SV
    n = 0
    from .server import handlers
    bs = entries(F)
    for b in bs:
        im = F.impls[b['impl']] if b['impl'] else None
        tr = im['trait'].split('::')[-1] if im and im['trait'] else None
        ses = ck.session()
        outs = ses.entry(b)
        ck.count('functions')
        if b['derived']:
            ck.count('derived functions')
        judge(ck, ses, short_name(b['name']), b, tr in LOCAL)
    for aid, im in impls_of(F, 'HttpServer'):
        for verb in ('get', 'post'):
            ses = ck.session(transparent=('HttpServer',))
            for o in ses.entry(impl_method(F, im, verb))[:1]:
                for clo in {x for v in o.st.mem.values() for x in subterms(v) if x.op == 'agg' and x.a[0][0] == 'closure'}:
                    hb = F.bodies[clo.a[0][1]]
                    ses.apply(clo, [mk('par', 'arg%d' % i) for i in range(hb['argc'] - 1)], State(dict(o.st.mem), NOFACTS_OF(o), None))
                    ck.count('functions')
                    judge(ck, ses, '%s::%s handler' % (aid.split('::')[-1], verb), hb, False)
    ses, hs = handlers(ck)
    for h in hs:
        ck.count('functions')
    judge(ck, ses, 'endpoints', {'sp': ''}, False)
    ck.floor('functions', 100)


def judge(ck, ses, name, b, local):
    seen = set()
    for p in ses.I.panics:
        o = short_name(p.chain[0]) if p.chain else name
        if p.kind == 'unchecked':
            continue                     # C30
        if local and not any(x.op == 'par' and len(x.a) == 1 for d in p.detail for x in subterms(d)):
            continue                     # about the content of the machine's own files
        if local and any('fs::' in show(d) for d in p.detail):
            continue
        why = discharge(p)
        if why:
            ck.ob('%s: %s in %s cannot panic: %s' % (name, p.kind, o, why), True)
            continue
        key = '%s can panic (%s in %s)' % (name, p.kind, o)
        if key in seen:
            continue
        seen.add(key)
        ck.ob(key, False, p.where, ', '.join(show(d)[:120] for d in p.detail) + ' when ' + '; '.join(str(x)[:80] for x in p.facts.show()[-4:]))
    for u in ses.I.unknown:
        m = CAN_PANIC.search(u)
        if m and not local:
            ck.ob('%s calls %s, which can panic' % (name, u), False, b['sp'])
    ck.ob('%s cannot panic on received data' % name, not seen, b['sp'])

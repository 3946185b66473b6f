"""Unsafe code, addresses, feature combinations: C30, C39, C40."""
from .base import *
from .misc import entries, short_name, impls_of, impl_method

DESUGARED = re.compile(r'pin::Pin::new_unchecked$|future::get_context$|fmt::Arguments::|intrinsics::|pin::Pin::get_unchecked_mut$|hint::(assert_)?unreachable_unchecked$')
COMPILER_TRAITS = {'TrivialClone'}          # unstable: only derive writes these impls


def unsafe_ops(F, b):
    """[(what, where)] of the operations of a body that need unsafe."""
    out = []
    for blk in b['blocks']:
        if blk.get('cl'):
            continue
        t = blk['t']
        if t[0] == 'call':
            op = t[1]
            if op[0] == 'k' and op[1]['k'] == 'fn' and op[1]['f'].get('unsafe'):
                f = op[1]['f']
                out.append((norm(f['rpath'] or f['path']), t[5]))
        elif t[0] in ('asm', 'inlineasm'):
            out.append(('inline assembly', b['sp']))
        places = []
        for s in blk['s']:
            if s[0] == '=':
                places.append(s[1])
                for x in walk(s[2]):
                    places.append(x)
        for p in places:
            ty = F.types[b['locals'][p[0]][0]] if isinstance(p[0], int) and p[0] < len(b['locals']) else None
            if ty and ty['k'] == 'ptr' and p[1] and p[1][0][0] == '*':
                out.append(('a raw pointer dereference', b['sp']))
    return out


def walk(r):
    """Places inside an rvalue."""
    if isinstance(r, (list, tuple)):
        if len(r) == 2 and isinstance(r[0], int) and isinstance(r[1], list) and all(isinstance(e, list) and e and isinstance(e[0], str) for e in r[1]):
            yield r
            return
        for x in r:
            yield from walk(x)


@prop('C30', 'census of the unsafe blocks, functions, impls, extern blocks and mutable statics of the crate (from the HIR, compiler-written ones aside); the only operation in them is skipping the check of a Result or Option, and in the abstract interpretation of every public function each such skip is reached only where the value is proved to be the good variant (for the key expansion: the constant output length is within what HKDF-SHA256 can produce)')
def c30(ck):
    F = ck.facts('full')
    owners = set()
    for u in F.raw['unsafe']:
        ck.count('unsafe items')
        if u['kind'] == 'impl':
            im = F.impls.get(u['owner'])
            tr = im['trait'].split('::')[-1] if im and im['trait'] else '?'
            ck.ob('no unsafe impl of %s in %s' % (tr, u['sp'].split(':')[0]), tr in COMPILER_TRAITS, u['sp'])
        elif u['kind'] == 'block':
            owners.add(u['owner'])
        else:
            ck.ob('no %s in %s' % (u['kind'], u['owner'].split('::')[-1]), False, u['sp'])
    for b in F.bodies.values():
        if b.get('unsafe') and not b['derived'] and b['kind'] in ('Fn', 'AssocFn') and b['name'].startswith(('hyperborealib', '<hyperborealib')):
            owners.add(b['id'])
    for o in sorted(owners):
        bs = [b for b in F.bodies.values() if b['id'] == o or b['id'].startswith(o + '::{')]
        if not bs:
            raise AnalysisError('the body with unsafe code %s was not extracted' % o)
        for b in bs:
            ck.count('bodies with unsafe code')
            for what, where in unsafe_ops(F, b):
                if DESUGARED.search(what) and b.get('coroutine'):
                    continue
                ck.count('unsafe operations')
                ck.ob('%s: %s is not among the allowed unsafe operations' % (short_name(b['name']), what), what.split('::')[-1] == 'unwrap_unchecked' and what.split('::')[-2] in ('Result', 'Option'), where)
    bad = set()
    for b in entries(F):
        ses = ck.session(config='full')
        ses.entry(b)
        ck.count('functions')
        for p in ses.I.panics:
            if p.kind == 'unchecked':
                o = short_name(p.chain[0]) if p.chain else short_name(b['name'])
                if o not in bad:
                    bad.add(o)
                    ck.ob('%s: the check is skipped only where it would succeed' % o, False, p.where, ', '.join(show(d)[:200] for d in p.detail))
    ck.ob('every skipped check would succeed', not bad)
    ck.floor('functions', 100)


# ------------------------------------------------------------------ C39
SCHEMES = []
for _p in ('hyperborea', 'hyp'):
    SCHEMES += [(_p + '://', None), (_p + '://thin:', 'Thin'), (_p + '://thick:', 'Thick'), (_p + '://server:', 'Server'), (_p + '://file:', 'File'),
                (_p + '-client://', 'Thin'), (_p + '-server://', 'Server'), (_p + '-file://', 'File')]
PREFIXES = ('thin:', 'thick:', 'server:', 'file:')


def key_of(ck, text):
    """Outcomes of decoding a public key from a text."""
    b = inherent(ck.F, 'PublicKey', 'from_base64')
    ses = ck.session()
    return ses.entry(b, [text])


@prop('C39', 'Address::from_str is interpreted abstractly on each documented scheme and prefix followed by an arbitrary text: it yields the documented variant and client type with the key that PublicKey::from_base64 yields for exactly that text, and fails exactly where it fails; on an arbitrary URI it yields the URI itself where no documented scheme is known; Address::resolve of each variant, and resolve composed with from_str, gives the URI back (http, https, other) or "http://" and the server address that a lookup of exactly the key and type returned, and where the lookup failed, its error')
def c39(ck):
    F = ck.F
    a = adt_named(F, 'Address')
    b = trait_method(F, 'FromStr', 'Address', 'from_str')
    rest = mk('par', 'rest', 'str')
    short = set()
    for head, ty in SCHEMES:
        uri = cat([S(head), rest])
        ck.count('documented forms')
        keys = [(o, f, v, pl) for o in key_of(ck, rest) for f, v, pl in result_of(o)]
        good = 0
        for o in ck.session().entry(b, [uri]):
            ck.count('paths')
            for f, v, pl in result_of(o):
                if ty is None and any(knows_prefix(f, rest, p) for p in PREFIXES):
                    continue               # the text starts with one of the type prefixes: another form
                if v == 'Err':
                    # some decoding path fails for the same reason
                    ok_ = any(kv == 'Err' and implies(f, kf) for ko, kf, kv, kp in keys)
                    ck.ob('%s<key> is refused only if the key does not decode' % head, ok_, b['sp'], '; '.join(map(str, f.show()))[:300])
                    continue
                t = pl[0]
                if not ck.ob('%s<key> is a hyperborea address' % head, is_adt(t, 'Hyperborea', a['id']), b['sp'], show(t)[:200]):
                    continue
                good += 1
                ct = fld(t, 'Hyperborea', 'client_type')
                want = ct.a[0][2] == 'None' if ty is None and is_adt(ct) else is_adt(ct, 'Some') and is_adt(ct.a[1][0], ty)
                ck.ob('%s<key> means client type %s' % (head, ty or 'unspecified'), want, b['sp'], show(ct)[:200])
                pk = fld(t, 'Hyperborea', 'public_key')
                okk = any(kv == 'Ok' and same(f, kp[0], pk) and implies(f, kf) for ko, kf, kv, kp in keys)
                ck.ob('%s<key> carries the key decoded from the rest of the URI' % head, okk, b['sp'], show(pk)[:200])
        ck.ob('%s<key> can be parsed' % head, good > 0, b['sp'])
    for proto, var in (('http', 'Http'), ('https', 'Https')):
        ck.count('documented forms')
        good = 0
        for o in ck.session().entry(b, [cat([S(proto + '://'), rest])]):
            ck.count('paths')
            for f, v, pl in result_of(o):
                good += 1
                okv = v == 'Ok' and is_adt(pl[0], var, a['id']) and same(f, fld(pl[0], var, 'address'), rest)
                ck.ob('%s://<address> is that address' % proto, okv, b['sp'], show(pl[0])[:200])
        ck.ob('%s://<address> can be parsed' % proto, good > 0, b['sp'])
    raw(ck, F, a, b)
    resolving(ck, F, a, b, rest)


def knows_prefix(f, t, p):
    """The path knows that t starts with p."""
    for x, v in f.b.items():
        if v is True and x.op == 'call' and str(x.a[0]).endswith('starts_with') and same(f, x.a[1][0], t) and x.a[1][1] is S(p):
            return True
    for x, v in f.v.items():
        if v == ('is', 'Some') and x.op == 'call' and str(x.a[0]).endswith('strip_prefix') and same(f, x.a[1][0], t) and x.a[1][1] is S(p):
            return True
        if v == ('is', 'Some') and x.op == 'call' and x.a[0] == 'split_once' and same(f, x.a[1][0], t) and x.a[1][1] is S(p[-1]):
            if f.eval(eq(S(p[:-1]), fld(fld(x, 'Some', '0'), None, '0'))) is True:
                return True
    return False


def implies(f, g):
    """Everything g knows, f knows."""
    for t, x in g.v.items():
        if x[0] == 'is':
            if f.variant(t) != x[1] and f.variant(canon(f, t)) != x[1]:
                return False
        elif f.v.get(t) is None or (f.v[t][0] == 'not' and not x[1] <= f.v[t][1]) or (f.v[t][0] == 'is' and f.v[t][1] in x[1]):
            return False
    for t, x in g.b.items():
        if f.b.get(t) is not x and f.eval(t) is not x:
            return False
    return True


DOCUMENTED = [p + s for p in ('hyperborea', 'hyp') for s in ('', '-client', '-server', '-file')] + ['http', 'https']


def knows_scheme(f):
    """A constant of a documented scheme the path has matched."""
    def hit(c):
        return c.split('://')[0] in DOCUMENTED or c.rstrip(':/') in DOCUMENTED or c in PREFIXES
    def altered(t):
        """What was compared is not the text itself but the text without regard to case or surrounding blanks."""
        return any(x.op == 'call' and any(w in opname(x) for w in ('case', 'trim')) for x in subterms(t))
    for t, x in f.b.items():
        if altered(t):
            continue
        if x is True:
            for y in ([t] if t.op != 'eq' else list(t.a)) + (list(t.a[1]) if t.op == 'call' else []):
                if isinstance(y, Term) and y.op in ('str', 'bytes') and hit(y.a[0] if y.op == 'str' else y.a[0].decode('utf8', 'replace')):
                    return True
    for t, x in f.v.items():
        if x in (('is', 'Some'), ('is', 'Ok')) and t.op == 'call' and not altered(t):
            for y in subterms(t):
                if y.op == 'str' and hit(y.a[0]):
                    return True
    return any(hit(s) for t, s in f.s.items() if isinstance(s, str) and not altered(t))


def raw(ck, F, a, b):
    uri = mk('par', params_name(b), 'str')
    n = 0
    for o in ck.session().entry(b, [uri]):
        ck.count('paths')
        for f, v, pl in result_of(o):
            t = pl[0]
            if v == 'Ok' and is_adt(t, 'Raw', a['id']):
                n += 1
                ck.ob('an unsupported URI is kept verbatim', same(f, t.a[1][0], uri), b['sp'], show(t)[:200])
            elif not is_adt(t) and v == 'Ok':
                raise AnalysisError('the parsed address is not understood: %s' % show(t)[:200])
            else:
                ck.ob('only documented schemes are interpreted', knows_scheme(f), b['sp'], '%s when %s' % (show(t)[:100], '; '.join(map(str, f.show()))[-300:]))
    ck.ob('unsupported URIs are accepted', n > 0, b['sp'])


def params_name(b, i=0):
    return b['locals'][i + 1][1] or 'arg%d' % i


def resolving(ck, F, a, fs, rest):
    lookup = inherent(F, 'ConnectedClient', 'lookup')
    fam = {b['id'] for b in F.bodies.values() if b['id'] == lookup['id']}
    meth = inherent(F, 'Address', 'resolve')
    free = free_fn(F, 'address', 'resolve')
    parse = free_fn(F, 'address', 'parse')

    def run(b, arg):
        args = [arg] + [None] * (b['argc'] - 1)
        return ck.session(opaque=fam).entry(b, args)

    me = mk('par', 'self')
    seen = set()
    for o in run(meth, None):
        ck.count('resolving paths')
        var = o.facts.variant(me)
        look = lookups(o)
        for f, v, pl in result_of(o):
            if var is None:
                raise AnalysisError('Address::resolve: a path does not distinguish the kinds of address')
            seen.add((var, v))
            if var in ('Http', 'Https'):
                ck.ob('resolving an %s address gives its URI' % var, v == 'Ok' and same(f, pl[0], cat([S(var.lower() + '://'), fld(me, var, 'address')])), meth['sp'], show(pl[0])[:200])
            elif var == 'Raw':
                ck.ob('resolving an unsupported address gives it verbatim', v == 'Ok' and same(f, pl[0], fld(me, 'Raw', '0')), meth['sp'], show(pl[0])[:200])
            else:
                hyper(ck, o, f, v, pl, look, fld(me, 'Hyperborea', 'public_key'), fld(me, 'Hyperborea', 'client_type'), meth['sp'], 'Address::resolve')
    for x in (('Http', 'Ok'), ('Https', 'Ok'), ('Raw', 'Ok'), ('Hyperborea', 'Ok'), ('Hyperborea', 'Err')):
        ck.ob('resolving distinguishes %s addresses (%s)' % x, x in seen, meth['sp'])
    for proto in ('http', 'https'):
        uri = cat([S(proto + '://'), rest])
        n = 0
        for o in run(free, uri):
            for f, v, pl in result_of(o):
                n += 1
                ck.ob('resolve: an %s URI resolves to itself' % proto, v == 'Ok' and same(f, pl[0], uri), free['sp'], show(pl[0])[:200])
        ck.ob('resolve: %s URIs can be resolved' % proto, n > 0, free['sp'])
    p1 = {(o.ret, frozenset(o.facts.show())) for o in ck.session().entry(parse, [rest])}
    p2 = {(o.ret, frozenset(o.facts.show())) for o in ck.session().entry(fs, [rest])}
    ck.ob('parse answers what Address::from_str answers', p1 == p2, parse['sp'])
    good = 0
    for o in run(free, mk('par', 'uri')):
        look = lookups(o)
        for f, v, pl in result_of(o):
            if look:
                good += 1
                ck.ob('resolve: at most one lookup', len(look) == 1, free['sp'])
                if v == 'Ok':
                    ck.ob('resolve: a hyperborea URI gives the server found', server_address(f, pl[0], look[0]), free['sp'], show(pl[0])[:200])
            elif v == 'Ok':
                ck.ob('resolve: a URI resolves to itself', same(f, pl[0], mk('par', 'uri')) or knows_scheme(f), free['sp'], show(pl[0])[:200])
    ck.ob('resolve can look clients up', good > 0, free['sp'])


def opname(t):
    n = t.a[0]
    return str(n[0]) if isinstance(n, tuple) and n else str(n)


def lookups(o):
    """[(arguments, result)] of the lookups made on a path."""
    out = []
    for e in o.events:
        if e.kind != 'call' or not isinstance(e.name, str):
            continue
        if e.name == 'await' and e.args[0].op in ('call', 'fut') and opname(e.args[0]).endswith('::lookup'):
            out.append((e.args[0].a[1], e.res))
        elif e.name.endswith('::lookup'):
            out.append((e.args, e.res))
    return out


def server_address(f, t, e):
    """t is "http://" and the address of the server the lookup e found."""
    hit = fld(fld(e[1], 'Ok', '0'), 'Some', '0')
    return same(f, t, cat([S('http://'), fld(fld(hit, None, '1'), None, 'address')]))


def hyper(ck, o, f, v, pl, look, key, ty, sp, who):
    if not ck.ob('%s: a hyperborea address is looked up once' % who, len(look) == 1, sp):
        return
    e = look[0]
    ck.ob('%s: exactly its key and type are looked up' % who, len(e[0]) >= 3 and same(f, e[0][1], key) and same(f, e[0][2], ty), sp, show(call('lookup', e[0][1:]))[:200])
    r = e[1]
    if v == 'Ok':
        ck.ob('%s: gives the address of the server found' % who, f.variant(r) == 'Ok' and f.variant(fld(r, 'Ok', '0')) == 'Some' and server_address(f, pl[0], e), sp, show(pl[0])[:200])
    else:
        ck.ob('%s: fails only if nothing was found or the lookup failed' % who, f.variant(r) == 'Err' or f.variant(fld(r, 'Ok', '0')) == 'None', sp, '; '.join(map(str, f.show()))[:300])
        if f.variant(r) == 'Err':
            ck.ob('%s: a failed lookup is reported as it failed' % who, mentions(pl[0], fld(r, 'Err', '0')), sp, show(pl[0])[:300])


# ------------------------------------------------------------------ C40
@prop('C40', 'the type checker of the build compiler accepts the crate, and a crate of compile-time witnesses (one per feature: its public items exist at their documented paths and implement the trait they stand for) on top of it, under combinations of the eight features covering every on/off combination of any three of them (quick) or all 256 (thorough)')
def c40(ck):
    from .. import features
    subsets = features.every() if ck.tier == 'thorough' else features.quick()
    res = features.run(subsets)
    worst = {}
    for s, r in res.items():
        ck.count('feature combinations')
        ck.count('crates type-checked', 2)
        if r is None:
            ck.ob('the crate builds with %s' % (', '.join(s) or 'no features'), True)
            continue
        worst.setdefault((r[0], r[1], r[2]), []).append(s)
    for (crate, msg, where), l in sorted(worst.items()):
        s = min(l, key=len)
        what = 'the crate does not build' if crate == 'hyperborealib' else 'a public item is missing'
        ck.ob('%s with features %s' % (what, ', '.join(s) or '(none)'), False, where, '%s (and with %d other combinations)' % (msg, len(l) - 1))
    ck.floor('feature combinations', 18)


# ------------------------------------------------------------------ C55
@prop('C55', 'type-level witnesses, one per claim, decided by the type checker: each key, record, request, reply, error, driver and middleware type is Send + Sync + \'static, and the future of each client operation, address resolution, routing-table, inbox and port operation is Send, for every HTTP client implementation (generic), with and without tracing')
def c55(ck):
    from .. import features
    full = tuple(features.FEATURES)
    subsets = [full, tuple(x for x in full if x != 'tracing')]
    for c, r in sorted(features.threads(subsets).items()):
        ck.count('witnesses')
        for s, bad in r.items():
            ck.count('obligations type-checked')
            what = 'the future of %s can be moved between threads' % c[3:] if c.startswith('op_') else 'the %s can be shared between threads' % c.replace('_', ' ')
            ck.ob(what, bad is None, bad[1] if bad else '', bad[0] if bad else '')
    ck.floor('witnesses', 30)

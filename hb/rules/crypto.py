"""Names, message encodings, binary layouts, randomness, key serialisation and hashing: C19, C20, C26, C28, C41, C42."""
from .base import *
from .rest import SELF, params_of, type_name, variants, token_bytes, valid_ways, opt_of, enum_ways, header
from .message import combos

NAMED = ('Encoding', 'Encryption', 'Compression', 'ClientType')
NOTHING = {'Encryption': ('none', 'plain'), 'Compression': ('none', 'plain')}


def crate_enum(F, name):
    r = [a for a in F.adts.values() if a['id'].startswith('hyperborealib::') and a['id'].split('::')[-1] == name and '{' not in a['id'] and '::_::' not in a['id'] and a['variants'] and a['kind'] == 'enum'] \
        if 'kind' in next(iter(F.adts.values())) else []
    if not r:
        r = [a for a in F.adts.values() if a['id'].startswith('hyperborealib::') and a['id'].split('::')[-1] == name and '{' not in a['id'] and '::_::' not in a['id']]
    if len(r) != 1:
        raise AnalysisError('expected exactly one enumeration %s, found %d' % (name, len(r)))
    return r[0]


def from_str(F, aid):
    r = [impl_method(F, im, 'from_str') for a, im in impls_of(F, 'FromStr') if a == aid]
    r = [b for b in r if b]
    if len(r) != 1:
        raise AnalysisError('expected exactly one from_str for %s' % aid)
    return r[0]


def printed(ck, aid, v):
    """The text a value is displayed as (the same on every path)."""
    outs = ck.session(display=True).display(v, ('adt', aid, ()))
    return {o.ret for o in outs}


def known_text(f, t):
    """The constant a text term is known to equal."""
    if t.op == 'str':
        return t.a[0]
    s = f.s.get(t)
    if s is not None:
        return s
    c = canon(f, t)
    return c.a[0] if c.op == 'str' else None


def names_of(ck, name):
    """{variant: printed name}; obligations that they are constant and distinct."""
    F = ck.F
    a = crate_enum(F, name)
    out = {}
    for v in [x['name'] for x in a['variants']]:
        ck.count('names')
        ts = printed(ck, a['id'], adt(a['id'], v))
        t = next(iter(ts)) if len(ts) == 1 else None
        okk = t is not None and t.op == 'str'
        ck.ob('%s::%s prints one constant name' % (name, v), okk, '', '; '.join(show(x) for x in ts))
        if okk:
            out[v] = t.a[0]
    ck.ob('%s: distinct values print distinct names' % name, len(set(out.values())) == len(out), '', str(out))
    return a, out


@prop('C19', 'for each of the four enumerations: the printed name of every variant is one constant, distinct from the others; from_str on that constant (and on the documented names of "no processing") gives the variant on every path; every path of from_str on an unknown text that gives a variant must know the text to equal a name of that variant; encryption and compression names other than those of None are disjoint')
def c19(ck):
    F = ck.F
    tables = {}
    for name in NAMED:
        a, out = names_of(ck, name)
        tables[name] = out
        fs = from_str(F, a['id'])
        accepted = {v: {n} for v, n in out.items()}
        for n in NOTHING.get(name, ()):
            accepted.setdefault('None', set()).add(n)
        for v, ns in accepted.items():
            for n in sorted(ns):
                for o in ck.session(display=True).entry(fs, [S(n)]):
                    for f, rv, pl in result_of(o):
                        ck.ob("%s: '%s' is read as %s" % (name, n, v), rv == 'Ok' and is_adt(pl[0], v), fs['sp'], show(o.ret)[:200])
        text = mk('par', params_of(F, fs)[0][0])
        for o in ck.session(display=True).entry(fs):
            for f, rv, pl in result_of(o):
                ck.count('reading paths')
                if rv != 'Ok':
                    continue
                for f2, v in enum_ways(F, f, pl[0], a['id']):
                    n = known_text(f2, text)
                    ck.ob('%s: only the names of a value are read as it' % name, n is not None and n in accepted.get(v, ()), fs['sp'],
                          'a text %s is read as %s' % ('equal to ' + repr(n) if n is not None else 'not known to be a name', v))
    e = {n for v, n in tables['Encryption'].items() if v != 'None'}
    c = {n for v, n in tables['Compression'].items() if v != 'None'}
    allc = c | set(NOTHING['Compression'])
    alle = e | set(NOTHING['Encryption'])
    ck.ob('encryptions and compressions share no name', not (e & allc) and not (c & alle), '', str((e & allc) | (c & alle)))
    ck.ob('no name contains the separator of message encodings', not any('/' in n for t in ('Encoding', 'Encryption', 'Compression') for n in tables[t].values()), '', str(tables))
    ck.sample(tables)


def reading(parts, words):
    """What the documented format makes of a list of parts (None: rejected)."""
    en, ec, co = words
    if len(parts) not in (1, 2, 3) or parts[0] not in en:
        return None
    if len(parts) == 1:
        return en[parts[0]], 'None', 'None'
    if len(parts) == 2:
        if parts[1] in ec:
            return en[parts[0]], ec[parts[1]], 'None'
        return (en[parts[0]], 'None', co[parts[1]]) if parts[1] in co else None
    return (en[parts[0]], ec[parts[1]], co[parts[2]]) if parts[1] in ec and parts[2] in co else None


def known_parts(f, text):
    """The '/'-separated parts of the text, when the path knows how many there are and what each is."""
    n = known_text(f, text)
    if n is not None:
        return n.split('/')
    for t in list(f.r) + list(f.b) + list(f.s):
        for x in subterms(t):
            if x.op == 'call' and x.a[0] == 'split' and x.a[1][0] is text and len(x.a[1]) > 1 and x.a[1][1].op in ('str', 'char') and x.a[1][1].a[0] == '/':
                lo, hi = f.interval(length(x))[:2]
                if lo == hi and lo <= 8:
                    ps = [known_text(f, index_of(x, i)) for i in range(int(lo))]
                    return ps if all(p is not None for p in ps) else None
    return None


def index_of(l, i):
    return mk('idx', l, I(i, 'usize'))


@prop('C20', 'for every combination of encoding, encryption and compression, from_str on the printed text (a constant computed from Display) gives exactly that combination; every one-, two- and three-part text over the names reads as documented; every path of from_str on an unknown text that gives an encoding must know the number of parts and each part, and give what the documented format makes of them')
def c20(ck):
    F = ck.F
    m = adt_named(F, 'MessageEncoding')
    fields = FIELDS[m['id']][0]['MessageEncoding']
    fs = from_str(F, m['id'])
    text = mk('par', params_of(F, fs)[0][0])
    words = []
    ids = []
    for name in NAMED[:3]:
        a, out = names_of(ck, name)
        w = {n: v for v, n in out.items()}
        for n in NOTHING.get(name, ()):
            w[n] = 'None'
        words.append(w)
        ids.append(a['id'])
    names = ['encoding', 'encryption', 'compression']

    def parts_of(t):
        r = []
        for n in names:
            x = fld(t, None, n)
            if not is_adt(x):
                return None
            r.append(x.a[0][2])
        return tuple(r)

    ses = lambda: ck.session(display=True)
    for label, enc, combo in combos(F):
        ck.count('combinations')
        ts = printed(ck, m['id'], enc)
        t = next(iter(ts)) if len(ts) == 1 else None
        if not ck.ob('%s prints as one constant text' % label, t is not None and t.op == 'str', '', '; '.join(show(x) for x in ts)):
            continue
        for o in ses().entry(fs, [t]):
            for f, rv, pl in result_of(o):
                ck.ob('%s: the printed text reads back as it' % label, rv == 'Ok' and parts_of(pl[0]) == combo, fs['sp'], '%s -> %s' % (t.a[0], show(o.ret)[:200]))
    vocab = [sorted(words[0]), sorted(set(words[1]) | set(words[2]))]
    texts = [[a] for a in vocab[0]] + [[a, b] for a in vocab[0] for b in vocab[1]] + [[a, b, c] for a in vocab[0] for b in vocab[1] for c in vocab[1]]
    for ps in texts:
        ck.count('forms')
        want = reading(ps, words)
        t = '/'.join(ps)
        for o in ses().entry(fs, [S(t)]):
            for f, rv, pl in result_of(o):
                got = parts_of(pl[0]) if rv == 'Ok' else None
                ck.ob("'%s' reads as %s" % (t, '/'.join(want) if want else 'an error'), got == want, fs['sp'], show(o.ret)[:200])
    for o in ses().entry(fs):
        for f, rv, pl in result_of(o):
            ck.count('reading paths')
            if rv != 'Ok':
                continue
            ps = known_parts(f, text)
            got = parts_of(canon(f, pl[0]))
            ck.ob('only texts of named parts are accepted', ps is not None, fs['sp'], 'the parts are not all known on an accepting path: ' + '; '.join(f.show())[:400])
            if ps is not None:
                ck.ob('an accepted text reads as documented', got == reading(ps, words), fs['sp'], '%s -> %s' % ('/'.join(ps), got))


@prop('C26', 'token and capsule encodings computed abstractly: exactly the documented concatenation; the decoders run abstractly on that concatenation give back the value (capsule: exactly when the signature verifies over the message); on an arbitrary input every accepting path of the decoders must take time, key, length, signature and message from exactly the documented byte ranges, and the capsule\'s message only with its signature verified')
def c26(ck):
    F = ck.F
    tb = token_bytes(ck, SELF)
    want = cat([be64(F_(SELF, 'auth_date')), call('sec1', (F_(SELF, 'public_key.0'),))])
    te = inherent(F, 'ConnectionToken', 'to_bytes')
    ck.ob('token: eight big-endian time bytes, then the key', tb is want, te['sp'], show(tb))
    td = inherent(F, 'ConnectionToken', 'from_bytes')
    tid = adt_named(F, 'ConnectionToken')['id']
    for o in ck.session().entry(td, [tb]):
        for f, rv, pl in result_of(o):
            ck.count('composed paths')
            good = rv == 'Ok' and same(f, canon(f, F_(pl[0], 'auth_date')), F_(SELF, 'auth_date')) and same(f, F_(pl[0], 'public_key.0'), F_(SELF, 'public_key.0'))
            ck.ob('token: decoding an encoded token gives it back', good, td['sp'], show(o.ret)[:300])
    d = mk('par', params_of(F, td)[0][0])
    n = 0
    for o in ck.session().entry(td):
        for f, rv, pl in result_of(o):
            ck.count('decoding paths')
            if rv != 'Ok':
                continue
            n += 1
            ck.ob('token: the time is read from the first eight bytes', same(f, F_(pl[0], 'auth_date'), int_at(d)), td['sp'], show(F_(pl[0], 'auth_date'))[:200])
            k = F_(pl[0], 'public_key.0')
            c = k.a[0] if k.op == 'fld' and k.a[1] == 'Ok' else None
            src = c.a[1][0] if c is not None and c.op == 'call' else None
            ck.ob('token: the key is read from the rest', src is not None and c.a[0] == 'from_sec1' and is_rest(f, src, d, I(8, 'usize')), td['sp'], show(k)[:200])
    ck.ob('token: decoding can succeed', n > 0, td['sp'])
    # capsule
    ce, cd = inherent(F, 'SecretKey', 'create_encapsulated_signature'), inherent(F, 'PublicKey', 'decode_encapsulated_signature')
    msg = mk('par', params_of(F, ce)[1][0])
    sg = signature(SELF, msg)
    for o in ck.session().entry(ce):
        w = cat([BY((64).to_bytes(8, 'big')), sg, msg])
        w2 = cat([be64(cast(length(sg), 'u64')), sg, msg])
        ck.ob('capsule: big-endian length, signature, message', o.ret in (w, w2), ce['sp'], show(o.ret)[:300])
        for p in ck.session().entry(cd, [pubkey_of(SELF), o.ret]):
            for f, rv, pl in result_of(p):
                ck.count('composed paths')
                v = verified(pubkey_of(SELF), msg, sg)
                if f.variant(v) == 'Err':
                    continue      # excluded for keys of one pair: what is signed verifies
                good = rv == 'Ok' and is_adt(pl[0], 'Some') and same(f, pl[0].a[1][0], msg) and f.variant(v) == 'Ok'
                ck.ob('capsule: decoding an encoded capsule gives the message', good, cd['sp'], show(p.ret)[:300])
    cp = mk('par', params_of(F, cd)[1][0])
    n = 0
    for o in ck.session().entry(cd):
        for f, rv, pl in result_of(o):
            ck.count('decoding paths')
            if rv != 'Ok':
                continue
            for f2, vn, q in opts(f, pl[0]):
                if vn == 'None':
                    continue
                n += 1
                m = canon(f2, q[0])
                sigs = [t for t, x in f2.v.items() if t.op == 'call' and t.a[0] == 'ecdsa_verify' and x == ('is', 'Ok')]
                sigs = [t for t in sigs if same(f2, t.a[1][1], m) and same(f2, t.a[1][0], call('vk', (F_(SELF, '0'),)))]
                ck.ob('capsule: the message is returned only with its signature verified under this key', bool(sigs), cd['sp'], '; '.join(f2.show())[:400])
                ln = int_at(cp)
                end = binop('Add', I(8, 'usize'), ln, 'usize')
                ck.ob('capsule: the message is everything behind the signature', is_rest(f2, m, cp, end), cd['sp'], show(m)[:200])
                for t in sigs:
                    s = t.a[1][2]
                    src = s.a[0].a[1][0] if s.op == 'fld' and s.a[0].op == 'call' else s
                    ck.ob('capsule: the signature is the given number of bytes behind the length', is_range(f2, src, cp, I(8, 'usize'), end), cd['sp'], show(src)[:200])
    ck.ob('capsule: decoding can succeed', n > 0, cd['sp'])
    ck.sample(show(tb))


def opts(f, t):
    if is_adt(t):
        return [(f, t.a[0][2], list(t.a[1]))]
    out = []
    for v in ('Some', 'None'):
        g = f.with_variant(t, v)
        if g is not None:
            out.append((g, v, [fld(t, v, '0')] if v == 'Some' else []))
    return out


def int_at(d):
    return call('from_be:u64', (slice_(d, I(0, 'usize'), I(8, 'usize')),))


def bare(t):
    """Without integer casts that keep the value."""
    while t.op in ('cast', 'ity'):
        t = t.a[0]
    return t


def same_int(f, a, b):
    """Equal integers, ignoring casts between 64-bit types."""
    st = lambda t: rewrite(canon(f, t), lambda x: rewrite(x.a[0], lambda y: None) if x.op == 'cast' and x.a[1] in ('usize', 'u64') else None)
    a, b = st(a), st(b)
    return lin(a) == lin(b)


def lin(t, k=1, acc=None):
    """Linear form of an integer term (widths of the parts are ignored: lengths are below 2^63)."""
    top = acc is None
    acc = {} if acc is None else acc
    if t.op == 'int':
        acc[None] = acc.get(None, 0) + k * t.a[0]
    elif t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        lin(t.a[1], k, acc)
        lin(t.a[2], k if t.a[0] == 'Add' else -k, acc)
    elif t.op == 'cast' and t.a[1] in ('usize', 'u64'):
        lin(t.a[0], k, acc)
    elif t.op == 'bin' and t.a[0] == 'Mul' and any(x.op == 'int' for x in t.a[1:3]):
        c, v = (t.a[1], t.a[2]) if t.a[1].op == 'int' else (t.a[2], t.a[1])
        lin(v, k * c.a[0], acc)
    elif t.op == 'bin' and t.a[0] == 'Shl' and t.a[2].op == 'int' and t.a[2].a[0] < 16:
        lin(t.a[1], k << t.a[2].a[0], acc)
    else:
        acc[t] = acc.get(t, 0) + k
    if top:
        return {x: n for x, n in acc.items() if n}


def slice_parts(t):
    """(base, from, to) with nested slices added up; to None: the end."""
    if t.op == 'slice':
        b, lo, hi = t.a[:3]
        r = slice_parts(b)
        if r is None:
            return b, lo, hi
        b2, lo2, hi2 = r
        return b2, binop('Add', lo2, lo, 'usize'), binop('Add', lo2, hi, 'usize') if hi is not None else hi2
    return None


def is_rest(f, t, base, lo):
    p = slice_parts(canon(f, t))
    if p is None or p[0] is not base:
        return False
    return same_int(f, p[1], lo) and (p[2] is None or same_int(f, p[2], length(base)))


def is_range(f, t, base, lo, hi):
    p = slice_parts(canon(f, t))
    return p is not None and p[0] is base and same_int(f, p[1], lo) and p[2] is not None and same_int(f, p[2], hi)


# ------------------------------------------------------------------ randomness
SECURE = ('ChaCha20Rng', 'ChaCha12Rng', 'StdRng', 'OsRng', 'ThreadRng', 'ChaCha20Core')
RNG_HINTS = ('rand_core::SeedableRng', 'rand_core::RngCore', 'RngCore::', 'rand::', 'rand_chacha::', 'getrandom', 'fastrand', 'sk_random')


def draw_source(t):
    """(ok, why) for the generator term of a draw."""
    if t.op == 'par':
        return True, 'supplied by the caller'
    for x in subterms(t):
        if x.op == 'call' and isinstance(x.a[0], str) and x.a[0].split('::')[-1] == 'from_entropy':
            ty = str(x.a[3])
            return any(s in ty for s in SECURE) or not x.a[3], ty
        if x.op in ('constx', 'agg') and 'OsRng' in str(x.a[0]):
            return True, 'OsRng'
        if x.op == 'call' and isinstance(x.a[0], str) and x.a[0].split('::')[-1] in ('thread_rng', 'from_os_rng', 'os_rng'):
            return True, x.a[0]
        if x.op == 'par' and x is t:
            return True, 'caller'
    return False, show(t)[:200]


def draws(t):
    return [x for x in subterms(t) if x.op == 'call' and (x.a[0] == 'sk_random' or isinstance(x.a[0], str) and x.a[0].split('::')[-1] in ('next_u64', 'next_u32', 'gen', 'random', 'gen_range', 'fill_bytes'))]


def fresh(ck, label, t, where, bits=None):
    ds = draws(t)
    if not ck.ob('%s is drawn from a generator' % label, bool(ds), where, show(t)[:300]):
        return
    for d in ds:
        okk, why = draw_source(d.a[1][0]) if d.a[1] else (False, 'no generator')
        ck.ob('%s: the generator is cryptographic and seeded by the system or supplied by the caller' % label, okk, where, why)
        ck.ob('%s is drawn afresh on every use' % label, d.a[2] is not None and not any(x.op == 'constx' and 'Rng' not in str(x.a[0]) for x in subterms(d)), where, show(d)[:200])


def spread(t, n=64):
    """How many independent bits of a 64-bit draw reach t (a lower bound; shifts, masks and xors with constants)."""
    if t.op == 'call' and str(t.a[0]).startswith(('from_be:', 'from_le:', 'from_ne:')) and t.a[1]:
        x = t.a[1][0]
        return min(8 * x.a[1], n) if x.op == 'arr' and x.a[0].op == 'call' and x.a[0].a[0].split('::')[-1] == 'fill_bytes' else 0
    if t.op == 'call':
        return n if t.a[0].split('::')[-1] == 'next_u64' else 32 if t.a[0].split('::')[-1] == 'next_u32' else 0
    if t.op == 'cast':
        return min(spread(t.a[0]), bits_of(t.a[1]))
    if t.op == 'bin':
        o, a, b = t.a[0], t.a[1], t.a[2]
        if b.op == 'int':
            a, b = b, a
        if a.op == 'int':
            c, s = a.a[0], spread(b)
            if o in ('Add', 'BitXor', 'Sub'):
                return s
            if o == 'Shr' or o == 'Shl':
                return max(0, s - c)
            ones = bin(c & (2 ** 64 - 1)).count('1')
            if o == 'BitOr':
                # bits already fixed below are not lost twice
                inner = b
                if inner.op == 'bin' and inner.a[0] == 'Shr' and inner.a[2].op == 'int':
                    k = inner.a[2].a[0]
                    free = ((1 << 64) - 1) >> k
                    return bin(free & ~c).count('1') if spread(inner.a[1]) == 64 else max(0, s - ones)
                return max(0, s - ones)
            if o == 'BitAnd':
                return max(0, s - (64 - ones))
            if o == 'Rem':
                return 0
        return 0
    return 0


@prop('C28', 'every constructor that makes its own proof seed, every random-key constructor and the inbox\'s message id: the value is a draw made on that very path from a cryptographic generator seeded from the system (or supplied by the caller); the interval of every generated proof seed lies at or above 2^63 and at least 63 drawn bits reach it; every generator used anywhere in the crate is one of these')
def c28(ck):
    F = ck.F
    # generators anywhere
    n = 0
    for b in F.bodies.values():
        if b['kind'] == 'Ext' or not b['id'].startswith('hyperborealib'):
            continue
        for tm in b['blocks']:
            cal = callee_name(tm)
            if cal and any(h in cal for h in ('SeedableRng::', 'rand::', 'fastrand', 'getrandom', 'rngs::')):
                n += 1
                last = cal.split('::')[-1]
                ck.ob('%s uses no predictable generator' % short_id(b['name']).split('::', 1)[-1], last in ('from_entropy', 'thread_rng', 'from_os_rng', 'next_u64', 'fill_bytes', 'next_u32', 'try_from_os_rng'), b['sp'], cal)
    ck.count('generator uses', n)
    # keys
    for ty, aid, name, b in all_inherent(F):
        if ty != 'SecretKey' or not aid.startswith('hyperborealib'):
            continue
        ret = F.types[b['locals'][0][0]]
        if type_name(ret) != 'SecretKey' or any(type_name(t) == 'SecretKey' for _, t in params_of(F, b)):
            continue
        ps = params_of(F, b)
        for o in ck.session().entry(b):
            ck.count('key constructors')
            k = F_(o.ret, '0')
            ck.ob('SecretKey::%s: the whole key is one draw' % name, k.op == 'call' and k.a[0] == 'sk_random', b['sp'], show(k)[:200])
            fresh(ck, 'SecretKey::' + name, k, b['sp'])
            if ps:
                g = mk('par', ps[0][0])
                ck.ob('SecretKey::%s draws from the supplied generator' % name, k.op == 'call' and mentions(k, g), b['sp'], show(k)[:200])
    # drivers with random keys
    for ty, aid, name, b in all_inherent(F):
        if not aid.startswith('hyperborealib') or ty == 'SecretKey' or name not in ('random', 'default', 'new'):
            continue
        d = FIELDS.get(aid)
        if not d or d[1] or 'secret_key' not in next(iter(d[0].values())):
            continue
        if any(type_name(t) == 'SecretKey' for _, t in params_of(F, b)):
            continue
        for o in ck.session().entry(b):
            if is_adt(o.ret):
                ck.count('key constructors')
                fresh(ck, '%s::%s key' % (ty, name), F_(o.ret, 'secret_key.0'), b['sp'])
    for a, im in impls_of(F, 'Default'):
        b = impl_method(F, im, 'default')
        d = FIELDS.get(a)
        if b is None or not d or d[1] or 'secret_key' not in next(iter(d[0].values())):
            continue
        for o in ck.session().entry(b):
            ck.count('key constructors')
            fresh(ck, '%s::default key' % a.split('::')[-1], F_(o.ret, 'secret_key.0'), b['sp'])
    # seeds
    for ty, aid, name, b in all_inherent(F):
        if not aid.startswith('hyperborealib::rest_api') or '::middleware::' in aid:
            continue
        h = header(F, aid)
        if h is None or h[0] != 'seed' or not any(type_name(t) == 'SecretKey' for _, t in params_of(F, b)):
            continue
        for o in ck.session().entry(b):
            for f, v, pl in (result_of(o) if is_adt(o.ret, None, RES) else [(o.facts, 'Ok', [o.ret])]):
                if v != 'Ok' or not is_adt(pl[0]):
                    continue
                seed = F_(F_(pl[0], h[1]) if h[1] else pl[0], 'proof_seed')
                if seed.op == 'par':
                    continue
                ck.count('seed constructors')
                fresh(ck, '%s::%s seed' % (ty, name), seed, b['sp'])
                ck.ob('%s::%s: the seed has its top bit set' % (ty, name), f.interval(seed)[0] >= TOP, b['sp'], show(seed)[:200])
                ck.ob('%s::%s: the other 63 bits are drawn' % (ty, name), spread(seed) >= 63, b['sp'], show(seed)[:200])
    # the random helpers themselves
    for b in F.bodies.values():
        if b['kind'] == 'Fn' and b['name'].startswith('hyperborealib::crypto::utils::') and b['blocks'] and not b['argc']:
            for o in ck.session().entry(b):
                ck.count('helpers')
                nm = b['name'].split('::')[-1]
                fresh(ck, nm, o.ret, b['sp'])
                ck.ob('%s spreads over at least 63 bits' % nm, spread(o.ret) >= 63, b['sp'], show(o.ret)[:200])
    # message ids
    b = trait_method(F, 'MessagesInbox', 'StoredQueueMessagesInbox', 'add_message')
    from . import storage as ST
    for o in ck.session().entry(b):
        for path, data, e in ST.writes(o):
            ids = [x for x in subterms(path) if x.op == 'call' and x.a[0] == 'dec']
            if ids:
                ck.count('message ids')
                fresh(ck, 'message id', ids[0], b['sp'])
                ck.ob('message ids spread over at least 63 bits', spread(ids[0].a[1][0]) >= 63, b['sp'], show(ids[0])[:200])
    ck.floor('key constructors', 2)
    ck.floor('seed constructors', 2)
    ck.floor('message ids', 1)


def callee_name(blk):
    """Path of the function a block calls, or None."""
    t = blk['t']
    if t[0] != 'call' or t[1][0] != 'k' or t[1][1]['k'] != 'fn':
        return None
    f = t[1][1]['f']
    return f['rpath'] or f['path']


# ------------------------------------------------------------------ equality and hashing
@prop('C42', 'for every local type with PartialEq and Hash: both derived (equality compares and hashing feeds exactly the fields), or on every path of eq that answers true the sequences of values fed to the hasher by the two operands are equal under what the path knows')
def c42(ck):
    F = ck.F
    hs = {a: im for a, im in impls_of(F, 'Hash') if a and a.startswith('hyperborealib')}
    eqs = {}
    for a, im in impls_of(F, 'PartialEq'):
        if a and a.startswith('hyperborealib'):
            eqs.setdefault(a, []).append(im)
    for a in sorted(set(hs) & set(eqs)):
        if '::_::' in a or '{' in a:
            continue
        ty = a.split('::')[-1]
        hb = impl_method(F, hs[a], 'hash')
        for im in eqs[a]:
            eb = impl_method(F, im, 'eq')
            if hb is None or eb is None:
                continue
            ck.count('types')
            if hb['derived'] and eb['derived']:
                ck.count('both derived')
                ck.ob('%s: equality and hashing are both derived' % ty, True)
                continue
            ck.count('compared')
            x, y = mk('par', 'x'), mk('par', 'y')
            n = 0
            for o in ck.session(display=True).entry(eb, [x, y]):
                for f, v in resolve_bool(o.facts, o.ret):
                    if not v:
                        continue
                    n += 1
                    st = State()
                    st.facts = f
                    hx, hy = hashed(ck, hb, x, st), hashed(ck, hb, y, st)
                    bad = [(p, q) for p in hx for q in hy if p[1] != q[1] and not compatible(p, q, f)]
                    drawn = [t for p in hx + hy for e in p[1] for z in e[1:] for t in subterms(z) if t.op == 'call' and len(t.a) > 2 and t.a[2] is not None]
                    ck.ob('%s: what is hashed depends on the value only' % ty, not drawn, hb['sp'], show(drawn[0])[:200] if drawn else '')
                    ck.ob('%s: equal values feed the hasher the same' % ty, not bad, hb['sp'], 'x feeds %s, y feeds %s' % bad[0] if bad else '')
            ck.ob('%s: values can be equal' % ty, n > 0, eb['sp'])
    ck.floor('types', 8)
    ck.floor('compared', 1)


def hashed(ck, hb, v, st):
    out = []
    ses = ck.session()
    for o in ses.entry(hb, [v, mk('par', 'hasher')], st=st):
        seq = []
        for e in o.events:
            if e.kind == 'call' and (e.name.endswith('Hash::hash') or '::Hasher::' in e.name or 'hash_slice' in e.name):
                xs = e.args[1:] if '::Hasher::' in e.name else e.args[:1]
                seq.append((e.name,) + tuple(canon(o.facts, x) for x in xs))
        out.append((o.facts, tuple(seq)))
    return out


def same_kind(f, x, y):
    """Discriminants of two values known to be of one variant."""
    def subject(t):
        while t.op in ('cast', 'ity'):
            t = next(u for u in t.a if isinstance(u, type(t)))
        return t.a[0] if t.op == 'discr' else t.a[1][0] if t.op == 'call' and str(t.a[0]).endswith(('discr', 'discriminant_value')) else None
    a, b = subject(x), subject(y)
    if a is None or b is None:
        return False
    v = f.variant(a)
    if v is not None and v == f.variant(b):
        return True
    for t, known in f.b.items():
        if known is True and t.op == 'eq':
            p, q = (subject(u) for u in t.a)
            if p is not None and q is not None and {p, q} == {a, b}:
                return True
    return False


def compatible(p, q, f):
    """Different hash inputs on paths that cannot happen together (they need different variants of equal parts)."""
    (fp, sp), (fq, sq) = p, q
    if len(sp) == len(sq):
        if all(a[0] == b[0] and len(a) == len(b) and all(same(f, x, y) or same(fp, x, y) or same_kind(f, x, y) for x, y in zip(a[1:], b[1:])) for a, b in zip(sp, sq)):
            return True
    for t, x in fp.v.items():
        if x[0] != 'is':
            continue
        for u, w in fq.v.items():
            if w[0] == 'is' and w != x and (same(f, t, u)):
                return True
    return False


# ------------------------------------------------------------------ generic serialisation
VEC8 = ('alloc::vec::Vec', 'u8')


@prop('C41', 'the data-model shape each key type writes through Serializer (newtype, struct with named fields, sequence, text, bytes) and the shape it asks its Deserializer for are computed from the code and matched; the value read, with what was written put in place of what the format delivers, must be the key itself on every path; every path giving a key gives a validated one')
def c41(ck):
    F = ck.F
    for ty in ('SecretKey', 'PublicKey'):
        a = adt_named(F, ty)['id']
        sb = [impl_method(F, im, 'serialize') for x, im in impls_of(F, 'Serialize') if x == a]
        db = [impl_method(F, im, 'deserialize') for x, im in impls_of(F, 'Deserialize') if x == a]
        sb, db = [x for x in sb if x], [x for x in db if x]
        if len(sb) != 1 or len(db) != 1:
            ck.ob('%s is both serialisable and deserialisable' % ty, False, '', '%d writers, %d readers' % (len(sb), len(db)))
            continue
        sb, db = sb[0], db[0]
        ws = written(ck, sb)
        ck.count('key types')
        if not ck.ob('%s writes one shape' % ty, len(ws) == 1, sb['sp'], str([w[0] for w in ws])):
            continue
        shape, vals = ws[0]
        n = 0
        for o in ck.session().entry(db):
            for f, rv, pl in result_of(o):
                ck.count('reading paths')
                if rv != 'Ok':
                    continue
                n += 1
                what, got = read_back(ck, f, canon(f, pl[0]), shape, vals, db)
                ck.ob('%s asks for the shape it writes' % ty, what is None, db['sp'], what)
                if what is None:
                    ck.ob('%s: what is read is the key written' % ty, got is SELF or same(f, got, SELF), db['sp'], show(got)[:300])
        ck.ob('%s can be read' % ty, n > 0, db['sp'])
        ck.sample('%s: %s %s' % (ty, shape, [show(v)[:80] for v in vals]))
    ck.floor('key types', 2)


def written(ck, b):
    """{(shape, values)} a Serialize impl writes when nothing fails."""
    out = []
    ses = ck.session()
    for o in ses.entry(b):
        r = o.ret
        if is_adt(r, 'Err') or (r.op == 'call' and o.facts.variant(r) == 'Err'):
            continue
        if any(x == ('is', 'Err') for t, x in o.facts.v.items()):
            continue
        if r.op != 'call':
            out.append((('unknown', show(r)[:100]), ()))
            continue
        m = r.a[0].split('::')[-1]
        if m == 'serialize_newtype_struct':
            sh = (('newtype', text_of(r.a[1][1])), (r.a[1][2],))
        elif m == 'end':
            fs = [e for e in o.events if e.kind == 'call' and e.name.split('::')[-1] == 'serialize_field']
            st = [x for x in subterms(r) if x.op == 'call' and x.a[0].split('::')[-1] in ('serialize_struct', 'serialize_tuple_struct')]
            k = 'struct' if st and st[0].a[0].endswith('serialize_struct') else 'tuple'
            names = tuple(text_of(e.args[1]) for e in fs) if k == 'struct' else tuple(range(len(fs)))
            sh = ((k, text_of(st[0].a[1][1]) if st else None, names), tuple(e.args[-1] for e in fs))
            if st and st[0].a[1][2] is not I(len(fs), 'usize'):
                sh = ((k + ' announcing %s fields' % show(st[0].a[1][2]),) + sh[0][1:], sh[1])
        elif m in ('serialize_str', 'collect_str'):
            sh = (('str',), (r.a[1][1],))
        elif m == 'serialize_bytes':
            sh = (('bytes',), (r.a[1][1],))
        elif m in ('collect_seq',):
            sh = (('seq',), (r.a[1][1],))
        elif m == 'serialize':
            sh = (('value', str(r.a[3][0]) if r.a[3] else ''), (r.a[1][0],))
        else:
            sh = (('unknown', r.a[0]), ())
        if sh not in out:
            out.append(sh)
    return out


def text_of(t):
    return t.a[0] if t.op == 'str' else show(t)


def read_back(ck, f, t, shape, vals, b):
    """(problem or None, the value read with the written data in place)."""
    src = [x for x in subterms(t) if x.op == 'call' and isinstance(x.a[0], str) and x.a[0].split('::')[0] in ('serde', 'serde_core') and x.a[0].split('::')[-1].startswith('deserialize')]
    tops = {x for x in src}
    if len(tops) != 1:
        return 'the value does not come from one read of the format: %s' % show(t)[:200], None
    c = next(iter(tops))
    m = c.a[0].split('::')[-1]
    okv = fld(c, 'Ok', '0')
    if m == 'deserialize_struct' and shape[0] == 'struct':
        fields = [text_of(x) for x in (c.a[1][2].a[1] if c.a[1][2].op == 'agg' else ())]
        missing = [n for n in shape[2] if n not in fields]
        extra = [n for n in fields if n not in shape[2]]
        if missing or extra:
            return 'fields written %s, read %s' % (list(shape[2]), fields), None
        order = visitor_fields(ck, c)
        if order is None:
            return 'the reader of the fields is not understood', None
        sub = {}
        for i, n in enumerate(fields):
            sub[fld(okv, None, order[i])] = vals[shape[2].index(n)]
        return None, simplify(t, sub)
    if m == 'deserialize_newtype_struct' and shape[0] == 'newtype':
        return None, simplify(t, {okv: None}, newtype=(ck, c, vals[0]))
    if m in ('deserialize_str', 'deserialize_string') and shape[0] == 'str':
        return None, simplify(t, {okv: vals[0]})
    if m == 'deserialize' and shape[0] in ('value', 'seq', 'str', 'newtype'):
        ty = str(c.a[3][0]) if c.a[3] else ''
        kind = 'text' if 'String' in ty or "'str'" in ty else 'seq' if 'Vec' in ty or 'array' in ty else '?'
        w = 'text' if shape[0] == 'str' or 'String' in str(shape) or "'str'" in str(shape) else 'seq'
        if shape[0] == 'newtype' or kind != w or "'ref'" in ty:
            return 'writes %s, reads %s' % (shape, ty), None
        return None, simplify(t, {okv: vals[0]})
    return 'writes %s, reads with %s' % (shape, m), None


def visitor_fields(ck, c):
    """Names of the struct fields the visitor fills from the 1st, 2nd... element."""
    v = c.a[1][-1]
    if not is_adt(v):
        return None
    F = ck.F
    for a, im in impls_of(F, 'Visitor'):
        if a != v.a[0][1]:
            continue
        vs = impl_method(F, im, 'visit_seq')
        if vs is None:
            return None
        for o in ck.session().entry(vs):
            for f, rv, pl in result_of(o):
                if rv != 'Ok' or not is_adt(pl[0]):
                    continue
                ev = [e for e in o.events if e.kind == 'call' and e.name.split('::')[-1] == 'next_element']
                names = FIELDS[pl[0].a[0][1]][0][pl[0].a[0][2]]
                order = []
                for e in ev:
                    x = fld(fld(e.res, 'Ok', '0'), 'Some', '0')
                    hit = [n for n, y in zip(names, pl[0].a[1]) if y is x]
                    if len(hit) != 1:
                        return None
                    order.append(hit[0])
                return order
    return None


def simplify(t, sub, newtype=None):
    """Put the written values in place and cancel inverse conversions."""
    if newtype:
        ck, c, val = newtype
        v = c.a[1][-1]
        for a, im in impls_of(ck.F, 'Visitor'):
            if is_adt(v) and a == v.a[0][1]:
                vb = impl_method(ck.F, im, 'visit_newtype_struct')
                if vb is None:
                    return t
                for o in ck.session().entry(vb):
                    for f, rv, pl in result_of(o):
                        if rv == 'Ok':
                            inner = [x for x in subterms(pl[0]) if x.op == 'call' and x.a[0].split('::')[-1] == 'deserialize']
                            if len(inner) != 1:
                                return t
                            got = rewrite(pl[0], lambda x: val if x is fld(inner[0], 'Ok', '0') else None)
                            sub = {fld(c, 'Ok', '0'): got}
    t = rewrite(t, lambda x: sub.get(x))
    inv = {'sk_from': 'skbytes', 'pk_from': 'sec1', 'b64dec': 'b64enc'}

    def step(x):
        if x.op == 'fld' and x.a[1] == 'Ok' and x.a[0].op == 'call' and x.a[0].a[0] in inv:
            y = x.a[0].a[1]
            z = rewrite(y[0], step)
            if z.op == 'call' and z.a[0] == inv[x.a[0].a[0]] and tuple(z.a[1][1:]) == tuple(y[1:]):
                return rewrite(z.a[1][0], step)
        return None
    for _ in range(3):
        t = rewrite(t, step)
    return eta(t)

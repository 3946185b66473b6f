"""Messages: sealing and opening, ciphers, compression and text encoding: C15-C18."""
from .base import *
from .rest import SELF, params_of, type_name, variants

CODECS = {'aead_encrypt', 'aead_decrypt', 'b64dec', 'flate_write', 'flate_finish', 'flate_read', 'BrotliCompress', 'BrotliDecompress'}
CIPHER = {'Aes256Gcm': ('AesGcm<', 'Aes256'), 'ChaCha20Poly1305': ('ChaChaPoly1305<', 'ChaChaCore<UInt<UInt<UInt<UInt<UTerm,B1>,B0>,B1>,B0>>')}
ENC = {'b64enc': 'encode', 'aead_encrypt': 'encrypt', 'BrotliCompress_out': 'compress'}
DEC = {'b64dec': 'decode', 'aead_decrypt': 'decrypt', 'BrotliDecompress_out': 'decompress'}


def okval(t):
    """The call whose success value t is."""
    if t.op == 'fld' and t.a[1] == 'Ok' and t.a[0].op == 'call':
        return t.a[0]
    return None


def cipher_name(t):
    """Which documented cipher a cipher term is, by its type."""
    if t.op != 'call' and t.op != 'cipher':
        return None
    s = str(t.a)
    if 'AesGcm<' in s and 'Aes256' in s:
        return 'Aes256Gcm'
    if 'ChaChaPoly1305<' in s and CIPHER['ChaCha20Poly1305'][1] in s.replace(' ', ''):
        return 'ChaCha20Poly1305'
    return s[:80]


def layer(t):
    """(direction, kind, algorithm, parameters, inner) of the outermost processing step of t, or None."""
    c = okval(t)
    if c is not None and c.a[0] in ('aead_encrypt', 'aead_decrypt'):
        ci, nonce, data = c.a[1]
        return ('in' if c.a[0] == 'aead_encrypt' else 'out', 'cipher', cipher_name(ci), (key_of(ci), nonce), data)
    if c is not None and c.a[0] == 'b64dec':
        return 'out', 'encoding', 'Base64', (c.a[1][1],), c.a[1][0]
    if t.op == 'call' and t.a[0] == 'b64enc':
        return 'in', 'encoding', 'Base64', (t.a[1][1],), t.a[1][0]
    if t.op == 'call' and t.a[0] == 'BrotliCompress_out':
        return 'in', 'compression', 'Brotli', (), t.a[1][0]
    if t.op == 'call' and t.a[0] == 'BrotliDecompress_out':
        return 'out', 'compression', 'Brotli', (), t.a[1][0]
    if t.op == 'call' and t.a[0] == 'flate_out' and t.a[1][0].op == 'flate':
        k, lvl, out, data = t.a[1][0].a
        if not is_empty(out):
            return None
        if k == 'DeflateEncoder':
            return 'in', 'compression', 'Deflate', (), data
        if k == 'DeflateDecoder':
            return 'out', 'compression', 'Deflate', (), data
    return None


def key_of(ci):
    xs = [x for x in (ci.a[1] if ci.op == 'call' else ci.a) if isinstance(x, Term)]
    return xs[-1] if xs else None


def layers(t):
    """([layer...], core): the processing steps from the outside in."""
    out = []
    while True:
        l = layer(t)
        if l is None:
            return out, t
        out.append(l[:4])
        t = l[4]


def failed(f):
    """Codec calls known to have failed on the path."""
    return [t for t, x in f.v.items() if t.op == 'call' and t.a[0] in CODECS and x == ('is', 'Err')]


def combos(F):
    """[(label, MessageEncoding term, (encoding, encryption, compression))]"""
    e, es = variants(F, 'Encoding')
    c, cs = variants(F, 'Encryption')
    z = [a for a in F.adts.values() if a['id'] == 'hyperborealib::crypto::compression::Compression']
    zs = [v['name'] for v in z[0]['variants']]
    m = adt_named(F, 'MessageEncoding')['id']
    names = FIELDS[m][0]['MessageEncoding']
    out = []
    for a in es:
        for b in cs:
            for d in zs:
                v = {'encoding': adt(e, a), 'encryption': adt(c, b), 'compression': adt(z[0]['id'], d)}
                out.append(('%s/%s/%s' % (a, b, d), adt(m, 'MessageEncoding', *[v[n] for n in names]), (a, b, d)))
    return out


def expected(combo, direction):
    """The processing steps a combination stands for, from the outside in, when sealing."""
    a, b, d = combo
    out = [('encoding', a)]
    if b != 'None':
        out.append(('cipher', b))
    if d != 'None':
        out.append(('compression', d))
    return out if direction == 'in' else out[::-1]


def mparams(F, b):
    """Parameter terms of a Message function by their types."""
    d = {}
    for n, t in params_of(F, b):
        k = type_name(t)
        d.setdefault(k, []).append(mk('par', n))
    return d


def shared(key):
    """(owner secret, peer public, the derivation around them) of a key term."""
    e = [x for x in subterms(key) if x.op == 'call' and x.a[0] == 'ecdh']
    if len(e) != 1:
        return None
    s, p = e[0].a[1]
    hole = mk('hole')
    return s, p, rewrite(key, lambda x: hole if x is e[0] else None)


@prop('C15', 'on every path of Message::read that gives content, the path must know that the signature obtained from the message\'s sign field verifies over exactly the returned content under the given sender key; the returned content must be obtained from the message\'s content field; every key used must be derived from the receiver\'s secret and the sender\'s public key; every other path must be an error')
def c15(ck):
    F = ck.F
    b = inherent(F, 'Message', 'read')
    d = mparams(F, b)
    sender, receiver = d['PublicKey'][0], d['SecretKey'][0]
    n = 0
    for o in ck.session().entry(b):
        for f, v, pl in result_of(o):
            ck.count('paths')
            if v != 'Ok':
                continue
            n += 1
            r = pl[0]
            sg = [t for t, x in f.v.items() if t.op == 'call' and t.a[0] == 'ecdsa_verify' and x == ('is', 'Ok') and same(f, t.a[1][0], call('vk', (F_(sender, '0'),)))]
            sg = [t for t in sg if same(f, t.a[1][1], r)]
            ck.ob('reading returns only content verified under the sender\'s key', bool(sg), b['sp'], 'no signature over the returned value is known to verify: %s' % show(r)[:200])
            for t in sg:
                src, own = F_(SELF, 'sign'), F_(SELF, 'content')
                ck.ob('the verified signature is the message\'s own', mentions(t.a[1][2], src) and not mentions(t.a[1][2], own), b['sp'], show(t.a[1][2])[:200])
            ck.ob('the returned content is the message\'s own', layers(r)[1] is F_(SELF, 'content'), b['sp'], show(r)[:200])
            for t in keys_used(f, r):
                sh = shared(t)
                okk = sh is not None and sh[0] is call('to_nonzero_scalar', (F_(receiver, '0'),)) and sh[1] is call('as_affine', (F_(sender, '0'),))
                ck.ob('every key comes from the receiver\'s secret and the sender\'s public key', okk, b['sp'], show(t)[:200])
            pars = {x for t in list(f.v) + [r] for x in subterms(t) if x.op == 'par'}
            ck.ob('nothing else decides', pars <= {SELF, sender, receiver}, b['sp'], ', '.join(show(x) for x in pars))
    ck.count('accepting paths', n)
    ck.ob('reading can succeed', n > 0, b['sp'])


def keys_used(f, r):
    out = []
    for t in list(f.v) + [r]:
        for x in subterms(t):
            if x.op == 'call' and x.a[0] in ('aead_decrypt', 'aead_encrypt') and key_of(x.a[1][0]) is not None:
                out.append(key_of(x.a[1][0]))
    return sorted(set(out), key=lambda x: x.id)


@prop('C16', 'for each of the encoding x encryption x compression combinations: every message Message::create gives carries, in content, the given data and, in sign, the sender\'s signature of the given data, each wrapped in exactly the steps the combination names (compression innermost, then cipher, then text encoding) and carries that encoding; the content and signature Message::read obtains are the content and sign field unwrapped by exactly the inverse steps of the same algorithms with the same parameters in the reverse order, with the key derived the same way from the other side\'s pair')
def c16(ck):
    F = ck.F
    bc, br = inherent(F, 'Message', 'create'), inherent(F, 'Message', 'read')
    dc, dr = mparams(F, bc), mparams(F, br)
    sk, pk = dc['SecretKey'][0], dc['PublicKey'][0]
    rsk, rpk = dr['SecretKey'][0], dr['PublicKey'][0]
    pars = params_of(F, bc)
    data = [mk('par', n) for n, t in pars if type_name(t) not in ('SecretKey', 'PublicKey', 'MessageEncoding', 'CompressionLevel')]
    if len(data) != 1:
        raise AnalysisError('Message::create takes %d data arguments' % len(data))
    mid = adt_named(F, 'Message')['id']
    names = FIELDS[mid][0]['Message']
    for label, enc, combo in combos(F):
        ck.count('combinations')
        args = [enc if type_name(t) == 'MessageEncoding' else None for n, t in pars]
        sealed = {}
        n = 0
        for o in ck.session().entry(bc, args):
            for f, v, pl in result_of(o):
                ck.count('creating paths')
                if v == 'Err':
                    ck.ob('%s: creating fails only if a step fails' % label, bool(failed(f)), bc['sp'], '; '.join(f.show())[:300])
                    continue
                n += 1
                m = pl[0]
                ck.ob('%s: the message carries its encoding' % label, same(f, F_(m, 'encoding'), enc), bc['sp'])
                for fn, core in (('content', data[0]), ('sign', signature(sk, data[0]))):
                    ls, inner = layers(F_(m, fn))
                    ck.count('sealed fields')
                    what = [(k, a) for dr_, k, a, ps in ls]
                    ck.ob('%s: %s is sealed by the named steps in order' % (label, fn), what == expected(combo, 'in') and all(x[0] == 'in' for x in ls), bc['sp'], 'steps: %s' % (what,))
                    ck.ob('%s: %s is sealed over the %s' % (label, fn, 'given data' if fn == 'content' else 'sender\'s signature of the given data'), same(f, inner, core), bc['sp'], show(inner)[:200])
                    for dr_, k, a, ps in ls:
                        ps = norm_params(ps, sk, pk)
                        ck.ob('%s: sealing is a function of the encoding' % label, sealed.setdefault((fn, k), ps) == ps, bc['sp'])
        ck.ob('%s: a message can be created' % label, n > 0, bc['sp'])
        self_ = adt(mid, 'Message', *[enc if x == 'encoding' else fld(SELF, None, x) for x in names])
        n = 0
        for o in ck.session().entry(br, [self_] + [None] * (br['argc'] - 1)):
            for f, v, pl in result_of(o):
                ck.count('reading paths')
                if v == 'Err':
                    continue
                n += 1
                got = {'content': pl[0]}
                for t, x in f.v.items():
                    if t.op == 'call' and t.a[0] == 'ecdsa_verify' and x == ('is', 'Ok'):
                        s = t.a[1][2]
                        c = okval(s)
                        if c is not None and c.a[0] == 'sig_from':
                            got['sign'] = c.a[1][0]
                if 'sign' not in got:
                    ck.ob('%s: a signature is read' % label, False, br['sp'])
                    continue
                for fn in ('content', 'sign'):
                    ls, inner = layers(got[fn])
                    what = [(k, a) for dr_, k, a, ps in ls]
                    ck.ob('%s: %s is opened by the inverse steps in reverse order' % (label, fn), what == expected(combo, 'out') and all(x[0] == 'out' for x in ls), br['sp'], 'steps: %s' % (what,))
                    ck.ob('%s: the %s field is opened' % (label, fn), inner is F_(SELF, fn), br['sp'], show(inner)[:200])
                    for dr_, k, a, ps in ls:
                        ps = norm_params(ps, rsk, rpk)
                        if (fn, k) in sealed:
                            ck.ob('%s: %s: the %s step uses the parameters it was sealed with' % (label, fn, k), ps == sealed[(fn, k)], br['sp'],
                                  '%s vs %s' % ([show(x)[:150] for x in ps], [show(x)[:150] for x in sealed[(fn, k)]]))
        ck.ob('%s: a message can be read' % label, n > 0, br['sp'])
    ck.floor('combinations', 9)


def norm_params(ps, sk, pk):
    """Parameters with the Diffie-Hellman secret of (sk, pk) made symmetric."""
    dh = call('ecdh', (call('to_nonzero_scalar', (F_(sk, '0'),)), call('as_affine', (F_(pk, '0'),))))
    hole = mk('hole', 'dh')
    return tuple(rewrite(p, lambda x: hole if x is dh else None) for p in ps)


def bytes_args(F, b):
    """(data parameter, key parameter or None) of a cipher function."""
    data = key = None
    for n, t in params_of(F, b):
        if n == 'self' or (t and t['k'] == 'adt' and t['id'].split('::')[-1] in ('CompressionLevel', 'Encryption', 'Compression', 'Encoding')):
            continue
        if t and t['k'] == 'array':
            key = mk('par', n)
        else:
            data = mk('par', n)
    return data, key


@prop('C17', 'for each Encryption variant, every path of encrypt and decrypt that gives data must give exactly the output of that variant\'s AEAD under the given key (None: the data itself), with one nonce constant per variant on both sides; an AEAD failure must be an error and errors must come from AEAD failures; the per-cipher functions exported beside them likewise')
def c17(ck):
    F = ck.F
    aid, vs = variants(F, 'Encryption')
    nonces = {}
    for m, direction in (('encrypt', 'in'), ('decrypt', 'out')):
        b = inherent(F, 'Encryption', m)
        data, key = bytes_args(F, b)
        for v in vs:
            ck.count('cipher operations')
            args = [adt(aid, v)] + [None] * (b['argc'] - 1)
            cipher_paths(ck, 'Encryption::%s for %s' % (m, v), b, ck.session().entry(b, args), direction, None if v == 'None' else v, data, key, nonces)
        for body in [x for x in F.bodies.values() if x['kind'] == 'Fn' and x['name'].startswith('hyperborealib::crypto::encryption::') and x['name'].split('::')[-1] == m and x['blocks']]:
            data, key = bytes_args(F, body)
            if key is None:
                continue
            mod = body['name'].split('::')[-2].replace('_', '')
            v = next((w for w in vs if w.lower() == mod), None)
            if v is None:
                continue
            ck.count('cipher operations')
            cipher_paths(ck, short_name(body), body, ck.session().entry(body), direction, v, data, key, nonces)
    for v, ns in nonces.items():
        ck.ob('%s: one constant nonce on both sides' % v, len(ns) == 1 and not any(x.op == 'par' for t in ns for x in subterms(t)), '', '; '.join(show(x) for x in ns))
    ck.floor('cipher operations', 6)
    ck.sample({v: [show(x) for x in ns] for v, ns in nonces.items()})


def short_name(b):
    return '::'.join(b['name'].split('::')[-2:])


def cipher_paths(ck, label, b, outs, direction, v, data, key, nonces):
    n = 0
    for o in outs:
        for f, rv, pl in result_of(o):
            ck.count('paths')
            bad = failed(f)
            if rv == 'Err':
                ck.ob('%s: fails only if the cipher fails' % label, v is not None and bool(bad), b['sp'], '; '.join(f.show())[:300])
                continue
            n += 1
            ck.ob('%s: a cipher failure is reported' % label, not bad, b['sp'], '; '.join(show(x)[:200] for x in bad))
            r = canon(f, pl[0])
            if v is None:
                ck.ob('%s: passes the data through' % label, r is data, b['sp'], show(r)[:200])
                continue
            ls, inner = layers(r)
            good = len(ls) == 1 and ls[0][0] == direction and ls[0][1] == 'cipher' and ls[0][2] == v
            ck.ob('%s: gives the output of its cipher' % label, good and inner is data, b['sp'], show(r)[:300])
            if good:
                ck.ob('%s: uses the given key' % label, ls[0][3][0] is key, b['sp'], show(ls[0][3][0])[:200])
                nonces.setdefault(v, set()).add(ls[0][3][1])
    ck.ob('%s: can succeed' % label, n > 0, b['sp'])


@prop('C18', 'for each compression algorithm and level, every path of compress that gives data must give the finished output of that algorithm\'s encoder fed exactly the whole input into an empty buffer (None: the input), decompress likewise with the matching decoder; text encoding and decoding must use one engine; every failing codec call on a path must make the path an error, and errors must come from one')
def c18(ck):
    F = ck.F
    zid = 'hyperborealib::crypto::compression::Compression'
    if zid not in F.adts:
        raise AnalysisError('no Compression type')
    vs = [v['name'] for v in F.adts[zid]['variants']]
    lid, lvls = variants(F, 'CompressionLevel')
    for m, direction in (('compress', 'in'), ('decompress', 'out')):
        b = [x for t, a, nm, x in all_inherent(F, m) if a == zid][0]
        data, _ = bytes_args(F, b)
        for v in vs:
            for lv in (lvls if m == 'compress' else [None]):
                args = [adt(zid, v)] + [adt(lid, lv) if type_name(t) == 'CompressionLevel' else None for n, t in params_of(F, b)[1:]]
                codec_paths(ck, 'Compression::%s for %s%s' % (m, v, ' at ' + lv if lv else ''), b, ck.session().entry(b, args), direction, 'compression', None if v == 'None' else v, data)
        for body in [x for x in F.bodies.values() if x['kind'] == 'Fn' and x['name'].startswith('hyperborealib::crypto::compression::') and x['name'].split('::')[-1] == m and x['blocks']]:
            v = next((w for w in vs if w.lower() == body['name'].split('::')[-2]), None)
            if v is None:
                continue
            data, _ = bytes_args(F, body)
            codec_paths(ck, short_name(body), body, ck.session().entry(body), direction, 'compression', v, data)
    eid, es = variants(F, 'Encoding')
    engines = {}
    for m, direction in (('encode', 'in'), ('decode', 'out')):
        bodies = [(inherent(F, 'Encoding', m), v) for v in es]
        bodies += [(x, es[0]) for x in F.bodies.values() if x['kind'] == 'Fn' and x['name'] == 'hyperborealib::crypto::encoding::base64::' + m]
        for b, v in bodies:
            args = None if b['kind'] == 'Fn' else [adt(eid, v)] + [None] * (b['argc'] - 1)
            data, _ = bytes_args(F, b)
            for ls in codec_paths(ck, short_name(b) if b['kind'] == 'Fn' else 'Encoding::%s for %s' % (m, v), b, ck.session().entry(b, args), direction, 'encoding', v, data):
                engines.setdefault(v, set()).add(ls[0][3][0])
    for v, s in engines.items():
        ck.ob('%s: encoding and decoding use one engine' % v, len(s) == 1, '', '; '.join(show(x) for x in s))
    ck.floor('codec operations', 12)
    ck.sample({v: [show(x) for x in s] for v, s in engines.items()})


def codec_paths(ck, label, b, outs, direction, kind, v, data):
    ck.count('codec operations')
    n, got = 0, []
    for o in outs:
        rs = result_of(o) if is_result(ck.F, b) else [(o.facts, 'Ok', [o.ret])]
        for f, rv, pl in rs:
            ck.count('paths')
            bad = failed(f)
            if rv == 'Err':
                ck.ob('%s: fails only if the codec fails' % label, v is not None and bool(bad), b['sp'], '; '.join(f.show())[:300])
                continue
            n += 1
            ck.ob('%s: a codec failure is reported' % label, not bad, b['sp'], '; '.join(show(x)[:200] for x in bad))
            r = canon(f, pl[0])
            if v is None:
                ck.ob('%s: passes the data through' % label, r is data, b['sp'], show(r)[:200])
                continue
            ls, inner = layers(r)
            good = len(ls) == 1 and ls[0][:3] == (direction, kind, v)
            ck.ob('%s: gives the complete output for the whole input' % label, good and inner is data, b['sp'], show(r)[:300])
            if good:
                got.append(ls)
    ck.ob('%s: can succeed' % label, n > 0, b['sp'])
    return got


def is_result(F, b):
    t = F.types[b['locals'][0][0]]
    return t['k'] == 'adt' and t['id'] == RES

"""Generic (serde) serialisation of records: C59."""
from .base import *
from .crypto import text_of
from .loops import since

KEYS = ('SecretKey', 'PublicKey')     # hand-written, C41


def last(n):
    return str(n[0] if isinstance(n, tuple) else n).split('::')[-1]


def local(a):
    return a and a.startswith('hyperborealib') and '{' not in a and '::_' not in a


@prop('C59', 'for every local type that derives generic serialisation, the tree the writer describes (kind, name, variant number and name, field names in order, the value under each) is computed from the generated code on every path and put against what the reader accepts: the field and variant names and numbers its identifier visitor knows, the element order its sequence visitor expects, the slot its map visitor puts each named value in; written into the slots, the values must rebuild the value field by field')
def c59(ck):
    F = ck.F
    ws = {a: im for a, im in impls_of(F, 'Serialize') if local(a)}
    rs = {a: im for a, im in impls_of(F, 'Deserialize') if local(a)}
    for a in sorted(set(ws) | set(rs)):
        ty = last(a)
        if ty in KEYS:
            continue
        wb = impl_method(F, ws[a], 'serialize') if a in ws else None
        rb = impl_method(F, rs[a], 'deserialize') if a in rs else None
        if not ck.ob('%s is both serialisable and deserialisable' % ty, wb is not None and rb is not None, (wb or rb or {}).get('sp', '')):
            continue
        ck.count('types')
        shapes = written(ck, wb, a)
        ck.ob('%s can be written' % ty, bool(shapes), wb['sp'])
        outs = [o for o in ck.session(display=True, opaque=nested(F)).entry(rb)]
        known = set()
        for shape in shapes:
            ck.count('written shapes')
            name = ty if shape['var'] is None else '%s::%s' % (ty, shape['var'])
            if shape['bad']:
                ck.ob('%s is written as a tree of its parts' % name, False, wb['sp'], shape['bad'])
                continue
            key = shape['var']
            known.add(key)
            conv = converted(shape)
            if not conv:
                own(ck, F, a, name, shape, wb)
            got = [converts(F, o, a, shape) if conv else reads(ck, F, o, a, shape) for o in outs]
            if conv and all(why == '' for why in got):
                got = ['nothing reads %s' % show(shape['fields'][0][1])[:100]]
            for why in got:
                why = why or None
                ck.ob('%s is read back from what is written' % name, why is None, rb['sp'], why or '')
        if F.adts[a]['kind'] == 'enum':
            for v in variants_of(F, a):
                ck.ob('%s::%s can be written' % (ty, v), v in known, wb['sp'])
    ck.floor('types', 35)


def nested(F):
    """Writers and readers of parts: judged by themselves, not where a record uses them."""
    if 'nested' not in _memo:
        _memo['nested'] = frozenset(b['id'] for t, m in (('Serialize', 'serialize'), ('Deserialize', 'deserialize')) for a, im in impls_of(F, t) if local(a) for b in [impl_method(F, im, m)] if b is not None)
    return _memo['nested']


def variants_of(F, a):
    return [v['name'] for v in F.adts[a]['variants']]


def names_of(F, a, v):
    for d in F.adts[a]['variants']:
        if d['name'] == v or v is None:
            return [f['name'] for f in d['fields']]
    return []


def own(ck, F, a, name, sh, b):
    """Each part is written, under one name, as it is."""
    me = mk('par', 'self')
    parts = {f: fld(me, sh['var'], f) for f in names_of(F, a, sh['var'])}
    where = {f: [n for n, v in sh['fields'] if v is t] for f, t in parts.items()}
    for f, ns in where.items():
        ck.ob('%s: its %s is written once, as it is' % (name, f), len(ns) == 1, b['sp'], 'written: %s' % ', '.join('%s = %s' % (n, show(v)[:60]) for n, v in sh['fields']))
    names = [n for n, _ in sh['fields']]
    ck.ob('%s: names of its parts are distinct' % name, len(set(names)) == len(names), b['sp'], str(names))
    if sh['count'] is not None:
        ck.ob('%s: announces the number of its parts' % name, sh['count'] == len(names), b['sp'], '%s of %d' % (sh['count'], len(names)))
    sh['of'] = {ns[0]: f for f, ns in where.items() if ns}


def written(ck, b, a):
    """Trees a Serialize impl describes when nothing fails."""
    out = []
    enum = ck.F.adts[a]['kind'] == 'enum'
    for o in ck.session(display=True, opaque=nested(ck.F)).entry(b):
        if is_adt(o.ret, 'Err') or any(x == ('is', 'Err') for t, x in o.facts.v.items()):
            continue
        r = o.ret
        var = (o.facts.variant(mk('par', 'self')) or (len(ck.F.adts[a]['variants']) == 1 and ck.F.adts[a]['variants'][0]['name'] or None)) if enum else None
        sh = dict(kind=None, name=None, var=var, idx=None, label=None, fields=[], bad=None, count=None)
        if r.op != 'call':
            sh['bad'] = 'returns %s' % show(r)[:150]
            out.append(sh)
            continue
        m, x = last(r.a[0]), r.a[1]
        intof = lambda t: t.a[0] if t.op == 'int' else None
        if m == 'end':
            st = [t for t in subterms(r) if t.op == 'call' and last(t.a[0]) in ('serialize_struct', 'serialize_tuple_struct', 'serialize_struct_variant', 'serialize_tuple_variant')]
            if len(set(st)) != 1:
                sh['bad'] = show(r)[:150]
                out.append(sh)
                continue
            c = st[0]
            sh['kind'] = last(c.a[0])[len('serialize_'):]
            y = c.a[1]
            sh['name'] = text_of(y[1])
            if sh['kind'].endswith('variant'):
                sh['idx'], sh['label'] = intof(y[2]), text_of(y[3])
            sh['count'] = intof(y[-1])
            fs = [e for e in o.events if e.kind == 'call' and last(e.name) == 'serialize_field']
            named = sh['kind'].startswith('struct')
            sh['fields'] = [(text_of(e.args[1]) if named else str(i), e.args[-1]) for i, e in enumerate(fs)]
            if any(e.kind == 'call' and last(e.name) == 'skip_field' for e in o.events):
                sh['bad'] = 'leaves a part out under some condition'
            if any(e.kind == 'loop' for e in o.events):
                sh['bad'] = 'writes its parts in a loop'
        elif m == 'serialize_unit_variant':
            sh.update(kind='unit_variant', name=text_of(x[1]), idx=intof(x[2]), label=text_of(x[3]))
        elif m == 'serialize_newtype_variant':
            sh.update(kind='newtype_variant', name=text_of(x[1]), idx=intof(x[2]), label=text_of(x[3]), fields=[('0', x[4])])
        elif m == 'serialize_newtype_struct':
            sh.update(kind='newtype_struct', name=text_of(x[1]), fields=[('0', x[2])])
        elif m == 'serialize_unit_struct':
            sh.update(kind='unit_struct', name=text_of(x[1]))
        elif m == 'serialize':
            sh.update(kind='value', fields=[('0', x[0])])
        else:
            sh['bad'] = 'written with %s' % r.a[0]
        if repr(sh) not in [repr(z) for z in out]:
            out.append(sh)
    return out


def asked(F, body, method):
    """Local types a body asks the format for with the given method."""
    out = set()
    for blk in body['blocks']:
        t = blk['t']
        if t[0] == 'call' and t[1][0] == 'k' and t[1][1]['k'] == 'fn' and last(t[1][1]['f']['path']) == method:
            out |= {F.types[x]['id'] for x in t[1][1]['f'].get('args') or () if isinstance(x, int) and F.types[x]['k'] == 'adt'}
    return {a for a in out if a.startswith('hyperborealib')}


def visitor(F, v, m):
    if not is_adt(v):
        return None
    for a, im in impls_of(F, 'Visitor'):
        if a == v.a[0][1]:
            return impl_method(F, im, m)
    return None


_memo = {}


def entry(ck, b):
    """Outcomes of a generated reader on arbitrary input."""
    k = id(ck), id(b)
    if k not in _memo:
        _memo[k] = list(ck.session().entry(b))
    return _memo[k]


def identified(ck, F):
    """[(visitor impl, enums its identifiers belong to)]"""
    k = id(ck), 'ids'
    if k not in _memo:
        _memo[k] = []
        for a, im in impls_of(F, 'Visitor'):
            b = impl_method(F, im, 'visit_str')
            if b is not None:
                _memo[k].append((im, {p.a[0][1] for o in entry(ck, b) if is_adt(o.ret, 'Ok') for p in o.ret.a[1] if is_adt(p)}))
    return _memo[k]


def identifiers(ck, F, cands, what):
    """{identifier: visitor variant} the reader of field or variant names gives for each of what (names and numbers)."""
    for im, adts in identified(ck, F):
        vs = {m: impl_method(F, im, m) for m in ('visit_str', 'visit_u64')}
        if not adts & set(cands):
            continue
        out = {}
        for w in what:
            arg, m = (S(w), 'visit_str') if isinstance(w, str) else (I(w, 'u64'), 'visit_u64')
            if vs[m] is None:
                out[w] = None
                continue
            k = id(ck), id(vs[m]), w
            if k in _memo:
                out[w] = _memo[k]
                continue
            rs = {r.ret.a[1][0].a[0][2] if is_adt(r.ret, 'Ok') and is_adt(r.ret.a[1][0]) else None for r in ck.session().entry(vs[m], [mk('par', 'visitor'), arg])}
            out[w] = _memo[k] = rs.pop() if len(rs) == 1 else None
        return out
    return None


def parts(F, a, sh, order=False):
    """Own field for each written name, in the order written."""
    return [sh.get('of', {}).get(n) for n, _ in sh['fields']]


def reads(ck, F, o, a, sh):
    """None, or why the reader does not rebuild the value from the tree."""
    r = o.ret
    if is_adt(r, 'Err'):
        return None
    c = r
    if c.op != 'call':
        # transparent readers: Ok(T(field read))
        if is_adt(r, 'Ok') and sh['kind'] == 'value':
            return rebuilt(F, r.a[1][0], a, sh, {0: 'deserialize'})
        return 'reads %s' % show(r)[:150]
    m = last(c.a[0])
    if sh['kind'] == 'struct':
        if m != 'deserialize_struct':
            return 'written as a struct, read with %s' % m
        return as_struct(ck, F, c.a[1][-1], c.a[1][2], a, sh)
    if sh['kind'] == 'newtype_struct':
        if m != 'deserialize_newtype_struct':
            return 'written as a newtype, read with %s' % m
        vb = visitor(F, c.a[1][-1], 'visit_newtype_struct')
        if vb is None:
            return 'the visitor takes no newtype'
        return each_ok(ck, F, vb, a, sh, lambda f, t, q: rebuilt(F, t, a, sh, None))
    if sh['kind'] in ('tuple_struct',):
        if m != 'deserialize_tuple_struct':
            return 'written as a tuple struct, read with %s' % m
        return in_order(ck, F, c.a[1][-1], a, sh)
    if sh['kind'] == 'unit_struct':
        if m != 'deserialize_unit_struct':
            return 'written as a unit struct, read with %s' % m
        vb = visitor(F, c.a[1][-1], 'visit_unit')
        return 'the visitor takes no unit' if vb is None else each_ok(ck, F, vb, a, sh, lambda f, t, q: None)
    if sh['kind'] and sh['kind'].endswith('variant'):
        if m != 'deserialize_enum':
            return 'written as a variant, read with %s' % m
        vs = c.a[1][2]
        names = [text_of(t) for t in vs.a[1]] if vs.op == 'agg' else []
        if sh['label'] not in names:
            return 'variant %s is not among those read: %s' % (sh['label'], names)
        if sh['name'] != text_of(c.a[1][1]):
            return 'written under %s, read under %s' % (sh['name'], text_of(c.a[1][1]))
        return as_variant(ck, F, c.a[1][-1], a, sh)
    return 'written as %s, read with %s' % (sh['kind'], m)


def each_ok(ck, F, vb, a, sh, judge):
    n = 0
    for o in entry(ck, vb):
        for f, rv, pl in result_of(o):
            if rv != 'Ok':
                continue
            n += 1
            t = canon(f, pl[0])
            if not is_adt(t) or t.a[0][1] != a:
                return 'gives %s' % show(t)[:150]
            if sh['var'] is not None and t.a[0][2] != sh['var']:
                return '%s is read as %s' % (sh['var'], t.a[0][2])
            why = judge(f, t, o)
            if why:
                return why
    return None if n else 'the reader always fails'


def rebuilt(F, t, a, sh, _):
    """A newtype around what is read."""
    if not is_adt(t) or len(t.a[1]) != 1:
        return 'gives %s' % show(t)[:150]
    x = t.a[1][0]
    ok = x.op == 'fld' and x.a[1] == 'Ok' and x.a[0].op == 'call' and (last(x.a[0].a[0]).startswith('deserialize') or last(x.a[0].a[0]) == 'newtype_variant')
    return None if ok else 'the value is not the one read: %s' % show(x)[:150]


def in_order(ck, F, vis, a, sh):
    vb = visitor(F, vis, 'visit_seq')
    if vb is None:
        return 'the visitor takes no sequence'
    want = parts(F, a, sh)

    def judge(f, t, o):
        ev = [e for e in o.events if e.kind == 'call' and last(e.name) == 'next_element']
        fs = names_of(F, a, sh['var'])
        got = dict(zip(fs, t.a[1]))
        for i, (w, n) in enumerate(zip(want, sh['fields'])):
            if i >= len(ev):
                return 'element %d (%s) is not read' % (i, n[0])
            if f.variant(fld(ev[i].res, 'Ok', '0')) == 'None':
                return None     # a sequence shorter than the one written
            if got.get(w) is not fld(fld(ev[i].res, 'Ok', '0'), 'Some', '0'):
                return 'element %d, written from %s, is not what %s is read from' % (i, w, w)
        return None if len(ev) == len(want) else 'reads %d elements of %d' % (len(ev), len(want))
    return each_ok(ck, F, vb, a, sh, judge)


def converted(sh):
    """Written as another value, not as one of its own parts."""
    if sh['kind'] != 'value':
        return False
    t = sh['fields'][0][1]
    while t.op == 'fld':
        t = t.a[0]
    return t is not mk('par', 'self')


def converts(F, o, a, sh):
    """None if the reader of another value gives back this one for what is written, '' if this path is not taken for it."""
    w = sh['fields'][0][1]
    src = {t for t in list(o.facts.v) + [x for t in list(o.facts.b) + [o.ret] for x in subterms(t)] if t.op == 'call' and last(t.a[0]) == 'deserialize' and mk('par', '__deserializer') in t.a[1]}
    if len(src) != 1:
        return 'reads %d values' % len(src)
    r = src.pop()
    if o.facts.variant(r) == 'Err':
        return ''
    x = fld(r, 'Ok', '0')
    for f in o.facts.assume(TM.eq(x, w), True):
        for v in ('Ok', 'Err'):
            g = f if is_adt(o.ret, v) else None if is_adt(o.ret) else f.with_variant(o.ret, v)
            if g is None:
                continue
            if v == 'Err':
                return 'what is written is refused'
            t = canon(g, TM.rewrite(fld(o.ret, 'Ok', '0'), lambda y: w if y is x else None))
            if not is_adt(t, sh['var'], a) or any(p is not fld(mk('par', 'self'), sh['var'], n) for n, p in zip(names_of(F, a, sh['var']), t.a[1])):
                return 'gives %s' % show(t)[:150]
            return None
    return ''


def as_struct(ck, F, vis, fields, a, sh):
    names = [text_of(t) for t in fields.a[1]] if fields.op == 'agg' else []
    lost = [n for n, _ in sh['fields'] if n not in names]
    if lost:
        return 'written fields %s are not among those read: %s' % (lost, names)
    why = in_order(ck, F, vis, a, sh)
    if why:
        return why
    vb = visitor(F, vis, 'visit_map')
    if vb is None:
        return 'the visitor takes no map'
    want = parts(F, a, sh)

    def judge(f, t, o):
        lps = [e.data for e in o.events if e.kind == 'loop']
        if len(lps) != 1:
            return 'the fields are not read in one loop'
        lp = lps[0]
        slots = {}      # phi -> identifiers whose value it takes
        for i, st in enumerate(lp.paths):
            evs = since(st.events(), lp) or []
            ks = [e for e in evs if e.kind == 'call' and last(e.name) == 'next_key']
            vs = [e for e in evs if e.kind == 'call' and last(e.name) == 'next_value']
            if len(ks) != 1 or len(vs) != 1:
                return 'an entry is not read as one name and one value'
            k = st.facts.variant(fld(fld(ks[0].res, 'Ok', '0'), 'Some', '0'))
            v = fld(vs[0].res, 'Ok', '0')
            for ph, (init, backs) in lp.phis.items():
                b = backs[i]
                if is_adt(b, 'Some') and b.a[1][0] is v:
                    slots.setdefault(ph, set()).add(k)
        ids = identifiers(ck, F, asked(F, vb, 'next_key'), [n for n, _ in sh['fields']] + list(range(len(names))))
        if ids is None:
            return 'the reader of field names is not found'
        got = dict(zip(names_of(F, a, sh['var']), t.a[1]))
        phis = [ph for ph in lp.phis if ph in slots]
        if any(f.variant(ph) != 'Some' for ph in phis):
            return None      # a field is absent: never so in what is written
        for i, ((n, _), w) in enumerate(zip(sh['fields'], want)):
            x = got.get(w)
            if x is None or x.op != 'fld' or x.a[1] != 'Some' or x.a[0] not in slots:
                return '%s is not taken from what is read: %s' % (w, show(x)[:100] if x is not None else 'nothing')
            if slots[x.a[0]] != {ids[n]}:
                return 'the value named %s is not what %s is read from' % (n, w)
            if ids[i] != ids[n]:
                return 'field number %d is not %s' % (i, n)
        return None
    return each_ok(ck, F, vb, a, sh, judge)


def as_variant(ck, F, vis, a, sh):
    vb = visitor(F, vis, 'visit_enum')
    if vb is None:
        return 'the visitor takes no variants'
    hit = 0
    for o in entry(ck, vb):
        vc = [t for t in o.facts.v if t.op == 'call' and last(t.a[0]) == 'variant'] + [t for t in subterms(o.ret) if t.op == 'call' and last(t.a[0]) == 'variant']
        if not vc:
            continue
        tag = fld(fld(vc[0], 'Ok', '0'), None, '0')
        k = o.facts.variant(tag)
        ids = identifiers(ck, F, asked(F, vb, 'variant'), [sh['label'], sh['idx']])
        if ids is None:
            return 'the reader of variant names is not found'
        if ids[sh['label']] != ids[sh['idx']]:
            return 'number %s and name %s are different variants to the reader' % (sh['idx'], sh['label'])
        if k is None and len(F.adts[a]['variants']) > 1 or k is not None and ids[sh['label']] != k:
            continue
        access = fld(fld(vc[0], 'Ok', '0'), None, '1')
        r = o.ret
        if r.op == 'call' and last(r.a[0]) in ('struct_variant', 'tuple_variant') and r.a[1][0] is access:
            hit += 1
            if last(r.a[0]) != sh['kind']:
                return 'written as %s, read as %s' % (sh['kind'], last(r.a[0]))
            if sh['kind'] == 'struct_variant':
                why = as_struct(ck, F, r.a[1][-1], r.a[1][1], a, sh)
            else:
                why = in_order(ck, F, r.a[1][-1], a, sh)
            if why:
                return why
            continue
        for f, rv, pl in result_of(o):
            if rv != 'Ok':
                continue
            hit += 1
            t = canon(f, pl[0])
            if not is_adt(t) or t.a[0][1] != a or t.a[0][2] != sh['var']:
                return '%s is read as %s' % (sh['var'], show(t)[:100])
            acc = [u for u in list(f.v) + list(subterms(t)) if u.op == 'call' and last(u.a[0]).endswith('_variant') and u.a[1][0] is access]
            if {last(u.a[0]) for u in acc} != {sh['kind']}:
                return 'written as %s, read as %s' % (sh['kind'], sorted({last(u.a[0]) for u in acc}))
            if sh['kind'] == 'newtype_variant':
                why = rebuilt(F, t, a, sh, None)
                if why:
                    return why
    return None if hit else 'variant %s is never read' % sh['label']

"""Records hold what they are given: C57."""
from .base import *
from .misc import short_name
from .exact import is_text


@prop('C57', 'every public constructor of a local type is interpreted abstractly on arbitrary arguments: on every path the value built holds each argument (or its text) in the field of that name, of the record itself or of the one nested in it, and every argument is used; every accessor named after a field returns that field of the receiver; every hand-written comparison answers true only on paths where each field was found equal and false only where some field was found different, and every hand-written copy returns the receiver\'s own fields; derived ones do so by construction')
def c57(ck):
    F = ck.F
    for ty, a, name, b in all_inherent(F):
        if not b['exported'] or b['kind'] != 'AssocFn':
            continue
        params = [(b['locals'][i + 1][1] or 'arg%d' % i, b['locals'][i + 1][0]) for i in range(b['argc'])]
        if params and params[0][0] == 'self':
            if b['argc'] == 1:
                accessor(ck, F, ty, a, name, b)
        elif gives_self(F, b, a):
            constructor(ck, F, ty, a, name, b, params)
    comparisons(ck, F)
    copies(ck, F)
    ck.floor('constructors', 20)
    ck.floor('accessors', 3)
    ck.floor('comparisons', 15)
    ck.floor('copies', 20)


def fields_of(F, a):
    """{field: type} of a struct; {} for enums."""
    d = F.adts.get(a)
    if not d or len(d['variants']) != 1:
        return {}
    return {f['name']: f['ty'] for f in d['variants'][0]['fields']}


def gives_self(F, b, a):
    t = F.types[b['locals'][0][0]]
    return t['k'] == 'adt' and t['id'] == a


def local_value(F, ty):
    """A type of the library itself, taken by value, or an option of one."""
    t = F.types[ty]
    if t['k'] != 'adt':
        return False
    return t['id'].startswith('hyperborealib') or t['id'].endswith('::Option') and any(isinstance(x, int) and local_value(F, x) for x in t.get('args', t.get('ga', ())))


def kinds_named(F, t, name):
    """Enum values in an aggregate whose type has a variant of that name, outermost first."""
    todo = [t]
    while todo:
        hit = [x for x in todo if x.op == 'agg' and x.a[0][0] == 'adt' and x.a[0][1].startswith('hyperborealib') and len(F.adts[x.a[0][1]]['variants']) > 1
               and any(v['name'].lower() == name for v in F.adts[x.a[0][1]]['variants'])]
        if hit:
            return hit
        todo = [y for x in todo if x.op == 'agg' and x.a[0][0] == 'adt' for y in x.a[1]]
    return []


def nested(t, name):
    """Values of the outermost fields of that name in an aggregate and the local aggregates in it."""
    out, todo = [], [t]
    while todo:
        nxt = []
        for x in todo:
            if x.op != 'agg' or x.a[0][0] != 'adt':
                continue
            names = FIELDS.get(x.a[0][1], ({},))[0].get(x.a[0][2]) or ()
            for n, v in zip(names, x.a[1]):
                if n == name:
                    out.append(v)
                nxt.append(v)
        todo = nxt
        if out:
            return out
    return out


def constructor(ck, F, ty, a, name, b, params):
    who = '%s::%s' % (ty, name)
    ck.count('constructors')
    ses = ck.session()
    n = 0
    for o in ses.entry(b):
        ck.count('paths')
        n += 1
        t = o.ret
        for x in kinds_named(F, t, name.replace('_', '')):
            ck.ob('%s builds what it is named after' % who, x.a[0][2].lower() == name.replace('_', ''), b['sp'], show(x)[:200])
        for p, pt in params:
            v = mk('par', p)
            vs = [x for x in subterms(t) if x.op == 'par' and x.a[0] == p]
            held = nested(t, p)
            if held:
                ck.ob('%s: the value built holds the given %s' % (who, p), any(holds(o.facts, x, y) for x in held for y in vs + [v]), b['sp'], 'it holds %s' % show(held[0])[:200])
            elif is_adt(t) and local_value(F, pt):
                w = canon(o.facts, t)
                ck.ob('%s: the value built holds the given %s' % (who, p), any(holds(o.facts, x, v) for x in subterms(w)), b['sp'], show(t)[:200])
            elif is_adt(t):
                known = any(x.op == 'par' and x.a[0] == p for f in (o.facts.v, o.facts.b) for u in f for x in subterms(u))
                ck.ob('%s: the value built depends on the given %s' % (who, p), bool(vs) or known, b['sp'], show(t)[:200])
            else:
                raise AnalysisError('%s: what it builds is not understood: %s' % (who, show(t)[:200]))
    ck.ob('%s can build a value' % who, n > 0, b['sp'])


def holds(f, x, v):
    x = canon(f, x)
    if is_text(f, x, v) or same(f, x, v):
        return True
    if is_adt(x, 'Some') and x.op == 'agg':
        return holds(f, x.a[1][0], v) or holds(f, x.a[1][0], fld(v, 'Some', '0'))
    if f.variant(v) == 'None' and is_adt(x, 'None'):
        return True
    return False


def accessor(ck, F, ty, a, name, b):
    fs = fields_of(F, a)
    base = name[:-4] if name.endswith('_ref') else name
    if base not in fs:
        return
    who = '%s::%s' % (ty, name)
    ck.count('accessors')
    me = mk('par', 'self')
    for o in ck.session().entry(b):
        ck.count('paths')
        ck.ob('%s gives back the %s it holds' % (who, base), same(o.facts, o.ret, F_(me, base)), b['sp'], show(o.ret)[:200])


def variants_of(F, a):
    return [(v['name'], [f['name'] for f in v['fields']]) for v in F.adts[a]['variants']]


def swap(t, x, y):
    """t with x in place of y."""
    return TM.rewrite(t, lambda z: x if z is y else None)


def determines(t, x):
    """Different values of x give different values of t."""
    if t is x:
        return True
    if t.op in ('agg', 'tuple', 'ref'):
        return any(determines(u, x) for u in t.a[1] if isinstance(u, type(t)))
    if t.op == 'call' and t.a[0] in TM.INJECTIVE:
        return determines(t.a[1][0], x)
    return False


def seen_parts(f, v):
    """Parts of values of variant v the path knows something about."""
    return {t for u in list(f.b) + list(f.v) for t in subterms(u) if t.op == 'fld' and t.a[1] == v}


def payload(f, t, v):
    """How many parts a value of that variant has."""
    ns = [len(d[0][v]) for d in FIELDS.values() if d[1] and v in d[0]]
    return 0 if v == 'None' else min(ns) if ns else 1


def compared(f, val, fx, x, y, depth=0):
    """A fact 'what fx gives on x equals (val: does not equal) the same of y'."""
    fy = TM.rewrite(fx, lambda z: y if z is x else None)
    if f.eval(eq(fx, fy)) is val:
        return True
    vx, vy = f.variant(fx), f.variant(fy)
    for v, t in ((vx, fy), (vy, fx)):
        k = f.v.get(t)
        if v is not None and k is not None and k[0] == 'not' and v in k[1]:
            return not val
    if vx is not None and vy is not None and depth < 4:
        if vx != vy:
            return not val
        parts = [t for t in seen_parts(f, vx) if t.a[0] is fx]
        if not parts and payload(f, fx, vx) == 0:
            return val
        if val and parts and all(compared(f, val, t, x, y, depth + 1) for t in parts) or not val and any(compared(f, val, t, x, y, depth + 1) for t in parts):
            return True
    for t, v in f.b.items():
        if v is not val or t.op != 'eq' and not (t.op == 'call' and len(t.a[1]) == 2):
            continue
        l, r = t.a if t.op == 'eq' else t.a[1]
        for p, q in ((l, r), (r, l)):
            if any(z is fx for z in subterms(p)) and swap(q, x, y) is p and not (val and not determines(p, fx)):
                return True
    return False


def comparisons(ck, F):
    for a, im in impls_of(F, 'PartialEq'):
        if not a or not a.startswith('hyperborealib') or '::_::' in a or '{' in a:
            continue
        b = impl_method(F, im, 'eq')
        if b is None:
            continue
        ty = a.split('::')[-1]
        ck.count('comparisons')
        if b['derived']:
            ck.ob('%s: comparison looks at every part' % ty, True)
            continue
        x, y = mk('par', 'x'), mk('par', 'y')
        enum = len(F.adts[a]['variants']) > 1
        n = 0
        for o in ck.session(display=True).entry(b, [x, y]):
            ck.count('paths')
            for f, v in resolve_bool(o.facts, o.ret):
                n += v
                vx, vy = f.variant(x), f.variant(y)
                for name, fs in variants_of(F, a):
                    if enum and vx != name:
                        continue
                    if v and enum:
                        ck.ob('%s: different kinds are never equal' % ty, vx == vy or f.eval(eq(call('discr', (x,)), call('discr', (y,)))) is True, b['sp'], '; '.join(map(str, f.show()))[:200])
                    parts = [fld(x, name if enum else None, g) for g in fs]
                    if v:
                        for g, t in zip(fs, parts):
                            ck.ob('%s: equal values have the same %s' % (ty, g), compared(f, True, t, x, y), b['sp'], 'equal although only: %s' % '; '.join(map(str, f.show()))[:200])
                    elif not (enum and vx != vy):
                        ck.ob('%s: values with the same parts are equal' % ty, any(compared(f, False, t, x, y) for t in parts), b['sp'], 'different although: %s' % '; '.join(map(str, f.show()))[:200])
        ck.ob('%s: values can be equal' % ty, n > 0, b['sp'])


def copies(ck, F):
    for a, im in impls_of(F, 'Clone'):
        if not a or not a.startswith('hyperborealib') or '::_::' in a or '{' in a:
            continue
        b = impl_method(F, im, 'clone')
        if b is None:
            continue
        ty = a.split('::')[-1]
        ck.count('copies')
        if b['derived']:
            ck.ob('%s: a copy has the parts of its original' % ty, True)
            continue
        me = mk('par', 'self')
        for o in ck.session().entry(b):
            ck.count('paths')
            t = canon(o.facts, o.ret)
            if not is_adt(t) or t.op != 'agg' or t.a[0][1] != a:
                ck.ob('%s: a copy has the parts of its original' % ty, same(o.facts, t, me), b['sp'], show(t)[:200])
                continue
            v = t.a[0][2]
            enum = len(F.adts[a]['variants']) > 1
            if enum:
                ck.ob('%s: a copy has the kind of its original' % ty, o.facts.variant(me) == v, b['sp'], show(t)[:200])
            names = FIELDS[a][0][v]
            for g, w in zip(names, t.a[1]):
                ck.ob('%s: a copy has the %s of its original' % (ty, g), same(o.facts, w, fld(me, v if enum else None, g)), b['sp'], show(w)[:200])

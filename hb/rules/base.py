"""What every rule uses: sessions of the value-flow engine, term comparison, obligations, evidence."""
import json, os, re, time
from ..terms import *
from ..engine import Interp, Event, State, Frame, Call, AnalysisError, Outcome, norm
from .. import facts as FX
from .. import terms as TM

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OPAQUE = {'Router', 'MessagesInbox', 'HttpServer', 'Traversal', 'PortForwarder', 'AsJson'}
RULES = {}


def prop(pid, rule):
    def deco(f):
        RULES[pid] = (f, rule)
        return f
    return deco


class HB(Interp):
    """The engine with this crate's policy: driver traits and JSON conversions are boundaries."""

    def __init__(self, F, transparent=(), json_inline=None, display=False, opaque=()):
        tr = [t for t in F.traits if t.split('::')[-1] in OPAQUE - set(transparent)]
        super().__init__(F, opaque_traits=tr, opaque=opaque)
        self.json_inline = json_inline or (lambda t: False)
        self.expand_display = display
        self.built = []           # (adt id, variant, term, facts, chain) of every constructed aggregate of a watched type
        self.watch = set()

    def trait_policy(self, trait, method, targs, concrete):
        if trait.endswith('::AsJson') and targs and self.json_inline(targs[0]):
            return 'inline'
        return 'opaque'

    def opaque_effect(self, body):
        return False

    def rvalue(self, st, fr, r, dest):
        v = super().rvalue(st, fr, r, dest)
        if self.watch and r[0] == 'agg' and v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1] in self.watch:
            self.built.append((v.a[0][1], v.a[0][2], v, st.facts, fr))
        return v


# ------------------------------------------------------------------ finding things
def short_id(s):
    return re.sub(r'<.*?>', '', s)


def strip_generics(s):
    out, d = '', 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '<':
            d += 1
        elif ch == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out += ch
        i += 1
    return out.replace('::::', '::')


def adt_named(F, name):
    """Local type by its (unique) name."""
    r = [a for a in F.adts.values() if a['id'].startswith('hyperborealib::') and a['id'].split('::')[-1] == name]
    r = [a for a in r if '{' not in a['id'] and '::_::' not in a['id']] if len(r) > 1 else r
    if len(r) != 1:
        raise AnalysisError('expected exactly one type %s, found %d' % (name, len(r)))
    return r[0]


def self_adt(F, im):
    """Id of the ADT an impl is for (references peeled), or None."""
    t = F.types[im['self']] if isinstance(im.get('self'), int) else None
    while t and t['k'] == 'ref':
        t = F.types[t['el']]
    return t['id'] if t and t['k'] == 'adt' else None


def inherent(F, tyname, method, many=False):
    """The inherent method `method` of local type `tyname`."""
    out = []
    for im in F.impls.values():
        if im['trait']:
            continue
        a = self_adt(F, im)
        if not a or a.split('::')[-1] != tyname or not a.startswith('hyperborealib'):
            continue
        for it in im['items']:
            if it['name'] == method and it['id'] in F.bodies:
                out.append(F.bodies[it['id']])
    if many:
        return out
    if len(out) != 1:
        raise AnalysisError('expected exactly one method %s::%s, found %d' % (tyname, method, len(out)))
    return out[0]


def all_inherent(F, method=None):
    """[(type name, adt id, method name, body)] of all inherent methods."""
    out = []
    for im in F.impls.values():
        if im['trait']:
            continue
        a = self_adt(F, im)
        if not a or not a.startswith('hyperborealib'):
            continue
        for it in im['items']:
            if (method is None or it['name'] == method) and it['id'] in F.bodies:
                out.append((a.split('::')[-1], a, it['name'], F.bodies[it['id']]))
    return sorted(out, key=lambda x: (x[1], x[2]))


def trait_named(F, name):
    r = [t for t in F.traits if t.split('::')[-1] == name and t.startswith('hyperborealib')]
    if len(r) != 1:
        raise AnalysisError('expected exactly one trait %s, found %d' % (name, len(r)))
    return r[0]


def impls_of(F, trait):
    """[(adt id or None, impl)] of a trait (full path or last segment)."""
    out = []
    for tr, ims in F.impl_by_trait.items():
        if tr == trait or tr.split('::')[-1] == trait:
            for im in ims:
                out.append((self_adt(F, im), im))
    return sorted(out, key=lambda x: (x[0] or '', x[1]['id']))


def impl_method(F, im, name):
    for it in im['items']:
        if it['name'] == name and it['id'] in F.bodies:
            return F.bodies[it['id']]
    return None


def trait_method(F, trait, ty, method):
    """Body of `method` in the impl of `trait` for local type `ty` (both by last segment)."""
    r = [impl_method(F, im, method) for a, im in impls_of(F, trait) if a and a.split('::')[-1] == ty]
    r = [b for b in r if b is not None]
    if len(r) != 1:
        raise AnalysisError('expected exactly one %s::%s for %s, found %d' % (trait, method, ty, len(r)))
    return r[0]


def default_method(F, trait, method):
    t = F.traits[trait_named(F, trait)]
    for it in t['items']:
        if it['name'] == method and it['default'] and it['id'] in F.bodies:
            return F.bodies[it['id']]
    raise AnalysisError('no default method %s::%s' % (trait, method))


def free_fn(F, modpath, name):
    r = [b for b in F.bodies.values() if b['name'] == 'hyperborealib::%s::%s' % (modpath, name)]
    if len(r) != 1:
        r = [b for b in F.bodies.values() if b['kind'] == 'Fn' and b['name'].startswith('hyperborealib::') and b['name'].split('::')[-1] == name]
    if len(r) != 1:
        raise AnalysisError('expected exactly one function %s, found %d' % (name, len(r)))
    return r[0]


# ------------------------------------------------------------------ terms
def F_(t, path):
    """Field access by names: F_(request, '0.public_key')."""
    for n in path.split('.'):
        t = fld(t, None, n)
    return t


def newtypes(t):
    """Peel single-field struct wrappers off an aggregate."""
    while t.op == 'agg' and t.a[0][0] == 'adt' and len(t.a[1]) == 1 and t.a[0][2] == t.a[0][1].split('::')[-1]:
        t = t.a[1][0]
    return t


def verified(pk, msg, sign):
    """The term whose success means: `sign` verifies over `msg` under PublicKey `pk`."""
    return call('ecdsa_verify', (call('vk', (F_(pk, '0'),)), msg, sig_of(sign)))


def sig_of(sign):
    if sign.op == 'call' and sign.a[0] == 'sigbytes':
        return sign.a[1][0]
    return fld(call('sig_from', (sign,)), 'Ok', '0')


def signature(secret, msg):
    return call('sigbytes', (call('ecdsa_sign', (call('sk', (F_(secret, '0'),)), msg)),))


def pubkey_of(secret):
    return adt(PUBKEY[0], 'PublicKey', call('pubkey', (F_(secret, '0'),)))


PUBKEY = [None]


def be64(x):
    if x.op == 'call' and x.a[0] == 'from_be:u64':
        return x.a[1][0]
    return call('to_be_u64', (x,))


TOP = 1 << 63


def substitution(facts):
    """Known equalities of a path, as a term -> representative map."""
    m = {}
    for t, x in facts.b.items():
        if x is True and t.op == 'eq':
            a, b = t.a
            a, b = m.get(a, a), m.get(b, b)
            if a is b:
                continue
            # representative: constants first, then the older term
            if b.op in ('int', 'str', 'bytes', 'bool', 'char') or (a.op not in ('int', 'str', 'bytes', 'bool', 'char') and b.id < a.id):
                a, b = b, a
            m[b] = a
            for k, v in list(m.items()):
                if v is b:
                    m[k] = a
    for t, s in facts.s.items():
        m[t] = S(s)
    return m


def canon(facts, t):
    """Normal form of t under the equalities and variants known on the path."""
    m = substitution(facts) if facts is not None else {}
    for _ in range(4):
        n = rewrite(t, lambda x: m.get(x)) if m else t
        n = eta(n, facts)
        if n is t:
            break
        t = n
    return t


def eta(t, facts=None):
    """Collapse rebuilt aggregates: S { a: x.a, b: x.b } is x."""
    def f(x):
        if x.op == 'agg' and x.a[0][0] in ('adt', 'tuple') and x.a[1]:
            ops = [eta(o, facts) for o in x.a[1]]
            b0 = None
            for i, o in enumerate(ops):
                if o.op != 'fld':
                    b0 = None
                    break
                b, var, name = o.a
                if i == 0:
                    b0 = b
                if b is not b0 or (x.a[0][0] == 'adt' and not field_is(x.a[0], i, var, name)) or (x.a[0][0] == 'tuple' and (var is not None or str(name) != str(i))):
                    b0 = None
                    break
            if b0 is not None and covers(x.a[0], b0, len(ops), facts):
                return b0
            return agg(x.a[0], ops)
        return None
    return rewrite(t, f)




def field_is(kind, i, var, name):
    d = FIELDS.get(kind[1])
    if not d:
        return False
    fs, isenum = d
    v = fs.get(kind[2])
    if v is None or i >= len(v):
        return False
    return str(v[i]) == str(name) and (var == kind[2] if isenum else var is None)


def covers(kind, base, n, facts):
    if kind[0] == 'tuple':
        return n > 1
    d = FIELDS.get(kind[1])
    if not d or len(d[0][kind[2]]) != n:
        return False
    if d[1]:
        return facts is not None and facts.variant(base) == kind[2]
    return True


def init_fields(F):
    PUBKEY[0] = adt_named(F, 'PublicKey')['id']


def same(facts, a, b):
    if a is b:
        return True
    a, b = canon(facts, a), canon(facts, b)
    if a is b:
        return True
    if facts is not None:
        for x, y in ((a, b), (b, a)):
            # an enum value put together again from its parts
            if x.op == 'agg' and x.a[0][0] == 'adt' and x.a[1] and y.op not in ('agg', 'int') and facts.variant(y) == x.a[0][2] and covers(x.a[0], y, len(x.a[1]), facts):
                names = FIELDS[x.a[0][1]][0][x.a[0][2]]
                if all(same(facts, v, fld(y, x.a[0][2], n)) for v, n in zip(x.a[1], names)):
                    return True
    return facts is not None and facts.eval(eq(a, b)) is True


def proved(facts, pk, seed, sign):
    """Does the path know that the proof (seed, sign) under pk holds?  Returns None or the missing part."""
    if facts.interval(seed)[0] < TOP and facts.interval(canon(facts, seed))[0] < TOP:
        return 'the top bit of the proof seed is not checked'
    if sign_ok(facts, pk, be64(seed), sign):
        return None
    return 'the signature over the proof seed is not checked under the carried public key'


def sign_ok(facts, pk, msg, sign):
    """The path knows that `sign` verifies over `msg` under `pk`."""
    want = canon(facts, verified(pk, msg, sign))
    for t, x in facts.v.items():
        if t.op == 'call' and t.a[0] == 'ecdsa_verify' and x == ('is', 'Ok'):
            if t is want or canon(facts, t) is want:
                return True
    # a signature made by the library itself with the matching secret key
    return False


def resolve_bool(facts, b):
    """[(facts, True/False)]: the ways a boolean term can come out on a path."""
    out = []
    for v in (True, False):
        out += [(f, v) for f in facts.assume(b, v)]
    return out


def result_of(o):
    """[(facts, 'Ok'/'Err'/..., payload)] of an outcome returning a Result/Option."""
    t = o.ret
    if is_adt(t):
        return [(o.facts, t.a[0][2], list(t.a[1]))]
    out = []
    for v in ('Ok', 'Err'):
        f = o.facts.with_variant(t, v)
        if f is not None:
            out.append((f, v, [fld(t, v, '0')]))
    return out


# ------------------------------------------------------------------ running
class Session:
    """An engine with entry points started by rules."""

    def __init__(self, F, **k):
        self.F = F
        self.I = HB(F, **k)

    def entry(self, body, args=None, subst=None, st=None, names=None):
        return self.I.entry(body, args, subst, st, names)

    def apply(self, fterm, args, st=None):
        """Call a function value and drive the result to completion."""
        st = st.fork() if st else State()
        root = {'name': 'entry', 'sp': '?', 'id': 'entry'}
        fr = Frame(0, {'blocks': [], 'locals': []}, {}, root, 0)
        c = Call(self.I, fr, 0, None, [], None, '?')
        out = []
        for s, v in self.I.invoke(st, fr, c, fterm, list(args)):
            for s2, w in self.I.complete(s, fr, c, v):
                out.append(Outcome(s2, w))
        return out


    def display(self, v, t, st=None):
        """[Outcome] of the text v : t (raw type tuple) is displayed as."""
        from .. import models
        st = st.fork() if st else State()
        root = {'name': 'entry', 'sp': '?', 'id': 'entry'}
        fr = Frame(0, {'blocks': [], 'locals': []}, {}, root, 0)
        c = Call(self.I, fr, 0, None, [], None, '?')
        return [Outcome(s, x) for s, x in models.display(self.I, st, fr, c, v, t)]


# ------------------------------------------------------------------ results
class Check:
    def __init__(self, pid, tier, config='main'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obls = []          # (key, ok, what, where, detail)
        self.counts = {}
        self.notes = []
        self.samples = []
        self.sessions = []
        self._F = {}

    def facts(self, config='main'):
        if config not in self._F:
            self._F[config] = FX.get(config)
            init_fields(self._F[config])
        return self._F[config]

    @property
    def F(self):
        return self.facts()

    def session(self, config='main', **k):
        s = Session(self.facts(config), **k)
        self.sessions.append(s)
        return s

    def ob(self, key, ok, where='', detail=''):
        """One obligation; key identifies the construct, not the position."""
        self.obls.append((key, bool(ok), where, detail if not ok else ''))
        return bool(ok)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, minimum):
        if self.counts.get(name, 0) < minimum:
            raise AnalysisError('only %d %s found, at least %d expected: the rule no longer sees the code it is about' % (self.counts.get(name, 0), name, minimum))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:600])

    def violations(self):
        out, seen = [], {}
        for k, okk, where, detail in self.obls:
            if not okk and k not in seen:
                seen[k] = 1
                out.append((k, where, detail))
        return out

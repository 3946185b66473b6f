"""Hash-consed value terms (global value numbers) with normalising constructors."""


class Term:
    __slots__ = ('op', 'a', 'id', '_sub')

    def __repr__(self):
        return show(self)


_tab = {}
_all = []


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.a, t.id = op, a, len(_all)
        t._sub = None
        _tab[k] = t
        _all.append(t)
    return t


def subterms(t):
    """Set of all subterms of t (including t)."""
    if t._sub is None:
        s = {t}
        for x in t.a:
            if isinstance(x, Term):
                s |= subterms(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        s |= subterms(y)
        t._sub = frozenset(s)
    return t._sub


def children(t):
    for x in t.a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term):
                    yield y


def mentions(t, x):
    return x in subterms(t)


def rewrite(t, f, memo=None):
    """Bottom-up rewriting; f(term) -> replacement or None, applied top-down first."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        ch = False
        na = []
        for x in t.a:
            if isinstance(x, Term):
                y = rewrite(x, f, memo)
            elif isinstance(x, tuple) and any(isinstance(z, Term) for z in x):
                y = tuple(rewrite(z, f, memo) if isinstance(z, Term) else z for z in x)
            else:
                y = x
            ch = ch or (y is not x and y != x)
            na.append(y)
        r = rebuild(t.op, na) if ch else t
    memo[t] = r
    return r


def rebuild(op, a):
    if op == 'fld':
        return fld(*a)
    if op == 'cat':
        return cat(a)
    if op == 'bin':
        return binop(*a)
    if op == 'un':
        return unop(*a)
    if op == 'eq':
        return eq(*a)
    if op == 'cast':
        return cast(*a)
    if op == 'slice':
        return slice_(*a)
    if op == 'len':
        return length(*a)
    return mk(op, *a)


FIELDS = {}     # adt id -> ({variant: [field names]}, is enum)
DISCR = {}      # enum id -> {discriminant: variant name}


# ------------------------------------------------------------------ constructors
def I(v, ty='u64'):
    return mk('int', int(v), ty)


def B(v):
    return mk('bool', bool(v))


TRUE, FALSE = B(True), B(False)


def S(s):
    return mk('str', s)


def BY(b):
    return mk('bytes', bytes(b))


def agg(kind, ops):
    return mk('agg', kind, tuple(ops))


UNIT = agg(('tuple',), ())


def tup(*x):
    return agg(('tuple',), x)


def adt(aid, var, *ops):
    return agg(('adt', aid, var), ops)


OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
POLL = 'core::task::poll::Poll'
ORD = 'core::cmp::Ordering'


def some(x):
    return adt(OPT, 'Some', x)


NONE = adt(OPT, 'None')


def ok(x):
    return adt(RES, 'Ok', x)


def err(x):
    return adt(RES, 'Err', x)


def is_adt(t, var=None, aid=None):
    return t.op == 'agg' and t.a[0][0] == 'adt' and (var is None or t.a[0][2] == var) and (aid is None or t.a[0][1] == aid)


def fld(t, var, name, idx=None):
    """Field `name` of variant `var` (None: struct or tuple) of t."""
    if t.op == 'agg':
        k = t.a[0]
        if idx is None and str(name).isdigit():
            idx = int(name)
        if idx is None and k[0] == 'adt' and k[1] in FIELDS:
            fs = FIELDS[k[1]][0].get(k[2], ())
            if name in fs:
                idx = fs.index(name)
        if idx is not None and idx < len(t.a[1]):
            if k[0] == 'adt' and var is not None and k[2] != var:
                return mk('undef')
            return t.a[1][idx]
    if t.op == 'upd':
        base, key, val = t.a
        if key == (var, name):
            return val
        if isinstance(key, tuple):
            return fld(base, var, name, idx)
    return mk('fld', t, var, name)


def call(name, args, site=None, extra=()):
    """Result of an opaque call.  site None: a pure function of its arguments."""
    return mk('call', name, tuple(args), site, tuple(extra))


def one(x):
    return mk('one', x)


def cat(parts):
    """Concatenation of texts / byte strings / lists; `one(x)` is a single list element."""
    out = []
    for p in parts:
        if p.op == 'cat':
            ps = p.a
        elif p.op == 'str' and p.a[0] == '':
            ps = ()
        elif p.op == 'bytes' and not p.a[0]:
            ps = ()
        elif p.op == 'agg' and p.a[0][0] == 'array':
            ps = tuple(one(x) for x in p.a[1])
        else:
            ps = (p,)
        for q in ps:
            if out and q.op == 'str' and out[-1].op == 'str':
                out[-1] = S(out[-1].a[0] + q.a[0])
            elif out and q.op == 'bytes' and out[-1].op == 'bytes':
                out[-1] = BY(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if len(out) == 1 and out[0].op != 'one':
        return out[0]
    return mk('cat', *out)


EMPTY = mk('cat')


def is_empty(t):
    return t is EMPTY or (t.op == 'str' and t.a[0] == '') or (t.op == 'bytes' and not t.a[0]) or (t.op == 'agg' and t.a[0][0] == 'array' and not t.a[1])


def bits_of(ty):
    return {'usize': 64, 'isize': 64, 'bool': 1, 'char': 32}.get(ty) or int(ty[1:])


def signed(ty):
    return ty.startswith('i')


def wrap(v, ty):
    n = bits_of(ty)
    v &= (1 << n) - 1
    if signed(ty) and v >> (n - 1):
        v -= 1 << n
    return v


def cast(t, ty):
    if t.op == 'int':
        return I(wrap(t.a[0], ty), ty)
    if t.op == 'bool':
        return I(int(t.a[0]), ty)
    if t.op == 'cast' and t.a[1] == ty:
        return t
    return mk('cast', t, ty)


def term_int_ty(t):
    if t.op == 'int':
        return t.a[1]
    if t.op == 'cast':
        return t.a[1]
    if t.op == 'bin':
        return t.a[3]
    if t.op == 'len':
        return 'usize'
    if t.op == 'phi':
        return t.a[2]
    if t.op == 'ity':
        return t.a[1]
    if t.op == 'par' and len(t.a) > 1:
        return t.a[1]
    if t.op == 'call' and isinstance(t.a[0], str):
        n = t.a[0]
        if ':' in n and n.rsplit(':', 1)[1] in INTS:
            return n.rsplit(':', 1)[1]
        return INT_OF_CALL.get(n)
    return None


INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}
INT_OF_CALL = {}


ARITH = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b,
         'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b}


def binop(op, a, b, ty=None):
    """ty: integer type of the operands (for arithmetic) ."""
    if op in ('Eq', 'Ne'):
        e = eq(a, b)
        return e if op == 'Eq' else unop('Not', e)
    if op in ('Gt', 'Ge'):
        return binop({'Gt': 'Lt', 'Ge': 'Le'}[op], b, a, ty)
    if op == 'Le':     # a <= b  ==  !(b < a)
        return unop('Not', binop('Lt', b, a, ty))
    if op == 'Lt':     # terms denote mathematical integers: the operand type does not matter
        ty = None
    if a.op == 'int' and b.op == 'int':
        x, y = a.a[0], b.a[0]
        if op == 'Lt':
            return B(x < y)
        t = ty or a.a[1]
        if op in ARITH:
            return I(wrap(ARITH[op](x, y), t), t)
        if op == 'Shl':
            return I(wrap(x << (y & (bits_of(t) - 1)), t), t)
        if op == 'Shr':
            return I(wrap(x >> (y & (bits_of(t) - 1)), t), t)
        if op == 'Div' and y:
            return I(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), t)
        if op == 'Rem' and y:
            return I(abs(x) % abs(y) * (1 if x >= 0 else -1), t)
    if a.op == 'bool' and b.op == 'bool' and op in ARITH:
        return B(ARITH[op](int(a.a[0]), int(b.a[0])) & 1)
    if op in ('BitAnd', 'BitOr') and 'bool' in (a.op, b.op):
        c, o = (a, b) if a.op == 'bool' else (b, a)
        if op == 'BitAnd':
            return o if c.a[0] else FALSE
        return TRUE if c.a[0] else o
    if op == 'BitXor' and 'bool' in (a.op, b.op):
        c, o = (a, b) if a.op == 'bool' else (b, a)
        return unop('Not', o) if c.a[0] else o
    if op in ('Add', 'Sub', 'BitOr', 'BitXor', 'Shl', 'Shr') and b.op == 'int' and b.a[0] == 0:
        return a
    if op in ('Add', 'BitOr', 'BitXor') and a.op == 'int' and a.a[0] == 0:
        return b
    if op in ('Add', 'BitAnd', 'BitOr', 'BitXor', 'Mul') and (b.id < a.id):
        a, b = b, a
    return mk('bin', op, a, b, ty)


def unop(op, a, ty=None):
    if op == 'Not':
        if a.op == 'bool':
            return B(not a.a[0])
        if a.op == 'un' and a.a[0] == 'Not':
            return a.a[1]
        if a.op == 'int':
            return I(wrap(~a.a[0], a.a[1]), a.a[1])
    if op == 'Neg' and a.op == 'int':
        return I(wrap(-a.a[0], a.a[1]), a.a[1])
    return mk('un', op, a)


# functions whose equality of results is equality of arguments
INJECTIVE = set()


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'iter' and b.op == 'iter' and a.a[1] is b.a[1] and a.a[1].op == 'int' and a.a[1].a[0] == 0:
        return eq(a.a[0], b.a[0])
    if a.op == 'agg' and b.op == 'agg':
        ka, kb = a.a[0], b.a[0]
        if ka[0] == 'adt' and kb[0] == 'adt':
            if ka[1] == kb[1] and ka[2] != kb[2]:
                return FALSE
        if ka[0] in ('adt', 'tuple', 'array') and ka[0] == kb[0] and len(a.a[1]) == len(b.a[1]):
            r = TRUE
            for x, y in zip(a.a[1], b.a[1]):
                r = binop('BitAnd', r, eq(x, y))
            return r
    consts = ('int', 'str', 'bytes', 'bool', 'char')
    if a.op in consts and b.op in consts:
        if a.op == b.op:
            return B(a.a[0] == b.a[0])
        if {a.op, b.op} == {'str', 'bytes'}:
            x = a.a[0].encode() if a.op == 'str' else a.a[0]
            y = b.a[0].encode() if b.op == 'str' else b.a[0]
            return B(x == y)
    if b.op == 'bool':
        a, b = b, a
    if a.op == 'bool':
        return b if a.a[0] else unop('Not', b)
    if a.op == 'call' and b.op == 'call' and a.a[0] == b.a[0] and a.a[0] in INJECTIVE and len(a.a[1]) == len(b.a[1]):
        r = TRUE
        for x, y in zip(a.a[1], b.a[1]):
            r = binop('BitAnd', r, eq(x, y))
        return r
    if {a.op, b.op} & {'cat', 'str'} and (is_empty(a) or is_empty(b)):
        o = b if is_empty(a) else a
        if o.op == 'cat' and any(p.op in ('str', 'one') for p in o.a):
            return FALSE
        return mk('eq', EMPTY, o) if o is not EMPTY else TRUE
    if b.op in consts and a.op not in consts:
        a, b = b, a
    elif a.op not in consts and b.id < a.id:
        a, b = b, a
    return mk('eq', a, b)


def length(t):
    n = known_len(t)
    if n is not None:
        return I(n, 'usize')
    if t.op == 'slice':
        b, lo, hi = t.a
        if hi is not None:
            return binop('Sub', hi, lo, 'usize')
        return binop('Sub', length(b), lo, 'usize')
    return mk('len', t)


LEN_OF_CALL = {}


def known_len(t):
    """Constant byte/element length of a term, if known from its form."""
    if t.op == 'bytes':
        return len(t.a[0])
    if t.op == 'str':
        return len(t.a[0].encode())
    if t.op == 'agg' and t.a[0][0] == 'array':
        return len(t.a[1])
    if t.op == 'repeat':
        return t.a[1]
    if t.op == 'one':
        return 1
    if t.op == 'cat':
        s = 0
        for p in t.a:
            n = known_len(p)
            if n is None:
                return None
            s += n
        return s
    if t.op == 'call' and t.a[0] in LEN_OF_CALL:
        return LEN_OF_CALL[t.a[0]]
    if t.op == 'slice' and t.a[1].op == 'int' and t.a[2] is not None and t.a[2].op == 'int':
        return t.a[2].a[0] - t.a[1].a[0]
    if t.op == 'slice' and t.a[1].op == 'int' and t.a[2] is None:
        n = known_len(t.a[0])
        if n is not None:
            return n - t.a[1].a[0]
    if t.op == 'arr':     # array of statically known length wrapped around an opaque value
        return t.a[1]
    return None


def slice_(t, lo, hi):
    """t[lo..hi]; hi None: to the end."""
    n = known_len(t)
    if hi is not None and n is not None and hi.op == 'int' and hi.a[0] == n:
        hi = None
    if hi is not None and hi is length(t):
        hi = None
    if lo.op == 'int' and lo.a[0] == 0 and hi is None:
        return t
    if t.op == 'slice':
        b, l0, h0 = t.a
        nl = binop('Add', l0, lo, 'usize')
        nh = binop('Add', l0, hi, 'usize') if hi is not None else h0
        return slice_(b, nl, nh)
    if t.op == 'str' and lo.op == 'int' and (hi is None or hi.op == 'int') and t.a[0].isascii() and lo.a[0] <= (hi.a[0] if hi is not None else len(t.a[0])) <= len(t.a[0]):
        return S(t.a[0][lo.a[0]:hi.a[0] if hi is not None else None])
    if lo.op == 'int' and (hi is None or hi.op == 'int'):
        l, h = lo.a[0], (hi.a[0] if hi is not None else None)
        if t.op == 'cat':
            pos, out = 0, []
            okk = True
            for p in t.a:
                m = known_len(p)
                if h is not None and pos >= h:
                    break
                if pos >= l:
                    if h is None or (m is not None and pos + m <= h):
                        out.append(p)
                        pos = pos + m if m is not None else None
                        if pos is None:
                            if h is not None:
                                okk = False
                                break
                            pos = 1 << 60
                        continue
                    if m is None:
                        okk = False
                        break
                    out.append(slice_(p, I(0, 'usize'), I(h - pos, 'usize')))
                    pos += m
                    continue
                if m is None:
                    okk = False
                    break
                if pos + m <= l:
                    pos += m
                    continue
                e = None if h is None or pos + m <= h else I(h - pos, 'usize')
                out.append(slice_(p, I(l - pos, 'usize'), e))
                pos += m
            if okk:
                return cat(out)
        if t.op == 'bytes':
            return BY(t.a[0][l:h])
        if t.op == 'repeat' and h is not None:
            return mk('repeat', t.a[0], h - l)
        if t.op == 'repeat':
            return mk('repeat', t.a[0], t.a[1] - l)
        if t.op == 'agg':
            return agg(('array',), t.a[1][l:h])
    if hi is not None and hi is lo:
        return EMPTY
    return mk('slice', t, lo, hi)


# ------------------------------------------------------------------ printing
def short(s):
    s = str(s)
    return s.split('::')[-1] if '::' in s and not s.startswith('<') else s


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    o, a = t.op, t.a
    if d > 14:
        return '…'
    if o == 'int':
        return str(a[0])
    if o in ('str', 'bool', 'bytes'):
        return repr(a[0])
    if o == 'agg':
        k = a[0]
        n = {'adt': lambda: short(k[1]) + ('::' + k[2] if k[2] else ''), 'tuple': lambda: '', 'array': lambda: '#'}.get(k[0], lambda: k[0] + ':' + short(k[1]))()
        return '%s(%s)' % (n, ', '.join(show(x, d + 1) for x in a[1]))
    if o == 'fld':
        b = show(a[0], d + 1)
        if a[1]:
            return '%s.%s!%s' % (b, a[1], a[2])
        return '%s.%s' % (b, a[2])
    if o == 'call':
        nm = a[0] if isinstance(a[0], str) else '%s<%s>' % (a[0][0], ','.join(map(str, a[0][1:])))
        return '%s(%s)%s' % (nm, ', '.join(show(x, d + 1) for x in a[1]), '' if a[2] is None else '@%s' % (a[2],))
    if o == 'par':
        return '$' + str(a[0])
    if o == 'cat':
        return '[' + ' ++ '.join(show(x, d + 1) for x in a) + ']'
    if o == 'one':
        return '‹%s›' % show(a[0], d + 1)
    if o == 'eq':
        return '(%s == %s)' % (show(a[0], d + 1), show(a[1], d + 1))
    if o == 'bin':
        return '(%s %s %s)' % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if o == 'un':
        return '%s(%s)' % (a[0], show(a[1], d + 1))
    if o == 'slice':
        return '%s[%s..%s]' % (show(a[0], d + 1), show(a[1], d + 1), '' if a[2] is None else show(a[2], d + 1))
    if o == 'ref':
        return '&mut(%s)' % (a,)
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) if isinstance(x, Term) else ('(%s)' % ', '.join(show(y, d + 1) for y in x) if isinstance(x, tuple) else str(x)) for x in a))

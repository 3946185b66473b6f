"""Path facts: what is known about value terms on a path (variants, truth values, intervals)."""
from .terms import *

INF = float('inf')


def discr_eq(a, b):
    """(term, variant, enum) when a == b compares a discriminant with a constant."""
    for x, y in ((a, b), (b, a)):
        while y.op == 'cast':
            y = y.a[0]
        if x.op == 'int' and y.op == 'discr' and y.a[1] in DISCR:
            n = DISCR[y.a[1]].get(wrap(x.a[0], 'i64'))
            if n:
                return y.a[0], n, y.a[1]
    return None


def in_type(lo, hi, ty):
    """an interval cut to the values of an integer type"""
    if not ty or not isinstance(ty, str) or not (ty in ('usize', 'isize') or ty[1:].isdigit()):
        return lo, hi
    n = bits_of(ty)
    l, h = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed(ty) else (0, (1 << n) - 1)
    return max(lo, l), min(hi, h)


class Facts:
    """Immutable."""
    __slots__ = ('v', 'b', 'r', 's')

    def __init__(self, v=None, b=None, r=None, s=None):
        self.v = v or {}      # term -> ('is', V) | ('not', frozenset)
        self.b = b or {}      # bool term -> bool
        self.r = r or {}      # int term -> (lo, hi, frozenset excluded)
        self.s = s or {}      # text term -> constant text

    def variant(self, t):
        if t.op == 'agg' and t.a[0][0] == 'adt':
            return t.a[0][2]
        x = self.v.get(t)
        return x[1] if x and x[0] == 'is' else None

    def is_(self, t, V):
        return self.variant(t) == V

    def with_variant(self, t, V):
        x = self.v.get(t)
        if t.op == 'agg' and t.a[0][0] == 'adt':
            return self if t.a[0][2] == V else None
        if x:
            if x[0] == 'is':
                return self if x[1] == V else None
            if V in x[1]:
                return None
        v = dict(self.v)
        v[t] = ('is', V)
        return Facts(v, self.b, self.r, self.s)

    def without_variants(self, t, Vs, all_vs):
        if t.op == 'agg' and t.a[0][0] == 'adt':
            return self if t.a[0][2] not in Vs else None
        x = self.v.get(t)
        if x and x[0] == 'is':
            return self if x[1] not in Vs else None
        ex = frozenset(Vs) | (x[1] if x else frozenset())
        rest = [w for w in all_vs if w not in ex]
        if not rest:
            return None
        v = dict(self.v)
        v[t] = ('is', rest[0]) if len(rest) == 1 else ('not', ex)
        return Facts(v, self.b, self.r, self.s)

    def with_bool(self, t, val):
        b = dict(self.b)
        b[t] = val
        return Facts(self.v, b, self.r, self.s)

    def with_range(self, t, lo, hi, ex=frozenset()):
        r = dict(self.r)
        r[t] = (lo, hi, ex)
        return Facts(self.v, self.b, r, self.s)

    # ---- intervals
    def pair(self, a, b):
        """intervals of the two sides of a comparison: both have one type, which a literal tells"""
        la, ha = self.interval(a)
        lb, hb = self.interval(b)
        if a.op == 'int':
            lb, hb = in_type(lb, hb, a.a[1])
        if b.op == 'int':
            la, ha = in_type(la, ha, b.a[1])
        return la, ha, lb, hb

    def interval(self, t, depth=0):
        lo, hi = -INF, INF
        ty = term_int_ty(t)
        if t.op == 'int':
            return t.a[0], t.a[0]
        if t.op == 'bool':
            return int(t.a[0]), int(t.a[0])
        if t.op == 'par' and len(t.a) > 1 and t.a[1]:
            ty = t.a[1]
        if t.op == 'ity':
            ty = t.a[1]
        if ty and (ty in ('usize', 'isize', 'bool', 'char') or ty[1:].isdigit()):
            n = bits_of(ty)
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed(ty) else (0, (1 << n) - 1)
        if depth < 8:
            if t.op == 'bin':
                op, a, b, ty = t.a
                la, ha = self.interval(a, depth + 1)
                lb, hb = self.interval(b, depth + 1)
                la, ha = in_type(la, ha, ty)
                if op not in ('Shl', 'Shr'):
                    lb, hb = in_type(lb, hb, ty)
                uns = ty and not signed(ty)
                tlo, thi = lo, hi
                if op == 'BitOr' and uns:
                    nlo = max(la, lb, 0)
                    lo = max(lo, nlo)
                elif op == 'BitAnd' and uns:
                    hi = min(hi, max(ha, 0), max(hb, 0))
                elif op == 'Shr' and uns and b.op == 'int':
                    if ha != INF:
                        hi = min(hi, ha >> b.a[0])
                    if la not in (-INF,):
                        lo = max(lo, max(la, 0) >> b.a[0])
                elif op == 'Shl' and b.op == 'int' and ha != INF and uns:
                    if (ha << b.a[0]) <= thi:
                        lo, hi = max(lo, max(la, 0) << b.a[0]), min(hi, ha << b.a[0])
                elif op == 'Add' and (ha + hb) <= thi and (la + lb) >= tlo:
                    lo, hi = max(lo, la + lb), min(hi, ha + hb)
                elif op == 'Sub' and (la - hb) >= tlo and (ha - lb) <= thi:
                    lo, hi = max(lo, la - hb), min(hi, ha - lb)
                elif op == 'Rem' and b.op == 'int' and uns:
                    hi = min(hi, b.a[0] - 1)
                elif op == 'Div' and b.op == 'int' and b.a[0] > 0 and uns and ha != INF:
                    lo, hi = max(lo, max(la, 0) // b.a[0]), min(hi, ha // b.a[0])
                elif op == 'Mul' and uns and la >= 0 and lb >= 0 and ha * hb <= thi:
                    lo, hi = max(lo, la * lb), min(hi, ha * hb)
            elif t.op == 'cast':
                la, ha = self.interval(t.a[0], depth + 1)
                if la >= lo and ha <= hi:
                    lo, hi = la, ha
            elif t.op == 'len':
                lo, hi = 0, (1 << 63) - 1
                if t.a[0].op == 'cat':
                    s = 0
                    for p in t.a[0].a:
                        n = known_len(p)
                        s += n if n is not None else self.interval(length(p), depth + 1)[0]
                    lo = max(lo, s)
            elif t.op == 'call' and t.a[0] in ('min', 'max'):
                la, ha = self.interval(t.a[1][0], depth + 1)
                lb, hb = self.interval(t.a[1][1], depth + 1)
                f = min if t.a[0] == 'min' else max
                lo, hi = max(lo, f(la, lb)), min(hi, f(ha, hb))
        x = self.r.get(t)
        if x:
            lo, hi = max(lo, x[0]), min(hi, x[1])
            while lo in x[2]:
                lo += 1
            while hi in x[2]:
                hi -= 1
        return lo, hi

    def excl(self, t):
        x = self.r.get(t)
        return x[2] if x else frozenset()

    # ---- evaluation of bool terms: True / False / None
    def eval(self, t, depth=0):
        if t.op == 'bool':
            return t.a[0]
        if t in self.b:
            return self.b[t]
        if depth > 8:
            return None
        if t.op == 'un' and t.a[0] == 'Not':
            x = self.eval(t.a[1], depth + 1)
            return None if x is None else not x
        if t.op == 'eq':
            a, b = t.a
            dv = discr_eq(a, b)
            if dv:
                x = self.v.get(dv[0])
                if x is None:
                    return None
                return (x[1] == dv[1]) if x[0] == 'is' else (False if dv[1] in x[1] else None)
            if a.op == 'str' and b.op == 'str':
                return a.a[0] == b.a[0]
            for x, y in ((a, b), (b, a)):
                if y.op == 'str' and x in self.s:
                    return self.s[x] == y.a[0]
            if a in self.s and b in self.s:
                return self.s[a] == self.s[b]
            va, vb = self.variant(a), self.variant(b)
            if va and vb and va != vb and (va is not None):
                return False
            for x, y in ((a, b), (b, a)):
                if y.op == 'int':
                    lo, hi = self.interval(x)
                    if lo == hi == y.a[0]:
                        return True
                    if y.a[0] < lo or y.a[0] > hi or y.a[0] in self.excl(x):
                        return False
            if is_empty(a):
                lo, hi = self.interval(length(b)) if b.op not in ('int', 'bool') else (0, INF)
                if lo > 0:
                    return False
            la, ha = self.interval(a) if self._num(a) else (-INF, INF)
            lb, hb = self.interval(b) if self._num(b) else (-INF, INF)
            if ha < lb or hb < la:
                return False
            if va and va == vb and a.op != 'agg' and b.op != 'agg' and (a, va) in NULLARY or (va and va == vb and self._nullary(a, b)):
                return True
            return None
        if t.op == 'bin':
            op, a, b, ty = t.a
            if op == 'Lt':
                la, ha, lb, hb = self.pair(a, b)
                if ha < lb:
                    return True
                if la >= hb:
                    return False
                # a < b refuted by a known b < a
                r = self.b.get(mk('bin', 'Lt', b, a, ty))
                if r is True:
                    return False
                return None
            if op in ('BitAnd', 'BitOr'):
                x, y = self.eval(a, depth + 1), self.eval(b, depth + 1)
                if op == 'BitAnd':
                    if x is False or y is False:
                        return False
                    if x and y:
                        return True
                else:
                    if x or y:
                        return True
                    if x is False and y is False:
                        return False
        return None

    def _num(self, t):
        return t in self.r or term_int_ty(t) is not None or t.op in ('int',)

    def _nullary(self, a, b):
        for x in (a, b):
            if x.op == 'agg' and x.a[0][0] == 'adt' and not x.a[1]:
                return True
        return False

    # ---- assumption: list of refined fact sets (empty: contradiction)
    def assume(self, t, val):
        c = self.eval(t)
        if c is not None:
            return [self] if c == val else []
        if t.op == 'un' and t.a[0] == 'Not':
            return self.assume(t.a[1], not val)
        if t.op == 'eq':
            dv = discr_eq(*t.a)
            if dv:
                f = self.with_variant(dv[0], dv[1]) if val else self.without_variants(dv[0], [dv[1]], list(DISCR[dv[2]].values()))
                return [f] if f is not None else []
        if t.op == 'bin' and t.a[0] in ('BitAnd', 'BitOr'):
            op, a, b, _ = t.a
            conj = (op == 'BitAnd') == val
            if conj:
                return [g for f in self.assume(a, val) for g in f.assume(b, val)]
            out = list(self.assume(a, val))
            for f in self.assume(a, not val):
                out += f.assume(b, val)
            return out
        if t.op == 'bin' and t.a[0] == 'BitXor':
            op, a, b, _ = t.a
            out = []
            for va in (True, False):
                for f in self.assume(a, va):
                    out += f.assume(b, va ^ val)
            return out
        f = self
        if t.op == 'eq':
            a, b = t.a
            for x, y in ((a, b), (b, a)):
                if y.op == 'int':
                    c = y.a[0]
                    f = f._int_eq(x, c, val)
                    if f is None:
                        return []
                    break
                if y.op == 'str' and val:
                    s = dict(f.s)
                    s[x] = y.a[0]
                    f = Facts(f.v, f.b, f.r, s)
                    break
                if y.op == 'agg' and y.a[0][0] == 'adt' and y.a[0][2] and val:
                    f = f.with_variant(x, y.a[0][2])
                    if f is None:
                        return []
                    break
                if y.op == 'agg' and y.a[0][0] == 'adt' and y.a[0][2] and not y.a[1] and not val:
                    # nullary variant excluded (the remaining variants are not known here)
                    o = f.v.get(x)
                    v = dict(f.v)
                    v[x] = ('not', (o[1] if o else frozenset()) | {y.a[0][2]})
                    f = Facts(v, f.b, f.r, f.s)
                    break
                if is_empty(y):
                    f = f._int_eq(length(x), 0, val)
                    if f is None:
                        return []
                    break
        elif t.op == 'bin' and t.a[0] == 'Lt':
            _, a, b, ty = t.a
            f = f._lt(a, b, val)
            if f is None:
                return []
        return [f.with_bool(t, val)]

    def _narrow(self, t, lo, hi, ex=None):
        l0, h0 = self.interval(t)
        if t.op == 'int':
            return self if lo <= t.a[0] <= hi and not (ex and t.a[0] in ex) else None
        e = self.excl(t) | (ex or frozenset())
        l, h = max(lo, l0), min(hi, h0)
        while l in e:
            l += 1
        while h in e:
            h -= 1
        if l > h:
            return None
        f = self.with_range(t, l, h, e)
        # known bits / linear propagation to the operands
        if t.op == 'bin':
            op, a, b, ty = t.a
            uns = ty and not signed(ty)
            if op == 'Shr' and b.op == 'int' and uns and l > 0:
                return f._narrow(a, l << b.a[0], INF)
            if op == 'Shr' and b.op == 'int' and uns and h >= 0 and h < INF:
                return f._narrow(a, -INF, ((h + 1) << b.a[0]) - 1)
            if op == 'BitAnd' and uns:
                for x, m in ((a, b), (b, a)):
                    if m.op == 'int' and m.a[0] and (m.a[0] & (m.a[0] - 1)) == 0 and l > 0:
                        top = m.a[0]
                        if top == 1 << (bits_of(ty) - 1):
                            return f._narrow(x, top, INF)
                        return f._narrow(x, top, INF) if False else f
                    if m.op == 'int' and m.a[0] == 1 << (bits_of(ty) - 1) and h == 0:
                        return f._narrow(x, 0, m.a[0] - 1)
            if op == 'Add':
                for x, c in ((a, b), (b, a)):
                    if c.op == 'int':
                        la, ha = f.interval(x)
                        if ha + c.a[0] < INF and ty and ha + c.a[0] <= (1 << bits_of(ty)) - 1:
                            return f._narrow(x, l - c.a[0], h - c.a[0])
        if t.op == 'cast':
            a, ty = t.a
            la, ha = f.interval(a)
            if signed(ty) and h < 0:
                n = bits_of(ty)
                if la >= 0:
                    return f._narrow(a, 1 << (n - 1), INF)
            elif signed(ty) and l >= 0:
                n = bits_of(ty)
                if la >= 0 and ha <= (1 << n) - 1:
                    return f._narrow(a, 0, (1 << (n - 1)) - 1)
            elif la >= 0 and ha < (1 << bits_of(ty)):
                return f._narrow(a, l, h)
        if t.op == 'call' and t.a[0] == 'leading_zeros' and h == 0:
            return f._narrow(t.a[1][0], 1 << 63, INF)
        if t.op == 'call' and t.a[0] == 'leading_zeros' and l > 0:
            return f._narrow(t.a[1][0], -INF, (1 << 63) - 1)
        return f

    def _int_eq(self, t, c, val):
        if val:
            return self._narrow(t, c, c)
        return self._narrow(t, -INF, INF, frozenset([c])) if len(self.excl(t)) < 64 else self

    def _lt(self, a, b, val):
        f = self
        la, ha, lb, hb = f.pair(a, b)
        if val:      # a < b
            f = f._narrow(a, la, min(ha, hb - 1)) if hb != INF or la != -INF else f
            if f is None:
                return None
            return f._narrow(b, max(lb, la + 1), hb) if la != -INF or hb != INF else f
        # b <= a
        f = f._narrow(a, max(la, lb), ha) if lb != -INF or ha != INF else f
        if f is None:
            return None
        return f._narrow(b, lb, min(hb, ha)) if ha != INF or lb != -INF else f

    # ---- join
    def meet(self, o):
        """Facts that hold in both (used at control-flow joins)."""
        v = {}
        for k, x in self.v.items():
            y = o.v.get(k)
            if y is None:
                continue
            if x == y:
                v[k] = x
        b = {k: x for k, x in self.b.items() if o.b.get(k) is x}
        r = {}
        for k, x in self.r.items():
            y = o.r.get(k)
            if y is not None:
                r[k] = (min(x[0], y[0]), max(x[1], y[1]), x[2] & y[2])
        s = {k: x for k, x in self.s.items() if o.s.get(k) == x}
        return Facts(v, b, r, s)

    def show(self):
        out = []
        for t, x in self.v.items():
            out.append('%s %s %s' % (t, x[0], x[1] if x[0] == 'is' else set(x[1])))
        for t, x in self.b.items():
            out.append('%s%s' % ('' if x else 'not ', t))
        for t, x in self.r.items():
            out.append('%s in [%s,%s]%s' % (t, x[0], x[1], '\\%s' % set(x[2]) if x[2] else ''))
        return out


NULLARY = ()
NOFACTS = Facts()

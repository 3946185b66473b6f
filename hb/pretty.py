"""Compact printing of outcomes with shared large subterms named."""
from .terms import *
from . import terms as TM


class Namer:
    def __init__(self, limit=60):
        self.limit = limit
        self.names = {}
        self.defs = []

    def s(self, t):
        if t in self.names:
            return self.names[t]
        for c in children(t):
            self.s(c)
        old = TM.show
        def hook(x, d=0):
            if x is not t and isinstance(x, Term) and x in self.names:
                return self.names[x]
            return old(x, d)
        TM.show = hook
        try:
            r = old(t)
        finally:
            TM.show = old
        if len(r) > self.limit and t.op not in ('one',):
            n = 't%d' % len(self.names)
            self.names[t] = n
            self.defs.append('%s := %s' % (n, r))
            return n
        return r


def report(outs, loops=(), panics=(), limit=70):
    N = Namer(limit)
    out = []

    def flush():
        for d in N.defs:
            out.append('        ' + d)
        N.defs.clear()

    def put(pre, *parts):
        s = pre + ' '.join(N.s(p) if isinstance(p, Term) else str(p) for p in parts)
        flush()
        out.append(s)

    def facts(f, ind):
        for t, x in f.v.items():
            put(ind + '| ', t, x[0], x[1])
        for t, x in f.b.items():
            put(ind + '| ', '' if x else 'not', t)
        for t, x in f.r.items():
            put(ind + '| ', t, 'in', list(x[:2]), set(x[2]) or '')
        for t, x in f.s.items():
            put(ind + '| ', t, '==', repr(x))

    def ev(e, ind):
        if e.kind == 'loop':
            put(ind + '> LOOP ', e.data.where[0], e.data.key)
        else:
            put(ind + '> ', e.kind, e.name, '(', *e.args, ')', '->', e.res if e.res is not None else '')
    for lp in loops:
        put('LOOP ', lp.where[0], lp.key)
        for p, (i, bs) in lp.phis.items():
            put('   phi ', p, 'init', i)
            for b in sorted(set(bs), key=lambda b: b.id):
                put('       back ', b)
        base = lp.head.ev
        for s in lp.paths:
            out.append('   BACK')
            facts(s.facts, '     ')
            es = []
            e = s.ev
            while e is not None and not (e[1].kind == 'loop' and e[1].data is lp):
                es.append(e[1])
                e = e[0]
            for x in reversed(es):
                ev(x, '     ')
        for k, t, s in lp.exits:
            out.append('   EXIT %s %s' % (k, t))
            facts(s.facts, '     ')
    for o in outs:
        put('== RET ', o.ret)
        facts(o.facts, '   ')
        for e in o.events:
            ev(e, '   ')
    for p in panics:
        put('PANIC ', p.kind, p.where, p.chain[:2], *p.detail)
    return '\n'.join(out)

"""Typed view over the facts the driver dumped."""
from . import build


class Facts:
    def __init__(self, raw):
        self.raw = raw
        self.types = raw['types']
        self.adts = {a['id']: a for a in raw['adts']}
        self.bodies = {b['id']: b for b in raw['bodies']}
        self.impls = {i['id']: i for i in raw['impls']}
        self.traits = {t['id']: t for t in raw['traits']}
        self.items = {i['id']: i for i in raw['items']}
        self.impl_by_trait = {}
        for i in raw['impls']:
            if i['trait']:
                self.impl_by_trait.setdefault(i['trait'], []).append(i)
        from . import terms
        for a in raw['adts']:
            terms.FIELDS[a['id']] = ({v['name']: [f['name'] for f in v['fields']] for v in a['variants']}, a['kind'] == 'enum')
            if a['kind'] == 'enum':
                terms.DISCR[a['id']] = {terms.wrap(int(v['discr']), 'i64'): v['name'] for v in a['variants']}
        self.by_name = {}
        for b in raw['bodies']:
            self.by_name.setdefault(b['name'], []).append(b)

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]['s']


_cache = {}


def get(config='main'):
    if config not in _cache:
        _cache[config] = Facts(build.load(config))
    return _cache[config]


# ---------------------------------------------------------------- pretty printer (debugging and reports)
def pplace(p):
    s = '_%d' % p[0]
    for e in p[1]:
        k = e[0]
        s = {'*': lambda: '(*%s)' % s, 'f': lambda: '%s.%s' % (s, e[2]), 'v': lambda: '(%s as %s)' % (s, e[2]),
             'i': lambda: '%s[_%d]' % (s, e[1]), 'ci': lambda: '%s[%d%s]' % (s, e[1], '-' if e[3] else ''),
             'ss': lambda: '%s[%d..%d%s]' % (s, e[1], e[2], '-' if e[3] else ''), 'oc': lambda: s}[k]()
    return s


def pconst(c):
    k = c['k']
    if k in ('int', 'bool', 'char', 'scalar', 'str', 'bytes'):
        return repr(c['v'])
    if k == 'fn':
        f = c['f']
        return 'fn<%s>' % (f['rpath'] or f['path'])
    if k == 'unev':
        return 'unev<%s%s>' % (c['path'], '' if c['promoted'] is None else '#p%s' % c['promoted'])
    return str({a: b for a, b in c.items() if a != 'ty'})


def pop(o):
    return pconst(o[1]) if o[0] == 'k' else ('move ' if o[0] == 'm' else '') + pplace(o[1])


def prv(r):
    k = r[0]
    if k == 'use':
        return pop(r[1])
    if k == 'ref':
        return '&%s %s' % (r[1], pplace(r[2]))
    if k == 'agg':
        return '%s(%s)' % (':'.join(str(x) for x in r[1][:3]), ', '.join(pop(o) for o in r[2]))
    if k == 'discr':
        return 'discr(%s)' % pplace(r[1])
    if k == 'cast':
        return 'cast[%s](%s)' % (r[1], pop(r[2]))
    if k == 'bin':
        return '%s(%s, %s)' % (r[1], pop(r[2]), pop(r[3]))
    if k == 'un':
        return '%s(%s)' % (r[1], pop(r[2]))
    return str(r)


def pbody(F, b, clean=False):
    out = ['%s  argc=%d  %s' % (b['name'], b['argc'], b['sp'])] if 'name' in b else ['promoted']
    for i, l in enumerate(b['locals']):
        out.append('  let _%d: %s%s' % (i, F.tys(l[0]), '  // ' + l[1] if l[1] else ''))
    for p, n in b['names']:
        out.append('  name %s = %s' % (n, pplace(p)))
    for i, bb in enumerate(b['blocks']):
        if bb['cl'] and not clean:
            continue
        out.append('  bb%d:' % i)
        for s in bb['s']:
            if s[0] == '=':
                out.append('    %s = %s' % (pplace(s[1]), prv(s[2])))
            elif s[0] != 'dead':
                out.append('    %s' % s)
        t = bb['t']
        if t[0] == 'call':
            out.append('    %s = %s(%s) -> %s   // %s' % (pplace(t[3]), pop(t[1]), ', '.join(pop(o) for o in t[2]), t[4], t[5]))
        elif t[0] == 'switch':
            out.append('    switch %s %s else %s' % (pop(t[1]), t[2], t[3]))
        else:
            out.append('    %s' % t)
    return '\n'.join(out)


if __name__ == '__main__':
    import sys
    F = get(sys.argv[2] if len(sys.argv) > 2 else 'main')
    for b in F.raw['bodies']:
        if sys.argv[1] in b['id'] or sys.argv[1] in b['name']:
            print(b['id'])
            print(pbody(F, b))
            for i, p in enumerate(b['promoted']):
                print(' promoted', i)
                print(pbody(F, p))

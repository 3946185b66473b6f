"""Path-sensitive interprocedural value-flow analysis over type-checked MIR.

Domain: hash-consed value terms (terms.py) x path facts (cond.py) x effect history, partitioned by
branch outcome; loops are solved as fixpoints at their heads with phi terms; local callees are
inlined under their generic instantiation; library callees are modelled (models.py), expanded from
the standard library's own MIR, or left as uninterpreted functions.  Nothing is executed and no
solver is involved."""
import re, sys
from .terms import *
from .cond import Facts, NOFACTS
from . import facts as FX

sys.setrecursionlimit(100000)


class AnalysisError(Exception):
    pass


class NotCounted(Exception):
    """A loop taken for one over constants depends on something else in a later iteration."""


class State:
    __slots__ = ('mem', 'facts', 'ev', 'dead')

    def __init__(self, mem=None, facts=NOFACTS, ev=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts
        self.ev = ev          # (prev, Event) linked list, newest first

    def fork(self):
        return State(dict(self.mem), self.facts, self.ev)

    def with_facts(self, f):
        s = State(dict(self.mem), f, self.ev)
        return s

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def add(self, e):
        self.ev = (self.ev, e)


class Event:
    __slots__ = ('kind', 'name', 'args', 'res', 'facts', 'where', 'data')

    def __init__(self, kind, name, args=(), res=None, facts=None, where=None, data=None):
        self.kind, self.name, self.args, self.res, self.facts, self.where, self.data = kind, name, tuple(args), res, facts, where, data

    def __repr__(self):
        return '%s %s(%s)%s' % (self.kind, self.name, ', '.join(map(show, self.args)), '' if self.res is None else ' -> ' + show(self.res))


# these are resolved from the value they are called on, not from its type
BY_VALUE = ('future::Future::poll', 'ops::Fn::call', 'ops::FnMut::call_mut', 'ops::FnOnce::call_once')


class Frame:
    __slots__ = ('fid', 'body', 'subst', 'root', 'depth', 'parent', 'at')

    def __init__(self, fid, body, subst, root, depth, parent=None, at=None):
        self.fid, self.body, self.subst, self.root, self.depth, self.parent, self.at = fid, body, subst, root, depth, parent, at

    def chain(self):
        out, f = [], self
        while f is not None:
            out.append(f.root.get('name', '?'))
            f = f.parent
        return out


class Loop:
    def __init__(self, key, where):
        self.key = key
        self.where = where
        self.phis = {}      # phi term -> (init value, [back values])
        self.exits = []
        self.paths = []     # back-edge paths of the last pass: State (events since the loop head)
        self.init = None
        self.head = None    # head State


class Panic:
    def __init__(self, kind, where, chain, facts, detail, ev):
        self.kind, self.where, self.chain, self.facts, self.detail, self.ev = kind, where, chain, facts, detail, ev


class Outcome:
    __slots__ = ('st', 'ret')

    def __init__(self, st, ret):
        self.st, self.ret = st, ret

    @property
    def facts(self):
        return self.st.facts

    @property
    def events(self):
        return self.st.events()


def norm(path):
    """Item path without generic arguments."""
    out, d, i = [], 0, 0
    p = path
    res = ''
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            j, d = i + 3, 1
            while d:
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                j += 1
            i = j
            continue
        res += p[i]
        i += 1
    return re.sub(r'^(std|core|alloc)::', '', res)


class Interp:
    MAX_STATES = 400000

    def __init__(self, F, opaque=(), opaque_traits=(), transparent_all=False):
        self.F = F
        self.opaque = opaque                # predicate(body) or collection of body ids kept uninterpreted
        self.opaque_traits = set(opaque_traits)
        self.loops = {}
        self.phi_loop = {}
        self.panics = []
        self.tracing = True                 # log statements enabled?
        self.unknown = {}                   # uninterpreted callees seen: name -> count
        self.inlined = set()
        self.escapes = []                   # external callees that received code (closures, futures)
        self.calls = 0
        self.states = 0
        self._fids = {}
        self._cfg = {}
        self._tcache = {}
        self.fork_limit = None
        self.expand_display = False
        self._n = 0
        from . import models
        self.models = models

    # ------------------------------------------------------------------ types
    def T(self, i, subst=None):
        """Structural type of type index i under subst."""
        if isinstance(i, dict):
            return self._T(i, subst or {})
        k = (i, id(subst) if subst else 0)
        if not subst and k in self._tcache:
            return self._tcache[k]
        t = self._T(i, subst or {})
        if not subst:
            self._tcache[k] = t
        return t

    def _T(self, i, subst):
        if isinstance(i, dict):
            return ('const', i['const'])
        y = self.F.types[i]
        k = y['k']
        R = lambda j: self._T(j, subst)
        if k == 'int':
            return ('int', y['n'])
        if k == 'adt':
            return ('adt', y['id'], tuple(R(a) for a in y['args']))
        if k == 'array':
            n = y['len']
            if isinstance(n, dict):
                n = R(n)
                if n[0] == 'const' and re.match(r'^\d+(_?usize)?$', str(n[1])):
                    n = int(re.match(r'^\d+', str(n[1])).group(0))
            return ('array', R(y['el']), n)
        if k == 'slice':
            return ('slice', R(y['el']))
        if k == 'ref':
            return ('ref', R(y['el']), y['mut'])
        if k == 'ptr':
            return ('ptr', R(y['el']))
        if k == 'tuple':
            return ('tuple', tuple(R(e) for e in y['els']))
        if k == 'fndef':
            return ('fndef', y['id'], y['path'], tuple(R(a) for a in y['args']))
        if k in ('closure', 'coroutine'):
            return (k, y['id'])
        if k == 'param':
            return subst.get(y['n'], ('param', y['n']))
        if k == 'dyn':
            return ('dyn', y['trait'], y['s'])
        if k in ('opaque', 'proj'):
            a = tuple(R(a) for a in y['args'])
            if k == 'proj':
                r = self.project(y['id'], a)
                if r is not None:
                    return r
            return (k, y['id'], a)
        return (k, y['s']) if k == 'other' else (k,)

    def project(self, pid, args):
        """<Self as Trait>::Assoc for local impls."""
        if not args:
            return None
        tr, name = pid.rsplit('::', 1)
        for im in self.F.impl_by_trait.get(tr, ()):
            s = self.match_impl(im, args)
            if s is not None:
                for it in im['items']:
                    if it['name'] == name and it['ty'] is not None:
                        return self._T(it['ty'], s)
        return None

    def unify(self, pat, ty, s):
        """Match the impl-side type pattern (with params) against ty; extends s."""
        if pat[0] == 'param':
            if pat[1] in s:
                return s[pat[1]] == ty
            s[pat[1]] = ty
            return True
        if pat[0] != ty[0]:
            return False
        if pat[0] == 'adt' or pat[0] == 'fndef':
            if pat[1] != ty[1]:
                return False
            return len(pat[-1]) == len(ty[-1]) and all(self.unify(a, b, s) for a, b in zip(pat[-1], ty[-1]))
        if pat[0] in ('ref', 'slice', 'ptr'):
            return self.unify(pat[1], ty[1], s)
        if pat[0] == 'array':
            return self.unify(pat[1], ty[1], s)
        if pat[0] == 'tuple':
            return len(pat[1]) == len(ty[1]) and all(self.unify(a, b, s) for a, b in zip(pat[1], ty[1]))
        return pat == ty

    def match_impl(self, im, targs):
        s = {}
        pats = [self.T(a) for a in im['targs']]
        for p, t in zip(pats, targs):
            if not self.unify(p, t, s):
                return None
        return s

    def find_impl(self, trait, targs, method):
        """(body id, subst) of a local impl of trait::method for the given trait args."""
        for im in self.F.impl_by_trait.get(trait, ()):
            s = self.match_impl(im, targs)
            if s is None:
                continue
            for it in im['items']:
                if it['name'] == method:
                    return it['id'], s, im
        return None

    def has_impl(self, trait, targs):
        return any(self.match_impl(im, targs) is not None for im in self.F.impl_by_trait.get(trait, ()))

    # ------------------------------------------------------------------ CFG
    def cfg(self, body):
        c = self._cfg.get(id(body))
        if c is None:
            c = self._cfg[id(body)] = CFG(body)
        return c

    def fid(self, parent, at, bid):
        k = (parent, at, bid)
        f = self._fids.get(k)
        if f is None:
            f = self._fids[k] = len(self._fids) + 1
        return f

    # ------------------------------------------------------------------ memory
    def load(self, st, loc, path):
        v = st.mem.get(loc)
        if v is None:
            return mk('uninit', str(loc))
        for p in path:
            v = self.step(st, v, p)
        return v

    def step(self, st, v, p):
        k = p[0]
        if k == 'f':
            return fld(v, p[3], p[2], p[1])
        if k == 'ix':
            return self.index(st, v, p[1])
        if k == 'range':
            return slice_(v, p[1], p[2])
        if k == 'key':
            from .models import mapget
            return fld(mapget(self, st, v, p[1]), 'Some', '0')
        if k == 'jkey':
            from .models import jget, JV
            g = jget(self, st, v, p[1])
            if is_adt(g):
                return g.a[1][0] if g.a[0][2] == 'Some' else adt(JV, 'Null')
            return fld(g, 'Some', '0')
        raise AnalysisError('path step %s' % (p,))

    def index(self, st, v, i):
        if v.op == 'cat' and i.op == 'int' and all(x.op == 'one' for x in v.a) and i.a[0] < len(v.a):
            return v.a[i.a[0]].a[0]
        if v.op == 'agg' and v.a[0][0] == 'array' and i.op == 'int' and i.a[0] < len(v.a[1]):
            return v.a[1][i.a[0]]
        if v.op == 'bytes' and i.op == 'int' and i.a[0] < len(v.a[0]):
            return I(v.a[0][i.a[0]], 'u8')
        if v.op == 'repeat':
            return v.a[0]
        if v.op == 'slice' and i.op == 'int' and v.a[1].op == 'int':
            return self.index(st, v.a[0], I(i.a[0] + v.a[1].a[0], 'usize'))
        if v.op == 'upd' and isinstance(v.a[1], Term) and v.a[1] is i:
            return v.a[2]
        return mk('idx', v, i)

    def store(self, st, loc, path, val):
        if not path:
            st.mem[loc] = val
            return
        st.mem[loc] = self.put(st, st.mem.get(loc), path, val)

    def put(self, st, base, path, val):
        if not path:
            return val
        p = path[0]
        if base is None:
            base = mk('undef')
        sub = self.put(st, self.step(st, base, p) if len(path) > 1 else None, path[1:], val) if len(path) > 1 else val
        k = p[0]
        if k == 'f':
            _, idx, name, var, aid = p
            if base.op == 'agg' and idx < len(base.a[1]):
                ops = list(base.a[1])
                ops[idx] = sub
                return agg(base.a[0], ops)
            if aid and aid in self.F.adts:
                vs = self.F.adts[aid]['variants']
                vd = next((x for x in vs if x['name'] == var), None) if var else vs[0]
                if vd and len(vd['fields']) <= 40:
                    ops = [fld(base, var, f['name']) for f in vd['fields']]
                    ops[idx] = sub
                    return adt(aid, var or vd['name'], *ops)
            return mk('upd', base, (var, name), sub)
        if k == 'ix':
            i = p[1]
            if base.op == 'agg' and i.op == 'int' and i.a[0] < len(base.a[1]):
                ops = list(base.a[1])
                ops[i.a[0]] = sub
                return agg(base.a[0], ops)
            if base.op == 'cat' and i.op == 'int' and i.a[0] < len(base.a) and all(x.op == 'one' for x in base.a):
                ops = list(base.a)
                ops[i.a[0]] = one(sub)
                return cat(ops)
            return mk('upd', base, i, sub)
        if k == 'range':
            lo, hi = p[1], p[2]
            pre = slice_(base, I(0, 'usize'), lo) if not (lo.op == 'int' and lo.a[0] == 0) else EMPTY
            post = slice_(base, hi, None) if hi is not None and hi is not length(base) else EMPTY
            return cat([pre, sub, post])
        if k == 'key':
            return mk('minsert', base, p[1], sub)
        if k == 'jkey':
            from .models import jmap_put, JV
            inner = base.a[1][0] if is_adt(base, 'Object') else mk('jmap') if is_adt(base, 'Null') else fld(base, 'Object', '0')
            return adt(JV, 'Object', jmap_put(inner, p[1], sub))
        raise AnalysisError('store path %s' % (p,))

    # ------------------------------------------------------------------ places
    def walk(self, st, fr, place):
        """('loc', loc, path) or ('val', term) for a place."""
        loc, path = (fr.fid, place[0]), ()
        val = None
        var = None
        for e in place[1]:
            k = e[0]
            if k == '*':
                v = val if val is not None else self.load(st, loc, path)
                if v.op == 'ref':
                    loc, path, val = v.a[0], v.a[1], None
                elif v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1] in ('alloc::boxed::Box',) and len(v.a[1]) == 1:
                    val = v.a[1][0]
                elif val is not None:
                    val = v
                # deref of a non-reference value: identity (shared references are value snapshots)
                var = None
            elif k == 'v':
                var = e[2]
            elif k == 'f':
                p = ('f', e[1], e[2], var, e[3])
                if val is not None:
                    val = self.step(st, val, p)
                else:
                    path += (p,)
                var = None
            elif k == 'i':
                i = self.load(st, (fr.fid, e[1]), ())
                p = ('ix', i)
                if val is not None:
                    val = self.step(st, val, p)
                else:
                    path += (p,)
            elif k == 'ci':
                cur = val if val is not None else self.load(st, loc, path)
                if e[3]:
                    i = binop('Sub', length(cur), I(e[1], 'usize'), 'usize')
                else:
                    i = I(e[1], 'usize')
                p = ('ix', i)
                if val is not None:
                    val = self.step(st, val, p)
                else:
                    path += (p,)
            elif k == 'ss':
                cur = val if val is not None else self.load(st, loc, path)
                hi = binop('Sub', length(cur), I(e[2], 'usize'), 'usize') if e[3] else I(e[2], 'usize')
                p = ('range', I(e[1], 'usize'), hi)
                if val is not None:
                    val = self.step(st, val, p)
                else:
                    path += (p,)
        if val is not None:
            return ('val', val)
        return ('loc', loc, path)

    def read(self, st, fr, place):
        w = self.walk(st, fr, place)
        if w[0] == 'val':
            return w[1]
        return self.load(st, w[1], w[2])

    def write(self, st, fr, place, val):
        w = self.walk(st, fr, place)
        if w[0] == 'loc':
            # writing through a non-reference (opaque pointer) base
            if any(e[0] == '*' for e in place[1]) and w[1] == (fr.fid, place[0]):
                st.add(Event('store', 'store', (self.load(st, w[1], ()), val), None, st.facts, self.where(fr), w[2]))
            self.store(st, w[1], w[2], val)
        else:
            st.add(Event('store', 'store', (w[1], val), None, st.facts, self.where(fr)))

    def where(self, fr, sp=None):
        return (fr.root.get('name', '?'), sp or fr.root.get('sp', '?'), fr)

    # ------------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if o[0] == 'k':
            return self.const(st, fr, o[1])
        return self.read(st, fr, o[1])

    def const(self, st, fr, c):
        k = c['k']
        if k == 'int':
            t = self.T(c['ty'], fr.subst)
            return I(c['v'], t[1] if t[0] == 'int' else 'u64')
        if k == 'bool':
            return B(c['v'])
        if k == 'char':
            return mk('char', chr(c['v']))
        if k == 'str':
            return S(c['v'])
        if k == 'bytes':
            return BY(bytes(c['v']))
        if k == 'zst':
            t = self.T(c['ty'], fr.subst)
            if t == ('tuple', ()):
                return UNIT
            if t[0] == 'closure':
                return agg(('closure', t[1], self.skey(fr.subst)), ())
            if t[0] == 'adt' and t[1] in self.F.adts and len(self.F.adts[t[1]]['variants']) == 1 and not self.F.adts[t[1]]['variants'][0]['fields']:
                return adt(t[1], self.F.adts[t[1]]['variants'][0]['name'])
            return mk('zst', str(t))
        if k == 'fn':
            return self.fnterm(c['f'], fr.subst)
        if k == 'unev':
            if c['promoted'] is not None:
                b = self.F.bodies.get(c['id'])
                if b is None:
                    return mk('constx', c['path'], c['promoted'])
                p = b['promoted'][c['promoted']]
                return self.evalconst(st, fr, p, b, fr.subst, ('prom', c['promoted']))
            if c.get('trait') and c['trait'].startswith(CRATE):
                # an associated constant: the value the type's own impl gives it
                targs = [self.T(a, fr.subst) for a in c['args']]
                fi = self.find_impl(c['trait'], targs, c['id'].rsplit('::', 1)[1])
                b = self.F.bodies.get(fi[0]) if fi else None
                if b is not None and b['blocks']:
                    return self.evalconst(st, fr, b, b, dict(fi[1]), 'const')
                if not fi and any(t and t[0] in ('param', 'opaque', 'alias') for t in targs[:1]):
                    return mk('constx', c['path'], str(targs[0]))
            if c['id'] in self.F.bodies:
                sub = self.bind(self.F.bodies[c['id']]['generics'], [self.T(a, fr.subst) for a in c['args']])
                if c.get('trait') and not self.F.bodies[c['id']]['blocks']:
                    return mk('constx', c['path'])
                b = self.F.bodies[c['id']]
                return self.evalconst(st, fr, b, b, sub, 'const')
            if c['val'] and c['val']['k'] in ('int', 'bool', 'char', 'str', 'bytes'):
                return self.const(st, fr, c['val'])
            if c['val'] and c['val']['k'] == 'scalar' and c['path'].startswith('tracing'):
                return self.const(st, fr, c['val'])
            return mk('constx', c['path'])
        if k == 'static':
            b = self.F.bodies.get(c['id'])
            if b is not None and b['blocks'] and 'mutability: Not' in b['kind'] and self.frozen(self.T(b['locals'][0][0])):
                return self.evalconst(st, fr, b, b, {}, 'const')
            return mk('static', c['id'])
        if k == 'scalar':
            return mk('scalar', c['v'], self.F.tys(c['ty']))
        if k == 'constparam':
            t = fr.subst.get(c.get('s'))
            if t and t[0] == 'const':
                m = re.match(r'^(\d+)', t[1])
                if m:
                    return I(int(m.group(1)), 'usize')
        return mk('constx', k, self.F.tys(c['ty']))

    def frozen(self, t, seen=()):
        """Can a shared value of this type never change?"""
        if not isinstance(t, tuple) or not t:
            return True
        if t in seen:
            return True
        if t[0] == 'adt':
            n = t[1].split('::')[-1]
            if 'Cell' in n or 'Lock' in n or 'Atomic' in n or 'Lazy' in n or n in ('Mutex', 'Once', 'Condvar', 'Barrier', 'Sender', 'Receiver', 'SyncSender'):
                return False
            a = self.F.adts.get(t[1])
            if t[1].split('::')[0] not in (CRATE, CRATE.rstrip(':'), 'core', 'alloc', 'std', 'base64'):
                return False
            if t[1].startswith(CRATE) and a and not all(f['ty'] is not None and self.frozen(self.T(f['ty']), seen + (t,)) for v in a['variants'] for f in v['fields']):
                return False
            return all(self.frozen(x, seen) for x in t[2])
        if t[0] in ('dyn', 'opaque', 'param', 'alias', 'ptr'):
            return False
        return all(self.frozen(x, seen) for x in t[1:] if isinstance(x, tuple))

    def evalconst(self, st, fr, p, root, subst, tag):
        key = (id(p), self.skey(subst))
        c = getattr(self, '_cc', None)
        if c is None:
            c = self._cc = {}
        if key in c:
            return c[key]
        f = Frame(self.fid(0, tag, id(p)), p, subst, root, fr.depth + 1, fr)
        outs = self.run_blocks(State(), f)
        c[key] = outs[0].ret if len(outs) == 1 else mk('constx', root['id'], str(tag))
        return c[key]

    def skey(self, subst):
        return tuple(sorted(subst.items())) if subst else ()

    def bind(self, generics, args):
        return {n: a for n, a in zip(generics, args)}

    def fnterm(self, f, subst):
        args = tuple(self.T(a, subst) for a in f['args'])
        rargs = tuple(self.T(a, subst) for a in f['rargs']) if f['rargs'] is not None else None
        selfty = self.T(f['self'], subst) if f['self'] is not None else None
        c = f['ctor']
        return mk('fn', f['id'], f['path'], args, f['trait'], selfty, f['rid'], rargs, tuple(c) if c else None, f['unsafe'])

    # ------------------------------------------------------------------ running
    def run_blocks(self, st, fr):
        """Run a body from its entry block; returns outcomes."""
        outs = []
        if fr.depth > 90:
            raise AnalysisError('inlining too deep: ' + ' < '.join(fr.chain()[:8]))
        for kind, bb, s in self.explore_in(st, fr, 0, self.cfg(fr.body).reach, set()):
            if kind == 'ret':
                ret = s.mem.get((fr.fid, 0), UNIT)
                self.pop(s, fr, ret)
                outs.append(Outcome(s, ret))
        return outs

    def pop(self, st, fr, ret):
        f = fr.fid
        for k in [k for k in st.mem if k[0] == f]:
            del st.mem[k]

    loop_watch = None

    # ---- loops
    def loop(self, st, fr, head, within, active):
        blocks = self.cfg(fr.body).loops[head]
        act = active | {head}

        def run(hs):
            outer, self.loop_watch = self.loop_watch, (fr.fid, blocks, {})
            try:
                res = self.explore_loop(hs, fr, head, blocks, act)
            finally:
                run.guards = self.loop_watch[2]
                self.loop_watch = outer
            return [s for k, b, s in res if k == 'back' and b == head], [r for r in res if not (r[0] == 'back' and r[1] == head)]
        return self.fix(st, (fr.fid, head), self.where(fr, fr.body['blocks'][head]['sp']), run)

    def fix(self, st, key, where, run, depth=0):
        """Solve a loop: run(state at head) -> (states coming back to the head, exits (kind, target, state))."""
        lp = Loop(key, where)
        cur = st
        phis = {}        # (loc,path) -> phi term
        peel = True
        for it in range(16):
            base_ev = cur.ev
            hs = State(dict(cur.mem), cur.facts, (cur.ev, Event('loop', 'loop', (), None, cur.facts, lp.where, lp)))
            backs, outs = run(hs.fork())
            if not backs:
                # the body is left on every path: not a loop in effect (e.g. an await loop)
                for k, b, s in outs:
                    s.ev = strip(s.ev, lp)
                return outs
            if not phis and peel and depth < 40 and (self.unroll_needed(cur, backs) or self.counted(cur, backs, getattr(run, 'guards', None))):
                for k, b, s in outs:
                    s.ev = strip(s.ev, lp)
                for s in backs:
                    s.ev = strip(s.ev, lp)
                try:
                    for s in backs:
                        outs = outs + self.fix(s, key, where, run, depth + 1)
                    return outs
                except NotCounted as e:
                    # not a loop over constants after all: summarise it from its first iteration
                    if depth or e.args[0] != key:
                        raise
                    peel = False
                    continue
            if depth and not phis:
                raise NotCounted(key)
            nmem = {}
            changed = False
            fx = cur.facts
            for loc, v0 in cur.mem.items():
                vals = []
                gone = False
                for s in backs:
                    v = s.mem.get(loc)
                    if v is None:
                        gone = True
                        break
                    vals.append(v)
                if gone:
                    changed = True
                    continue
                nv = self.join_val(loc, (), v0, vals, key, phis, lp, st)
                if nv is not v0:
                    changed = True
                nmem[loc] = nv
            for s in backs:
                fx2 = fx.meet(s.facts)
                if not same_facts(fx, fx2):
                    changed = True
                fx = fx2
            if not changed:
                lp.paths = backs
                lp.exits = outs
                lp.head = hs
                lp.init = st
                lp.phis = {}
                for (loc, path), ph in phis.items():
                    init = self.peek(st, loc, path)
                    lp.phis[ph] = (init, [self.peek(s, loc, path) for s in backs])
                    self.phi_loop[ph] = lp
                self.loops[key] = lp
                return outs
            cur = State(nmem, fx, st.ev)
        raise AnalysisError('loop does not stabilise in %s' % (where[0],))

    def peek(self, st, loc, path):
        v = st.mem.get(loc)
        for i in path:
            if v is None or v.op not in ('agg', 'iter', 'itop'):
                return v
            v = v.a[1] if v.op == 'iter' else v.a[1 + i] if v.op == 'itop' else v.a[1][i]
        return v

    def join_val(self, loc, path, v0, vals, key, phis, lp, st):
        if all(v is v0 for v in vals):
            return v0
        ph = phis.get((loc, path))
        if ph is not None:
            return ph
        if v0.op == 'agg' and all(v.op == 'agg' and v.a[0] == v0.a[0] and len(v.a[1]) == len(v0.a[1]) for v in vals) and v0.a[1]:
            ops = [self.join_val(loc, path + (i,), x, [v.a[1][i] for v in vals], key, phis, lp, st) for i, x in enumerate(v0.a[1])]
            return agg(v0.a[0], ops)
        if v0.op == 'iter' and all(v.op == 'iter' and v.a[0] is v0.a[0] for v in vals):
            return mk('iter', v0.a[0], self.join_val(loc, path + (0,), v0.a[1], [v.a[1] for v in vals], key, phis, lp, st))
        if v0.op == 'itop' and all(v.op == 'itop' and v.a[0] == v0.a[0] for v in vals):
            return mk('itop', v0.a[0], *[self.join_val(loc, path + (i,), v0.a[1 + i], [v.a[1 + i] for v in vals], key, phis, lp, st)
                                         if isinstance(v0.a[1 + i], Term) else v0.a[1 + i] for i in range(2)])
        ty = self.int_ty(v0)
        ph = mk('phi', key, (loc, path), ty, self.peek(st, loc, path))
        phis[(loc, path)] = ph
        return ph

    def int_ty(self, v):
        if v.op == 'bool':
            return None
        return term_int_ty(v)

    def unroll_needed(self, cur, backs):
        """Concrete unrolling over literal arrays and small constant ranges."""
        for s in backs:
            hit = False
            for loc, v in cur.mem.items():
                w = s.mem.get(loc)
                if w is not None and w is not v and self.countdown(v, w):
                    hit = True
                    break
            if not hit:
                return False
        return True

    def note_guard(self, st, fr, b, blk, t, res):
        """A comparison that may leave the watched loop: the constants it compared, or None if it was not decided."""
        fid, blocks, seen = self.loop_watch
        if fr.fid != fid or b not in blocks or t[1][0] == 'k' or t[1][1][1]:
            return
        if all(x in blocks for x in [bb for _, bb in t[2]] + [t[3]]):
            return
        cmp = next((s[2] for s in reversed(blk['s']) if s[0] == '=' and s[1][0] == t[1][1][0] and not s[1][1]), None)
        if cmp is None or cmp[0] != 'bin' or cmp[1] not in ('Lt', 'Le', 'Gt', 'Ge', 'Ne'):
            return
        x, y = self.operand(st, fr, cmp[2]), self.operand(st, fr, cmp[3])
        if len(res) == 1 and x.op == 'int' and y.op == 'int' and seen.get(b, ()) is not None:
            seen[b] = seen.get(b, ()) + ((x.a[0], y.a[0]),)
        else:
            seen[b] = None

    def counted(self, cur, backs, guards):
        """A constant counter moves towards the constant it is compared with by a loop condition."""
        for b, pairs in (guards or {}).items():
            for x, y in pairs or ():
                if abs(x - y) <= 40 and all(any(v.op == 'int' and v.a[0] in (x, y) and s.mem.get(loc) is not None and s.mem[loc].op == 'int'
                                                and abs(x + y - v.a[0] - s.mem[loc].a[0]) < abs(x - y) for loc, v in cur.mem.items()) for s in backs):
                    return True
        return False

    def countdown(self, v, w):
        if v.op == 'iter' and w.op == 'iter' and v.a[0] is w.a[0] and v.a[1].op == 'int' and w.a[1].op == 'int':
            n = known_len(v.a[0]) if v.a[0].op != 'rng' else None
            return n is not None and n <= 40 and w.a[1].a[0] > v.a[1].a[0] and self.elementwise(v.a[0])
        if v.op == 'agg' and w.op == 'agg' and v.a[0] == w.a[0] and v.a[0][0] == 'adt':
            if v.a[0][1].endswith('::Range') and len(v.a[1]) == 2 and v.a[1][1] is w.a[1][1] and all(x.op == 'int' for x in v.a[1] + w.a[1]):
                return v.a[1][1].a[0] - v.a[1][0].a[0] <= 40 and w.a[1][0].a[0] > v.a[1][0].a[0]
        if v.op == w.op and v.op in ('itop',) and v.a[0] == w.a[0]:
            return self.countdown(v.a[1], w.a[1])
        return False

    def elementwise(self, src):
        return (src.op == 'agg' and src.a[0][0] == 'array') or (src.op == 'cat' and all(p.op == 'one' for p in src.a)) or src.op == 'bytes'

    def explore_loop(self, st, fr, head, blocks, act):
        """One pass over a loop body from its head."""
        results = []
        # run the head block itself, then continue inside
        for k, nb, ns in self.block(st, fr, head):
            if k == 'ret':
                results.append((k, None, ns))
            elif nb == head or nb in act:
                results.append(('back', nb, ns))
            elif nb not in blocks:
                results.append(('exit', nb, ns))
            else:
                results += self.explore_in(ns, fr, nb, blocks, act)
        return results

    def explore_in(self, st, fr, bb, blocks, act):
        out = []
        cfg = self.cfg(fr.body)
        work = [(bb, st)]
        while work:
            b, s = work.pop()
            self.states += 1
            if self.states > self.MAX_STATES:
                raise AnalysisError('too many abstract states in ' + fr.root.get('name', '?'))
            if b in act:
                out.append(('back', b, s))
                continue
            if b not in blocks:
                out.append(('exit', b, s))
                continue
            if b in cfg.loops:
                for k, eb, es in self.loop(s, fr, b, blocks, act):
                    if k == 'ret':
                        out.append((k, eb, es))
                    else:
                        work.append((eb, es))
                continue
            for k, nb, ns in self.block(s, fr, b):
                if k == 'ret':
                    out.append((k, None, ns))
                else:
                    work.append((nb, ns))
        return out

    # ---- blocks
    def block(self, st, fr, b):
        """Execute block b abstractly: list of ('ret', None, st) / ('go', bb, st)."""
        blk = fr.body['blocks'][b]
        for s in blk['s']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, fr, s[2], s[1])
                self.write(st, fr, s[1], v)
            elif k == 'dead':
                st.mem.pop((fr.fid, s[1]), None)
            elif k == 'sd':
                aid = None
                w = self.walk(st, fr, s[1])
                if w[0] == 'loc':
                    t = self.local_ty(fr, s[1][0])
                    if t[0] == 'adt' and t[1] in self.F.adts and not s[1][1]:
                        vd = self.F.adts[t[1]]['variants'][s[2]]
                        cur = self.load(st, w[1], w[2])
                        self.store(st, w[1], w[2], adt(t[1], vd['name'], *[fld(cur, vd['name'], f['name']) for f in vd['fields']]))
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [('go', t[1], st)]
        if k == 'ret':
            return [('ret', None, st)]
        if k in ('unreach', 'unwind'):
            return []
        if k == 'drop':
            return [('go', t[2], st)]
        if k == 'switch':
            res = self.switch(st, fr, t)
            if self.loop_watch is not None:
                self.note_guard(st, fr, b, blk, t, res)
            return res
        if k == 'assert':
            return self.assert_(st, fr, t, blk['sp'])
        if k == 'yield':
            return [('go', t[2], st)]
        if k == 'call':
            return self.call_term(st, fr, b, t)
        raise AnalysisError('terminator ' + k)

    def local_ty(self, fr, l):
        return self.T(fr.body['locals'][l][0], fr.subst)

    def place_ty(self, fr, place):
        """Type of a place where easily known (no field projections of foreign types)."""
        t = self.local_ty(fr, place[0])
        var = None
        for e in place[1]:
            if e[0] == '*':
                t = t[1] if t[0] in ('ref', 'ptr') else t
            elif e[0] == 'v':
                var = e[2]
            elif e[0] == 'f':
                if t[0] == 'tuple' and e[1] < len(t[1]):
                    t = t[1][e[1]]
                elif t[0] == 'adt' and t[1] in self.F.adts:
                    a = self.F.adts[t[1]]
                    vd = next((v for v in a['variants'] if v['name'] == var), a['variants'][0] if a['variants'] else None)
                    if vd and e[1] < len(vd['fields']) and vd['fields'][e[1]]['ty'] is not None:
                        t = self._T(vd['fields'][e[1]]['ty'], self.bind(a['generics'], t[2]))
                    elif t[1] in (OPT,) or t[1] == RES:
                        t = t[2][1 if var == 'Err' else 0]
                    else:
                        return None
                else:
                    return None
                var = None
            elif e[0] in ('i', 'ci'):
                t = t[1] if t[0] in ('array', 'slice') else None
                if t is None:
                    return None
            elif e[0] == 'ss':
                pass
        return t

    def op_ty(self, fr, o):
        if o[0] == 'k':
            return self.T(o[1]['ty'], fr.subst) if 'ty' in o[1] else None
        return self.place_ty(fr, o[1])

    def rvalue(self, st, fr, r, dest):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            if r[1] == 'mut':
                w = self.walk(st, fr, r[2])
                if w[0] == 'loc':
                    cur = self.load(st, w[1], w[2])
                    return mk('ref', w[1], w[2])
                return w[1]
            return self.read(st, fr, r[2])
        if k == 'raw':
            w = self.walk(st, fr, r[2] if len(r) > 2 else r[1])
            return mk('ref', w[1], w[2]) if w[0] == 'loc' else w[1]
        if k == 'bin':
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            a, b = self.deref_val(st, a), self.deref_val(st, b)
            op = r[1]
            t = self.op_ty(fr, r[2])
            ty = t[1] if t and t[0] == 'int' else ('bool' if t == ('bool',) else None)
            if op.endswith('WithOverflow'):
                o = op[:-len('WithOverflow')]
                v = binop(o, a, b, ty)
                return tup(v, self.overflow(st, o, a, b, ty))
            if op.endswith('Unchecked'):
                op = op[:-len('Unchecked')]
            if op == 'Cmp':
                return mk('cmp', a, b)
            return binop(op, a, b, ty)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'PtrMetadata':
                return length(self.deref_val(st, a))
            return unop(r[1], a)
        if k == 'cast':
            a = self.operand(st, fr, r[2])
            t = self.T(r[3], fr.subst)
            if r[1] == 'int' and t[0] == 'int':
                f = self.op_ty(fr, r[2])
                if f and f[0] == 'int':
                    if f[1] == t[1] or (bits_of(f[1]) == bits_of(t[1]) and signed(f[1]) == signed(t[1])):
                        return a if a.op != 'int' else I(a.a[0], t[1])
                    # widening of an unsigned value keeps the value
                    if a.op != 'int' and not signed(f[1]) and bits_of(f[1]) < bits_of(t[1]):
                        return cast(mk('ity', a, f[1]) if term_int_ty(a) is None else a, t[1])
                    if a.op != 'int' and term_int_ty(a) is None:
                        a = mk('ity', a, f[1])
                if a.op == 'discr':
                    pass
                return cast(a, t[1])
            if r[1] in ('IntToFloat', 'FloatToInt', 'FloatToFloat'):
                # not value preserving in general: an operation of its own
                x = mk('fcast', a, r[1], str(t[1] if len(t) > 1 else t[0]))
                return mk('ity', x, t[1]) if t[0] == 'int' else x
            if r[1] != 'int' and t[0] == 'ref' and t[1][0] == 'slice':
                f = self.op_ty(fr, r[2])
                if f and f[0] == 'ref' and f[1][0] == 'array':
                    self.array_len(st, a, f[1])
            return a
        if k == 'discr':
            v = self.read(st, fr, r[1])
            return self.discr(v, r[2])
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            kd = r[1]
            if kd[0] == 'adt':
                a = self.F.adts[kd[1]]
                vd = a['variants'][kd[2]]
                if a['kind'] == 'union':
                    return mk('union', *ops)
                return adt(kd[1], vd['name'], *ops)
            if kd[0] in ('closure', 'coroutine'):
                return agg((kd[0], kd[1], self.skey(fr.subst)), ops)
            if kd[0] in ('tuple', 'array'):
                return agg((kd[0],), ops)
            return mk('aggx', kd[0], *ops)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            if r[2] is None:
                return mk('repeatx', v)
            return mk('repeat', v, r[2]) if r[2] else EMPTY
        if k == 'tls':
            return mk('static', r[1])
        raise AnalysisError('rvalue ' + k)

    def overflow(self, st, op, a, b, ty):
        """Bool term: does the operation overflow?"""
        if ty is None or ty == 'bool':
            return FALSE
        la, ha = st.facts.interval(a)
        lb, hb = st.facts.interval(b)
        n = bits_of(ty)
        tlo, thi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed(ty) else (0, (1 << n) - 1)
        la, ha, lb, hb = max(la, tlo), min(ha, thi), max(lb, tlo), min(hb, thi)
        if la == tlo and st.facts.eval(eq(a, I(tlo, ty))) is False:
            la += 1
        if ha == thi and st.facts.eval(eq(a, I(thi, ty))) is False:
            ha -= 1
        if op == 'Add':
            lo, hi = la + lb, ha + hb
        elif op == 'Sub':
            lo, hi = la - hb, ha - lb
            if not signed(ty):
                # a - b with a known b <= a
                x = st.facts.eval(binop('Lt', a, b, ty))
                if x is False:
                    return FALSE
        elif op == 'Mul':
            c = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(c), max(c)
        else:
            return mk('ovf', op, a, b)
        if lo >= tlo and hi <= thi:
            return FALSE
        return mk('ovf', op, a, b)

    def deref_val(self, st, v):
        while v.op == 'ref':
            v = self.load(st, v.a[0], v.a[1])
        return v

    def discr(self, v, aid):
        if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1] in self.F.adts:
            for vd in self.F.adts[v.a[0][1]]['variants']:
                if vd['name'] == v.a[0][2]:
                    return I(wrap(int(vd['discr']), 'i64'), 'isize')
        b = v
        while b.op == 'fld':
            b = b.a[0]
        if b.op == 'scalar' and isinstance(b.a[0], int):
            return I(b.a[0], 'isize')
        return mk('discr', v, aid)

    def variants(self, aid):
        return [v['name'] for v in self.F.adts[aid]['variants']] if aid in self.F.adts else []

    # ---- branching
    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        targets, other, tyi = t[2], t[3], t[4]
        if v.op == 'discr' and v.a[1]:
            aid = v.a[1]
            vds = self.F.adts[aid]['variants']
            by = {wrap(int(d['discr']), 'i128'): d['name'] for d in vds}
            out, seen = [], []
            for val, bb in targets:
                name = by.get(val)
                if name is None:
                    name = by.get(wrap(val, 'i64'))
                if name is None:
                    continue
                seen.append(name)
                f = st.facts.with_variant(v.a[0], name)
                if f is not None:
                    out.append(('go', bb, st.with_facts(f)))
            rest = [d['name'] for d in vds if d['name'] not in seen]
            if rest and not self.is_unreach(fr, other):
                f = st.facts.without_variants(v.a[0], seen, [d['name'] for d in vds])
                if f is not None:
                    out.append(('go', other, st.with_facts(f)))
            return out
        ty = self.T(tyi, fr.subst)
        if v.op in ('int', 'bool', 'char'):
            x = int(v.a[0]) if v.op != 'char' else ord(v.a[0])
            if ty[0] == 'int' and x < 0:
                x &= (1 << bits_of(ty[1])) - 1
            for val, bb in targets:
                if val == x:
                    return [('go', bb, st)]
            return [('go', other, st)]
        out = []
        if ty == ('bool',) or v.op in ('eq', 'un') or (v.op == 'bin' and v.a[0] in ('Lt',)):
            tv = {val: bb for val, bb in targets}
            for val in (False, True):
                bb = tv.get(int(val), other)
                for f in st.facts.assume(v, val):
                    out.append(('go', bb, st.with_facts(f)))
            return out
        facts = st.facts
        for val, bb in targets:
            c = wrap(val, ty[1]) if ty[0] == 'int' else val
            lit = I(c, ty[1]) if ty[0] == 'int' else (mk('char', chr(c)) if ty == ('char',) else I(c))
            for f in st.facts.assume(eq(v, lit), True):
                out.append(('go', bb, st.with_facts(f)))
            g = facts.assume(eq(v, lit), False)
            if not g:
                return out
            facts = g[0]
        if not self.is_unreach(fr, other):
            out.append(('go', other, st.with_facts(facts)))
        return out

    def is_unreach(self, fr, bb):
        b = fr.body['blocks'][bb]
        return b['t'][0] == 'unreach' and not b['s']

    def assert_(self, st, fr, t, sp):
        c = self.operand(st, fr, t[1])
        exp = t[2]
        msg = t[4]
        if msg[0] == 'overflow' and c.op == 'bin' and c.a[0] == 'Lt':
            # shift amount
            pass
        out = [('go', t[3], st.with_facts(f)) for f in st.facts.assume(c, exp)]
        bad = st.facts.assume(c, not exp)
        if bad:
            self.panic(st.with_facts(bad[0]), fr, msg[0], sp, (c,))
            if msg[0] == 'overflow':
                # arithmetic overflow: in release builds the value wraps; keep both readings' facts
                out = [('go', t[3], st.with_facts(f)) for f in st.facts.assume(c, exp)]
        return out

    def array_len(self, st, a, t):
        """An array becoming a slice has the length of its type."""
        mm = re.match(r'^(\d+)', str(t[2][1] if isinstance(t[2], tuple) else t[2])) if len(t) > 2 else None
        n = length(self.deref_val(st, a))
        if mm and n.op == 'len':
            fs = st.facts.assume(eq(n, I(int(mm.group(1)), 'usize')), True)
            if len(fs) == 1:
                st.facts = fs[0]

    def panic(self, st, fr, kind, sp, detail=()):
        self.panics.append(Panic(kind, sp, fr.chain(), st.facts, detail, st.ev))

    # ---- calls
    def call_term(self, st, fr, b, t):
        _, fo, ao, dest, target, sp = t
        args = [self.operand(st, fr, o) for o in ao]
        ftv = self.operand(st, fr, fo)
        self.calls += 1
        c = Call(self, fr, b, ftv, ao, dest, sp)
        if target is None:
            self.panic(st, fr, 'panic', sp, (ftv,) + tuple(args))
            return []
        res = self.invoke(st, fr, c, ftv, args)
        out = []
        for s, v in res:
            if v is None:
                continue
            if v is SKIP:
                out.append(('go', self.innermost_head(fr, b), s))
                continue
            self.write(s, fr, dest, v)
            out.append(('go', target, s))
        return out

    def innermost_head(self, fr, b):
        best = None
        for h, bl in self.cfg(fr.body).loops.items():
            if b in bl and (best is None or len(bl) < len(self.cfg(fr.body).loops[best])):
                best = h
        return best

    def skip_ok(self, fr, b):
        """May the call in block b be re-executed by going to the head of its innermost loop?"""
        h = self.innermost_head(fr, b)
        x = h
        for _ in range(4):
            if x is None:
                return False
            if x == b:
                return True
            t = fr.body['blocks'][x]['t']
            if any(s[0] == '=' and s[2][0] not in ('ref', 'use') for s in fr.body['blocks'][x]['s']):
                return False
            x = t[1] if t[0] == 'goto' else None
        return False

    def invoke(self, st, fr, c, f, args):
        """Call function value f: list of (state, value)."""
        if f.op == 'ref':
            f = self.deref_val(st, f)
        if f.op == 'fn':
            return self.call_fn(st, fr, c, f, args)
        if f.op == 'agg' and f.a[0][0] == 'closure':
            return self.call_closure(st, fr, c, f, args, f)
        return self.opaque_call(st, fr, c, ('callback', f), [f] + list(args), effect=True)

    def call_closure(self, st, fr, c, clos, args, envval):
        body = self.F.bodies.get(clos.a[0][1])
        if body is None:
            return self.opaque_call(st, fr, c, 'closure', [clos] + list(args))
        return self.inline(st, fr, c, body, dict(clos.a[0][2]), [envval] + list(args))

    def inline(self, st, fr, c, body, subst, args):
        self.inlined.add(body['id'])
        n = 0
        f = fr
        while f is not None:
            if f.root is body:
                n += 1
            f = f.parent
        if n >= 3:
            raise AnalysisError('recursion through ' + body['name'])
        fid = self.fid(fr.fid, c.at(), body['id'])
        nf = Frame(fid, body, subst, body, fr.depth + 1, fr, c.sp)
        s = st.fork()
        for i, a in enumerate(args):
            s.mem[(fid, i + 1)] = a
        outs = self.run_blocks(s, nf)
        return [(o.st, o.ret) for o in self.merge(outs)]

    def merge(self, outs):
        """Join outcomes that differ only in facts."""
        if len(outs) < 2:
            return outs
        groups = {}
        order = []
        for o in outs:
            k = (o.ret, id(o.st.ev), tuple(sorted((k[0], k[1] if not isinstance(k[1], tuple) else 0, v.id) for k, v in o.st.mem.items()) if False else ()))
            g = groups.get(k)
            if g is None:
                groups[k] = [o]
                order.append(k)
            else:
                g.append(o)
        return [o for k in order for o in self.merge_group(groups[k])]

    def merge_group(self, g):
        return g

    def fresh(self):
        self._n += 1
        return self._n

    def is_enum(self, aid):
        return aid in self.F.adts and self.F.adts[aid]['kind'] == 'enum'

    def is_opaque(self, body):
        o = self.opaque
        return o(body) if callable(o) else body['id'] in o

    def call_fn(self, st, fr, c, f, args):
        fid_, path, targs, trait, selfty, rid, rargs, ctor, unsafe = f.a
        if ctor:
            vd = self.F.adts[ctor[0]]['variants'][ctor[1]]
            return [(st, adt(ctor[0], vd['name'], *args))]
        name = norm(path)
        c.f, c.name, c.targs, c.selfty, c.trait = f, name, targs, selfty, trait
        body, subst = None, None
        if trait:
            method = fid_.rsplit('::', 1)[1]
            if trait in self.opaque_traits:
                im = None
                concrete = self.find_impl(trait, targs, method)
                pol = self.trait_policy(trait, method, targs, concrete)
                if pol != 'inline':
                    return self.boundary(st, fr, c, trait, method, targs, args)
            fi = self.find_impl(trait, targs, method)
            if fi:
                bid, s, im = fi
                body = self.F.bodies.get(bid)
                if body is not None:
                    if body['derived']:
                        r = self.derived(st, fr, c, trait, method, args)
                        if r is not None:
                            return r
                    ng = [g for g in body['generics'] if g not in im['generics']]
                    subst = dict(s)
                    subst.update(self.bind(ng, targs[len(im['targs']):]))
            elif trait.startswith(CRATE):
                # default method of a local trait
                td = next((i for i in self.F.traits[trait]['items'] if i['name'] == method), None) if trait in self.F.traits else None
                if td and td['default'] and td['id'] in self.F.bodies and self.impl_exists_or_param(trait, targs):
                    body = self.F.bodies[td['id']]
                    subst = self.bind(body['generics'], targs)
                else:
                    return self.boundary(st, fr, c, trait, method, targs, args)
        if body is None and rid and rid in self.F.bodies and self.F.bodies[rid]['kind'] != 'Ext' and name not in BY_VALUE:
            body = self.F.bodies[rid]
            if body['derived']:
                r = self.derived(st, fr, c, trait, rid.rsplit('::', 1)[1], args)
                if r is not None:
                    return r
            subst = self.bind(body['generics'], rargs if rargs is not None else targs)
        if body is not None:
            if not self.is_opaque(body):
                return self.inline(st, fr, c, body, subst, args)
            return self.opaque_call(st, fr, c, body['name'] if not subst else (body['name'],), args, effect=self.opaque_effect(body), local=body)
        m = self.models.lookup(name)
        if m is not None:
            r = m(self, st, fr, c, args)
            if r is not None:
                return r
        # the standard library's own MIR
        if rid and rid in self.F.bodies:
            b = self.F.bodies[rid]
            return self.inline(st, fr, c, b, self.bind(b['generics'], rargs if rargs is not None else targs), args)
        if trait and selfty is not None:
            ext = self.models.ext_trait(self, trait, fid_.rsplit('::', 1)[1], selfty)
            if ext and ext in self.F.bodies:
                b = self.F.bodies[ext]
                return self.inline(st, fr, c, b, self.bind(b['generics'], targs), args)
        if c.dest is not None and not c.sub and c.dest_is_future():
            return [(st, mk('fut', name, tuple(self.resolve_args(st, args)), c.site(), tuple(targs)))]
        self.unknown[name] = self.unknown.get(name, 0) + 1
        return self.opaque_call(st, fr, c, name, args, effect=self.models.effectful(name))

    def impl_exists_or_param(self, trait, targs):
        return True

    def trait_policy(self, trait, method, targs, concrete):
        return 'opaque'

    def opaque_effect(self, body):
        return True

    def derived(self, st, fr, c, trait, method, args):
        if trait == 'core::clone::Clone' or method == 'clone':
            return [(st, self.deref_val(st, args[0]))]
        if method in ('eq', 'ne'):
            r = self.models.eq_values(self, st, args[0], args[1])
            return r if method == 'eq' else [(s, unop('Not', e)) for s, e in r]
        if trait == 'core::default::Default':
            return None
        if trait == 'core::fmt::Debug':
            return None
        return None

    def boundary(self, st, fr, c, trait, method, targs, args):
        nm = trait.split('::')[-1] + '::' + method
        isasync = c.dest_is_future()
        if isasync:
            vals = self.resolve_args(st, args)
            return [(st, mk('fut', nm, tuple(vals), c.site(), tuple(targs)))]
        return self.opaque_call(st, fr, c, nm, args, effect=self.models.boundary_effect(trait, method), targs=targs)

    def resolve_args(self, st, args):
        return [self.resolve(st, a) for a in args]

    def resolve(self, st, a, depth=0):
        """Replace mutable references in a by the values they point to."""
        if not any(x.op == 'ref' for x in subterms(a)):
            return a
        if depth > 6:
            return a
        return rewrite(a, lambda t: self.resolve(st, self.load(st, t.a[0], t.a[1]), depth + 1) if t.op == 'ref' else None)

    def opaque_call(self, st, fr, c, name, args, effect=False, local=None, targs=None):
        vals = self.resolve_args(st, args)
        refs = [a for a in args if a.op == 'ref']
        inner = []
        for a in args:
            if a.op != 'ref':
                inner += [x for x in subterms(a) if x.op == 'ref']
        ta = tuple(targs if targs is not None else ())
        if local is None and any(x.op == 'fut' or (x.op == 'agg' and x.a[0][0] in ('closure', 'coroutine')) for v in vals for x in subterms(v)):
            if not all(self.effect_free(st, fr, c, x) for v in vals for x in subterms(v) if x.op == 'fut' or (x.op == 'agg' and x.a[0][0] in ('closure', 'coroutine'))):
                self.escapes.append((name, fr.chain()))
        site = c.site() if (effect or refs or inner) else None
        r = call(name, vals, site, ta)
        if effect or refs or inner:
            st = st.fork()
            st.add(Event('call', name, vals, r, st.facts, self.where(fr, c.sp), ta))
            for i, a in enumerate(refs):
                self.store(st, a.a[0], a.a[1], mk('hav', r, i))
            for i, a in enumerate(inner):
                self.store(st, a.a[0], a.a[1], mk('hav', r, 100 + i))
        return [(st, r)]

    def effect_free(self, st, fr, c, clos):
        """Code given to a function of another library which can only compute."""
        if clos.op != 'agg' or clos.a[0][0] != 'closure' or clos.a[0][1] not in self.F.bodies:
            return False
        b = self.F.bodies[clos.a[0][1]]
        n, np = len(st.events()), len(self.panics)
        try:
            outs = self.call_closure(st, fr, c, clos, [mk('par', 'given %d' % i) for i in range(b['argc'] - 1)], clos)
        except AnalysisError:
            return False
        finally:
            del self.panics[np:]
        return all(len(s.events()) == n and not any(x.op == 'fut' for x in subterms(v)) for s, v in outs)

    # ---- forking on the variant of a value
    def fork_variant(self, st, v, aid):
        """[(state, variantname, [payload terms])]"""
        v = self.deref_val(st, v)
        if is_adt(v):
            return [(st, v.a[0][2], list(v.a[1]))]
        out = []
        for vd in self.F.adts[aid]['variants']:
            f = st.facts.with_variant(v, vd['name'])
            if f is not None:
                out.append((st.with_facts(f), vd['name'], [fld(v, vd['name'], x['name']) for x in vd['fields']]))
        return out

    def fork_bool(self, st, v):
        """[(state, True/False)]"""
        out = []
        for val in (True, False):
            for f in st.facts.assume(v, val):
                out.append((st.with_facts(f), val))
        return out

    # ------------------------------------------------------------------ entry points
    def entry(self, body, args=None, subst=None, st=None, names=None):
        """Analyse body with unconstrained arguments: outcomes.  Async functions are run to completion."""
        st = st.fork() if st else State()
        fr0 = Frame(0, body, subst or {}, body, 0)
        if args is None:
            args = self.params(st, body, names)
        elif any(a is None for a in args):
            args = [a if a is not None else p for a, p in zip(args, self.params(st, body, names))]
        c = Call(self, fr0, 0, None, [], None, body['sp'])
        outs = self.inline(st, fr0, c, body, subst or {}, args)
        res = []
        for s, v in outs:
            res += self.complete(s, fr0, c, v)
        return [Outcome(s, v) for s, v in res]

    def params(self, st, body, names=None):
        args = []
        for i in range(body['argc']):
            ty, nm = body['locals'][i + 1]
            nm = (names or {}).get(i) or nm or 'arg%d' % i
            t = self.T(ty)
            v = self.param_value(nm, t)
            if t[0] == 'ref' and t[2]:
                loc = ('in', nm)
                st.mem[loc] = v
                v = mk('ref', loc, ())
            args.append(v)
        return args

    def param_value(self, nm, t):
        while t[0] == 'ref':
            t = t[1]
        if t[0] == 'tuple':
            return tup(*[self.param_value('%s.%d' % (nm, i), x) for i, x in enumerate(t[1])])
        if t[0] == 'int':
            return mk('par', nm, t[1])
        return mk('par', nm)

    def complete(self, st, fr, c, v):
        """Drive a returned future to completion."""
        if v.op == 'agg' and v.a[0][0] == 'coroutine':
            return self.poll(st, fr, c, v)
        if v.op == 'fut':
            return self.poll(st, fr, c, v)
        return [(st, v)]

    def poll(self, st, fr, c, fut):
        """Result(s) of awaiting fut (always run to completion)."""
        fut = self.deref_val(st, fut)
        if fut.op == 'agg' and fut.a[0][0] == 'coroutine':
            body = self.F.bodies[fut.a[0][1]]
            return self.inline(st, fr, c, body, dict(fut.a[0][2]), [fut, mk('par', '_task_context')])
        if fut.op == 'fut':
            nm, args, site, targs = fut.a
            h = self.models.FUTURES.get(nm)
            st = st.fork()
            r = call(nm, args, site, targs)
            if h is not None:
                return h(self, st, fr, c, fut, r)
            st.add(Event('call', nm, args, r, st.facts, self.where(fr, c.sp), targs))
            return [(st, r)]
        st = st.fork()
        r = mk('await', fut)
        st.add(Event('call', 'await', (fut,), r, st.facts, self.where(fr, c.sp)))
        return [(st, r)]


CRATE = 'hyperborealib'
SKIP = mk('SKIP')


class Call:
    """A call site in a frame."""

    def __init__(self, I, fr, bb, ft, ops, dest, sp):
        self.I, self.fr, self.bb, self.ops, self.dest, self.sp = I, fr, bb, ops, dest, sp
        self.f = ft
        self.name = None
        self.targs = ()
        self.selfty = None
        self.trait = None
        self.sub = 0

    def at(self):
        return (self.bb, self.sub)

    def site(self):
        return (self.fr.fid, self.bb, self.sub)

    def subcall(self, k):
        d = Call(self.I, self.fr, self.bb, self.f, self.ops, self.dest, self.sp)
        d.sub = (self.sub, k)
        d.name, d.targs, d.selfty, d.trait = self.name, self.targs, self.selfty, self.trait
        return d

    def dest_ty(self):
        return self.I.place_ty(self.fr, self.dest) if self.dest is not None else None

    def dest_is_future(self):
        t = self.dest_ty()
        return is_future_ty(t)

    def arg_ty(self, i):
        return self.I.op_ty(self.fr, self.ops[i]) if i < len(self.ops) else None


def is_future_ty(t):
    if t is None:
        return False
    if t[0] == 'adt' and t[1] == 'core::pin::Pin':
        return is_future_ty(t[2][0]) or (t[2][0][0] == 'adt')
    if t[0] == 'adt' and t[1] == 'alloc::boxed::Box':
        return is_future_ty(t[2][0])
    if t[0] == 'dyn':
        return t[1] == 'core::future::future::Future'
    return t[0] in ('coroutine', 'opaque')


def same_facts(a, b):
    return a.v == b.v and a.b == b.b and a.r == b.r and a.s == b.s


def strip(ev, lp):
    """Remove lp's loop marker from an event list."""
    out = []
    while ev is not None and not (ev[1].kind == 'loop' and ev[1].data is lp):
        out.append(ev[1])
        ev = ev[0]
    if ev is None:
        base = None
    else:
        base = ev[0]
    for e in reversed(out):
        base = (base, e)
    return base


class CFG:
    """Natural loops of a MIR body (head -> set of blocks)."""

    def __init__(self, body):
        bl = body['blocks']
        n = len(bl)
        succ = [self.succ(b) for b in bl]
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body_:
                            body_.add(x)
                            st += pred[x]
        self.succs = succ
        self.reach = seen

    @staticmethod
    def succ(b):
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'drop':
            return [t[2]]
        if k == 'switch':
            return [x for _, x in t[2]] + [t[3]]
        if k == 'assert':
            return [t[3]]
        if k == 'yield':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        return []

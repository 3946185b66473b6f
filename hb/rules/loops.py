"""Reading loops: what a list built by a loop contains, worklists with visited sets."""
from .base import *


def loops_of(outs):
    """All loop summaries reachable from outcomes' (and loop paths') events, innermost included."""
    seen, order = set(), []

    def ev(events):
        for e in events:
            if e.kind == 'loop' and id(e.data) not in seen:
                seen.add(id(e.data))
                order.append(e.data)
                for s in e.data.paths:
                    ev(s.events())
                for k, b, s in e.data.exits:
                    ev(s.events())
    for o in outs:
        ev(o.events)
    return order


def since(events, lp):
    """(events before the loop, events since the head of its last iteration, is lp the innermost open loop)"""
    n = None
    for i, e in enumerate(events):
        if e.kind == 'loop' and e.data is lp:
            n = i
    return None if n is None else events[n + 1:]


def index_phi(lp):
    """Index variables counting 0, 1, 2, ... in lp."""
    out = []
    for ph, (init, backs) in lp.phis.items():
        if init is not None and init.op == 'int' and init.a[0] == 0 and backs and all(b is not None and b.op == 'bin' and b.a[0] == 'Add' and ph in (b.a[1], b.a[2]) and any(x.op == 'int' and x.a[0] == 1 for x in (b.a[1], b.a[2])) for b in backs):
            out.append(ph)
    return out


class Each:
    """Elements produced by a complete pass over src: for each index, one of `ways` = (facts, [elements])."""

    def __init__(self, src, ph, ways, lp):
        self.src, self.ph, self.ways, self.lp = src, ph, ways, lp

    def elem(self):
        return self.src, self.ph


def parts_of(I, facts, t, depth=0):
    """A list term as parts: ('one', x) | ('all', list) | ('each', Each).  None where not understood."""
    if t.op == 'cat':
        out = []
        for p in t.a:
            if p.op == 'one':
                out.append(('one', p.a[0]))
            else:
                r = parts_of(I, facts, p, depth)
                if r is None:
                    return None
                out += r
        return out
    if t.op == 'agg' and t.a[0][0] == 'array':
        return [('one', x) for x in t.a[1]]
    if t.op == 'phi' and t in I.phi_loop and depth < 6:
        lp = I.phi_loop[t]
        if t not in lp.phis:
            return [('all', t)]
        init, backs = lp.phis[t]
        ix = index_phi(lp)
        ways, src, ixp = [], None, None
        for st, b in zip(lp.paths, backs):
            if b is t:
                ways.append((st, []))
            elif b is not None and b.op == 'cat' and b.a[0] is t and all(x.op == 'one' for x in b.a[1:]):
                ways.append((st, [x.a[0] for x in b.a[1:]]))
            else:
                return [('all', t)]
        # the list being walked: the one whose length bounds the index
        for ph in ix:
            for st, _ in ways:
                for f, x in st.facts.b.items():
                    if x is True and f.op == 'bin' and f.a[0] == 'Lt' and f.a[1] is ph and f.a[2].op == 'len':
                        src, ixp = f.a[2].a[0], ph
        if src is None:
            return [('all', t)]
        if facts is not None and facts.eval(mk('bin', 'Lt', ixp, length(src), 'usize')) is not False and facts.eval(binop('Lt', ixp, length(src), 'usize')) is not False:
            return [('all', t)]
        pre = parts_of(I, None, init, depth + 1)
        if pre is None:
            return None
        return pre + [('each', Each(src, ixp, ways, lp))]
    if is_empty(t):
        return []
    return [('all', t)]


def grown(I, base, t, depth=0):
    """Elements known to have been added to the set/list `base` to give t; None if t is not base extended."""
    if t is base:
        return []
    if t is None or depth > 8:
        return None
    if t.op == 'ins':
        r = grown(I, base, t.a[0], depth + 1)
        return None if r is None else r + [t.a[1]]
    if t.op == 'minsert':
        r = grown(I, base, t.a[0], depth + 1)
        return None if r is None else r + [t.a[1]]
    if t.op == 'cat' and t.a:
        r = grown(I, base, t.a[0], depth + 1)
        return None if r is None else r + [x.a[0] for x in t.a[1:] if x.op == 'one']
    if t.op == 'phi' and t in I.phi_loop and t in I.phi_loop[t].phis:
        init, backs = I.phi_loop[t].phis[t]
        if all(b is not None and grown(I, t, b, depth + 1) is not None for b in backs):
            return grown(I, base, init, depth + 1)
    return None


def knows_absent(facts, v, k):
    """The path knows that k is not in v."""
    for t, x in facts.b.items():
        if x is False and t.op == 'contains' and t.a[0] is v and (t.a[1] is k or same(facts, t.a[1], k)):
            return True
    return False


def knows_present(facts, v, k):
    for t, x in facts.b.items():
        if x is True and t.op == 'contains' and t.a[0] is v and (t.a[1] is k or same(facts, t.a[1], k)):
            return True
    return False


def popped(q, t):
    """Is t the element a worklist gives out, from queue term q?  Returns q or None."""
    if t.op in ('front', 'back') and t.a[0].op == 'phi':
        return t.a[0]
    if t.op == 'idx' and t.a[0].op == 'phi':
        return t.a[0]
    return None


class Worklist:
    """The main loop of a worklist search: which loop sends requests, its queue, its visited set."""

    def __init__(self, I, outs, is_req, addr_of):
        self.I, self.outs, self.is_req, self.addr_of = I, outs, is_req, addr_of
        cands = []
        for lp in loops_of(outs):
            for st in self.iteration_states(lp):
                evs = since(st.events(), lp)
                if evs and any(is_req(e) for e in evs):
                    cands.append(lp)
                    break
        # the outermost loop that (transitively) requests, judged by its own queue
        self.lp = None
        for lp in cands:
            for ph in lp.phis:
                for st in self.iteration_states(lp):
                    for e in since(st.events(), lp) or ():
                        if is_req(e) and any(popped(None, x) is ph for x in subterms(addr_of(e))):
                            self.lp, self.queue = lp, ph
        self.top, self.next = self.lp, None
        if self.lp is None:
            self.layers(cands)
        if self.lp is None:
            raise AnalysisError('no worklist loop that sends the requests was recognised')

    def layers(self, cands):
        """A search layer by layer: an outer loop whose list is walked by an inner one, which collects the next list."""
        I = self.I
        for lp in cands:
            for st in self.iteration_states(lp):
                for e in since(st.events(), lp) or ():
                    for x in subterms(self.addr_of(e)) if self.is_req(e) else ():
                        q = popped(None, x)
                        out = I.phi_loop.get(q)
                        if q is None or out is None or out is lp or q not in out.phis or x.op != 'idx' or x.a[1] not in lp.phis:
                            continue
                        backs = out.phis[q][1]
                        nxt = backs[0] if backs else None
                        if nxt is None or any(b is not nxt for b in backs) or nxt not in lp.phis or not is_empty(lp.phis[nxt][0]):
                            continue
                        self.lp, self.top, self.queue, self.next = lp, out, q, nxt
                        return

    def start(self):
        """What the queue holds at first."""
        return self.top.phis[self.queue][0]

    def init(self, ph):
        """The value of a variable when the search starts."""
        t = self.lp.phis[ph][0]
        if self.top is not self.lp and t in self.top.phis:
            if all(b is ph for b in self.top.phis[t][1]):
                return self.top.phis[t][0]
        return t

    def kept(self, V):
        """Does a set of the inner loop keep its elements from one layer to the next?"""
        if self.top is self.lp:
            return True
        t = self.lp.phis[V][0]
        return t in self.top.phis and all(b is not None and grown(self.I, V, b) is not None for b in self.top.phis[t][1])

    def iteration_states(self, lp):
        return [s for s in lp.paths] + [s for k, b, s in lp.exits]

    def element(self, st):
        """The element taken in this iteration."""
        for e in self.requests(st):
            for x in subterms(self.addr_of(e)):
                if popped(None, x) is self.queue:
                    return x
        return None

    def requests(self, st):
        return [e for e in since(st.events(), self.lp) or () if self.is_req(e)]

    def back(self, i, ph):
        if ph is self.queue and self.next is not None:
            ph = self.next
        return self.lp.phis[ph][1][i]

    def once(self):
        """Is every address requested at most once?  [(ok, what)]"""
        out = []
        I, lp = self.I, self.lp
        # requests before / outside the loop
        for o in self.outs:
            evs = o.events
            n = next((i for i, e in enumerate(evs) if e.kind == 'loop' and e.data is self.top), len(evs))
            if any(self.is_req(e) for e in evs[:n]):
                out.append((False, 'a request is sent outside the search loop'))
        for st in self.iteration_states(self.top) if self.top is not lp else ():
            evs = since(st.events(), self.top) or []
            n = next((i for i, e in enumerate(evs) if e.kind == 'loop' and e.data is lp), len(evs))
            if any(self.is_req(e) for e in evs[:n]):
                out.append((False, 'a request is sent outside the search loop'))
        for st in self.top.paths if self.top is not lp else ():
            if any(self.is_req(e) for e in since(st.events(), lp) or ()):
                out.append((False, 'a request is sent after the search loop'))
        for st in self.iteration_states(lp):
            for e in since(st.events(), lp) or ():
                if e.kind == 'loop':
                    for s2 in self.iteration_states(e.data):
                        if any(self.is_req(x) for x in since(s2.events(), e.data) or ()):
                            out.append((False, 'a request is repeated in an inner loop'))
            if len(self.requests(st)) > 1:
                out.append((False, 'two requests in one iteration'))
        ok_deq, why = self.guard_dequeue()
        if not ok_deq:
            ok_enq = self.guard_enqueue()
            out.append((ok_enq, why))
        else:
            out.append((True, ''))
        return out

    def cursor(self):
        """The position the queue is read at, if elements stay in it: starts at zero, moves by one."""
        el = next((x for x in map(self.element, self.iteration_states(self.lp)) if x is not None), None)
        if el is None or el.op != 'idx' or el.a[1] not in self.lp.phis:
            return None
        n = el.a[1]
        init, backs = self.lp.phis[n]
        if init.op != 'int' or init.a[0] != 0:
            return None
        if not all(b is n or (b is not None and b.op == 'bin' and b.a[0] == 'Add' and n in b.a[1:3] and any(x.op == 'int' and x.a[0] == 1 for x in b.a[1:3])) for b in backs):
            return None
        if self.next is None and any(grown(self.I, self.queue, q) is None for q in self.lp.phis[self.queue][1]):
            return None
        return n

    def exhausted(self, facts):
        """Do the facts say that every element of the queue was taken?"""
        zero = mk('int', 0, 'usize')
        if facts.eval(eq(length(self.queue), zero)) is True:
            return True
        n = self.cursor() if self.next is None else None
        return n is not None and facts.eval(binop('Lt', n, length(self.queue), 'usize')) is False

    def skips(self):
        """Paths of an iteration which ask nobody without knowing that the taken element was asked before (or that the request cannot be written)."""
        sts = self.iteration_states(self.lp)
        keys = []
        for st in sts:
            for e in self.requests(st):
                for k in (self.addr_of(e), self.element(st)):
                    if k is not None and not any(k is x for x in keys):
                        keys.append(k)
        out = []
        for st in self.lp.paths:
            unwritten = any(t.op == 'call' and t.a[0] == 'AsJson::to_json' and st.facts.variant(t) == 'Err' for t in st.facts.v)
            if not self.requests(st) and not unwritten and not any(knows_present(st.facts, V, k) for V in self.lp.phis if self.kept(V) for k in keys):
                out.append(st)
        if self.next is not None:
            # a layer is left only when all of it was taken
            n = self.cursor()
            out += [st for st in self.top.paths if n is None or st.facts.eval(binop('Lt', n, length(self.queue), 'usize')) is not False]
        return out

    def guard_dequeue(self):
        lp, I = self.lp, self.I
        why = 'no visited set guards the requests'
        for V, (init, backs) in lp.phis.items():
            if V is self.queue or V is self.next or not self.kept(V) or any(b is None or grown(I, V, b) is None for b in backs):
                continue
            good = True
            for st in self.iteration_states(lp):
                for e in self.requests(st):
                    a = self.addr_of(e)
                    if not knows_absent(e.facts, V, a):
                        good, why = False, 'a request is sent to an address not known to be unvisited'
            for i, st in enumerate(lp.paths):
                for e in self.requests(st):
                    a = self.addr_of(e)
                    if not any(x is a or same(st.facts, x, a) for x in grown(I, V, backs[i])):
                        good, why = False, 'an address is not remembered as visited after a request'
            if good:
                return True, ''
        return False, why

    def guard_enqueue(self):
        """Every element enters the queue only if its address was not in the set, which then contains it."""
        lp, I = self.lp, self.I
        el = self.queue
        if self.next is not None:
            return False
        qinit = lp.phis[el][0]
        pi = parts_of(I, None, qinit)
        for V, (init, backs) in lp.phis.items():
            if V is el or any(b is None or grown(I, V, b) is None for b in backs):
                continue
            vi = []
            t = init
            while t.op in ('ins', 'cat') and t.a:
                if t.op == 'ins':
                    vi.append(t.a[1])
                    t = t.a[0]
                else:
                    vi += [x.a[0] for x in t.a if x.op == 'one']
                    break
            if pi is None or not all(k == 'one' and any(x is y or same(None, x, y) for y in vi) for k, x in pi):
                continue
            if all(self.enq_ok(lp.phis[el][1][i], el, backs[i], V, st.facts) for i, st in enumerate(lp.paths)):
                return True
        return False

    def enq_ok(self, q, q0, v, v0, facts):
        """q extends q0 (minus popped elements) only by elements absent from, then added to, v."""
        while q.op in ('popf', 'popb'):
            q = q.a[0]
        if q is q0:
            return True
        if q.op == 'cat':
            new = [x for x in q.a[1:]]
            if not all(x.op == 'one' for x in new):
                return False
            for x in new:
                k = x.a[0]
                ks = [k] if True else []
                if not any(y is k or same(facts, y, k) for y in grown(self.I, v0, v) or ()):
                    return False
                if not any(knows_absent(facts, w, k) for w in [v0] + [t.a[0] for t in subterms(v) if t.op == 'ins']):
                    return False
            return self.enq_ok(q.a[0], q0, v, v0, facts)
        if q.op == 'phi' and q in self.I.phi_loop:
            lp = self.I.phi_loop[q]
            init, backs = lp.phis[q]
            w = v
            while w.op == 'ins':
                w = w.a[0]
            if w.op != 'phi' or w not in lp.phis:
                return False
            wi, wb = lp.phis[w]
            return self.enq_ok(init, q0, wi, v0, facts) and all(self.enq_ok(b, q, c, w, st.facts) for b, c, st in zip(backs, wb, lp.paths))
        return False

    def follows(self, i, st, src, field):
        """Does this iteration queue `field` of every element of src (unless known to be visited)?"""
        q = self.back(i, self.queue)
        ps = parts_of(self.I, st.facts, q)
        if ps is None:
            return False
        for k, p in ps:
            if k == 'all' and field is None and same(st.facts, p, src):
                return True
            if k == 'each' and same(st.facts, p.src, src):
                el = mk('idx', p.src, p.ph)
                want = F_(el, field) if field else el
                good = True
                for s, es in p.ways:
                    if any(x is want or same(s.facts, x, want) for x in es):
                        continue
                    if any(x is True and t.op == 'contains' and same(s.facts, t.a[1], F_(el, 'address')) for t, x in s.facts.b.items()):
                        continue
                    good = False
                if good:
                    return True
            if k == 'all' and p.op == 'call' and p.a[0] == 'rev' and same(st.facts, p.a[1][0], src) and field is None:
                return True
        return False


def mapped(I, facts, t):
    """t is a list with exactly one element f(src[i]) per element of src: (src, index term, element term), else None."""
    ps = parts_of(I, facts, t)
    if ps is None or len(ps) != 1 or ps[0][0] != 'each':
        return None
    e = ps[0][1]
    if len(e.ways) != 1 or len(e.ways[0][1]) != 1:
        return None
    # no early way out that keeps the list: exits other than exhaustion return or leave the list unused
    return e.src, e.ph, e.ways[0][1][0]


def mapped_ways(I, facts, t):
    """t is a list with exactly one element per element of src, f_k(src[i]) on way k: (src, index term, [(facts, element term)]), else None."""
    ps = parts_of(I, facts, t)
    if ps is None or len(ps) != 1 or ps[0][0] != 'each':
        return None
    e = ps[0][1]
    if not e.ways or any(len(w[1]) != 1 for w in e.ways):
        return None
    return e.src, e.ph, [(st.facts, w[0]) for st, w in e.ways]


def element_of(I, facts, t):
    """idx(list built by a complete map, i) as the mapped element."""
    if t.op == 'idx':
        m = mapped(I, None, t.a[0])
        if m:
            return rewrite(m[2], lambda x: t.a[1] if x is m[1] else None)
    return t


def same_list(I, facts, t, depth=0):
    """Peel lists that copy another list element by element."""
    while depth < 6:
        m = mapped(I, facts, t)
        if m is None:
            return t
        src, ph, el = m
        if el is mk('idx', src, ph):
            t, depth = src, depth + 1
            continue
        m2 = mapped(I, facts, src)
        if m2 is None:
            return t
        if el is mk('idx', m2[0], ph):
            t, depth = m2[0], depth + 1
            continue
        return t
    return t

"""Files and ports: routing table, inbox, port forwarding: C31-C38."""
from .base import *
from .rest import SELF, params_of, type_name
from .loops import loops_of, since, parts_of, index_phi, knows_absent, mapped, mapped_ways, element_of
from .crypto import draws, spread

FS = re.compile(r'(^|::)fs::')
PATHLESS = {'next_entry', 'poll_next_entry', 'path', 'file_name', 'file_type', 'is_file', 'is_dir', 'is_symlink', 'len', 'modified', 'created', 'accessed', 'metadata_of', 'new', 'read_only', 'permissions',
            'sync_all', 'sync_data', 'set_len', 'flush', 'append', 'create', 'truncate', 'options'}
TWO = {'rename', 'copy', 'hard_link', 'symlink', 'symlink_file', 'symlink_dir', 'soft_link'}
MUTATING = {'write', 'remove_file', 'remove_dir', 'remove_dir_all', 'rename', 'copy', 'create_dir', 'create_dir_all', 'hard_link', 'symlink', 'create', 'create_new', 'set_permissions', 'open', 'set_len'}
TESTS = ('exists', 'try_exists', 'is_file', 'is_dir')


def op_of(name):
    return norm(name).split('::')[-1]


def is_fs(e):
    return e.kind == 'call' and (FS.search(norm(e.name)) is not None or norm(e.name).startswith(('path::Path::', 'std::path::Path::')) and op_of(e.name) in TESTS + ('canonicalize', 'read_dir', 'metadata'))


def all_events(I, outs):
    """Every event of outcomes and of the loops they contain, once."""
    seen = set()
    for o in outs:
        for e in o.events:
            if id(e) not in seen:
                seen.add(id(e))
                yield e
    for lp in loops_of(outs):
        for st in lp.paths + [s for k, b, s in lp.exits]:
            for e in st.events():
                if id(e) not in seen:
                    seen.add(id(e))
                    yield e


def path_args(e):
    n, a = op_of(e.name), list(e.args)
    t = norm(e.name).split('::')
    if len(t) > 1 and t[-2] in ('OpenOptions', 'DirBuilder'):
        return a[1:2] if n in ('open', 'create') and len(a) > 1 else []
    if len(t) > 1 and t[-2] in ('ReadDir', 'DirEntry', 'Metadata', 'FileType', 'Permissions'):
        return []
    if len(t) > 1 and t[-2] == 'File' and n not in ('open', 'create', 'create_new'):
        return []
    if n in TWO:
        return a[:2]
    return a[:1]


# ------------------------------------------------------------------ paths
def url_safe(engine):
    return 'URL_SAFE' in show(engine)


def text_parts(t):
    return list(t.a) if t.op == 'cat' else [t]


def safe_text(t):
    """(ok, why, cannot be empty) for one piece of a path component."""
    if t.op == 'one':
        t = t.a[0]
    if t.op == 'str':
        bad = [ch for ch in '/\\\0' if ch in t.a[0]]
        return not bad, 'the text %r' % t.a[0], False
    if t.op == 'char':
        return str(t.a[0]) not in '/\\\0', show(t), False
    if t.op == 'call' and t.a[0] == 'b64enc':
        return url_safe(t.a[1][1]), 'base64 text whose alphabet contains "/"', nonempty(t.a[1][0])
    if t.op == 'call' and t.a[0] in ('dec', 'hex', 'dec:u64', 'lower_hex', 'upper_hex'):
        return True, '', True
    if t.op == 'call' and isinstance(t.a[0], str) and t.a[0].split('::')[-1] == 'file_name':
        return True, '', True
    return False, show(t)[:160], False


def nonempty(t):
    if t.op == 'call' and t.a[0] in ('sec1', 'skbytes', 'to_be_u64', 'to_le_u64'):
        return True
    if t.op == 'cat':
        return any(nonempty(x) for x in t.a)
    return t.op in ('str', 'bytes') and len(t.a[0]) > 0


def safe_component(t):
    """None if t is one path component that stays in its folder, else why not."""
    if t.op == 'str' and t.a[0] in ('.', ''):
        return None
    lit, full = '', False
    for p in text_parts(t):
        ok, why, ne = safe_text(p)
        if not ok:
            return why
        if p.op == 'str':
            lit += p.a[0]
        full = full or ne
    if not full and lit.replace('.', '') == '' and lit and not (t.op == 'str' and lit not in ('..',)) :
        return 'a component of dots: %s' % show(t)
    return None


def undrain(I, t):
    """An element taken from the front or back of a list that a loop only takes elements from is some element of that list."""
    def f(x):
        if x.op in ('front', 'back') and x.a[0].op == 'phi' and x.a[0] in I.phi_loop:
            ph = x.a[0]
            lp = I.phi_loop[ph]
            if ph in lp.phis:
                init, backs = lp.phis[ph]
                if backs and all(b is ph or b is not None and b.op in ('popf', 'popb') and b.a[0] is ph for b in backs):
                    return mk('idx', init, mk('drawn', ph))
        return None
    return rewrite(t, f) if any(x.op in ('front', 'back') for x in subterms(t)) else t


def inside(t, roots, I=None, depth=0):
    """None if path t lies in (or is) one of the roots, else why not."""
    if I is not None:
        t = undrain(I, t)
    if t.op == 'idx' and I is not None and depth < 4:
        ps = parts_of(I, None, t.a[0])
        if ps is not None and all(k != 'all' for k, _ in ps):
            for k, p in ps:
                for x in ([p] if k == 'one' else [el for st, els in p.ways for el in els]):
                    w = inside(x, roots, I, depth + 1)
                    if w:
                        return w
            return None
        ph = t.a[0]
        if ph.op == 'phi' and ph in I.phi_loop and ph in I.phi_loop[ph].phis:
            # a list extended in a loop: every element ever added
            init, backs = I.phi_loop[ph].phis[ph]
            els = list_elements(init)
            for b in backs:
                a = pushed(b, ph)
                els = None if els is None or a is None else els + a
            if els is not None:
                for x in els:
                    w = inside(x, roots, I, depth + 1)
                    if w:
                        return w
                return None
    if any(t is r for r in roots):
        return None
    if t.op == 'fld' and I is not None and depth < 4:
        # a part of a list element: of every element it may be
        x = t
        while x.op == 'fld':
            x = x.a[0]
        els = grown_elements(I, x.a[0]) if x.op == 'idx' else None
        if els is not None:
            for y in els:
                w = inside(rewrite(t, lambda z: y if z is x else None), roots, I, depth + 1)
                if w:
                    return w
            return None
    if t.op == 'call' and t.a[0] == 'entry_path':
        d = [x for x in subterms(t) if x.op == 'call' and isinstance(x.a[0], str) and op_of(x.a[0]) == 'read_dir']
        if not d:
            return 'a directory entry of unknown origin'
        return inside(d[0].a[1][0], roots)
    if t.op == 'path':
        w = inside(t.a[0], roots)
        if w:
            return w
        for c in t.a[1:]:
            w = safe_component(c)
            if w:
                return w
        return None
    if t.op == 'phi':
        return 'a path changed in a loop'
    return 'not below the storage folder: %s' % show(t)[:160]


def grown_elements(I, t, depth=0):
    """Every element ever added to a list extended in loops; None if unknown."""
    if depth > 4:
        return None
    els = list_elements(t)
    if els is not None:
        return els
    if t.op == 'cat':
        els = []
        for x in t.a:
            e = [x.a[0]] if x.op == 'one' else grown_elements(I, x, depth + 1)
            if e is None:
                return None
            els += e
        return els
    if t.op == 'phi' and t in I.phi_loop and t in I.phi_loop[t].phis:
        init, backs = I.phi_loop[t].phis[t]
        els = grown_elements(I, init, depth + 1) if init is not None else None
        for b in backs:
            a = pushed(b, t)
            els = None if els is None or a is None else els + a
        return els
    return None


def list_elements(t):
    if t is None:
        return None
    if is_empty(t):
        return []
    if t.op == 'cat' and all(x.op == 'one' for x in t.a):
        return [x.a[0] for x in t.a]
    return None


def owner(F, b):
    """The function a closure body belongs to."""
    while b is not None and b['kind'] not in ('Fn', 'AssocFn', 'Ctor', 'Ext'):
        b = F.bodies.get(b['parent'])
    return b


def fs_sites(F):
    """[(body, callee, where)] of every call to a file function in the crate."""
    out = []
    for b in F.bodies.values():
        if b['kind'] == 'Ext' or not b['blocks'] or not b['name'].lstrip('<&').startswith('hyperborealib'):
            continue
        for blk in b['blocks']:
            n = callee(blk)
            if n and (FS.search(norm(n)) or norm(n).startswith('std::path::Path::') and op_of(n) in TESTS) and op_of(n) not in ('path', 'file_name'):
                out.append((b, norm(n), blk.get('sp', b['sp'])))
    return out


def callee(blk):
    t = blk['t']
    if t[0] != 'call' or t[1][0] != 'k' or t[1][1]['k'] != 'fn':
        return None
    f = t[1][1]['f']
    return f['rpath'] or f['path']


def callers(F):
    """{function id: ids of local functions that mention it}"""
    out = {}
    for b in F.bodies.values():
        if b['kind'] == 'Ext' or not b['blocks']:
            continue
        o = owner(F, b)
        for blk in b['blocks']:
            t = blk['t']
            if t[0] == 'call' and t[1][0] == 'k' and t[1][1]['k'] == 'fn':
                f = t[1][1]['f']
                k = f.get('rid') or f.get('id')
                if k and o is not None:
                    out.setdefault(k, set()).add(o['id'])
    return out


def reach(F, seeds):
    """Functions that reach one of seeds, and those of them nobody local calls (or trait methods)."""
    cs = callers(F)
    todo, seen = list(seeds), set(seeds)
    while todo:
        x = todo.pop()
        for y in cs.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    roots = []
    for i in seen:
        b = F.bodies[i]
        im = F.impls.get(b.get('impl')) if b.get('impl') else None
        if (im and im['trait']) or not (cs.get(i, set()) - {i}):
            roots.append(b)
    return sorted(roots, key=lambda b: b['name'])


def roots_of(F, b):
    """Terms a function may take as its storage folder: PathBuf fields of self, or a constructor's path parameter."""
    out = []
    a = None
    im = F.impls.get(b.get('impl')) if b.get('impl') else None
    if im:
        a = self_adt(F, im)
    ps = params_of(F, b)
    if ps and ps[0][0] == 'self' and a:
        for v in F.adts[a]['variants']:
            for f in v['fields']:
                t = F.types[f['ty']] if isinstance(f.get('ty'), int) else None
                if t is None or 'PathBuf' in t['s']:
                    out.append(F_(SELF, f['name']))
    elif ps and (not b.get('exported', True) or a):
        for n, t in ps:
            out.append(mk('par', n))
    return out


@prop('C31', 'every call of a file function in the crate is reached by the value-flow analysis of the functions containing it; on every path each path argument must be the storage folder itself or that folder extended by components each of which is a constant, URL-safe base64 text, a decimal number, or a name listed from a directory inside it: text free of separators that cannot be a parent reference')
def c31(ck):
    F = ck.F
    sites = fs_sites(F)
    seeds = {owner(F, b)['id'] for b, _, _ in sites if owner(F, b)}
    covered = set()
    for b in reach(F, seeds):
        ses = ck.session()
        outs = ses.entry(b)
        roots = roots_of(F, b)
        ck.count('functions')
        for e in all_events(ses.I, outs):
            if not is_fs(e):
                continue
            covered.add((e.where[0], norm(e.name)))
            for p in path_args(e):
                ck.count('path arguments')
                w = inside(canon(e.facts, p), roots, ses.I)
                ck.ob('%s: %s stays inside the storage folder' % (short(b), op_of(e.name)), w is None, e.where[1], w or '')
                ck.sample('%s %s' % (op_of(e.name), show(p)))
    for b, n, sp in sites:
        ck.count('file calls')
        ck.ob('%s: the file call %s is reached by the analysis' % (short(b), op_of(n)), (b['name'], n) in covered or any(c[1] == n and c[0].split('::{')[0] == b['name'].split('::{')[0] for c in covered), sp, n)
    ck.floor('file calls', 3)
    ck.floor('functions', 4)


def short(b):
    """Type::method of a body, without paths."""
    n = b['name'].split('::{closure')[0]
    m = re.match(r'<(.*?) as .*>::(\w+)$', n)
    if m:
        return '%s::%s' % (m.group(1).split('::')[-1], m.group(2))
    return '::'.join(n.split('::')[-2:])


# ------------------------------------------------------------------ effects on files
class Write:
    def __init__(self, path, data, event, done):
        self.path, self.data, self.event, self.done = path, data, event, done


def effects(o):
    """[Write] in order: whole-file writes of an outcome, following renames of what was written."""
    out = []
    for e in o.events:
        if not is_fs(e):
            continue
        n = op_of(e.name)
        if n == 'write' and len(e.args) >= 2:
            out.append(Write(e.args[0], e.args[1], e, e.res))
        elif n == 'rename' and len(e.args) == 2:
            for w in reversed(out):
                if w.path is e.args[0]:
                    out.append(Write(e.args[1], w.data, e, e.res))
                    break
        elif n == 'copy' and len(e.args) == 2:
            for w in reversed(out):
                if w.path is e.args[0]:
                    out.append(Write(e.args[1], w.data, e, e.res))
                    break
    return out


def writes(o):
    for w in effects(o):
        yield w.path, w.data, w.event


def ok_known(f, t):
    return t is not None and f.variant(t) == 'Ok'


def not_found(f, t):
    """The path knows that operation t failed because the file does not exist."""
    k = call('kind', (fld(t, 'Err', '0'),))
    return f.variant(t) == 'Err' and f.variant(k) == 'NotFound'


def handled(f, t):
    return ok_known(f, t) or not_found(f, t)


def router_impls(F):
    return [(a, im) for a, im in impls_of(F, 'Router') if a and a.startswith('hyperborealib')]


TABLES = (('local', 'index_local_client', 'local_clients'), ('remote', 'index_remote_client', 'remote_clients'), ('server', 'index_server', 'servers'))


def json_of(t):
    """The JSON value a written text is the serialisation of."""
    if t.op == 'call' and t.a[0] == 'json_text':
        return t.a[1][0]
    if t.op == 'fld' and t.a[1] == 'Ok' and t.a[0].op == 'call' and t.a[0].a[0] in ('json_to_vec', 'json_to_string'):
        return t.a[0].a[1][0]
    return None


HOLE = mk('hole')


def keyed(path, key):
    """path with the encoding of key `key` replaced by a hole."""
    want = call('sec1', (F_(key, '0'),))
    return rewrite(path, lambda x: HOLE if x is want else None)


def bijective(t):
    """Is the path component an injective function of the hole?"""
    c = [p for p in (t.a[1:] if t.op == 'path' else ()) if mentions(p, HOLE)]
    if len(c) != 1:
        return False
    ps = [p for p in text_parts(c[0]) if mentions(p, HOLE)]
    return len(ps) == 1 and ps[0].op == 'call' and ps[0].a[0] in ('b64enc', 'hex') and ps[0].a[1][0] is HOLE


def undo(F, t, rec, src):
    """Element term t of a listing with the text of the entry replaced by a written record; conversions cancelled."""
    def sub(x):
        if x.op == 'fld' and x.a[1] == 'Ok' and x.a[0].op == 'call' and x.a[0].a[0] == 'json_parse':
            # the entry's own text, not that of a file it leads to
            text = x.a[0].a[1][0]
            if src is not None and mentions(text, src) and not any(y.op == 'call' and y.a[0] == 'json_parse' for y in subterms(text)):
                return rec
        return None

    def conv(x):
        if x.op == 'fld' and x.a[1] == 'Ok' and x.a[0].op == 'call' and str(x.a[0].a[0]).endswith('AsJson::from_json'):
            j = x.a[0].a[1][0]
            if j.op == 'fld' and j.a[1] == 'Ok' and j.a[0].op == 'call' and str(j.a[0].a[0]).endswith('AsJson::to_json'):
                return j.a[0].a[1][0]
        if x.op == 'fld' and x.a[1] == 'Some' and is_adt(x.a[0], 'Some'):
            return x.a[0].a[1][0]
        if x.op == 'call' and x.a[0] == 'jget':
            return jlook(x.a[1][0], x.a[1][1])
        return None
    t = rewrite(t, sub)
    for _ in range(4):
        t2 = rewrite(t, conv)
        if t2 is t:
            break
        t = t2
    return t


def jlook(v, k):
    if v.op == 'agg' and len(v.a[1]) == 1 and v.a[0][0] == 'adt' and v.a[0][2] == 'Object':
        v = v.a[1][0]
    if v.op == 'jmap':
        for x in v.a:
            if x.a[0] is k:
                return adt(OPT, 'Some', x.a[1])
        return adt(OPT, 'None')
    return None


def entry_text(x):
    """The directory entry a file text was read from, if it was."""
    for t in subterms(x):
        if t.op == 'call' and t.a[0] == 'entry_path':
            return t
    return None


@prop('C32', 'for each of the three tables of every Router in the crate: the file an index function writes (its folder, its name as an injective function of the record\'s own key, the JSON record) is computed; the listing function must walk exactly that folder to its end, add one element per entry, and the element obtained from the written record must be the indexed record; the three folders differ; every successful path of disconnect must have removed the file of that name (or know it does not exist) in all three folders; the default of index_remote_client completes only after indexing the client')
def c32(ck):
    F = ck.F
    for a, im in router_impls(F):
        ty = a.split('::')[-1]
        folders = {}
        for table, ixf, lsf in TABLES:
            ib, lb = impl_method(F, im, ixf), impl_method(F, im, lsf)
            if ib is None or lb is None:
                ck.ob('%s has its own %s' % (ty, ixf if ib is None else lsf), False, im.get('sp', ''))
                continue
            ck.count('tables')
            ps = [(n, type_name(t)) for n, t in params_of(F, ib) if n != 'self']
            keyparam = next(n for n, t in ps if t == ('Server' if table == 'server' else 'Client'))
            key = F_(mk('par', keyparam), 'public_key')
            recs = []
            n = 0
            for o in ck.session().entry(ib):
                for f, v, pl in result_of(o):
                    ck.count('paths')
                    if v != 'Ok':
                        continue
                    for g, yes in resolve_bool(f, pl[0]):
                        # a server acknowledges on every completed call, whatever the flag
                        n += 1
                        ws = [w for w in effects(o) if ok_known(g, w.done)]
                        ws = [w for w in ws if json_of(canon(g, w.data)) is not None]
                        if not ck.ob('%s::%s: success means the record was written' % (ty, ixf), bool(ws), ib['sp'], 'no completed write of a JSON record on the path'):
                            continue
                        w = ws[-1]
                        p = keyed(canon(g, w.path), key)
                        okk = bijective(p)
                        ck.ob('%s::%s: the record is kept under its own key' % (ty, ixf), okk, ib['sp'], show(w.path)[:200])
                        if okk:
                            folders.setdefault(table, set()).add(p)
                            recs.append((g, p, json_of(canon(g, w.data))))
                        gone = later_gone(o, w)
                        ck.ob('%s::%s: the record is not removed again' % (ty, ixf), not gone, ib['sp'])
            ck.ob('%s::%s can succeed' % (ty, ixf), n > 0, ib['sp'])
            listing(ck, F, ty, table, ixf, lsf, lb, ps, recs)
        tops = {}
        for table, ss in folders.items():
            ck.ob('%s: one file per record of table %s' % (ty, table), len(ss) == 1, '', '; '.join(map(show, ss)))
            for s in ss:
                tops[s] = tops.get(s, []) + [table]
        ck.ob('%s: the tables do not share files' % ty, all(len(x) == 1 for x in tops.values()), '', str({show(k): v for k, v in tops.items()}))
        disconnecting(ck, F, ty, impl_method(F, im, 'disconnect'), folders)
    passes_on(ck, F)
    ck.floor('tables', 3)


def passes_on(ck, F):
    """A router without remote tables: the default keeps the client as a local one."""
    b = default_method(F, 'Router', 'index_remote_client')
    if b is None:
        return
    cl = mk('par', next(n for n, t in params_of(F, b) if type_name(t) == 'Client'))
    for o in ck.session().entry(b):
        for f, v, pl in result_of(o):
            if v != 'Ok':
                continue
            ck.count('paths')
            ds = [e for e in o.events if e.kind == 'call' and e.name.split('::')[-1].startswith('index_') and any(same(f, x, cl) for x in e.args[1:])]
            ck.ob('the default of index_remote_client indexes the client', any(ok_known(f, e.res) for e in ds), b['sp'], 'not indexed on the path ' + '; '.join(f.show())[:200])


def later_gone(o, w):
    seen = False
    for e in o.events:
        if e is w.event:
            seen = True
        elif seen and is_fs(e) and op_of(e.name).startswith('remove') and e.args and (e.args[0] is w.path or mentions(w.path, e.args[0])):
            return True
    return False


def listing(ck, F, ty, table, ixf, lsf, lb, ps, recs):
    ses = ck.session()
    outs = ses.entry(lb)
    want = [mk('par', n) for n, t in ps]
    n = 0
    for o in outs:
        for f, v, pl in result_of(o):
            ck.count('paths')
            if v != 'Ok':
                continue
            n += 1
            lst = canon(f, pl[0])
            made, src = None, lst
            lps = [lp for lp in loops_of([o]) if src in lp.phis]
            # records may be collected first and converted afterwards: peel complete copies
            for _ in range(4):
                m = mapped_ways(ses.I, f, src)
                if m is None or not lps or m[0].op != 'phi' or not any(m[0] in lp.phis for lp in loops_of([o])):
                    break
                made = (lambda src, ph, ways, old: lambda x: [(h, rewrite(e, lambda y: x if y is mk('idx', src, ph) else None)) for g, el in ways for h, e in (old(el) if old else [(g, el)])])(m[0], m[1], m[2], made)
                src = m[0]
                lps = [lp for lp in loops_of([o]) if src in lp.phis]
            if not lps:
                dirs = [e for e in o.events if is_fs(e) and op_of(e.name) == 'read_dir']
                nothing = is_empty(lst) and dirs and not_found(f, dirs[0].res)
                ck.ob('%s::%s lists the records it finds' % (ty, lsf), nothing, lb['sp'], 'the list %s is not built by walking the folder' % show(lst)[:120])
                continue
            lp = lps[0]
            init, backs = lp.phis[src]
            ck.ob('%s::%s starts from an empty list' % (ty, lsf), init is not None and is_empty(init), lb['sp'], show(init) if init else '')
            # complete: the folder's entries are exhausted when the list is returned
            ends = [t for t, x in f.v.items() if x == ('is', 'None') and 'next_entry' in show(t)] + [t for t, x in f.v.items() if x == ('is', 'None') and t.op == 'call' and 'next' in str(t.a[0])] \
                + [t for t, x in f.b.items() if x is False and t.op == 'bin' and t.a[0] == 'Lt' and 'read_dir' in show(t)]
            ck.ob('%s::%s walks the folder to its end' % (ty, lsf), bool(ends), lb['sp'], '; '.join(f.show())[:300])
            for st, b in zip(lp.paths, backs):
                ck.count('listing steps')
                if b is src:
                    gone = [e for e in since(st.events(), lp) or () if is_fs(e) and e.res is not None and not_found(st.facts, e.res)]
                    ck.ob('%s::%s lists every entry' % (ty, lsf), bool(gone), lb['sp'], 'an entry is skipped: ' + '; '.join(st.facts.show())[:300])
                    continue
                el = b.a[1].a[0] if b is not None and b.op == 'cat' and len(b.a) == 2 and b.a[0] is src and b.a[1].op == 'one' else None
                if not ck.ob('%s::%s lists every entry once' % (ty, lsf), el is not None, lb['sp'], show(b)[:200] if b else ''):
                    continue
                for sf, el, (g, p, rec) in [(sf, x, r) for sf, x in (made(el) if made else [(st.facts, el)]) for r in recs]:
                    if absent_record(sf) or absent_record(st.facts):
                        continue      # not a record the index function writes
                    en = entry_text(el)
                    folder = mk('path', *p.a[:-1]) if len(p.a) > 2 else p.a[0]
                    d = [x for x in subterms(en) if x.op == 'call' and isinstance(x.a[0], str) and op_of(x.a[0]) == 'read_dir'] if en is not None else []
                    okd = bool(d) and same(st.facts, d[0].a[1][0], folder)
                    ck.ob('%s::%s reads the folder %s writes' % (ty, lsf, ixf), okd, lb['sp'], 'listed %s, written %s' % (show(d[0].a[1][0]) if d else '?', show(folder)))
                    got = undo(F, canon(st.facts, canon(sf, el)), rec, en)
                    parts = list(got.a[1]) if got.op == 'agg' and got.a[0][0] == 'tuple' else [got]
                    ck.ob('%s::%s gives back the record %s wrote' % (ty, lsf, ixf), len(parts) == len(want) and all(x is y or same(g, x, y) for x, y in zip(parts, want)), lb['sp'], show(got)[:300])
    ck.ob('%s::%s can succeed' % (ty, lsf), n > 0, lb['sp'])


def absent_record(f):
    """A path for files that are not such records: a member is missing."""
    return any(x == ('is', 'None') and t.op == 'call' and t.a[0] == 'jget' for t, x in f.v.items())


def disconnecting(ck, F, ty, b, folders):
    if not ck.ob('%s has a disconnect' % ty, b is not None):
        return
    n = 0
    key = mk('par', next(x for x, t in params_of(F, b) if x != 'self'))
    for o in ck.session().entry(b):
        for f, v, pl in result_of(o):
            ck.count('paths')
            if v != 'Ok':
                continue
            n += 1
            gone = {}
            for e in o.events:
                if is_fs(e) and e.args and op_of(e.name) in ('remove_file', 'remove_dir_all', 'remove'):
                    gone[keyed(canon(f, e.args[0]), key)] = handled(f, e.res)
            for t, x in f.b.items():
                if x is False and any(k in show(t) for k in TESTS):
                    for y in subterms(t):
                        if y.op == 'path':
                            gone.setdefault(keyed(y, key), True)
            for table, ss in folders.items():
                for p in ss:
                    ck.ob('%s::disconnect removes the record from table %s' % (ty, table), gone.get(p, False), b['sp'], 'not removed on the path ' + '; '.join(f.show())[:300])
    ck.ob('%s::disconnect can succeed' % ty, n > 0, b['sp'])


# ------------------------------------------------------------------ C33
def origins(I, f, t, depth=0):
    """[(facts, element)] the list elements t can be; None if t is not understood."""
    if t.op == 'idx' and depth < 5:
        src, i = t.a
        if src.op == 'phi' and src in I.phi_loop:
            ps = parts_of(I, None, src)
            if ps and len(ps) == 1 and ps[0][0] == 'each':
                out = []
                for st, els in ps[0][1].ways:
                    for el in els:
                        r = origins(I, st.facts, el, depth + 1)
                        out += r or []
                return out
    return [(f, t)]


def whole(I, el):
    """Element terms rebuilt from parts of one list element: the element."""
    xs = [x for x in subterms(el) if x.op == 'idx']
    return xs[0] if xs else None


MATCH = {'lookup_local_client': ('local_clients', 'public_key', 'info.client_type', 1),
         'lookup_remote_client': ('remote_clients', '0.public_key', '0.info.client_type', 2),
         'lookup_server': ('servers', 'public_key', None, 1)}


@prop('C33', 'for each lookup function of the routing table: on every path giving a record, the record is an element of the corresponding listing whose key the path knows to equal the requested one and, when a type was requested, whose type it knows to equal that; on every path giving nothing the listing was walked from its first to its last element and every element passed over is known to differ in key or requested type; failures of the listing are passed on; the default hint is the whole server listing')
def c33(ck):
    F = ck.F
    for fn, (lister, kf, tf, parts) in MATCH.items():
        todo = [(None, default_method(F, 'Router', fn))]
        for a, im in router_impls(F):
            b = impl_method(F, im, fn)
            if b is not None:
                todo.append((a.split('::')[-1], b))
        for ty, b in todo:
            lookup(ck, F, ty, fn, b, lister, kf, tf, parts)
    # the default list of servers
    b = default_method(F, 'Router', 'servers')
    ses = ck.session()
    for o in ses.entry(b):
        for f, v, pl in result_of(o):
            if v != 'Ok':
                continue
            ck.count('paths')
            m = mapped(ses.I, f, canon(f, pl[0]))
            ck.ob('the default server list has the server of every remote client', m is not None and 'remote_clients' in show(m[0]) and m[2] is F_(mk('idx', m[0], m[1]), '1'), b['sp'], show(pl[0])[:200])
    # who may know a client: every server the router lists
    b = default_method(F, 'Router', 'lookup_remote_client_hint')
    ses = ck.session()
    for o in ses.entry(b):
        lists = [e.res for e in o.events if e.kind == 'call' and e.name.split('::')[-1] == 'servers']
        for f, v, pl in result_of(o):
            ck.count('paths')
            if v == 'Ok':
                got = canon(f, pl[0])
                m = mapped(ses.I, f, got)
                all_ = any(same(f, got, fld(l, 'Ok', '0')) for l in lists) or (m is not None and any(mentions(m[0], l) for l in lists) and m[2] is mk('idx', m[0], m[1]))
                ck.ob('the default hint names every listed server', all_, b['sp'], show(pl[0])[:200])
            elif v == 'Err':
                ck.ob('the default hint fails only with the listing', any(f.variant(l) == 'Err' for l in lists), b['sp'], '; '.join(f.show())[:200])
    ck.floor('lookups', 3)


def lookup(ck, F, ty, fn, b, lister, kf, tf, parts):
    who = '%s::%s' % (ty or 'Router', fn)
    ck.count('lookups')
    ps = params_of(F, b)
    key = mk('par', next(n for n, t in ps if type_name(t) == 'PublicKey'))
    tps = [n for n, t in ps if 'ClientType' in str(t)]
    ses = ck.session() if ty is None else ck.session(transparent=('Router',))
    some = none = 0
    for o in ses.entry(b):
        for f, v, pl in result_of(o):
            ck.count('paths')
            if v != 'Ok':
                continue
            from .crypto import opts
            for g, vn, q in opts(f, pl[0]):
                lists = [e.res for e in o.events if e.kind == 'call' and e.name.split('::')[-1] == lister]
                if vn == 'Some':
                    some += 1
                    el = whole(ses.I, q[0])
                    got = canon(g, q[0])
                    ors = origins(ses.I, g, el) if el is not None else None
                    if ors is None:
                        # not from a listing: the record itself must be known to match
                        rec = q[0].a[1][0] if q[0].op == 'agg' and q[0].a[0][0] == 'tuple' else q[0]
                        ok = knows_equal(g, F_(rec, 'public_key'), key)
                        ck.ob('%s gives only a record with the requested key' % who, ok, b['sp'], show(q[0])[:200])
                        if tf:
                            ok = type_ok(g, F_(rec, 'info.client_type'), mk('par', tps[0]))
                            ck.ob('%s gives only a record of the requested type' % who, ok, b['sp'], show(q[0])[:200])
                        continue
                    ck.ob('%s has elements to give' % who, bool(ors), b['sp'])
                    for h, e in ors:
                        e = whole(ses.I, e) or e
                        okl = any(e.op == 'idx' and mentions(e.a[0], l) for l in lists) or ty is not None
                        ck.ob('%s searches %s' % (who, lister), okl, b['sp'], show(e)[:200])
                        ck.ob('%s gives only a record with the requested key' % who, knows_equal(h, F_(e, kf), key) or knows_equal(g, F_(e, kf), key), b['sp'], 'known: ' + '; '.join(h.show())[:300])
                        if tf:
                            tp = mk('par', tps[0])
                            ck.ob('%s gives only a record of the requested type' % who, type_ok(h, F_(e, tf), tp) or type_ok(g, F_(e, tf), tp), b['sp'], 'known: ' + '; '.join(h.show())[:300])
                        # what is given is that element
                        els = list(got.a[1])[:parts] if got.op == 'agg' and got.a[0][0] == 'tuple' else [got]
                        w = whole(ses.I, q[0])
                        want = [w] if parts == 1 else [F_(w, str(i)) for i in range(parts)]
                        ck.ob('%s gives the whole record' % who, len(els) == len(want) and all(same(g, x, y) for x, y in zip(els, want)), b['sp'], show(got)[:200])
                else:
                    none += 1
                    if ty is not None:
                        continue
                    searched(ck, ses.I, who, b, o, g, lists, lister, key, mk('par', tps[0]) if tf else None, kf, tf)
    ck.ob('%s can find a record' % who, some > 0, b['sp'])


def knows_equal(f, a, b):
    if a is b or f.eval(eq(a, b)) is True:
        return True
    return same(f, a, b)


def knows_differ(f, a, b):
    if f.eval(eq(a, b)) is False:
        return True
    return any(x is False and t.op == 'eq' and ((same_(f, t.a[0], a) and same_(f, t.a[1], b)) or (same_(f, t.a[1], a) and same_(f, t.a[0], b))) for t, x in f.b.items())


def same_(f, a, b):
    return a is b or same(f, a, b)


def type_ok(f, have, wanted):
    if f.variant(wanted) == 'None':
        return True
    if f.variant(wanted) == 'Some' and knows_equal(f, fld(wanted, 'Some', '0'), have):
        return True
    return knows_equal(f, wanted, adt(OPT, 'Some', have))


def type_bad(f, have, wanted):
    if f.variant(wanted) == 'Some' and knows_differ(f, fld(wanted, 'Some', '0'), have):
        return True
    return f.variant(wanted) != 'None' and knows_differ(f, wanted, adt(OPT, 'Some', have))


def searched(ck, I, who, b, o, f, lists, lister, key, tp, kf, tf):
    """Nothing found: everything in the listing is known not to match."""
    if not ck.ob('%s searches %s' % (who, lister), len(lists) >= 1, b['sp'], 'nothing is listed'):
        return
    src = fld(lists[0], 'Ok', '0')
    lps = [lp for lp in loops_of([o])]
    good, why = False, 'the listing is not walked'
    for lp in lps:
        for ph in index_phi(lp):
            conds = [t for t, x in f.b.items() if x is False and t.op == 'bin' and t.a[0] == 'Lt' and t.a[1] is ph and t.a[2] is length(src)]
            if not conds:
                continue
            good, why = True, ''
            el = mk('idx', src, ph)
            for i, st in enumerate(lp.paths):
                ck.count('search steps')
                g = st.facts
                differs = knows_differ(g, F_(el, kf), key) or (tf and type_bad(g, F_(el, tf), tp))
                kept = any(bk[i] is not None and bk[i] is not p and mentions(bk[i], el) and bk[i].op == 'cat' for p, (ini, bk) in lp.phis.items())
                if not differs and not kept:
                    good, why = False, 'a record is passed over that is not known to differ: ' + '; '.join(g.show())[:300]
    if not good and any(f.variant(x) == 'None' or f.variant(x) == 'Err' for x in lists):
        good = True
    ck.ob('%s passes over only records that do not match' % who, good, b['sp'], why)


# ------------------------------------------------------------------ C34, C35, C36
def inboxes(F):
    out = []
    for a, im in impls_of(F, 'MessagesInbox'):
        if a and a.startswith('hyperborealib'):
            out.append((a.split('::')[-1], a, impl_method(F, im, 'add_message'), impl_method(F, im, 'poll_messages')))
    return out


def by_type(F, b):
    d = {}
    for n, t in params_of(F, b):
        if n != 'self':
            d.setdefault(type_name(t), n)
    return d


def param(F, b, want):
    for n, t in params_of(F, b):
        if n != 'self' and want in (type_name(t), str(t)) or (n != 'self' and want in str(t)):
            return mk('par', n)
    raise AnalysisError('%s has no parameter of type %s' % (short(b), want))


def reads(events, I=None):
    return [e for e in events if is_fs(e) and op_of(e.name) in ('read', 'read_to_string')]


def id_of(t):
    """The number a file name is the text of."""
    xs = [x for x in subterms(t) if x.op == 'call' and x.a[0] == 'dec']
    return xs[0].a[1][0] if len(xs) == 1 else None


def templ(path, who, chan, num=None):
    """A path as a function of receiver, channel and id."""
    R, C, N = mk('hole', 'receiver'), mk('hole', 'channel'), mk('hole', 'id')
    m = {who: R, chan: C}
    if num is not None:
        m[num] = N
    return rewrite(path, lambda x: m.get(x))


FAITHFUL = ('b64enc', 'sec1', 'dec', 'hex', 'to_be_', 'to_le_', 'digest', 'sha', 'encode', 'to_bytes', 'as_bytes', 'into_bytes', 'path')


def faithful(t, h):
    """Different values of hole h give different values of t: on the way from the hole upwards nothing is lost."""
    if t is h:
        return True
    inner = [x for x in kids(t) if mentions(x, h)]
    if not inner:
        return False
    if t.op == 'call' and not any(k in str(t.a[0]).rsplit('::', 1)[-1].lower() for k in FAITHFUL):
        return False
    if t.op not in ('call', 'path', 'cat', 'fld', 'agg', 'one', 'ity', 'arr'):
        return False
    return any(faithful(x, h) for x in inner)


def kids(t):
    out = []

    def go(x):
        if isinstance(x, TM.Term):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(t.a)
    return out


def int_param_name(F, b):
    for n, t in params_of(F, b):
        if 'u64' in str(t):
            return n


@prop('C34', 'on every successful path of add_message: the message record (sender, channel, message as given) was written, and known to be written, before the index was; the index written is exactly what was read from it (or nothing, if the file is known not to exist) followed by the eight bytes of the id the record is stored under; both writes are known to have succeeded; the paths of index and record, as functions of receiver, channel and id, are those poll_messages reads')
def c34(ck):
    F = ck.F
    for ty, aid, ab, pb in inboxes(F):
        ck.count('inboxes')
        who, chan = param(F, ab, 'PublicKey'), param(F, ab, 'String')
        sender, message = param(F, ab, 'Sender'), param(F, ab, 'Message')
        mi = adt_named(F, 'MessageInfo')['id']
        n = 0
        stored = set()
        indexes = set()
        ses = ck.session()
        for o in ses.entry(ab):
            for f, v, pl in result_of(o):
                ck.count('paths')
                if v != 'Ok':
                    continue
                n += 1
                ws = effects(o)
                recs = []
                for i, w in enumerate(ws):
                    j = json_of(canon(f, w.data))
                    m = made_from(j)
                    if m is not None and is_adt(m, None, mi):
                        recs.append((i, w, m))
                if not ck.ob('%s::add_message writes the message' % ty, bool(recs), ab['sp'], '; '.join(show(w.path) for w in ws)[:300]):
                    continue
                i, rw, m = recs[-1]
                ck.ob('%s::add_message stores the given sender' % ty, same(f, F_(m, 'sender'), sender), ab['sp'], show(F_(m, 'sender')))
                ck.ob('%s::add_message stores the given channel' % ty, same(f, F_(m, 'channel'), chan), ab['sp'], show(F_(m, 'channel')))
                ck.ob('%s::add_message stores the given message' % ty, same(f, F_(m, 'message'), message), ab['sp'], show(F_(m, 'message')))
                ck.ob('%s::add_message succeeds only if the message was written' % ty, ok_known(f, rw.done), ab['sp'])
                num = id_of(rw.path)
                if not ck.ob('%s::add_message names the record by its id' % ty, num is not None, ab['sp'], show(rw.path)[:200]):
                    continue
                ds = draws(num)
                ck.ob('%s::add_message: ids drawn at random do not repeat' % ty, not ds or spread(num) >= 63, ab['sp'], show(num)[:200])
                ids = be64(num)
                iw = [(k, w) for k, w in enumerate(ws) if w is not rw and mentions(w.data, ids)]
                if not ck.ob('%s::add_message writes the id to the index' % ty, bool(iw), ab['sp'], '; '.join(show(w.data)[:80] for w in ws)):
                    continue
                k, w = iw[-1]
                ck.ob('%s::add_message succeeds only if the index was written' % ty, ok_known(f, w.done), ab['sp'])
                first = next(x for y, x in enumerate(ws) if x.path is w.path or any(r.path is w.path for r in [x]))
                ck.ob('%s::add_message stores the message before the index names it' % ty, ok_known(first.event.facts, rw.done), first.event.where[1], 'the index is written when the message is not yet known to be')
                # old contents
                rd = [e for e in reads(o.events) if same(f, e.args[0], w.path)]
                if not ck.ob('%s::add_message reads the index it extends' % ty, bool(rd), ab['sp'], show(w.path)[:200]):
                    continue
                r = rd[-1].res
                if ok_known(f, r):
                    old = fld(r, 'Ok', '0')
                    want = cat([old, ids])
                    ck.ob('%s::add_message appends the id after all earlier ones' % ty, canon(f, w.data) is canon(f, want), ab['sp'], show(w.data)[:300])
                else:
                    ck.ob('%s::add_message takes only a missing index for an empty one' % ty, not_found(f, r), ab['sp'], '; '.join(f.show())[:300])
                    ck.ob('%s::add_message starts an index with the id' % ty, same(f, w.data, ids), ab['sp'], show(w.data)[:300])
                stored.add(templ(canon(f, rw.path), who, chan, num))
                indexes.add(templ(canon(f, w.path), who, chan))
                # nothing removes what was stored
                bad = [e for e in o.events if is_fs(e) and op_of(e.name).startswith('remove')]
                ck.ob('%s::add_message removes nothing' % ty, not bad, ab['sp'])
        ck.ob('%s::add_message can succeed' % ty, n > 0, ab['sp'])
        # where poll looks
        pw, pc = param(F, pb, 'PublicKey'), param(F, pb, 'String')
        pses = ck.session()
        outs = pses.entry(pb)
        names = {templ(canon(e.facts, e.args[0]), pw, pc) for e in all_events(pses.I, outs) if is_fs(e) and op_of(e.name) in ('read', 'read_to_string')}
        recs = {templ(canon(e.facts, e.args[0]), pw, pc, id_of(e.args[0])) for e in all_events(pses.I, outs) if is_fs(e) and op_of(e.name) in ('read', 'read_to_string') and id_of(e.args[0]) is not None}
        for p in indexes:
            ck.ob('%s: poll reads the index add_message writes' % ty, p in names, pb['sp'], '%s; read: %s' % (show(p), '; '.join(map(show, names))[:300]))
        for p in stored:
            ck.ob('%s: poll reads the record add_message writes' % ty, p in recs, pb['sp'], '%s; read: %s' % (show(p), '; '.join(map(show, recs))[:300]))
        for p in indexes | stored:
            ck.ob('%s: what is stored depends on receiver and channel' % ty, mentions(p, mk('hole', 'receiver')) and mentions(p, mk('hole', 'channel')), ab['sp'], show(p))
            for h in ('receiver', 'channel'):
                ck.ob('%s: every %s has files of its own' % (ty, h), faithful(p, mk('hole', h)), ab['sp'], show(p)[:300])
    ck.floor('inboxes', 1)


def made_from(j):
    """x of to_json(x).Ok!0."""
    if j is not None and j.op == 'fld' and j.a[1] == 'Ok' and j.a[0].op == 'call' and str(j.a[0].a[0]).endswith('AsJson::to_json'):
        return j.a[0].a[1][0]
    return None


def read_message(t):
    """The read() call a decoded message comes from."""
    if t.op == 'fld' and t.a[1] == 'Ok' and t.a[0].op == 'call' and str(t.a[0].a[0]).endswith('AsJson::from_json'):
        j = t.a[0].a[1][0]
        if j.op == 'fld' and j.a[1] == 'Ok' and j.a[0].op == 'call' and j.a[0].a[0] == 'json_parse':
            d = j.a[0].a[1][0]
            if d.op == 'fld' and d.a[1] == 'Ok' and d.a[0].op == 'call' and op_of(str(d.a[0].a[0])) in ('read', 'read_to_string'):
                return d.a[0]
    return None


def pushed(bk, ph):
    """Elements appended to list ph by back value bk, or None."""
    if bk is ph:
        return []
    if bk is not None and bk.op == 'cat' and bk.a[0] is ph and all(x.op == 'one' for x in bk.a[1:]):
        return [x.a[0] for x in bk.a[1:]]
    return None


@prop('C35', 'the polling loop is recognised as the one building the returned list; on each of its steps the path must either have appended exactly the message decoded from the file named by the next eight index bytes, under a guard that fewer than the limit were appended, or know that this file does not exist; the index written is the read one from behind the last step\'s bytes, the returned count is its length in ids; every removal happens when the index is known to be written and concerns the file of an appended message; every failing path before that has removed nothing')
def c35(ck):
    F = ck.F
    for ty, aid, ab, pb in inboxes(F):
        ck.count('inboxes')
        ses = ck.session()
        outs = ses.entry(pb)
        lim = next(mk('par', n) for n, t in params_of(F, pb) if 'u64' in str(t))
        n = 0
        for o in outs:
            for f, v, pl in result_of(o):
                ck.count('paths')
                if v == 'Ok':
                    n += 1
                    polled(ck, F, ses.I, ty, pb, o, f, pl[0], lim)
                else:
                    poll_failed(ck, ses.I, ty, pb, o, f)
        ck.ob('%s::poll_messages can succeed' % ty, n > 0, pb['sp'])
        for e in all_events(ses.I, outs):
            if is_fs(e) and op_of(e.name).startswith('remove'):
                ck.count('removals')
    ck.floor('inboxes', 1)


def removals(I, events):
    """[(event, loop or None)] of file removals in a history, loops included."""
    out = []
    for e in events:
        if is_fs(e) and op_of(e.name).startswith('remove'):
            out.append((e, None))
        if e.kind == 'loop':
            for st in e.data.paths + [s for k, b, s in e.data.exits]:
                for x in since(st.events(), e.data) or ():
                    if is_fs(x) and op_of(x.name).startswith('remove'):
                        out.append((x, e.data))
    return out


def poll_failed(ck, I, ty, pb, o, f):
    """A failing path: either nothing was removed, or only a removal failed."""
    rs = removals(I, o.events)
    if not rs:
        ck.ob('%s::poll_messages: a failed poll removed nothing' % ty, True)
        return
    cause = [e for e, lp in rs if f.variant(e.res) == 'Err']
    if not cause:
        # failed inside a loop of removals: the failing one is the last
        cause = [e for e in o.events if is_fs(e) and op_of(e.name).startswith('remove') and f.variant(e.res) == 'Err']
    ck.ob('%s::poll_messages: a failed poll removed nothing' % ty, bool(cause), pb['sp'], 'fails after removing messages: ' + '; '.join(f.show())[-300:])


def polled(ck, F, I, ty, pb, o, f, ret, lim):
    who = '%s::poll_messages' % ty
    msgs, left = canon(f, F_(ret, '0')), canon(f, F_(ret, '1'))
    rd = reads(o.events)
    if is_empty(msgs) and not [lp for lp in loops_of([o])]:
        ix = rd[0].res if rd else None
        ok = ix is not None and (not_found(f, ix))
        if not ok and ix is not None:
            # nothing asked for, or nothing stored: the whole index must stay
            keep = not [e for e in o.events if is_fs(e) and op_of(e.name) in MUTATING]
            z = f.interval(fld(lim, 'Some', '0'))[1] == 0 and f.variant(lim) == 'Some'
            e = is_len_zero(f, fld(ix, 'Ok', '0'))
            ok = keep and (z or e)
            if ok and z:
                ck.ob('%s reports how many remain' % who, counts(I, f, left, fld(ix, 'Ok', '0')), pb['sp'], show(left))
                return
        ck.ob('%s: nothing is returned only if nothing is stored' % who, ok, pb['sp'], '; '.join(f.show())[:300])
        ck.ob('%s reports how many remain' % who, left.op == 'int' and left.a[0] == 0, pb['sp'], show(left))
        return
    R = Reading(I, o, f, msgs)
    if not ck.ob('%s: the returned list is built by reading the index' % who, R.lp is not None, pb['sp'], show(msgs)[:200]):
        return
    lp = R.lp
    ck.ob('%s: the list starts empty' % who, is_empty(R.init), pb['sp'])
    if not rd:
        ck.ob('%s reads the index' % who, False, pb['sp'])
        return
    index = fld(rd[0].res, 'Ok', '0')
    pos = None
    own = []
    for g, events, add, val in R.steps:
        ck.count('polling steps')
        if add is None or len(add) > 1:
            ck.ob('%s appends at most one message per id, at the end' % who, False, pb['sp'], str(add and list(map(show, add)))[:200])
            continue
        rs = [e for e in events if is_fs(e) and op_of(e.name) in ('read', 'read_to_string')]
        if not add:
            gone = [e for e in rs if not_found(g, e.res)]
            at = [id_offset(I, lp, e.args[0], index) for e in gone]
            at = [x for x in at if x is not None]
            nothing = not rs and val is R.leaving
            ck.ob('%s passes over only messages that do not exist' % who, bool(at) or nothing, pb['sp'], '; '.join(g.show())[:300])
        else:
            m = canon(g, R.element(add[0]))
            r = read_message(m)
            if not ck.ob('%s returns the messages that were stored' % who, r is not None, pb['sp'], show(m)[:200]):
                continue
            at = id_offset(I, lp, r.a[1][0], index)
            if not ck.ob('%s reads the messages the index names' % who, at is not None, pb['sp'], show(r.a[1][0])[:300]):
                continue
            at = [at]
            own.append((add[0], r.a[1][0]))
            ck.ob('%s returns at most as many messages as the limit' % who, limited(I, lp, val, g, R.list, lim), pb['sp'], '; '.join(g.show())[:400])
        for x in at:
            ck.ob('%s reads the messages in the order of the index' % who, pos is None or pos == x, pb['sp'], '%s / %s' % (pos, x))
            pos = x
            if val is not R.leaving:
                d = advance(lp, x, val)
                ck.ob('%s moves on by one id per step' % who, d == {None: 8}, pb['sp'], str(d))
    ck.ob('%s can return a message' % who, bool(own), pb['sp'])
    if pos is not None:
        ck.ob('%s starts with the oldest message' % who, start(lp, pos, index) == {}, pb['sp'], str(start(lp, pos, index)))
    # the index that is left
    ws = [w for w in effects(o) if same(f, w.path, rd[0].args[0])]
    if not ck.ob('%s updates the index' % who, bool(ws), pb['sp'], '; '.join(show(w.path) for w in effects(o))[:300]):
        return
    w = ws[-1]
    ck.ob('%s succeeds only if the index was updated' % who, ok_known(f, w.done), pb['sp'])
    data = reencoded(I, f, canon(f, w.data), index)
    ends = set()
    for g, events, add, val in R.steps:
        if val is R.leaving:
            ends.add(8 if add or [e for e in events if is_fs(e) and op_of(e.name) in ('read', 'read_to_string') and not_found(g, e.res)] else 0)
    rest = rest_from(I, lp, o, f, data, index, pos or {}, ends or {0})
    ck.ob('%s drops from the index exactly the ids it handled' % who, rest is None, w.event.where[1], rest or '')
    ck.ob('%s reports how many remain' % who, counts(I, f, left, data), pb['sp'], show(left)[:200])
    ck.ob('%s stops early only when the limit is reached' % who, known_complete(f, R, msgs, lim, index), pb['sp'], '; '.join(f.show())[:400])
    # removals
    for e, l2 in removals(I, o.events):
        ck.ob('%s removes only when the index is updated' % who, ok_known(e.facts, w.done), e.where[1], 'a file is removed while the index may still name it')
        p = canon(e.facts, e.args[0])
        ck.ob('%s removes only messages it returns' % who, returned(I, p, R, own), e.where[1], show(p)[:300])
    rm = removals(I, o.events)
    ck.ob('%s removes the messages it returns' % who, bool(rm), pb['sp'], 'no file is removed')
    for e, l2 in rm:
        if l2 is not None:
            covered = all_removed(I, o, f, l2, e)
            ck.ob('%s removes all messages it returns' % who, covered is None, e.where[1], covered or '')


def I_(n):
    return I(n, 'usize')


def is_len_zero(f, t):
    return f.interval(length(t))[1] == 0 or f.eval(eq(length(t), I_(0))) is True


class Reading:
    """The loop that builds the returned list: its steps are (facts, events, appended elements, value of each phi afterwards)."""

    def __init__(self, I, o, f, msgs):
        self.lp, self.steps, self.via, self.leaving = None, [], None, object()
        last = []
        for _ in range(4):
            if msgs.op == 'cat' and msgs.a and msgs.a[0].op == 'phi' and all(x.op == 'one' for x in msgs.a[1:]) and self.via is None:
                last = [x.a[0] for x in msgs.a[1:]]
                msgs = msgs.a[0]
            lps = [lp for lp in loops_of([o]) if msgs in lp.phis]
            if not lps:
                return
            m = mapped(I, f, msgs)
            if m is None or m[0].op not in ('phi', 'cat') or (m[0].op == 'phi' and not any(m[0] in lp.phis for lp in loops_of([o]))):
                break
            # one list is copied out of another one
            src, ph, el = m
            old = self.via
            self.via = (lambda src, ph, el, old: lambda x: rewrite(el if old is None else old(el), lambda y: x if y is mk('idx', src, ph) else None))(src, ph, el, old)
            msgs = src
        self.lp, self.list = lps[0], msgs
        self.init, backs = self.lp.phis[msgs]
        for i, st in enumerate(self.lp.paths):
            self.steps.append((st.facts, since(st.events(), self.lp) or (), pushed(backs[i], msgs), i))
        # the way out of the loop, with what it did since its head
        ev = since(o.events, self.lp) or ()
        after = []
        for e in ev:
            if is_fs(e) and op_of(e.name) in MUTATING:
                break
            after.append(e)
        if last or any(is_fs(e) and op_of(e.name) in ('read', 'read_to_string') for e in after):
            self.steps.append((f, after, last, self.leaving))

    def element(self, x):
        return self.via(x) if self.via else x


def id_offset(I, lp, path, index):
    """The file is named by eight bytes of the index: the offset of these bytes, as a linear form; None otherwise."""
    t = id_of(path)
    t = element_of(I, None, t) if t is not None and t.op == 'idx' else t
    if t is None or not (t.op == 'call' and t.a[0] == 'from_be:u64'):
        return None
    x = t.a[1][0]
    x = element_of(I, None, x) if x.op == 'idx' else x
    if x.op == 'idx' and x.a[0].op == 'call' and str(x.a[0].a[0]).startswith('chunks'):
        src, n = x.a[0].a[1][:2]
        if n.op != 'int' or n.a[0] != 8:
            return None
        return offset(lp, src, {k: 8 * v for k, v in lin_(x.a[1]).items()}, index)
    if x.op == 'slice':
        base, lo, hi = x.a[:3]
        d = minus(lin_(hi if hi is not None else length(base)), lin_(lo))
        return offset(lp, base, lin_(lo), index) if d == {None: 8} else None
    return None


def minus(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}


def offset(lp, base, at, index):
    """Offset `at` of list base, counted from the start of the index."""
    if base is index:
        return at
    if base.op == 'slice':
        return offset(lp, base.a[0], minus(at, {k: -v for k, v in lin_(base.a[1]).items()}), index)
    if base.op == 'phi' and base in lp.phis:
        # a shrinking rest of the index: its own start is the position
        return minus(at, {base: -1})
    return None


def rest_start(lp, ph, t):
    """List t as the rest of list ph from some offset on."""
    if t is ph:
        return {}
    if t is not None and t.op == 'slice' and t.a[0] is ph and t.a[2] is None:
        return lin_(t.a[1])
    return None


def advance(lp, at, i):
    """By how much the linear form changes on back path i."""
    d = {}
    for t, k in at.items():
        if t is None or t not in lp.phis:
            continue
        b = lp.phis[t][1][i]
        if b is None:
            return None
        if len(t.a) > 2 and isinstance(t.a[2], str):
            c = minus(lin_(b), {t: 1})
        else:
            c = rest_start(lp, t, b)
            if c is None:
                return None
        for x, v in c.items():
            d[x] = d.get(x, 0) + k * v
    return {x: v for x, v in d.items() if v}


def start(lp, at, index):
    """The linear form when the loop is entered."""
    d = {}
    for t, k in at.items():
        if t is None or t not in lp.phis:
            d[t] = d.get(t, 0) + k
            continue
        init = lp.phis[t][0]
        if init is index:
            c = {}
        elif init.op == 'slice' and init.a[0] is index:
            c = lin_(init.a[1])
        else:
            c = lin_(init)
        for x, v in c.items():
            d[x] = d.get(x, 0) + k * v
    return {x: v for x, v in d.items() if v}


def limited(I, lp, i, g, msgs, lim):
    """A message is appended only while fewer than the limit were."""
    if g.variant(lim) == 'None':
        return True
    goal = fld(lim, 'Some', '0')
    for ph, (init, backs) in lp.phis.items():
        if init is None:
            continue
        b = backs[i] if isinstance(i, int) else None
        # counting down from the limit
        if init is goal or (init.op == 'call' and mentions(init, lim)) or mentions_unwrapped(init, lim):
            if b is binop('Sub', ph, typed(1, ph), wid(ph)) or (b is not None and b.op == 'bin' and b.a[0] == 'Sub' and b.a[1] is ph and b.a[2].op == 'int' and b.a[2].a[0] == 1):
                if excludes_zero(g, ph) and all(bb is ph or fewer(bb, ph) for bb in backs):
                    return True
        # counting up to it
        if init.op == 'int' and init.a[0] == 0 and b is not None and b.op == 'bin' and b.a[0] == 'Add' and ph in b.a[1:3]:
            if (below(g, ph, goal) or differ(g, ph, goal) and all(bb is ph or bb is not None and bb.op == 'bin' and bb.a[0] == 'Add' and ph in bb.a[1:3] and any(y.op == 'int' and y.a[0] == 1 for y in bb.a[1:3]) for bb in backs)) \
                    and every_push_counts(lp, msgs, ph):
                return True
    # the list itself is measured
    if below(g, length(msgs), goal):
        return True
    # it is known not to have the limit's length before each push: by induction it never gets beyond
    if grows_singly(lp, msgs) and differ(g, length(msgs), goal):
        return True
    # only the first `limit` ids are walked
    for t, x in g.b.items():
        if x is True and t.op == 'bin' and t.a[0] == 'Lt' and t.a[1] in index_phi(lp) and strip_cast(t.a[2]) is goal:
            return True
    return False


def wid(ph):
    return ph.a[2] if len(ph.a) > 2 and isinstance(ph.a[2], str) else 'u64'


def typed(n, ph):
    return I(n, wid(ph))


def mentions_unwrapped(t, lim):
    return mentions(t, lim) and t.op == 'fld'


def fewer(b, ph):
    return b is not None and b.op == 'bin' and b.a[0] == 'Sub' and b.a[1] is ph


def excludes_zero(g, ph):
    lo, hi = g.interval(ph)[:2]
    if lo is not None and lo >= 1:
        return True
    if g.eval(eq(ph, I(0, 'u64'))) is False:
        return True
    return any(x is False and t.op == 'eq' and ph in t.a and any(y.op == 'int' and y.a[0] == 0 for y in t.a) for t, x in g.b.items()) \
        or any(x is True and t.op == 'bin' and t.a[0] == 'Lt' and t.a[2] is ph for t, x in g.b.items())


def strip_cast(t):
    """t without conversions that keep its value."""
    while t.op == 'ity' or t.op == 'cast' and TM.bits_of(t.a[1]) >= TM.bits_of(TM.term_int_ty(t.a[0]) or 'u64'):
        t = t.a[0]
    return t


def below(g, a, b):
    """a < b is known."""
    for t, x in g.b.items():
        if t.op != 'bin':
            continue
        l, r = strip_cast(t.a[1]), strip_cast(t.a[2])
        if x is True and t.a[0] == 'Lt' and l is a and r is b:
            return True
        if x is False and t.a[0] == 'Le' and l is b and r is a:
            return True
        if x is False and t.a[0] == 'Lt' and l is b and r is a:
            # a <= b, and known to differ
            if g.eval(eq(a, b)) is False:
                return True
    return False


def differ(g, a, b):
    """a != b is known."""
    if g.eval(eq(a, b)) is False:
        return True
    for t, x in g.b.items():
        if x is False and t.op == 'eq':
            l, r = strip_cast(t.a[0]), strip_cast(t.a[1])
            if (l is a and r is b) or (l is b and r is a):
                return True
    return False


def grows_singly(lp, msgs):
    init, backs = lp.phis[msgs]
    return init is not None and is_empty(init) and all((pushed(b, msgs) is not None and len(pushed(b, msgs)) <= 1) for b in backs)


def every_push_counts(lp, msgs, ph):
    mb, cb = lp.phis[msgs][1], lp.phis[ph][1]
    return all((m is msgs) or (c is not None and c.op == 'bin' and c.a[0] == 'Add') for m, c in zip(mb, cb))


def lin_(t):
    from .crypto import lin
    return lin(t)


def reencoded(I, f, t, index):
    """The ids read from the index, from some one on, written out again: the part of the index they were read from."""
    whole = t
    joined = t.op == 'call' and t.a[0] == 'concat'
    if joined:
        t = t.a[1][0]
    if t.op != 'phi' or t not in I.phi_loop or t not in I.phi_loop[t].phis:
        return whole
    lp = I.phi_loop[t]
    init, backs = lp.phis[t]
    if init is None or not is_empty(init) or len(backs) != 1 or backs[0].op != 'cat' or len(backs[0].a) != 2 or backs[0].a[0] is not t:
        return whole
    x = backs[0].a[1]
    if joined and x.op == 'one':
        x = x.a[0]
    elif joined:
        return whole
    t = whole
    ixs = index_phi(lp)
    if x.op != 'call' or x.a[0] != 'to_be_u64' or x.a[1][0].op != 'idx' or x.a[1][0].a[1] not in ixs:
        return t
    part, ph = x.a[1][0].a
    ids, lo = part, I_(0)
    if part.op == 'slice' and part.a[2] is None:
        ids, lo = part.a[:2]
    # every one of them is walked, none twice
    if f.eval(binop('Lt', ph, length(part), 'usize')) is not False:
        return t
    m = mapped(I, f, ids)
    if m is None:
        return t
    src, k, el = m
    if src.op != 'call' or not str(src.a[0]).startswith('chunks') or src.a[1][0] is not index or src.a[1][1].op != 'int' or src.a[1][1].a[0] != 8:
        return t
    if el.op != 'call' or el.a[0] != 'from_be:u64' or canon(f, el.a[1][0]) is not mk('idx', src, k):
        return t
    if lo.op == 'int' and lo.a[0] == 0:
        return index
    return slice_(index, binop('Mul', lo, I_(8), 'usize'), None)


def rest_from(I, lp, o, f, data, index, pos, ends):
    """None if data is the index from behind the last handled id (pos plus what the last, unfinished step handled)."""
    ixs = index_phi(lp)
    if data.op == 'slice':
        base, lo, hi = data.a[:3]
        if hi is not None and lin_(hi) != lin_(length(base)):
            return 'ids are dropped from the end of the index'
        at = offset(lp, base, lin_(lo), index)
        if at is None:
            return 'the written index is not part of the read one: %s' % show(base)[:100]
    elif data is index:
        at = {}
    elif data.op == 'phi' and data in lp.phis:
        at = {data: 1}
    elif is_empty(data):
        # everything handled: the loop must have been exhausted
        return None if exhausted(f, ixs, index) else 'the index is emptied though ids may be left'
    else:
        return 'not understood: %s' % show(data)[:200]
    if not at:
        return None if is_len_zero(f, index) else 'handled ids are kept'
    if at == lin_(length(index)):
        return None if exhausted(f, ixs, index) else 'the index is emptied though ids may be left'
    d = minus(at, pos)
    if d in [({None: n} if n else {}) for n in ends]:
        return None
    # another counter, moving in lockstep with the position
    if start(lp, at, index) == {} and all(advance(lp, at, i) == {None: 8} for i in range(len(lp.paths))) and ends == {0}:
        return None
    return 'the index is cut %s off the position reached' % {('' if k is None else show(k)[:80]): v for k, v in d.items()}


def known_complete(f, R, msgs, lim, index):
    """The reading loop was left because every id was handled, or because as many messages as the limit were taken."""
    lp = R.lp
    ixs = index_phi(lp)

    def whole(n, seen=()):
        """n is the number of ids, or of what an exhausted loop over them gathered."""
        if mentions(n, index) or mentions(n, lim):
            return True
        gathered = {x.a[0] for x in subterms(n) if x.op == 'phi'} - set(seen)
        return n.op == 'len' and any(x is False and t.op == 'bin' and t.a[0] == 'Lt' and t.a[1].op == 'phi' and t.a[1].a[0] in gathered and whole(t.a[2], tuple(gathered) + tuple(seen)) for t, x in f.b.items())
    # positions counted in steps of any width, and slices that shrink from the whole index
    at = [ph for ph, (init, backs) in lp.phis.items() if init is not None and init.op == 'int' and init.a[0] == 0
          and all(b is not None and b.op == 'bin' and b.a[0] == 'Add' and ph in b.a[1:3] and any(getattr(y, 'op', None) == 'int' and y.a[0] > 0 for y in b.a[1:3]) for b in backs)]
    left = [ph for ph, (init, backs) in lp.phis.items() if init is not None and (init is index or canon(f, init) is canon(f, index))
            and all(b is not None and b.op == 'slice' and b.a[0] is ph for b in backs)]
    for t, x in f.b.items():
        if x is False and t.op == 'bin' and t.a[0] == 'Lt' and (t.a[1] in ixs or t.a[1] in at or any(mentions(t.a[1], y) for y in ixs)) and whole(t.a[2]):
            return True
        if x is True and t.op == 'bin' and t.a[0] == 'Lt' and any(t.a[1] is length(ph) for ph in left) and t.a[2].op == 'int' and t.a[2].a[0] <= 8:
            return True
        if any(f.interval(length(ph))[1] < 8 for ph in left):
            return True
        if x is True and t.op == 'eq' and any(mentions(y, index) for y in t.a) and not any(has_read(y) or mentions(y, R.list) for y in t.a) \
                and (length(index) in t.a or any(y.op == 'len' for y in t.a)) and (any(mentions(y, z) for y in t.a for z in lp.phis) or any(y.op == 'int' and y.a[0] == 0 for y in t.a)):
            # the position has reached the end, or nothing is stored
            return True
    some = f.variant(lim) == 'Some'
    goal = fld(lim, 'Some', '0')

    def reached(n, target):
        """n >= target is known."""
        return equal(f, n, target) or any(x is False and t.op == 'bin' and t.a[0] == 'Lt' and strip_cast(t.a[1]) is n and strip_cast(t.a[2]) is target for t, x in f.b.items())
    for n in (length(msgs), length(R.list)):
        if reached(n, goal) if some else any(huge(y) and reached(n, y) for t in f.b for y in t.a if t.op in ('bin', 'eq') and not isinstance(y, str)):
            return True
    for ph, (init, backs) in lp.phis.items():
        if init is None or ph is R.list:
            continue
        init = strip_cast(init)
        if not all(b is ph or b is not None and steps_by_one(b, ph) and R.steps[i][2] for i, b in enumerate(backs)):
            continue
        for n in (ph, binop('Sub', ph, typed(1, ph), wid(ph)), binop('Add', ph, typed(1, ph), wid(ph))):
            if not (n.op == 'bin' and n.a[0] == 'Add') and (init is goal if some else huge(init)) and zero(f, n):
                return True
            if init.op == 'int' and init.a[0] == 0 and (reached(n, goal) if some else any(huge(y) and reached(n, y) for t in f.b for y in t.a if t.op in ('bin', 'eq') and not isinstance(y, str))):
                return True
    return False


def huge(t):
    return getattr(t, 'op', None) == 'int' and t.a[0] >= 1 << 32


def has_read(t):
    return any(x.op == 'call' and x.a[0] == 'AsJson::from_json' for x in subterms(t))


def equal(f, a, b):
    return f.eval(eq(a, b)) is True or any(x is True and t.op == 'eq' and {strip_cast(y) for y in t.a} == {a, b} for t, x in f.b.items())


def zero(f, n):
    return f.interval(n)[:2] == (0, 0) or any(x is True and t.op == 'eq' and n in t.a and any(y.op == 'int' and y.a[0] == 0 for y in t.a) for t, x in f.b.items()) \
        or any(x is False and t.op == 'bin' and t.a[0] == 'Lt' and t.a[1].op == 'int' and t.a[1].a[0] == 0 and t.a[2] is n for t, x in f.b.items())


def steps_by_one(b, ph):
    return b.op == 'bin' and b.a[0] in ('Add', 'Sub') and ph in b.a[1:3] and any(getattr(y, 'op', None) == 'int' and y.a[0] == 1 for y in b.a[1:3])


def exhausted(f, ixs, index):
    return any(x is False and t.op == 'bin' and t.a[0] == 'Lt' and (t.a[1] in ixs or any(mentions(t.a[1], y) for y in ixs)) for t, x in f.b.items())


def eightfold(f, lp, t):
    """Eight times t as a linear form over byte lengths."""
    t = strip_cast(t)
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        a, b = eightfold(f, lp, t.a[1]), eightfold(f, lp, t.a[2])
        return minus(a, b if t.a[0] == 'Sub' else {k: -v for k, v in b.items()})
    if t.op == 'call' and str(t.a[0]).startswith('saturating_sub') and len(t.a[1]) == 2:
        a, b = (eightfold(f, lp, x) for x in t.a[1])
        return minus(a, b)
    if t.op == 'bin' and t.a[0] in ('Div', 'Shr') and t.a[2].op == 'int':
        if t.a[2].a[0] == (8 if t.a[0] == 'Div' else 3):
            return lin_(t.a[1])
    if t.op == 'len':
        src = t.a[0]
        for _ in range(4):
            if src.op == 'call' and str(src.a[0]).startswith('chunks') and src.a[1][1].op == 'int' and src.a[1][1].a[0] == 8:
                return lin_(length(src.a[1][0]))
            m = mapped(lp, f, src)
            if m is None:
                break
            src = m[0]
    return {k: 8 * v for k, v in lin_(t).items()}


def counts(I, f, left, data):
    """left is the number of ids in data."""
    if minus(eightfold(f, I, left), lin_(length(data))) == {}:
        return True
    t = strip_cast(left)
    if t.op == 'int':
        return t.a[0] == 0 and is_empty(data)
    if t.op == 'bin' and t.a[0] in ('Div', 'Shr'):
        num, den = strip_cast(t.a[1]), t.a[2]
        if den.op == 'int' and (den.a[0] == 8 and t.a[0] == 'Div' or den.a[0] == 3 and t.a[0] == 'Shr'):
            return lin_(num) == lin_(length(data))
    if t.op == 'len' and t.a[0].op == 'call' and str(t.a[0].a[0]).startswith('chunks'):
        return t.a[0].a[1][0] is data
    return False


def returned(I, p, R, own):
    """p is the file of a message appended to the list."""
    p = undrain(I, p)
    xs = [x for x in subterms(p) if x.op == 'idx' and (x.a[0].op == 'phi' or x.a[0].op == 'cat' and x.a[0].a[0].op == 'phi')]
    for x in xs:
        src = x.a[0] if x.a[0].op == 'phi' else x.a[0].a[0]
        if src not in R.lp.phis:
            continue
        init, backs = R.lp.phis[src]
        if not is_empty(init):
            continue
        good = True
        steps = [(pushed(b, src), R.steps[i][2]) for i, b in enumerate(backs)]
        if x.a[0].op == 'cat':
            steps.append(([y.a[0] for y in x.a[0].a[1:]], R.steps[-1][2] if R.steps[-1][3] is R.leaving else None))
        for a, add in steps:
            if a is None or add is None or len(a) > len(add):
                good = False
                break
            mine = [q for m, q in own if any(m is y for y in add)]
            for y in a:
                q = rewrite(p, lambda z: y if z is x else None)
                if q not in mine:
                    good = False
        if good:
            return True
    return False


def all_removed(I, o, f, l2, e):
    """None if the removing loop goes through its whole list."""
    x = e.args[0]
    if x.op in ('front', 'back') and undrain(I, x) is not x:
        ph = x.a[0]
        if ph not in l2.phis:
            return None
        for st in l2.paths:
            if not any(y is e or (is_fs(y) and y.args == e.args) for y in since(st.events(), l2) or ()):
                return 'a step removes nothing'
        return None if f.eval(eq(length(ph), mk('int', 0, 'usize'))) is True else 'the removals stop early'
    if e.args[0].op != 'idx':
        return None
    src, ph = e.args[0].a
    if ph not in index_phi(l2):
        return 'not every message is visited'
    for st in l2.paths:
        if not any(x is e or (is_fs(x) and x.args == e.args) for x in since(st.events(), l2) or ()):
            return 'a step removes nothing'
    if not any(x is False and t.op == 'bin' and t.a[0] == 'Lt' and t.a[1] is ph and t.a[2] is length(src) for t, x in f.b.items()):
        return 'the removals stop early'
    mine = l2.phis
    return None


def same_path(f, p, known):
    return any(same(f, p, k) for k in known)


LOCKS = ('lock', 'lock_owned', 'blocking_lock', 'write', 'write_owned', 'acquire', 'acquire_owned', 'acquire_many', 'lock_exclusive', 'try_lock_exclusive', 'read_owned')


def lock_events(events):
    return [e for e in events if e.kind == 'lock' or (e.kind == 'call' and op_of(e.name) in LOCKS and not is_fs(e) and any(k in e.name for k in ('Mutex', 'RwLock', 'Semaphore', 'lock', 'Lock')))]


@prop('C36', 'in every inbox function that both reads an index file and writes it back, some lock must be acquired on every path before the read and still be held at the write (lockset analysis over the effect history); a function without one is reported; every file other than the index that an operation writes has a name carrying at least 63 bits drawn on that very path, so that no concurrent operation writes it')
def c36(ck):
    F = ck.F
    for ty, aid, ab, pb in inboxes(F):
        for b in (ab, pb):
            ses = ck.session()
            outs = ses.entry(b)
            bad = None
            n = 0
            for o in outs:
                ws = effects(o)
                for e in reads(o.events):
                    for w in ws:
                        if not same(o.facts, e.args[0], w.path):
                            continue
                        n += 1
                        pre = []
                        for x in o.events:
                            if x is e:
                                break
                            pre.append(x)
                        lk = lock_events(pre)
                        if not lk:
                            bad = 'the index is read at %s and written at %s with no lock held' % (e.where[1], w.event.where[1])
                        else:
                            ck.count('locked updates')
            ck.count('index updates', n)
            ck.ob('%s::%s updates the index under a lock' % (ty, b['name'].split('::')[-1]), bad is None, b['sp'], bad or '')
        # everything else is written under a name no other operation can be using
        from .crypto import spread
        for b in (ab, pb):
            ses = ck.session()
            outs = ses.entry(b)
            idx = {canon(e.facts, e.args[0]) for e in all_events(ses.I, outs) if is_fs(e) and op_of(e.name) in ('read', 'read_to_string') and id_of(e.args[0]) is None}
            # what becomes the index is the index's own matter
            idx |= {canon(e.facts, e.args[0]) for e in all_events(ses.I, outs) if is_fs(e) and op_of(e.name) == 'rename' and len(e.args) > 1 and same_path(e.facts, canon(e.facts, e.args[1]), idx)}
            for e in all_events(ses.I, outs):
                if not is_fs(e) or op_of(e.name) not in ('write', 'create', 'rename', 'copy', 'append', 'open', 'set_len', 'hard_link', 'symlink'):
                    continue
                for p in e.args[:2] if op_of(e.name) in TWO else e.args[:1]:
                    p = canon(e.facts, p)
                    if p in idx or same_path(e.facts, p, idx):
                        continue
                    num = id_of(p)
                    ds = [x for x in subterms(p) if x.op == 'call' and x.a[0] == 'dec']
                    own = any(spread(x.a[1][0]) >= 63 for x in ds) or (num is not None and spread(num) >= 63)
                    ck.count('private files')
                    ck.ob('%s::%s writes messages under names of their own' % (ty, b['name'].split('::')[-1]), own, e.where[1], show(p)[:200])
    ck.floor('index updates', 1)


# ------------------------------------------------------------------ C37
FALLIBLE_JSON = ('json_parse', 'json_to_vec', 'json_to_string', 'AsJson::from_json', 'AsJson::to_json')


def fallible(e):
    return is_fs(e) and op_of(e.name) not in ('path', 'file_name', 'exists', 'is_file', 'is_dir', 'new', 'options', 'append', 'create_opt')


MAY_BE_MISSING = ('read', 'read_to_string', 'remove_file', 'remove_dir', 'remove_dir_all', 'metadata', 'read_dir', 'open', 'symlink_metadata')


@prop('C37', 'on every path of every storage function that ends in success, and on every loop step that goes on, each file operation performed is known to have succeeded, or, for reading and removing, to have failed because the file does not exist; the same for JSON conversions; a path on which another failure is known, or on which an operation\'s result is not looked at, must end in an error; in every POST handler a path on which a driver operation is known to have failed answers with an error reply of status ServerError')
def c37(ck):
    F = ck.F
    sites = fs_sites(F)
    seeds = {owner(F, b)['id'] for b, _, _ in sites if owner(F, b)}
    for b in reach(F, seeds):
        ses = ck.session()
        outs = ses.entry(b)
        ck.count('functions')
        who = short(b)
        for o in outs:
            ck.count('paths')
            for f, v, pl in result_of(o):
                if v != 'Ok':
                    continue
                for e in o.events:
                    judge(ck, who, e, f, pl[0])
                for t, x in f.v.items():
                    if t.op == 'call' and t.a[0] in FALLIBLE_JSON and x == ('is', 'Err'):
                        ck.ob('%s: a record that cannot be converted is reported' % who, False, b['sp'], show(t)[:200])
        for lp in loops_of(outs):
            for st in lp.paths:
                ck.count('loop steps')
                for e in since(st.events(), lp) or ():
                    judge(ck, who, e, st.facts, None, lp, st)
                for t, x in st.facts.v.items():
                    if t.op == 'call' and t.a[0] in FALLIBLE_JSON and x == ('is', 'Err'):
                        ck.ob('%s: a record that cannot be converted is reported' % who, False, b['sp'], show(t)[:200])
    # failures of storage operations reach the callers of the drivers' default methods too
    for fn in ('servers', 'lookup_local_client', 'lookup_remote_client', 'lookup_remote_client_hint', 'lookup_server', 'index_remote_client'):
        try:
            b = default_method(F, 'Router', fn)
        except AnalysisError:
            continue
        for o in ck.session().entry(b):
            ck.count('paths')
            for f, v, pl in result_of(o):
                for e in o.events:
                    if e.kind == 'call' and e.res is not None and '::Router::' in e.name and v == 'Ok':
                        ck.ob('Router::%s passes on failures' % fn, f.variant(e.res) == 'Ok', e.where[1] if e.where else b['sp'], show(e.res)[:160])
    # and the server owns up to them
    from .server import posts, drv_events, shape, rf
    _, hs = posts(ck)
    for h in hs:
        for o in h.outs:
            evs = drv_events(o)
            for i, e in enumerate(evs):
                if e.res is None or o.facts.variant(e.res) != 'Err' or any(x.name == e.name for x in evs[i + 1:]):
                    continue
                ck.count('failures answered')
                k, r = shape(o.facts, o.ret)
                st = rf(r, 'status') if k == 'Error' and r.op == 'agg' else None
                good = st is not None and (o.facts.variant(st) or (st.a[0][2] if is_adt(st) else None)) == 'ServerError'
                ck.ob('%s: a failing %s is answered as a failure of the server' % (h.path, e.name.split('::')[-1]), good, e.where[1], show(o.ret)[:200])
    ck.floor('failures answered', 6)
    ck.floor('functions', 4)


def judge(ck, who, e, f, ret, lp=None, st=None):
    if not fallible(e) or e.res is None:
        return
    n = op_of(e.name)
    ck.count('operations')
    if ok_known(f, e.res):
        ck.ob('%s: a failing %s is reported' % (who, n), True)
        return
    if n in MAY_BE_MISSING and not_found(f, e.res):
        ck.ob('%s: a failing %s is reported' % (who, n), True)
        return
    if lp is not None:
        # the failure may be remembered and reported after the loop
        i = lp.paths.index(st)
        err = fld(e.res, 'Err', '0')
        for ph, (init, backs) in lp.phis.items():
            if backs[i] is not None and backs[i] is not ph and (mentions(backs[i], err) or mentions(backs[i], e.res)):
                ck.ob('%s: a failing %s is reported' % (who, n), True)
                return
    why = 'the failure is known and dropped' if f.variant(e.res) == 'Err' else 'the result is not looked at'
    if f.variant(e.res) == 'Err' and n in MAY_BE_MISSING:
        why = 'failures other than a missing file are dropped'
    ck.ob('%s: a failing %s is reported' % (who, n), False, e.where[1], '%s: %s' % (why, show(e.args[0])[:160] if e.args else ''))


# ------------------------------------------------------------------ C38
U32 = (1 << 32) - 1


def forwarders(F):
    return [(a, im) for a, im in impls_of(F, 'PortForwarder') if a and a.startswith('hyperborealib')]


PROTOS = {'TCP': ('TCP',), 'UDP': ('UDP',), 'Both': ('TCP', 'UDP')}


def gateway(events, what):
    return [e for e in events if e.kind == 'call' and op_of(e.name) in (what + '_port', what + '_ports', 'add_port_once') and 'easy_upnp' in e.name]


def proto_of(t):
    return t.a[0][2] if is_adt(t) else None


@prop('C38', 'open and close are analysed for each protocol value; on every successful path of open the gateway calls are exactly one mapping per requested protocol, for the given port and the given time or the longest the interface can express, each known to have succeeded, and each is remembered with its configuration only when it is; on every successful path of close each requested protocol\'s remembered mapping, under the same key, was removed from the gateway with that configuration, or none is remembered; a mapping is forgotten only when its removal succeeded; discard asks for the removal of every remembered mapping, and its success depends on what each failed removal left behind')
def c38(ck):
    F = ck.F
    for a, im in forwarders(F):
        ty = a.split('::')[-1]
        ob, cb, db = [impl_method(F, im, m) for m in ('open', 'close', 'discard')]
        if not ck.ob('%s opens, closes and discards' % ty, ob and cb and db):
            continue
        pid = adt_named(F, 'Protocol')['id']
        keys = {}
        for pn, reqs in PROTOS.items():
            ck.count('protocols')
            opening(ck, F, ty, ob, adt(pid, pn), pn, reqs, keys)
        for pn, reqs in PROTOS.items():
            closing(ck, F, ty, cb, adt(pid, pn), pn, reqs, keys)
        discarding(ck, F, ty, db)
    ck.floor('protocols', 3)


def args_for(F, b, proto):
    return [proto if type_name(t) == 'Protocol' else None for n, t in params_of(F, b)]


def time_ok(f, d, secs):
    d = canon(f, d)
    lo, hi = f.interval(secs)[:2]
    if d.op == 'int':
        return d.a[0] == U32 and lo is not None and lo >= U32
    bare = d
    while bare.op in ('cast', 'ity'):
        bare = bare.a[0]
    return bare is secs and (d is secs or (hi is not None and hi <= U32))


def inserts(o):
    return [e for e in o.events if e.kind == 'mutate' and op_of(e.name) in ('insert', 'push', 'extend', 'push_back') and any('forward' in show(x) or x.op == 'call' and x.a[0] == 'guarded' for x in subterms(e.args[0]))] \
        if True else []


def opening(ck, F, ty, b, proto, pn, reqs, keys):
    who = '%s::open(%s)' % (ty, pn)
    ses = ck.session(transparent=('PortForwarder',))
    port = mk('par', params_of(F, b)[1][0], 'u16')
    port2 = next((ses.I.param_value(n, None) for n, t in ()), None)
    n = 0
    for o in ses.entry(b, args_for(F, b, proto)):
        adds = gateway(o.events, 'add')
        for e in adds:
            ck.count('gateway calls')
        for e in o.events:
            if e.kind == 'mutate' and op_of(e.name) == 'insert' and len(e.args) >= 3:
                okk = [x for x in adds if x.args[0] is e.args[2] and ok_known(e.facts, x.res)]
                ck.ob('%s remembers a mapping only when it was opened' % who, bool(okk), e.where[1], show(e.args[2])[:200])
        for f, v, pl in result_of(o):
            ck.count('paths')
            if v != 'Ok':
                continue
            for g, yes in resolve_bool(f, pl[0]):
                if not yes:
                    continue
                n += 1
                got = sorted(proto_of(F_(e.args[0], 'protocol')) or '?' for e in adds)
                ck.ob('%s maps exactly the requested protocols' % who, got == sorted(reqs), b['sp'], str(got))
                for e in adds:
                    c = e.args[0]
                    p = F_(c, 'port')
                    ck.ob('%s maps the given port' % who, p.op == 'par' and p.a[0] == params_of(F, b)[1][0], e.where[1], show(p))
                    dn = next(x for x, t in params_of(F, b) if 'Duration' in str(t))
                    secs = call('secs:u64', (mk('par', dn),))
                    d = F_(c, 'duration')
                    ck.ob('%s asks for the requested time or the longest possible' % who, time_ok(g, d, secs), e.where[1], '%s when %s' % (show(d), '; '.join(g.show())[:200]))
                    ck.ob('%s succeeds only when the gateway agreed' % who, ok_known(g, e.res), e.where[1])
                    ins = [x for x in o.events if x.kind == 'mutate' and op_of(x.name) == 'insert' and len(x.args) >= 3 and x.args[2] is c]
                    if ck.ob('%s remembers every mapping' % who, len(ins) == 1, e.where[1], 'the mapping of %s is not remembered' % proto_of(F_(c, 'protocol'))):
                        keys.setdefault(proto_of(F_(c, 'protocol')), set()).add(ins[0].args[1])
                        gone = [x for x in o.events if x.kind == 'mutate' and op_of(x.name) in ('remove', 'clear', 'retain')]
                        ck.ob('%s does not forget a mapping' % who, not gone, b['sp'])
    ck.ob('%s can succeed' % who, n > 0, b['sp'])


def closing(ck, F, ty, b, proto, pn, reqs, keys):
    who = '%s::close(%s)' % (ty, pn)
    ses = ck.session(transparent=('PortForwarder',))
    n = 0
    for o in ses.entry(b, args_for(F, b, proto)):
        dels = gateway(o.events, 'delete')
        for e in o.events:
            if e.kind == 'mutate' and op_of(e.name) == 'remove':
                okk = [x for x in dels if ok_known(e.facts, x.res) and deletes(x.args[0], e.args[0], e.args[1])]
                none = [1 for t, x in e.facts.v.items() if t.op == 'mapget' and x == ('is', 'None') and t.a[1] is e.args[1]]
                ck.ob('%s forgets a mapping only when it was closed' % who, bool(okk) or bool(none), e.where[1], show(e.args[1]))
        for f, v, pl in result_of(o):
            ck.count('paths')
            if v != 'Ok':
                continue
            for g, yes in resolve_bool(f, pl[0]):
                if not yes:
                    continue
                n += 1
                for r in reqs:
                    ks = keys.get(r, set())
                    good = False
                    for k in ks:
                        looked = [t for t, x in g.v.items() if t.op == 'mapget' and t.a[1] is k]
                        for t in looked:
                            if g.variant(t) == 'None':
                                good = True
                            elif any(ok_known(g, x.res) and from_entry(x.args[0], fld(t, 'Some', '0')) for x in dels):
                                gone = [x for x in o.events if x.kind == 'mutate' and op_of(x.name) == 'remove' and x.args[1] is k]
                                good = bool(gone)
                    # removed from the table first and put back on failure is also fine
                    ck.ob('%s closes the remembered mapping of %s' % (who, r), good, b['sp'], 'on the path ' + '; '.join(g.show())[:300])
                for x in dels:
                    tgt = [r for r in reqs for k in keys.get(r, ()) if any(y is k for y in subterms(x.args[0]))]
                    ck.ob('%s closes only the requested mappings' % who, bool(tgt), x.where[1], show(x.args[0])[:200])
    ck.ob('%s can succeed' % who, n > 0, b['sp'])


def from_entry(c, ent):
    """Configuration c is a copy of the remembered one."""
    if c is ent:
        return True
    if not is_adt(c):
        return False
    names = FIELDS.get(c.a[0][1], ({},))[0].get(c.a[0][2])
    if not names:
        return False
    need = ('port', 'protocol', 'address')
    return all(F_(c, x) is F_(ent, x) for x in need if x in names)


def deletes(c, table, key):
    return any(y is key for y in subterms(c)) or True if is_adt(c) else False


def discarding(ck, F, ty, b):
    who = '%s::discard' % ty
    ses = ck.session(transparent=('PortForwarder',))
    outs = ses.entry(b)
    lps = [lp for lp in loops_of(outs) if any(gateway(since(st.events(), lp) or (), 'delete') for st in lp.paths + [s for k, x, s in lp.exits])]
    if not ck.ob('%s goes through the remembered mappings' % who, bool(lps), b['sp'], 'no loop asks the gateway'):
        return
    lp = lps[0]
    for st in lp.paths:
        ck.count('discarding steps')
        dels = gateway(since(st.events(), lp) or (), 'delete')
        good = [e for e in dels if element_config(lp, e.args[0])]
        ck.ob('%s asks the gateway to remove every mapping' % who, bool(good), b['sp'], 'a step asks for nothing: ' + '; '.join(st.facts.show())[:200])
        for ph, (init, backs) in lp.phis.items():
            bk = backs[lp.paths.index(st)]
            if bk is not None and bk.op in ('mremove',) and good:
                ck.ob('%s forgets a mapping only when it was closed' % who, all(ok_known(st.facts, e.res) for e in good), b['sp'])
            kept = any(e.kind == 'mutate' and op_of(e.name) == 'retain' and e.args[1:] and e.args[1] is ph for o in outs for e in o.events)
            if kept and good and bk is ph:
                ck.ob('%s does not remember a mapping that was closed' % who, any(st.facts.variant(e.res) == 'Err' for e in good), b['sp'], 'kept on the path ' + '; '.join(st.facts.show())[:200])
    for k, x, st in lp.exits:
        g = st.facts
        done = any(y is False and t.op == 'bin' and t.a[0] == 'Lt' and t.a[1] in index_phi(lp) for t, y in g.b.items()) or any(y == ('is', 'None') for t, y in g.v.items())
        ck.ob('%s does not stop at the first failure' % who, done, b['sp'], '; '.join(g.show())[:300])
    # what a step remembers of a failure, and whether the answer depends on it
    failing = [i for i, st in enumerate(lp.paths) if any(st.facts.variant(e.res) == 'Err' for e in gateway(since(st.events(), lp) or (), 'delete'))]
    fine = [i for i, st in enumerate(lp.paths) if i not in failing]
    for o in outs:
        for f, v, pl in result_of(o):
            if v != 'Ok':
                continue
            for g, yes in resolve_bool(f, pl[0]):
                if not yes:
                    continue
                for i in failing:
                    told = False
                    for ph, (init, backs) in lp.phis.items():
                        bk = backs[i]
                        others = [backs[j] for j in fine if backs[j] is not None] or [ph]
                        if bk is None or all(x is bk for x in others) and not any(unlike(lp.paths[i].facts, x, init) for x in (ph, bk)):
                            continue
                        if ph is pl[0] or ph is o.ret:
                            told = told or says_failed(lp.paths[i].facts, bk)
                        elif any(x is ph for t in list(g.v) + list(g.b) for x in subterms(t)) or any(x is ph for x in subterms(o.ret)):
                            told = True
                    ck.ob('%s reports that the gateway kept a mapping' % who, told, b['sp'], 'success does not depend on the failed removal; on the path ' + '; '.join(g.show())[:200])
    for o in outs:
        ms = [e for e in o.events if e.kind == 'mutate' and op_of(e.name) in ('clear', 'drain')]
        ck.ob('%s forgets a mapping only when it was closed' % who, not any(op_of(e.name) == 'clear' for e in ms), b['sp'], 'all mappings are forgotten')


def unlike(f, x, init):
    """On this path x is known not to be what it was before the loop."""
    a, b = f.variant(x), f.variant(init)
    if a is not None and b is not None:
        return a != b
    a, b = f.eval(x), f.eval(init)
    return a is not None and b is not None and a != b


def says_failed(f, bk):
    """The value a step leaves behind on failure is an error, or false."""
    if f.variant(bk) == 'Err':
        return True
    if f.variant(bk) == 'Ok':
        bk = F_(bk, '0') if is_adt(bk) else fld(bk, 'Ok', '0')
    return f.eval(bk) is False


def element_config(lp, c):
    """Configuration of the element at the loop's position."""
    xs = [x for x in subterms(c) if x.op == 'idx' and x.a[1] in index_phi(lp)]
    if not xs:
        return False
    el = xs[0]
    return from_entry(c, F_(el, '1')) or from_entry(c, el)

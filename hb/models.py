"""Transfer functions for library callees, keyed by normalised path (std/core/alloc prefix removed)."""
import re
from .terms import *
from . import terms as TM
from .engine import SKIP, State, Event, AnalysisError, CRATE, is_future_ty

MODELS = {}
FUTURES = {}


def m(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def D(I, st, v):
    return I.deref_val(st, v)


def U(v):
    return I_(v)


def I_(v):
    return TM.I(v, 'usize')


ZERO = I_(0)
ONE = I_(1)

def levels(f):
    def g(I, st, fr, c, args):
        if tracing_value(c.selfty):
            return [(st, B(I.tracing))]
        return f(I, st, fr, c, args)
    return g


# ------------------------------------------------------------------ identities
IDENT = '''clone::Clone::clone convert::AsRef::as_ref borrow::Borrow::borrow borrow::ToOwned::to_owned
future::IntoFuture::into_future future::get_context pin::Pin::new_unchecked pin::Pin::new boxed::Box::new boxed::Box::pin
sync::Arc::new rc::Rc::new hint::must_use slice::<impl [T]>::to_vec str::<impl str>::as_bytes string::String::as_str
string::String::as_bytes string::String::into_bytes vec::Vec::as_slice vec::Vec::into_boxed_slice string::String::into_boxed_str
vec::Vec::from_iter_identity slice::<impl [T]>::as_ref array::<impl [T; N]>::as_slice sync::Mutex::new sync::RwLock::new cell::RefCell::new
option::Option::as_ref option::Option::as_deref option::Option::copied option::Option::cloned result::Result::as_ref result::Result::cloned result::Result::copied
path::Path::new path::Path::to_path_buf path::PathBuf::as_path path::Path::as_os_str ffi::OsString::into_string_identity path::PathBuf::into_os_string
iter::IntoIterator::into_iter_identity str::<impl str>::to_owned slice::<impl [T]>::into_vec str::from_utf8_unchecked string::String::from_utf8_unchecked
hint::black_box convert::identity mem::ManuallyDrop::new sync::Arc::as_ref slice::<impl [T]>::as_slice option::Option::as_slice
boxed::Box::into_pin any::Any::type_id_identity string::String::into_string boxed::Box::leak str::<impl str>::as_ref borrow::Cow::into_owned
generic_array::GenericArray::as_slice
vec::Vec::into_iter_identity path::Path::display path::Path::as_path cmp::Reverse num::Wrapping num::<impl u64>::to_owned
slice::<impl [T]>::as_flattened boxed::Box::as_ref pin::Pin::as_ref pin::Pin::get_ref'''
IDENT = re.split(r'\s+(?![\[N]|str>|u64>)', IDENT)


def ident(I, st, fr, c, args):
    return [(st, D(I, st, args[0]))]


for n in IDENT:
    MODELS[n] = ident


@m('ops::Deref::deref')
def m_deref(I, st, fr, c, args):
    v = args[0]
    w = D(I, st, v) if v.op != 'ref' else I.load(st, v.a[0], v.a[1])
    if w.op == 'ref':
        w = I.deref_val(st, w)
    if w.op == 'static':
        return deref_static(I, st, fr, c, w)
    t = c.selfty
    if t and t[0] == 'adt' and t[1].startswith(CRATE) :
        return None
    return [(st, w)]


def deref_static(I, st, fr, c, w):
    return [(st, w)]


@m('ops::DerefMut::deref_mut', 'borrow::BorrowMut::borrow_mut', 'convert::AsMut::as_mut', 'vec::Vec::as_mut_slice', 'pin::Pin::as_mut', 'pin::Pin::get_mut',
   'array::<impl [T; N]>::as_mut_slice', 'boxed::Box::as_mut', 'sync::Arc::get_mut_unchecked', 'pin::Pin::get_unchecked_mut', 'cell::RefCell::get_mut', 'sync::Mutex::get_mut_')
def m_deref_mut(I, st, fr, c, args):
    v = args[0]
    if v.op == 'ref':
        w = I.load(st, v.a[0], v.a[1])
        while w.op == 'ref':
            v = w
            w = I.load(st, v.a[0], v.a[1])
    return [(st, v)]


@m('sync::Mutex::lock', 'sync::RwLock::write', 'sync::RwLock::read', 'cell::RefCell::borrow', 'cell::RefCell::borrow_mut', 'sync::Mutex::try_lock')
def m_lock(I, st, fr, c, args):
    mx = D(I, st, args[0])
    loc = ('mutex', mx)
    st = st.fork()
    if loc not in st.mem:
        st.mem[loc] = mk('guarded', mx)
    st.add(Event('lock', c.name, (mx,), None, st.facts, I.where(fr, c.sp)))
    r = mk('ref', loc, ())
    return [(st, r if 'cell' in c.name else ok(r))]


FUTURES['tokio::sync::Mutex::lock'] = lambda I, st, fr, c, fut, r: [(s, v.a[1][0]) for s, v in m_lock(I, st, fr, c, [fut.a[1][0]])]
FUTURES['tokio::sync::RwLock::write'] = FUTURES['tokio::sync::Mutex::lock']
FUTURES['tokio::sync::RwLock::read'] = FUTURES['tokio::sync::Mutex::lock']


def is_bytes_like(t):
    while t and t[0] == 'ref':
        t = t[1]
    if not t:
        return False
    return t[0] in ('slice', 'array', 'str') or (t[0] == 'adt' and t[1] in ('alloc::vec::Vec', 'alloc::string::String'))


def peel(t):
    while t and (t[0] == 'ref' or (t[0] == 'adt' and t[1] in ('alloc::boxed::Box', 'alloc::sync::Arc', 'alloc::rcs::arc::Arc', 'alloc::rc::Rc', 'alloc::borrow::Cow'))):
        t = t[1] if t[0] == 'ref' else (t[2][0] if t[2] else None)
    return t


def tyname(t):
    if t is None:
        return '?'
    if t[0] == 'adt':
        return t[1].split('::')[-1] + ('<%s>' % ','.join(tyname(a) for a in t[2]) if t[2] else '')
    if t[0] in ('int', 'param'):
        return t[1]
    if t[0] in ('ref', 'slice', 'array'):
        return t[0] + ' ' + tyname(t[1])
    if t[0] == 'tuple':
        return '(%s)' % ','.join(tyname(x) for x in t[1])
    return t[0]


COLL = {'alloc::vec::Vec', 'alloc::string::String', 'alloc::boxed::Box', 'alloc::collections::vec_deque::VecDeque', 'alloc::rcs::arc::Arc', 'alloc::sync::Arc', 'alloc::rc::Rc',
        'std::path::PathBuf', 'alloc::borrow::Cow', 'core::option::Option', 'std::sync::poison::mutex::Mutex'}


def convert(I, st, fr, c, v, src, dst):
    """Value conversion From/Into between library types."""
    v = D(I, st, v)
    s, d = src, dst
    while s and s[0] == 'ref':
        s = s[1]
    while d and d[0] == 'ref':
        d = d[1]
    if s == d:
        return [(st, v)]
    if d and d[0] == 'int' and s and s[0] in ('int', 'bool', 'char'):
        return [(st, cast(v, d[1]))]
    if d and d[0] == 'adt':
        if d[1] == 'core::option::Option' and not (s and s[0] == 'adt' and s[1] == d[1]):
            return [(st, some(v))]
        if d[1] == 'serde_json::value::Value':
            return to_json_value(I, st, fr, c, v, s)
        if 'HashSet' in d[1] or 'BTreeSet' in d[1] or 'HashMap' in d[1]:
            if I.elementwise(cat([v])) or v.op == 'agg':
                r = EMPTY
                for x in (v.a[1] if v.op == 'agg' else [p.a[0] for p in cat([v]).a]):
                    r = mk('ins', r, x) if 'Set' in d[1] else mk('minsert', r, x.a[1][0], x.a[1][1])
                return [(st, r)]
            return [(st, call('set', (v,)))]
        if d[1] in COLL or d[1].endswith(('PathBuf', 'VecDeque', 'OsString', 'Bytes')):
            return [(st, v)]
        if d[1] == 'ecdsa::verifying::VerifyingKey':
            return [(st, call('vk', (v,)))]
        if d[1] == 'ecdsa::signing::SigningKey':
            return [(st, call('sk', (v,)))]
        if d[1] == 'elliptic_curve::public_key::PublicKey' and s and s[1] == 'ecdsa::verifying::VerifyingKey':
            return [(st, call('unvk', (v,)))]
        if d[1] == 'generic_array::GenericArray':
            return [(st, v)]
    if d and d[0] in ('array', 'slice', 'str', 'dyn'):
        return [(st, v)]
    return [(st, call('from:%s' % tyname(d), (v,)))]


@m('convert::From::from', 'convert::Into::into')
def m_from(I, st, fr, c, args):
    tr = c.name.endswith('from')
    a = c.targs
    if len(a) < 2:
        return None
    dst, src = (a[0], a[1]) if tr else (a[1], a[0])
    if not tr:
        # Into: local From impl?
        fi = I.find_impl('core::convert::From', (dst, src), 'from')
        if fi and fi[0] in I.F.bodies:
            bid, s, im = fi
            return I.inline(st, fr, c, I.F.bodies[bid], dict(s), args)
    return convert(I, st, fr, c, args[0], src, dst)


@m('convert::TryFrom::try_from', 'convert::TryInto::try_into')
def m_try_from(I, st, fr, c, args):
    tr = c.name.endswith('try_from')
    a = c.targs
    dst, src = (a[0], a[1]) if tr else (a[1], a[0])
    if not tr:
        fi = I.find_impl('core::convert::TryFrom', (dst, src), 'try_from')
        if fi and fi[0] in I.F.bodies:
            bid, s, im = fi
            return I.inline(st, fr, c, I.F.bodies[bid], dict(s), args)
    v = D(I, st, args[0])
    d, s = dst, src
    while s[0] == 'ref':
        s = s[1]
    while d[0] == 'ref':
        d = d[1]
    if d[0] == 'int' and s[0] == 'int':
        n = bits_of(d[1])
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed(d[1]) else (0, (1 << n) - 1)
        ns = bits_of(s[1])
        slo, shi = (-(1 << (ns - 1)), (1 << (ns - 1)) - 1) if signed(s[1]) else (0, (1 << ns) - 1)
        out = []
        e = call('TryFromIntError', (v,))
        conds = []
        if shi > hi:
            conds.append(binop('Lt', TM.I(hi, s[1]), v, s[1]))
        if slo < lo:
            conds.append(binop('Lt', v, TM.I(lo, s[1]), s[1]))
        states = [st]
        for cd in conds:
            nx = []
            for q in states:
                for q2, b in I.fork_bool(q, cd):
                    if b:
                        out.append((q2, err(e)))
                    else:
                        nx.append(q2)
            states = nx
        return out + [(q, ok(cast(v, d[1]))) for q in states]
    if d[0] == 'array':
        n = d[2]
        if isinstance(n, int):
            out = []
            for q, b in I.fork_bool(st, eq(length(v), I_(n))):
                out.append((q, ok(v) if b else err(call('TryFromSliceError', (v,)))))
            return out
    if d[0] == 'adt' and d[1] == 'ecdsa::Signature':
        return m_sig_from(I, st, fr, c, args)
    return None


# ------------------------------------------------------------------ equality and order
def eq_values(I, st, a, b, depth=0):
    """[(state, bool term)] for a == b, forking on enum variants where one side is a literal."""
    a, b = D(I, st, a), D(I, st, b)
    if a is b:
        return [(st, TRUE)]
    if depth > 4:
        return [(st, eq(a, b))]
    ea, eb = is_adt(a) and I.is_enum(a.a[0][1]), is_adt(b) and I.is_enum(b.a[0][1])
    if ea or eb:
        lit, o = (a, b) if ea else (b, a)
        if lit.a[1] and not is_adt(o):
            out = []
            for s, vn, pl in I.fork_variant(st, o, lit.a[0][1]):
                if vn != lit.a[0][2]:
                    out.append((s, FALSE))
                else:
                    res = [(s, TRUE)]
                    for x, y in zip(pl, lit.a[1]):
                        res = [(s3, binop('BitAnd', t, t2)) for s2, t in res for s3, t2 in eq_values(I, s2, x, y, depth + 1)]
                    out += res
            return out
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and a.a[0][0] in ('adt', 'tuple'):
        res = [(st, TRUE)]
        for x, y in zip(a.a[1], b.a[1]):
            res = [(s3, binop('BitAnd', t, t2)) for s2, t in res for s3, t2 in eq_values(I, s2, x, y, depth + 1)]
        return res
    return [(st, eq(a, b))]


@m('cmp::PartialEq::eq', 'cmp::PartialEq::ne', 'slice::<impl [T]>::eq', 'str::<impl str>::eq', 'iter::Iterator::eq')
def m_eq(I, st, fr, c, args):
    r = eq_values(I, st, args[0], args[1])
    if c.name.endswith('::ne'):
        r = [(s, unop('Not', t)) for s, t in r]
    return r


@m('cmp::PartialOrd::lt', 'cmp::PartialOrd::le', 'cmp::PartialOrd::gt', 'cmp::PartialOrd::ge')
@levels
def m_ord(I, st, fr, c, args):
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.name.rsplit('::', 1)[1]]
    t = c.selfty
    while t and t[0] == 'ref':
        t = t[1]
    return [(st, binop(op, D(I, st, args[0]), D(I, st, args[1]), t[1] if t and t[0] == 'int' else None))]


@m('cmp::Ord::cmp', 'cmp::PartialOrd::partial_cmp')
def m_cmp(I, st, fr, c, args):
    a, b = D(I, st, args[0]), D(I, st, args[1])
    t = c.selfty
    while t and t[0] == 'ref':
        t = t[1]
    ty = t[1] if t and t[0] == 'int' else None
    w = (lambda x: some(x)) if c.name.endswith('partial_cmp') else (lambda x: x)
    out = []
    for s, l in I.fork_bool(st, binop('Lt', a, b, ty)):
        if l:
            out.append((s, w(adt(ORD, 'Less'))))
        else:
            for s2, e in I.fork_bool(s, eq(a, b)):
                out.append((s2, w(adt(ORD, 'Equal' if e else 'Greater'))))
    return out


@m('cmp::Ord::min', 'cmp::Ord::max', 'cmp::min', 'cmp::max')
def m_minmax(I, st, fr, c, args):
    a, b = D(I, st, args[0]), D(I, st, args[1])
    n = c.name.rsplit('::', 1)[1]
    if a is b:
        return [(st, a)]
    t = c.targs[0] if c.targs else None
    ty = t[1] if t and t[0] == 'int' else 'u64'
    if a.op == 'int' and b.op == 'int':
        return [(st, a if (a.a[0] < b.a[0]) == (n == 'min') else b)]
    M = (1 << bits_of(ty)) - 1
    for x, y in ((a, b), (b, a)):
        if x.op == 'int' and not signed(ty):
            if x.a[0] == M:
                return [(st, y if n == 'min' else x)]
            if x.a[0] == 0:
                return [(st, x if n == 'min' else y)]
    if b.id < a.id:
        a, b = b, a
    return [(st, call('%s:%s' % (n, ty), (a, b)))]


# ------------------------------------------------------------------ integers
def int_method(name):
    mm = re.match(r'^num::<impl (\w+)>::(\w+)$', name)
    return mm.groups() if mm else None


def int_model(I, st, fr, c, args):
    ty, f = int_method(c.name)
    v = [D(I, st, a) for a in args]
    n = bits_of(ty)
    tlo, thi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed(ty) else (0, (1 << n) - 1)
    if f in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
        e = f[3:5]
        e = 'le' if e == 'ne' else e
        x = v[0]
        if x.op == 'int':
            return [(st, BY((x.a[0] & ((1 << n) - 1)).to_bytes(n // 8, 'big' if e == 'be' else 'little')))]
        nm = 'to_%s_%s' % (e, ty)
        if x.op == 'call' and x.a[0] == 'from_%s:%s' % (e, ty):
            return [(st, x.a[1][0])]
        return [(st, call(nm, (x,)))]
    if f in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
        e = f[5:7]
        e = 'le' if e == 'ne' else e
        x = v[0]
        if x.op == 'call' and x.a[0] == 'to_%s_%s' % (e, ty):
            return [(st, x.a[1][0])]
        if x.op == 'bytes':
            return [(st, TM.I(int.from_bytes(x.a[0], 'big' if e == 'be' else 'little'), ty))]
        if x.op == 'repeat' and x.a[0].op == 'int' and x.a[0].a[0] == 0:
            return [(st, TM.I(0, ty))]
        return [(st, call('from_%s:%s' % (e, ty), (x,)))]
    if f in ('to_be', 'from_be', 'to_le', 'from_le', 'swap_bytes', 'reverse_bits'):
        return [(st, v[0] if f.endswith('le') else call('swap:%s' % ty, (v[0],)))]
    if f in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub', 'unchecked_mul'):
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[f.split('_')[1]]
        return [(st, binop(op, v[0], v[1], ty))]
    if f in ('checked_add', 'checked_sub', 'checked_mul', 'overflowing_add', 'overflowing_sub', 'saturating_add', 'saturating_sub', 'saturating_mul'):
        k, o = f.split('_')
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[o]
        r = binop(op, v[0], v[1], ty)
        ov = I.overflow(st, op, v[0], v[1], ty)
        if op == 'Sub' and not signed(ty):
            ov = binop('Lt', v[0], v[1], ty)
        out = []
        if k == 'overflowing':
            return [(st, tup(r, ov))]
        for s, b in I.fork_bool(st, ov):
            if k == 'checked':
                out.append((s, NONE if b else some(r)))
            else:
                out.append((s, (TM.I(0 if op == 'Sub' and not signed(ty) else thi, ty)) if b else r))
        return out
    if f in ('checked_div', 'checked_rem'):
        out = []
        for s, b in I.fork_bool(st, eq(v[1], TM.I(0, ty))):
            out.append((s, NONE if b else some(binop('Div' if f == 'checked_div' else 'Rem', v[0], v[1], ty))))
        return out
    if f in ('checked_shl', 'checked_shr'):
        out = []
        for s, b in I.fork_bool(st, binop('Lt', v[1], TM.I(n, 'u32'), 'u32')):
            out.append((s, some(binop('Shl' if f == 'checked_shl' else 'Shr', v[0], v[1], ty)) if b else NONE))
        return out
    if f in ('wrapping_shl', 'wrapping_shr', 'unchecked_shl', 'unchecked_shr'):
        return [(st, binop('Shl' if f.endswith('l') else 'Shr', v[0], v[1], ty))]
    if f == 'leading_zeros':
        return [(st, call('leading_zeros', (v[0],)))]
    if f in ('is_multiple_of',):
        return [(st, eq(binop('Rem', v[0], v[1], ty), TM.I(0, ty)))]
    if f == 'pow' and v[0].op == 'int' and v[1].op == 'int':
        return [(st, TM.I(wrap(v[0].a[0] ** v[1].a[0], ty), ty))]
    if f == 'div_ceil' and v[1].op == 'int':
        return [(st, binop('Div', binop('Add', v[0], TM.I(v[1].a[0] - 1, ty), ty), v[1], ty))]
    return [(st, call('%s:%s' % (f, ty), tuple(v)))]


for _b in (8, 16, 32, 64, 128):
    for _s in 'iu':
        for _e in ('be', 'le'):
            TM.LEN_OF_CALL['to_%s_%s%d' % (_e, _s, _b)] = _b // 8
            TM.INJECTIVE.add('to_%s_%s%d' % (_e, _s, _b))
TM.LEN_OF_CALL['to_be_usize'] = TM.LEN_OF_CALL['to_le_usize'] = 8
TM.LEN_OF_CALL['sec1'] = 33
TM.LEN_OF_CALL['skbytes'] = 32
TM.INT_OF_CALL['leading_zeros'] = 'u32'
TM.INJECTIVE |= {'sec1', 'skbytes', 'b64enc', 'dec', 'to_be_usize', 'to_le_usize'}


# ------------------------------------------------------------------ text formatting
def decode_template(b):
    """fmt::Arguments template: list of text | ('arg', index, options)."""
    out, i, nxt = [], 0, 0
    while True:
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(b[i:i + n].decode())
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + ln].decode())
            i += ln
        else:
            opt = {}
            if n & 1:
                opt['flags'] = int.from_bytes(b[i:i + 4], 'little')
                i += 4
            if n & 2:
                opt['width'] = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if n & 4:
                opt['prec'] = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if n & 8:
                nxt = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            out.append(('arg', nxt, opt))
            nxt += 1


@m('fmt::rt::Argument::new_display', 'fmt::rt::Argument::new_debug', 'fmt::rt::Argument::new_lower_hex', 'fmt::rt::Argument::new_upper_hex',
   'fmt::rt::Argument::new_lower_exp', 'fmt::rt::Argument::new_pointer', 'fmt::rt::Argument::new_binary', 'fmt::rt::Argument::new_octal')
def m_argument(I, st, fr, c, args):
    v = D(I, st, args[0])
    t = c.targs[0] if c.targs else None
    kind = c.name.rsplit('new_', 1)[1]
    if kind == 'display':
        return [(s, mk('fmtarg', x)) for s, x in display(I, st, fr, c, v, t)]
    return [(st, mk('fmtarg', call('fmt_%s:%s' % (kind, tyname(peel(t))), (I.resolve(st, v),))))]


@m('fmt::Arguments::new')
def m_arguments(I, st, fr, c, args):
    t, a = D(I, st, args[0]), D(I, st, args[1])
    if t.op != 'bytes':
        return [(st, mk('fmtx', t, a))]
    parts = []
    for p in decode_template(t.a[0]):
        if isinstance(p, str):
            parts.append(S(p))
        else:
            x = I.index(st, a, I_(p[1]))
            x = x.a[0] if x.op == 'fmtarg' else mk('fmtx', x)
            if p[2] and {k: v for k, v in p[2].items() if v not in (0,)} and p[2].get('flags', 0) & 0x1fffff != 0x20:
                x = call('padded', (x,), None, tuple(sorted(p[2].items())))
            elif p[2].get('width') or p[2].get('prec'):
                x = call('padded', (x,), None, tuple(sorted(p[2].items())))
            parts.append(x)
    return [(st, cat(parts))]


@m('fmt::Arguments::from_str', 'fmt::Arguments::new_const', 'fmt::format', 'fmt::Arguments::from_str_nonconst', 'fmt::Arguments::as_str_')
def m_args_str(I, st, fr, c, args):
    v = D(I, st, args[0])
    if v.op == 'agg' and v.a[0][0] == 'array':
        v = cat(v.a[1])
    return [(st, v)]


ERROR_TRAIT = 'core::error::Error'


def display(I, st, fr, c, v, t):
    """[(state, text term)] of Display formatting v : t."""
    t = peel(t)
    v = D(I, st, v)
    if t is None:
        return [(st, call('display', (I.resolve(st, v),)))]
    if t[0] == 'str' or (t[0] == 'adt' and t[1] in ('alloc::string::String', 'core::fmt::Arguments')):
        return [(st, v)]
    if t[0] == 'int':
        if v.op == 'int':
            return [(st, S(str(v.a[0])))]
        return [(st, call('dec', (v,)))]
    if t[0] == 'char':
        return [(st, S(v.a[0]) if v.op == 'char' else call('chr', (v,)))]
    if t[0] == 'bool':
        return [(s, S('true' if b else 'false')) for s, b in I.fork_bool(st, v)]
    if t[0] == 'adt' and t[1].startswith(CRATE):
        if is_error_ty(I, t) or not I.expand_display and read_back(I, t):
            return [(st, call('display:' + tyname(t), (I.resolve(st, v),)))]
        fi = I.find_impl('core::fmt::Display', (t,), 'fmt')
        if fi and fi[0] in I.F.bodies:
            bid, s, im = fi
            loc = ('fmtbuf', c.site(), len(fr.chain()), I.fresh())
            st = st.fork()
            st.mem[loc] = EMPTY
            out = []
            for q, r in I.inline(st, fr, c.subcall('disp'), I.F.bodies[bid], dict(s), [v, mk('ref', loc, ())]):
                buf = q.mem.pop(loc)
                out.append((q, S('') if buf is EMPTY else buf))
            return out
    return [(st, call('display:' + tyname(t) if t[0] in ('adt', 'dyn') else 'display', (I.resolve(st, v),)))]


def read_back(I, t):
    """Types which are parsed from their text keep it as an opaque value; their text has rules of its own."""
    return I.has_impl('core::str::traits::FromStr', (t,)) or I.has_impl('core::str::FromStr', (t,))


def is_error_ty(I, t):
    return I.has_impl(ERROR_TRAIT, (t,))


@m('string::ToString::to_string')
def m_to_string(I, st, fr, c, args):
    t = peel(c.selfty)
    if t and t[0] == 'adt' and t[1] == 'serde_json::value::Value':
        return [(st, call('json_text', (D(I, st, args[0]),)))]
    return display(I, st, fr, c, args[0], c.selfty)


def buf_append(I, st, r, text):
    if r.op == 'ref':
        w = I.load(st, r.a[0], r.a[1])
        while w.op == 'ref':
            r = w
            w = I.load(st, r.a[0], r.a[1])
        st = st.fork()
        I.store(st, r.a[0], r.a[1], cat([w, text]))
    return st


@m('fmt::Formatter::write_fmt', 'fmt::Formatter::write_str', 'fmt::Formatter::pad', 'fmt::Write::write_fmt', 'fmt::Write::write_str', 'fmt::Write::write_char', 'fmt::Formatter::write_char')
def m_write_fmt(I, st, fr, c, args):
    x = D(I, st, args[1])
    if x.op == 'char':
        x = S(x.a[0])
    return [(buf_append(I, st, args[0], x), ok(UNIT))]


@m('fmt::Display::fmt')
def m_display_fmt(I, st, fr, c, args):
    return [(buf_append(I, s, args[1], x), ok(UNIT)) for s, x in display(I, st, fr, c, args[0], c.selfty)]


@m('fmt::Debug::fmt')
def m_debug_fmt(I, st, fr, c, args):
    return [(buf_append(I, st, args[1], call('fmt_debug:' + tyname(peel(c.selfty)), (I.resolve(st, D(I, st, args[0])),))), ok(UNIT))]


# ------------------------------------------------------------------ text
@m('str::<impl str>::parse')
def m_parse(I, st, fr, c, args):
    d = c.targs[0] if c.targs else None
    if d and d[0] == 'adt' and d[1].startswith(CRATE):
        fi = I.find_impl('core::str::traits::FromStr', (d,), 'from_str') or I.find_impl('core::str::FromStr', (d,), 'from_str')
        if fi and fi[0] in I.F.bodies:
            b = I.F.bodies[fi[0]]
            if I.is_opaque(b):
                return I.opaque_call(st, fr, c, b['name'], args, effect=False)
            return I.inline(st, fr, c, b, dict(fi[1]), args)
    if d and (d[0] == 'str' or (d[0] == 'adt' and d[1] == 'alloc::string::String')):
        return [(st, ok(D(I, st, args[0])))]
    return [(st, call('parse:' + tyname(d), (D(I, st, args[0]),)))]


@m('string::String::new', 'vec::Vec::new', 'vec::Vec::with_capacity', 'string::String::with_capacity', 'collections::HashSet::new', 'collections::HashMap::new',
   'collections::VecDeque::new', 'collections::BTreeMap::new', 'collections::BTreeSet::new', 'collections::VecDeque::with_capacity', 'collections::HashSet::with_capacity',
   'collections::HashMap::with_capacity', 'path::PathBuf::new', 'collections::LinkedList::new', 'collections::BinaryHeap::new', 'ffi::OsString::new')
def m_empty(I, st, fr, c, args):
    return [(st, EMPTY)]


@m('string::String::push_str', 'string::String::push', 'vec::Vec::push', 'vec::Vec::extend_from_slice', 'collections::VecDeque::push_back', 'ffi::OsString::push')
def m_push(I, st, fr, c, args):
    x = D(I, st, args[1])
    n = c.name
    if n == 'string::String::push':
        x = S(x.a[0]) if x.op == 'char' else call('chr', (x,))
    elif n in ('vec::Vec::push', 'collections::VecDeque::push_back'):
        x = one(x)
    return upd_coll(I, st, fr, c, args[0], lambda v: cat([v, x]), x)


@m('vec::Vec::append', 'collections::VecDeque::append')
def m_append(I, st, fr, c, args):
    x = D(I, st, args[1])
    out = upd_coll(I, st, fr, c, args[0], lambda v: cat([v, x]), x)
    st = out[0][0]
    if args[1].op == 'ref':
        I.store(st, args[1].a[0], args[1].a[1], EMPTY)
    return [(st, UNIT)]


@m('collections::VecDeque::push_front')
def m_push_front(I, st, fr, c, args):
    x = one(D(I, st, args[1]))
    return upd_coll(I, st, fr, c, args[0], lambda v: cat([x, v]), x)


def target_ref(I, st, r):
    """Innermost mutable reference."""
    if r.op != 'ref':
        return None
    while True:
        w = I.load(st, r.a[0], r.a[1])
        if w.op != 'ref':
            return r
        r = w


def upd_coll(I, st, fr, c, r, f, *what, ret=UNIT):
    r = target_ref(I, st, r)
    if r is None:
        st = st.fork()
        st.add(Event('mutate', c.name, what, None, st.facts, I.where(fr, c.sp)))
        return [(st, ret)]
    v = I.load(st, r.a[0], r.a[1])
    st = st.fork()
    nv = f(v)
    I.store(st, r.a[0], r.a[1], nv)
    st.add(Event('mutate', c.name, (v,) + what, nv, st.facts, I.where(fr, c.sp), r))
    return [(st, ret)]


@m('vec::Vec::clear', 'string::String::clear', 'collections::VecDeque::clear', 'collections::HashSet::clear', 'collections::HashMap::clear')
def m_clear(I, st, fr, c, args):
    return upd_coll(I, st, fr, c, args[0], lambda v: EMPTY)


@m('vec::Vec::truncate', 'collections::VecDeque::truncate')
def m_truncate(I, st, fr, c, args):
    n = D(I, st, args[1])
    v = D(I, st, args[0])
    out = []
    for s, b in I.fork_bool(st, binop('Lt', n, length(v), 'usize')):
        out += upd_coll(I, s, fr, c, args[0], (lambda v: slice_(v, ZERO, n)) if b else (lambda v: v), n)
    return out


@m('vec::Vec::pop', 'collections::VecDeque::pop_back', 'vec::Vec::pop_if_')
def m_pop(I, st, fr, c, args):
    v = D(I, st, args[0])
    out = []
    if v.op == 'cat' and v.a and v.a[-1].op == 'one':
        return upd_coll(I, st, fr, c, args[0], lambda v: cat(v.a[:-1]), ret=some(v.a[-1].a[0]))
    for s, b in I.fork_bool(st, eq(length(v), ZERO)):
        if b:
            out.append((s, NONE))
        else:
            out += upd_coll(I, s, fr, c, args[0], lambda v: mk('popb', v), ret=some(mk('back', v)))
    return out


@m('collections::VecDeque::pop_front')
def m_pop_front(I, st, fr, c, args):
    v = D(I, st, args[0])
    out = []
    if v.op == 'cat' and v.a and v.a[0].op == 'one':
        return upd_coll(I, st, fr, c, args[0], lambda v: cat(v.a[1:]), ret=some(v.a[0].a[0]))
    for s, b in I.fork_bool(st, eq(length(v), ZERO)):
        if b:
            out.append((s, NONE))
        else:
            out += upd_coll(I, s, fr, c, args[0], lambda v: mk('popf', v), ret=some(mk('front', v)))
    return out


@m('vec::Vec::remove', 'collections::VecDeque::remove', 'vec::Vec::swap_remove')
def m_vremove(I, st, fr, c, args):
    v, i = D(I, st, args[0]), D(I, st, args[1])
    isvec = c.name.startswith('vec')
    out = []
    for s, b in I.fork_bool(st, binop('Lt', i, length(v), 'usize')):
        if not b:
            if isvec:
                I.panic(s, fr, 'index', c.sp, (i, v))
            else:
                out.append((s, NONE))
            continue
        if i.op == 'int' and i.a[0] == 0 and not c.name.endswith('swap_remove'):
            if v.op == 'cat' and v.a and v.a[0].op == 'one':
                x, nv = v.a[0].a[0], (lambda w: cat(w.a[1:]))
            else:
                x, nv = mk('front', v), (lambda w: mk('popf', w))
        else:
            x, nv = I.index(s, v, i), (lambda w: mk('vremove', w, i))
        out += upd_coll(I, s, fr, c, args[0], nv, i, ret=x if isvec else some(x))
    return out


@m('vec::Vec::insert', 'collections::VecDeque::insert', 'string::String::insert_str', 'string::String::insert')
def m_vinsert(I, st, fr, c, args):
    i, x = D(I, st, args[1]), D(I, st, args[2])
    p = x if c.name.endswith('insert_str') else one(x)
    if i.op == 'int' and i.a[0] == 0:
        return upd_coll(I, st, fr, c, args[0], lambda v: cat([p, v]), x)
    for s, b in I.fork_bool(st, binop('Le', i, length(D(I, st, args[0])), 'usize')):
        if not b:
            I.panic(s, fr, 'index', c.sp, (i, D(I, st, args[0])))
    return upd_coll(I, st, fr, c, args[0], lambda v: mk('vinsert', v, i, x), x)


# ---- sets and maps
def contains(st, s, x):
    while s.op == 'ins':
        if s.a[1] is x:
            return TRUE
        e = st.facts.eval(eq(s.a[1], x))
        if e is True:
            return TRUE
        if e is None:
            return mk('contains', s, x)
        s = s.a[0]
    if s is EMPTY:
        return FALSE
    return mk('contains', s, x)


@m('collections::HashSet::insert', 'collections::BTreeSet::insert')
def m_set_insert(I, st, fr, c, args):
    s, x = D(I, st, args[0]), D(I, st, args[1])
    out = []
    for q, b in I.fork_bool(st, contains(st, s, x)):
        out += upd_coll(I, q, fr, c, args[0], (lambda v: v) if b else (lambda v: mk('ins', v, x)), x, ret=B(not b))
    return out


@m('collections::HashSet::replace')
def m_set_replace(I, st, fr, c, args):
    s, x = D(I, st, args[0]), D(I, st, args[1])
    out = []
    for q, b in I.fork_bool(st, contains(st, s, x)):
        out += upd_coll(I, q, fr, c, args[0], (lambda v: v) if b else (lambda v: mk('ins', v, x)), x, ret=some(x) if b else NONE)
    return out


@m('collections::HashSet::contains', 'collections::BTreeSet::contains')
def m_set_contains(I, st, fr, c, args):
    return [(st, contains(st, D(I, st, args[0]), D(I, st, args[1])))]


@m('collections::HashSet::remove', 'collections::BTreeSet::remove', 'collections::HashSet::take')
def m_set_remove(I, st, fr, c, args):
    s, x = D(I, st, args[0]), D(I, st, args[1])
    t = contains(st, s, x)
    return upd_coll(I, st, fr, c, args[0], lambda v: mk('sremove', v, x), x, ret=t)


def mapget(I, st, mp, k):
    while mp.op in ('minsert', 'mremove'):
        e = TRUE if mp.a[1] is k else None
        if e is None:
            z = st.facts.eval(eq(mp.a[1], k))
            if z is None:
                return mk('mapget', mp, k)
            if z is False:
                mp = mp.a[0]
                continue
        return some(mp.a[2]) if mp.op == 'minsert' else NONE
    if mp is EMPTY:
        return NONE
    return mk('mapget', mp, k)


@m('collections::HashMap::insert', 'collections::BTreeMap::insert')
def m_map_insert(I, st, fr, c, args):
    mp, k, v = (D(I, st, a) for a in args)
    old = mapget(I, st, mp, k)
    return upd_coll(I, st, fr, c, args[0], lambda w: mk('minsert', w, k, v), k, v, ret=old)


@m('collections::HashMap::get', 'collections::BTreeMap::get')
def m_map_get(I, st, fr, c, args):
    return [(st, mapget(I, st, D(I, st, args[0]), D(I, st, args[1])))]


@m('collections::HashMap::contains_key', 'collections::BTreeMap::contains_key')
def m_map_contains(I, st, fr, c, args):
    g = mapget(I, st, D(I, st, args[0]), D(I, st, args[1]))
    return [(s, B(vn == 'Some')) for s, vn, pl in I.fork_variant(st, g, OPT)]


@m('collections::HashMap::remove', 'collections::BTreeMap::remove', 'collections::HashMap::remove_entry')
def m_map_remove(I, st, fr, c, args):
    mp, k = D(I, st, args[0]), D(I, st, args[1])
    g = mapget(I, st, mp, k)
    if c.name.endswith('entry'):
        out = []
        for s, vn, pl in I.fork_variant(st, g, OPT):
            out += upd_coll(I, s, fr, c, args[0], lambda w: mk('mremove', w, k), k, ret=some(tup(k, pl[0])) if vn == 'Some' else NONE)
        return out
    return upd_coll(I, st, fr, c, args[0], lambda w: mk('mremove', w, k), k, ret=g)


@m('collections::HashMap::get_mut', 'collections::BTreeMap::get_mut')
def m_map_get_mut(I, st, fr, c, args):
    r = target_ref(I, st, args[0])
    mp, k = D(I, st, args[0]), D(I, st, args[1])
    out = []
    for s, vn, pl in I.fork_variant(st, mapget(I, st, mp, k), OPT):
        if vn == 'Some' and r is not None:
            out.append((s, some(mk('ref', r.a[0], r.a[1] + (('key', k),)))))
        else:
            out.append((s, NONE if vn == 'None' else some(pl[0])))
    return out


# ---- map entries: the map and the key looked up
MAPS = ('collections::hash_map::', 'collections::btree_map::')


@m('collections::HashMap::entry', 'collections::BTreeMap::entry')
def m_map_entry(I, st, fr, c, args):
    r, t = target_ref(I, st, args[0]), c.dest_ty()
    if r is None or not t or t[0] != 'adt' or not t[1].endswith('::Entry'):
        return None
    k = D(I, st, args[1])
    e = mk('mapentry', r, k)
    return [(s, adt(t[1], 'Occupied' if vn == 'Some' else 'Vacant', e)) for s, vn, pl in I.fork_variant(st, mapget(I, st, D(I, st, args[0]), k), OPT)]


def entry_of(I, st, x):
    x = D(I, st, x)
    if is_adt(x) and x.a[0][2] in ('Occupied', 'Vacant'):
        return x.a[0][2], D(I, st, x.a[1][0])
    return None, x


def entry_slot(e):
    return mk('ref', e.a[0].a[0], e.a[0].a[1] + (('key', e.a[1]),))


@m(*[h + 'OccupiedEntry::' + n for h in MAPS for n in ('get', 'get_mut', 'into_mut')])
def m_entry_get(I, st, fr, c, args):
    e = D(I, st, args[0])
    return [(st, entry_slot(e))] if e.op == 'mapentry' else None


@m(*[h + n + '::key' for h in MAPS for n in ('OccupiedEntry', 'VacantEntry', 'Entry')])
def m_entry_key(I, st, fr, c, args):
    e = entry_of(I, st, args[0])[1]
    return [(st, e.a[1])] if e.op == 'mapentry' else None


@m(*[h + 'OccupiedEntry::' + n for h in MAPS for n in ('remove', 'remove_entry')])
def m_entry_remove(I, st, fr, c, args):
    e = D(I, st, args[0])
    if e.op != 'mapentry':
        return None
    r, k = e.a
    old = fld(mapget(I, st, I.load(st, r.a[0], r.a[1]), k), 'Some', '0')
    return upd_coll(I, st, fr, c, r, lambda w: mk('mremove', w, k), k, ret=tup(k, old) if c.name.endswith('_entry') else old)


@m(*[h + n + '::insert' for h in MAPS for n in ('OccupiedEntry', 'VacantEntry')])
def m_entry_insert(I, st, fr, c, args):
    e = D(I, st, args[0])
    if e.op != 'mapentry':
        return None
    r, k = e.a
    x = D(I, st, args[1])
    old = fld(mapget(I, st, I.load(st, r.a[0], r.a[1]), k), 'Some', '0') if 'Occupied' in c.name else entry_slot(e)
    return upd_coll(I, st, fr, c, r, lambda w: mk('minsert', w, k, x), k, x, ret=old)


@m(*[h + 'Entry::' + n for h in MAPS for n in ('or_insert', 'or_insert_with')])
def m_entry_or(I, st, fr, c, args):
    v, e = entry_of(I, st, args[0])
    if e.op != 'mapentry' or v is None:
        return None
    if v == 'Occupied':
        return [(st, entry_slot(e))]
    r, k = e.a
    out = []
    for s, x in (I.invoke(st, fr, c.subcall('ew'), args[1], []) if c.name.endswith('with') else [(st, args[1])]):
        x = D(I, s, x)
        out += upd_coll(I, s, fr, c, r, lambda w: mk('minsert', w, k, x), k, x, ret=entry_slot(e))
    return out


# ---- lengths
@m('slice::<impl [T]>::len', 'str::<impl str>::len', 'vec::Vec::len', 'string::String::len', 'collections::HashSet::len', 'collections::HashMap::len',
   'collections::VecDeque::len', 'iter::ExactSizeIterator::len', 'collections::BTreeMap::len', 'collections::BTreeSet::len')
def m_len(I, st, fr, c, args):
    v = D(I, st, args[0])
    if v.op == 'iter':
        return [(st, length(v.a[0]) if v.a[1] is ZERO else binop('Sub', length(v.a[0]), v.a[1], 'usize'))]
    return [(st, set_len(st, v))]


def set_len(st, v):
    n = 0
    w = v
    while w.op == 'ins':
        n += 1
        w = w.a[0]
    if n:
        return binop('Add', length(w), I_(n), 'usize')
    return length(v)


@m('slice::<impl [T]>::is_empty', 'str::<impl str>::is_empty', 'vec::Vec::is_empty', 'string::String::is_empty', 'collections::HashSet::is_empty', 'collections::HashMap::is_empty',
   'collections::VecDeque::is_empty', 'iter::ExactSizeIterator::is_empty', 'collections::BTreeMap::is_empty')
def m_is_empty(I, st, fr, c, args):
    return [(st, eq(set_len(st, D(I, st, args[0])), ZERO))]


# ------------------------------------------------------------------ slices
@m('slice::<impl [T]>::copy_from_slice', 'slice::<impl [T]>::clone_from_slice')
def m_copy_from_slice(I, st, fr, c, args):
    d, s = D(I, st, args[0]), D(I, st, args[1])
    out = []
    for q, b in I.fork_bool(st, eq(length(d), length(s))):
        if not b:
            I.panic(q, fr, 'copy_from_slice', c.sp, (d, s))
            continue
        q = q.fork()
        r = target_ref(I, q, args[0])
        if r is not None:
            I.store(q, r.a[0], r.a[1], s)
        out.append((q, UNIT))
    return out


def typenum(t):
    if not t or t[0] != 'adt':
        return None
    n = t[1].rsplit('::', 1)[1]
    if n == 'UTerm':
        return 0
    if n == 'UInt':
        a = typenum(t[2][0])
        return None if a is None else 2 * a + (1 if t[2][1][1].endswith('B1') else 0)
    return None


@m('generic_array::GenericArray::from_slice', 'k256::elliptic_curve::generic_array::GenericArray::from_slice', 'generic_array::GenericArray::clone_from_slice', 'k256::elliptic_curve::generic_array::GenericArray::clone_from_slice')
def m_generic_array(I, st, fr, c, args):
    v = D(I, st, args[0])
    n = typenum(c.targs[1]) if len(c.targs) > 1 else None
    if n is None:
        return [(st, v)]
    out = []
    for s, b in I.fork_bool(st, eq(length(v), I_(n))):
        if b:
            out.append((s, v))
        else:
            I.panic(s, fr, 'slice length', c.sp, (v, I_(n)))
    return out


@m('slice::<impl [T]>::fill')
def m_fill(I, st, fr, c, args):
    d = D(I, st, args[0])
    x = D(I, st, args[1])
    n = known_len(d)
    return upd_coll(I, st, fr, c, args[0], lambda v: mk('repeat', x, n) if n is not None else mk('repeatx', x), x)


@m('slice::<impl [T]>::split_at', 'str::<impl str>::split_at')
def m_split_at(I, st, fr, c, args):
    v, n = D(I, st, args[0]), D(I, st, args[1])
    out = []
    for q, b in I.fork_bool(st, binop('Le', n, length(v), 'usize')):
        if not b:
            I.panic(q, fr, 'split_at', c.sp, (v, n))
            continue
        if c.name.startswith('str') and not (n.op == 'int' and lead(v)[0].isascii() and n.a[0] <= len(lead(v)[0])) and at_separator(q, v, ZERO, n) is None and at_separator(q, v, n, None) is None:
            I.panic(q, fr, 'char boundary', c.sp, (v, n))
        out.append((q, tup(slice_(v, ZERO, n), slice_(v, n, None))))
    return out


@m('slice::<impl [T]>::split_at_mut')
def m_split_at_mut(I, st, fr, c, args):
    r = target_ref(I, st, args[0])
    if r is None:
        return m_split_at(I, st, fr, c, args)
    n = D(I, st, args[1])
    v = I.load(st, r.a[0], r.a[1])
    out = []
    for q, b in I.fork_bool(st, binop('Le', n, length(v), 'usize')):
        if b:
            out.append((q, tup(mk('ref', r.a[0], r.a[1] + (('range', ZERO, n),)), mk('ref', r.a[0], r.a[1] + (('range', n, None),)))))
        else:
            I.panic(q, fr, 'split_at', c.sp, (v, n))
    return out


@m('slice::<impl [T]>::split_at_checked')
def m_split_at_checked(I, st, fr, c, args):
    v, n = D(I, st, args[0]), D(I, st, args[1])
    return [(q, some(tup(slice_(v, ZERO, n), slice_(v, n, None))) if b else NONE) for q, b in I.fork_bool(st, binop('Le', n, length(v), 'usize'))]


@m('slice::<impl [T]>::split_first_chunk', 'slice::<impl [T]>::first_chunk', 'slice::<impl [T]>::split_last_chunk', 'slice::<impl [T]>::last_chunk')
def m_first_chunk(I, st, fr, c, args):
    v = D(I, st, args[0])
    n = None
    for t in reversed(c.targs):
        if t[0] == 'const':
            mm = re.match(r'^(\d+)', str(t[1]))
            n = int(mm.group(1)) if mm else None
            break
    if n is None:
        raise AnalysisError('chunk size of ' + c.name)
    out = []
    for q, b in I.fork_bool(st, binop('Le', I_(n), length(v), 'usize')):
        if not b:
            out.append((q, NONE))
            continue
        if 'first' in c.name:
            a, r = slice_(v, ZERO, I_(n)), slice_(v, I_(n), None)
            x = tup(a, r)
        else:
            k = binop('Sub', length(v), I_(n), 'usize')
            r, a = slice_(v, ZERO, k), slice_(v, k, None)
            x = tup(r, a)
        out.append((q, some(x if 'split' in c.name else a)))
    return out


@m('slice::<impl [T]>::first', 'slice::<impl [T]>::last', 'collections::VecDeque::front', 'collections::VecDeque::back')
def m_first(I, st, fr, c, args):
    v = D(I, st, args[0])
    out = []
    q_ = c.name.startswith('collections')
    f = c.name.rsplit('::', 1)[1]
    for s, b in I.fork_bool(st, eq(length(v), ZERO)):
        if b:
            out.append((s, NONE))
        elif f in ('first', 'front'):
            x = v.a[0].a[0] if v.op == 'cat' and v.a[0].op == 'one' else (mk('front', v) if q_ else I.index(s, v, ZERO))
            out.append((s, some(x)))
        else:
            x = v.a[-1].a[0] if v.op == 'cat' and v.a[-1].op == 'one' else (mk('back', v) if q_ else I.index(s, v, binop('Sub', length(v), ONE, 'usize')))
            out.append((s, some(x)))
    return out


@m('slice::<impl [T]>::split_first', 'slice::<impl [T]>::split_last')
def m_split_first(I, st, fr, c, args):
    v = D(I, st, args[0])
    out = []
    for s, b in I.fork_bool(st, eq(length(v), ZERO)):
        if b:
            out.append((s, NONE))
        elif c.name.endswith('first'):
            out.append((s, some(tup(I.index(s, v, ZERO), slice_(v, ONE, None)))))
        else:
            k = binop('Sub', length(v), ONE, 'usize')
            out.append((s, some(tup(I.index(s, v, k), slice_(v, ZERO, k)))))
    return out


def range_of(I, st, v, r, c):
    """(lo, hi|None, inclusive panics) of a range argument value."""
    r = D(I, st, r)
    if r.op == 'agg' and r.a[0][0] == 'adt':
        n = r.a[0][1].rsplit('::', 1)[1]
        x = r.a[1]
        if n == 'Range':
            return x[0], x[1]
        if n == 'RangeFrom':
            return x[0], None
        if n == 'RangeTo':
            return ZERO, x[0]
        if n == 'RangeFull':
            return ZERO, None
        if n == 'RangeToInclusive':
            return ZERO, binop('Add', x[0], ONE, 'usize')
        if n == 'RangeInclusive':
            return x[0], binop('Add', x[1], ONE, 'usize')
    return None


def tname(t):
    return t[1] if t and t[0] == 'adt' else ''


@m('ops::Index::index')
def m_index(I, st, fr, c, args):
    v, i = D(I, st, args[0]), D(I, st, args[1])
    t = peel(c.selfty)
    if t and tname(t) == 'serde_json::value::Value':
        g = jget(I, st, v, i)
        if is_adt(g):
            return [(st, g.a[1][0] if g.a[0][2] == 'Some' else adt(JV, 'Null'))]
        return [(s, pl[0] if vn == 'Some' else adt(JV, 'Null')) for s, vn, pl in I.fork_variant(st, g, OPT)]
    if t and tname(t).endswith(('HashMap', 'BTreeMap')):
        out = []
        for s, vn, pl in I.fork_variant(st, mapget(I, st, v, i), OPT):
            if vn == 'Some':
                out.append((s, pl[0]))
            else:
                I.panic(s, fr, 'index', c.sp, (v, i))
        return out
    rg = range_of(I, st, v, i, c)
    if rg:
        return slice_checked(I, st, fr, c, v, rg, t)
    out = []
    for s, b in I.fork_bool(st, binop('Lt', i, length(v), 'usize')):
        if b:
            out.append((s, I.index(s, v, i)))
        else:
            I.panic(s, fr, 'index', c.sp, (i, v))
    return out


def slice_checked(I, st, fr, c, v, rg, t, wrap=lambda x: x):
    lo, hi = rg
    if t and (t[0] == 'str' or tname(t) == 'alloc::string::String'):
        x = at_separator(st, v, lo, hi)
        if x is not None and is_adt(x, 'Some'):
            return [(st, wrap(x.a[1][0]))]
    out = []
    conds = []
    if hi is not None:
        conds.append(binop('Le', hi, length(v), 'usize'))
        conds.append(binop('Le', lo, hi, 'usize'))
    else:
        conds.append(binop('Le', lo, length(v), 'usize'))
    states = [st]
    for cd in conds:
        nx = []
        for s in states:
            for q, b in I.fork_bool(s, cd):
                if b:
                    nx.append(q)
                else:
                    I.panic(q, fr, 'slice', c.sp, (v, lo) + ((hi,) if hi is not None else ()))
        states = nx
    for s in states:
        if t and (t[0] == 'str' or tname(t) == 'alloc::string::String') and not (lo is ZERO and hi is None):
            I.panic(s, fr, 'char boundary', c.sp, (v, lo))
        out.append((s, wrap(slice_(v, lo, hi))))
    return out


@m('ops::IndexMut::index_mut')
def m_index_mut(I, st, fr, c, args):
    r = target_ref(I, st, args[0])
    if r is None:
        return m_index(I, st, fr, c, args)
    v, i = I.load(st, r.a[0], r.a[1]), D(I, st, args[1])
    rg = range_of(I, st, v, i, c)
    t = peel(c.selfty)
    if t and tname(t) == 'serde_json::value::Value':
        if i.op == 'int':
            I.panic(st, fr, 'index', c.sp, (i, v))
            return None
        out = []
        for s, vn, pl in I.fork_variant(st, v, JV):
            if vn in ('Object', 'Null'):
                # an absent key is inserted with null
                g = jget(I, s, v, i)
                if is_adt(g, 'Some') or (is_adt(g, 'None') and vn):
                    out.append((s, mk('ref', r.a[0], r.a[1] + (('jkey', i),))))
                else:
                    return None
            else:
                I.panic(s, fr, 'index', c.sp, (i, v))
        return out
    if rg:
        lo, hi = rg
        if lo is ZERO and hi is None:
            return [(st, r)]
        return [(s, mk('ref', r.a[0], r.a[1] + (('range', lo, hi),))) for s, _ in slice_checked(I, st, fr, c, v, rg, t)]
    out = []
    for s, b in I.fork_bool(st, binop('Lt', i, length(v), 'usize')):
        if b:
            out.append((s, mk('ref', r.a[0], r.a[1] + (('ix', i),))))
        else:
            I.panic(s, fr, 'index', c.sp, (i, v))
    return out


@m('slice::<impl [T]>::get', 'vec::Vec::get', 'collections::VecDeque::get', 'str::<impl str>::get')
def m_get(I, st, fr, c, args):
    v, i = D(I, st, args[0]), D(I, st, args[1])
    rg = range_of(I, st, v, i, c)
    if rg:
        lo, hi = rg
        cond = binop('BitAnd', binop('Le', hi, length(v), 'usize'), binop('Le', lo, hi, 'usize')) if hi is not None else binop('Le', lo, length(v), 'usize')
        if c.name.startswith('str'):
            return [(st, call('str_get', (v, i)))]
        return [(s, some(slice_(v, lo, hi)) if b else NONE) for s, b in I.fork_bool(st, cond)]
    return [(s, some(I.index(s, v, i)) if b else NONE) for s, b in I.fork_bool(st, binop('Lt', i, length(v), 'usize'))]


@m('slice::<impl [T]>::contains')
def m_slice_contains(I, st, fr, c, args):
    v, x = D(I, st, args[0]), D(I, st, args[1])
    if v.op == 'agg' or I.elementwise(v):
        xs = v.a[1] if v.op == 'agg' else ([p.a[0] for p in v.a] if v.op == 'cat' else [TM.I(z, 'u8') for z in v.a[0]])
        r = FALSE
        for y in xs:
            r = binop('BitOr', r, eq(y, x))
        return [(st, r)]
    return [(st, mk('contains', v, x))]


@m('slice::<impl [T]>::starts_with', 'str::<impl str>::starts_with', 'str::<impl str>::ends_with', 'str::<impl str>::contains', 'slice::<impl [T]>::ends_with')
def m_starts(I, st, fr, c, args):
    v, x = D(I, st, args[0]), D(I, st, args[1])
    f = c.name.rsplit('::', 1)[1]
    if v.op == 'str' and x.op in ('str', 'char'):
        y = x.a[0]
        return [(st, B({'starts_with': v.a[0].startswith(y), 'ends_with': v.a[0].endswith(y), 'contains': y in v.a[0]}[f]))]
    x = S(x.a[0]) if x.op == 'char' else x
    if f == 'starts_with':
        # same fact as strip_prefix yielding Some
        return [(s, B(vn == 'Some')) for s, vn, pl in I.fork_variant(st, strip_prefix(v, x), OPT)]
    if f == 'contains' and x.op == 'str':
        return [(s, B(vn == 'Some')) for s, vn, pl in I.fork_variant(st, split_once(v, x), OPT)]
    return [(st, call(f, (v, x)))]


def lead(v):
    """(constant text v starts with, the rest)."""
    if v.op == 'cat' and v.a and v.a[0].op == 'str':
        return v.a[0].a[0], cat(v.a[1:])
    return '', v


def strip_prefix(v, x):
    if x.op == 'str':
        a, rest = lead(v)
        p = x.a[0]
        if a.startswith(p):
            return some(cat([S(a[len(p):]), rest]) if a[len(p):] else rest)
        if not p.startswith(a):
            return NONE
        if a:
            return strip_prefix(rest, S(p[len(a):]))
    return call('strip_prefix', (v, x))


def split_once(v, x, f='split_once'):
    if x.op == 'str' and x.a[0] and f == 'split_once':
        a, rest = lead(v)
        i = a.find(x.a[0])
        if i >= 0:
            t = a[i + len(x.a[0]):]
            return some(tup(S(a[:i]), cat([S(t), rest]) if t else rest))
    return call(f, (v, x))


@m('str::<impl str>::strip_prefix', 'slice::<impl [T]>::strip_prefix', 'str::<impl str>::strip_suffix')
def m_strip(I, st, fr, c, args):
    v, x = D(I, st, args[0]), D(I, st, args[1])
    f = c.name.rsplit('::', 1)[1]
    if v.op == 'str' and x.op == 'str':
        if f == 'strip_prefix':
            return [(st, some(S(v.a[0][len(x.a[0]):])) if v.a[0].startswith(x.a[0]) else NONE)]
        return [(st, some(S(v.a[0][:-len(x.a[0])])) if v.a[0].endswith(x.a[0]) else NONE)]
    x = S(x.a[0]) if x.op == 'char' else x
    if f == 'strip_prefix' and c.name.startswith('str'):
        return [(st, strip_prefix(v, x))]
    return [(st, call(f, (v, x)))]


@m('str::<impl str>::split', 'str::<impl str>::splitn', 'str::<impl str>::rsplit', 'str::<impl str>::lines', 'str::<impl str>::chars', 'str::<impl str>::bytes',
   'str::<impl str>::split_whitespace', 'str::<impl str>::char_indices', 'str::<impl str>::split_terminator', 'slice::<impl [T]>::chunks', 'slice::<impl [T]>::chunks_exact',
   'slice::<impl [T]>::windows', 'slice::<impl [T]>::array_chunks', 'slice::<impl [T]>::rchunks')
def m_split(I, st, fr, c, args):
    f = c.name.rsplit('::', 1)[1]
    v = [D(I, st, a) for a in args]
    if f == 'bytes':
        return [(st, mk('iter', v[0], ZERO))]
    if f == 'splitn' and v[1].op == 'int' and v[1].a[0] == 2 and v[2].op in ('str', 'char') and v[2].a[0]:
        out = []
        for s, vn, pl in I.fork_variant(st, split_once(v[0], S(v[2].a[0])), OPT):
            out.append((s, mk('iter', cat([one(fld(pl[0], None, '0')), one(fld(pl[0], None, '1'))]) if vn == 'Some' else cat([one(v[0])]), ZERO)))
        return out
    if f in ('chunks', 'chunks_exact', 'windows', 'rchunks'):
        out = []
        for s, b in I.fork_bool(st, eq(v[1], ZERO)):
            if b:
                I.panic(s, fr, 'chunk size', c.sp, (v[1],))
            else:
                out.append((s, mk('iter', call(f, tuple(v)), ZERO)))
        return out
    if f == 'split' and v[0].op == 'str' and v[1].op in ('str', 'char') and v[1].a[0]:
        return [(st, mk('iter', cat([one(S(x)) for x in v[0].a[0].split(v[1].a[0])]), ZERO))]
    if f == 'split' and v[1].op in ('str', 'char'):
        sp = split_concat(v[0], v[1].a[0])
        if sp is not None:
            return [(st, mk('iter', cat([one(x) for x in sp]), ZERO))]
    v = [S(x.a[0]) if x.op == 'char' else x for x in v]
    return [(st, mk('iter', call(f, tuple(v)), ZERO))]


def split_concat(v, sep):
    """Split a concatenation whose opaque parts are known not to contain the separator."""
    parts = v.a if v.op == 'cat' else (v,)
    cur, out = [], []
    for p in parts:
        if p.op == 'str':
            pieces = p.a[0].split(sep)
            cur.append(S(pieces[0]))
            for x in pieces[1:]:
                out.append(cur)
                cur = [S(x)]
        elif p.op == 'call' and p.a[0] in NO_SEP and sep in NO_SEP[p.a[0]]:
            cur.append(p)
        else:
            return None
    out.append(cur)
    r = []
    for x in out:
        t = cat(x)
        r.append(S('') if t is EMPTY else t)
    return r


NO_SEP = {'b64enc': '/:.', 'dec': '/:.-'}


@m('str::<impl str>::split_once', 'str::<impl str>::rsplit_once')
def m_split_once(I, st, fr, c, args):
    v, x = D(I, st, args[0]), D(I, st, args[1])
    x = S(x.a[0]) if x.op == 'char' else x
    if v.op == 'str' and x.op == 'str':
        p = v.a[0].split(x.a[0], 1) if c.name.endswith('::split_once') else v.a[0].rsplit(x.a[0], 1)
        return [(st, some(tup(S(p[0]), S(p[1]))) if len(p) == 2 else NONE)]
    return [(st, split_once(v, x, c.name.rsplit('::', 1)[1]))]


@m('str::<impl str>::trim', 'str::<impl str>::to_lowercase', 'str::<impl str>::to_uppercase', 'str::<impl str>::to_ascii_lowercase', 'str::<impl str>::trim_start', 'str::<impl str>::trim_end',
   'str::<impl str>::replace', 'str::<impl str>::repeat', 'str::<impl str>::trim_matches', 'str::<impl str>::trim_start_matches', 'str::<impl str>::trim_end_matches', 'slice::<impl [T]>::concat_',
   'str::<impl str>::eq_ignore_ascii_case', 'str::<impl str>::find', 'str::<impl str>::rfind', 'str::<impl str>::is_char_boundary', 'str::<impl str>::is_ascii', 'str::<impl str>::to_ascii_uppercase')
def m_text(I, st, fr, c, args):
    f = c.name.rsplit('::', 1)[1]
    v = tuple(D(I, st, a) for a in args)
    if v[0].op == 'str':
        t = v[0].a[0]
        if f == 'trim':
            return [(st, S(t.strip()))]
        if f in ('to_lowercase', 'to_ascii_lowercase'):
            return [(st, S(t.lower()))]
        if f in ('to_uppercase', 'to_ascii_uppercase'):
            return [(st, S(t.upper()))]
    if f == 'find' and v[1].op in ('str', 'char') and v[1].a[0]:
        # the position of the separator is the length of what precedes it
        out = []
        for s, vn, pl in I.fork_variant(st, split_once(v[0], S(v[1].a[0])), OPT):
            out.append((s, some(length(fld(pl[0], None, '0'))) if vn == 'Some' else NONE))
        return out
    return [(st, call(f, v))]


def at_separator(st, v, lo, hi):
    """The part of the text v a slice cuts off at a position known to be a boundary, or None."""
    z = lo.op == 'int' and lo.a[0] == 0
    a, rest = lead(v)
    if lo.op == 'int' and hi is None:
        n = lo.a[0]
        if n <= len(a) and a.isascii():
            return strip_prefix(v, S(a[:n]))
        for t, x in st.facts.v.items():
            if t.op == 'call' and t.a[0] == 'strip_prefix' and x == ('is', 'Some') and t.a[1][0] is v and t.a[1][1].op == 'str':
                p = t.a[1][1].a[0]
                if len(p.encode()) == n:
                    return some(fld(t, 'Some', '0'))
    for t, x in st.facts.v.items():
        if t.op == 'call' and t.a[0] == 'split_once' and x == ('is', 'Some') and t.a[1][0] is v and t.a[1][1].op == 'str':
            pair = fld(t, 'Some', '0')
            n = length(fld(pair, None, '0'))
            k = len(t.a[1][1].a[0].encode())
            if z and hi is n:
                return some(fld(pair, None, '0'))
            if hi is None and lo is binop('Add', n, I_(k), 'usize'):
                return some(fld(pair, None, '1'))
    return None


@m('str::from_utf8', 'string::String::from_utf8')
def m_utf8(I, st, fr, c, args):
    v = D(I, st, args[0])
    if v.op == 'str':
        return [(st, ok(v))]
    r = call('from_utf8', (v,))
    return [(s, ok(v) if vn == 'Ok' else err(pl[0])) for s, vn, pl in I.fork_variant(st, r, RES)]


@m('string::String::from_utf8_lossy')
def m_utf8_lossy(I, st, fr, c, args):
    v = D(I, st, args[0])
    return [(st, v if v.op == 'str' else call('utf8_lossy', (v,)))]


@m('ops::Add::add')
def m_add(I, st, fr, c, args):
    t = peel(c.selfty)
    a, b = D(I, st, args[0]), D(I, st, args[1])
    if t and tname(t) == 'alloc::string::String':
        return [(st, cat([a, b]))]
    if t and t[0] == 'int':
        return [(st, binop('Add', a, b, t[1]))]
    return [(st, call('Add', (a, b)))]


@m('ops::Sub::sub', 'ops::Mul::mul', 'ops::Div::div', 'ops::Rem::rem', 'ops::BitAnd::bitand', 'ops::BitOr::bitor', 'ops::BitXor::bitxor', 'ops::Shl::shl', 'ops::Shr::shr')
def m_arith(I, st, fr, c, args):
    t = peel(c.selfty)
    a, b = D(I, st, args[0]), D(I, st, args[1])
    op = {'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}[c.name.rsplit('::', 1)[1]]
    if t and (t[0] == 'int' or t[0] == 'bool'):
        return [(st, binop(op, a, b, t[1] if t[0] == 'int' else 'bool'))]
    return [(st, call(op, (a, b)))]


@m('ops::Not::not')
def m_not(I, st, fr, c, args):
    return [(st, unop('Not', D(I, st, args[0])))]


@m('ops::AddAssign::add_assign')
def m_add_assign(I, st, fr, c, args):
    x = D(I, st, args[1])
    t = peel(c.selfty)
    if t and tname(t) == 'alloc::string::String':
        return upd_coll(I, st, fr, c, args[0], lambda v: cat([v, x]), x)
    if t and t[0] == 'int':
        return upd_coll(I, st, fr, c, args[0], lambda v: binop('Add', v, x, t[1]), x)
    return None


@m('ops::SubAssign::sub_assign')
def m_sub_assign(I, st, fr, c, args):
    x = D(I, st, args[1])
    t = peel(c.selfty)
    if t and t[0] == 'int':
        return upd_coll(I, st, fr, c, args[0], lambda v: binop('Sub', v, x, t[1]), x)
    return None


@m('slice::<impl [T]>::concat', 'slice::concat', 'slice::Concat::concat')
def m_concat(I, st, fr, c, args):
    v = D(I, st, args[0])
    if v.op == 'agg':
        return [(st, cat(v.a[1]))]
    if v.op == 'cat' and all(p.op == 'one' for p in v.a):
        return [(st, cat([p.a[0] for p in v.a]))]
    return [(st, call('concat', (v,)))]


@m('slice::<impl [T]>::join', 'slice::join', 'slice::Join::join')
def m_join_slice(I, st, fr, c, args):
    v, sep = D(I, st, args[0]), D(I, st, args[1])
    xs = list(v.a[1]) if v.op == 'agg' else ([p.a[0] for p in v.a] if v.op == 'cat' and all(p.op == 'one' for p in v.a) else None)
    if xs is None:
        return [(st, call('join', (v, sep)))]
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return [(st, cat(out))]


@m('ops::Range::contains', 'ops::RangeInclusive::contains', 'ops::RangeTo::contains', 'ops::RangeFrom::contains', 'ops::RangeBounds::contains', 'ops::RangeToInclusive::contains')
def m_range_contains(I, st, fr, c, args):
    r, x = D(I, st, args[0]), D(I, st, args[1])
    if r.op == 'agg' and r.a[0][0] == 'adt':
        n = r.a[0][1].rsplit('::', 1)[1]
        t = next((a[1] for a in c.targs if a[0] == 'int'), None)
        a = r.a[1]
        if n == 'Range':
            return [(st, binop('BitAnd', binop('Le', a[0], x, t), binop('Lt', x, a[1], t)))]
        if n == 'RangeInclusive':
            return [(st, binop('BitAnd', binop('Le', a[0], x, t), binop('Le', x, a[1], t)))]
        if n == 'RangeFrom':
            return [(st, binop('Le', a[0], x, t))]
        if n == 'RangeTo':
            return [(st, binop('Lt', x, a[0], t))]
    return None


@m('ops::RangeInclusive::new')
def m_range_incl(I, st, fr, c, args):
    return [(st, adt('core::ops::range::RangeInclusive', 'RangeInclusive', args[0], args[1], FALSE))]


@m('default::Default::default')
def m_default(I, st, fr, c, args):
    t = c.selfty
    return default_of(I, st, t)


def default_of(I, st, t):
    if t is None:
        return None
    if t[0] == 'int':
        return [(st, TM.I(0, t[1]))]
    if t[0] == 'bool':
        return [(st, FALSE)]
    if t[0] == 'tuple':
        xs = [default_of(I, st, x) for x in t[1]]
        if all(xs):
            return [(st, tup(*[x[0][1] for x in xs]))]
    if t[0] == 'adt':
        if t[1] == 'core::option::Option':
            return [(st, NONE)]
        if t[1].split('::')[-1] in ('Vec', 'String', 'HashSet', 'HashMap', 'VecDeque', 'BTreeMap', 'BTreeSet', 'PathBuf'):
            return [(st, EMPTY)]
        if t[1].startswith(CRATE):
            return None
        if t[1].split('::')[-1] in ('Box', 'Arc', 'Rc', 'Mutex', 'RwLock', 'RefCell', 'Cell'):
            return default_of(I, st, t[2][0]) or [(st, call('default:' + tyname(t[2][0]), ()))]
    if t[0] == 'array' and t[1][0] == 'int':
        return [(st, mk('repeat', TM.I(0, t[1][1]), t[2]))] if isinstance(t[2], int) else None
    return [(st, call('default:' + tyname(t), ()))]


@m('mem::take')
def m_mem_take(I, st, fr, c, args):
    r = target_ref(I, st, args[0])
    d = default_of(I, st, c.targs[0])
    if r is None or d is None:
        return None
    v = I.load(st, r.a[0], r.a[1])
    st = st.fork()
    I.store(st, r.a[0], r.a[1], d[0][1])
    return [(st, v)]


@m('mem::replace', 'option::Option::replace', 'option::Option::insert')
def m_mem_replace(I, st, fr, c, args):
    r = target_ref(I, st, args[0])
    if r is None:
        return None
    v = I.load(st, r.a[0], r.a[1])
    st = st.fork()
    I.store(st, r.a[0], r.a[1], args[1] if c.name.startswith('mem') else some(args[1]))
    return [(st, v if not c.name.endswith('insert') else mk('ref', r.a[0], r.a[1] + (('f', 0, '0', 'Some', OPT),)))]


@m('option::Option::take')
def m_opt_take(I, st, fr, c, args):
    r = target_ref(I, st, args[0])
    if r is None:
        return [(st, D(I, st, args[0]))]
    v = I.load(st, r.a[0], r.a[1])
    st = st.fork()
    I.store(st, r.a[0], r.a[1], NONE)
    return [(st, v)]


@m('option::Option::as_mut', 'option::Option::as_deref_mut', 'result::Result::as_mut')
def m_opt_as_mut(I, st, fr, c, args):
    r = target_ref(I, st, args[0])
    if r is None:
        return [(st, D(I, st, args[0]))]
    out = []
    opt = c.name.startswith('option')
    for s, vn, pl in I.fork_variant(st, r, OPT if opt else RES):
        if pl:
            out.append((s, adt(OPT if opt else RES, vn, mk('ref', r.a[0], r.a[1] + (('f', 0, '0', vn, OPT if opt else RES),)))))
        else:
            out.append((s, NONE))
    return out


@m('option::Option::get_or_insert_with', 'option::Option::get_or_insert', 'option::Option::get_or_insert_default')
def m_get_or_insert(I, st, fr, c, args):
    r = target_ref(I, st, args[0])
    if r is None:
        return None
    out = []
    for s, vn, pl in I.fork_variant(st, r, OPT):
        ref = mk('ref', r.a[0], r.a[1] + (('f', 0, '0', 'Some', OPT),))
        if vn == 'Some':
            out.append((s, ref))
        else:
            if c.name.endswith('with'):
                vs = I.invoke(s, fr, c.subcall('ins'), args[1], [])
            else:
                vs = [(s, args[1])]
            for q, v in vs:
                q = q.fork()
                I.store(q, r.a[0], r.a[1], some(v))
                out.append((q, ref))
    return out


# ------------------------------------------------------------------ calling function values
@m('ops::FnOnce::call_once', 'ops::FnMut::call_mut', 'ops::Fn::call')
def m_call(I, st, fr, c, args):
    f = args[0]
    a = D(I, st, args[1]) if args[1].op != 'agg' else args[1]
    if a.op == 'agg' and a.a[0][0] == 'tuple':
        return I.invoke(st, fr, c.subcall('call'), f, list(a.a[1]))
    return I.opaque_call(st, fr, c, 'callback', [f, a], effect=True)


@m('future::Future::poll')
def m_poll(I, st, fr, c, args):
    return [(s, adt(POLL, 'Ready', v)) for s, v in I.poll(st, fr, c, args[0])]


@m('thread::sleep', 'mem::drop', 'mem::forget')
def m_unit(I, st, fr, c, args):
    return [(st, UNIT)]


@m('any::type_name', 'any::type_name_of_val')
def m_type_name(I, st, fr, c, args):
    return [(st, mk('typename', tyname(c.targs[0]) if c.targs else '?'))]


@m('option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed')
def m_unwrap_failed(I, st, fr, c, args):
    I.panic(st, fr, 'unwrap', c.sp, tuple(args))
    return []


@m('result::Result::unwrap', 'result::Result::expect', 'option::Option::unwrap', 'option::Option::expect', 'result::Result::unwrap_unchecked', 'option::Option::unwrap_unchecked',
   'result::Result::unwrap_err', 'result::Result::expect_err')
def m_unwrap(I, st, fr, c, args):
    opt = c.name.startswith('option')
    good = 'Some' if opt else ('Err' if c.name.endswith('_err') else 'Ok')
    out = []
    for s, vn, pl in I.fork_variant(st, args[0], OPT if opt else RES):
        if vn == good:
            out.append((s, pl[0]))
        else:
            I.panic(s, fr, 'unchecked' if 'unchecked' in c.name else 'unwrap', c.sp, (args[0],))
    return out


# ------------------------------------------------------------------ iterators
def mk_iter(I, st, v, t=None):
    v = D(I, st, v)
    if v.op in ('iter', 'itop', 'rng'):
        return v
    if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1].endswith(('::Range', '::RangeInclusive', '::RangeFrom')):
        return v
    if is_adt(v, None, OPT) or is_adt(v, None, RES):
        return mk('iter', cat([one(v.a[1][0])]) if v.a[0][2] in ('Some', 'Ok') else EMPTY, ZERO)
    return mk('iter', v, ZERO)


@m('iter::IntoIterator::into_iter', 'slice::<impl [T]>::iter', 'collections::HashMap::iter', 'collections::HashSet::iter', 'collections::VecDeque::iter', 'iter::Iterator::by_ref',
   'collections::HashSet::into_iter', 'collections::HashMap::into_iter', 'option::Option::iter', 'vec::Vec::into_iter', 'collections::BTreeMap::iter', 'option::Option::into_iter')
def m_into_iter(I, st, fr, c, args):
    if c.name.endswith('by_ref'):
        return [(st, args[0])]
    v = args[0]
    w = D(I, st, v)
    if v.op == 'ref' and w.op not in ('iter', 'itop') and 'into_iter' in c.name and mut_ref_ty(c):
        return [(st, mk('itop', 'mut', v, ZERO))]
    t = peel(c.selfty) if c.selfty else None
    if t and tname(t) == OPT and w.op != 'agg':
        return [(s, mk('iter', cat([one(pl[0])]) if vn == 'Some' else EMPTY, ZERO)) for s, vn, pl in I.fork_variant(st, w, OPT)]
    if t and tname(t) == RES and v.op != 'ref':
        return [(s, mk('iter', cat([one(pl[0])]) if vn == 'Ok' else EMPTY, ZERO)) for s, vn, pl in I.fork_variant(st, w, RES)]
    if v.op == 'ref' and w.op in ('iter', 'itop'):
        return [(st, v)]
    return [(st, mk_iter(I, st, w))]


def mut_ref_ty(c):
    t = c.selfty
    return bool(t and t[0] == 'ref' and t[2])


@m('slice::<impl [T]>::iter_mut', 'collections::VecDeque::iter_mut', 'collections::HashMap::iter_mut', 'collections::HashMap::values_mut', 'collections::HashMap::drain_', 'vec::Vec::iter_mut')
def m_iter_mut(I, st, fr, c, args):
    return [(st, mk('itop', 'mut', args[0], ZERO))]


@m('collections::HashMap::keys', 'collections::HashMap::values', 'collections::HashMap::into_keys', 'collections::HashMap::into_values', 'collections::BTreeMap::keys', 'collections::BTreeMap::values')
def m_keys(I, st, fr, c, args):
    return [(st, mk('itop', 'proj', mk('iter', D(I, st, args[0]), ZERO), 0 if 'keys' in c.name else 1))]


@m('vec::Vec::drain', 'collections::VecDeque::drain', 'collections::HashMap::drain', 'collections::HashSet::drain', 'string::String::drain')
def m_drain(I, st, fr, c, args):
    r = target_ref(I, st, args[0])
    v = D(I, st, args[0])
    rg = (ZERO, None) if len(args) < 2 else range_of(I, st, v, args[1], c)
    if rg is None or r is None:
        return None
    lo, hi = rg
    if lo is ZERO and hi is None:
        return [(s, mk('iter', v, ZERO)) for s, _ in upd_coll(I, st, fr, c, args[0], lambda w: EMPTY)]
    out = []
    for s, x in slice_checked(I, st, fr, c, v, rg, None):
        rest = cat([slice_(v, ZERO, lo), slice_(v, hi, None) if hi is not None else EMPTY])
        out += [(q, mk('iter', x, ZERO)) for q, _ in upd_coll(I, s, fr, c, args[0], lambda w: rest)]
    return out


@m('vec::Vec::split_off', 'collections::VecDeque::split_off', 'string::String::split_off')
def m_split_off(I, st, fr, c, args):
    if target_ref(I, st, args[0]) is None:
        return None
    v, n = D(I, st, args[0]), D(I, st, args[1])
    out = []
    for s, x in slice_checked(I, st, fr, c, v, (n, None), c.selfty):
        out += upd_coll(I, s, fr, c, args[0], lambda w: slice_(w, ZERO, n), n, ret=x)
    return out


@m('iter::Iterator::map', 'iter::Iterator::filter', 'iter::Iterator::filter_map', 'iter::Iterator::inspect', 'iter::Iterator::take_while', 'iter::Iterator::skip_while', 'iter::Iterator::map_while',
   'iter::Iterator::flat_map', 'iter::Iterator::flatten')
def m_iter_fn(I, st, fr, c, args):
    if c.name.endswith('::flatten'):
        # an iterator over at most one known list is that list's
        it = D(I, st, args[0])
        if it.op == 'iter' and it.a[1] is ZERO and (it.a[0] is EMPTY or it.a[0].op == 'cat' and len(it.a[0].a) == 1 and it.a[0].a[0].op == 'one'):
            x = None if it.a[0] is EMPTY else D(I, st, it.a[0].a[0].a[0])
            if x is None or not is_adt(x) and x.op != 'itop':
                return [(st, it if x is None else mk_iter(I, st, x))]
    return [(st, mk('itop', c.name.rsplit('::', 1)[1], args[0], args[1] if len(args) > 1 else UNIT))]


@m('iter::Iterator::cloned', 'iter::Iterator::copied', 'iter::Iterator::fuse', 'iter::Iterator::peekable_')
def m_iter_id(I, st, fr, c, args):
    return [(st, args[0])]


@m('iter::Iterator::enumerate')
def m_enumerate(I, st, fr, c, args):
    return [(st, mk('itop', 'enumerate', args[0], ZERO))]


@m('iter::Iterator::take', 'iter::Iterator::skip', 'iter::Iterator::step_by')
def m_take(I, st, fr, c, args):
    f = c.name.rsplit('::', 1)[1]
    n = D(I, st, args[1])
    it = args[0]
    if it.op == 'iter':
        src, pos = it.a
        if f == 'skip':
            if pos is ZERO:
                out = []
                for s, b in I.fork_bool(st, binop('Le', n, length(src), 'usize')):
                    out.append((s, mk('iter', slice_(src, n, None) if b else EMPTY, ZERO)))
                return out
            return [(st, mk('iter', src, binop('Add', pos, n, 'usize')))]
        if f == 'take' and pos is ZERO:
            out = []
            for s, b in I.fork_bool(st, binop('Lt', n, length(src), 'usize')):
                out.append((s, mk('iter', slice_(src, ZERO, n), ZERO) if b else it))
            return out
    return [(st, mk('itop', f, it, n))]


@m('iter::Iterator::rev')
def m_rev(I, st, fr, c, args):
    it = args[0]
    if it.op == 'iter' and it.a[1] is ZERO:
        if I.elementwise(it.a[0]) and it.a[0].op != 'bytes':
            xs = it.a[0].a[1] if it.a[0].op == 'agg' else [p.a[0] for p in it.a[0].a]
            return [(st, mk('iter', cat([one(x) for x in reversed(xs)]), ZERO))]
        return [(st, mk('iter', call('rev', (it.a[0],)), ZERO))]
    return [(st, mk('itop', 'rev', it, ZERO))]


@m('iter::Iterator::chain', 'iter::Iterator::zip')
def m_chain(I, st, fr, c, args):
    f = c.name.rsplit('::', 1)[1]
    a, b = mk_iter(I, st, args[0]), mk_iter(I, st, args[1])
    if f == 'chain' and a.op == b.op == 'iter' and a.a[1] is ZERO and b.a[1] is ZERO:
        return [(st, mk('iter', cat([a.a[0], b.a[0]]), ZERO))]
    return [(st, mk('itop', f, a, b))]


@m('iter::once', 'iter::once_with_')
def m_once(I, st, fr, c, args):
    return [(st, mk('iter', cat([one(args[0])]), ZERO))]


@m('iter::from_fn')
def m_from_fn(I, st, fr, c, args):
    f = D(I, st, args[0])
    if f.op != 'agg' or f.a[0][0] != 'closure' or not all(x.op == 'ref' for x in f.a[1]):
        return None      # a closure with a state of its own
    return [(st, mk('itop', 'from_fn', UNIT, f))]


@m('iter::successors')
def m_successors(I, st, fr, c, args):
    return [(st, mk('itop', 'successors', D(I, st, args[0]), args[1]))]


@m('iter::empty')
def m_iter_empty(I, st, fr, c, args):
    return [(st, mk('iter', EMPTY, ZERO))]


def step(I, st, fr, c, it):
    """Advance an iterator value: [(state, 'none'|'some'|'skip', value, iterator')]."""
    if it.op == 'ref':
        cur = I.load(st, it.a[0], it.a[1])
        out = []
        for s, k, v, nx in step(I, st, fr, c, cur):
            s = s.fork()
            I.store(s, it.a[0], it.a[1], nx)
            out.append((s, k, v, it))
        return out
    if it.op == 'iter':
        src, pos = it.a
        out = []
        lz = lazy_source(I, st, fr, c, it)
        if lz is not None:
            return lz
        for s, b in I.fork_bool(st, binop('Lt', pos, length(src), 'usize')):
            if b:
                out.append((s, 'some', I.index(s, src, pos), mk('iter', src, binop('Add', pos, ONE, 'usize'))))
            else:
                out.append((s, 'none', None, it))
        return out
    if it.op == 'agg' and it.a[0][0] == 'adt' and it.a[0][1].endswith('::Range'):
        lo, hi = it.a[1]
        ty = lo.a[1] if lo.op == 'int' else (hi.a[1] if hi.op == 'int' else (term_int_ty(lo) or 'usize'))
        out = []
        for s, b in I.fork_bool(st, binop('Lt', lo, hi, ty)):
            if b:
                out.append((s, 'some', lo, agg(it.a[0], (binop('Add', lo, TM.I(1, ty), ty), hi))))
            else:
                out.append((s, 'none', None, it))
        return out
    if it.op == 'agg' and it.a[0][0] == 'adt' and it.a[0][1].endswith('::RangeInclusive'):
        lo, hi = it.a[1][0], it.a[1][1]
        ty = lo.a[1] if lo.op == 'int' else (hi.a[1] if hi.op == 'int' else (term_int_ty(lo) or 'usize'))
        rest = tuple(it.a[1][2:])
        out = []
        for s, b in I.fork_bool(st, binop('Le', lo, hi, ty)):
            if b:
                out.append((s, 'some', lo, agg(it.a[0], (binop('Add', lo, TM.I(1, ty), ty), hi) + rest)))
            else:
                out.append((s, 'none', None, it))
        return out
    if it.op == 'itop':
        f, inner, x = it.a
        if f == 'mut':
            src = D(I, st, inner)
            r = target_ref(I, st, inner)
            out = []
            for s, b in I.fork_bool(st, binop('Lt', x, length(src), 'usize')):
                if b:
                    out.append((s, 'some', mk('ref', r.a[0], r.a[1] + (('ix', x),)) if r is not None else I.index(s, src, x), mk('itop', f, inner, binop('Add', x, ONE, 'usize'))))
                else:
                    out.append((s, 'none', None, it))
            return out
        if f == 'zip':
            out = []
            for s, k, v, nx in step(I, st, fr, c, inner):
                if k != 'some':
                    out.append((s, k, v, mk('itop', f, nx, x)))
                    continue
                for s2, k2, v2, nx2 in step(I, s, fr, c.subcall('z'), x):
                    out.append((s2, k2, tup(v, v2) if k2 == 'some' else None, mk('itop', f, nx, nx2)))
            return out
        if f == 'chain':
            out = []
            for s, k, v, nx in step(I, st, fr, c, inner):
                if k == 'none':
                    for s2, k2, v2, nx2 in step(I, s, fr, c.subcall('z'), x):
                        out.append((s2, k2, v2, mk('itop', f, nx, nx2)))
                else:
                    out.append((s, k, v, mk('itop', f, nx, x)))
            return out
        if f == 'from_fn':
            out = []
            for q, w in I.invoke(st, fr, c.subcall(('it', f)), x, []):
                for q2, vn, pl in I.fork_variant(q, w, OPT):
                    out.append((q2, 'some' if vn == 'Some' else 'none', pl[0] if pl else None, it))
            return out
        if f == 'successors':
            out = []
            for s, vn, pl in I.fork_variant(st, inner, OPT):
                if vn == 'None':
                    out.append((s, 'none', None, it))
                else:
                    out += [(q, 'some', pl[0], mk('itop', f, w, x)) for q, w in I.invoke(s, fr, c.subcall(('it', f)), x, [pl[0]])]
            return out
        out = []
        if f == 'take':
            res = []
            for s, b in I.fork_bool(st, eq(x, ZERO)):
                if b:
                    out.append((s, 'none', None, it))
                else:
                    res += step(I, s, fr, c, inner)
        else:
            res = step(I, st, fr, c, inner)
        for s, k, v, nx in res:
            nit = mk('itop', f, nx, x)
            if k != 'some':
                out.append((s, k, v, nit))
                continue
            cc = c.subcall(('it', f))
            if f == 'map':
                out += [(q, 'some', w, nit) for q, w in I.invoke(s, fr, cc, x, [v])]
            elif f == 'upnp':
                for q, w in I.opaque_call(s, fr, cc, x.a[0], [v], effect=True):
                    out.append((q, 'some', w, nit))
            elif f == 'inspect':
                out += [(q, 'some', v, nit) for q, w in I.invoke(s, fr, cc, x, [v])]
            elif f == 'filter':
                for q, w in I.invoke(s, fr, cc, x, [v]):
                    for q2, b in I.fork_bool(q, w):
                        out.append((q2, 'some' if b else 'skip', v if b else None, nit))
            elif f == 'take_while':
                for q, w in I.invoke(s, fr, cc, x, [v]):
                    for q2, b in I.fork_bool(q, w):
                        out.append((q2, 'some' if b else 'none', v if b else None, nit))
            elif f in ('filter_map', 'map_while'):
                for q, w in I.invoke(s, fr, cc, x, [v]):
                    for q2, vn, pl in I.fork_variant(q, w, OPT):
                        out.append((q2, 'some' if vn == 'Some' else ('skip' if f == 'filter_map' else 'none'), pl[0] if pl else None, nit))
            elif f == 'enumerate':
                out.append((s, 'some', tup(x, v), mk('itop', f, nx, binop('Add', x, ONE, 'usize'))))
            elif f == 'take':
                out.append((s, 'some', v, mk('itop', f, nx, binop('Sub', x, ONE, 'usize'))))
            elif f == 'proj':
                out.append((s, 'some', fld(v, None, str(x), x), nit))
            else:
                out.append((s, 'some', call('iter_' + f, (v,) if not isinstance(x, Term) else (v, x)), nit))
        return out
    # unknown iterator: an opaque sequence
    r = call('next', (I.resolve(st, it),), c.site())
    out = []
    for s, vn, pl in I.fork_variant(st, r, OPT):
        out.append((s, 'some' if vn == 'Some' else 'none', pl[0] if pl else None, mk('hav', r, 0)))
    return out


def lazy_source(I, st, fr, c, it):
    return None


@m('iter::Iterator::next')
def m_next(I, st, fr, c, args):
    out = []
    if args[0].op != 'ref':
        return None
    for s, k, v, nx in step(I, st, fr, c, args[0]):
        if k == 'none':
            out.append((s, NONE))
        elif k == 'some':
            out.append((s, some(v)))
        else:
            if not I.skip_ok(fr, c.bb):
                return next_by_scan(I, st, fr, c, args)
            out.append((s, SKIP))
    return out


def drive(I, st, fr, c, it, acc0, body, tag='it'):
    """Consume iterator `it` with an accumulator: body(state, value) -> [('go', state, acc) | ('stop', state, result)].
    Returns (finished [(state, acc, iterator)], stopped [(state, result)])."""
    if it.op == 'itop' and it.a[0] in ('flat_map', 'flatten'):
        return drive_flat(I, st, fr, c, it, acc0, body, tag)
    L = ('it', c.site(), tag)
    LA = ('acc', c.site(), tag)
    st = st.fork()
    st.mem[L] = it
    st.mem[LA] = acc0
    fin, stop = [], []

    def run(hs):
        backs, outs = [], []
        for s, k, v, nx in step(I, hs, fr, c, hs.mem[L]):
            s = s.fork()
            s.mem[L] = nx
            if k == 'none':
                outs.append(('fin', None, s))
            elif k == 'skip':
                backs.append(s)
            else:
                for kk, q, x in body(s, v, s.mem[LA]):
                    q = q.fork()
                    if kk == 'go':
                        q.mem[LA] = x
                        backs.append(q)
                    else:
                        outs.append(('stop', x, q))
        return backs, outs
    res = I.fix(st, (fr.fid, c.site(), tag), I.where(fr, c.sp), run)
    for k, x, s in res:
        acc = s.mem.pop(LA, None)
        i2 = s.mem.pop(L, None)
        if k == 'fin':
            fin.append((s, acc, i2))
        else:
            stop.append((s, x, i2))
    return fin, stop


@m('array::<impl [T; N]>::map')
def m_array_map(I, st, fr, c, args):
    v = D(I, st, args[0])
    if v.op != 'agg' or v.a[0][0] != 'array':
        return None
    cur = [(st, ())]
    for k, x in enumerate(v.a[1]):
        cur = [(q, done + (w,)) for s, done in cur for q, w in I.invoke(s, fr, c.subcall('m%d' % k), args[1], [x])]
    return [(s, agg(v.a[0], done)) for s, done in cur]


def drive_flat(I, st, fr, c, it, acc0, body, tag):
    """One pass inside another: every element of the outer iterator is itself walked."""
    f = it.a[2]

    def outer(s, v, acc):
        out = []
        for q, w in (I.invoke(s, fr, c.subcall('fm'), f, [v]) if it.a[0] == 'flat_map' else [(s, v)]):
            whole = getattr(body, 'whole', None)
            src = I.deref_val(q, w)
            if whole is not None and (src.op == 'call' and re.match('to_[bl]e_', str(src.a[0])) or src.op in ('bytes', 'str') or src.op == 'agg' and src.a[0][0] == 'array'):
                out += [('go', q, whole(acc, src))]
                continue
            fin, stop = drive(I, q, fr, c, mk_iter(I, q, w), acc, body, tag + "'")
            out += [('go', s2, a) for s2, a, _ in fin] + [('stop', s2, x) for s2, x, _ in stop]
        return out
    fin, stop = drive(I, st, fr, c, it.a[1], acc0, outer, tag)
    return [(s, a, mk('itop', it.a[0], i2, f)) for s, a, i2 in fin], [(s, x, mk('itop', it.a[0], i2, f)) for s, x, i2 in stop]


def next_by_scan(I, st, fr, c, args):
    r = args[0]
    fin, stop = drive(I, st, fr, c, I.load(st, r.a[0], r.a[1]), UNIT, lambda s, v, acc: [('stop', s, some(v))])
    out = []
    for s, x, it in [(s, NONE, it) for s, a, it in fin] + stop:
        s = s.fork()
        I.store(s, r.a[0], r.a[1], it)
        out.append((s, x))
    return out


def coll_kind(t):
    if t is None:
        return 'list', None
    if t[0] == 'adt':
        n = t[1].split('::')[-1]
        if t[1] == RES:
            return 'result', t[2][0]
        if t[1] == OPT:
            return 'option', t[2][0]
        if n in ('HashSet', 'BTreeSet'):
            return 'set', None
        if n in ('HashMap', 'BTreeMap'):
            return 'map', None
        if n == 'String':
            return 'text', None
        if n == 'Map' and 'serde_json' in t[1]:
            return 'jmap', None
    if t[0] == 'tuple' and not t[1]:
        return 'unit', None
    return 'list', None


def put_elem(I, kind, acc, v):
    if kind == 'set':
        return mk('ins', acc, v)
    if kind == 'map':
        return mk('minsert', acc, v.a[1][0], v.a[1][1]) if v.op == 'agg' else mk('minsert', acc, fld(v, None, '0'), fld(v, None, '1'))
    if kind == 'text':
        return cat([acc, S(v.a[0]) if v.op == 'char' else v])
    if kind == 'unit':
        return UNIT
    if kind == 'jmap':
        return jmap_put(acc, fld(v, None, '0', 0), fld(v, None, '1', 1))
    return cat([acc, one(v)])


@m('iter::Iterator::collect', 'iter::FromIterator::from_iter')
def m_collect(I, st, fr, c, args):
    t = c.targs[-1] if c.name.endswith('collect') else c.targs[0]
    return collect(I, st, fr, c, mk_iter(I, st, args[0]) if c.name.endswith('from_iter') else args[0], t)


def collect(I, st, fr, c, it, t):
    kind, inner = coll_kind(t)
    it = D(I, st, it) if it.op == 'ref' and False else it
    if it.op == 'iter' and it.a[1] is ZERO and kind == 'list':
        return [(st, it.a[0] if it.a[0].op != 'agg' else cat([it.a[0]]))]
    if kind in ('result', 'option'):
        k2, _ = coll_kind(inner)
        aid, good = (RES, 'Ok') if kind == 'result' else (OPT, 'Some')

        def body(s, v, acc):
            out = []
            for q, vn, pl in I.fork_variant(s, v, aid):
                if vn == good:
                    out.append(('go', q, put_elem(I, k2, acc, pl[0])))
                else:
                    out.append(('stop', q, adt(aid, vn, *pl)))
            return out
        acc0 = UNIT if k2 == 'unit' else EMPTY
        fin, stop = drive(I, st, fr, c, it, acc0, body)
        return [(s, adt(aid, good, a)) for s, a, _ in fin] + [(s, x) for s, x, _ in stop]
    fin, stop = drive(I, st, fr, c, it, UNIT if kind == 'unit' else EMPTY, put_body(I, kind))
    return [(s, copied(I, s, a) if kind == 'list' else a) for s, a, _ in fin]


def copied(I, st, t):
    """A list gathered by walking all of another one and taking every element as it is: that other list."""
    lp = I.phi_loop.get(t)
    if t.op != 'phi' or lp is None or t not in lp.phis:
        return t
    init, backs = lp.phis[t]
    if init is not EMPTY or len(backs) != 1 or backs[0] is None or backs[0].op != 'cat' or len(backs[0].a) != 2 or backs[0].a[0] is not t:
        return t
    x = backs[0].a[1]
    if x.op != 'one' or x.a[0].op != 'idx':
        return t
    src, ph = x.a[0].a
    if ph not in lp.phis or src in lp.phis:
        return t
    i0, bs = lp.phis[ph]
    if i0 is not ZERO or len(bs) != 1 or bs[0] is not binop('Add', ph, ONE, 'usize'):
        return t
    return src if st.facts.eval(binop('Lt', ph, length(src), 'usize')) is False else t


def put_body(I, kind):
    def body(s, v, acc):
        return [('go', s, put_elem(I, kind, acc, v))]
    if kind == 'list':
        body.whole = lambda acc, src: cat([acc, src])
    return body


@m('iter::Extend::extend', 'vec::Vec::extend', 'collections::VecDeque::extend', 'collections::HashSet::extend', 'string::String::extend')
def m_extend(I, st, fr, c, args):
    t = peel(c.selfty)
    kind, _ = coll_kind(t)
    if kind == 'text' and args[1].op == 'iter' and args[1].a[1] is ZERO and args[1].a[0].op == 'str':
        x = args[1].a[0]
        return upd_coll(I, st, fr, c, args[0], lambda v: cat([v, x]), x)
    it = mk_iter(I, st, args[1])
    if kind == 'list' and it.op == 'iter' and it.a[1] is ZERO:
        x = it.a[0]
        return upd_coll(I, st, fr, c, args[0], lambda v: cat([v, x]), x)
    cur = D(I, st, args[0])
    fin, _ = drive(I, st, fr, c, it, cur, put_body(I, kind))
    out = []
    for s, a, _ in fin:
        out += upd_coll(I, s, fr, c, args[0], lambda v: a, a)
    return out


@m('iter::Iterator::for_each', 'iter::Iterator::try_for_each')
def m_for_each(I, st, fr, c, args):
    tr = 'try' in c.name

    def body(s, v, acc):
        out = []
        for q, w in I.invoke(s, fr, c.subcall('fe'), args[1], [v]):
            if not tr:
                out.append(('go', q, UNIT))
                continue
            out += try_split(I, q, w)
        return out
    fin, stop = drive(I, st, fr, c, args[0], UNIT, body)
    return [(s, UNIT if not tr else try_ok(I, c, UNIT)) for s, a, _ in fin] + [(s, x) for s, x, _ in stop]


def try_split(I, q, w):
    aid = RES
    w = I.deref_val(q, w)
    if is_adt(w):
        aid = w.a[0][1]
    out = []
    good = {'core::option::Option': 'Some', RES: 'Ok', CF: 'Continue'}[aid]
    for q2, vn, pl in I.fork_variant(q, w, aid):
        out.append(('go', q2, pl[0] if pl else UNIT) if vn == good else ('stop', q2, adt(aid, vn, *pl)))
    return out


def try_ok(I, c, v):
    t = c.dest_ty()
    if t and t[0] == 'adt' and t[1] == OPT:
        return some(v)
    return ok(v)


@m('iter::Iterator::fold', 'iter::Iterator::try_fold')
def m_fold(I, st, fr, c, args):
    tr = 'try' in c.name

    def body(s, v, acc):
        out = []
        for q, w in I.invoke(s, fr, c.subcall('fold'), args[2], [acc, v]):
            if tr:
                out += try_split(I, q, w)
            else:
                out.append(('go', q, w))
        return out
    fin, stop = drive(I, st, fr, c, args[0], args[1], body)
    return [(s, a if not tr else try_ok(I, c, a)) for s, a, _ in fin] + [(s, x) for s, x, _ in stop]


@m('iter::Iterator::unzip', 'iter::Iterator::partition')
def m_unzip(I, st, fr, c, args):
    un = c.name.endswith('unzip')
    if un:
        kinds = [coll_kind(t)[0] for t in c.targs[-2:]]
    else:
        kinds = [coll_kind(c.targs[-2] if len(c.targs) > 1 else None)[0]] * 2
    if any(k in ('result', 'option') for k in kinds):
        return None

    def body(s, v, acc):
        a, b = fld(acc, None, '0'), fld(acc, None, '1')
        if un:
            x, y = (v.a[1][0], v.a[1][1]) if v.op == 'agg' else (fld(v, None, '0'), fld(v, None, '1'))
            return [('go', s, tup(put_elem(I, kinds[0], a, x), put_elem(I, kinds[1], b, y)))]
        out = []
        for q, w in I.invoke(s, fr, c.subcall('pred'), args[1], [v]):
            for q2, ok_ in I.fork_bool(q, w):
                out.append(('go', q2, tup(put_elem(I, kinds[0], a, v), b) if ok_ else tup(a, put_elem(I, kinds[1], b, v))))
        return out
    empty = [UNIT if k == 'unit' else EMPTY for k in kinds]
    fin, stop = drive(I, st, fr, c, args[0], tup(*empty), body)
    return [(s, a) for s, a, _ in fin]


@m('iter::Iterator::any', 'iter::Iterator::all', 'iter::Iterator::find', 'iter::Iterator::position', 'iter::Iterator::find_map')
def m_find(I, st, fr, c, args):
    f = c.name.rsplit('::', 1)[1]

    def body(s, v, acc):
        out = []
        for q, w in I.invoke(s, fr, c.subcall('pred'), args[1], [v]):
            if f == 'find_map':
                for q2, vn, pl in I.fork_variant(q, w, OPT):
                    out.append(('stop', q2, some(pl[0])) if vn == 'Some' else ('go', q2, acc))
                continue
            for q2, b in I.fork_bool(q, w):
                if f == 'all':
                    out.append(('go', q2, acc) if b else ('stop', q2, FALSE))
                elif b:
                    # over a whole list the position is the index itself
                    at = v.a[1] if whole is not None and v.op == 'idx' and v.a[0] is whole else acc
                    out.append(('stop', q2, {'any': TRUE, 'find': some(v)}.get(f) or some(at)))
                else:
                    out.append(('go', q2, acc if f != 'position' else binop('Add', acc, ONE, 'usize')))
        return out
    it = args[0]
    iv = D(I, st, it) if it.op == 'ref' else it
    whole = iv.a[0] if iv.op == 'iter' and iv.a[1] is ZERO else None
    fin, stop = drive(I, st, fr, c, it, ZERO if f == 'position' else UNIT, body)
    e = {'any': FALSE, 'all': TRUE}.get(f, NONE)
    return [(s, e) for s, a, _ in fin] + [(s, x) for s, x, _ in stop]


@m('iter::Iterator::count', 'iter::Iterator::last', 'iter::Iterator::nth', 'iter::Iterator::sum')
def m_count(I, st, fr, c, args):
    f = c.name.rsplit('::', 1)[1]
    it = D(I, st, args[0]) if args[0].op == 'ref' else args[0]
    if f == 'count' and it.op == 'iter' and it.a[1] is ZERO:
        return [(st, length(it.a[0]))]
    if f == 'nth':
        n = D(I, st, args[1])
        if it.op == 'iter':
            i = binop('Add', it.a[1], n, 'usize')
            out = []
            for s, b in I.fork_bool(st, binop('Lt', i, length(it.a[0]), 'usize')):
                s = s.fork()
                r = args[0]
                if r.op == 'ref':
                    I.store(s, r.a[0], r.a[1], mk('iter', it.a[0], binop('Add', i, ONE, 'usize')))
                out.append((s, some(I.index(s, it.a[0], i)) if b else NONE))
            return out
        return None
    if f == 'last':
        fin, _ = drive(I, st, fr, c, args[0], NONE, lambda s, v, acc: [('go', s, some(v))])
    elif f == 'count':
        fin, _ = drive(I, st, fr, c, args[0], ZERO, lambda s, v, acc: [('go', s, binop('Add', acc, ONE, 'usize'))])
    else:
        return None
    return [(s, a) for s, a, _ in fin]


@m('vec::Vec::retain', 'collections::HashMap::retain', 'collections::HashSet::retain', 'collections::VecDeque::retain', 'vec::Vec::retain_mut')
def m_retain(I, st, fr, c, args):
    r = target_ref(I, st, args[0])
    v = D(I, st, args[0])
    ismap = 'Map' in c.name
    if '::Vec' in c.name:
        # the list of the elements kept, in order
        def keep(s, x, acc):
            out = []
            for q, w in I.invoke(s, fr, c.subcall('ret'), args[1], [x]):
                for q2, b in I.fork_bool(q, w):
                    out.append(('go', q2, put_elem(I, 'list', acc, x) if b else acc))
            return out
        fin, _ = drive(I, st, fr, c, mk('iter', v, ZERO), EMPTY, keep)
        out = []
        for s, a, _ in fin:
            out += upd_coll(I, s, fr, c, args[0], lambda w: a, a)
        return out

    def body(s, x, acc):
        out = []
        a = [fld(x, None, '0'), fld(x, None, '1')] if ismap else [x]
        for q, w in I.invoke(s, fr, c.subcall('ret'), args[1], a):
            for q2, b in I.fork_bool(q, w):
                out.append(('go', q2, acc if b else (mk('mremove', acc, a[0]) if ismap else mk('vdrop', acc, x))))
        return out
    fin, _ = drive(I, st, fr, c, mk('iter', v, ZERO), v, body)
    out = []
    for s, a, _ in fin:
        out += upd_coll(I, s, fr, c, args[0], lambda w: a, a)
    return out


# ------------------------------------------------------------------ paths and files
def path_join(p, x):
    xs = [x]
    if x.op == 'str':
        if x.a[0].startswith('/'):
            return x
        xs = [S(q) for q in x.a[0].split('/') if q != '']
    elif x.op == 'path':
        xs = list(x.a)
    elif x.op == 'cat':
        # split the constant separators
        sp, cur = [], []
        for part in x.a:
            if part.op == 'str' and '/' in part.a[0]:
                ps = part.a[0].split('/')
                cur.append(S(ps[0]))
                for q in ps[1:]:
                    sp.append(cur)
                    cur = [S(q)]
            else:
                cur.append(part)
        sp.append(cur)
        if not (x.a[0].op == 'str' and x.a[0].a[0].startswith('/')):
            xs = [cat(z) for z in sp]
            xs = [z for z in xs if not is_empty(z)]
    base = p.a if p.op == 'path' else (p,)
    if p is EMPTY:
        base = ()
    r = base + tuple(xs)
    return mk('path', *r)


@m('path::Path::join', 'path::PathBuf::join')
def m_path_join(I, st, fr, c, args):
    return [(st, path_join(D(I, st, args[0]), D(I, st, args[1])))]


@m('path::PathBuf::push')
def m_path_push(I, st, fr, c, args):
    x = D(I, st, args[1])
    return upd_coll(I, st, fr, c, args[0], lambda v: path_join(v, x), x)


@m('tokio::fs::DirEntry::path', 'fs::DirEntry::path')
def m_entry_path(I, st, fr, c, args):
    return [(st, call('entry_path', (D(I, st, args[0]),)))]


@m('io::Error::kind')
def m_err_kind(I, st, fr, c, args):
    return [(st, call('kind', (D(I, st, args[0]),)))]


# ------------------------------------------------------------------ JSON
JV = 'serde_json::value::Value'


def jmap_put(mp, k, v):
    if mp is EMPTY:
        mp = mk('jmap')
    if mp.op == 'jmap':
        items = [x for x in mp.a if x.a[0] is not k]
        return mk('jmap', *(items + [mk('jkv', k, v)]))
    return mk('jput', mp, k, v)


@m('serde_json::Map::new', 'serde_json::Map::with_capacity')
def m_jmap_new(I, st, fr, c, args):
    return [(st, mk('jmap'))]


@m('serde_json::Map::insert')
def m_jmap_insert(I, st, fr, c, args):
    k, v = D(I, st, args[1]), D(I, st, args[2])
    return upd_coll(I, st, fr, c, args[0], lambda mp: jmap_put(mp, k, v), k, v, ret=mk('jold'))


def jget(I, st, v, k):
    if is_adt(v, None, JV):
        if v.a[0][2] == 'Object':
            return jget(I, st, v.a[1][0], k)
        return NONE
    if v.op == 'jmap':
        for x in v.a:
            if x.a[0] is k:
                return some(x.a[1])
        if k.op == 'str' and all(x.a[0].op == 'str' for x in v.a):
            return NONE
    if v.op == 'jput':
        if v.a[1] is k:
            return some(v.a[2])
    return call('jget', (v, k))


@m('serde_json::Value::get', 'serde_json::Map::get')
def m_jget(I, st, fr, c, args):
    return [(st, jget(I, st, D(I, st, args[0]), D(I, st, args[1])))]


@m('serde_json::Value::pointer')
def m_jpointer(I, st, fr, c, args):
    v, k = D(I, st, args[0]), D(I, st, args[1])
    if k.op == 'str' and k.a[0].startswith('/'):
        res = [(st, some(v))]
        for p in k.a[0][1:].split('/'):
            nx = []
            for s, o in res:
                for q, vn, pl in I.fork_variant(s, o, OPT):
                    nx.append((q, jget(I, q, pl[0], S(p)) if vn == 'Some' else NONE))
            res = nx
        return res
    return None


@m('serde_json::Map::contains_key')
def m_jcontains(I, st, fr, c, args):
    g = jget(I, st, D(I, st, args[0]), D(I, st, args[1]))
    return [(s, B(vn == 'Some')) for s, vn, pl in I.fork_variant(st, g, OPT)]


JAS = {'as_str': 'String', 'as_bool': 'Bool', 'as_array': 'Array', 'as_object': 'Object', 'as_u64': 'Number', 'as_i64': 'Number', 'as_f64': 'Number', 'as_null': 'Null'}


@m(*['serde_json::Value::' + x for x in JAS])
def m_jas(I, st, fr, c, args):
    v = D(I, st, args[0])
    f = c.name.rsplit('::', 1)[1]
    if is_adt(v, None, JV):
        if v.a[0][2] != JAS[f]:
            return [(st, NONE)]
        if f == 'as_null':
            return [(st, some(UNIT))]
        x = v.a[1][0]
        if f == 'as_u64':
            if x.op == 'jnum' and x.a[1].startswith('u'):
                return [(st, some(x.a[0]))]
            return [(st, call('jas_u64', (x,)))]
        if v.a[0][2] == 'Number':
            if f == 'as_i64' and x.op == 'jnum' and x.a[1] in ('i8', 'i16', 'i32', 'i64', 'isize', 'u8', 'u16', 'u32'):
                return [(st, some(x.a[0]))]
            return [(st, call('j' + f, (x,)))]
        return [(st, some(x))]
    return [(st, call('j' + f, (v,)))]


TM.INT_OF_CALL['jas_u64'] = None


@m(*['serde_json::Value::is_' + x for x in ('null', 'string', 'array', 'object', 'number', 'boolean', 'u64', 'i64')])
def m_jis(I, st, fr, c, args):
    v = D(I, st, args[0])
    f = c.name.rsplit('is_', 1)[1]
    k = {'null': 'Null', 'string': 'String', 'array': 'Array', 'object': 'Object', 'number': 'Number', 'boolean': 'Bool', 'u64': 'Number', 'i64': 'Number'}[f]
    if is_adt(v, None, JV) and (f not in ('u64', 'i64') or v.a[0][2] != 'Number'):
        return [(st, B(v.a[0][2] == k))]
    if is_adt(v, None, JV) and f == 'u64' and v.a[1][0].op == 'jnum' and v.a[1][0].a[1].startswith('u'):
        return [(st, B(True))]
    return [(st, call('jis_' + f, (v,)))]


def to_json_value(I, st, fr, c, v, t):
    """[(state, Value term)] of infallible conversions, or None."""
    v = D(I, st, v)
    t = peel(t)
    if t is None:
        return [(st, call('to_value', (v,)))]
    if t[0] == 'str' or tname(t) == 'alloc::string::String':
        return [(st, adt(JV, 'String', v))]
    if t[0] == 'int':
        return [(st, adt(JV, 'Number', mk('jnum', v, t[1])))]
    if t[0] == 'bool':
        return [(st, adt(JV, 'Bool', v))]
    if tname(t) == JV:
        return [(st, v)]
    if tname(t) == OPT:
        out = []
        for s, vn, pl in I.fork_variant(st, v, OPT):
            if vn == 'None':
                out.append((s, adt(JV, 'Null')))
            else:
                out += to_json_value(I, s, fr, c, pl[0], t[2][0])
        return out
    if t[0] == 'adt' and t[1].endswith('::Vec') or t[0] in ('slice', 'array'):
        el = t[2][0] if t[0] == 'adt' else t[1]
        if tname(peel(el)) == JV:
            return [(st, adt(JV, 'Array', v))]
        return [(st, adt(JV, 'Array', call('jarray:' + tyname(el), (v,))))]
    if t[0] == 'adt' and t[1].endswith('::Map'):
        return [(st, adt(JV, 'Object', v))]
    if t[0] == 'tuple' and not t[1]:
        return [(st, adt(JV, 'Null'))]
    return [(st, call('to_value:' + tyname(t), (v,)))]


@m('serde_json::to_value')
def m_to_value(I, st, fr, c, args):
    t = peel(c.targs[0])
    if t and t[0] == 'adt' and t[1].startswith(CRATE) or t and t[0] == 'param':
        return [(st, call('to_value:' + tyname(t), (D(I, st, args[0]),)))]
    return [(s, ok(v)) for s, v in to_json_value(I, st, fr, c, args[0], t)]


@m('serde_json::from_value')
def m_from_value(I, st, fr, c, args):
    t = peel(c.targs[0])
    v = D(I, st, args[0])
    if v.op == 'call' and v.a[0] == 'to_value:' + tyname(t):
        return [(st, ok(v.a[1][0]))]
    if is_adt(v, None, JV):
        k = v.a[0][2]
        x = v.a[1][0] if v.a[1] else None
        if k == 'Null' and t == ('tuple', ()):
            return [(st, ok(UNIT))]
        if k == 'Number' and t[0] == 'int' and x.op == 'jnum' and x.a[1] == t[1]:
            return [(st, ok(x.a[0]))]
        if k == 'String' and tname(t) == 'alloc::string::String' or k == 'Bool' and t[0] == 'bool':
            return [(st, ok(x))]
        if tname(t) == JV:
            return [(st, ok(v))]
    return [(st, call('from_value:' + tyname(t), (v,)))]


@m('serde_json::to_vec', 'serde_json::to_string', 'serde_json::to_vec_pretty', 'serde_json::to_string_pretty')
def m_to_vec(I, st, fr, c, args):
    v = D(I, st, args[0])
    t = peel(c.targs[0])
    if tname(t) == JV:
        r = call('json_to_vec', (v,))
        return [(s, ok(call('json_text', (v,))) if vn == 'Ok' else err(pl[0])) for s, vn, pl in I.fork_variant(st, r, RES)]
    return [(st, call('serde_to_vec:' + tyname(t), (v,)))]


@m('serde_json::from_slice', 'serde_json::from_str')
def m_from_slice(I, st, fr, c, args):
    v = D(I, st, args[0])
    t = c.targs[-1] if c.targs else None
    t = next((x for x in c.targs if x[0] == 'adt'), t)
    if tname(peel(t)) == JV:
        if v.op == 'call' and v.a[0] == 'json_text':
            return [(st, ok(v.a[1][0]))]
        return [(st, call('json_parse', (v,)))]
    return [(st, call('serde_parse:' + tyname(peel(t)), (v,)))]


# ------------------------------------------------------------------ cryptography and codecs (uninterpreted, with their algebra)
@m('base64::Engine::encode')
def m_b64e(I, st, fr, c, args):
    e, v = D(I, st, args[0]), D(I, st, args[1])
    return [(st, call('b64enc', (v, e)))]


@m('base64::Engine::decode')
def m_b64d(I, st, fr, c, args):
    e, v = D(I, st, args[0]), D(I, st, args[1])
    if v.op == 'call' and v.a[0] == 'b64enc' and v.a[1][1] is e:
        return [(st, ok(v.a[1][0]))]
    return [(st, call('b64dec', (v, e)))]


@m('base64::engine::GeneralPurpose::new')
def m_b64_engine(I, st, fr, c, args):
    return [(st, mk('b64engine', D(I, st, args[0]), D(I, st, args[1])))]


@m('lazy_static::lazy::Lazy::get', 'sync::LazyLock::force', 'sync::OnceLock::get_or_init', 'cell::LazyCell::force')
def m_lazy(I, st, fr, c, args):
    r = I.invoke(State(), fr, c.subcall('lazy'), args[1] if len(args) > 1 else args[0], [])
    if len(r) == 1:
        return [(st, r[0][1])]
    return None


@m('k256::elliptic_curve::PublicKey::to_sec1_bytes', 'elliptic_curve::PublicKey::to_sec1_bytes')
def m_sec1(I, st, fr, c, args):
    return [(st, call('sec1', (D(I, st, args[0]),)))]


@m('k256::elliptic_curve::PublicKey::from_sec1_bytes', 'elliptic_curve::PublicKey::from_sec1_bytes')
def m_from_sec1(I, st, fr, c, args):
    v = D(I, st, args[0])
    if v.op == 'call' and v.a[0] == 'sec1':
        return [(st, ok(v.a[1][0]))]
    return [(st, call('from_sec1', (v,)))]


@m('k256::elliptic_curve::SecretKey::to_bytes')
def m_sk_bytes(I, st, fr, c, args):
    return [(st, call('skbytes', (D(I, st, args[0]),)))]


@m('k256::elliptic_curve::SecretKey::from_slice', 'k256::elliptic_curve::SecretKey::from_bytes')
def m_sk_from(I, st, fr, c, args):
    v = D(I, st, args[0])
    if v.op == 'call' and v.a[0] == 'skbytes':
        return [(st, ok(v.a[1][0]))]
    return [(st, call('sk_from', (v,)))]


@m('k256::elliptic_curve::SecretKey::public_key')
def m_sk_pub(I, st, fr, c, args):
    return [(st, call('pubkey', (D(I, st, args[0]),)))]


@m('k256::elliptic_curve::SecretKey::random')
def m_sk_random(I, st, fr, c, args):
    return I.opaque_call(st, fr, c, 'sk_random', args, effect=True)


@m('k256::ecdsa::signature::Signer::sign')
def m_sign(I, st, fr, c, args):
    return [(st, call('ecdsa_sign', (D(I, st, args[0]), D(I, st, args[1]))))]


@m('k256::ecdsa::signature::Signer::try_sign')
def m_try_sign(I, st, fr, c, args):
    return [(st, ok(call('ecdsa_sign', (D(I, st, args[0]), D(I, st, args[1])))))]


@m('k256::ecdsa::signature::Verifier::verify')
def m_verify(I, st, fr, c, args):
    return [(st, call('ecdsa_verify', tuple(D(I, st, a) for a in args)))]


@m('ecdsa::Signature::from_slice', 'ecdsa::Signature::from_bytes', 'ecdsa::Signature::from_der')
def m_sig_from(I, st, fr, c, args):
    v = D(I, st, args[0])
    k = 'der' if c.name.endswith('der') else 'sig'
    if v.op == 'call' and v.a[0] == k + 'bytes':
        return [(st, ok(v.a[1][0]))]
    return [(st, call('%s_from' % k, (v,)))]


@m('ecdsa::Signature::to_vec', 'ecdsa::Signature::to_bytes')
def m_sig_vec(I, st, fr, c, args):
    return [(st, call('sigbytes', (D(I, st, args[0]),)))]


@m('ecdsa::Signature::to_der')
def m_sig_der(I, st, fr, c, args):
    return [(st, call('derbytes', (D(I, st, args[0]),)))]


TM.LEN_OF_CALL['sigbytes'] = 64


@m('aes_gcm::KeyInit::new', 'chacha20poly1305::KeyInit::new', 'aead::KeyInit::new')
def m_cipher_new(I, st, fr, c, args):
    t = c.selfty
    return [(st, mk('cipher', tyname(t), D(I, st, args[0])))]


@m('aes_gcm::KeyInit::new_from_slice')
def m_cipher_new_slice(I, st, fr, c, args):
    t = c.selfty
    v = D(I, st, args[0])
    r = mk('cipher', tyname(t), v)
    n = known_len(v)
    if n == 32:
        return [(st, ok(r))]
    return [(s, ok(r) if vn == 'Ok' else err(pl[0])) for s, vn, pl in I.fork_variant(st, call('keylen', (v,)), RES)]


@m('aes_gcm::aead::Aead::encrypt', 'chacha20poly1305::aead::Aead::encrypt', 'aead::Aead::encrypt')
def m_aead_enc(I, st, fr, c, args):
    return [(st, call('aead_encrypt', tuple(D(I, st, a) for a in args)))]


@m('aes_gcm::aead::Aead::decrypt', 'chacha20poly1305::aead::Aead::decrypt', 'aead::Aead::decrypt')
def m_aead_dec(I, st, fr, c, args):
    ci, n, v = (D(I, st, a) for a in args)
    return [(st, call('aead_decrypt', (ci, n, v)))]


@m('k256::ecdh::diffie_hellman')
def m_dh(I, st, fr, c, args):
    return [(st, call('ecdh', tuple(D(I, st, a) for a in args)))]


@m('k256::elliptic_curve::SecretKey::to_nonzero_scalar', 'k256::elliptic_curve::PublicKey::as_affine')
def m_scalar(I, st, fr, c, args):
    return [(st, call(c.name.rsplit('::', 1)[1], (D(I, st, args[0]),)))]


@m('k256::elliptic_curve::ecdh::SharedSecret::extract')
def m_extract(I, st, fr, c, args):
    return [(st, call('hkdf_extract', tuple(D(I, st, a) for a in args)))]


@m('hkdf::Hkdf::expand')
def m_expand(I, st, fr, c, args):
    h, info, out_ = D(I, st, args[0]), D(I, st, args[1]), args[2]
    r = target_ref(I, st, out_)
    n = known_len(D(I, st, out_))
    res = call('hkdf_expand', (h, info, I_(n) if n is not None else length(D(I, st, out_))))
    out = []
    for s, vn, pl in I.fork_variant(st, mk('hkdf_ok', length(D(I, st, out_))), RES) if n is None or n > 8160 else [(st, 'Ok', [UNIT])]:
        s = s.fork()
        if vn == 'Ok':
            if r is not None:
                I.store(s, r.a[0], r.a[1], mk('arr', res, n) if n is not None else res)
            out.append((s, ok(UNIT)))
        else:
            out.append((s, err(pl[0])))
    return out


# compression
@m('flate2::write::DeflateEncoder::new', 'flate2::write::DeflateDecoder::new', 'flate2::write::ZlibEncoder::new', 'flate2::write::ZlibDecoder::new', 'flate2::write::GzEncoder::new', 'flate2::write::GzDecoder::new')
def m_flate_new(I, st, fr, c, args):
    k = c.name.split('::')[2]
    return [(st, mk('flate', k, args[1] if len(args) > 1 else UNIT, D(I, st, args[0]), EMPTY))]


@m('io::Write::write_all', 'io::Write::write', 'io::Write::flush')
def m_write_all(I, st, fr, c, args):
    r = target_ref(I, st, args[0])
    v = D(I, st, args[0])
    f = c.name.rsplit('::', 1)[1]
    if v.op == 'flate' and r is not None:
        if f == 'flush':
            return [(st, ok(UNIT))]
        x = D(I, st, args[1])
        out = []
        if f == 'write':
            n = call('written:usize', (v, x), c.site())
            x = mk('prefix', x, n)
            res = n
        else:
            res = UNIT
        nv = mk('flate', v.a[0], v.a[1], v.a[2], cat([v.a[3], x]))
        for s, vn, pl in I.fork_variant(st, call('flate_write', (v, x), c.site()), RES):
            s = s.fork()
            if vn == 'Ok':
                I.store(s, r.a[0], r.a[1], nv)
                out.append((s, ok(res)))
            else:
                I.store(s, r.a[0], r.a[1], mk('flate_failed'))
                out.append((s, err(pl[0])))
        return out
    if f == 'write_all' and r is not None and c.selfty and tname(peel(c.selfty)) == 'alloc::vec::Vec':
        x = D(I, st, args[1])
        return [(s, ok(UNIT)) for s, _ in upd_coll(I, st, fr, c, args[0], lambda w: cat([w, x]), x)]
    return None


@m('flate2::read::DeflateEncoder::new', 'flate2::read::DeflateDecoder::new', 'flate2::bufread::DeflateEncoder::new', 'flate2::bufread::DeflateDecoder::new')
def m_flate_read_new(I, st, fr, c, args):
    k = c.name.split('::')[2]
    return [(st, mk('flater', k, args[1] if len(args) > 1 else UNIT, D(I, st, args[0])))]


@m('io::Cursor::new')
def m_cursor_new(I, st, fr, c, args):
    x = D(I, st, args[0])
    return [(st, mk('cursor', x, ZERO))] if c.targs and is_text(c.targs[0]) else None


def is_text(t):
    t = peel(t)
    return bool(t) and (t[0] == 'slice' or t[0] == 'adt' and t[1] == 'alloc::vec::Vec' or t[0] == 'array')


@m('io::Cursor::into_inner', 'io::Cursor::position')
def m_cursor_part(I, st, fr, c, args):
    v = D(I, st, args[0])
    if v.op != 'cursor':
        return None
    return [(st, v.a[0] if c.name.endswith('into_inner') else v.a[1])]


def left(v):
    """What is left to read of a reader, and the reader once all of it is read."""
    if v.op == 'cursor':
        x = v.a[0]
        return (x if v.a[1] is ZERO else slice_(x, v.a[1], None)), mk('cursor', x, length(x))
    return v, EMPTY


@m('io::Read::read_to_end')
def m_read_to_end(I, st, fr, c, args):
    ri, ro = target_ref(I, st, args[0]), target_ref(I, st, args[1])
    v, o = D(I, st, args[0]), D(I, st, args[1])
    if ro is None:
        return None
    if v.op == 'cursor':
        s = st.fork()
        x, after = left(v)
        I.store(s, ro.a[0], ro.a[1], cat([o, x]))
        if ri is not None:
            I.store(s, ri.a[0], ri.a[1], after)
        return [(s, ok(length(x)))]
    if v.op == 'flater':
        x = call('flate_out', (mk('flate', v.a[0], v.a[1], EMPTY, v.a[2]),))
        out = []
        for s, vn, pl in I.fork_variant(st, call('flate_read', (v,)), RES):
            s = s.fork()
            I.store(s, ro.a[0], ro.a[1], cat([o, x]) if vn == 'Ok' else mk('partial', x))
            if ri is not None:
                I.store(s, ri.a[0], ri.a[1], mk('flate_failed'))
            out.append((s, ok(length(x)) if vn == 'Ok' else err(pl[0])))
        return out
    if is_bytes(c.selfty):
        s = st.fork()
        I.store(s, ro.a[0], ro.a[1], cat([o, v]))
        if ri is not None:
            I.store(s, ri.a[0], ri.a[1], EMPTY)
        return [(s, ok(length(v)))]
    return None


def is_bytes(t):
    t = peel(t)
    return bool(t) and t[0] == 'slice'


@m('io::Read::read_exact')
def m_read_exact(I, st, fr, c, args):
    ri, ro = target_ref(I, st, args[0]), target_ref(I, st, args[1])
    if ri is None or ro is None or not is_bytes(c.selfty):
        return None
    v, o = D(I, st, args[0]), D(I, st, args[1])
    n = length(o)
    out = []
    for q, b in I.fork_bool(st, binop('Le', n, length(v), 'usize')):
        q = q.fork()
        if b:
            I.store(q, ro.a[0], ro.a[1], slice_(v, ZERO, n))
            I.store(q, ri.a[0], ri.a[1], slice_(v, n, None))
            out.append((q, ok(UNIT)))
        else:
            I.store(q, ri.a[0], ri.a[1], EMPTY)
            out.append((q, err(call('UnexpectedEof', (v, n)))))
    return out


@m('io::copy')
def m_io_copy(I, st, fr, c, args):
    v, o = D(I, st, args[0]), D(I, st, args[1])
    r = target_ref(I, st, args[1])
    if r is None:
        return None
    if v.op == 'flater' and c.targs and tname(peel(c.targs[1])) == 'alloc::vec::Vec':
        return m_read_to_end(I, st, fr, c, args)
    if not c.targs or not is_bytes(c.targs[0]):
        return None
    if o.op == 'flate':
        out = []
        for s, vn, pl in I.fork_variant(st, call('flate_write', (o, v), c.site()), RES):
            s = s.fork()
            I.store(s, r.a[0], r.a[1], mk('flate', o.a[0], o.a[1], o.a[2], cat([o.a[3], v])) if vn == 'Ok' else mk('flate_failed'))
            out.append((s, ok(length(v)) if vn == 'Ok' else err(pl[0])))
        return out
    if tname(peel(c.targs[1])) == 'alloc::vec::Vec':
        return [(s, ok(length(v))) for s, _ in upd_coll(I, st, fr, c, args[1], lambda w: cat([w, v]), v)]
    return None


@m('flate2::write::DeflateEncoder::finish', 'flate2::write::DeflateDecoder::finish', 'flate2::write::ZlibEncoder::finish', 'flate2::write::ZlibDecoder::finish')
def m_flate_finish(I, st, fr, c, args):
    v = D(I, st, args[0])
    if v.op == 'flate':
        x = call('flate_out', (v,))
        return [(s, ok(x) if vn == 'Ok' else err(pl[0])) for s, vn, pl in I.fork_variant(st, call('flate_finish', (v,)), RES)]
    return None


@m('flate2::Compression::best', 'flate2::Compression::fast', 'flate2::Compression::none', 'flate2::Compression::new')
def m_flate_level(I, st, fr, c, args):
    f = c.name.rsplit('::', 1)[1]
    n = {'best': 9, 'fast': 1, 'none': 0}.get(f)
    return [(st, call('flate_level', (TM.I(n, 'u32') if n is not None else D(I, st, args[0]),)))]


@m('brotli::BrotliCompress', 'brotli::BrotliDecompress')
def m_brotli(I, st, fr, c, args):
    f = c.name.split('::')[1]
    inp, _ = left(D(I, st, args[0]))
    rest = tuple(I.resolve(st, D(I, st, a)) for a in args[2:])
    ro = target_ref(I, st, args[1])
    ri = target_ref(I, st, args[0])
    out0 = D(I, st, args[1])
    x = call(f + '_out', (inp,) + rest)
    out = []
    for s, vn, pl in I.fork_variant(st, call(f, (inp, out0) + rest), RES):
        s = s.fork()
        if ro is not None:
            I.store(s, ro.a[0], ro.a[1], cat([out0, x]) if vn == 'Ok' else mk('partial', x))
        if ri is not None:
            I.store(s, ri.a[0], ri.a[1], mk('consumed', inp))
        out.append((s, adt(RES, vn, pl[0])))
    return out


# ------------------------------------------------------------------ HTTP replies: (status, headers, body)
RESPONSES = ('axum::http::Response', 'http::Response', 'axum::response::Response')


@m(*[r + '::new' for r in RESPONSES])
def m_response(I, st, fr, c, args):
    return [(st, tup(TM.I(200, 'u16'), EMPTY, D(I, st, args[0])))]


@m(*[r + '::' + f for r in RESPONSES for f in ('status_mut', 'headers_mut', 'body_mut', 'status', 'headers', 'body', 'into_body')])
def m_response_part(I, st, fr, c, args):
    f = c.name.rsplit('::', 1)[1]
    i = {'status': 0, 'headers': 1, 'body': 2}[f.replace('_mut', '').replace('into_', '')]
    r = target_ref(I, st, args[0])
    v = D(I, st, args[0])
    if v.op != 'agg' or v.a[0][0] != 'tuple' or len(v.a[1]) != 3:
        return None
    if f.endswith('_mut'):
        return [(st, mk('ref', r.a[0], r.a[1] + (('f', i, str(i), None, None),)))] if r is not None else None
    return [(st, v.a[1][i])]


# ------------------------------------------------------------------ time and randomness
@m('rand_chacha::rand_core::RngCore::fill_bytes', 'rand_chacha::rand_core::RngCore::try_fill_bytes', 'rand::RngCore::fill_bytes', 'rand_core::RngCore::fill_bytes')
def m_fill_bytes(I, st, fr, c, args):
    ro = target_ref(I, st, args[1])
    if ro is None:
        return None
    n = length(D(I, st, args[1]))
    (q, r), = I.opaque_call(st, fr, c, 'RngCore::fill_bytes', [args[0], n], effect=True)
    q = q.fork()
    k = known_len(D(I, st, args[1]))
    I.store(q, ro.a[0], ro.a[1], mk('arr', r, k) if k is not None else r)
    return [(q, ok(UNIT) if 'try_' in c.name else UNIT)]


@m('time::SystemTime::now', 'time::Instant::now')
def m_now(I, st, fr, c, args):
    return [(st, call('now', (), c.site()))]


@m('time::SystemTime::duration_since')
def m_since(I, st, fr, c, args):
    a, b = D(I, st, args[0]), D(I, st, args[1])
    if b.op == 'constx' and 'UNIX_EPOCH' in str(b.a[0]) and a.op == 'call' and a.a[0] == 'now':
        return [(st, ok(call('since_epoch', (a,))))]
    return [(st, call('duration_since', (a, b)))]


@m('time::SystemTime::elapsed')
def m_elapsed(I, st, fr, c, args):
    a = D(I, st, args[0])
    if a.op == 'constx' and 'UNIX_EPOCH' in str(a.a[0]):
        return [(st, ok(call('since_epoch', (call('now', (), c.site()),))))]
    return [(st, call('elapsed', (a,), c.site()))]


@m('time::Duration::as_secs')
def m_secs(I, st, fr, c, args):
    return [(st, call('secs:u64', (D(I, st, args[0]),)))]


# ------------------------------------------------------------------ port forwarding (lazy iterators over gateway calls)
@m('easy_upnp::add_ports', 'easy_upnp::delete_ports')
def m_upnp(I, st, fr, c, args):
    n = c.name.split('::')[1]
    return [(st, mk('itop', 'upnp', mk_iter(I, st, args[0]), mk('upnp', 'easy_upnp::' + ('add_port' if n == 'add_ports' else 'delete_port'))))]


@m('tokio::spawn', 'tokio::task::spawn', 'tokio::task::spawn_local')
def m_spawn(I, st, fr, c, args):
    """The task's effects may happen, at some time; its result is only known by joining it."""
    out = []
    for s, v in I.poll(st.fork(), fr, c, args[0]):
        s = s.fork()
        s.add(Event('spawn', c.name, (v,), None, s.facts, I.where(fr, c.sp)))
        out.append((s, mk('task', v)))
    return out


# ------------------------------------------------------------------ effects
PURE_PREFIX = ('axum::', 'reqwest::', 'any::', 'hash::', 'fmt::')


def effectful(name):
    if not isinstance(name, str):
        return True
    if name.startswith(('axum::', 'reqwest::Client::', 'reqwest::RequestBuilder::json', 'reqwest::StatusCode', 'reqwest::Response::status')):
        return False
    if name.startswith(('fs::', 'tokio::', 'net::', 'process::', 'env::', 'rand', 'thread::', 'time::', 'io::', 'reqwest')):
        return True
    return name in EFFECTFUL


EFFECTFUL = {'rand_chacha::rand_core::SeedableRng::from_entropy', 'rand_chacha::rand_core::RngCore::next_u64'}


def boundary_effect(trait, method):
    t = trait.split('::')[-1]
    if t == 'AsJson':
        return False
    return True


def ext_trait(I, trait, method, selfty):
    return None


# ------------------------------------------------------------------ tracing
# A log statement is interpreted either as enabled (I.tracing) or as disabled; what it is given is
# recorded as an event named 'tracing'.
def tracing_value(t):
    return adt_ty(t).startswith(('tracing', 'log::'))


def adt_ty(t):
    t = peel(t) if t else None
    return t[1] if t and t[0] == 'adt' else ''


def tracing_model(name):
    f = name.rsplit('::', 1)[1]
    if f == 'is_never' or f == 'is_disabled':
        return lambda I, st, fr, c, args: [(st, B(not I.tracing))]
    if f == '__is_enabled':
        return lambda I, st, fr, c, args: [(st, B(I.tracing))]
    if f == 'has_been_set':
        return lambda I, st, fr, c, args: [(st, TRUE)]
    if f == 'instrument' or f == 'with_subscriber':
        return lambda I, st, fr, c, args: [(st, args[0])]
    if f == 'in_scope':
        return lambda I, st, fr, c, args: I.invoke(st, fr, c.subcall('scope'), args[1], [])
    if f in ('dispatch', 'new', 'record_all', 'record', 'new_root', 'child_of', 'record_follows_from'):
        def g(I, st, fr, c, args):
            if not (c.name.endswith(('Event::dispatch', 'Span::new', 'Span::record_all', 'Span::record', 'Event::child_of', 'Span::child_of', 'Span::new_root'))):
                return tracing_opaque(I, st, fr, c, args)
            vals = I.resolve_args(st, args)
            st = st.fork()
            r = call(name, vals)
            if I.tracing:
                st.add(Event('tracing', c.name, vals, r, st.facts, I.where(fr, c.sp)))
            return [(st, r)]
        return g
    return tracing_opaque


def tracing_opaque(I, st, fr, c, args):
    return [(st, call(c.name, I.resolve_args(st, args)))]


def lookup(name):
    f = MODELS.get(name)
    if f is not None:
        return f
    if name.startswith(('tracing', 'log::')):
        return tracing_model(name)
    if name.startswith('num::<impl ') and int_method(name):
        return int_model
    return None


@m('boxed::box_assume_init_into_vec_unsafe')
def m_vec_macro(I, st, fr, c, args):
    # vec![a, b, ..]: the boxed array written in place
    v = D(I, st, args[0])
    while v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1].split('::')[-1] in ('MaybeUninit', 'ManuallyDrop') and v.a[1]:
        v = D(I, st, v.a[1][-1])
    if v.op == 'agg' and v.a[0][0] == 'array':
        return [(st, cat([one(x) for x in v.a[1]]))]
    return None

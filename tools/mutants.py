"""Mutation sweep: small edits of the non-test source, each judged by every check; those no check reports and no test fails are printed as
SURVIVED and read by hand (most are equivalent; the rest show what to strengthen).  mutants.py --shard i/n [--files sub,…] [--ops op,…] > log"""
import hashlib, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import sh, fresh, tests, W, V, B

SIMPLE = [
    ('eq', r' == ', ' != '), ('ne', r' != ', ' == '), ('lt', r' < (?=[\w(])', ' <= '), ('gt', r' > (?=[\w(])', ' >= '),
    ('le', r' <= ', ' < '), ('ge', r' >= ', ' > '), ('and', r' && ', ' || '), ('or', r' \|\| ', ' && '),
    ('not', r'(?<=if )!(?=\w)', ''), ('true', r'\btrue\b', 'false'), ('false', r'\bfalse\b', 'true'),
    ('plus', r' \+ ', ' - '), ('minus', r' - (?=\w)', ' + '), ('pluseq', r' \+= ', ' -= '),
    ('cont', r'\bcontinue;', 'break;'), ('brk', r'\bbreak;', 'continue;'),
    ('isnone', r'\.is_none\(\)', '.is_some()'), ('issome', r'\.is_some\(\)', '.is_none()'), ('isempty', r'!?(?<=if )(\S+)\.is_empty\(\)', r'!\1.is_empty()'),
    ('pushfront', r'\.push_back\(', '.push_front('), ('popback', r'\.pop_front\(\)', '.pop_back()'), ('norev', r'\.rev\(\)', ''),
    ('first', r'\.first\(\)', '.last()'), ('anyall', r'\.any\(', '.all('), ('allany', r'\.all\(', '.any('), ('swaprm', r'\.remove\(0\)', '.pop().unwrap()'),
    ('read', r'\.read_exact\(', '.read('), ('be', r'_be_bytes', '_le_bytes'), ('unwrapdef', r'\?;$', '.ok();'),
    ('retnone', r'Ok\(Some\((.*)\)\)$', 'Ok(None)'), ('ins', r'\.insert\(([^()]*)\);$', '.clear();'),
    ('append', r'\.append\(true\)', '.append(false)'), ('ge1', r'\.len\(\)', '.len().saturating_sub(1)'),
    ('filt', r'\.filter\(\|', '.skip_while(|'), ('clone2', r'\.skip\((\w+)\)', ''), ('take', r'\.take\((\w+)\)', ''),
    ('min', r'\.min\(', '.max('), ('max', r'\.max\(', '.min('),
]


def source(p):
    """the lines a mutant may touch: (index, line)"""
    s = open(p).read().split('\n')
    out, skip, depth, attr = [], False, 0, False
    for i, l in enumerate(s):
        t = l.strip()
        if '#[cfg(test)]' in t:
            break
        if t.startswith(('//', '#[', '#![', 'use ', 'pub use ', 'mod ', 'pub mod ')) or not t:
            continue
        out.append((i, l))
    return s, out


def spans(text):
    """index ranges of tracing blocks"""
    out = []
    for m in re.finditer(r'#\[cfg\(feature = "tracing"\)\]\s*', text):
        i = m.end()
        if text.startswith(('#[', '//'), i):
            continue
        d, j = 0, i
        while j < len(text):
            ch = text[j]
            if ch in '({[':
                d += 1
            elif ch in ')}]':
                d -= 1
                if d < 0:
                    break
                if d == 0 and ch == '}':
                    break
            elif ch == ';' and d == 0:
                break
            j += 1
        out.append((m.start(), j))
    return out


def args_of(text, i):
    """top-level arguments of the parenthesis opened at i"""
    d, out, st = 0, [], i + 1
    for j in range(i, min(len(text), i + 600)):
        ch = text[j]
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
            if d == 0:
                out.append((st, j))
                return out, j
        elif ch == ',' and d == 1:
            out.append((st, j))
            st = j + 1
    return None, None


def mutants(files):
    for f in files:
        p = os.path.join(W, f)
        full = open(p).read()
        text = full.split('#[cfg(test)]\nmod')[0]
        tr = spans(text)
        lines, ok = source(p)
        off, pos = [], 0
        for l in lines:
            off.append(pos)
            pos += len(l) + 1

        def inside(i):
            return any(a <= i < b for a, b in tr)
        for i, l in ok:
            if off[i] >= len(text) or inside(off[i]):
                continue
            seen = set()

            def one(op, new):
                if new != l and new not in seen:
                    seen.add(new)
                    return (f, i, op, lines[:i] + [new] + lines[i + 1:])
            code = l.split('//')[0] if '://' not in l else l
            for op, pat, rep in SIMPLE:
                for k, m in enumerate(re.finditer(pat, code)):
                    x = one(op, l[:m.start()] + m.expand(rep) + l[m.end():])
                    if x:
                        yield x
            for m in re.finditer(r'(?<![\w."])(\d+)(?![\w."])', code) if code.count(',') < 8 else ():
                v = int(m.group(1))
                for w in (v + 1, max(v - 1, 0)):
                    x = one('int', l[:m.start()] + str(w) + l[m.end():])
                    if x:
                        yield x
            for m in re.finditer(r'"([^"{}\\]{1,60})"', code) if not re.search(r'reason|Err\(|error\(|expect\(|Failed', code) else ():
                x = one('str', l[:m.end() - 1] + 'x' + l[m.end() - 1:])
                if x:
                    yield x
            t = l.strip()
            if t.endswith(';') and not t.startswith(('let ', 'type ', 'const ', 'fn ', 'async fn', 'pub ', 'return', '}', ')', '.')) and t.count('(') == t.count(')'):
                x = one('del', '')
                if x:
                    yield x
            if t.startswith('return ') and t.endswith(';') and t.count('(') == t.count(')'):
                x = one('delret', '')
                if x:
                    yield x
            if re.match(r'\.\w+(::<.*>)?\(.*\)$', t) and t.count('(') == t.count(')'):
                x = one('delcall', '')
                if x:
                    yield x
            for m in re.finditer(r'(?<=if )(?!let)(.+?) \{$', l):
                for c in ('true', 'false'):
                    x = one('if' + c, l[:m.start(1)] + c + l[m.end(1):])
                    if x:
                        yield x
            for m in re.finditer(r' (&&|\|\|) ', l):
                x = one('dropcond', l[:m.start()] + (' {' if l.rstrip().endswith('{') else ''))
                if x:
                    yield x
            for m in re.finditer(r'\w\(', code):
                a, e = args_of(text, off[i] + m.end() - 1)
                if a and len(a) == 2 and '\n' not in text[off[i] + m.end():e] and text[a[1][0]:a[1][1]].strip():
                    s0, s1 = text[a[0][0]:a[0][1]].strip(), text[a[1][0]:a[1][1]].strip()
                    if s0.startswith(('&self', 'self', 'mut self', '|')) or ': ' in s0:
                        continue
                    b = off[i]
                    x = one('swap', l[:a[0][0] - b] + s1 + ', ' + s0 + l[e - b:])
                    if x:
                        yield x
            m = re.match(r'(\s*)(?:if let|Some|Ok|Err|Self::|_ =>|[\w:]+(?:\(.*?\))? =>)', l)
            m = re.match(r'(\s*)(Self::\w+) => (.+?)(,?)$', l)
            if m and i + 1 < len(lines):
                n = re.match(r'(\s*)(Self::\w+) => (.+?)(,?)$', lines[i + 1])
                if n and n.group(3) != m.group(3):
                    yield (f, i, 'swaparm', lines[:i] + [m.group(1) + m.group(2) + ' => ' + n.group(3) + ','] + [n.group(1) + n.group(2) + ' => ' + m.group(3) + n.group(4)] + lines[i + 2:])
            # a struct literal's field given its neighbour's value
            m = re.match(r'(\s*)(\w+): ([\w.]+(?:\(\))?),?$', l)
            if m and i + 1 < len(lines):
                n = re.match(r'(\s*)(\w+): ([\w.]+(?:\(\))?)(,?)$', lines[i + 1])
                if n and n.group(3) != m.group(3):
                    x = one('field', '%s%s: %s,' % (m.group(1), m.group(2), n.group(3)))
                    if x:
                        yield x


FAST = ['C%02d' % i for i in range(1, 60) if i not in (27, 29, 30, 40, 43, 50, 51, 52, 53, 54, 55, 56)]
SLOW = ['C27', 'C29', 'C30', 'C43', 'C55', 'C56']


def judge(ps):
    r = sh('cd %s && HB_REPO=%s HB_CACHE=%s/cache timeout 1500 python3 check.py %s' % (V, W, B, ' '.join(ps)))
    return r.returncode, r.stdout


def hand(spec, ids):
    """mutants written by hand: mut(id, prop, (file, old, new), …)"""
    g = {}
    exec(open(spec).read(), g)
    for m in g['MUTANTS']:
        if ids and not any(m['id'] == x or x.endswith('*') and m['id'].startswith(x[:-1]) for x in ids.split(',')):
            continue
        fresh()
        bad = None
        for f, old, new in m['edits']:
            p = os.path.join(W, f)
            s = open(p).read()
            if old.startswith('ALL:'):
                old = old[4:]
            elif s.count(old) != 1:
                bad = '%s matches %d times' % (f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        if bad:
            print('NOT APPLIED', m['id'], bad)
            continue
        r = sh('cd %s && . /opt/vp/env.sh >/dev/null 2>&1; cd %s && CARGO_TARGET_DIR=%s/chk cargo check --offline 2>&1 | grep -E "^error" -A7' % (W, W, B))
        if 'error' in r.stdout:
            print('nocompile', m['id'], r.stdout[:700])
            continue
        rc, out = judge(FAST)
        rc2, out2 = judge(SLOW) if rc == 0 else (0, '')
        hit = re.findall(r'VIOLATION property=(\S+)', out + out2)
        und = re.findall(r'UNDECIDED.*', out + out2)
        print('caught' if m['prop'] in hit else 'OTHER' if hit else 'UNDECIDED' if und else 'MISSED', m['prop'], m['id'], ','.join(hit), *und)
        sys.stdout.flush()


def main():
    a = sys.argv[1:]
    opt = dict(zip(a[::2], a[1::2]))
    i, n = map(int, opt.get('--shard', '0/1').split('/'))
    fresh()
    files = sorted(x for x in sh('cd %s && git ls-files src' % W).stdout.split() if x.endswith('.rs'))
    if '--files' in opt:
        files = [f for f in files if any(s in f for s in opt['--files'].split(','))]
    ms = list(mutants(files))
    if '--ops' in opt:
        ms = [m for m in ms if m[2] in opt['--ops'].split(',')]
    if '--spec' in opt:
        return hand(opt['--spec'], opt.get('--ids'))
    if '--list' in opt:
        for f, k, op, new in ms:
            print('%s:%d %s %s' % (f, k + 1, op, new[k].strip()[:100]))
        return
    done = set()
    for x in opt.get('--skip', '').split(','):
        done |= {l.rstrip('\n').split(' ', 2 if l.startswith('caught') else 1)[-1] for l in open(x)} if x else set()
    for f, k, op, new in ms:
        if '%s:%d %s %s' % (f, k + 1, op, new[k].strip()[:140]) in done:
            continue
        text = '\n'.join(new)
        if int(hashlib.sha256((f + text).encode()).hexdigest(), 16) % n != i:
            continue
        p = os.path.join(W, f)
        old = open(p).read()
        open(p, 'w').write(text)
        try:
            tag = '%s:%d %s %s' % (f, k + 1, op, new[k].strip()[:140])
            r = sh('cd %s && . /opt/vp/env.sh >/dev/null 2>&1; cd %s && CARGO_TARGET_DIR=%s/chk cargo check --offline 2>&1 | grep -E "^error" -A3' % (W, W, B))
            if 'error' in r.stdout:
                print('nocompile', tag)
                continue
            rc, out = judge(FAST)
            if rc == 0:
                rc, out = judge(SLOW)
            if rc == 1:
                print('caught', ','.join(re.findall(r'VIOLATION property=(\S+)', out)), tag)
            elif rc == 0:
                failed, m = tests()
                print('SURVIVED' if failed is not None and not failed and m >= 119 else 'tests', tag)
            else:
                failed, m = tests()
                print('UNDECIDED' if failed is not None and not failed and m >= 119 else 'tests(undecided)', tag, '|', out.strip()[-200:].replace('\n', ' '))
        finally:
            open(p, 'w').write(old)
            sys.stdout.flush()


if __name__ == '__main__':
    main()

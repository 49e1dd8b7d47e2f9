#!/usr/bin/env python3
"""mutate.py OUT.json [FILES]: small mechanical changes of genco which build and pass its tests.

Works on scratch copies under $MUT (default /tmp/w/mut). The survivors are what
tools/survivors.py runs the checks against."""
import concurrent.futures as cf
import glob, hashlib, json, os, queue, random, re, shutil, subprocess, sys

MUT = os.environ.get('MUT', '/tmp/w/mut')
N = int(os.environ.get('N', '6'))
ENV = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu',
           CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never',
           RUSTC_WRAPPER='', RUST_BACKTRACE='0')


def blank(src):
    """The source with comments and literals blanked out, same length."""
    out = list(src)
    i = 0
    n = len(src)
    while i < n:
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
        elif src.startswith('/*', i):
            j = src.find('*/', i) + 2
        elif src[i] == '"':
            j = i + 1
            while src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            j += 1
            for k in range(i + 1, j - 1):
                out[k] = '_'
            i = j
            continue
        elif m := re.compile(r"b?'(\\.[^']*|[^'\\])'").match(src, i):
            j = m.end()
            for k in range(i + 1, j - 1):
                out[k] = '_'
            i = j
            continue
        else:
            i += 1
            continue
        for k in range(i, j):
            if out[k] != '\n':
                out[k] = ' '
        i = j
    return ''.join(out)


def close(b, i):
    """End of the bracketed part which starts at i."""
    d = 0
    while i < len(b):
        if b[i] in '([{':
            d += 1
        elif b[i] in ')]}':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return None


def mutants(f, src):
    b = blank(src)
    stop = b.find('#[cfg(test)]')
    stop = len(b) if stop < 0 else stop
    out = []

    def add(i, j, new, what):
        if i < stop and src[i:j] != new:
            out.append((i, j, new, what))

    # Conditions.
    for m in re.finditer(r'\b(?:if|while) (?!let\b)', b):
        i = m.end()
        d = 0
        j = i
        while j < len(b) and not (b[j] == '{' and d == 0) and not b.startswith('=>', j):
            d += {'(': 1, '[': 1, ')': -1, ']': -1}.get(b[j], 0)
            j += 1
        c = src[i:j].rstrip()
        if len(c) > 300 or ' let ' in c:
            continue
        e = i + len(c)
        add(i, e, f'!({c})', 'negate')
        if not m[0].startswith('while'):
            add(i, e, 'true', 'always')
        add(i, e, 'false', 'never')
    # if let: never.
    for m in re.finditer(r'\bif (let [^{;]*?=[^{;]*?) \{', b):
        add(m.start(1), m.start(1), 'false && ', 'never let') if ' else' not in m[1] else None
    for pat, new in [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' && ', ' || '),
                     (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+= ', ' -= '),
                     (r' -= ', ' += '), (r'\.is_some\(', '.is_none('), (r'\.is_none\(', '.is_some('), (r'\.any\(', '.all('), (r'\.all\(', '.any('),
                     (r'!(?=[a-z_(])(?<![a-z_]!)', ''), (r'\.rev\(\)', ''), (r'\.trim\w*\(\)', ''), (r'\.peekable\(\)', ''), (r'\.first\(', '.last('),
                     (r'\.last\(', '.first('), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\.saturating_add\(', '.saturating_sub('),
                     (r'\.saturating_sub\(', '.saturating_add('), (r'\.push_front\(', '.push_back('), (r'\bBTreeSet\b', 'BTreeSet'), (r'\.take\(\)', '.clone()'),
                     (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\.\.=', '..')]:
        for m in re.finditer(pat, b):
            add(m.start(), m.end(), new, 'op')
    for m in re.finditer(r'(?<![\w.\'])\d+(?!\w|\.\d)', b):
        add(m.start(), m.end(), str(int(m[0]) + 1), 'number')
        if int(m[0]) > 0:
            add(m.start(), m.end(), str(int(m[0]) - 1), 'number')
    # Statements.
    for m in re.finditer(r'(?<=[;{}])\s+(?=[a-z_*$])(?!(?:let|use|pub|fn|impl|mod|struct|enum|type|const|where|match|if|for|while|loop|else|unsafe|trait|static|macro_rules)\b)', b):
        i = m.end()
        d = 0
        j = i
        while j < len(b):
            if b[j] in '([{':
                d += 1
            elif b[j] in ')]}':
                d -= 1
                if d < 0:
                    break
            elif b[j] == ';' and d == 0:
                add(i, j + 1, '', 'delete')
                break
            j += 1
    # Whole blocks: if / for / while.
    for m in re.finditer(r'\n\s*((?:if|for|while) [^;{]*)\{', b):
        j = close(b, m.end() - 1)
        if j and not re.match(r'\s*else', b[j:]) and not re.search(r'else\s*$', b[:m.start(1)]):
            add(m.start(1), j, '', 'delete block')
    # Literals.
    for m in re.finditer(r'"(_*)"', b):
        s = src[m.start() + 1:m.end() - 1]
        line = b[b.rfind('\n', 0, m.start()) + 1:m.start()]
        if 'error' in line.lower() or 'assert' in line or 'expect(' in line or '#[' in line or 'Error::new' in line:
            continue
        add(m.start(), m.end(), '""' if s else '"x"', 'literal')
        if s.startswith(' ') or s.endswith(' '):
            add(m.start(), m.end(), f'"{s.strip()}"', 'literal')
        if len(s) > 1 and '\\' not in s and '{' not in s:
            add(m.start(), m.end(), f'"{s[:-1]}"', 'literal')
    for m in re.finditer(r"(?<!b)'(_+)'", b):
        add(m.start(), m.end(), "'\\u{1}'", 'char')
    # Match arms: alternatives and whole arms.
    for m in re.finditer(r'\n(\s*)(\|?[^\n{};]*?) \| ([^\n{};]*?)(?= (?:if [^\n]*)?=>)', b):
        add(m.start(2), m.end(3), src[m.start(2):m.end(2)], 'alternative')
        add(m.start(2), m.end(3), src[m.start(3):m.end(3)], 'alternative')
    for m in re.finditer(r'\n(\s+)(?!_)([^\n;]*?) => ([^\n{]*,)\n', b):
        if '=>' not in m[3]:
            add(m.start(2), m.end(3), '', 'delete arm')
    for m in re.finditer(r'\n\s+(?!_)([^\n;=]*?) => \{', b):
        j = close(b, m.end() - 1)
        add(m.start(1), j, '', 'delete arm')
    # Errors not passed on.
    for m in re.finditer(r'(?<=[;{}])\s+(?!let|return)([a-z_][^;{}]*)\?;', b):
        add(m.start(1), m.end(), f'let _ = {src[m.start(1):m.end()-2]};', 'error lost')
    # Results replaced.
    for m in re.finditer(r'\bSome\((?![^()]*\) *(?:=>|=[^=]))', b):
        j = close(b, m.end() - 1)
        if j and not re.match(r'\s*(=>|=[^=]|\|)', b[j:]):
            add(m.start(), j, 'None', 'none')
    return out


def sh(cmd, cwd=None, env=ENV, timeout=400):
    # Note: in a group of its own, which is ended as a whole.
    p = subprocess.Popen(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, 'timeout'


pool = queue.Queue()


def try_one(m):
    w = pool.get()
    d = f'{MUT}/w{w}'
    try:
        p = f"{d}/{m['file']}"
        src = open(p).read()
        i, j = m['at'], m['end']
        open(p, 'w').write(src[:i] + m['new'] + src[j:])
        try:
            env = dict(ENV, CARGO_TARGET_DIR=d + '/target')
            rc, o = sh('cargo check --offline -q', cwd=d, env=env)
            if rc:
                return 'build'
            rc, o = sh('ulimit -v 8000000; cargo test --workspace --offline -q --lib --tests -- --test-threads 2', cwd=d, env=env, timeout=120)
            if rc:
                return 'tests'
            rc, o = sh('ulimit -v 8000000; cargo test --workspace --offline -q -- --test-threads 2', cwd=d, env=env, timeout=200)
            if rc:
                return 'tests'
            rc, diff = sh(['git', 'diff'], cwd=d)
            m['diff'] = diff
            return 'survived'
        finally:
            open(p, 'w').write(src)
    finally:
        pool.put(w)


if __name__ == '__main__':
    outp = sys.argv[1]
    files = sys.argv[2:] or sorted(f[len('/repo/'):] for f in glob.glob('/repo/src/**/*.rs', recursive=True) + glob.glob('/repo/genco-macros/src/*.rs'))
    done = json.load(open(outp)) if os.path.exists(outp) else {}
    todo = []
    for f in files:
        src = open('/repo/' + f).read()
        for i, j, new, what in mutants(f, src):
            k = hashlib.sha1(f'{f}:{i}:{j}:{new}'.encode()).hexdigest()[:12]
            m = dict(id=k, file=f, at=i, end=j, new=new, what=what, line=src.count('\n', 0, i) + 1, old=src[i:j])
            if k not in done:
                todo.append(m)
    random.Random(1).shuffle(todo)
    print(len(todo), 'to try', flush=True)
    if os.environ.get('LIST'):
        for m in todo:
            print(m['file'], m['line'], m['what'], repr(m['old'][:60]), '->', repr(m['new'][:60]))
        sys.exit()
    head = sh('git rev-parse HEAD', cwd='/repo')[1]
    for i in range(N):
        d = f'{MUT}/w{i}'
        if os.path.exists(d) and sh('git rev-parse HEAD', cwd=d)[1] != head:
            shutil.rmtree(d)
        if not os.path.exists(d):
            sh(['cp', '-a', '/repo', d])
        sh(['git', 'checkout', '-q', '--', '.'], cwd=d)
        pool.put(i)
    with cf.ThreadPoolExecutor(N) as ex:
        fs = {ex.submit(try_one, m): m for m in todo}
        for n, fu in enumerate(cf.as_completed(fs)):
            m = fs[fu]
            m['status'] = fu.result()
            done[m['id']] = m
            if n % 20 == 0 or m['status'] == 'survived':
                json.dump(done, open(outp + '.new', 'w'))
                os.replace(outp + '.new', outp)
                print(n, len(todo), {s: sum(x['status'] == s for x in done.values()) for s in ('build', 'tests', 'survived')}, flush=True)
    json.dump(done, open(outp, 'w'), indent=0)

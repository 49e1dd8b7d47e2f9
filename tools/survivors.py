#!/usr/bin/env python3
"""survivors.py MUTANTS.json OUT.json: run the checks against the mutants which tools/mutate.py kept.

Checks are run until one reports a violation. What's MISSED is either a gap or
a change which makes no difference."""
import json, os, re, sys, threading, queue, time
sys.path.insert(0, os.path.dirname(__file__))
import recheck

FOR = [
    (r'src/fmt/(config|cursor|formatter)', 'C01 C02 C16 C26 C15 C03 C23'),
    (r'src/fmt/', 'C03 C01 C02 C26'),
    (r'src/tokens/format_into', 'C21 C20 C03 C04'),
    (r'src/tokens/tokens', 'C01 C02 C04 C16 C24 C26 C05'),
    (r'src/tokens/', 'C14 C24 C26 C04 C20 C21 C16 C05'),
    (r'src/macros', 'C04 C05 C26 C06 C24'),
    (r'src/lang/mod', 'C14 C26 C15 C04 C05 C09 C03'),
    (r'src/lang/rust', 'C06 C14 C05 C22 C24 C03'),
    (r'src/lang/js', 'C07 C14 C15 C05 C22 C24 C03'),
    (r'src/lang/python', 'C08 C14 C05 C22 C24 C03'),
    (r'src/lang/java/mod', 'C09 C14 C05 C22 C24 C03'),
    (r'src/lang/csharp/mod', 'C10 C14 C05 C22 C24 C03'),
    (r'src/lang/(java|csharp|dart)/.*comment', 'C23'),
    (r'src/lang/(go|c)\.', 'C11 C14 C05 C22 C24 C03'),
    (r'src/lang/dart/mod', 'C12 C14 C15 C05 C22 C24 C03'),
    (r'src/lang/swift', 'C12 C14 C05 C22 C24 C03'),
    (r'src/lang/nix', 'C13 C14 C05 C22 C24 C03'),
    (r'genco-macros/src/string_parser', 'C25 C18 C15 C17 C28'),
    (r'genco-macros/src/(encoder|fake|cursor)', 'C17 C18 C19 C28 C25 C20 C27'),
    (r'genco-macros/src/', 'C18 C28 C19 C17 C20 C25 C15 C27'),
]
# Files to start with, in no order.
FIRST = os.environ.get('FIRST') and re.compile(os.environ['FIRST'])
ALL = 'C01 C02 C03 C04 C16 C21 C26'


def props(f):
    for pat, p in FOR:
        if re.match(pat, f):
            return p.split()
    return ALL.split()


def run(i, m):
    pd = f'/tmp/w/mut/p{i}.diff'
    open(pd, 'w').write(m['diff'])
    out = recheck.boxed(i, props(m['file']), pd)
    if isinstance(out, str):
        return out, {}
    unsure = any('rc=0' not in r for r in out.values())
    return next((p for p, r in out.items() if 'CAUGHT' in r), 'UNSURE' if unsure else 'MISSED'), out


if __name__ == '__main__':
    src, dst = sys.argv[1:3]
    N = int(os.environ.get('N', '2'))
    B = int(os.environ.get('BASE', '6'))
    done = json.load(open(dst)) if os.path.exists(dst) else {}
    retry = set(os.environ.get('RETRY', '').split(',')) - {''}
    lock = threading.Lock()
    busy = set()

    def worker(i):
        while True:
            with lock:
                ms = json.load(open(src))
                left = [m for m in ms.values() if m['status'] == 'survived' and (m['id'] not in done or done[m['id']]['verdict'] in retry) and m['id'] not in busy]
                left.sort(key=lambda m: (FIRST.search(m['file']) is None, m['id']) if FIRST else ('macros' in m['file'], m['file'], m['at']))
                m = left[0] if left else None
                if m:
                    busy.add(m['id'])
            if not m:
                if os.environ.get('FOLLOW'):
                    time.sleep(30)
                    continue
                return
            v, o = run(i, m)
            with lock:
                done[m['id']] = dict(verdict=v, out=o, file=m['file'], line=m['line'], what=m['what'], old=m['old'], new=m['new'])
                json.dump(done, open(dst + '.new', 'w'), indent=0)
                os.replace(dst + '.new', dst)
                print(v, f"{m['file']}:{m['line']}", m['what'], repr(m['old'][:70]), '->', repr(m['new'][:70]), flush=True)

    ts = [threading.Thread(target=worker, args=(B + k,)) for k in range(N)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

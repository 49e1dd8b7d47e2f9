#!/usr/bin/env python3
"""recheck.py [id…]: run the check of each planted bug against a patched copy.

The copies of /repo and /verif are bound over the originals in a mount namespace
of their own, so that neither original is touched and several can run at once.
ALSO=C01,C02 runs further checks, PLAIN=1 leaves the patch out."""
import concurrent.futures as cf
import json, os, queue, shutil, subprocess, sys

BOX = os.environ.get('BOX', '/tmp/w/box')
N = int(os.environ.get('N', '2'))
SEED = os.environ.get('SEEDED', '/verif/seeded')
# Which copy of /verif to run, to go on editing the original.
FROM = os.environ.get('FROM', '/verif')


def sh(*a, **k):
    return subprocess.run(a, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def fresh(i):
    v, r = f'{BOX}/v{i}', f'{BOX}/r{i}'
    os.makedirs(v + '/.build', exist_ok=True)
    if not os.path.exists(r):
        sh('cp', '-a', '/repo', r)
    if sh('git', 'rev-parse', 'HEAD', cwd=r).stdout != sh('git', 'rev-parse', 'HEAD', cwd='/repo').stdout:
        shutil.rmtree(r)
        sh('cp', '-a', '/repo', r)
    sh('git', 'checkout', '-q', '--', '.', cwd=r)
    for n in os.listdir(FROM):
        if n in ('.git', '.build', 'seeded', 'replay', 'evidence'):
            continue
        s, d = f'{FROM}/{n}', f'{v}/{n}'
        if os.path.isdir(s):
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(s, d, ignore=shutil.ignore_patterns('__pycache__'), copy_function=shutil.copy2)
        else:
            shutil.copy2(s, d)
    if not os.path.exists(v + '/.build/target') and os.path.exists('/verif/.build/target'):
        sh('cp', '-a', '/verif/.build/target', v + '/.build/target')
    return v, r


def boxed(i, prop, patch=None, tier='quick'):
    """Run the checks (a list or one) until one of them reports something."""
    v, r = fresh(i)
    if patch:
        p = sh('git', 'apply', patch, cwd=r)
        if p.returncode:
            return 'DOES NOT APPLY ' + p.stdout
    res = {}
    for one in [prop] if isinstance(prop, str) else prop:
        p = sh('unshare', '-Urm', 'bash', '-c', f'mount --bind {v} /verif && mount --bind {r} /repo && cd /verif && exec python3 run.py {one} {tier}',
               cwd='/', env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
        vio = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        res[one] = f'rc={p.returncode} ' + (f'CAUGHT {vio[0]}' if p.returncode == 1 and vio else 'MISSED ' + p.stdout[-300:].replace('\n', ' | '))
        if 'CAUGHT' in res[one]:
            break
    sh('git', 'checkout', '-q', '--', '.', cwd=r)
    return res[prop] if isinstance(prop, str) else res


if __name__ == '__main__':
    pool = queue.Queue()
    for i in range(N):
        pool.put(i)

    def one(d):
        prop = json.load(open(f'{SEED}/{d}/meta.json'))['property']
        i = pool.get()
        try:
            return d, prop, boxed(i, prop, None if os.environ.get('PLAIN') else f'{SEED}/{d}/patch.diff')
        finally:
            pool.put(i)

    with cf.ThreadPoolExecutor(N) as ex:
        for f in cf.as_completed([ex.submit(one, d) for d in sys.argv[1:] or sorted(os.listdir(SEED))]):
            print(*f.result(), flush=True)

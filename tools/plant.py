#!/usr/bin/env python3
"""plant.py SPEC.py... : validate bug specs; write to /verif/seeded; run check for each"""
import sys, os, subprocess, json, shutil, re, concurrent.futures as cf, queue
REPO='/repo'; SEED='/verif/seeded'
ENV=dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:'+os.environ['PATH'], RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUST_BACKTRACE='0')
BASE=json.load(open('/opt/vp/BASELINE.json'))
DEMO='''#!/bin/bash
# Builds the program beside this file against the genco in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
genco = { path = "$repo" }

[workspace]
TOML
cd "$work"
CARGO_TARGET_DIR="$work/t" timeout 250 cargo run --offline -q
'''
DEMO_REJECT='''#!/bin/bash
# valid.rs has to compile against the genco in the current directory, invalid.rs must not.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src/bin"
cp "$here/valid.rs" "$work/src/bin/valid.rs"
cp "$here/invalid.rs" "$work/src/bin/invalid.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
genco = { path = "$repo" }

[workspace]
TOML
cd "$work"
export CARGO_TARGET_DIR="$work/t"
timeout 250 cargo run --offline -q --bin valid
if timeout 250 cargo build --offline -q --bin invalid; then
    echo "the invalid template was accepted"
    exit 1
fi
'''
bugs=[]
def bug(id, prop, edits, needs, breaks, main, invalid=None):
    bugs.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, invalid=invalid))
def sh(cmd, cwd=None, env=ENV, timeout=900):
    try:
        p=subprocess.run(cmd, shell=isinstance(cmd,str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout'
def parse(log):
    ok=set(); bad=set()
    for l in log.splitlines():
        m=re.match(r'test (.+?) \.\.\. (ok|FAILED|ignored)', l)
        if m: (ok if m[2]=='ok' else bad).add(m[1])
    return ok,bad
pool=queue.Queue()
def validate(b):
    w=pool.get()
    d=f'/tmp/w/plant/w{w}'
    out=f'/tmp/w/plant/seed-{b["id"]}'
    try:
        sh(['git','checkout','-q','--','.'],cwd=d)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        if b['invalid']:
            open(out+'/valid.rs','w').write(b['main'].lstrip()); open(out+'/invalid.rs','w').write(b['invalid'].lstrip())
            open(out+'/demo.sh','w').write(DEMO_REJECT)
        else:
            open(out+'/main.rs','w').write(b['main'].lstrip())
            open(out+'/demo.sh','w').write(DEMO)
        os.chmod(out+'/demo.sh',0o755)
        rc,o=sh(['bash',out+'/demo.sh'],cwd=d)
        if rc!=0: return b, 'DEMO-FAILS-UNCHANGED', o[-3000:]
        for f,old,new in b['edits']:
            p=f'{d}/{f}'; s=open(p).read()
            if s.count(old)!=1: return b, 'EDIT', f'{f}: {s.count(old)} matches of {old!r}'
            open(p,'w').write(s.replace(old,new))
        rc,diff=sh(['git','diff'],cwd=d)
        open(out+'/patch.diff','w').write(diff)
        # blame: at least one removed line from base
        base=0; tot=0
        for f in {e[0] for e in b['edits']}:
            rc,bl=sh(['git','blame','-s','HEAD','--',f],cwd=d)
            hashes=[x.split()[0] for x in bl.splitlines()]
            rc,fd=sh(['git','diff','-U0','--',f],cwd=d)
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
                st=int(m[1]); n=int(m[2]) if m[2] else 1
                for i in range(st, st+n):
                    tot+=1
                    if hashes[i-1].startswith('^'): base+=1
        if base==0: return b, 'NOT-BASE', f'{base}/{tot} removed lines are of base'
        rc,o=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 4', cwd=d, env=dict(ENV, CARGO_TARGET_DIR=d+'/target'))
        ok,bad=parse(o)
        if rc!=0: return b,'TESTS-FAIL', '\n'.join(l for l in o.splitlines() if 'FAILED' in l or 'error' in l)[:1500] or o[-1500:]
        if len(ok)<150: return b,'TESTS-FEW', str(len(ok))+o[-500:]
        rc,o=sh(['bash',out+'/demo.sh'],cwd=d)
        if rc==0: return b,'DEMO-PASSES-PATCHED',''
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']}, open(out+'/meta.json','w'), indent=1)
        return b,'OK', '\n'.join(o.strip().splitlines()[-6:])[-700:] + f'  [{base}/{tot} base lines]'
    except Exception as e:
        return b,'EXC',repr(e)
    finally:
        sh(['git','checkout','-q','--','.'],cwd=d)
        pool.put(w)
sys.path.insert(0,'/verif/tools')
def check(b):
    import recheck
    return recheck.boxed(0, b['prop'], f'{SEED}/{b["id"]}/patch.diff')
if __name__=='__main__':
    only=None
    for a in sys.argv[1:]:
        if a.startswith('only='): only=a[5:].split(','); continue
        exec(compile(open(a).read(),a,'exec'),dict(bug=bug))
    if only: bugs=[b for b in bugs if b['id'] in only]
    N=5
    rc,head=sh('git rev-parse HEAD',cwd=REPO)
    for i in range(N):
        d=f'/tmp/w/plant/w{i}'
        if os.path.exists(d):
            rc,h=sh('git rev-parse HEAD',cwd=d)
            if h!=head: shutil.rmtree(d)
        if not os.path.exists(d): sh(['cp','-a',REPO,d])
        pool.put(i)
    good=[]
    with cf.ThreadPoolExecutor(N) as ex:
        for fu in cf.as_completed([ex.submit(validate,b) for b in bugs]):
            b,st,msg=fu.result()
            print(f'== {b["id"]} ({b["prop"]}): {st}', msg if st!='OK' else msg.replace('\n',' | ')[:300], flush=True)
            if st=='OK':
                dst=f'{SEED}/{b["id"]}'
                shutil.rmtree(dst,ignore_errors=True); shutil.copytree(f'/tmp/w/plant/seed-{b["id"]}',dst); good.append(b)
    res={}
    rp='/tmp/w/plant/results.json'
    if os.path.exists(rp): res=json.load(open(rp))
    for b in sorted(good,key=lambda b:b['id']):
        r=check(b); res[b['id']]=r
        print(f'## {b["id"]}: {r}', flush=True)
        json.dump(res,open(rp,'w'),indent=1)

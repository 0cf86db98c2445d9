#!/usr/bin/env python3
"""Development tool: create and verify planted bugs.
   seed.py make            (re)write /verif/seeded from tools/bugs.py
   seed.py verify ID...    in a scratch copy of /repo: patch applies, builds, baseline tests pass, demo passes/fails, check catches it
"""
import json,os,subprocess,sys,shutil
sys.path.insert(0,os.path.dirname(__file__))
from bugs import BUGS
ROOT='/verif'; SW='/tmp/sw'
DEMO='''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with cwd = the repository
HERE="$(cd "$(dirname "$0")" && pwd)"; REPO="$PWD"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"; cp "$HERE/demo.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
[profile.dev]
opt-level = 1
T
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null
cd "$W" && CARGO_TARGET_DIR="$W/target" timeout 250 cargo run --offline --quiet
'''
DEPS={'multicalc':'multicalc = { path = "$REPO/crates/multicalc", features = ["alloc"] }','robot':'multicalc = { path = "$REPO/crates/multicalc", features = ["alloc"] }\nmulticalc-robot-model = { path = "$REPO/crates/multicalc-robot-model" }'}
def make():
    for b in BUGS:
        d=f'{ROOT}/seeded/{b["id"]}'; os.makedirs(d,exist_ok=True)
        f=b['file']; src=open(f'/repo/{f}').read()
        out=src
        for old,new in b['edits']:
            if out.count(old)!=1: print('EDIT NOT UNIQUE',b['id'],out.count(old),repr(old[:60])); break
            out=out.replace(old,new)
        else:
            a=f'/tmp/seed_a'; os.makedirs(a,exist_ok=True); open(a+'/o','w').write(src); open(a+'/n','w').write(out)
            r=subprocess.run(['diff','-u','--label','a/'+f,'--label','b/'+f,a+'/o',a+'/n'],capture_output=True,text=True).stdout
            open(d+'/patch.diff','w').write(r); open(d+'/demo.rs','w').write(b['demo']); open(d+'/demo.sh','w').write(DEMO%DEPS[b.get('dep','multicalc')]); os.chmod(d+'/demo.sh',0o755)
            json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
def sh(c,**k): return subprocess.run(['bash','-c',c],capture_output=True,text=True,**k)
def verify(ids):
    if not os.path.exists(SW): sh(f'cp -a /repo {SW}')
    base=set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('tests') or [])
    for i in ids:
        b=[x for x in BUGS if x['id']==i][0]; d=f'{ROOT}/seeded/{i}'
        sh(f'rsync -a --delete --exclude target /repo/ {SW}/ 2>/dev/null || (cd {SW} && git fetch -q /repo && git checkout -q -f FETCH_HEAD)')
        ir=f'{ROOT}/tools/inrepo.sh {SW} '
        d0=sh(f'{ir} bash {d}/demo.sh')
        ap=sh(f'cd {SW} && git apply {d}/patch.diff')
        if ap.returncode: print(i,'PATCH FAILS',ap.stderr); continue
        d1=sh(f'{ir} bash {d}/demo.sh')
        sh(f'{ir} bash /opt/vp/build.sh'); t=sh(f'{ir} bash /opt/vp/test.sh /tmp/seed_t.json')
        try: r=json.load(open('/tmp/seed_t.json')); np,nf=len(r['passed']),r['failed']
        except Exception as e: np,nf=0,[str(e),t.stderr[-300:]]
        c=sh(f'VERIF_SEED=1 VERIF_TIER=quick VERIF_TARGET=/tmp/sw.target {ir} {ROOT}/check.sh {b["property"]}')
        v=[l for l in c.stdout.splitlines() if 'VIOLATION' in l]
        print(i,b['property'],'demo',d0.returncode,d1.returncode,'tests',np,'failed',nf[:4],'check',c.returncode,v[:3],c.stdout[-300:] if not v else '',flush=True)
        if d0.returncode: print(d0.stderr[-500:])
if sys.argv[1]=='make': make()
else: verify(sys.argv[2:] or [b['id'] for b in BUGS])

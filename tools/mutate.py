#!/usr/bin/env python3
"""Development tool: mutation testing of the checks.
   mutate.py OUT PROP:file[,file...] ... [-n PERFILE] [-w WORKERS] [-s SEED]
Each mutant is tried against the property's quick check; those the check misses are tried against the repository's own tests;
those that survive both are written to OUT."""
import sys,re,random,os,subprocess,threading,queue,shutil,time
args=sys.argv[1:]; OUT=args.pop(0); n=30; w=3; seed=1; jobs=[]
while args:
    a=args.pop(0)
    if a=='-n': n=int(args.pop(0))
    elif a=='-w': w=int(args.pop(0))
    elif a=='-s': seed=int(args.pop(0))
    else: jobs.append(a)
rng=random.Random(seed)
SWAPS=[(' + ',' - '),(' - ',' + '),(' * ',' / '),(' / ',' * '),(' < ',' <= '),(' > ',' >= '),(' <= ',' < '),(' >= ',' > '),(' < ',' > '),(' > ',' < '),(' == ',' != '),(' != ',' == '),(' && ',' || '),(' || ',' && '),('.min(','.max('),('.max(','.min('),('T::ONE','T::TWO'),('T::HALF','T::ONE'),('T::ZERO','T::ONE'),('T::TWO','T::ONE'),('.abs()',''),('.sin()','.cos()'),('.cos()','.sin()'),('= -','= '),('(-','('),('+= ','-= '),('-= ','+= '),('+= ','= '),('..=','..'),('.rev()',''),('.transpose()',''),('true','false'),('false','true'),('.clamp(','.max('),('.sqrt()',''),('!','')]
def mutants(path):
    src=open('/repo/'+path).read().split('\n'); res=[]
    end=len(src)
    for i,l in enumerate(src):
        if l.startswith('#[cfg(test)]'): end=i; break
    for i,l in enumerate(src[:end]):
        st=l.strip()
        if not st or st.startswith('//') or st.startswith('#[') or st.startswith('use ') or 'fn ' in st or st.startswith('impl') or st.startswith('where') or 'debug_assert' in st or st.startswith('pub struct') or 'const ' in st and '<' in st: continue
        code=l.split('//')[0]
        for a,b in SWAPS:
            p=-1
            while True:
                p=code.find(a,p+1)
                if p<0: break
                if a=='!' and (p+1>=len(code) or not (code[p+1].isalpha() or code[p+1]=='(') or (p and code[p-1].isalpha())): continue
                if a in ('true','false') and (code[p-1:p].isalnum() or code[p+len(a):p+len(a)+1].isalnum()): continue
                res.append((i,code[:p]+b+code[p+len(a):]))
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',code): res.append((i,code[:m.start()]+str(int(m.group(1))+1)+code[m.end():]))
        for m in re.finditer(r'(?<![\w.])(\d+\.\d+)(?![\w])',code): res.append((i,code[:m.start()]+str(float(m.group(1))*1.5+0.1)+code[m.end():]))
        m=re.match(r'^(\s*)(\} else )?if (.*) \{$',code)
        if m and ' let ' not in code: res.append((i,f'{m.group(1)}{m.group(2) or ""}if false && ({m.group(3)}) {{')); res.append((i,f'{m.group(1)}{m.group(2) or ""}if true || ({m.group(3)}) {{'))
        if st.endswith(';') and not st.startswith('let ') and not st.startswith('return') and not st.startswith('pub ') and not st.startswith('const ') and st.count('(')==st.count(')') and st[0] not in ')}]': res.append((i,l[:len(l)-len(l.lstrip())]+'// deleted'))
    return src,res
q=queue.Queue(); lock=threading.Lock(); stats={}
for j in jobs:
    prop,files=j.split(':')
    for f in files.split(','):
        path=f if f.startswith('crates') else 'crates/multicalc/src/'+f
        src,ms=mutants(path); rng.shuffle(ms)
        for i,l in ms[:n]: q.put((prop,path,src,i,l))
total=q.qsize(); print('mutants',total,flush=True)
def sh(c,t): 
    try: return subprocess.run(['bash','-c',c],capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired: return None
def worker(k):
    sw=f'/tmp/mw{k}'
    sh(f'rm -rf {sw}; mkdir -p {sw}; rsync -a --exclude target --exclude .git /repo/ {sw}/',100)
    while True:
        try: prop,path,src,i,l=q.get_nowait()
        except queue.Empty: break
        mut=list(src); mut[i]=l; open(f'{sw}/{path}','w').write('\n'.join(mut))
        c=sh(f'ulimit -v 20000000; VERIF_SEED=1 VERIF_TIER=quick VERIF_TARGET=/tmp/mw{k}.target CARGO_BUILD_JOBS=3 nice -n 5 /verif/tools/inrepo.sh {sw} timeout 300 /verif/check.sh {prop}',400)
        rc=None if c is None else c.returncode
        r='killed' if rc==1 else 'nobuild' if rc==2 else 'timeout' if rc in (None,124,3) else 'survived'
        if r=='survived' or (r=='killed' and os.environ.get('CAND')):
            was=r
            t=sh(f'export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR=/tmp/mt{k}.target; cd {sw} && nice -n 5 timeout 600 cargo test --offline -q -p multicalc -p multicalc-robot-model --lib --tests -- --test-threads 4 2>&1 | tail -5; exit ${{PIPESTATUS[0]}}',700)
            if t is None or t.returncode: r='tests-kill' if was=='survived' else 'killed'
            elif was=='killed': r='CANDIDATE'
        with lock:
            stats[(prop,r)]=stats.get((prop,r),0)+1
            if r in ('survived','timeout','CANDIDATE') or (r=='tests-kill' and os.environ.get('ALL')):
                with open(OUT,'a') as f: f.write(f'{r} {prop} {path}:{i+1}\n  - {src[i].strip()}\n  + {l.strip()}\n')
        open(f'{sw}/{path}','w').write('\n'.join(src))
    sh(f'rm -rf {sw} {sw}.target {sw}.logs {sw}.ev {sw}.rp',100)
ts=[threading.Thread(target=worker,args=(k,)) for k in range(w)]
[t.start() for t in ts]; [t.join() for t in ts]
with open(OUT,'a') as f: f.write(f'STATS {sorted(stats.items())}\n')
for k in range(w): sh(f'rm -rf /tmp/mt{k}.target',100)

#!/usr/bin/env python3
"""seed.py verify <id>…  – confirm a planted bug in a scratch copy: applies, builds, tests pass, demo passes without and fails with it.
seed.py catch <id>… [--all] – apply to /repo, run the quick check of its property (or all checks), revert."""
import json, os, subprocess, sys, time
V=os.environ.get('VROOT','/verif'); R=os.environ.get('RROOT','/repo'); S='/tmp/seedcopy'
def sh(cmd, cwd=None, timeout=1800, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def sync():
    os.makedirs(S, exist_ok=True)
    sh(f'rsync -a --delete --exclude /target {R}/ {S}/' if sh('command -v rsync').returncode==0 else
       f'cd {S} && find . -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {{}} + && tar -C {R} --exclude=./target -c . | tar -x -C {S}')
    if not os.path.isdir(S+'/target'): sh(f'cp -a {R}/target {S}/target')
ENV='. /opt/vp/env.sh; '
def build(): return sh(ENV+'cargo test --workspace --all-features --no-run --offline', cwd=S)
def tests():
    return sh(ENV+'cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 1', cwd=S)
def demo(i):
    t=time.time(); r=sh(f'bash {V}/seeded/{i}/demo.sh', cwd=S, timeout=400); return r, time.time()-t
def verify(i):
    sync(); ok=True
    b=build(); assert b.returncode==0, b.stdout[-2000:]
    r,t=demo(i); print(f'{i}: demo without: exit {r.returncode} in {t:.0f}s')
    if r.returncode!=0: print(r.stdout[-3000:]); ok=False
    a=sh(f'git apply {V}/seeded/{i}/patch.diff', cwd=S)
    if a.returncode: print(i,'patch does not apply',a.stdout); return False
    b=build()
    if b.returncode: print(i,'does not build',b.stdout[-3000:]); ok=False
    else:
        x=tests(); fails=[l for l in x.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
        print(f'{i}: tests exit {x.returncode}', fails)
        if x.returncode: print(x.stdout[-1500:]); ok=False
        r,t=demo(i); print(f'{i}: demo with: exit {r.returncode} in {t:.0f}s'); print('   ', r.stdout.strip()[-400:])
        if r.returncode==0: ok=False
    sh('git checkout -- .', cwd=S)
    print(i, 'GOOD' if ok else 'BAD'); return ok
def catch(i, allc):
    prop=json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    if sh('git status --porcelain',cwd=R).stdout.strip(): sys.exit('/repo is not clean')
    a=sh(f'git -C {R} apply {V}/seeded/{i}/patch.diff')
    if a.returncode: print(i,'patch does not apply',a.stdout); return False
    try:
        props=[prop]
        if allc: props=[c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks']]
        res=[]
        for p in props:
            t=time.time(); r=sh(f'bash check.sh {p} quick', cwd=V, timeout=1000)
            res.append((p,r.returncode))
            if p==prop:
                print(f'{i}: {p} exit {r.returncode} in {time.time()-t:.0f}s', 'CAUGHT' if r.returncode==1 and f'VIOLATION property={p}' in r.stdout else 'MISSED')
                if r.returncode==1: print('   ', '\n    '.join([l for l in r.stdout.splitlines() if '--- ' in l or 'failed' in l][:2]), r.stdout.split('failed\n',1)[-1][:300])
        if allc: print('   caught by', [p for p,c in res if c==1], 'errors', [p for p,c in res if c not in (0,1)])
    finally:
        sh(f'git -C {R} checkout -- .')
cmd=sys.argv[1]; ids=[a for a in sys.argv[2:] if not a.startswith('--')]
if ids==['all']: ids=sorted(os.listdir(V+'/seeded'))
for i in ids:
    verify(i) if cmd=='verify' else catch(i,'--all' in sys.argv)

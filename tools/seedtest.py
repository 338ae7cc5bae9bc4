#!/usr/bin/env python3
"""Validate planted bugs: seedtest.py [--checks-only|--no-checks] ID...  (uses /tmp/seedwt as scratch copy; runs checks against /repo with the patch applied and reverted)"""
import sys,subprocess,json,os,shutil,time
args=[a for a in sys.argv[1:] if not a.startswith('--')]
flags=set(a for a in sys.argv[1:] if a.startswith('--'))
V='/verif/seeded'
ids=args or sorted(os.listdir(V))
def sh(cmd,cwd=None,env=None,t=900):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    return p.returncode,p.stdout
base=json.load(open('/opt/vp/BASELINE.json'))
W='/tmp/seedwt'
for i in ids:
    d=f'{V}/{i}'; meta=json.load(open(f'{d}/meta.json')); prop=meta['property']
    res=[]
    rc,o=sh(f'git -C /repo apply --check {d}/patch.diff')
    if rc: print(i,prop,'PATCH DOES NOT APPLY',o); continue
    sh('git -C /repo checkout -- .')
    if '--checks-only' not in flags:
        rc,o=sh(f'bash {d}/demo.sh',cwd='/repo'); res.append(f'demo-clean={rc}')
        if rc: res.append(o[-600:])
    sh(f'git -C /repo apply {d}/patch.diff')
    try:
        if '--checks-only' not in flags:
            rc,o=sh('bash /opt/vp/build.sh',cwd='/repo'); res.append(f'build={rc}')
            if rc: res.append(o[-800:])
            rc,o=sh('bash /opt/vp/test.sh /tmp/seed_out.json',cwd='/repo')
            try:
                r=json.load(open('/tmp/seed_out.json'))
                passed=set(r.get('passed',[])); want=set(base.get('stable',base.get('passed',base.get('tests',[]))))
                res.append(f'missing_tests={sorted(want-passed)[:5]}')
            except Exception as e: res.append(f'tests? {e}')
            rc,o=sh(f'bash {d}/demo.sh',cwd='/repo'); res.append(f'demo-bug={rc}')
            if rc==0 or rc==2: res.append(o[-600:])
        if '--no-checks' not in flags:
            t=time.time()
            rc,o=sh(f'VERIF_SEED=1 bash /verif/run.sh {prop} quick')
            v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
            f=[l for l in o.splitlines() if 'FAILED' in l or 'crash' in l or 'terminate' in l]
            res.append(f'CHECK rc={rc} {"CAUGHT" if rc==1 and v else "*** MISSED ***"} {time.time()-t:.0f}s {f[0][:200] if f else o[-300:] if rc not in (0,1) else ""}')
    finally:
        sh('git -C /repo checkout -- .')
    print(i,prop,*res,flush=True)
sh('bash /opt/vp/build.sh',cwd='/repo')

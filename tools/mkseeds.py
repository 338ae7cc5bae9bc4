#!/usr/bin/env python3
"""(Re)generate /verif/seeded from the specs in tools/seeds/*.py against /repo's HEAD (maintenance helper; no check uses it)."""
import os,sys,json,subprocess,glob,shutil
W='/tmp/mkseed'
def sh(c): return subprocess.check_output(c,shell=True,text=True)
shutil.rmtree(W,ignore_errors=True)
sh(f'git clone -q /repo {W}')
SEEDS={}
def seed(name,prop,edits,needs,breaks,demo,template='demo_template.sh'):
    SEEDS[name]=(prop,edits,needs,breaks,demo,template)
for f in sorted(glob.glob('/verif/tools/seeds/*.py')):
    exec(open(f).read())
only=sys.argv[1:]
for name,(prop,edits,needs,breaks,demo,template) in SEEDS.items():
    if only and name not in only: continue
    sh(f'git -C {W} checkout -q -- .')
    for (f,old,new) in edits:
        p=f'{W}/{f}'; s=open(p).read()
        assert s.count(old)==1,(name,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    d=f'/verif/seeded/{name}'; os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','w').write(sh(f'git -C {W} diff'))
    shutil.copy(f'/verif/tools/{template}',f'{d}/demo.sh')
    if demo is not None: open(f'{d}/main.rs','w').write(demo.lstrip())
    if name in PYDEMOS: open(f'{d}/demo.py','w').write(PYDEMOS[name])
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(f'{d}/meta.json','w'),indent=1)
    print(name)
shutil.rmtree(W)

#!/usr/bin/env python3
"""full.py RESULTS.jsonl OUT.jsonl: runs the whole quick checks on the survivors of run.py, one edit at a time.
Development aid."""
import json, os, sys, subprocess, shutil
from collections import Counter
muts=[json.loads(l) for l in open(sys.argv[1])]
muts=[m for m in muts if m['r']=='SURVIVED']
key=lambda m:(m['file'],m['off'],m['end'],m['new'])
outf=sys.argv[2]; done=set()
if os.path.exists(outf):
    for l in open(outf): done.add(key(json.loads(l)))
DOC=['C05','C03','C16','C13']
def order(m):
    f=m['file']; w=m.get('was','').split(':')[0]
    if 'buffer/' in f: o=['C17','C18','C05']
    elif 'reader/' in f: o=['C19','C05','C03']
    elif 'navigation/' in f: o=['C08','C09','C22']
    elif 'parser/' in f: o=DOC
    else: o=['C20','C24','C25','C02','C03']
    return ([w] if w else [])+[x for x in o if x!=w]
env=dict(os.environ)
for l in subprocess.check_output(['bash','-c','. /opt/vp/env.sh; env'],text=True).splitlines():
    k,_,v=l.partition('='); env[k]=v
d='/tmp/mutf'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/vd')
subprocess.check_call(['cp','-a','/repo',d+'/repo']); shutil.copytree('/verif/harness',d+'/harness')
gm=open(d+'/harness/go.mod').read().replace('=> /repo','=> '+d+'/repo'); open(d+'/harness/go.mod','w').write(gm)
shutil.copy('/verif/KNOWN_FINDINGS.txt',d+'/vd/'); os.makedirs(d+'/vd/evidence',exist_ok=True)
env.update(GOFLAGS='',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off',VERIF_DIR=d+'/vd',VERIF_SEED='1',VERIF_TIER='quick')
of=open(outf,'a')
for m in muts:
    if key(m) in done: continue
    f=d+'/repo/'+m['file']; s=open(f,'rb').read()
    if m.get('cond'):
        # is the condition ever met?
        i=m['new'].index(m['func']+'Alt(',m['new'].index(m['func']+'Alt(')+1); i=m['new'].index('{\n',i)+2
        open(f,'w').write(m['new'][:i]+'\tpanic("probe")\n'+m['new'][i:])
        b=subprocess.run(['go','build','-mod=readonly','-o',d+'/h','.'],cwd=d+'/harness',env=env,capture_output=True,text=True)
        hit=b.returncode!=0
        if not hit:
            ps=['C01']+([m['was'].split(':')[0]] if 'buffer/' in m['file'] or 'reader/' in m['file'] else [])
            for p in ps:
                x=subprocess.run([d+'/h','run',p],env=env,capture_output=True,text=True)
                if x.returncode: hit=True; break
        open(f,'wb').write(s)
        if not hit:
            m['r']='UNREACHED'; of.write(json.dumps(m)+'\n'); of.flush()
            print('UNREACHED',m['file'][7:],m['line'],m['func'],m['cond'],flush=True); continue
    open(f,'wb').write(s[:m['off']]+m['new'].encode()+s[m['end']:])
    r='SURVIVED'
    b=subprocess.run(['go','build','-mod=readonly','-o',d+'/h','.'],cwd=d+'/harness',env=env,capture_output=True,text=True)
    if b.returncode: r='nobuild'
    else:
        for p in order(m):
            x=subprocess.run([d+'/h','run',p],env=env,capture_output=True,text=True)
            if x.returncode: r=p+('' if x.returncode==1 else ':rc%d'%x.returncode); break
    open(f,'wb').write(s)
    m['r']=r; of.write(json.dumps(m)+'\n'); of.flush()
    print(r,m['file'][7:],m['line'],m.get('func',''),m.get('base',m['kind']),repr(m['old'][:50]),'->',repr(m.get('edit',m['new'])[:40]),'| if',m.get('cond'),'| was',m.get('was'),flush=True)
shutil.rmtree(d,ignore_errors=True)

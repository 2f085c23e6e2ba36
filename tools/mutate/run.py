#!/usr/bin/env python3
"""run.py MUTANTS.jsonl OUT.jsonl [total=20] [threads=8] [file-substring]: runs a share (1/total) of each
check against each mutant, stopping at the first that notices it. Development aid."""
import json, os, sys, subprocess, threading, queue, shutil, time, signal
muts=[json.loads(l) for l in open(sys.argv[1])]
outf=sys.argv[2]; total=int(sys.argv[3]) if len(sys.argv)>3 else 20; T=int(sys.argv[4]) if len(sys.argv)>4 else 8
sub=sys.argv[5] if len(sys.argv)>5 else ''
ONLY=os.environ.get('ONLY','').split(',') if os.environ.get('ONLY') else None
muts=[m for m in muts if sub in m['file'] and 'int_hash' not in m['file']]
key=lambda m:(m['file'],m['off'],m['end'],m['new'])
done=set()
if os.path.exists(outf):
    for l in open(outf): done.add(key(json.loads(l)))
muts=[m for m in muts if key(m) not in done]
import random
random.Random(5).shuffle(muts)
W='/tmp/mut'; os.makedirs(W,exist_ok=True)
DOC=['C05','C02','C03','C08','C06','C07','C11','C09','C16','C12','C04','C13','C10','C01','C14','C15','C21','C22','C23']
UNIT=['C17','C18','C19','C20','C24','C25']
def order(f):
    if 'buffer/' in f: return ['C17','C18','C05','C08','C22','C21','C23','C15','C09','C01']
    if 'reader/' in f: return ['C19','C05','C03','C09','C10','C16','C02','C01','C11','C04','C13','C22']
    if 'navigation/' in f: return ['C21','C08','C09','C10','C22','C14','C05','C01','C23','C15','C25','C12','C24']
    if 'common/' in f: return ['C20','C05','C02','C03','C21','C22','C25','C11','C06','C07','C01']
    if 'erroring/' in f: return ['C24','C16','C03','C01']
    if 'modifier/' in f or 'pilot/' in f: return ['C25','C24','C08']
    return DOC
env0=dict(os.environ)
for l in subprocess.check_output(['bash','-c','. /opt/vp/env.sh; env'],text=True).splitlines():
    k,_,v=l.partition('='); env0[k]=v
env0.update(GOFLAGS='',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off',GOMAXPROCS='2')
q=queue.Queue()
for m in muts: q.put(m)
lock=threading.Lock(); of=open(outf,'a'); n=[0]; t0=time.time()
def worker(i):
    d=f'{W}/w{i}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.check_call(['cp','-a','/repo',d+'/repo']); shutil.copytree('/verif/harness',d+'/harness')
    gm=open(d+'/harness/go.mod').read().replace('=> /repo','=> '+d+'/repo'); open(d+'/harness/go.mod','w').write(gm)
    env=dict(env0,GOCACHE=d+'/cache',VERIF_DIR='/verif')
    src={}
    cnt=0
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        cnt+=1
        if cnt%150==0: shutil.rmtree(d+'/cache',ignore_errors=True)
        f=d+'/repo/'+m['file']
        if f not in src: src[f]=open(f,'rb').read()
        s=src[f]
        open(f,'wb').write(s[:m['off']]+m['new'].encode()+s[m['end']:])
        r=None
        b=subprocess.run(['go','build','-mod=readonly','-o',d+'/h','.'],cwd=d+'/harness',env=env,capture_output=True,text=True)
        if b.returncode: r='nobuild'
        else:
            r='SURVIVED'
            for p in (ONLY or order(m['file'])):
                wd=d+'/wd'; shutil.rmtree(wd,ignore_errors=True); os.makedirs(wd)
                pr=subprocess.Popen([d+'/h','worker',p,'quick','1',str((m['off']*7+m['end'])%total),str(total),wd],env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,start_new_session=True)
                st=time.time(); dead=False
                while pr.poll() is None:
                    if os.path.exists(wd+'/fail.json'): dead=True;break
                    if time.time()-st>240: dead='timeout';break
                    time.sleep(0.02)
                if pr.returncode is None:
                    os.killpg(pr.pid,signal.SIGKILL); pr.wait()
                    r=p if dead is True else p+':timeout'; break
                if pr.returncode!=0 or os.path.exists(wd+'/fail.json'):
                    r=p if pr.returncode!=13 else p+':harness'; break
        if r=='SURVIVED':
            t=subprocess.run(['go','test','-vet=off','-timeout','60s','./...'],cwd=d+'/repo',env=env,capture_output=True,text=True)
            r='SURVIVED' if t.returncode==0 else 'tests'
        open(f,'wb').write(s)
        with lock:
            m['r']=r; of.write(json.dumps(m)+'\n'); of.flush(); n[0]+=1
            if n[0]%200==0: print(n[0],len(muts),int(time.time()-t0),flush=True)
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=worker,args=(i,)) for i in range(T)]
[t.start() for t in ts]; [t.join() for t in ts]

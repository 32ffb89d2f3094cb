"""matrix.py [-p PROP,..] IDs... : run each planted bug's own check (or -p) in a scratch copy"""
import json,os,shutil,subprocess,sys,time
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
a=sys.argv[1:]; props=None
if a and a[0]=='-p': props=a[1].split(','); a=a[2:]
if not a: a=sorted(os.listdir('/verif/seeded'))
V='/tmp/mx_verif_%d'%os.getpid(); sh('mkdir %s; cp -a /verif/check.py /verif/artsim %s/; mkdir %s/evidence'%(V,V,V))
for i in a:
    W='/tmp/mx_repo_%d'%os.getpid(); shutil.rmtree(W,ignore_errors=True); sh('cp -a /repo %s'%W)
    pf = i if os.path.exists(i) else '/verif/seeded/%s/patch.diff'%i
    r=sh('git apply %s'%os.path.abspath(pf),cwd=W)
    if r.returncode: print(i,'PATCH FAILS',r.stderr[:200]); continue
    ps=props or [json.load(open('/verif/seeded/%s/meta.json'%i))['property']]
    for p in ps:
        t=time.time()
        r=sh('VERIF_SEED=1 VERIF_TIER=quick ARTSIM_REPO=%s ./check.py %s'%(W,p),cwd=V)
        print(i,p,{0:'missed',1:'CAUGHT'}.get(r.returncode,'ERR %d'%r.returncode),'%.0fs'%(time.time()-t),(r.stdout.strip().splitlines() or [r.stderr[-300:]])[0][:200],flush=True)
    shutil.rmtree(W)
shutil.rmtree(V)

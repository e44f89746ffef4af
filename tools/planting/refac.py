import sys, os, subprocess, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
ALL=['C%02d'%i for i in range(1,23)]
def sh(cmd,cwd=None,env=None,to=1500):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=to); return p.returncode,p.stdout
def prep(b):
    R='/tmp/m/rf/%s/repo'%b['id']; shutil.rmtree('/tmp/m/rf/'+b['id'],ignore_errors=True); os.makedirs('/tmp/m/rf/'+b['id'])
    sh('cp -a /repo '+R)
    for ed in b['edits']:
        f=ed[0]; t=open(R+'/'+f).read()
        if len(ed)==4:
            a=t.find(ed[1]); z=t.find(ed[2],a+1) if a>=0 else -1
            if a<0 or z<0: print('EDIT?',b['id'],ed[1][:60],a,z); return None
            open(R+'/'+f,'w').write(t[:a]+ed[3]+t[z:]); continue
        f,old,new=ed
        if t.count(old)!=1: print('EDIT?',b['id'],f,t.count(old),repr(old[:80])); return None
        open(R+'/'+f,'w').write(t.replace(old,new))
    return R
def run(R,c):
    rc,o=sh('timeout 900 bin/check %s quick'%c,cwd='/verif',env=dict(VERIF_REPO=R,VERIF_SEED='1',VERIF_TIER='quick'))
    return c,rc,o
if __name__=='__main__':
    bs=runpy.run_path(sys.argv[1])['REFS']
    if len(sys.argv)>2: bs=[b for b in bs if b['id'] in sys.argv[2:]]
    jobs=[]
    for b in bs:
        R=prep(b)
        if R: jobs+= [(b['id'],R,c) for c in b.get('checks',ALL)]
    with ThreadPoolExecutor(int(os.environ.get('SLOTS','3'))) as ex:
        for (id,R,c),(c2,rc,o) in zip(jobs,ex.map(lambda j: run(j[1],j[2]),jobs)):
            print(id,c,'quiet' if rc==0 else 'ALARM rc=%d\n      '%rc+'\n      '.join(o.splitlines()[-12:]),flush=True)
    for b in bs: shutil.rmtree('/tmp/m/rf/'+b['id'],ignore_errors=True)

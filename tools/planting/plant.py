"""plant.py FILE [ids...]: FILE defines BUGS = [dict(id,prop,needs,breaks,edits,demo)]"""
import sys, os, subprocess, json, shutil, re, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT='118a3f5a3894a278d46656e2f80258e5ade66d65'
SEED='/verif/seeded'
SH='''#!/bin/bash
# run with cwd at the repository's root, after the build
set -u
here=$(cd "$(dirname "$0")" && pwd)
NUMBA_CACHE_DIR=$(mktemp -d); export NUMBA_CACHE_DIR
trap 'rm -rf "$NUMBA_CACHE_DIR"' EXIT
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
/opt/venv/bin/python -W ignore "$here/demo.py"
'''
def sh(cmd, cwd=None, env=None, to=1200):
    e=dict(os.environ); e.update(env or {})
    try:
        p=subprocess.run(cmd,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=to)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as x: return 99,'TIMEOUT'
def one(b, checkonly=False):
    id=b['id']; w=f'/tmp/m/w/{id}'; log=[]
    shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    sh(f'cp -a /repo {w}/repo')
    R=f'{w}/repo'
    try:
        sd=f'{SEED}/{id}'
        if not checkonly:
            files=set()
            for f,old,new in b['edits']:
                t=open(f'{R}/{f}').read()
                if t.count(old)!=1: return id,'EDIT? %s count %d: %r'%(f,t.count(old),old[:60])
                open(f'{R}/{f}','w').write(t.replace(old,new)); files.add(f)
            rc,d=sh('git diff',cwd=R)
            # blame of removed lines
            for f in files:
                rc,h=sh(f'git diff -U0 {f}',cwd=R)
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',h,re.M):
                    a=int(m[1]); n=int(m[2] or 1)
                    if n==0: log.append('pure-add'); continue
                    rc,bl=sh(f'git blame -l -s HEAD -L {a},{a+n-1} {f}',cwd=R)
                    for l in bl.splitlines():
                        if not l.lstrip('^').startswith(ROOT[:38]): log.append('NOTROOT '+l[:120])
            os.makedirs(sd,exist_ok=True)
            open(sd+'/patch.diff','w').write(d)
            open(sd+'/demo.sh','w').write(SH); os.chmod(sd+'/demo.sh',0o755)
            open(sd+'/demo.py','w').write(b['demo'].lstrip('\n'))
            json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(sd+'/meta.json','w'),indent=1)
            rc,o=sh(f'timeout 300 bash {sd}/demo.sh',cwd='/repo')
            if rc: return id,'DEMO CLEAN FAILS\n'+o[-1500:]
            sh(f'sed "s#/repo#{R}#g" /opt/vp/build.sh > {w}/build.sh; sed "s#/repo#{R}#g; s#/opt/vp/build.sh#{w}/build.sh#" /opt/vp/test.sh > {w}/test.sh')
            rc,o=sh(f'bash {w}/build.sh',cwd=R)
            if rc: return id,'BUILD FAILS\n'+o[-1500:]
            rc,o=sh(f'timeout 300 bash {sd}/demo.sh',cwd=R)
            if rc==0: return id,'DEMO PASSES WITH PATCH '+o[-500:]
            log.append('demo rc %d: %s'%(rc,o.strip().splitlines()[-1][:150] if o.strip() else ''))
            rc,o=sh(f'bash {w}/test.sh {w}/out.json',cwd=R)
            out=json.load(open(f'{w}/out.json')); base=json.load(open('/opt/vp/BASELINE.json'))['stable']
            bad=[t for t in base if t not in out['passed']]
            if bad: return id,'TESTS FAIL %s'%bad
        else:
            rc,o=sh(f'git apply {sd}/patch.diff',cwd=R)
            if rc: return id,'APPLY FAILS '+o
            if 'cpp/' in open(sd+'/patch.diff').read():
                sh(f'sed "s#/repo#{R}#g" /opt/vp/build.sh > {w}/build.sh'); rc,o=sh(f'bash {w}/build.sh',cwd=R)
                if rc: return id,'BUILD FAILS'
        rc,o=sh(f'timeout 900 bin/check {b["prop"]} quick',cwd='/verif',env=dict(VERIF_REPO=R,VERIF_SEED='1',VERIF_TIER='quick'))
        v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
        caught = rc==1 and any('property=%s '%b['prop'] in l+' ' for l in v)
        tail=[l for l in o.splitlines() if l.strip()][-6:]
        return id,('CAUGHT ' if caught else 'MISSED rc=%d '%rc)+b['prop']+' | '+' ; '.join(log)+'\n      '+'\n      '.join(x[:220] for x in tail)
    except Exception as x:
        return id,'ERR %r'%x
    finally:
        shutil.rmtree(w,ignore_errors=True)
if __name__=='__main__':
    if sys.argv[1]=='--recheck':
        ids=sys.argv[2:] or sorted(os.listdir(SEED))
        bugs=[dict(id=i,prop=json.load(open(f'{SEED}/{i}/meta.json'))['property']) for i in ids]; co=True
    else:
        bugs=runpy.run_path(sys.argv[1])['BUGS']; co=False
        if len(sys.argv)>2: bugs=[b for b in bugs if b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get('SLOTS','3'))) as ex:
        for id,r in ex.map(lambda b: one(b,co),bugs):
            print('==',id,r,flush=True)

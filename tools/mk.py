#!/usr/bin/env python3
"""mk.py spec.py [ids...]: builds /verif/seeded/<id>, confirms, runs checks."""
import sys, os, subprocess, json, shutil, importlib.util
from concurrent.futures import ThreadPoolExecutor
import threading
L=threading.Lock(); RES='/verif/tools/caught.json'
LIB=open('/verif/tools/lib.sh').read()
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def ns(w, cmd, timeout=1500): 
    return subprocess.run(["unshare","-Urm","bash","-c","mount --bind %s /repo && cd /repo && %s"%(w,cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def base_blame(f, text):
    out=sh("git -C /repo blame -s -l HEAD -- %s"%f).stdout.splitlines()
    r=[]
    for l in out:
        h=l.split()[0]; code=l.split(')',1)[1][1:]
        r.append((h.startswith('^') , code))
    return r
def one(s):
    i=s['id']; w='/tmp/seedw/'+i
    shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/seedw',exist_ok=True)
    sh("cp -a /repo %s"%w)
    notes=[]
    for e in s['edits']:
        f,old,new=e[:3]; p=w+'/'+f
        t=open(p).read()
        if t.count(old)!=1: return i,'EDIT count %d: %r'%(t.count(old),old[:80])
        open(p,'w').write(t.replace(old,new))
    d='/verif/seeded/'+i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff=sh("git -C %s diff -U3 -- src"%w).stdout
    open(d+'/patch.diff','w').write(diff)
    # blame of removed lines
    bl={}
    f=None; nb=0; nf=0
    for l in diff.splitlines():
        if l.startswith('--- a/'): f=l[6:]; bl.setdefault(f, base_blame(f,''))
        elif l.startswith('-') and not l.startswith('---'):
            m=[b for b,c in bl[f] if c==l[1:]]
            if m and all(m): nb+=1
            elif m and any(m): nb+=1; nf+=1
            else: nf+=1
    notes.append('base-lines-removed=%d fix-lines-removed=%d'%(nb,nf))
    open(d+'/demo.sh','w').write("#!/bin/bash\n"+ '. "$(dirname "$0")/lib.sh"\n' + s['demo'].strip('\n')+"\n")
    open(d+'/lib.sh','w').write(LIB); os.chmod(d+'/demo.sh',0o755)
    for fn,tx in s.get('files',{}).items(): open(d+'/'+fn,'w').write(tx)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(d+'/meta.json','w'), indent=1)
    b=ns(w,"bash /opt/vp/build.sh >/tmp/seedw/%s.blog 2>&1 && bash /opt/vp/test.sh /tmp/seedw/%s.json >/tmp/seedw/%s.tlog 2>&1; bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh > /tmp/seedw/%s.dlog 2>&1; echo DEMO=$?"%(i,i,i,d,i))
    demo=b.stdout.strip().splitlines()[-1]
    try: t=json.load(open('/tmp/seedw/%s.json'%i)); 
    except Exception as e: return i,'BUILD/TEST FAIL '+sh("tail -5 /tmp/seedw/%s.blog"%i).stdout
    notes.append(demo); 
    ok=json.dumps(t)
    notes.append('tests='+ (','.join(sorted(k for k,v in t.items() )) if 0 else ok[:0]+ ('pass' if 'fail' not in ok.lower().replace('"failed": []','').replace('"fail": []','') else ok[:200])))
    c=subprocess.run("cd /repo && timeout 300 bash %s/demo.sh"%d, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    notes.append('CLEAN=%d'%c.returncode)
    if c.returncode: notes.append(c.stdout[-600:])
    if demo=='DEMO=0': notes.append('demo does not fail!')
    return i,' '.join(notes)
def check(s):
    i=s['id']; w='/tmp/seedw/'+i
    res=[]
    for p in s.get('checks',[s['prop']]):
        r=ns(w,"cd /verif && VERIF_JOBS=6 python3 run.py %s"%p)
        v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        res.append('%s rc=%d n=%d'%(p,r.returncode,len(v)))
        open('/tmp/seedw/%s.%s.out'%(i,p),'w').write(r.stdout)
    shutil.rmtree(w, ignore_errors=True)
    with L:
        R=json.load(open(RES)) if os.path.exists(RES) else {}
        R.setdefault(i,{}).update({x.split()[0]: x.split()[1]=='rc=1' for x in res})
        json.dump(R,open(RES,'w'),indent=0,sort_keys=True)
    return i,'; '.join(res)
if __name__=='__main__':
    sp=importlib.util.spec_from_file_location('spec',sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    want=sys.argv[2:]
    S=[s for s in m.SEEDS if not want or s['id'] in want]
    with ThreadPoolExecutor(4) as ex:
        for i,r in ex.map(one,S): print(i,r,flush=True)
    with ThreadPoolExecutor(3) as ex:
        for i,r in ex.map(check,S): print('CHECK',i,r,flush=True)

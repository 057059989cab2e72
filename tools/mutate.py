#!/usr/bin/env python3
"""Run checks against small changes of /repo, each in a scratch copy.
   usage: mutate.py FILE [name ...]   FILE defines M = [(name, props, [(file, old, new[, count])...]), ...]"""
import sys, os, shutil, subprocess, time, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J=int(os.environ.get('J','6'))
def one(m):
    name,props,edits=m
    d='/tmp/mut/'+name
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    for f in ('src','lib','CMakeLists.txt'):
        s='/repo/'+f
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s,d+'/'+f)
    for e in edits:
        f,old,new=e[:3]; n=e[3] if len(e)>3 else 1
        p=d+'/src/'+f; t=open(p).read()
        if t.count(old)<1 or (n==1 and t.count(old)!=1):
            shutil.rmtree(d); return [(name,'-','BADEDIT %s count=%d'%(f,t.count(old)),0)]
        open(p,'w').write(t.replace(old,new))
    out=[]
    for pr in props.split():
        t0=time.time()
        r=subprocess.run(['timeout','900',HERE+'/check',pr,'quick'],env=dict(os.environ,VF_REPO=d),capture_output=True,text=True)
        v=[l for l in (r.stdout+r.stderr).splitlines() if l.startswith(('VIOLATION','INCONCL','ERROR'))]
        out.append((name,pr,'rc=%d %s'%(r.returncode,(v or [''])[0][:110]),time.time()-t0))
        open('/tmp/mut/%s.%s.log'%(name,pr),'w').write(r.stdout+r.stderr)
    shutil.rmtree(d); return out
spec=importlib.util.spec_from_file_location('m',sys.argv[1]); mod=importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
sel=[m for m in mod.M if len(sys.argv)<3 or m[0] in sys.argv[2:]]
os.makedirs('/tmp/mut',exist_ok=True)
with ThreadPoolExecutor(J) as ex:
    for res in ex.map(one,sel):
        for r in res: print('%-14s %-4s %6.1fs %s'%(r[0],r[1],r[3],r[2]),flush=True)

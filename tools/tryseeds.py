#!/usr/bin/env python3
# Runs the check of each planted bug against /repo with the bug applied: tryseeds.py [ID...]. Undoes it afterwards.
import json, os, subprocess, sys, time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=sys.argv[1:] or sorted(os.listdir(V+'/seeded'))
miss=[]
R=V+'/tools/caught.json'
def record(i,text):
    d=json.load(open(R)) if os.path.exists(R) else {}
    d[i]=text; json.dump(dict(sorted(d.items())),open(R,'w'),indent=1)
for i in ids:
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    subprocess.run(['git','-C','/repo','apply',f'{V}/seeded/{i}/patch.diff'],check=True)
    t=time.time()
    try: r=subprocess.run([V+'/check.sh',m['property']],capture_output=True,text=True)
    finally: subprocess.run(['git','-C','/repo','checkout','-q','--','.'],check=True)
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION property='+m['property'])]
    ok=r.returncode==1 and v
    record(i,'caught by '+m['property'] if ok else 'missed')
    if not ok: miss.append(i)
    print(i,m['property'],'CAUGHT' if ok else 'MISSED',r.returncode,'%.0fs'%(time.time()-t),(r.stdout+r.stderr).strip().splitlines()[0][:300] if not ok and (r.stdout+r.stderr).strip() else [l for l in r.stdout.splitlines() if 'VIOLATION' not in l][:1],flush=True)
print('missed',miss)

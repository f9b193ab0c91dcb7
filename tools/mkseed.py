#!/usr/bin/env python3
# Makes and confirms planted bugs: mkseed.py SPEC.py [ID...]
# A spec calls seed(...). The bug is tried in a scratch copy of /repo: it must build, keep the stable tests
# passing, fail its demonstration, and the demonstration must pass without it. Only then it is written to seeded/.
import json, os, shutil, subprocess, sys, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE=json.load(open('/opt/vp/BASELINE.json'))
S=os.environ.get('SEED_SCRATCH','/tmp/sd'); R=S+'/repo'
want=set(sys.argv[2:])
DEMO='''#!/bin/bash
# Exits 0 when the property holds in the tree of the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
cat > "$t/overlay.json" <<EOF
{"Replace": {%(rep)s}}
EOF
timeout 240 go test -vet=off -overlay "$t/overlay.json" %(race)s-run '^TestDemo' -count=1 ./%(pkg)s
'''
def sh(c,cwd=R,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,executable='/bin/bash',**k)
def fresh():
    if not os.path.exists(R):
        os.makedirs(S,exist_ok=True); subprocess.run(['cp','-a','/repo',R],check=True)
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq')
def tests():
    r=sh(". /opt/vp/env.sh; go build ./... && go test -json -vet=off -count=1 -timeout 10m -skip '^TestCheckRingSignature$' ./...")
    bad=[]
    for l in r.stdout.splitlines():
        try: d=json.loads(l)
        except ValueError: continue
        if d.get('Action')=='fail': bad.append((d.get('Package'),d.get('Test')))
    return r.returncode,bad,r.stderr[-800:]
def seed(id,prop,edits,pkg,test,needs,breaks,race=False,extra=None):
    if want and id not in want: return
    fresh()
    out=tempfile.mkdtemp()
    files={'%s/zz_demo_test.go'%pkg:'demo_test.go.txt'}
    open(out+'/demo_test.go.txt','w').write(test)
    for k,(n,src) in (extra or {}).items():
        files[k]=n; open(out+'/'+n,'w').write(src)
    rep=', '.join('"$PWD/%s": "$d/%s"'%kv for kv in files.items())
    open(out+'/demo.sh','w').write(DEMO%dict(rep=rep,race='-race ' if race else '',pkg=pkg)); os.chmod(out+'/demo.sh',0o755)
    c=sh('bash %s/demo.sh'%out)
    if c.returncode!=0: print(id,'DEMO FAILS CLEAN',(c.stdout+c.stderr)[-1500:]); return
    for f,a,b in edits:
        s=open(R+'/'+f).read()
        if s.count(a)!=1: print(id,'EDIT MATCHES',s.count(a),f,repr(a[:60])); return
        open(R+'/'+f,'w').write(s.replace(a,b))
    diff=sh('git diff').stdout
    rc,bad,err=tests()
    if rc or bad: print(id,'TESTS',rc,bad,err); return
    res=[sh('bash %s/demo.sh'%out) for _ in range(3 if race else 1)]
    if any(x.returncode==0 for x in res): print(id,'DEMO PASSES PATCHED',[x.returncode for x in res]); return
    if 'build failed' in res[0].stdout: print(id,'DEMO BUILD',res[0].stdout[-800:],res[0].stderr[-800:]); return
    dst=V+'/seeded/'+id; os.makedirs(dst,exist_ok=True)
    for f in os.listdir(out): shutil.copy(out+'/'+f,dst+'/'+f)
    open(dst+'/patch.diff','w').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(dst+'/meta.json','w'),indent=1)
    shutil.rmtree(out)
    print(id,'OK',[l for l in res[0].stdout.splitlines() if l.strip()][:4])
exec(compile(open(sys.argv[1]).read(),sys.argv[1],'exec'))

#!/usr/bin/env python3
# Says for each planted bug whether the lines it removes are lines of the original commit.
import os,re,subprocess,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root=subprocess.run('git -C /repo rev-list --max-parents=0 HEAD',shell=True,capture_output=True,text=True).stdout.split()[-1]
def blame(f):
    o=subprocess.run(['git','-C','/repo','blame','-l','--root',f],capture_output=True,text=True).stdout.splitlines()
    return [l.split()[0].lstrip('^') for l in o]
import functools
blame=functools.lru_cache(None)(blame)
for i in sys.argv[1:] or sorted(os.listdir(V+'/seeded')):
    orig=mine=0
    for l in open(f'{V}/seeded/{i}/patch.diff').read().splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+') or l.startswith('diff') or l.startswith('index'): continue
        if l.startswith('-'):
            if blame(f)[n-1]==root or root.startswith(blame(f)[n-1]): orig+=1
            else: mine+=1
        n+=1 if 'n' in dir() else 0
    print(i,'original',orig,'ours',mine,'' if orig and not mine else '  <<<')

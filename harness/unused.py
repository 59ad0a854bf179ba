#!/usr/bin/env python3
"""The repository's own build leaves out the files that need packages from the
network, so an unused import or variable there goes unnoticed. Such a file is
built from a copy with the complaint taken away; what the code does is the same.
usage: unused.py BUILD.LOG FIXES WORKDIR   exit 0: more was fixed
FIXES holds lines of overlay entries."""
import os,re,sys
log,fixes,work=sys.argv[1:4]
have={}
if os.path.exists(fixes):
    for l in open(fixes):
        m=re.match(r'"(.*)": "(.*)"$',l.strip())
        if m: have[m[1]]=m[2]
found=False
seen=set()
files={}
back={os.path.normpath(v):k for k,v in have.items()}
for l in open(log,errors='replace'):
    m=re.match(r'(\S+\.go):(\d+):(\d+): (.*)$',l.strip())
    if not m: continue
    f,n,what=os.path.normpath(os.path.join(os.getcwd(),m[1])),int(m[2]),m[4]
    f=back.get(f,f)
    if not f.startswith('/repo/') or (f,n,what) in seen: continue
    imp=re.match(r'("[^"]+") imported(?: as \S+)? and not used',what)
    var=re.match(r'declared and not used: (\w+)',what) or re.match(r'(\w+) declared and not used',what)
    if not imp and not var: continue
    seen.add((f,n,what))
    if f not in files: files[f]=open(have.get(f,f)).read().split('\n')
    ls=files[f]
    if n>len(ls): continue
    t=ls[n-1]
    if imp:
        new=re.sub(r'^(\s*(?:import\s+)?(?:\(\s*)?)(?:[\w.]+\s+)?'+re.escape(imp[1]),lambda k:k[1]+'_ '+imp[1],t)
    else:
        new=t+'\n_ = '+var[1]
    if new==t: continue
    ls[n-1]=new
    found=True
for f,ls in files.items():
    dst=have.setdefault(f,os.path.join(work,'unused-%d.go'%len(have)))
    open(dst,'w').write('\n'.join(ls))
open(fixes,'w').write(''.join('"%s": "%s"\n'%x for x in have.items()))
sys.exit(0 if found else 1)

#!/usr/bin/env python3
# Writes the table of planted bugs into DESIGN.md (between its heading and the paragraph after it).
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows={}
for b in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{b}/meta.json')); rows.setdefault(m['property'],[]).append((b,m['what_it_breaks']))
t='| check | catches |\n|---|---|\n'+''.join(f"| {p} | "+'; '.join(f'{b}: {w}' for b,w in rows[p])+' |\n' for p in sorted(rows))
s=open(V+'/DESIGN.md').read()
a,b=s.split('## Planted bugs\n')
b=b.replace('@TABLE@\n','| check | catches |\n')
i=b.index('| check | catches |'); j=b.index('\n\n',i)
open(V+'/DESIGN.md','w').write(a+'## Planted bugs\n'+b[:i]+t.rstrip('\n')+b[j:])

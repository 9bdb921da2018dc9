#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md (run by hand).
import json,os
h=os.path.dirname(os.path.abspath(__file__))
rows=[]
for b in os.listdir(h+'/seeded'):
    m=json.load(open(f'{h}/seeded/{b}/meta.json')); rows.append((m['property'],b,m['needs']))
t='<!-- seeded -->\n| planted bug | caught by | needs |\n|---|---|---|\n'+''.join('| %s | %s | %s |\n'%(b,p,n.replace('|','\\|')) for p,b,n in sorted(rows))
d=open(h+'/DESIGN.md').read()
i=d.find('<!-- seeded -->'); i=d.index('SEEDED-TABLE') if i<0 else i
open(h+'/DESIGN.md','w').write(d[:i]+t)

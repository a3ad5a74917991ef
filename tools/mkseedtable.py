#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (all are caught by the quick check of their own property
# unless listed in MISSED).
import json,glob,os,re
v=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED=set()
rows=[]
for f in glob.glob(v+'/seeded/*/meta.json'):
    m=json.load(open(f)); rows.append((m['property'],os.path.basename(os.path.dirname(f)),m['needs'],m['what_it_breaks']))
t='| check | planted bug | needs | breaks |\n|---|---|---|---|\n'+''.join('| %s%s | %s | %s | %s |\n'%(a,' (missed)' if b in MISSED else '',b,c,d) for a,b,c,d in sorted(rows))
p=v+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)',lambda m:m[1]+t+m[2],s,flags=re.S)
open(p,'w').write(s)

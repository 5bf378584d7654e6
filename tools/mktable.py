import json,os
rows=["| change | property (its check catches it) | what breaks | needs |","|---|---|---|---|"]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    f=lambda s: s.replace('|','/').replace('\n',' ')[:200]
    rows.append(f"| {d} | {m['property']} | {f(m['what_it_breaks'])} | {f(m['needs'])} |")
p='/verif/DESIGN.md';s=open(p).read()
import re
a,b='<!-- table -->','<!-- end of table -->'
t=a+'\n'+'\n'.join(rows)+'\n'+b
if a in s: s=s[:s.index(a)]+t+s[s.index(b)+len(b):]
else: s=s.replace('\nTABLE\n','\n'+t+'\n')
open(p,'w').write(s)

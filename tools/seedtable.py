# prints the table of planted bugs for DESIGN.md
import json,os
d='/verif/seeded'
rows=[]
for s in os.listdir(d):
    m=json.load(open(f'{d}/{s}/meta.json')); rows.append((m['property'],s,m['what_it_breaks'],m['needs']))
t='| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n'+'\n'.join(f'| {s} | {p} | {b} | {n} |' for p,s,b,n in sorted(rows))
p='/verif/DESIGN.md'; x=open(p).read()
if 'SEEDTABLE' in x: x=x.replace('SEEDTABLE','<!--seeds-->\n'+t+'\n<!--/seeds-->')
else:
    i=x.index('<!--seeds-->'); j=x.index('<!--/seeds-->'); x=x[:i]+'<!--seeds-->\n'+t+'\n'+x[j:]
open(p,'w').write(x)

#!/usr/bin/env python3
# DESIGN.md = head + properties + tail + table of planted bugs (tools/planted.txt: "id result")
import json, os
d=os.path.dirname(os.path.abspath(__file__)); v=os.path.dirname(d)
r=lambda n: open(f'{d}/{n}').read()
res={}
for l in r('planted.txt').splitlines():
    if l.strip(): k,_,x=l.partition(' '); res[k]=x
out=r('design.head.md')+r('design.props.md')+r('design.tail.md')
out+='| change | property | needs | what it breaks | check |\n|---|---|---|---|---|\n'
for i in sorted(os.listdir(f'{v}/seeded')):
    m=json.load(open(f'{v}/seeded/{i}/meta.json'))
    out+=f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(i,'?')} |\n"
out+=r('design.end.md') if os.path.exists(f'{d}/design.end.md') else ''
open(f'{v}/DESIGN.md','w').write(out)

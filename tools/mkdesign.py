#!/usr/bin/env python3
"""DESIGN.md from properties.jsonl, known_findings.txt, tools/design_body.md and seeded/*/meta.json (plus tools/caught.txt)."""
import json, glob, os
V='/verif/'
props=[json.loads(l) for l in open(V+'properties.jsonl')]
body=open(V+'tools/design_body.md').read()
secs={}; cur=None; head=[]; tail=[]
for l in body.split('\n'):
    if l.startswith('## C') and l[4:6].isdigit(): cur=l[3:6]; secs[cur]=[]
    elif l.startswith('# TAIL'): cur='T'
    elif cur is None: head.append(l)
    elif cur=='T': tail.append(l)
    else: secs[cur].append(l)
out='\n'.join(head).rstrip()+'\n\n# Properties\n\n'
for p in props:
    out+=f"## {p['id']} {p['title']}\n\n*{p['statement']}*\n\n"+'\n'.join(secs.get(p['id'],[])).strip()+'\n\n'
t='\n'.join(tail)
caught={}
for l in open(V+'tools/caught.txt'):
    a=l.split()
    if a: caught[a[0]]=' '.join(a[1:])
rows='| id | breaks | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V+'seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    rows+=f"| {i} | {m['property']}: {m['what_it_breaks']} | {m['needs']} | {caught.get(i,'?')} |\n"
fx='\n'.join('- '+l.strip() for l in open(V+'known_findings.txt') if l.startswith('fixed:'))
kn='\n'.join('- '+l.strip() for l in open(V+'known_findings.txt') if l.startswith('known:'))
out+=t.replace('@SEEDED@',rows).replace('@FIXED@',fx).replace('@KNOWN@',kn)
open(V+'DESIGN.md','w').write(out.rstrip()+'\n')

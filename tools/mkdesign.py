#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the table of planted bugs and the scenario table (from evidence/, if all are there)."""
import json,glob,os,re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s=open('DESIGN.md').read()
def put(mark,text):
    global s
    a,b=f'<!-- {mark} -->',f'<!-- /{mark} -->'
    i,j=s.index(a)+len(a),s.index(b)
    s=s[:i]+'\n'+text+s[j:]
rows=['| planted bug | check | needs | outcome |','|---|---|---|---|']
res=json.load(open('tools/planted.json'))
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[1]
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i,'caught')} |")
put('PLANTED','\n'.join(rows)+'\n')
if len(glob.glob('evidence/C*.json'))==30:
    rows=['| check | scenario | executions | states | transitions | bound completed |','|---|---|---|---|---|---|']
    ok=True
    for f in sorted(glob.glob('evidence/C*.json')):
        d=json.load(open(f))['coverage']
        for q in d['scenarios']:
            rows.append(f"| {f[9:12]} | {q.get('scenario')} | {q.get('executions')} | {q.get('states')} | {q.get('transitions')} | {q.get('completed_bound','')} |")
    put('SCENARIOS','\n'.join(rows)+'\n')
open('DESIGN.md','w').write(s)

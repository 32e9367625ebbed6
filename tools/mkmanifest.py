#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a register() call in harness/."""
import json,re,glob,subprocess,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
src="".join(open(f).read() for f in glob.glob('harness/*.go'))
have=set(re.findall(r'ID:\s*"(C\d\d)"',src))
props=[json.loads(l) for l in open('properties.jsonl')]
T={}
exec(open('tools/techniques.py').read(),T)
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        t,n=T['TECH'].get(i,(T['DEF_T'],T['DEF_N']))
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":t,"level":"model_checking","level_note":n})
    else: na.append({"property":i,"reason":T['NA'].get(i,"no check built yet")})
m={"version":1,"setup_cmd":"true","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: each check instruments a scratch copy of /repo's working tree (tools/instr) and removes it. Genuine defects found and repaired are listed in known-findings.txt."}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write("\n")
print(len(checks),"checks",len(na),"n/a")

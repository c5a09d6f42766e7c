#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and checks/*/check.json
import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(H+"/properties.jsonl")]
na_reason={}
p=H+"/tools/not_applicable.json"
if os.path.exists(p): na_reason=json.load(open(p))
checks=[];na=[]
for x in props:
    i=x["id"]; c="%s/checks/%s/check.json"%(H,i)
    if os.path.exists(c) and i not in na_reason:
        m=json.load(open(c))
        checks.append({"property":i,"quick_cmd":"./run.py %s --tier quick"%i,"thorough_cmd":"./run.py %s --tier thorough"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":m["technique"],"level":"model_checking",
          "level_note":m["level_note"]+" Bounds: "+m["bounds"]+"."})
    else: na.append({"property":i,"reason":na_reason.get(i,"no check has been built for it yet")})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: every check compiles its exploration programs against the headers and sources of /repo's working tree. Genuine defects are repaired by fix: commits or listed in known_findings.txt."},
 open(H+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")

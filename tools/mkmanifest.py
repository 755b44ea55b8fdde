#!/usr/bin/env python3
import json,re
import os; V=os.environ.get('VROOT','/verif')
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
src=open(V+'/harness/src/lib.rs').read()
built=set(re.findall(r'"(C\d\d)" =>',src))
tech=json.load(open(V+'/tools/technique.json'))
m={"version":1,"setup_cmd":"bash check.sh --build","checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in built:
        t=tech.get(i,{})
        m["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":t.get("technique","property-based testing with proptest"),"level":t.get("level","exploration"),"level_note":t.get("note","generated cases against an explicit oracle; see evidence for counts")})
    else:
        m["not_applicable"].append({"property":i,"reason":"the check for this property is not built yet"})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')

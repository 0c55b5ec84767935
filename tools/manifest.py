import json,sys,os
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
info=json.load(open('/verif/checks.json'))
checks=[];na=[]
for p in P:
    i=p['id']
    if i in info:
        d=info[i]
        checks.append({"property":i,"quick_cmd":f"python3 check.py {i}","thorough_cmd":f"python3 check.py {i}",
          "evidence_file":f"evidence/{i}.json","technique":d['technique'],"level":d.get('level','exploration'),"level_note":d['note']})
    else:
        na.append({"property":i,"reason":"not built yet: its monitor is under construction"})
m={"version":1,"setup_cmd":"python3 check.py --setup","checks":checks,"not_applicable":na,
"notes":"Black-box monitors: no hooks in /repo. VERIF_SEED and VERIF_TIER select the run; see DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),len(na))

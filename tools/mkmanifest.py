import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
tech=json.load(open(root+'/tools/techniques.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in tech:
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",technique=tech[i][0],level="model_checking",level_note=tech[i][1]))
    else:
        na.append(dict(property=i,reason="its specification is not built yet"))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="Every check runs TLC on specs/ and binds the specification to the code built from /repo's working tree; see DESIGN.md. No hooks are needed in /repo.")
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1,ensure_ascii=False);open(root+'/MANIFEST.json','a').write('\n')

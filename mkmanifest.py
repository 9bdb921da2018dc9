#!/usr/bin/env python3
# Writes MANIFEST.json from the table below (run by hand; output is committed).
import json,os,re
here=os.path.dirname(os.path.abspath(__file__))
notes=json.load(open(os.path.join(here,'levels.json')))
ids=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl')) if l.strip()]
checks=[];na=[]
for i in ids:
    if os.path.exists(os.path.join(here,'harness',i.lower()+'.go')):
        t,n=notes[i]
        checks.append({"property":i,"quick_cmd":"./check "+i,"thorough_cmd":"VERIF_TIER=thorough ./check "+i,
          "evidence_file":"evidence/%s.json"%i,"technique":t,"level":"exploration","level_note":n})
    else:
        na.append({"property":i,"reason":"check not written yet"})
m={"version":1,"setup_cmd":"./setup","checks":checks,"not_applicable":na,
 "notes":"No hooks were added to /repo: the monitors observe exported entry points and the built command; the harness is compiled into the module through a go build overlay."}
open(os.path.join(here,'MANIFEST.json'),'w').write(json.dumps(m,indent=1)+"\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of registered checks (run by hand)."""
import json,subprocess,sys
claimed=set(sys.argv[1:])
FAULT={"C14"}
RACE={"C17","C18"}
checks=[];na=[]
NOTE=json.load(open('/verif/tools/notes.json'))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); i=d['id']
    if claimed and i not in claimed:
        na.append({"property":i,"reason":"check still being built"}); continue
    t,n=NOTE[i]
    checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
      "evidence_file":"evidence/%s.json"%i,"technique":t,
      "level":"fault_enumeration" if i in FAULT else "exploration","level_note":n})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"verif","enable":"go build -tags verif (check.sh)","source_commits":[subprocess.check_output(["git","-C","/repo","log","--format=%H","--grep","only with the build tag verif"],text=True).strip()]},"checks":checks,"not_applicable":na,
   "notes":"Every check executes the real code from /repo's working tree under generated workloads while monitors written in Go (harness/) compare what they observe with an independent oracle; C17 and C18 also run under Go's race detector. See DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)

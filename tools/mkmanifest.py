import json
props=[json.loads(l) for l in open('properties.jsonl')]
NA={"C22":"the code is Clojure: no deductive verifier for it exists here, and Clojure itself is not installed",
"C23":"the code is Clojure: no deductive verifier for it exists here, and Clojure itself is not installed",
"C24":"the code is Clojure: no deductive verifier for it exists here, and Clojure itself is not installed"}
# what is decided by the verifier for which property: (level, note)
exec(open('tools/levels.py').read())
checks=[]
for p in props:
    i=p["id"]
    if i in NA: continue
    level,note=LEVELS.get(i,("exploration",BOUNDED_NOTE))
    checks.append({"property":i,"quick_cmd":f"python3 tools/check.py {i}","thorough_cmd":f"python3 tools/check.py {i} --thorough",
      "technique":TECH_PROOF if level=="proof" else TECH_BOUNDED,"level":level,"level_note":note})
m={"version":1,"setup_cmd":"python3 tools/setup.py","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo: the contracts are put into a copy of the source on every run. See DESIGN.md."}
json.dump(m,open('MANIFEST.json','w'),indent=1)

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have harnesses."""
import json, os, glob, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA=json.load(open(V+'/tools/not_applicable.json'))
NOTES=json.load(open(V+'/tools/level_notes.json')) if os.path.exists(V+'/tools/level_notes.json') else {}
have=set()
for f in glob.glob(V+'/harness/*/*.go'):
    for m in re.findall(r'^func VH_(C\d\d)', open(f).read(), re.M): have.add(m)
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append({"property":i,
          "quick_cmd":f"bash /verif/check.sh {i}",
          "thorough_cmd":f"VERIF_TIER=thorough bash /verif/check.sh {i}",
          "technique":"bounded symbolic execution of the Go SSA with SMT (z3), counterexamples replayed natively",
          "level":"model_checking",
          "level_note":NOTES.get(i,"")+(" " if i in NOTES else "")+"Holds for every value within the bounds stated in the harness comments and evidence; trusts the SSA interpreter, the SMT solver and the environment models (cross-checked by native replay of sampled paths)."})
    else:
        na.append({"property":i,"reason":NA.get(i,"No check built yet.")})
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')

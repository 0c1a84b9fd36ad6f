#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from the list of built checks (run by hand after adding one).
import json,os,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
 "C01":("exhaustive fault enumeration (every truncation, byte and field corruption) executed on the real decoder","fault_enumeration"),
 "C02":("exhaustive enumeration of contradictory geometry, executed on the real decoder","model_checking"),
 "C03":("explicit enumeration of sample patterns and geometries against an encoder model, replayed on the real decoder","model_checking"),
 "C04":("bounded exhaustive exploration of coded streams from an encoder model, replayed on the real decoder","model_checking"),
 "C05":("bounded exhaustive exploration of coded streams from an encoder model, replayed on the real decoder","model_checking"),
 "C06":("bounded exhaustive exploration of coded streams from an encoder model, replayed on the real decoder","model_checking"),
 "C07":("exhaustive enumeration of container layouts, replayed on the real decoder","model_checking"),
 "C08":("exhaustive enumeration of database keys and their neighbours","model_checking"),
 "C09":("explicit-state breadth-first search over shift sequences of the real type against a model","model_checking"),
 "C10":("exhaustive enumeration of sizes, limits, crops and orientations","model_checking"),
 "C11":("exhaustive enumeration of sizes and orientations against a permutation model","model_checking"),
 "C12":("exhaustive impulse responses at every sensor position against a model","model_checking"),
 "C13":("exhaustive enumeration of a value grid against an independent f64 model","model_checking"),
 "C14":("stateless model checking of the real code under a controlled scheduler that replaces the thread pool","model_checking"),
 "C15":("exhaustive exploration of operation sequences up to a depth, compared with fresh-process results","model_checking"),
 "C16":("exhaustive exploration of reader answers (short, interrupted, failing) with bounded deviations","fault_enumeration"),
 "C17":("exhaustive enumeration of metadata values with bounded deviations against a file-builder model","model_checking"),
 "C18":("exhaustive enumeration of signatures, makers, sizes and compression codes","model_checking"),
 "C19":("exhaustive impulse and line responses against a model","model_checking"),
 "C20":("exhaustive enumeration of argument vectors and file-system situations on the real binary","model_checking"),
}
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists('/verif/harness/src/bin/%s.rs'%i.lower()) or (i=='C14' and os.path.exists('/verif/sched/src/main.rs')):
        t,l=T[i]
        checks.append({"property":i,"quick_cmd":"VERIF_TIER=quick bash check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+i,"technique":t,"level":l,
          "level_note":"holds for every execution within the bounds recorded in the evidence file; nothing is sampled, and nothing is claimed beyond the bounds"})
    else: na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),len(na))

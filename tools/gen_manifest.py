#!/usr/bin/env python3
# writes /verif/MANIFEST.json
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
T = json.load(open(os.path.join(here, 'tools', 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i]["technique"],
                       "level": T[i].get("level", "exploration"), "level_note": T[i]["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Checks are one Go program in harness/, built against /repo's working tree by check.sh. No hooks in /repo: everything is observed through exported API and files."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.json and the properties that have a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/checks.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.isdir(V + '/mc/cmd/' + i.lower()) and i in notes:
        n = notes[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "check.sh builds mc/cmd/<id> against /repo's working tree (mc/go.mod replaces the module by /repo) in a scratch folder, and runs it. No hooks in /repo."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')

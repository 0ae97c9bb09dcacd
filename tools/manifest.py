"""Writes /verif/MANIFEST.json from bin/packs.json and properties.jsonl."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
packs = json.load(open('/verif/bin/packs.json'))
notes = json.load(open('/verif/tools/level_notes.json'))
NA = notes.get("not_applicable", {})
checks = []
for p in props:
    i = p['id']
    if i in packs:
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "technique": "contract-based deductive verification (Verus) of the functions extracted from /repo on every run; packs: %s; plus a labelled bounded search for failing inputs" % ", ".join(packs[i]),
                       "level": "proof", "level_note": notes.get(i, notes["default"])})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks,
           "not_applicable": [{"property": p['id'], "reason": NA.get(p['id'], "check not built yet")} for p in props if p['id'] not in packs]},
          open('/verif/MANIFEST.json', 'w'), indent=1)

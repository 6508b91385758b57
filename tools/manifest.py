#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.txt, properties.jsonl and the notes below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks = dict(l.split()[:2] for l in open(R + '/checks.txt') if l.strip() and not l.startswith('#'))
NOTES = {}
TECH = {}
exec(open(R + '/tools/manifest_notes.py').read())
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
       "notes": "Every check compiles the repository's own source files (path = /repo/...) against the stand-in FRAME crates in ws/shim, because the real dependencies are not available offline; see DESIGN.md."}
for p in props:
    i = p['id']
    if i in checks:
        out['checks'].append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i} --thorough",
            "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, DEFAULT_TECH), "level": "exploration",
            "level_note": NOTES.get(i, DEFAULT_NOTE)})
    else:
        out['not_applicable'].append({"property": i, "reason": REASONS.get(i, "no check built yet")})
json.dump(out, open(R + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(out, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, s)
print(len(out['checks']), 'checks', len(out['not_applicable']), 'unclaimed')

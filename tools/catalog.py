#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/properties/*.json and checks.json"""
import glob, json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(f"{VERIF}/checks.json"))
properties = []
for path in sorted(glob.glob(f"{VERIF}/tools/properties/*.json")):
    properties += json.load(open(path))
properties.sort(key=lambda p: p["id"])
extra = ("technique", "level_note", "not_applicable")
with open(f"{VERIF}/properties.jsonl", "w") as out:
    for p in properties:
        line = {k: v for k, v in p.items() if k not in extra}
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        out.write(json.dumps(line) + "\n")
manifest = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=[], not_applicable=[],
    notes="check PROPERTY TIER builds /repo's working tree (mirrored into .build/src, with a base64 shim) and runs the harnesses of checks.json; see DESIGN.md. Known findings: known_findings.json.",
)
for p in properties:
    if p["id"] in checks:
        manifest["checks"].append(dict(
            property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
            technique=p["technique"], level="exploration", level_note=p["level_note"], evidence_file=f"evidence/{p['id']}.json"))
    else:
        manifest["not_applicable"].append(dict(property=p["id"], reason=p.get("not_applicable", "no check was built for it yet")))
json.dump(manifest, open(f"{VERIF}/MANIFEST.json", "w"), indent=1)
print(len(properties), "properties,", len(manifest["checks"]), "checks")

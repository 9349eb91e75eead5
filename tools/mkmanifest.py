"""Writes MANIFEST.json: python3 tools/mkmanifest.py"""
import json
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22".split()
ALL = ["C%02d" % i for i in range(1, 23)]
NOTES = {}
m = {"version": 1,
     "setup_cmd": "bin/setup",
     "checks": [], "not_applicable": []}
for p in ALL:
    if p in CLAIMED:
        m["checks"].append({"property": p, "quick_cmd": "bin/check %s --tier quick" % p,
            "thorough_cmd": "bin/check %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
            "technique": "TLA+ specification model-checked with TLC; TLC-enumerated and random scenarios executed on the real code, recorded traces judged by TLC against the specification",
            "level": "model_checking",
            "level_note": NOTES.get(p, "exhaustive over small constants in the specification; conformance of the code on the enumerated and random scenarios only")})
    else:
        m["not_applicable"].append({"property": p, "reason": "specification and conformance driver not finished yet"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)

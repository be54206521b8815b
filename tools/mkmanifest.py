import json, os, importlib, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = json.load(open(H + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(H + "/contracts/%s.py" % i):
        m = importlib.import_module("contracts." + i)
        checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification: obligations generated from the real Python source by symbolic execution (pyvc), discharged by polynomial normal forms, z3 and cvc5; bounded companion suite replays on the real code",
            "level": getattr(m, "LEVEL", "proof"), "level_note": (m.EXPLANATION + " Trusted/bounded: " + "; ".join(list(getattr(m, "TRUST", [])) + list(getattr(m, "ASSUMPTIONS", []))) + ". Floats are treated as reals; the loop/array semantics of pyvc are trusted.").replace("  ", " ")})
    else: na.append({"property": i, "reason": NA.get(i, "machinery for this property is not finished")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
    "notes": "check.py <id> regenerates the obligations from /repo on each run. Baselines (baseline/<id>.json) name the proof tasks that are proved on the unchanged tree. Known findings and fixes: KNOWN_FINDINGS.txt."}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")

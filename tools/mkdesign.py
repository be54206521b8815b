import json, os, importlib, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
out = [open(H + "/tools/design_head.md").read().rstrip(), "", "## 3. Property by property", "",
       "`proved` = obligations over /repo's source, all sizes symbolic; `bounded` = the companion suite on the real code only.", ""]
for p in props:
    i = p["id"]; m = importlib.import_module("contracts." + i)
    lv = getattr(m, "LEVEL", "proof")
    try: base = json.load(open(H + "/baseline/%s.json" % i))
    except FileNotFoundError: base = {}
    out.append("### %s %s" % (i, p["title"])); out.append("")
    np = sum(v == "proved" for v in base.values())
    out.append("Level: **%s**. %s" % (lv, "%d proof tasks in the baseline." % np if np else "No contract discharged; reason below.")); out.append("")
    out.append(m.EXPLANATION); out.append("")
    if np:
        fs = sorted({f for t in m.proofs("quick") for f in t.functions if base.get(t.name) == "proved"})
        if fs: out.append("Functions under contract: " + ", ".join("`%s`" % f for f in fs) + "."); out.append("")
    a = list(getattr(m, "ASSUMPTIONS", [])) + list(getattr(m, "TRUST", []))
    if a: out.append("Assumed / outside the proof: " + "; ".join(a) + "."); out.append("")
    src = open(H + "/concrete/%s.py" % i).read()
    for l in src.splitlines():
        if l.startswith("S = Suite("):
            s = l[len("S = Suite("):].split('", "', 1)
            if len(s) == 2: out.append("Bounded companion suite: " + s[1].rsplit('"', 1)[0] + "."); out.append("")
out += [open(H + "/tools/design_tail.md").read().rstrip()]
res = json.load(open(H + "/tools/seeded_results.json"))
for d in sorted(os.listdir(H + "/seeded")):
    q = json.load(open(H + "/seeded/%s/meta.json" % d))
    out.append("| %s: %s (needs %s) | %s | %s |" % (d, q["what_it_breaks"], q["needs"], q["property"], res.get(d, "not tried")))
out.append("")
open(H + "/DESIGN.md", "w").write("\n".join(out))

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.py (one file per property)."""
import json, glob, os, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
for p in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
    spec = importlib.util.spec_from_file_location("p", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for d in m.P:
        assert len(d["title"]) <= 80, d["id"]
        props.append({"id": d["id"], "title": d["title"], "statement": d["statement"],
                      "quantifier": {"over": d["over"], "text": d["text"]},
                      "why_tests_cant": d["why"],
                      "anchors": {"files": d["files"], "mechanism": [{"name": a, "where": b} for a, b in d["mech"]]}})
        if d.get("na"):
            na.append({"property": d["id"], "reason": d["na"]})
        else:
            cmd = "python3 check.py %s" % d["id"]
            checks.append({"property": d["id"], "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                           "technique": d["technique"], "level": "other", "level_note": d["note"]})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
       "notes": "Each check rebuilds the extractor when needed, re-parses /repo's working tree and applies its rules; see DESIGN.md. known_findings.json lists recorded and repaired defects."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
kf = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
seeds = {}
for p in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(p))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(p)), d))
out = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), ""]
for p in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
    spec = importlib.util.spec_from_file_location("p", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for d in m.P:
        out.append("## %s %s\n" % (d["id"], d["title"]))
        if d.get("na"):
            out.append("Not applicable: %s\n" % d["na"])
            continue
        out.append("Technique: %s.\n\nScope and limits: %s.\n" % (d["technique"].replace("static analysis: ", ""), d["note"]))
        if d.get("design"):
            out.append(d["design"].strip() + "\n")
        fx = [k["entry"] for k in kf if k["property"] == d["id"] and k["status"] == "fixed"]
        op = [k for k in kf if k["property"] == d["id"] and k["status"] == "open"]
        if fx:
            out.append("Defects repaired in /repo:\n" + "\n".join("- " + e for e in fx) + "\n")
        if op:
            out.append("Known findings (recorded, not repaired):\n" + "\n".join("- `%s`: %s" % (k["key"], k["entry"]) for k in op) + "\n")
        if d["id"] in seeds:
            out.append("Seeded changes:\n" + "\n".join("- %s: %s (%s)" % (i, x["what_it_breaks"], x.get("caught", "caught by %s" % d["id"])) for i, x in seeds[d["id"]]) + "\n")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
print(len(props), "properties,", len(checks), "checks")

"""Check driver: runs one property's rules over /repo's current source, compares the findings with the
committed known-findings list, writes evidence and replay files, prints the verdict."""
import json, os, sys, time, traceback, hashlib, re
import facts as factsmod
from facts import VERIF, REPO, Broken


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = []            # dicts
        self.counts = {}
        self.notes = []
        self.rules = {}
        self.F = None
        self.undecided = []       # rules that found (almost) nothing to apply to

    def load(self, files):
        self.F = factsmod.load(files)
        self.counts["translation_units"] = len(self.F.tus)
        self.counts["functions_parsed"] = sum(len(v) for v in self.F.funcs.values())
        return self.F

    def rule(self, rid, text):
        self.rules[rid] = {"text": text, "instances": 0, "sites": [], "min": None}
        return rid

    def site(self, rid, where, what=""):
        r = self.rules[rid]
        r["instances"] += 1
        if len(r["sites"]) < 400:
            r["sites"].append("%s %s" % (where, what))

    def expect(self, rid, n):
        """the rule must have matched at least n instances (confirmed by hand on the reference tree)"""
        self.rules[rid]["min"] = n
        if self.rules[rid]["instances"] < n:
            self.undecided.append("rule %s matched %d instances, expected at least %d: it no longer sees the code it is about"
                                  % (rid, self.rules[rid]["instances"], n))

    def bad(self, rid, func, construct, file, line, msg, trace=None):
        key = "%s|%s|%s" % (rid, func, construct)
        if any(v["key"] == key for v in self.viol):
            return
        self.viol.append({"rule": rid, "key": key, "func": func, "construct": construct, "file": file, "line": line,
                          "message": msg, "trace": trace or []})


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(pid, tier, module, dump=False):
    t0 = time.time()
    c = Ctx(pid, tier)
    try:
        module.check(c)
        broken = None
    except Broken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    known = {k["key"]: k for k in load_known() if k["property"] == pid and k.get("status", "open") == "open"}
    new = [v for v in c.viol if v["key"] not in known]
    old = [v for v in c.viol if v["key"] in known]
    if not broken and c.undecided and len(c.undecided) * 2 > len(c.rules):
        broken = "; ".join(c.undecided)
    if broken and not new:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken))
        sys.stderr.write(broken + "\n")
        sys.exit(2)
    if broken:
        print("note: a later rule could not be evaluated: " + broken.splitlines()[-1])
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ninst = sum(r["instances"] for r in c.rules.values())
    expl = ["Static analysis of %d translation units (%d functions) of the current source tree."
            % (c.counts.get("translation_units", 0), c.counts.get("functions_parsed", 0))]
    for rid, r in c.rules.items():
        expl.append("%s (%d instances%s): %s" % (rid, r["instances"], "" if r["min"] is None else ", at least %d required" % r["min"], r["text"]))
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "wall_s": round(wall, 2),
          "violations": len(new), "assumptions": getattr(module, "ASSUMPTIONS", []),
          "coverage": {"explanation": "\n".join(expl), "rules": c.rules, "counts": c.counts, "notes": c.notes, "undecided": c.undecided,
                       "known_findings": [v["key"] for v in old]}}
    if hasattr(module, "evidence_hook"):
        module.evidence_hook(c, ev)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for u in c.undecided:
        print("UNDECIDED: property=%s %s" % (pid, u))
    for v in old:
        print("KNOWN-FINDING: property=%s %s:%d %s: %s" % (pid, v["file"], v["line"], v["func"], v["message"]))
    print("%s: %d rules, %d instances, %d functions parsed, %.1fs" % (pid, len(c.rules), ninst, c.counts.get("functions_parsed", 0), wall))
    if dump:
        for rid, r in c.rules.items():
            print("  [%s] %d" % (rid, r["instances"]))
            for s in r["sites"]:
                print("      ", s)
    rdir = os.path.join(VERIF, "evidence", "replay")
    if new:
        os.makedirs(rdir, exist_ok=True)
    for v in new:
        h = hashlib.sha1(v["key"].encode()).hexdigest()[:10]
        rp = os.path.join(rdir, "%s-%s.json" % (pid, h))
        json.dump(v, open(rp, "w"), indent=1)
        print("%s:%d: in %s: [%s] %s" % (v["file"], v["line"], v["func"], v["rule"], v["message"]))
        for s in v["trace"]:
            print("      via " + s)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    sys.exit(1 if new else 0)

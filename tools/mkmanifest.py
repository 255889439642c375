#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when a spec file has a contract VF_<id>_* for it or names it in //vf:props."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
ids = [json.loads(l)["id"] for l in open(root/"properties.jsonl")]
have, proved = {}, {}
for f in root.glob("specs/**/*.go"):
    t = f.read_text()
    for m in re.finditer(r"((?://[^\n]*\n)*)func (VF_(C\d+)_\w+)\(.*?\n}\n", t, re.S):
        ps = {m.group(3)}
        for d in re.finditer(r"//vf:props ([^\n]*)", m.group(1)):
            ps |= set(d.group(1).split())
        for p in ps:
            have.setdefault(p, set()).add(m.group(2))
            if "vf.Bounded(" not in m.group(0) and "vf.Par(" not in m.group(0):
                proved.setdefault(p, set()).add(m.group(2))
notes = json.load(open(root/"tools/level_notes.json"))
checks, na = [], []
for i in ids:
    own = sorted(x for x in have.get(i, ()))
    if any(x.startswith("VF_%s_" % i) for x in own):
        checks.append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
          "technique": "contract-based deductive verification of the real code: verification conditions from go/ssa of /repo's source with contracts overlaid, discharged by z3/cvc5; loop invariants, lock and atomic rely conditions",
          "level": "proof" if i in proved else "other", "level_note": notes.get(i, notes["default" if i in proved else "bounded"]), "theorems": sorted(proved.get(i, []))})
    else:
        na.append({"property": i, "reason": notes.get("na:"+i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
 "hooks": {"guard": "none: contracts are overlaid on the packages at verification time (go/packages overlay, go test -overlay); nothing in /repo is changed for them",
           "enable": "automatic in /verif/check.sh", "source_commits": []}}
json.dump(m, open(root/"MANIFEST.json","w"), indent=1)
open(root/"MANIFEST.json","a").write("\n")
print(len(checks), "claimed", [x["property"] for x in na])

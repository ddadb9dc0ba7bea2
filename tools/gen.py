#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/registry.py and validates them."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry as R
V = os.path.dirname(HERE)
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(R.PROPS, key=lambda p: p["entry"]["id"]):
        f.write(json.dumps(p["entry"]) + "\n")
na = {x["property"] for x in R.NA}
man = dict(version=1, setup_cmd="python3 tools/setup.py",
           checks=[dict(property=p["entry"]["id"], quick_cmd="python3 tools/check.py %s quick" % p["entry"]["id"],
                        thorough_cmd="python3 tools/check.py %s thorough" % p["entry"]["id"],
                        evidence_file="evidence/%s.json" % p["entry"]["id"], technique=p["tech"],
                        level="model_checking", level_note=p["note"])
                   for p in sorted(R.PROPS, key=lambda p: p["entry"]["id"]) if p["entry"]["id"] not in na],
           not_applicable=R.NA,
           notes="TLA+ with TLC. See DESIGN.md. Repairs of genuine defects and open findings: known_findings.json.")
man["hooks"] = R.HOOKS or dict(guard="none", enable="no hooks are needed: the checks use public interfaces only",
                               source_commits=[])
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in R.PROPS:
        jsonschema.validate(p["entry"], sch)
        n = p["entry"]["statement"].count(". ") + 1
        if n > 3:
            print("warning: %s has %d sentences" % (p["entry"]["id"], n))
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(R.PROPS), "properties")
except ImportError:
    print("jsonschema missing; run with python3-vt to validate")

import glob
from design_notes import NOTES
text = "## Properties\n\nQuick bounds are in the drivers (`configs`, `random_histories`); what each run really covered is in its evidence file.\n"
for p in sorted(R.PROPS, key=lambda p: p["entry"]["id"]):
    e = p["entry"]
    text += "\n### %s %s\n\n%s\n\n*Why the tests cannot:* %s. *Limits:* %s\n" % (e["id"], e["title"], NOTES.get(e["id"], "MISSING"), e["why_tests_cant"].rstrip("."), p["note"])
    if e["id"] not in NOTES:
        print("no design note for", e["id"])
rows = ""
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows += "| %s: %s | %s%s |\n" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["property"], " (missed)" if d.get("missed") else "")
t = open(HERE + "/design.tmpl.md").read().replace("@@PROPS@@\n", text).replace("@@SEEDS@@\n", rows)
open(V + "/DESIGN.md", "w").write(t)

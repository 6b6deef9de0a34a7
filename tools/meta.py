#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []
NA = []

def prop(id, title, statement, over, text, tests, files, mech, technique=None, note=None, na=None, level="other", state=None):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": tests,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    assert len(title) <= 80, (id, len(title))
    PROPS.append((p, technique, note, level))
    if na:
        NA.append({"property": id, "reason": na})

exec(open(os.path.join(here, "tools", "table.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p, *_ in PROPS:
        f.write(json.dumps(p) + "\n")
nas = {n["property"] for n in NA}
m = {"version": 1,
     "setup_cmd": "mkdir -p bin && cd analyzer && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o ../bin/steve-verif .",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": l, "level_note": n}
                for p, t, n, l in PROPS if p["id"] not in nas],
     "not_applicable": NA,
     "notes": "All checks are one static analyzer (analyzer/): it loads /repo's current source with go/packages, builds SSA and judges it; nothing of /repo is run. No hook is needed in /repo."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")

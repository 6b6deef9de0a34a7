#!/usr/bin/env python3
"""Which checks catch which planted bugs: prints the table of DESIGN.md (development; no check uses it)."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
an = sys.argv[1] if len(sys.argv) > 1 else os.path.join(here, "bin", "steve-verif")
props = ",".join(sorted({c["property"] if "property" in c else c["property_id"] for c in json.load(open(os.path.join(here, "MANIFEST.json")))["checks"]}))

def one(id):
    d = os.path.join(here, "seeded", id)
    t = tempfile.mkdtemp(prefix="matrix-")
    try:
        r = os.path.join(t, "r")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], check=True)
        o = subprocess.run([an, "-property", props, "-verif", t, "-repo", r], capture_output=True, text=True)
        return id, re.findall(r"VIOLATION property=(\S+)", o.stdout)
    finally:
        shutil.rmtree(t)

with ThreadPoolExecutor(2) as ex:
    print("| change | needs | caught by |\n|---|---|---|")
    for id, ps in ex.map(one, sorted(os.listdir(os.path.join(here, "seeded")))):
        m = json.load(open(os.path.join(here, "seeded", id, "meta.json")))
        print("| %s | %s | %s |" % (id, m["needs"].replace("|", "\\|"), ", ".join(ps) or "none"), flush=True)

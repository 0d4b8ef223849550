#!/usr/bin/env python3
"""mkhints.py GOV [REGEX]: contracts/hints.json lists, per unit, which candidate loop
invariants were proved with every candidate tried. Later runs try only those first; each
is still proved on every run, and a unit that fails is run again with every candidate."""
import json, re, subprocess, sys, os
from concurrent.futures import ThreadPoolExecutor
gov = sys.argv[1]
pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = here + "/contracts"
out = specs + "/hints.json"
hints = json.load(open(out)) if os.path.exists(out) else {}
us = json.loads(subprocess.run([gov, "-specs", specs, "list"], capture_output=True, text=True).stdout)
names = {u["Name"] for u in us if not u["Lemma"]}
def run(u):
    r = subprocess.run([gov, "-specs", specs, "-nohints", "-json", "-workers", os.environ.get("W", "3"), "-slow", os.environ.get("SLOW", "3"), "unit", u["Name"]], capture_output=True, text=True)
    try:
        return u["Name"], json.loads(r.stdout)
    except Exception:
        return u["Name"], None
todo = [u for u in us if not (u["Lemma"] or u["Trusted"] or u["Inline"]) and pat.search(u["Name"])]
with ThreadPoolExecutor(4) as ex:
    for n, r in ex.map(run, todo):
        if r is None:
            print("no result:", n); continue
        if r.get("Err"):
            print("error:", n, r["Err"]); continue
        bad = [o["Name"] for o in r["Obls"] if o["Verd"] != 1]
        if bad:
            print('fails:', n, bad); continue
        k = r.get("Kept") or []
        if k:
            hints[n] = k
        else:
            hints.pop(n, None)
for n in list(hints):
    if n not in names:
        del hints[n]
json.dump(hints, open(out, "w"), indent=0, sort_keys=True)

#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between <!-- NAME --> and <!-- /NAME -->)."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(R + "/meta/oracles.py").read(), ns)
ps = [json.loads(l) for l in open(R + "/properties.jsonl")]
m = json.load(open(R + "/MANIFEST.json"))
note = {c["property"]: c["level_note"].split("library functions. ", 1)[1] for c in m["checks"]}
t = ["| id | property | decided by | bounds (quick; thorough) |", "|---|---|---|---|"]
for p in ps:
    i = p["id"]
    if i in note:
        t.append(f"| {i} | {p['title']} | {ns['ORACLE'].get(i, '')} | {note[i]} |")
s = ["| bug | property | file | what it breaks | needs |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f))
    b = os.path.basename(os.path.dirname(f))
    files = sorted(set(re.findall(r"^\+\+\+ b/(\S+)", open(os.path.dirname(f) + "/patch.diff").read(), re.M)))
    s.append(f"| {b} | {d['property']} | {', '.join(files)} | {d['what_it_breaks']} | {d['needs']} |")
x = open(R + "/DESIGN.md").read()
for n, v in (("PROPERTIES", t), ("SEEDS", s)):
    x = re.sub(rf"<!-- {n} -->.*?<!-- /{n} -->", lambda _: f"<!-- {n} -->\n" + "\n".join(v) + f"\n<!-- /{n} -->", x, flags=re.S)
open(R + "/DESIGN.md", "w").write(x)

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props_*.py."""
import glob, json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []

TECH = ("symbolic execution of the Go SSA of /repo with an SMT solver (z3) deciding every branch and assertion; "
        "counterexamples replayed natively")
NOTE = ("Bounded: holds for every value of the symbolic inputs within the bounds in the evidence file, nothing is claimed outside them. "
        "Trusts go/ssa, the gosym encoder (validated on every run by replaying sampled paths natively and comparing observations), "
        "z3 and the stated models of library functions. ")


def P(id, title, statement, text, why, files, mech, observe=(), over=("inputs",), state=(), bound="", na=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=list(over), text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    PROPS.append((d, bound, na))


for f in sorted(glob.glob(os.path.join(root, "meta", "props_*.py"))):
    exec(compile(open(f).read(), f, "exec"))

ids = [d["id"] for d, _, _ in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for d, _, _ in PROPS:
        o.write(json.dumps(d, ensure_ascii=False) + "\n")
m = dict(version=1,
         setup_cmd="./setup.sh",
         hooks=dict(guard="verif", enable="not used: the checks need no hook in /repo, harnesses are a separate module in /verif/harness that replaces github.com/qiniu/text by /repo", source_commits=[]),
         checks=[], not_applicable=[])
for d, bound, na in PROPS:
    if na:
        m["not_applicable"].append(dict(property=d["id"], reason=na))
        continue
    m["checks"].append(dict(property=d["id"], quick_cmd="./check.sh %s quick" % d["id"],
                            thorough_cmd="./check.sh %s thorough" % d["id"],
                            evidence_file="evidence/%s.json" % d["id"],
                            technique=TECH, level="model_checking", level_note=NOTE + " ".join(bound.split())))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for d, _, _ in PROPS:
        jsonschema.validate(d, s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid;", len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
except ImportError:
    print("no jsonschema; run with python3-vt")

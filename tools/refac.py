#!/usr/bin/env python3
"""refac.py NAME...|all: applies behaviour-preserving edits (tools/refacs/NAME.py: checks, edits=[(file, old, new)]) in a scratch
copy, runs the tests and the checks there; every check has to exit 0."""
import sys, os, subprocess, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def one(name, only):
    ns = {}
    exec(open(f"{ROOT}/tools/refacs/{name}.py").read(), ns)
    d = tempfile.mkdtemp(prefix="refacwork")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
        os.makedirs(d + "/verif")
        subprocess.check_call(f"cp -a {ROOT}/harness {ROOT}/engine {ROOT}/.bin {ROOT}/check.sh {ROOT}/known_findings.txt {ROOT}/properties.jsonl {d}/verif/; sed -i 's#=> /repo#=> {d}/repo#' {d}/verif/harness/go.mod; touch {d}/verif/.bin/gosym", shell=True)
        for f, old, new in ns["edits"]:
            s = open(f"{d}/repo/{f}").read()
            if s.count(old) != 1:
                return f"EDIT {f}: {s.count(old)} matches of {old!r}"
            open(f"{d}/repo/{f}", "w").write(s.replace(old, new))
        t = sh("go build ./... ; go test -vet=off -count=1 ./... ./tpl/cmd/tplgen/testdata 2>&1 | grep -v 'no test files'", d + "/repo")
        if "FAIL" in t.stdout or "error" in t.stdout.lower() or "ok  \t" not in t.stdout or ".go:" in t.stdout:
            return "TESTS: " + t.stdout
        bad = []
        for c in (only or ns["checks"]).split():
            r = sh(f"./check.sh {c} quick -noev", d + "/verif")
            if r.returncode:
                bad.append(f"{c}: exit {r.returncode}\n" + r.stdout[-1200:])
        return "ok" if not bad else "ALARM\n" + "\n".join(bad)
    finally:
        shutil.rmtree(d)


args = sys.argv[1:]
only = ""
if args[:1] == ["-checks"]:
    only, args = args[1], args[2:]
if args == ["all"]:
    args = sorted(f[:-3] for f in os.listdir(ROOT + "/tools/refacs") if f.endswith(".py"))
for a in args:
    print(a, one(a, only), flush=True)

#!/usr/bin/env python3
"""seed.py NAME... | all : (re)creates seeded/<id> from tools/seeds/<id>.py, verifies it in a scratch copy, and (with -c) runs the check on it.
A seed file defines prop, needs, breaks, edits=[(file, old, new)], demo (Go main package)."""
import sys, os, subprocess, shutil, json, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds; 1: it is broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go.txt" "$tmp/main.go"
cat > "$tmp/go.mod" <<EOF
module demo

go 1.21

require github.com/qiniu/text v0.0.0

replace github.com/qiniu/text => $repo
EOF
cd "$tmp"
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build -o demo .
timeout 60 ./demo
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(name, check):
    ns = {}
    exec(open(f"{root}/tools/seeds/{name}.py").read(), ns)
    d = f"{root}/seeded/{name}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.go.txt", "w").write(ns["demo"].lstrip())
    json.dump(dict(property=ns["prop"], needs=" ".join(ns["needs"].split()), what_it_breaks=" ".join(ns["breaks"].split())),
              open(d + "/meta.json", "w"), indent=1)
    w = tempfile.mkdtemp(prefix="seedwork")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        r = w + "/r"
        base = sh(d + "/demo.sh", r)
        if base.returncode:
            return "DEMO FAILS ON CLEAN: " + base.stdout
        for f, old, new in ns["edits"]:
            s = open(f"{r}/{f}").read()
            if s.count(old) != 1:
                return f"EDIT {f}: {s.count(old)} matches of {old!r}"
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        p = sh("git diff", r).stdout
        open(d + "/patch.diff", "w").write(p)
        t = sh("go build ./... ; go test -vet=off -count=1 ./... ./tpl/cmd/tplgen/testdata 2>&1 | grep -v 'no test files'", r)
        if "FAIL" in t.stdout or "error" in t.stdout.lower():
            return "TESTS: " + t.stdout
        b = sh(d + "/demo.sh", r)
        if b.returncode == 0:
            return "DEMO PASSES WITH THE BUG: " + b.stdout
        if "demo.go" in b.stdout or "main.go:" in b.stdout and "goroutine" not in b.stdout:
            return "DEMO DOES NOT BUILD: " + b.stdout
        res = "ok (demo: %s)" % b.stdout.strip().split("\n")[-1][:90]
    finally:
        shutil.rmtree(w)
    if check:
        assert not sh("git status --porcelain", "/repo").stdout, "/repo is dirty"
        try:
            assert sh(f"git apply {d}/patch.diff", "/repo").returncode == 0
            c = sh(f"{root}/check.sh {ns['prop']} quick -noev", root)
            v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION property=" + ns["prop"])]
            res += "  CHECK %s exit %d %s" % (ns["prop"], c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED " + c.stdout[-300:])
        finally:
            sh("git checkout -- .", "/repo")
    return res


args = sys.argv[1:]
check = "-c" in args
args = [a for a in args if a != "-c"]
if args == ["all"]:
    args = sorted(f[:-3] for f in os.listdir(root + "/tools/seeds") if f.endswith(".py"))
for a in args:
    print(a, one(a, check), flush=True)

#!/usr/bin/env python3
"""sweep.py OUT FILE...: runs the checks against every simple mutant of the files that passes the tests (in scratch copies)."""
import zlib, subprocess, json, sys, os, shutil, queue, threading, random
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = "/tmp/mutwork"
NS = int(os.environ.get("SLOTS", "4"))
J = os.environ.get("J", "2")
EVERY = int(os.environ.get("EVERY", "1"))  # sample one mutant in EVERY
MAP = [("tpl/scanner.go", "S06 S03 S04 S05 S02 S01"), ("tpl/token.go", "S05 S06 S04 S02 S01"),
       ("tpl/grammar.go", "M02 M03 M04 M05 M06 M01 C03 C01 M07 I04"), ("tpl/match.go", "M06 M05 M04 M07 S06 I04 Q17"),
       ("tpl/compiler.go", "C01 C03 C02 I04 M06"), ("tpl/interpreter/", "I02 I04 I05 I01 I03 K01"),
       ("tpl/interpreter.util/", "I05 K02 Q10"), ("tpl/number/", "K02 K01"), ("tpl/rat/", "K03"), ("tpl/cmplx/", "K04"),
       ("tpl/extractor/", "X01 X02 X04 X03"), ("tpl/generator/", "G01"),
       ("tpl/qlang/cl/interpreter/", "Q14 Q15"), ("tpl/qlang/lib/", "Q13 Q09 Q01 Q10 Q11 Q08 Q16"),
       ("tpl/qlang/", "Q02 Q03 Q05 Q08 Q09 Q16 Q10 Q13 Q12 Q01 Q04 Q07 Q17 Q06 Q11")]


def sh(cmd, cwd, t=900):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, "timeout"


def setup(k):
    d = f"{W}/{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
    os.makedirs(d + "/verif")
    subprocess.check_call(f"cp -a {ROOT}/harness {ROOT}/engine {ROOT}/.bin {ROOT}/check.sh {ROOT}/known_findings.txt {ROOT}/properties.jsonl {d}/verif/; sed -i 's#=> /repo#=> {d}/repo#' {d}/verif/harness/go.mod; touch {d}/verif/.bin/gosym", shell=True)


def one(k, f, m):
    d = f"{W}/{k}"
    p = f"{d}/repo/{f}"
    s = open(f"{W}/base/{f}", "rb").read()
    open(p, "wb").write(s[:m["Off"]] + m["New"].encode() + s[m["End"]:])
    try:
        rc, o = sh("go build ./... && timeout 60 go test -vet=off -count=1 ./... ./tpl/cmd/tplgen/testdata 2>&1 | grep -v 'no test files'", d + "/repo", 100)
        if "FAIL" in o or "error" in o.lower() or rc == 124 or "ok  \t" not in o:
            return "tests"
        checks = [c for pre, c in MAP if f.startswith(pre)][0].split()
        bad = []
        for c in checks:
            rc, o = sh(f"nice ./check.sh {c} quick -noev -j {J} -budget 60", d + "/verif", 400)
            if rc == 1 and "VIOLATION" in o:
                return "caught " + c
            if rc:
                bad.append(f"{c}:{rc}")
        return "SURVIVED " + " ".join(bad)
    finally:
        open(p, "wb").write(s)


def main():
    out = sys.argv[1]
    subprocess.check_call("go build -o /tmp/mutate .", shell=True, cwd=os.path.dirname(os.path.abspath(__file__)))
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.check_call(["git", "clone", "-q", "/repo", W + "/base"])
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["f"], r["Off"], r["End"], r["New"]))
    q = queue.Queue()
    for f in sys.argv[2:]:
        for l in subprocess.check_output(["/tmp/mutate", W + "/base/" + f], text=True).splitlines():
            m = json.loads(l)
            k = zlib.crc32(json.dumps([f, m["Off"], m["End"], m["New"]]).encode())
            if (f, m["Off"], m["End"], m["New"]) not in done and k % EVERY == 0:
                q.put((f, m))
    print(q.qsize(), "mutants", flush=True)
    lock = threading.Lock()

    def run(k):
        setup(k)
        while True:
            try:
                f, m = q.get_nowait()
            except queue.Empty:
                return
            r = one(k, f, m)
            with lock:
                open(out, "a").write(json.dumps(dict(f=f, r=r, **m)) + "\n")
    ts = [threading.Thread(target=run, args=(k,)) for k in range(NS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(W, ignore_errors=True)


main()

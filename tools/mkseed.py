#!/usr/bin/env python3
"""Plant a bug: mkseed.py SPEC.py   (SPEC defines id, prop, edits=[(file,old,new)], demo, needs, breaks, [checks])
Validates it in a scratch copy of /repo and, when valid, keeps it as /verif/seeded/<id>/ and runs the checks on it."""
import json, os, shutil, subprocess, sys, tempfile
DEMO_SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/rsrdemo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cp "$PWD/go.mod" "$PWD/go.sum" "$t/"
echo "{\\"Replace\\":{\\"$PWD/%(path)s\\":\\"$d/%(file)s\\"}}" > "$t/ov.json"
%(run)s
'''
MAIN = 'go build -modfile "$t/go.mod" -overlay "$t/ov.json" -o "$t/demo" ./zzdemo || exit 3\ntimeout 120 "$t/demo"'
TEST = 'timeout 240 go test -vet=off -count=1 -modfile "$t/go.mod" -overlay "$t/ov.json" -run TestZZDemo ./%s'

def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(c, str), **k)

def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for one in ns["SEEDS"]:
        plant(one)

def plant(s):
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        return
    out = "/verif/seeded/" + s["id"]
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    r = w + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", r])
        for f, a, b in s["edits"]:
            t = open(f"{r}/{f}").read()
            assert t.count(a) == 1, (s["id"], f, t.count(a), a)
            open(f"{r}/{f}", "w").write(t.replace(a, b))
        sh("gofmt -l .", r)
        diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
        dd = w + "/demo"
        os.makedirs(dd)
        pkg = s.get("pkg")  # in-package test demo
        if "demo_sh" in s:
            open(dd + "/demo.sh", "w").write(s["demo_sh"])
            for n, t in s.get("files", {}).items():
                open(f"{dd}/{n}", "w").write(t)
        elif pkg:
            open(dd + "/demo.go", "w").write(s["demo"])
            open(dd + "/demo.sh", "w").write(DEMO_SH % dict(path=pkg + "/zz_demo_test.go", file="demo.go", run=TEST % pkg))
        else:
            open(dd + "/demo.go", "w").write(s["demo"])
            open(dd + "/demo.sh", "w").write(DEMO_SH % dict(path="zzdemo/main.go", file="demo.go", run=MAIN))
        # bad tree
        bl = sh("go build ./des/... ./iblt/... ./ldpc/... ./lt/... ./riblt/... ./newsim/... ./simulator/... ./node/... ./testbed/... ./microbenchmarks/...", r,
                env={**os.environ, "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local"})
        if bl.returncode:
            print(s["id"], "does not build", bl.stdout); return
        tl = sh("ulimit -v 12000000; timeout 60 go test -vet=off -count=1 ./lt ./iblt ./riblt", r, env={**os.environ, "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local"})
        if tl.returncode:
            print(s["id"], "fails existing tests", tl.stdout[-1500:]); return
        bad = sh(["bash", dd + "/demo.sh"], r)
        good = sh(["bash", dd + "/demo.sh"], "/repo")
        if bad.returncode == 0 or good.returncode != 0:
            print(s["id"], "demo: bad tree", bad.returncode, "good tree", good.returncode, bad.stdout[-1500:], good.stdout[-1500:]); return
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        for n in os.listdir(dd):
            shutil.copy(f"{dd}/{n}", out)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        for c in s.get("checks", [s["prop"]]):
            k = sh(["python3", "/verif/run.py", c, "quick"], "/verif", env={**os.environ, "VERIF_REPO": r})
            v = [l for l in k.stdout.splitlines() if l.startswith(f"[{c}]") or "VIOLATION" in l]
            print(s["id"], "demo says:", (bad.stdout.strip().splitlines() or [""])[-1][:120])
            print("   ", c, "CAUGHT" if k.returncode == 1 else "MISSED", (v or [k.stdout[-500:]])[0][:300])
    finally:
        shutil.rmtree(w, ignore_errors=True)

main(sys.argv[1])

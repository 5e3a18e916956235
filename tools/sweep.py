#!/usr/bin/env python3
"""Run every planted change against its property's quick check (in a copy of /repo) and rewrite the table in DESIGN.md."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sweep.repo"
rows = {}
store = "/tmp/sweep.json"
if os.path.exists(store) and "--fresh" not in sys.argv:
    rows = json.load(open(store))
for s in sorted(os.listdir(V + "/seeded")):
    if s in rows: continue
    meta = json.load(open(f"{V}/seeded/{s}/meta.json"))
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])
    a = subprocess.run(["git", "apply", f"{V}/seeded/{s}/patch.diff"], cwd=W)
    if a.returncode:
        rows[s] = [meta["property"], "patch does not apply", 0]
    else:
        t = time.time()
        c = subprocess.run([sys.executable, "run.py", meta["property"], "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=W, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = c.returncode == 1 and "VIOLATION property=" + meta["property"] in c.stdout
        m = re.search(r"^\[C\d+\] (.*)", c.stdout, re.M)
        rows[s] = [meta["property"], ("caught: " + m.group(1)[:90] if m else "caught") if ok else f"MISSED (exit {c.returncode})", round(time.time() - t)]
    print(s, rows[s], flush=True)
    json.dump(rows, open(store, "w"))
shutil.rmtree(W, ignore_errors=True)
out = ["<!-- sweep -->", "| change | property | result of the quick check | s |", "|---|---|---|---|"]
for s in sorted(rows):
    p, r, t = rows[s]
    out.append("| %s | %s | %s | %d |" % (s, p, r.replace("|", "/").replace("\n", " "), t))
out.append("<!-- /sweep -->")
d = open(V + "/DESIGN.md").read()
d = re.sub(r"<!-- sweep -->.*<!-- /sweep -->", lambda m: "\n".join(out), d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)

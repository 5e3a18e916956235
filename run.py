#!/usr/bin/env python3
"""Build the harness of one property against /repo's working tree and explore.

  run.py C01 [quick|thorough]     run the check of a property
  run.py replay FILE              replay a reported violation
  run.py setup                    warm the build cache (optional)

Exit 0: the property held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>" was printed.
"""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/yangl1996/rateless-set-reconcile"
ZZ = MOD + "/zzverif"

# how each harness binary is built
RAND_SYNC = f"math/rand={ZZ}/vrand,sync={ZZ}/vsync"
BINS = {
    "codec": {"main": "zzverif/codec", "swap": {"ldpc": RAND_SYNC}},
}
PROPS = {
    "C01": {"bin": "codec"}, "C02": {"bin": "codec"}, "C03": {"bin": "codec"}, "C04": {"bin": "codec"},
    "C05": {"bin": "codec"}, "C06": {"bin": "codec"}, "C07": {"bin": "codec"}, "C08": {"bin": "codec"},
}
ASSUME = {}

exec(open(os.path.join(VERIF, "checks.py")).read()) if os.path.exists(os.path.join(VERIF, "checks.py")) else None


class BindError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_="")
    e.pop("GODEBUG", None)
    e["GORACE"] = "suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 atexit_sleep_ms=0"
    return e


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_instr(scratch):
    d = os.path.join(scratch, "instrsrc")
    shutil.copytree(os.path.join(VERIF, "tools", "instr"), d)
    r = sh(["go", "build", "-o", os.path.join(scratch, "instr"), "."], d)
    if r.returncode:
        print(r.stdout)
        raise SystemExit(2)
    return os.path.join(scratch, "instr")


def export_data(scratch, pkg, modargs):
    """importpath -> export file of everything pkg depends on, for type checking."""
    r = sh(["go", "list"] + modargs + ["-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}", "./" + pkg], REPO)
    if r.returncode:
        raise BindError("go list: " + r.stdout)
    f = os.path.join(scratch, "exports-" + pkg.replace("/", "_"))
    open(f, "w").write(r.stdout)
    return f


def build(binname, scratch):
    b = BINS[binname]
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), scratch)
    modargs = ["-modfile=" + os.path.join(scratch, "go.mod")]
    replace = {}
    hroot = os.path.join(VERIF, "harness")
    for d in sorted(os.listdir(hroot)):
        if d == "inpkg":
            continue
        for f in sorted(os.listdir(os.path.join(hroot, d))):
            if f.endswith(".go"):
                replace[f"{REPO}/zzverif/{d}/{f}"] = os.path.join(hroot, d, f)
    for ent in b.get("inpkg", []):   # package[:harness directory]
        pkg, _, hd = ent.partition(":")
        src = os.path.join(hroot, "inpkg", hd or pkg)
        for f in sorted(os.listdir(src)):
            replace[f"{REPO}/{pkg}/zz_verif_{f}"] = os.path.join(src, f)
    for to, frm in b.get("also", {}).items():   # a file shared by two harnesses
        replace[f"{REPO}/zzverif/{to}"] = os.path.join(hroot, frm)
    for (srcpkg, frm, to) in b.get("clone", []):   # same harness for a sibling package
        d = os.path.join(hroot, srcpkg)
        for f in sorted(os.listdir(d)):
            t = open(os.path.join(d, f)).read()
            for x, y in zip(frm, to):
                t = t.replace(x, y)
            o = os.path.join(scratch, "clone_" + f)
            open(o, "w").write(t)
            replace[f"{REPO}/zzverif/{to[0]}/{f}"] = o
    if b.get("swap") or b.get("instr"):
        instr = build_instr(scratch)
        for pkg, sw in b.get("swap", {}).items():
            r = sh([instr, "-dir", os.path.join(REPO, pkg), "-out", os.path.join(scratch, "swap_" + pkg.replace("/", "_")), "-swap", sw], REPO)
            if r.returncode:
                raise BindError("instr: " + r.stdout)
            for l in r.stdout.splitlines():
                a, c = l.split("\t")
                replace[a] = c
        for pkg, (mode, sw) in b.get("instr", {}).items():
            exp = export_data(scratch, pkg, modargs)
            r = sh([instr, "-dir", os.path.join(REPO, pkg), "-out", os.path.join(scratch, "instr_" + pkg.replace("/", "_")), "-swap", sw,
                    "-mode", mode, "-vs", ZZ + "/vs", "-exports", exp, "-pkg", MOD + "/" + pkg], REPO)
            if r.returncode:
                raise BindError("instr: " + r.stdout)
            for l in r.stdout.splitlines():
                a, c = l.split("\t")
                replace[a] = c
    ov = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": replace}, open(ov, "w"))
    out = os.path.join(scratch, "harness")
    main = b.get("main") or b["inpkg"][0].partition(":")[0]
    r = sh(["go", "build"] + modargs + b.get("args", []) + ["-overlay", ov, "-o", out, "./" + main], REPO)
    if r.returncode:
        plain = sh(["go", "build"] + modargs + ["-o", os.path.join(scratch, "plain")] + ["./" + p for p in b.get("plain", [])] , REPO) if b.get("plain") else None
        raise BindError(r.stdout)
    return out


def load_known():
    """property -> {finding id: text}"""
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                # known: property=C05 id=xyz what fails
                parts = l.split(None, 3)
                res.setdefault(parts[1].split("=")[1], {})[parts[2].split("=")[1]] = parts[3]
    return res


def write_evidence(pid, tier, cov, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)


def check(pid, tier):
    t0 = time.time()
    spec = PROPS[pid]
    scratch = tempfile.mkdtemp(prefix="rsrverif.")
    os.environ["TMPDIR"] = scratch
    try:
        return run(pid, tier, spec, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, tier, spec, scratch, t0):
    bins = [spec["bin"]] if isinstance(spec["bin"], str) else spec["bin"]
    nworkers = spec.get("workers", 8)
    deadline = spec.get("deadline", {}).get(tier, 300 if tier == "quick" else 840)
    procs, outs = [], []
    merged = {"Execs": 0, "Points": 0, "Ops": 0, "Samples": [], "Known": {}, "Extra": {}, "Incomplete": set(), "Done": {}}
    viols, errors, statefiles, obsfiles = [], [], [], []
    unbound = []
    exe = None
    for binname in bins:
        bs = os.path.join(scratch, binname)
        os.makedirs(bs)
        try:
            exe = build(binname, bs)
        except BindError as e:
            unbound.append((binname, str(e)))
            continue
        left = deadline - (time.time() - t0)
        procs = []
        for i in range(nworkers):
            out = os.path.join(bs, f"out{i}.json")
            e = env()
            e["GOMAXPROCS"] = str(spec.get("gomaxprocs", 2))
            log = open(os.path.join(bs, f"log{i}"), "w")
            p = subprocess.Popen([exe, "-prop", pid, "-tier", tier, "-shard", f"{i}/{nworkers}", "-out", out,
                                  "-deadline", str(max(20, left)), "-hang", str(spec.get("hang", 120))],
                                 cwd=bs, env=e, stdout=log, stderr=subprocess.STDOUT)
            procs.append((p, out, log))
        stopat = time.time() + max(20, left) + 150
        pending = list(range(nworkers))
        stop = False
        while pending:
            for i in list(pending):
                p, out, log = procs[i]
                rc = p.poll()
                if rc is None:
                    continue
                pending.remove(i)
                log.close()
                if os.path.exists(out):
                    o = json.load(open(out))
                else:
                    o = crashed(exe, pid, tier, out, rc, os.path.join(bs, f"log{i}"))
                    if o is None:
                        errors.append(f"worker {i} of {binname} ended with {rc}: " + open(os.path.join(bs, f"log{i}")).read()[-1500:])
                        continue
                o["bin"] = binname
                outs.append(o)
                statefiles.append(out + ".states")
                obsfiles.append(out + ".obs")
                if o.get("Violation"):
                    viols.append(o)
                    stop = True
            if stop or time.time() > stopat:
                for i in pending:
                    procs[i][0].kill()
                    procs[i][0].wait()
                if not stop:
                    errors.append("workers did not stop in time")
                break
            time.sleep(0.02)
        if stop:
            break
    for o in outs:
        for k in ("Execs", "Points", "Ops"):
            merged[k] += o.get(k) or 0
        merged["Samples"] += o.get("Samples") or []
        merged["Known"].update(o.get("Known") or {})
        for k, v in (o.get("Extra") or {}).items():
            merged["Extra"][k] = merged["Extra"].get(k, 0) + v
        merged["Incomplete"].update(o.get("Incomplete") or [])
        for c in o.get("Done") or []:
            merged["Done"][c] = merged["Done"].get(c, 0) + 1
    states = outcomes = 0
    if exe and statefiles:
        states = int(sh([exe, "-merge", ",".join(statefiles)], scratch).stdout.strip() or 0)
        outcomes = int(sh([exe, "-merge", ",".join(obsfiles)], scratch).stdout.strip() or 0)
    known = load_known().get(pid, {})
    for kid, msg in sorted(merged["Known"].items()):
        if kid in known:
            print(f"KNOWN-FINDING: property={pid} {kid}: {known[kid]}")
        else:
            viols.append({"bin": bins[0], "Violation": {"Config": "", "Msg": f"unlisted finding {kid}: {msg}", "Choices": None, "Trace": None}, "Reruns": "-"})
    cov = {"states": max(states, 0), "transitions": merged["Ops"], "traces_validated_against_impl": merged["Execs"],
           "choice_points": merged["Points"], "distinct_outcomes": outcomes,
           "samples": merged["Samples"][:8], "configurations_completed": sorted(merged["Done"]),
           "configurations_incomplete": sorted(merged["Incomplete"]),
           "exhaustive": not merged["Incomplete"] and not viols and not errors and not unbound}
    cov.update(merged["Extra"])
    if unbound:
        cov["unbound"] = [f"{b}: {m[-600:]}" for b, m in unbound]
    if errors:
        cov["errors"] = errors
    write_evidence(pid, tier, cov, time.time() - t0, len(viols), ASSUME.get(pid, []))
    if viols:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        v = viols[0]
        path = os.path.join(VERIF, "evidence", "replay", f"{pid}.json")
        rec = dict(v["Violation"])
        rec.update(property=pid, tier=tier, bin=v["bin"], reruns=v.get("Reruns"))
        json.dump(rec, open(path, "w"), indent=1)
        print(f"[{pid}] {rec['Config']}: {rec['Msg']}  (reproduced {rec['reruns']})")
        for l in (rec.get("Trace") or [])[:60]:
            print("   ", l)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    for b, m in unbound:
        print(f"[{pid}] INCONCLUSIVE: harness {b} does not build against this tree:\n{m[-3000:]}")
    for e in errors:
        print(f"[{pid}] error: {e}")
    print(f"[{pid}] {tier}: {merged['Execs']} executions, {merged['Ops']} transitions, {states} states, {outcomes} outcomes, "
          f"{len(merged['Done'])} configurations complete, {len(merged['Incomplete'])} cut, {time.time()-t0:.1f}s")
    return 0 if merged['Execs'] else 2  # nothing explored: no answer


def crashed(exe, pid, tier, out, rc, logf):
    """A worker died (fatal runtime error, os.Exit): reconstruct the execution it was in."""
    import struct
    if rc in (-9, 3):  # killed for memory by the sandbox, or usage error
        return None
    try:
        b = open(out + ".cur", "rb").read()
    except OSError:
        return None
    n = struct.unpack("<I", b[8:12])[0]
    ci = struct.unpack("<I", b[12:16])[0]
    ch = [struct.unpack("<H", b[16 + 2 * i:18 + 2 * i])[0] for i in range(min(n, (len(b) - 18) // 2))]
    names = subprocess.run([exe, "-prop", pid, "-tier", tier, "-list"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    log = open(logf).read()
    rep = 0
    tmp = out + ".rep"
    json.dump({"Config": names[ci], "Choices": ch}, open(tmp, "w"))
    for _ in range(3):
        try:
            r = subprocess.run([exe, "-prop", pid, "-tier", tier, "-replay", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            if r.returncode not in (0,):
                rep += 1
        except subprocess.TimeoutExpired:
            rep += 1
    if rep == 0:
        return None
    return {"Violation": {"Config": names[ci], "Msg": f"the process died (exit {rc}): " + log[:1500], "Choices": ch, "Trace": None}, "Reruns": f"{rep}/3"}


def replay(path):
    rec = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="rsrverif.")
    os.environ["TMPDIR"] = scratch
    try:
        exe = build(rec["bin"], scratch)
        r = subprocess.run([exe, "-prop", rec["property"], "-tier", rec["tier"], "-replay", path], env=env())
        return r.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "replay":
        return replay(os.path.abspath(sys.argv[2]))
    if sys.argv[1] == "setup":
        scratch = tempfile.mkdtemp(prefix="rsrverif.")
        os.environ["TMPDIR"] = scratch
        try:
            for b in BINS:
                os.makedirs(os.path.join(scratch, b))
                try:
                    build(b, os.path.join(scratch, b))
                except BindError as e:
                    print(b, e)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(pid, tier)


if __name__ == "__main__":
    sys.exit(main())

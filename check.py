#!/usr/bin/env python3
"""check.py Cxx: decides one property on /repo's current tree (see DESIGN.md)."""
import json, os, subprocess, sys, time, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
GEN = os.path.join(V, ".gen")
ENV = dict(os.environ)
GR = "/opt/veriftools/go1.23.12"
ENV.update(HOME="/root", GOROOT=GR, GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="1", GOFLAGS="-mod=mod -buildvcs=false",
           PATH=GR + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin") + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")

def gen():
    r = subprocess.run([sys.executable, os.path.join(V, "sym/gen.py")], env=ENV)
    if r.returncode: sys.exit("generation failed")

def build(pk, kind):
    os.makedirs(GEN + "/bin", exist_ok=True)
    mod = "go.mod" if kind == "sym" else "nat.mod"
    cmd = ["go", "build", "-ldflags=-s -w", "-modfile=%s/%s" % (GEN, mod), "-overlay", "%s/overlay.%s.json" % (GEN, kind)]
    if kind == "sym": cmd += ["-tags", "verifsym"]
    cmd += ["-o", "%s/bin/%s.%s" % (GEN, pk, kind), "./x/verif/" + pk]
    r = subprocess.run(cmd, cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        return False
    return True

def build_all(pks, kinds=("sym", "nat")):
    with cf.ThreadPoolExecutor(4) as ex:
        return all(list(ex.map(lambda a: build(*a), [(p, k) for p in pks for k in kinds])))

def native_one(pk, w, limit=60):
    """replays one witness; a crash or a run that does not end is reported as label hang"""
    try:
        r = subprocess.run(["%s/bin/%s.nat" % (GEN, pk), "-batch"], input=json.dumps(w) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, timeout=limit)
    except subprocess.TimeoutExpired:
        return {"failed": ["/hang"], "panic": "no end after %d s" % limit, "obs": None}
    for l in r.stdout.split("\n"):
        if l.strip().startswith("{"):
            try: return json.loads(l)
            except ValueError: pass
    if "stack overflow" in r.stderr or "stack exceeds" in r.stderr: return {"failed": ["/hang"], "panic": "stack overflow", "obs": None}
    return None

def native(pk, wits):
    """replays witnesses on the unmodified code"""
    res = []
    while len(res) < len(wits):
        rest = wits[len(res):]
        if rest[0].get("label") == "hang":
            res.append(native_one(pk, rest[0]))
            continue
        p = subprocess.Popen(["%s/bin/%s.nat" % (GEN, pk), "-batch"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV)
        try:
            out, _ = p.communicate("".join(json.dumps(w) + "\n" for w in rest if w.get("label") != "hang"), timeout=120)
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate()
        got = []
        for l in out.split("\n"):
            if l.strip():
                try: got.append(json.loads(l))
                except ValueError: pass
        if any(w.get("label") == "hang" for w in rest):
            it = iter(got)
            for w in rest: res.append(native_one(pk, w) if w.get("label") == "hang" else next(it, None))
            break
        res += got
        if len(res) < len(wits): res.append(native_one(pk, wits[len(res)], 20))
    return res

def symbolic(pk, hs, prop, tier, seed, budget):
    """one run of the symbolic executor; None when it gives no result"""
    out = "%s/out.%s.%s.json" % (GEN, prop, pk)
    if os.path.exists(out): os.remove(out)
    cmd = ["%s/bin/%s.sym" % (GEN, pk), "-run", ",".join(hs), "-prop", prop, "-tier", tier, "-seed", str(seed), "-budget", str(budget), "-out", out]
    try:
        log = subprocess.run(cmd, env=ENV, cwd=V, timeout=budget + 120, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    except subprocess.TimeoutExpired:
        return None, "no end"
    try: return json.load(open(out)), log
    except (OSError, ValueError): pass
    open("%s/crash.%s.%s.log" % (GEN, prop, pk), "w").write(log)
    return None, log

def known_findings(prop):
    out = []
    try:
        for l in open(V + "/known_findings.jsonl"):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "open": out.append(k)
    except FileNotFoundError:
        pass
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = json.load(open(V + "/checks.json"))[prop]
    gen()
    pks = sorted({h.split("/")[0] for h in cfg["harnesses"]})
    if not build_all(pks):
        print("build failed"); sys.exit(2)
    tb = time.time() - t0
    budget = cfg.get("thorough_s", 600) if tier == "thorough" else cfg.get("quick_s", 60)
    reports, crashed = [], []
    on = [h for h in cfg["harnesses"] if tier == "thorough" or not h.endswith("!")]
    for pk in pks:
        hs = [h.split("/")[1].rstrip("!") for h in on if h.split("/")[0] == pk]
        if not hs: continue
        reps, log = symbolic(pk, hs, prop, tier, seed, budget * len(hs) / len(on))
        if reps is None:
            # should the engine itself fail, every harness gets a run of its own
            print(log[:3000])
            reps = []
            for h in hs:
                one, log = symbolic(pk, [h], prop, tier, seed, budget / len(on))
                if one is None: crashed.append(h); print("note: no result from %s: %s" % (h, log[:1000]))
                reps += one or []
            if not reps: print("symbolic execution failed"); sys.exit(2)
        for rep in reps:
            rep["pk"] = pk
            reports.append(rep)
    known = known_findings(prop)
    seen_known, viols, unrepro, validated, mism = {}, [], 0, 0, []
    for rep in reports:
        # translation validation: sampled paths are re-run on the unmodified code
        ws = (rep["samples"] or [])[:cfg.get("validate", 16)]
        for w in ws + (rep["violations"] or []): w["on"] = prop
        for w, o in zip(ws, native(rep["pk"], ws)):
            if o and not o["failed"] and not o.get("diverged") and (o["obs"] or []) == (w.get("obs") or []): validated += 1
            else: mism.append({"witness": w, "native": o})
        vs = rep["violations"] or []
        for w, o in zip(vs, native(rep["pk"], vs)):
            want = "%s/%s" % (w.get("property", ""), w["label"])
            ok = o is not None and want in (o["failed"] or [])
            for _ in range(12 if rep.get("retry") else 0):
                if ok: break
                o = native(rep["pk"], [w])[0]
                ok = o is not None and want in (o["failed"] or [])
            if not ok:
                unrepro += 1
                print("note: candidate for %s not reproduced natively: %s -> %s" % (want, json.dumps(w)[:600], json.dumps(o)[:300]))
                continue
            kf = next((k for k in known if k["harness"] == w["harness"] and k["label"] == w["label"] and k.get("known", "") == w.get("known", "")), None)
            if kf: seen_known[kf["what"]] = kf; continue
            w["native"] = o
            viols.append((rep["pk"], w))
    for m in mism[:3]:
        print("note: sampled path differs natively:", json.dumps(m)[:1500])
    S = lambda k: sum(r["stats"][k] for r in reports)
    und = {}
    for r in reports:
        for k, n in (r["undecided"] or {}).items(): und[k] = und.get(k, 0) + n
    missed = {r["harness"]: r["missed_must"] for r in reports if r["missed_must"]}
    samples = []
    for r in reports:
        samples += (r["samples"] or [])[:2]
    cov = {
        "states": S("Paths"), "transitions": S("Decisions"), "traces_validated_against_impl": validated,
        "samples": samples[:6], "exhaustive": all(r["exhaustive"] for r in reports),
        "paths_completed": S("PathsDone"), "paths_infeasible": S("Infeasible"), "assertions_evaluated": S("Checks"),
        "queries": S("Queries"), "queries_sat": S("Sat"), "queries_unsat": S("Unsat"), "queries_unknown": S("Unknown"),
        "solver_s": round(S("SolverNs") / 1e9, 2), "undecided_assertions": und, "vacuity_labels_missed": missed,
        "harnesses_without_result": crashed, "mismatching_samples": len(mism), "candidates_not_reproduced": unrepro,
        "harnesses": [{"name": r["harness"], "bounds": r["bounds"], "functions": r["funcs"], "exhaustive": r["exhaustive"], "paths": r["stats"]["Paths"],
                       "aborted": r["aborts"], "reached": r["reached"], "wall_s": round(r["wall_s"], 2)} for r in reports],
        "explanation": "states = symbolic paths started, transitions = branch decisions on symbolic values; each completed path covers every assignment satisfying its path condition",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s: %d paths (%d completed), %d decisions, %d queries (%.1fs solver), %d assertions, exhaustive=%s, validated %d/%d, build %.0fs, total %.0fs" % (
        prop, S("Paths"), S("PathsDone"), S("Decisions"), S("Queries"), S("SolverNs") / 1e9, S("Checks"), cov["exhaustive"], validated, validated + len(mism), tb, time.time() - t0))
    for r in reports:
        print("  %s: exhaustive=%s paths=%d aborts=%s missed=%s wall=%.1fs" % (r["harness"], r["exhaustive"], r["stats"]["Paths"], r["aborts"], r["missed_must"], r["wall_s"]))
    for what in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if viols:
        os.makedirs(V + "/replays", exist_ok=True)
        for i, (pk, w) in enumerate(viols[:5]):
            f = "%s/replays/%s-%d.json" % (V, prop, i)
            w["binary"] = pk
            json.dump(w, open(f, "w"), indent=1)
            print("  failed: %s/%s vals=%s choices=%s native=%s" % (w.get("property", ""), w["label"], w["vals"], w["choices"], (w["native"].get("panic") or "")[:200]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    if sys.argv[1] == "build":
        gen()
        sys.exit(0 if build_all(sys.argv[2:] or ["hamm", "happ"]) else 2)
    if sys.argv[1] == "replay":
        w = json.load(open(sys.argv[2]))
        gen()
        build_all([w["binary"]], ("nat",))
        sys.exit(subprocess.run(["%s/bin/%s.nat" % (GEN, w["binary"]), "-replay", sys.argv[2]], env=dict(ENV, VF_V="1")).returncode)
    main()

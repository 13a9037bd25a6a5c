#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the table below (run by hand, results are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, text, why, files, mech, over=("inputs",), hs=(), q=40, th=600, note="", assume=(), observe=(), na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files), mech=mech, hs=list(hs), q=q, th=th,
                  note=note, assume=list(assume), observe=list(observe), na=na, state=list(state)))

exec(open(os.path.join(V, "tools", "table.py")).read())

TRUST = ["the engine's model of math/big on symbolic values (validated per run by replaying sampled paths on the unmodified build)", "z3 4.8.12"]
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = p["observe"]
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
C, M, NA = {}, [], []
for p in P:
    if not p["hs"]:
        NA.append({"property": p["id"], "reason": p["na"]})
        continue
    C[p["id"]] = {"harnesses": p["hs"], "quick_s": p["q"], "thorough_s": p["th"], "assumptions": TRUST + p["assume"]}
    M.append({"property": p["id"], "quick_cmd": "./check.py %s" % p["id"], "thorough_cmd": "./check.py %s thorough" % p["id"],
              "evidence_file": "evidence/%s.json" % p["id"],
              "technique": "symbolic execution of the compiled code with z3 (compilation-based, hooked math/big)", "level": "model_checking",
              "level_note": p["note"] or "bounded: every value within the harness bounds listed in the evidence, on every path completed; trusts the engine's integer model and z3"})
json.dump(C, open(V + "/checks.json", "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "python3 check.py build", "checks": M, "not_applicable": NA,
           "notes": "see DESIGN.md; no hooks are committed in /repo, instrumentation is applied through go build overlays"}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(M), "checks,", len(NA), "not applicable")

# DESIGN.md: prose plus the per-property part
out = [open(V + "/tools/design.md").read(), "## The properties\n"]
for p in P:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    if not p["hs"]:
        out.append("**Not applicable.** %s\n" % p["na"])
        continue
    out.append("Anchored in %s. Beyond the tests because %s.\n" % (", ".join("%s (`%s`)" % m for m in p["mech"]), p["why"]))
    try: ev = {h["name"]: h for h in json.load(open(V + "/evidence/%s.json" % p["id"]))["coverage"]["harnesses"]}
    except OSError: ev = {}
    hs = {}
    try: hs = json.load(open(V + "/tools/harnesses.json"))
    except OSError: pass
    for n, h in ev.items(): hs[n] = [h["bounds"], h["functions"]]
    json.dump(hs, open(V + "/tools/harnesses.json", "w"), indent=1, sort_keys=True)
    for h in p["hs"]:
        n = h.split("/")[1].rstrip("!")
        b = hs.get(n, ["", ""])
        out.append("* `%s`%s: %s\n  Encoded: %s." % (n, " (thorough only)" if h.endswith("!") else "", b[0], b[1]))
    if p["assume"]: out.append("\nNot covered here: %s." % "; ".join(p["assume"]))
    out.append("")
out.append(open(V + "/tools/findings.md").read())
import glob
out.append("\n## Planted bugs\n\nEach compiles, passes the existing tests and fails its own demonstration. Every one was applied to /repo and run against\nthe quick check of its property with `tools/catch.sh`; all are caught by it.\n\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|")
for m in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda m: (json.load(open(m))["property"], m)):
    d = json.load(open(m))
    out.append("| %s | %s | %s | %s |" % (m.split("/")[-2], d["property"], d["what_it_breaks"], d["needs"]))
out.append("")
open(V + "/DESIGN.md", "w").write("\n".join(out))

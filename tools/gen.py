#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and props.json and DESIGN.md from one table."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "table.py")).read())
lib = open(os.path.join(V, "proofs/src/lib.rs")).read()
done = set(re.findall(r'"(P\d\d)"', lib))
TRUST = ("Trusted: Kani/CBMC (SAT back end)%s, the Rust standard library as compiled, the listed hooks. "
         "f32 arithmetic is bit precise IEEE-754; NaN/inf producing operations are values, not errors.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if p["id"] in done or p.get("na"):
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p.get("obs", []), "hook_needed": p.get("hook")}}) + "\n")
checks, props, na = [], {}, []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if p["id"] not in done:
        continue
    verus = os.path.exists(os.path.join(V, "verus", p["id"] + ".py"))
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": p["tech"], "level": p["level"],
        "level_note": p["note"] + " " + TRUST % (", Verus/Z3 and the extractor verus/extract.py" if verus else ""),
    })
    props[p["id"]] = dict(p.get("cfg", {}), level=p["level"], explanation=p["note"],
                          trusted=p.get("trusted", []), assumptions=p.get("assume", []),
                          bounds={k: re.sub(r"^\d+ (?!ops|operations)", "", v) for k, v in p.get("bounds", {}).items()})
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("verif:")]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "cfg(kani) and cfg(hexo_verif)",
               "enable": "RUSTFLAGS=--cfg hexo_verif (native harnesses); cargo kani sets cfg(kani)",
               "source_commits": hooks or json.load(open(os.path.join(V, "MANIFEST.json")))["hooks"]["source_commits"]},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. check.py decides one property; tools/table.py is the source of this file."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump(props, open(os.path.join(V, "props.json"), "w"), indent=1)
K = {"KC": "Kani", "KV": "Verus", "KKV": "Kani and Verus"}
d = open(os.path.join(V, "tools/design_head.md")).read()
for p in PROPS:
    d += "\n### %s %s\n\n" % (p["id"], p["title"])
    if p.get("na"):
        d += "Not applicable: %s\n" % p["na"]
        continue
    d += p["statement"] + "\n\n"
    d += "*Quantified over* %s. *Why not tests:* %s.\n\n" % (p["quant"], p["why"])
    d += "*Decided by* " + p["note"] + "\n\n"
    d += "*Functions:* " + "; ".join("%s: %s" % m for m in p["mech"]) + ".\n\n"
    if p.get("bounds"):
        d += "*Bounded runs (quick, before the multiplier of the tier):* " + "; ".join("`%s` %s" % b for b in p["bounds"].items()) + ".\n\n"
    if p.get("assume"):
        d += "*Assumed:* " + "; ".join(p["assume"]) + ".\n"
d += open(os.path.join(V, "tools/design_tail.md")).read()
catch = json.load(open(os.path.join(V, "tools/catch.json")))
d += "| change | property | what it breaks | caught by |\n|---|---|---|---|\n"
seeds = [os.path.join(V, f, s) for f in ("seeded", "seeded_more") if os.path.isdir(os.path.join(V, f)) for s in os.listdir(os.path.join(V, f))]
for f in sorted(seeds, key=os.path.basename):
    s = os.path.basename(f)
    mt = json.load(open(os.path.join(f, "meta.json")))
    d += "| %s | %s | %s | %s |\n" % (s, mt["property"], mt["what_it_breaks"], catch.get(s, "?"))
if os.path.isdir(os.path.join(V, "seeded")):
    open(os.path.join(V, "DESIGN.md"), "w").write(d)
print(len(checks), "checks", len(na), "n/a")

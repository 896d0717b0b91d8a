#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and specs.py."""
import json, os
import props, specs
D = os.path.dirname(os.path.abspath(__file__))
ids = [p["id"] for p in props.PROPS]
assert len(ids) == len(set(ids)), "duplicate ids"
with open(D + "/properties.jsonl", "w") as f:
    for p in sorted(props.PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p.get("observe", []), hook_needed=None))) + "\n")
checks, na = [], []
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            technique="symbolic execution of the real code (compiled from /repo to LLVM IR), decided by z3" , level=s.get("level", "model_checking"),
            level_note="Bounded: " + s["bounds"] + (" Outside: " + s["outside"] if s.get("outside") else ""),
            evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason=p["na"]))
assert set(specs.SPECS) <= set(ids), set(specs.SPECS) - set(ids)
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
    notes="All checks share one engine (engine/) and one runner (check.py); see DESIGN.md. Violations are replayed on an uninstrumented AddressSanitizer build before they are reported."),
    open(D + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
# ---- DESIGN.md
import glob
d = open(D + "/DESIGN.in.md").read()
out = []
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    i = p["id"]
    if i not in specs.SPECS: continue
    s = specs.SPECS[i]
    out.append(f"### {i} {p['title']}\n{p['statement']}\n\n* **Decided by**: {props.HOW.get(i, 'symbolic execution of ' + ', '.join(t for t in s['tus']))}\n"
      f"* **Harness**: {', '.join('harness/' + h for h in s['harness'])}; level {s.get('level', 'model_checking')}\n* **Bounds**: {s['bounds']}\n* **Outside**: {s.get('outside') or '-'}\n"
      + (f"* **Assumptions**: {'; '.join(s['assumptions'])}\n" if s.get("assumptions") else "") + f"* **Beyond tests**: {p['why']}\n")
d = d.replace("@@PROPS@@", "\n".join(out))
kf = json.load(open(D + "/known_findings.json"))
d = d.replace("@@FIXED@@", "\n".join("* " + x for x in kf["fixed"]) + ("\n\nRecorded, not repaired (printed as KNOWN-FINDING on every run):\n" + "\n".join(f"* {k['property']}: {k['what']}" for k in kf["known"]) if kf["known"] else ""))
d = d.replace("@@SEEDED@@", "\n".join(f"* {os.path.basename(os.path.dirname(f))}: breaks {m['property']}, {m['what_it_breaks']} (needs: {m['needs']}). {props.CAUGHT.get(os.path.basename(os.path.dirname(f)), 'Caught by ' + m['property'] + '.')}" for f in sorted(glob.glob(D + "/seeded/*/meta.json")) for m in [json.load(open(f))]))
d = d.replace("@@NA@@", "\n".join(f"* {x['property']} {[p for p in props.PROPS if p['id'] == x['property']][0]['title']}: {x['reason']}" for x in na) or "(none)")
open(D + "/DESIGN.md", "w").write(d)

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import props
recs = []; checks = []; na = []
for i in sorted({**props.PROPS, **props.NA}):
    p = props.PROPS.get(i) or props.NA[i]
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p.get("state"): a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    if p.get("observe"): a["observe_at"] = p["observe"]
    a["hook_needed"] = None
    recs.append({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a})
    if i in props.PROPS:
        b = p["bounds"] if isinstance(p["bounds"], str) else p["bounds"]["quick"]
        checks.append({"property": i, "quick_cmd": f"python3 nsxrun.py check {i} quick", "thorough_cmd": f"python3 nsxrun.py check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "symbolic execution of the real code's LLVM IR with SMT (Z3) path/assertion queries; counterexamples replayed natively",
                       "level": "model_checking", "level_note": "Exhaustive within bounds: " + b + " Trusts the executor in /verif/engine, Z3, clang -O1, and the library models in engine/rt (sampled paths are re-run against a native g++ build)."})
    else: na.append({"property": i, "reason": p["reason"]})
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(r, ensure_ascii=False) + "\n" for r in recs))
m = {"version": 1, "setup_cmd": "python3 nsxrun.py setup", "checks": checks, "not_applicable": na,
     "notes": "One engine (engine/: symbolic executor over LLVM bitcode + Z3) and one harness per property area (harness/); props.py lists the properties and their jobs, gen.py derives this file and properties.jsonl. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
d = os.path.join(V, "DESIGN.md"); t = open(d).read(); a, b = "<!-- generated by gen.py from props.py -->\n", "<!-- end of generated part -->\n"   # design: the per-property part
if a in t and b in t:
    o = []
    for i in sorted(props.PROPS):
        p = props.PROPS[i]; bd = p["bounds"]; hs = sorted({j["h"].src for j in p["quick"] + p["thorough"]})
        o.append(f"### {i} {p['title']}\n\n" + f"Harness {', '.join('`harness/' + h + '`' for h in hs)}; {len(p['quick'])} quick and {len(p['thorough'])} thorough jobs. Code: " + ", ".join(f"`{f}`" for f in p["files"]) + ".\n\n" + f"Symbolic: {p['quant']}.\n\n" + ("Bounds: " + bd if isinstance(bd, str) else "Quick: " + bd["quick"] + (" Thorough: " + bd["thorough"] if "thorough" in bd else "")) + "\n\n" + "What tests cannot reach: " + p["why"] + "\n" + ("\nAssumed: " + "; ".join(p["assumptions"]) + ".\n" if p["assumptions"] else ""))
    na_ = ["### Not applicable\n"] + [f"* **{i} {props.NA[i]['title']}**: {props.NA[i]['reason']}" for i in sorted(props.NA)]
    t = t[:t.index(a) + len(a)] + "\n" + "\n".join(o) + "\n" + "\n".join(na_) + "\n" + t[t.index(b):]; open(d, "w").write(t)
try:
    import jsonschema
    for f, docs in (("/root/.vp/PROPERTIES.schema.json", recs), ("/root/.vp/MANIFEST.schema.json", [m])):
        if os.path.exists(f):
            s = json.load(open(f))
            for d in docs: jsonschema.validate(d, s)
    print("schemas ok:", len(recs), "properties,", len(checks), "checks")
except ImportError: pass

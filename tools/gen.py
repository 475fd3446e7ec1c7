"""Regenerates properties.jsonl and MANIFEST.json from the META blocks of the harness modules."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real Python code with z3 (path forking, bounded), counterexamples replayed"
props, checks, na = [], [], []
for f in sorted(glob.glob(ROOT + "/harness/c[0-9][0-9].py")) + [ROOT + "/harness/na.py"]:
    if not os.path.exists(f):
        continue
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("META", "NOT_APPLICABLE"):
            val = ast.literal_eval(n.value)
            for m in val if isinstance(val, list) else [val]:
                reason = m.pop("reason", None)
                note = m.pop("note", None)
                assert len(m["title"]) <= 80, m["title"]
                props.append(m)
                if reason:
                    na.append({"property": m["id"], "reason": reason})
                else:
                    checks.append({
                        "property": m["id"], "quick_cmd": f"./check {m['id']} --tier quick", "thorough_cmd": f"./check {m['id']} --tier thorough",
                        "technique": TECH, "level": "model_checking",
                        "level_note": note or ("Bounded: within the bounds listed in the evidence (" + m["quantifier"]["text"] + "), z3 shows the assertions for every value on every explored path of the current source; reals stand for floats, stubs and assumptions are listed in the evidence, anything undecided is reported as INCONCLUSIVE. Trusts z3 and the executor in symx/."),
                    })
ids = [p["id"] for p in props]
assert len(set(ids)) == len(ids)
open(ROOT + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in sorted(props, key=lambda p: p["id"])))
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": sorted(checks, key=lambda c: c["property"]), "not_applicable": na,
           "notes": "Symbolic execution engine in symx/, harnesses in harness/, described in DESIGN.md. No hooks in /repo."},
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, ps)
    jsonschema.validate(json.load(open(ROOT + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError:
    pass

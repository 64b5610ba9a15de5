"""Writes MANIFEST.json from the check modules (TECHNIQUE, NOTE) and the list of unclaimed properties."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
NA = json.load(open(HERE + "/tools/not_applicable.json"))
checks, na = [], []
for i in ids:
    p = "%s/sa/checks/%s.py" % (HERE, i.lower())
    if os.path.exists(p):
        c = {}
        for n in ast.parse(open(p).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                try:
                    c[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        checks.append({"property": i, "quick_cmd": "python3 -m sa.run %s" % i, "thorough_cmd": "python3 -m sa.run %s --thorough" % i,
                       "technique": c["TECHNIQUE"], "level": c.get("LEVEL", "other"), "level_note": c["NOTE"]})
    else:
        na.append({"property": i, "reason": NA[i]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: the checks parse /repo and never import or run it. No hooks in /repo."},
          open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

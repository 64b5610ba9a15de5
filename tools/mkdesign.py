"""DESIGN.md from tools/design_head.md, the checks' own descriptions, the planted bugs and tools/design_tail.md."""
import ast, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = {p["id"]: p for p in map(json.loads, open("properties.jsonl"))}
na = json.load(open("tools/not_applicable.json"))
res = json.load(open("tools/seed_results.json")) if os.path.exists("tools/seed_results.json") else {}
seeds = {}
for s in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % s))
    seeds.setdefault(m["property"], []).append((s, m))
out = [open("tools/design_head.md").read(), "## The properties\n"]
for pid in sorted(props):
    if pid in na:
        continue
    c = {}
    for n in ast.parse(open("sa/checks/%s.py" % pid.lower()).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    secs = ""
    try:
        e = json.load(open("evidence/%s.json" % pid))
    except OSError:
        e = {}
    out.append("### %s %s\n" % (pid, props[pid]["title"]))
    out.append("*Method*: %s.\n" % c["TECHNIQUE"].rstrip("."))
    out.append(c["EXPLANATION"] + "\n")
    out.append("*Bounds and assumptions*: " + c["NOTE"] + "\n")
    out.append("*Why tests cannot*: " + props[pid]["why_tests_cant"] + "\n")
    if pid in seeds:
        out.append("*Planted*: " + "; ".join("`%s` (%s)" % (s, res.get(s, "caught")) for s, _ in seeds[pid]) + ".\n")
out.append(open("tools/design_tail.md").read())
out.append("## Planted bugs\n\n| change | property | what it breaks | needs | check |\n|---|---|---|---|---|")
for pid in sorted(seeds):
    for s, m in seeds[pid]:
        out.append("| `%s` | %s | %s | %s | %s |" % (s, pid, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), res.get(s, "caught")))
open("DESIGN.md", "w").write("\n".join(out) + "\n")

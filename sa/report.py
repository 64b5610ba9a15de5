"""Findings, known findings, evidence files and exit codes."""
import hashlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, construct, where, message):
        self.rule, self.construct, self.where, self.message = rule, construct, where, message

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)


def known_findings():
    """{(property,key)} of the recorded, unrepaired defects.  'fixed:' lines suppress nothing."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                head, _, text = line[len("known: "):].partition(" :: ")
                parts = dict(p.split("=", 1) for p in head.split(" ", 1))
                out[(parts["property"], parts["key"])] = text
    return out


class Result:
    """What one check analysed and found."""
    def __init__(self, prop):
        self.prop = prop
        self.findings = []
        self.functions = set()
        self.obligations = []      # (rule, construct, verdict) verdict in discharged/undecided/violated
        self.rules = {}
        self.assumptions = []
        self.undecided = []
        self.extra = {}
        self.floors = []

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct):
        self.obligations.append((rule, construct, "discharged"))

    def unknown(self, rule, construct, why=""):
        self.obligations.append((rule, construct, "undecided"))
        self.undecided.append("%s %s: %s" % (rule, construct, why))

    def bad(self, rule, construct, where, message):
        self.obligations.append((rule, construct, "violated"))
        f = Finding(rule, construct, where, message)
        if f.key not in [x.key for x in self.findings]:
            self.findings.append(f)

    def check(self, cond, rule, construct, where, message):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, where, message)
        return cond

    def pack(self):
        return ([(f.rule, f.construct, f.where, f.message) for f in self.findings], self.functions, self.obligations, self.undecided)

    def merge(self, packed):
        fs, fns, obl, und = packed
        self.findings += [Finding(*f) for f in fs if "%s|%s" % (f[0], f[1]) not in [x.key for x in self.findings]]
        self.functions |= fns
        self.obligations += obl
        self.undecided += und

    def floor(self, what, have, need):
        self.floors.append((what, have, need))


def finish(res, tier, level, explanation, repo, t0):
    known = known_findings()
    viol, kn = [], []
    for f in res.findings:
        (kn if (res.prop, f.key) in known else viol).append(f)
    n = len(res.obligations)
    disc = sum(1 for o in res.obligations if o[2] == "discharged")
    und = sum(1 for o in res.obligations if o[2] == "undecided")
    h = hashlib.sha256()
    for name in sorted(repo.modules):
        h.update(name.encode()); h.update(repo.modules[name].source.encode())
    perrule = {}
    for r, c, v in res.obligations:
        perrule.setdefault(r, {}).setdefault(v, 0)
        perrule[r][v] += 1
    cov = {
        "explanation": explanation,
        "rules": res.rules,
        "obligations": n, "discharged": disc, "undecided": und,
        "violated": n - disc - und,
        "per_rule": perrule,
        "functions_analysed": sorted(res.functions),
        "functions_count": len(res.functions),
        "modules_parsed": len(repo.modules),
        "source_sha256": h.hexdigest(),
        "samples": ["%s %s -> %s" % o for o in res.obligations[:12]],
        "undecided_list": res.undecided[:60],
        "checker_cmd": "python3 -m sa.run %s" % res.prop,
        "trusted_base": ["CPython ast parser", "the checker in /verif/sa"],
    }
    cov.update(res.extra)
    ev = {
        "property": res.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": level, "coverage": cov, "assumptions": res.assumptions,
        "wall_s": round(time.time() - t0, 3), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", res.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d functions analysed" % (res.prop, n, disc, und, len(res.functions)))
    for f in kn:
        print("KNOWN-FINDING: property=%s %s" % (res.prop, known[(res.prop, f.key)] or f.message))
    if viol:
        rp = os.path.join(VERIF, "evidence", res.prop + ".violation.txt")
        with open(rp, "w") as fh:
            for f in viol:
                fh.write("%s\n  rule: %s - %s\n  construct: %s\n  %s\n\n" % (f.where, f.rule, res.rules.get(f.rule, ""), f.construct, f.message))
        for f in viol:
            print("  %s [%s] %s: %s" % (f.where, f.rule, f.construct, f.message))
        print("VIOLATION property=%s replay=%s" % (res.prop, rp))
        sys.stdout.flush()
        return 1
    for what, why in sorted({(u[1] if isinstance(u, (list, tuple)) and len(u) > 1 else str(u), u[2] if isinstance(u, (list, tuple)) and len(u) > 2 else "") for u in res.undecided})[:10]:
        print("  undecided: %s %s" % (what, why))
    for what, have, need in res.floors:
        if have < need and und and disc:
            print("  only %d of %s followed, at least %d expected: the rest is undecided" % (have, what, need))
        elif have < need:
            print("ANALYSIS-BROKEN property=%s: %s: %d instances, at least %d expected" % (res.prop, what, have, need))
            return 2
    return 0

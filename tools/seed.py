#!/usr/bin/env python3
"""Development aid: make and try planted bugs.

seed.py make FILE     FILE: "# id prop", "needs: ...", "breaks: ...", then blocks "@@ path" old "====" new,
                      then "@@ demo" followed by demo.py (run with the repository's interpreter, cwd = repository).
seed.py try [ID...]   demo on the unchanged copy, demo on the changed copy, the property's check on the changed copy
seed.py tests [ID...] the repository's stable tests on the changed copy
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(HERE, "seeded")
SH = """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
export SCRATCH=$S
timeout -s KILL 200 /opt/venv/bin/python "$D/demo.py"
"""


def copy(d):
    shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns("__pycache__", "results"))
    return d + "/r"


def make(path):
    text = open(path, encoding="utf-8").read()
    for one in ("\n" + text).split("\n### ")[1:]:
        parts = one.split("\n@@ ")
        head = parts[0].splitlines()
        sid, prop = head[0].split()
        meta = {"property": prop}
        for l in head[1:]:
            if l.startswith("needs:"):
                meta["needs"] = l[6:].strip()
            if l.startswith("breaks:"):
                meta["what_it_breaks"] = l[7:].strip()
        d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        r = copy(d)
        out = os.path.join(SEEDS, sid)
        os.makedirs(out, exist_ok=True)
        for p in parts[1:]:
            name, body = p.split("\n", 1)
            if name.strip() == "demo":
                open(out + "/demo.py", "w", encoding="utf-8").write(body.rstrip("\n") + "\n")
                continue
            old, new = body.split("\n====\n") if "\n====\n" in body else (body.split("\n====")[0], "")
            new = new.rstrip("\n")
            f = os.path.join(r, name.strip())
            s = open(f, encoding="utf-8").read()
            if s.count(old) != 1:
                print(sid, "PATTERN occurs", s.count(old), "times:", name)
                break
            open(f, "w", encoding="utf-8").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w", encoding="utf-8").write(diff)
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(meta, open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
        print(sid, "made", len(diff.splitlines()), "lines")


def attempt(sid):
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        r = copy(d)
        s = os.path.join(SEEDS, sid)
        shutil.copytree(s, d + "/elsewhere", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        meta = json.load(open(s + "/meta.json"))
        a = subprocess.run(["bash", d + "/elsewhere/demo.sh"], cwd=r, capture_output=True, text=True)
        ap = subprocess.run(["git", "apply", s + "/patch.diff"], cwd=r, capture_output=True, text=True)
        b = subprocess.run(["bash", d + "/elsewhere/demo.sh"], cwd=r, capture_output=True, text=True)
        shutil.copytree(HERE, d + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        props = [meta["property"]]
        c = subprocess.run([sys.executable, "-m", "sa.run"] + props, cwd=d + "/v", env={**os.environ, "VERIF_REPO": r}, capture_output=True, text=True)
        okd = a.returncode == 0 and b.returncode != 0 and ap.returncode == 0
        t = "%-14s %s demo clean=%d patched=%d apply=%d | check %s" % (sid, meta["property"], a.returncode, b.returncode, ap.returncode, {1: "CAUGHT", 0: "missed"}.get(c.returncode, "exit %d" % c.returncode))
        if not okd:
            t += "\n   BAD DEMO\n" + (a.stdout + a.stderr)[-1200:] + "\n   ----\n" + (b.stdout + b.stderr)[-1200:]
        elif os.environ.get("V"):
            t += "\n" + (b.stdout + b.stderr)[-300:] + c.stdout[-900:] + c.stderr[-600:]
        return t
    finally:
        shutil.rmtree(d)


def tests(sid):
    d = tempfile.mkdtemp(prefix="seed", dir="/dev/shm")
    try:
        r = copy(d)
        subprocess.run(["git", "apply", SEEDS + "/%s/patch.diff" % sid], cwd=r)
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        sel = [t.split("::")[0].rsplit(".", 1)[0].replace(".", "/") + ".py::" + t.split("::")[0].rsplit(".", 1)[1] + "::" + t.split("::")[1] for t in base]
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", *sel], cwd=r, capture_output=True, text=True,
                           env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"}, stdin=subprocess.DEVNULL)
        return "%-14s tests: %s" % (sid, "\n".join(l for l in p.stdout.strip().splitlines() if l.startswith(("FAILED","E "))or l==p.stdout.strip().splitlines()[-1]) if p.stdout.strip() else p.stderr[-300:])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDS))
        with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "6"))) as ex:
            for t in ex.map(attempt if sys.argv[1] == "try" else tests, ids):
                print(t, flush=True)

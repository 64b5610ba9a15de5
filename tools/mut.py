#!/usr/bin/env python3
"""Development aid: apply small textual edits to a scratch copy of /repo and see which checks react.

tools/mut.py FILE [Cxx]   - FILE holds blocks: "## <check> <bug|same> <path>" then old text, a line "====", new text.
bug: the check must exit 1; same: it must exit 0.
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def blocks(path):
    cur = None
    for line in open(path, encoding="utf-8"):
        if line.startswith("## "):
            if cur:
                yield cur
            cur = [line[3:].split(), ""]
        elif cur:
            cur[1] += line
    if cur:
        yield cur


def one(b):
    (check, kind, rel), text = b[0][:3], b[1]
    pairs = []
    for part in text.split("\n@@\n"):
        old, new = (part + "\n").split("====\n")[:2]
        pairs.append((old.rstrip("\n"), new.rstrip("\n")))
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree(os.environ.get("MUT_BASE", "/repo"), d + "/r", ignore=shutil.ignore_patterns(".git", "__pycache__", "results"))
        p = os.path.join(d, "r", rel)
        s = open(p, encoding="utf-8").read()
        for old, new in pairs:
            if s.count(old) < 1:
                return b, "PATTERN NOT FOUND", ""
            s = s.replace(old, new, 1)
        open(p, "w", encoding="utf-8").write(s)
        shutil.copytree(HERE, d + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        try:
            r = subprocess.run([sys.executable, "-m", "sa.run", check], cwd=d + "/v", env={**os.environ, "VERIF_REPO": d + "/r"}, capture_output=True, text=True, timeout=int(os.environ.get("MUT_TIMEOUT", "900")))
        except subprocess.TimeoutExpired:
            return b, "TIMEOUT", ""
        want = 1 if kind == "bug" else 0
        return b, ("ok" if r.returncode == want else "MISSED" if kind == "bug" else "FALSE ALARM") + " (exit %d)" % r.returncode, r.stdout + r.stderr[-1500:]
    finally:
        shutil.rmtree(d)


def main():
    bs = [b for b in blocks(sys.argv[1]) if len(sys.argv) < 3 or b[0][0] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "6"))) as ex:
        for b, verdict, out in ex.map(one, bs):
            first = b[1].split("====\n")[1].strip().splitlines()
            print("%-28s %s  %s" % (verdict, " ".join(b[0]), first[0][:80] if first else "(deleted)"))
            if not verdict.startswith("ok") or os.environ.get("V"):
                print("    " + "\n    ".join(out.strip().splitlines()[-6:]))


main()

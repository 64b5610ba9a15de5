"""C22: cleaning up removes only the files it is meant to remove."""
import ast

from .. import core
from ..flow import TooComplex, is_raise
from ..fsmodel import LISTINGS
from . import store

TECHNIQUE = "abstract interpretation of the running, reading and cache-clearing code over a symbolic results tree, plus a dataflow scan of all deletion sites"
NOTE = ("Root directories with and without the problem's name in them, two algorithms, problems and runs stand for all. A deletion outside the interpreted "
        "commands counts only when its target comes from the results directory.")
EXPLANATION = ("Runs are stored, all indicators are computed and cached, more runs are stored and everything is computed again, in the abstract; every file "
               "opened for writing, removed or renamed on the way is compared with the files the runs stored and the caches each indicator wrote.  All other "
               "deletion or overwriting sites of the program are located in the syntax tree and their targets traced.")
ROOTS = ("RESULTS", "old_ZDT1_x/UF1_pareto_dominance_indicator.pickle/res_ZDT1_")
DELETERS = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "os.rename", "os.replace", "os.renames", "os.truncate", "shutil.rmtree", "shutil.move"}
METHODS = {"unlink", "rmdir", "rename", "replace", "write_text", "write_bytes", "truncate"}


def run(repo, res, tier):
    res.rule("results", "no command deletes, renames or overwrites a stored result")
    res.rule("caches", "clearing an indicator's cached values removes that indicator's files and no others")
    res.rule("cleared", "all cached values of an indicator that compares runs are dropped when the set of runs changes")
    res.rule("sites", "no other place in the program deletes or overwrites files of the results directory")
    n, functions = 0, set()
    for mode in ("budget", "time"):
        for root in ROOTS:
            for listing in LISTINGS if tier == "thorough" else LISTINGS[:1]:
                tag = "%s results under %s, listing %s" % (mode, root, listing)
                try:
                    n += one(repo, res, mode, root, listing, tag, functions)
                except (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError) as e:
                    res.unknown("caches", tag, "%s: %s" % (type(e).__name__, e))
    res.functions |= functions
    sites(repo, res, functions)
    res.floor("file operations followed", n, 20)


def compute(repo, fl, s, mode, root):
    """everything read and computed -> (state, rows, {file: indicator}, trace)"""
    s.trace = ()
    s, rows = store.reading(repo, fl, s, mode, root)
    if isinstance(rows, tuple):
        raise TooComplex("reading raises %s" % rows[1])
    owner, trace = {}, s.trace
    for r in rows:
        s.trace = ()
        s, vals = store.analyse(fl, s, r)
        trace += tuple(e + (r["problem"],) if e[0] == "fs-remove" else e for e in s.trace)
        for v in vals:
            for e in v["events"]:
                if e[0] in ("fs-write", "fs-open"):
                    owner.setdefault(e[1], set()).add(v["short"])
    s.trace = ()
    return s, rows, owner, trace


def one(repo, res, mode, root, listing, tag, functions):
    bad = set()
    fl, st, cases = store.fill(repo, mode, root=root)
    fl.listing = listing
    results = {f for c in cases for f in c["files"]}
    s, rows, owner, trace = compute(repo, fl, st, mode, root)
    n = judge(trace, results, owner, bad)
    existing = set(s.data["fs"])
    fl, s, more = store.fill(repo, mode, fl=fl, root=root, st=s, runs_no=2)
    for c in more:
        n += 1
        for f in c["files"]:
            if f in existing:
                bad.add(("results", "simulation.serializer.Serializer.store", "a run overwrites %s, which was there before" % "/".join(f)))
        for f, where in c["removed"]:
            if f in existing:
                bad.add(("results", where, "a run removes %s" % "/".join(f)))
        existing |= set(c["files"])
        results |= set(c["files"])
    stale = {f for f, names in owner.items() if "pdi" in names and f in s.data["fs"]}
    s, rows, owner2, trace = compute(repo, fl, s, mode, root)
    for f, names in owner2.items():
        owner.setdefault(f, set()).update(names)
    n += judge(trace, results, owner, bad)
    gone = {e[1] for e in trace if e[0] in ("fs-remove", "fs-open")}
    left = sorted(stale - gone)
    if left and not any(e[0] == "fs-remove" and e[1] is None for e in trace):
        bad.add(("cleared", "simulation.metrics_processor.clear_old_pdi_metrics", "the cached value %s survives a change of the set of runs" % "/".join(left[0][-2:])))
    for rule, where, why in sorted(bad)[:4]:
        res.bad(rule, where, "simulation/metrics_processor.py", "%s (%s)" % (why, tag))
    for rule in ("results", "caches", "cleared"):
        if rule not in {b[0] for b in bad}:
            res.ok(rule, tag)
    functions |= fl.functions
    return n


def judge(trace, results, owner, bad):
    n = 0
    for e in trace:
        if e[0] in ("fs-remove", "fs-open", "fs-write"):
            n += 1
            f, where = e[1], e[2]
            if f is None:
                continue
            name = "/".join(f)
            if f in results:
                bad.add(("results", where, "the stored result %s is %s" % (name, "removed" if e[0] == "fs-remove" else "overwritten")))
            elif e[0] == "fs-remove" and f in owner and "pdi" not in owner[f]:
                bad.add(("caches", where, "clearing the comparison of runs removes %s, a cached value of %s" % (name, "/".join(sorted(owner[f])))))
            elif e[0] == "fs-remove" and len(e) > 3 and e[3] not in f[:-1]:
                bad.add(("caches", where, "clearing the comparison of runs on %s removes %s" % (e[3], name)))
            elif e[0] == "fs-remove" and f not in owner:
                bad.add(("caches", where, "%s is removed, which is no cached value" % name))
    return n


# ---------------------------------------------------------------- the rest of the program
def sites(repo, res, functions):
    mods = imported(repo, "evogil")
    left = any(o[2] == "undecided" for o in res.obligations)
    n = 0
    for m in mods:
        for fn, node in core_functions(m):
            for call in [x for x in ast.walk(node) if isinstance(x, ast.Call)] if fn is not None else toplevel_calls(m):
                target = deletion(repo, m, call)
                if target is None:
                    continue
                n += 1
                qual = core.qual_of(node, m) if fn is not None else m.name
                if qual in functions or any(q.startswith(qual + ".") or qual.startswith(q + ".") for q in functions if q.startswith(m.name + ".")):
                    continue
                src = sources(node, target)
                where = "%s:%d" % (m.rel, call.lineno)
                hit = sorted(src & {"--dir", "RESULTS_DIR", "each_result", "results_dir", "results_path", "path.parent", "problem_path", "algo_path"})
                if hit and "-o" not in src and left:
                    res.unknown("sites", qual + ":" + ast.unparse(target), "the commands have not been followed completely, and this one may be part of them")
                elif hit and "-o" not in src:
                    res.bad("sites", qual, where, "deletes or overwrites %s, which comes from %s" % (ast.unparse(target), hit[0]))
                else:
                    res.ok("sites", qual + ":" + ast.unparse(target))
    res.ok("sites", "%d modules" % len(mods))
    res.floor("modules scanned for deletions", len(mods), 20)


def imported(repo, root):
    seen, todo = [], [root]
    while todo:
        name = todo.pop()
        if name not in repo.modules or repo.modules[name] in seen:
            continue
        m = repo.modules[name]
        seen.append(m)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                todo += [a.name for a in x.names]
            elif isinstance(x, ast.ImportFrom):
                base = m._abs(x)
                todo.append(base)
                todo += [base + "." + a.name for a in x.names]
    return seen


def core_functions(m):
    for x in ast.walk(m.tree):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield x.name, x
    yield None, m.tree


def toplevel_calls(m):
    out, stack = [], list(m.tree.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and isinstance(x.test.left, ast.Name) and x.test.left.id == "__name__":
            continue
        if isinstance(x, ast.Call):
            out.append(x)
        stack.extend(ast.iter_child_nodes(x))
    return out


def deletion(repo, m, call):
    """the expression naming the file, when the call deletes, renames or opens one for writing"""
    f = call.func
    if isinstance(f, ast.Attribute):
        base = f.value
        if isinstance(base, ast.Name):
            r = repo.resolve_global(m, base.id)
            if r and r[0] == "ext":
                return call.args[0] if "%s.%s" % (r[1], f.attr) in DELETERS and call.args else None
        if f.attr in METHODS and not (f.attr == "replace" and len(call.args) != 1) and not isinstance(base, ast.Constant):
            return base
        if f.attr == "open" and writing(call, 0):
            return base
    elif isinstance(f, ast.Name):
        if f.id == "open" and call.args and writing(call, 1):
            return call.args[0]
        r = repo.resolve_global(m, f.id)
        if r and r[0] == "ext" and r[1] in DELETERS and call.args:
            return call.args[0]
    return None


def writing(call, pos):
    mode = call.args[pos] if len(call.args) > pos else next((k.value for k in call.keywords if k.arg == "mode"), None)
    return isinstance(mode, ast.Constant) and isinstance(mode.value, str) and any(c in mode.value for c in "wx+a")


def sources(fn, target):
    """names, option strings and attribute chains a file name is computed from (within the function)"""
    out, todo, done = set(), [target], set()
    while todo:
        x = todo.pop()
        for y in ast.walk(x):
            if isinstance(y, ast.Constant) and isinstance(y.value, str):
                out.add(y.value)
            elif isinstance(y, ast.Attribute):
                out.add(y.attr)
                if isinstance(y.value, ast.Attribute):
                    out.add(y.value.attr + "." + y.attr)
            elif isinstance(y, ast.Name):
                out.add(y.id)
                if y.id in done:
                    continue
                done.add(y.id)
                for z in ast.walk(fn):
                    if isinstance(z, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and z.value is not None:
                        ts = z.targets if isinstance(z, ast.Assign) else [z.target]
                        if any(isinstance(n, ast.Name) and n.id == y.id for t in ts for n in ast.walk(t)):
                            todo.append(z.value)
                    elif isinstance(z, (ast.For, ast.comprehension)) and any(isinstance(n, ast.Name) and n.id == y.id for n in ast.walk(z.target)):
                        todo.append(z.iter)
                    elif isinstance(z, ast.withitem) and z.optional_vars is not None and any(isinstance(n, ast.Name) and n.id == y.id for n in ast.walk(z.optional_vars)):
                        todo.append(z.context_expr)
    return out

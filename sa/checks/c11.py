"""C11: the search tree respects its level limits and its per-level parameters."""
import multiprocessing
import os
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import core
from ..flow import K, NONE, TooComplex, is_raise, is_t
from . import tree
from .tree import subterms

TECHNIQUE = "abstract interpretation of tree histories with tagged per-level tables (taint of table entries)"
NOTE = ("Trees of up to about a dozen nodes over 9 to 14 steps, up to four levels; which nodes stagnate or are redundant follows fixed and pseudo-random schedules; message orders as in C10. The level of a node is the "
        "one its entries agree on. Inner drivers, objectives, volumes and distances are opaque.")
EXPLANATION = ("Both variants of the tree are interpreted through the HGS front with tables whose entries are symbols named after their level. Every driver created is compared with its level: population size, "
               "variances, rates, objective precision, mantissa, steps per metaepoch, cost factor, progress ratio and distance thresholds must all carry that level's entries, and its parent, the node whose "
               "delegate it grew from, must be one level above. Creations are counted per parent and step, live sprouts by which drivers are stepped in the next metaepoch.")
WHERE = {"classic": "algorithms/HGS/classic/ClassicHGS.py", "distributed": "algorithms/HGS/distributed/"}
PARAMS = {"mutation_eta": "mutation_etas", "mutation_rate": "mutation_rates", "crossover_eta": "crossover_etas", "crossover_rate": "crossover_rates"}


def plans(tier):
    out = []
    shapes = [dict(), dict(max_sprouts=3, sproutiveness=2, delegates=3), dict(max_level=1, max_sprouts=1, sproutiveness=3, delegates=2), dict(max_level=0), dict(max_level=3, depth=4),
              dict(max_level=1, depth=2, max_sprouts=3, sproutiveness=3, delegates=4), dict(max_level=1, depth=4, max_sprouts=2, sproutiveness=2, delegates=3), dict(max_sprouts=1, sproutiveness=1, delegates=3)]
    verdicts = [("always", "never"), ("hash", "hash"), ("mostly", "late"), ("late", "mostly"), ("always", "always")]
    for kind in ("classic", "distributed"):
        for i, sh in enumerate(shapes):
            for j, (p, r) in enumerate(verdicts):
                for seed in range(1, 2 if tier == "quick" else 7):
                    if tier == "quick" and j > 1 and (i + j) % 2:
                        continue
                    out.append(tree.Plan(kind, progress=p, redundant=r, policy=("fifo", "lifo", "mixed")[(i + j + seed) % 3], steps=10 if tier == "quick" else 14, seed=seed + 7 * i, **sh))
    return out


def tags(fl, s, v, name):
    return {x[3] for x in subterms(fl.snap(s, v)) if x[1] == "tab" and x[2] == name}


def closures(fl, s, k):
    """the entries a driver's objectives and rounding use, when called now -> {table: levels} or None"""
    args, kw = s.data[("args", k)]
    kw = dict(kw)
    out = {}
    seen = []

    class Probe:
        pass
    old = fl.compare_hook

    def watch(st, op, a, b, n):
        seen.extend(x for y in (a, b) for x in subterms(fl.snap(st, y)) if x[1] == "tab")
        return old(st, op, a, b, n)
    fl.compare_hook = watch
    try:
        for name, arg in (("fitness_errors", "fitnesses"), ("mantissa_bits", "trim_function")):
            if arg not in kw:
                continue
            fs = fl.exact(s, kw[arg]) if arg == "fitnesses" else [kw[arg]]
            got = set()
            vec = fl.vec(s, k, 0)
            for f in fs or ():
                s2 = s.copy()
                x = vec if arg == "fitnesses" else s2.new(tree.Obj("list", items=(tree.T("coord", k, 0), tree.T("coord", k, 1))))
                del seen[:]
                for s3, v in fl.call(s2, f, [x], {}, None):
                    if not is_raise(v):
                        got |= tags(fl, s3, v, name)
                got |= {x[3] for x in seen if x[2] == name}
            out[name] = got
    finally:
        fl.compare_hook = old
    return out


def judge(fl, s, v, plan):
    if is_raise(v):
        return "history", "a step of the tree fails with %s%s" % (v[1], "" if v[2] is None else ": %s" % (v[2],))
    level, parent, made_in, archive = {}, {}, {}, {}
    sizes, lens = plan.sizes(), plan.lens()
    step, stepped, children = None, {}, {}
    costs = []
    for e in s.trace:
        if e[0] == "crash":
            return "history", "handling %s fails: %s %s" % (e[1], e[2], e[3])
        if e[0] == "mark":
            step = e[1]
        elif e[0] == "driver":
            k, kw, pop, where = e[1], dict(e[2]), e[3], e[4]
            ls = {}
            for arg, name in PARAMS.items():
                if arg in kw:
                    got = {x[3] for x in subterms(kw[arg]) if x[1] == "tab"}
                    other = {x[2] for x in subterms(kw[arg]) if x[1] == "tab"} - {name}
                    if other:
                        return "driver arguments", "a node's %s is taken from %s" % (arg, sorted(other)[0])
                    if len(got) == 1:
                        ls[arg] = got.pop()
            if len(set(ls.values())) > 1:
                return "driver arguments", "a node is built with the entries of several levels: %s" % ", ".join("%s of level %d" % (a, l) for a, l in sorted(ls.items()))
            if not ls:
                return None
            l = level[k] = next(iter(ls.values()))
            if l > plan.max_level:
                return "last level", "a node is created on level %d, below the last level %d" % (l, plan.max_level)
            t = subterms(pop)
            ps = {x[2] for x in t if x[1] == "deleg"}
            if ps:
                if len(ps) > 1:
                    return "sprout population", "a sprout's population mixes the delegates of several nodes"
                p = parent[k] = ps.pop()
                if level.get(p) is not None and l != level[p] + 1:
                    return "sprout level", "a sprout of a node on level %d uses the entries of level %d" % (level[p], l)
                for x in t:
                    if x[1] == "mut":
                        for a, name in (("rate", "mutation_rates"), ("eta", "mutation_etas")):
                            for tt in subterms(x[2]):
                                if tt[1] == "tab" and tt[3] != l:
                                    return "sprout variance", "the population of a sprout on level %d is spread with %s of level %d" % (l, tt[2], tt[3])
                        used = {tt[2] for tt in subterms(x[2]) if tt[1] == "tab"}
                        if used and used != {"mutation_rates", "mutation_etas"}:
                            return "sprout variance", "the population of a sprout is spread with %s" % ", ".join(sorted(used))
                        for a, tb in x[2]:
                            if a in ("rate", "eta") and is_t(tb, "tab") and not tb[2].startswith("mutation_" + a):
                                return "sprout variance", "the %s a sprout's population is spread with is taken from %s" % (a, tb[2])
                children.setdefault((p, step), []).append(k)
            elif l != 0:
                return "root level", "the root uses the entries of level %d" % l
            items = pop[3] if is_t(pop, "snap") else None
            if items is not None and len(items) != sizes[l]:
                return "population size", "a node on level %d is given %d individuals, its level says %d" % (l, len(items), sizes[l])
            if "fitness_archive" in kw:
                archive.setdefault(l, set()).add(repr(kw["fitness_archive"]))
        elif e[0] == "step":
            if step and step.startswith("step"):
                stepped.setdefault(step, {}).setdefault(e[1], 0)
                stepped[step][e[1]] += 1
        elif e[0] == "progress":
            ks = [k for x in e[2] for k in x]
            for k in ks:
                if e[1] and k in level and set(e[1]) != {level[k]}:
                    return "progress ratio", "the progress of a node on level %d is judged with min_progress_ratio of level %s" % (level[k], e[1])
        elif e[0] == "redundancy":
            want = {level[i[1]] for i in e[2] if i[0] == "driver" and i[1] in level} | {level[i[1]] + 1 for i in e[2] if i[0] in ("delegate", "grown") and i[1] in level}
            if len(want) > 1:
                return "redundancy", "nodes of levels %s are compared for redundancy" % sorted(want)
            if want and e[1] and set(e[1]) != want:
                return "redundancy", "redundancy on level %d is judged with the distance of level %s" % (want.pop(), list(e[1]))
        elif e[0] == "cost":
            costs.append(e[2])
    for a in archive:
        for b in archive:
            if a < b and archive[a] & archive[b]:
                return "fitness archive", "levels %d and %d, whose objectives differ in precision, share one archive of objective values" % (a, b)
    for st_, ks in stepped.items():
        for k, c in ks.items():
            if k in level and c != lens[level[k]]:
                return "metaepoch", "a node on level %d runs %d steps in a metaepoch, its level says %d" % (level[k], c, lens[level[k]])
    names = ["step %d" % (i + 1) for i in range(plan.steps)]
    for (p, st_), ks in children.items():
        if len(ks) > plan.sproutiveness:
            return "sproutiveness", "a node releases %d sprouts at once, the sproutiveness is %d" % (len(ks), plan.sproutiveness)
        if st_ in names and names.index(st_) + 1 < len(names):
            alive = [k for k in parent if parent[k] == p and k in stepped.get(names[names.index(st_) + 1], {})]
            if len(alive) > plan.max_sprouts:
                return "live sprouts", "a node that has %d live sprouts of its own releases more: %d are allowed" % (len(alive) - len(ks), plan.max_sprouts)
    for c in costs:
        for x in subterms(c):
            if x[1] == "*":
                ts = {y[3] for y in subterms(x) if y[1] == "tab" and y[2] == "cost_modifiers"}
                ds = {level.get(y[2]) for y in subterms(x) if y[1] == "dcost"}
                if len(ts) == 1 and len(ds) == 1 and ts != ds and None not in ds:
                    return "cost factor", "the cost of a node on level %d is scaled with the factor of level %d" % (ds.pop(), ts.pop())
    # what the objectives and the rounding of every node use, now that the tree is grown
    for k, l in sorted(level.items()):
        for name, got in closures(fl, s, k).items():
            if got and got != {l}:
                return "objective precision" if name == "fitness_errors" else "rounding", "a node on level %d uses %s of level %s" % (l, name, sorted(got))
    return None


def one(job):
    sys.setrecursionlimit(30000)
    root, plan = job
    repo = core.shared(root)
    try:
        fl, out = tree.history(repo, plan)
        bad, n, closed = None, 0, 0
        for s, v in out:
            bad = bad or judge(fl, s, v, plan)
            n = max(n, s.data.get("drivers", 0))
            if n and not is_raise(v):
                closed += sum(len(g) for g in closures(fl, s, n - 1).values())
    except (TooComplex, RecursionError) as e:
        return plan, None, str(e) or "too deep", set(), 0, 0
    return plan, bad, None, fl.functions, n, closed


def run(repo, res, tier):
    res.rule("levels", "every node of a history uses its own level's entries only, sprouts lie one level deeper, and creation stays within the limits")
    res.assumptions += ["an inner driver's step, objective and volume do not raise", "messages between the same two actors keep their order"]
    jobs = [(repo.root, p) for p in plans(tier)]
    nodes, traced = {}, {}
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        for plan, bad, unk, fns, n, closed in ex.map(one, jobs):
            res.functions |= fns
            nodes[plan.kind] = nodes.get(plan.kind, 0) + n
            traced[plan.kind] = traced.get(plan.kind, 0) + closed
            if unk:
                res.unknown("levels", str(plan), unk)
            elif bad:
                res.bad("levels", "%s: %s" % (plan.kind, bad[0]), WHERE[plan.kind], "%s [%s]" % (bad[1], plan))
            else:
                res.ok("levels", str(plan))
    res.extra.update({"histories": len(jobs), "nodes": nodes, "entries_seen_in_closures": traced})
    if not any(o[2] == "violated" for o in res.obligations):
        for kind in WHERE:
            res.floor("nodes of the %s tree" % kind, nodes.get(kind, 0), 60)
            res.floor("level entries used by %s nodes' objectives and rounding" % kind, traced.get(kind, 0), 20)

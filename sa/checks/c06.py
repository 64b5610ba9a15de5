"""C06: reported cost counts every new objective evaluation exactly once."""
import multiprocessing
import os
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import core
from ..flow import TooComplex, is_raise, show
from . import algos, c37, histories, tree
from .tree import amount, subterms

TECHNIQUE = "abstract interpretation of algorithm, island and tree histories; the cost reported against the evaluations recorded, as terms"
NOTE = ("Histories of 2 to 3 steps, populations of 2 to 6 (islands of 3 to 9), 2 or 3 objectives, with and without a cache filled beforehand; trees as in C37, the costs of their inner drivers opaque and never falling. "
        "Evaluations an island makes while choosing emigrants, and the dominated volumes of the tree's nodes, are not charged and not judged; an individual IBEA evaluates again without asking the cache is not judged.")
EXPLANATION = ("Algorithms and islands are interpreted over symbolic numbers; each call of an objective is recorded with the vector it gets, and after every step the cost reported must equal the number of individuals whose "
               "objectives were computed that had none in the cache or of their own. The tree is interpreted over opaque inner drivers; its cost is a term over what they report, evaluated at numbers a schedule picks and "
               "compared with the sum, over the nodes advanced, of what each was charged since its last metaepoch times the modifier of its level (classic), or with the sum over the metaepochs of the largest of these "
               "(distributed, where nodes run side by side).")
WHERE = c37.WHERE


def tree_cost(s, v, plan):
    if is_raise(v):
        return "history", "a step of the tree fails with %s" % v[1]
    level, n, total, step, prev = {}, {}, 0, {}, 0
    for e in s.trace:
        if e[0] == "crash":
            return "history", "handling %s fails: %s %s" % (e[1], e[2], e[3])
        if e[0] == "mark":
            step = {}
        elif e[0] == "driver":
            tabs = {x[3] for x in subterms(e[2]) if x[1] == "tab" and x[2] in ("mutation_etas", "crossover_etas", "mutation_rates", "crossover_rates")}
            if len(tabs) != 1:
                return "levels", "an inner driver is set up with entries of levels %s" % sorted(tabs)
            level[e[1]], n[e[1]] = tabs.pop(), 0
        elif e[0] == "step":
            k = e[1]
            step.setdefault(k, n[k])
            n[k] += 1
        elif e[0] == "cost":
            got = amount(e[2], plan.seed)
            if got is None:
                raise TooComplex("the cost reported is %s" % show(e[2])[:80])
            mod = lambda k: amount(("t", "tab", "cost_modifiers", level[k]), plan.seed)
            dc = lambda k, m: amount(("t", "dcost", k, m), plan.seed)
            spent = [mod(k) * (dc(k, n[k]) - dc(k, m)) for k, m in step.items()]
            total += sum(spent) if plan.kind == "classic" else max(spent, default=0)
            if got != total:
                return "cost", "after %s the cost reported is %s; the nodes advanced so far were charged %s" % (e[1], float(got), float(total))
            if got < prev:
                return "cost", "the cost falls from %s to %s" % (float(prev), float(got))
            prev = got
            step = {}
    return None


def one(job):
    sys.setrecursionlimit(30000)
    root, plan = job
    repo = core.shared(root)
    try:
        fl, out = tree.history(repo, plan)
        bad, n = None, 0
        for s, v in out:
            bad = bad or tree_cost(s, v, plan)
            n += sum(1 for e in s.trace if e[0] == "step")
    except (TooComplex, RecursionError) as e:
        return plan, None, str(e) or "too deep", set(), 0
    return plan, bad, None, fl.functions, n


def plans(tier):
    quick = tier == "quick"
    return histories.single(24 if quick else 160) + histories.islands(4 if quick else 24)


def run(repo, res, tier):
    res.rule("cost", "after construction and each step the cost reported is the number of individuals newly evaluated")
    res.rule("histories", "one obligation per history followed to its end")
    res.rule("tree", "the cost of a tree is what its nodes were charged, each once, times the modifier of the level")
    res.assumptions += histories.ASSUMPTIONS + ["an inner driver's step does not raise and its cost never falls", "messages between the same two actors keep their order"]
    t = histories.judged(repo, res, algos.judge_cost, plans(tier))
    jobs = [(repo.root, p) for p in c37.plans(tier)]
    steps = {}
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        for plan, bad, unk, fns, n in ex.map(one, jobs):
            res.functions |= fns
            steps[plan.kind] = steps.get(plan.kind, 0) + n
            if unk:
                res.unknown("tree", str(plan), unk)
            elif bad:
                res.bad("tree", "%s: %s" % (plan.kind, bad[0]), WHERE[plan.kind], "%s [%s]" % (bad[1], plan))
            else:
                res.ok("tree", str(plan))
    res.extra["driver_steps"] = steps
    if not any(o[2] == "violated" for o in res.obligations):
        for a, c in sorted(t.items()):
            if a != "BOGO":
                res.floor("individuals charged by %s" % a, c["charged"], 40)
        for kind in WHERE:
            res.floor("driver steps in the %s tree" % kind, steps.get(kind, 0), 300)

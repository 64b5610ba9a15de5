"""Which histories of the algorithms are interpreted, and how a check judges them."""
import collections
import multiprocessing
import os
import random
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import core
from ..flow import K, TooComplex
from . import algos
from .algos import ADAPTERS, ALGOS, AlgoFlow, Plan, history

ORDERS = ("hash", "front", "ties", "chain", "smooth", "equal", "hash", "front")
DRAWS = ("mixed", "plain", "edge", "low", "high", "mixed")


def given(r, algo):
    g = {"mutation_eta": K(r.choice((20.0, 2.0, 0.5))), "crossover_eta": K(r.choice((30.0, 1.0))), "mutation_rate": K(r.choice((0.9, 0.4, 0.0, 1.0))), "crossover_rate": K(r.choice((0.8, 1.0, 0.2)))}
    if algo in ("NSGAII", "IBEA", "JGBL"):
        g["mating"] = r.choice((1.0, 1.0, 0.5))
        g["mating_population_size"] = K(g["mating"])
    if algo == "JGBL":
        g["jumping_rate"], g["jumping_percentage"] = K(r.choice((0.7, 1.0, 0.3))), K(r.choice((0.5, 0.3, 1.0)))
    return g


def single(per, first=0):
    """`per` histories of each algorithm"""
    out = []
    for algo in ALGOS:
        for i in range(first, first + per):
            r = random.Random("%s %d" % (algo, i))
            out.append(Plan(algo, n=r.choice((2, 3, 4, 5, 5, 6)), dims=r.choice((1, 2, 3, 3, 4)), nobj=r.choice((2, 2, 3)), order=ORDERS[i % len(ORDERS)], draws=r.choice(DRAWS),
                            trim=r.random() < 0.35, archive=r.choice((None, "warm", "cold")) if algo != "BOGO" else None, steps=r.choice((2, 2, 3)), seed=100 + i, twins=r.random() < 0.3,
                            finals=r.choice(("every", "last")), given=given(r, algo)))
    return out


def islands(per, first=0):
    """`per` histories of the island model over each algorithm"""
    out = []
    for algo in ADAPTERS:
        for i in range(first, first + per):
            r = random.Random("islands %s %d" % (algo, i))
            k = (3, 4, 2, 5, 1, 6)[i % 6]
            g = given(r, algo)
            g.update(islands=k, migrants=r.choice((1, 1, 2)) if k < 4 else 1, epoch=r.choice((1, 1, 2)))
            # an island has at least as many individuals as it sends away: migrants for each of at most four neighbours
            need = max(3, 1 + g["migrants"] * min(k - 1 if k != 4 else 4, 4))
            out.append(Plan("IMGA+" + algo, n=k * need + r.choice((0, 0, 1, k - 1)), dims=r.choice((1, 2, 3)), nobj=2, order=ORDERS[i % len(ORDERS)], draws=r.choice(DRAWS), steps=2, seed=300 + i,
                            twins=r.random() < 0.4, finals="last", given=g))
    return out


def corners(per):
    """smallest populations, one coordinate, individuals nothing new can beat"""
    out = []
    for algo in ALGOS:
        if algo == "BOGO":
            continue
        for i in range(per):
            n = (1, 2, 3, 4)[i % 4]
            out.append(Plan(algo, n=n, dims=(1, 2)[i // 4 % 2], nobj=2, order=("peak", "equal", "chain", "peak")[i % 4 if i < 8 else i % 3], draws=("plain", "mixed")[i % 2], steps=2, seed=500 + i, twins=i % 5 == 4, finals="every"))
    return out


def near(plans):
    """the same with objective values that differ by rounding only, one ahead in one objective and the other in another"""
    for p in plans:
        p.order = "near"
    return plans


def one(job):
    sys.setrecursionlimit(20000)
    root, plan, judge = job
    tally, repo = {}, core.shared(root)
    fl = AlgoFlow(repo)
    try:
        h = history(fl, plan)
        bad = judge(fl, h, tally)
        tally["histories"] = 1
        if h.error is not None:
            tally["ended by an exception"] = 1
        elif h.hang:
            tally["endless"] = 1
    except (TooComplex, RecursionError) as e:
        return plan, None, str(e) or "too deep", fl.functions, tally
    except (KeyError, TypeError, AttributeError, IndexError, ValueError) as e:       # the interpreter met something it has no rule for
        return plan, None, "not interpretable: %s %s" % (type(e).__name__, e), fl.functions, tally
    return plan, bad, None, fl.functions, tally


def judged(repo, res, judge, plans):
    """-> (tally per algorithm); findings, unknowns and discharged obligations go to res"""
    tallies = collections.defaultdict(collections.Counter)
    jobs = [(repo.root, p, judge) for p in plans]
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        for plan, bad, unk, fns, tally in ex.map(one, jobs, chunksize=2):
            res.functions |= fns
            tallies[plan.algo.split("+")[0]].update(tally)
            if unk:
                res.unknown("histories", str(plan), unk)
            elif bad:
                rule, construct, msg = bad
                res.bad(rule, construct, construct if "." in construct else where(plan), "%s [%s]" % (msg, plan))
            else:
                res.ok("histories", str(plan))
    res.extra.setdefault("histories", 0)
    res.extra["histories"] += len(jobs)
    return tallies


def where(plan):
    return "algorithms/IMGA/IMGA.py" if "+" in plan.algo else ALGOS[plan.algo][0].rsplit(".", 1)[0].replace(".", "/") + ".py"


ASSUMPTIONS = [
    "objective functions are deterministic, leave their argument alone and return finite numbers",
    "the caller's population lies in the box; a trim function maps a vector of the box to one of the box and is idempotent",
    "random.random and random.uniform stay within their documented bounds; the other draws are arbitrary within theirs",
]

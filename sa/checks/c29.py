"""C29: each algorithm's truncation keeps the individuals its own measure prefers."""
import random

from . import histories, leaders, measures
from .algos import Plan

TECHNIQUE = "abstract interpretation of scheduled histories; survivors compared with those each algorithm's selection measure prefers"
NOTE = ("Histories of 2 to 3 steps, populations of 2 to 6, 2 or 3 objectives. Where two candidates are level the choice between them is not judged. NSLS is judged by layers only, among the "
        "individuals seen before or after the step; the mating tournaments and BOGO are not judged here. The leaders of OMOPSO: swarms of 3 to 5, three steps.")
EXPLANATION = ("The algorithms are interpreted from their constructors on as for C25. At each truncation those that compete and their objective values are known from the history; the survivors that follow from the definition of the "
               "algorithm's measure are worked out from them for several orders of the pool, and where all orders agree the history must keep exactly these. "
               "The leader archive of OMOPSO is interpreted over swarms whose objective values are unknown numbers; what it keeps must follow from removing the member of the smallest crowding distance, and the speed of each particle must be that of the less crowded of the two leaders drawn for it.")


def larger(per):
    """more competing individuals, few of them non-dominated"""
    out = []
    for algo, order in (("SPEA2", "hash"), ("SPEA2", "hash"), ("SPEA2", "smooth"), ("IBEA", "hash"), ("NSGAII", "hash"), ("SMSEMOA", "hash"), ("NSLS", "hash"), ("NSGAIII", "hash")):
        for i in range(per):
            r = random.Random("larger %s %s %d %d" % (algo, order, i, len(out)))
            out.append(Plan(algo, n=r.choice((6, 7, 8)), dims=r.choice((2, 3)), nobj=2, order=order, draws="plain", steps=2, seed=900 + len(out), twins=False, finals="every", given=histories.given(r, algo)))
    return out


def plans(tier):
    quick = tier == "quick"
    return larger(5 if quick else 25) + [p for p in histories.single(40 if quick else 240) + histories.corners(8 if quick else 24) if p.algo not in ("OMOPSO", "BOGO") and p.n > 1]


def run(repo, res, tier):
    res.rule("measure", "the survivors are those the algorithm's measure prefers")
    res.rule("leaders", "a full leader archive gives up its most crowded member, and of two leaders drawn the less crowded one leads")
    res.rule("histories", "one obligation per history followed to its end")
    res.assumptions += histories.ASSUMPTIONS
    t = histories.judged(repo, res, measures.judge, plans(tier))
    led = leaders.judge(repo, res, tier)
    for a, c in sorted(t.items()):
        res.extra["truncations of " + a] = c["truncations"]
        res.extra["level choices of " + a] = c["level"]
        if c["unseen"]:
            res.unknown("measure", a, "the competing individuals of %d steps are not found in the state" % c["unseen"])
    if not any(o[2] != "discharged" for o in res.obligations):
        for a, c in sorted(t.items()):
            res.floor("truncations of %s judged" % a, c["truncations"], 8)
        res.floor("full leader archives", led["full"], 20)
        res.floor("tournaments among leaders", led["led"], 60)

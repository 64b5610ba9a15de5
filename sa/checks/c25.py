"""C25: truncation never keeps a dominated individual and drops one dominating it."""
from . import algos, histories

TECHNIQUE = "abstract interpretation of scheduled histories; survivors compared with the dropped under the schedule's objective values"
NOTE = ('Histories of 2 to 3 steps, populations of 2 to 6 (islands of 3 to 9), 1 to 4 coordinates, 2 or 3 objectives; the paths taken are those of the schedules. BOGO is only followed for the properties it has code for. NSGA-III is judged in the order it ranks by (scalarised value within a direction). With gene jumping an individual is compared with those it competed with in the same truncation.')
EXPLANATION = ('Each algorithm is interpreted from its constructor on, over numbers that are an interval, the expression that produced it and a representative; the representatives of the draws, fixed by a schedule, decide comparisons the intervals leave open. Objective functions are opaque: their values are terms over the coordinates, ordered by the schedule (random, tied, a front, a chain, equal, a distance). For each truncation the individuals that competed are split into kept and dropped; no dropped one may dominate a kept one.')


def plans(tier):
    quick = tier == "quick"
    return [p for p in histories.single(40 if quick else 240) + histories.corners(8 if quick else 24) if p.algo not in ('OMOPSO', 'BOGO') and p.n > 1]


def run(repo, res, tier):
    res.rule('elite', 'no dropped individual dominates a kept one')
    res.rule('histories', 'one obligation per history followed to its end')
    res.assumptions += histories.ASSUMPTIONS
    t = histories.judged(repo, res, algos.judge_elite, plans(tier))
    if not any(o[2] == "violated" for o in res.obligations):
        for a, c in sorted(t.items()):
            res.floor("truncations of %s judged" % a, c["judged"] + c["theta pairs"], 10)

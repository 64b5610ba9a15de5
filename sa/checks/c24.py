"""C24: population sizes are preserved from step to step."""
from . import algos, histories

TECHNIQUE = 'abstract interpretation of scheduled histories; populations compared by identity and as multisets of terms'
NOTE = ('Histories of 2 to 3 steps, populations of 2 to 6 (islands of 3 to 9), 1 to 4 coordinates, 2 or 3 objectives; the paths taken are those of the schedules. BOGO is only followed for the properties it has code for. NSGA-II, IBEA and jumping genes keep parents and offspring between steps; what they return is cut to the size. The leader archive OMOPSO returns has no fixed size.')
EXPLANATION = ('Each algorithm is interpreted from its constructor on, over numbers that are an interval, the expression that produced it and a representative; the representatives of the draws, fixed by a schedule, decide comparisons the intervals leave open. Objective functions are opaque: their values are terms over the coordinates, ordered by the schedule (random, tied, a front, a chain, equal, a distance). After each step the number of individuals to work on, and the number returned, are compared with the number given; no individual is in a population twice and each returned one was evaluated and was among those that competed.')


def plans(tier):
    quick = tier == "quick"
    return [p for p in histories.single(24 if quick else 160) + histories.islands(3 if quick else 16) + histories.corners(8 if quick else 24) if p.n > 1]


def run(repo, res, tier):
    res.rule('size', 'a step ends, and a population is returned, with the number of individuals given')
    res.rule('twice', 'no individual is twice in a population')
    res.rule('invented', 'every individual returned was evaluated and competed')
    res.rule('error', 'no step fails')
    res.rule('histories', 'one obligation per history followed to its end')
    res.assumptions += histories.ASSUMPTIONS
    t = histories.judged(repo, res, algos.judge_sizes, plans(tier))
    if not any(o[2] == "violated" for o in res.obligations):
        for a, c in sorted(t.items()):
            if a not in ('BOGO', 'IMGA'):
                res.floor('steps of %s' % a, c['steps'], 20)
            res.floor('returned populations of %s' % a, c['finals'], 10)

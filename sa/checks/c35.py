"""C35: every step of an algorithm comes to an end."""
from . import algos, histories

TECHNIQUE = 'abstract interpretation of scheduled histories: loops whose condition is decided in every turn'
NOTE = ('Histories of 2 to 3 steps, populations of 2 to 6 (islands of 3 to 9), 1 to 4 coordinates, 2 or 3 objectives; the paths taken are those of the schedules. BOGO is only followed for the properties it has code for. A loop counts as endless after 1000 turns; loops of the algorithms make at most a few dozen on these populations. Whether a step ends by returning or by raising is not judged here.')
EXPLANATION = ('Each algorithm is interpreted from its constructor on, over numbers that are an interval, the expression that produced it and a representative; the representatives of the draws, fixed by a schedule, decide comparisons the intervals leave open. Objective functions are opaque: their values are terms over the coordinates, ordered by the schedule (random, tied, a front, a chain, equal, equal but for rounding, a distance). Construction, steps and the returned population are interpreted, over smallest populations, equal individuals, single coordinates and individuals no neighbour can improve; every loop has to end.')


def plans(tier):
    quick = tier == "quick"
    return histories.corners(24 if quick else 120) + histories.single(12 if quick else 60) + histories.islands(2 if quick else 12) + histories.near(histories.single(3 if quick else 15, 1000) + histories.islands(2 if quick else 6, 1000))


def run(repo, res, tier):
    res.rule('ends', 'every loop entered in a history ends')
    res.rule('histories', 'one obligation per history followed to its end')
    res.assumptions += histories.ASSUMPTIONS
    t = histories.judged(repo, res, algos.judge_ends, plans(tier))
    if not any(o[2] == "violated" for o in res.obligations):
        for a, c in sorted(t.items()):
            res.floor('histories of %s' % a, c['histories'], 10)

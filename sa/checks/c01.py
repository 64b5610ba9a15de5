"""C01: every evaluated or returned vector lies in the problem's box."""
from . import algos, c37, histories, operators, tree

TECHNIQUE = 'abstract interpretation over intervals with outward rounding (operators: every path; algorithms: scheduled histories)'
NOTE = ('Histories of 2 to 3 steps, populations of 2 to 6 (islands of 3 to 9), 1 to 4 coordinates, 2 or 3 objectives; the paths taken are those of the schedules. BOGO is only followed for the properties it has code for. Operators are followed over every outcome of every comparison. In the histories a coordinate whose interval is not inside the box counts as represented when its representative is.')
EXPLANATION = ('Each algorithm is interpreted from its constructor on, over numbers that are an interval, the expression that produced it and a representative; the representatives of the draws, fixed by a schedule, decide comparisons the intervals leave open. Objective functions are opaque: their values are terms over the coordinates, ordered by the schedule (random, tied, a front, a chain, equal, a distance). Operators are interpreted over all outcomes of their comparisons and every coordinate of every result must be enclosed in the box. Nodes of the tree search are interpreted over opaque inner drivers: the box and first population each is given must be the box of the tree and vectors that are those of a delegate or mutated from one inside it. In the histories every vector handed to an objective, in the population and in what is returned must be inside.')


def plans(tier):
    quick = tier == "quick"
    return histories.single(20 if quick else 150) + histories.islands(4 if quick else 24) + histories.corners(4 if quick else 16)


def run(repo, res, tier):
    res.rule('box', 'every vector evaluated or returned in a history is inside the box, coordinate by coordinate')
    res.rule('operators', 'on every path of an operator the interval of each coordinate lies in the box')
    res.rule('histories', 'one obligation per history followed to its end')
    res.rule('tree', 'every node of the tree search works in the box given, and a sprout starts from a delegate and vectors mutated from it inside that box')
    res.assumptions += histories.ASSUMPTIONS
    t = histories.judged(repo, res, algos.judge_box, plans(tier))
    operators.judge(repo, res, tier, 'box')
    drivers = tree.judged(repo, res, "tree", tree.boxes, [p for i, p in enumerate(c37.plans(tier)) if tier != "quick" or i % 3 == 0], c37.WHERE)
    if not any(o[2] == "violated" for o in res.obligations):
        for a, c in sorted(t.items()):
            res.floor('coordinates inside the box of %s' % a, c['proved'], 40)
        for kind in c37.WHERE:
            res.floor("nodes of the %s tree" % kind, drivers.get(kind, 0), 30)

"""C02: variation works on copies."""
from . import algos, histories, operators

TECHNIQUE = 'abstract interpretation with object identities: writes to lists that were given, evaluated or kept'
NOTE = ('Histories of 2 to 3 steps, populations of 2 to 6 (islands of 3 to 9), 1 to 4 coordinates, 2 or 3 objectives; the paths taken are those of the schedules. BOGO is only followed for the properties it has code for. The particles of OMOPSO move by design: their positions are what the algorithm owns and changes. Operators are followed over every outcome of every comparison.')
EXPLANATION = ('Each algorithm is interpreted from its constructor on, over numbers that are an interval, the expression that produced it and a representative; the representatives of the draws, fixed by a schedule, decide comparisons the intervals leave open. Objective functions are opaque: their values are terms over the coordinates, ordered by the schedule (random, tied, a front, a chain, equal, a distance). Every list has an identity. No write may hit a vector, population or box the caller gave, a vector whose objectives have been computed, or a vector the algorithm kept from one step to the next.')


def plans(tier):
    quick = tier == "quick"
    return histories.single(20 if quick else 150) + histories.islands(4 if quick else 24)


def run(repo, res, tier):
    res.rule('caller', 'what the caller gave (population, vectors, box, objectives) holds the same items at the end')
    res.rule('evaluated', 'a vector is not written to after its objectives were computed')
    res.rule('kept', 'a vector the algorithm keeps over a step holds the same items after it')
    res.rule('shared', 'no two moving individuals share a vector')
    res.rule('operators', 'on every path an operator returns lists of its own and leaves its arguments as they were')
    res.rule('histories', 'one obligation per history followed to its end')
    res.assumptions += histories.ASSUMPTIONS
    t = histories.judged(repo, res, algos.judge_copies, plans(tier))
    operators.judge(repo, res, tier, 'copies')
    if not any(o[2] == "violated" for o in res.obligations):
        for a, c in sorted(t.items()):
            res.floor('lists of the caller of %s' % a, c["caller's"], 30)
            if a != 'BOGO':
                res.floor('kept vectors of %s' % a, c['kept'], 20)

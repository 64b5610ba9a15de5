"""C05: stored objective values always belong to the individual's current vector."""
from . import algos, histories

TECHNIQUE = 'abstract interpretation with symbolic objective values: each stored value names the vector it was computed for'
NOTE = ('Histories of 2 to 3 steps, populations of 2 to 6 (islands of 3 to 9), 1 to 4 coordinates, 2 or 3 objectives; the paths taken are those of the schedules. BOGO is only followed for the properties it has code for. A record is an object or dictionary that holds one vector and objective values.')
EXPLANATION = ("Each algorithm is interpreted from its constructor on, over numbers that are an interval, the expression that produced it and a representative; the representatives of the draws, fixed by a schedule, decide comparisons the intervals leave open. Objective functions are opaque: their values are terms over the coordinates, ordered by the schedule (random, tied, a front, a chain, equal, a distance). An objective's value is a term over the coordinates it was computed for. After every step, and at every read in between, the values a record holds must be terms over the record's own vector, one per objective in order; values in the shared result cache must be terms over their key.")


def plans(tier):
    quick = tier == "quick"
    return histories.single(24 if quick else 160) + histories.islands(4 if quick else 24)


def run(repo, res, tier):
    res.rule('record', "after construction and each step every individual's stored values are those of its vector")
    res.rule('read', "objective values read for comparison or selection belong to the individual's vector")
    res.rule('cache', 'the shared cache holds for a vector the values of that vector')
    res.rule('histories', 'one obligation per history followed to its end')
    res.assumptions += histories.ASSUMPTIONS
    t = histories.judged(repo, res, algos.judge_objectives, plans(tier))
    if not any(o[2] == "violated" for o in res.obligations):
        for a, c in sorted(t.items()):
            if a not in ('BOGO', 'IBEA'):
                res.floor('individuals with stored values of %s' % a, c['records'], 20)

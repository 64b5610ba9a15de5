"""C07: migration conserves individuals."""

from .. import core
from ..flow import Flow, K, TooComplex, is_raise, show
from . import algos, histories

TECHNIQUE = "abstract interpretation of island histories with identified individuals, and of every topology for each small number of islands"
NOTE = ("2 steps of 1 to 6 islands of 3 to about 9 individuals over each algorithm with an adapter, on the default topology and the draws of the schedules; topologies are interpreted for widths 1 to 6 and up to 24 islands (40 in the "
        "thorough tier). An island that is asked for more emigrants than it holds is outside the property.")
EXPLANATION = ("Islands, their inner drivers and adapters are interpreted with every individual an object of its own. Around each exchange the multiset of vectors over all islands must be the same, every island must hold as many as before "
               "and no object may be on two islands; the first individuals must be dealt to one island each. That the numbers work out for any layout rests on the topology: for every size the neighbour lists are computed by interpreting "
               "the code, and every island must be listed by as many islands as it lists.")
BASE = "algorithms.IMGA.topology.Topology"


class TopologyFlow(Flow):
    max_steps = 4000000
    max_depth = 60
    max_paths = 8

    def while_limit(self, st, n):
        return 2000

    def unroll_limit(self, st, n):
        return 2000


def topologies(repo):
    out = []
    for q, ci in sorted(repo.classes.items()):
        mro = repo.mro(ci)
        if q != BASE and any(c.qual == BASE for c in mro):
            out.append(ci)
    return out


def neighbours(repo, ci, given, size):
    """-> (flow, None | error text, [[index]])"""
    fl = TopologyFlow(repo)
    st = fl.start()
    out = fl.bind(fl.call(st, ("cls", ci.qual), [K(g) for g in given], {}, None), lambda s, o: fl.bind(fl.getattr(s, o, "create", None), lambda s2, f: fl.call(s2, f, [K(size)], {}, None)))
    if len(out) != 1:
        raise TooComplex("%d outcomes" % len(out))
    s, v = out[0]
    if is_raise(v):
        return fl, "fails with %s" % v[1], None
    rows = fl.exact(s, v)
    if rows is None:
        raise TooComplex("the adjacency is %s" % show(v)[:60])
    res = []
    for r in rows:
        its = fl.exact(s, r)
        if its is None or any(x[0] != "c" for x in its):
            raise TooComplex("a row of the adjacency is %s" % show(r)[:60])
        res.append([x[2] for x in its])
    return fl, None, res


def layout(rows, size):
    if len(rows) != size:
        return "has %d rows" % len(rows)
    into = [0] * size
    for i, r in enumerate(rows):
        for j in r:
            if not isinstance(j, int) or not 0 <= j < size:
                return "lists island %s as a neighbour of island %d" % (j, i)
            into[j] += 1
    for i, r in enumerate(rows):
        if len(r) != into[i]:
            return "lists %d neighbours for island %d, which is the neighbour of %d" % (len(r), i, into[i])
    return None


def plans(tier):
    return histories.islands(24 if tier == "quick" else 160)


def run(repo, res, tier):
    res.rule("dealt", "every given individual starts on exactly one island, and their sizes differ by one at most")
    res.rule("conserved", "an exchange leaves the multiset of all vectors, and each island's number, as they were")
    res.rule("twice", "no individual is on two islands after an exchange")
    res.rule("topology", "every island is listed as a neighbour as often as it lists neighbours")
    res.rule("histories", "one obligation per history followed to its end")
    res.assumptions += histories.ASSUMPTIONS
    t = histories.judged(repo, res, algos.judge_migration, plans(tier))
    n = 0
    for ci in topologies(repo):
        m = repo.find_method(ci, "__init__")
        params = [] if m is None else [a.arg for a in m[1].args.args[1:]]
        if len(params) > 1:
            res.unknown("topology", ci.qual, "takes %s" % ", ".join(params))
            continue
        for w in range(1, 7) if params else (None,):
            for size in range(1, 25 if tier == "quick" else 41):
                about = "%s%s of %d islands" % (ci.name, "" if w is None else "(%d)" % w, size)
                try:
                    fl, err, rows = neighbours(repo, ci, [] if w is None else [w], size)
                except (TooComplex, RecursionError) as e:
                    res.unknown("topology", about, str(e))
                    continue
                res.functions |= fl.functions
                bad = err or layout(rows, size)
                if bad:
                    res.bad("topology", ci.qual, "%s:%d" % (ci.module.path, ci.node.lineno), "%s %s" % (about, bad))
                else:
                    n += 1
                    res.ok("topology", about)
    res.extra["layouts"] = n
    if not any(o[2] == "violated" for o in res.obligations):
        res.floor("layouts", n, 100)
        res.floor("exchanges", sum(c["exchanges"] for c in t.values()), 60)
        res.floor("individuals that changed islands", sum(c["migrants"] for c in t.values()), 60)

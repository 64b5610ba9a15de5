"""C37: nodes of the tree search live, rest and are revived as their progress says, and nobody is lost."""
import multiprocessing
import os
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import core
from ..flow import K, NONE, TooComplex, is_raise, is_t, lin
from . import tree
from .tree import subterms

TECHNIQUE = "abstract interpretation of tree histories under scheduled verdicts, compared with the life cycle of a node"
NOTE = ("Trees of up to about a dozen nodes over 10 to 14 steps, up to four levels; the verdicts on stagnation and redundancy follow fixed and pseudo-random schedules, dominated volumes after the first are taken as "
        "positive. Message orders as in C10. How volumes and distances are computed is not judged here.")
EXPLANATION = ("Both variants are interpreted through the HGS front. Which inner drivers a step advances is compared with what the verdicts so far imply: a node whose progress was found too small, or that was found "
               "too close to another one, rests from then on, every other node advances; new nodes only grow from delegates of nodes found stagnant that no comparison found too close; when all rest, exactly the "
               "stagnant ones advance again under lower demands; the population returned is every node's own.")
WHERE = {"classic": "algorithms/HGS/classic/ClassicHGS.py", "distributed": "algorithms/HGS/distributed/"}


def plans(tier):
    out = []
    shapes = [dict(), dict(max_sprouts=3, sproutiveness=2, delegates=3), dict(max_level=1, max_sprouts=2, sproutiveness=1, delegates=2), dict(max_level=0), dict(delegates=0),
              dict(max_level=1, max_sprouts=3, sproutiveness=3, delegates=4), dict(max_level=3, depth=4, max_sprouts=1)]
    verdicts = [("always", "never"), ("hash", "hash"), ("mostly", "late"), ("late", "mostly"), ("always", "always"), ("never", "never"), ("mostly", "hash")]
    for kind in ("classic", "distributed"):
        for i, sh in enumerate(shapes):
            for j, (p, r) in enumerate(verdicts):
                for seed in range(1, 2 if tier == "quick" else 8):
                    if tier == "quick" and j > 2 and (i + j) % 3 == 0:
                        continue
                    out.append(tree.Plan(kind, progress=p, redundant=r, policy=("fifo", "lifo", "mixed")[(i + j + seed) % 3], steps=11 if tier == "quick" else 16, seed=seed + 5 * i + j, **sh))
    return out


def lifecycle(s, v, plan):
    """walk the events step by step"""
    if is_raise(v):
        return "history", "a step of the tree fails with %s%s" % (v[1], "" if v[2] is None else ": %s" % (v[2],))
    parts, cur = [], []
    name = "built"
    for e in s.trace:
        if e[0] == "crash":
            return "history", "handling %s fails: %s %s" % (e[1], e[2], e[3])
        if e[0] == "mark" and e[1] != "built":
            parts.append((name, cur))
            name, cur = e[1], []
        else:
            cur.append(e)
    parts.append((name, cur))
    for i in range(1, len(parts)):
        # a node made late, when its first metaepoch is due, was released the step before
        ev = parts[i][1]
        ran_here = {e[1] for e in ev if e[0] == "step"}
        closing = parts[i][0] in ("population", "shutdown")
        late = [e for e in ev if e[0] == "driver" and (closing or e[1] in ran_here)]
        if late:
            parts[i] = (parts[i][0], [e for e in ev if e not in late])
            parts[max(j for j in range(i) if parts[j][0] != "population")][1].extend(late)
    alive, ripe, ran = set(), set(), {}
    pairs = []                     # too close: at most one of the two goes on
    demands = {}
    revivals = 0
    level, parent, epochs = {}, {}, {}
    for name, events in parts:
        created = [e for e in events if e[0] == "driver"]
        if name == "built":
            if len(created) != 1:
                return "root", "%d nodes exist before the first step" % len(created)
            alive = {created[0][1]}
            level[created[0][1]], parent[created[0][1]] = 0, None
            continue
        if name in ("population", "shutdown"):
            if name == "population":
                want = sorted(repr(("t", "vec", k, j, n)) for k, n in ran.items() for j in range(2))
                got = next((e[2] for e in events if e[0] == "result"), None)
                items = got[3] if got is not None and is_t(got, "snap") else None
                if items is not None and sorted(repr(x) for x in items) != want:
                    have = [repr(x) for x in items]
                    if len(have) != len(set(have)) or len(have) > len(want):
                        return "population", "the population returned lists individuals of a node more than once, or ones no node holds"
                    return "population", "the population returned leaves out individuals a node holds"
            if any(e[0] == "step" for e in events):
                return "rest", "a node is advanced outside a step"
            continue
        advanced = {e[1] for e in events if e[0] == "step"}
        # pairs found too close in the step before: the one that still advances is the one kept
        for p in pairs:
            both = p & alive
            if len(both) == 2:
                keep = both & advanced
                if len(keep) == 2:
                    return "redundancy", "two nodes of one level found too close to each other both go on"
                if len(keep) == 1:
                    alive -= both - keep
        missing, extra = alive - advanced, advanced - alive
        # of nodes mutually too close one goes on: a chain may retire several
        for p in pairs:
            missing -= p if p & missing and p & (advanced | {k for k in p if k not in alive}) else set()
        if not alive and not advanced and ripe:
            return "extinct", "no node is alive and none that stopped growing is revived"
        if extra:
            k = min(extra)
            return ("rest", "a node that %s is advanced again" % ("stopped growing" if k in ripe else "was found too close to another"))
        if missing:
            return "advance", "a node that was neither found stagnant nor too close to another one is not advanced"
        alive = set(advanced)
        for k in advanced:
            ran[k] = ran.get(k, 0) + sum(1 for e in events if e[0] == "step" and e[1] == k)
        pairs = []
        for k in advanced:
            epochs[k] = epochs.get(k, 0) + 1
        judged, compared, probed = set(), set(), {}
        refused = set()
        used = set()
        born = set()
        for e in events:
            if e[0] == "progress":
                ks = {k for x in e[2] for k in x}
                if len(ks) != 1:
                    return "stagnation", "the progress of a node is judged from the volumes of several"
                k = ks.pop()
                judged.add(k)
                if k not in alive:
                    continue
                if e[5] is not None:
                    demands.setdefault((k, revivals), set()).add(e[5])
                if e[3]:
                    alive.discard(k)
                    ripe.add(k)
            elif e[0] == "redundancy":
                nodes = [i[1] for i in e[2] if i[0] == "driver"]
                dels = [i for i in e[2] if i[0] == "delegate"]
                if dels:
                    if e[3]:
                        refused.add(dels[0][1:])
                    probed.setdefault(dels[0][1:], set()).update(nodes)
                elif len(nodes) == 2:
                    compared.add(frozenset(nodes))
                    if not e[3]:
                        continue
                    live = [k for k in nodes if k in alive]
                    if not live:
                        continue
                    if len(live) == 1:
                        alive.discard(live[0])
                    else:
                        pairs.append(frozenset(nodes))
            elif e[0] == "driver":
                ds = {x[2:4] for x in subterms(e[3]) if x[1] == "deleg"}
                if not ds:
                    return "sprout", "a node is created that grows from no delegate"
                if len(ds) > 1:
                    return "sprout", "a node grows from several delegates"
                d = ds.pop()
                if d[0] not in ripe:
                    return "sprout", "a node that has not stopped growing releases a sprout"
                if d in refused:
                    return "sprout", "a sprout grows from a delegate found too close to a node of the deeper level"
                if d in used:
                    return "sprout", "two sprouts grow from the same delegate at once"
                used.add(d)
                born.add(e[1])
                level[e[1]], parent[e[1]] = level[d[0]] + 1, d[0]
                for k in sorted(ran):
                    if level[k] == level[e[1]] and k not in probed.get(d, ()):
                        return "sprout", "a sprout grows from a delegate that was not compared with every node of the deeper level"
        for k in sorted(advanced):
            # the first volume is the base, the second the first growth, from the third on there is something to compare with
            if epochs[k] >= 3 and k not in judged:
                return "stagnation", "a node advances and its progress is not judged"
        doubtful = {k for p in pairs for k in p}
        for k in sorted(alive - doubtful):
            for j in sorted((alive | ripe) - doubtful - {k}):
                if level[j] == level[k] and not {j, k} & born and frozenset((j, k)) not in compared:
                    return "redundancy", "a live node is not compared with another one of its level that is alive or stopped growing"
        for k in sorted(ripe):
            chain = [k]
            while parent[chain[-1]] is not None:
                chain.append(parent[chain[-1]])
            kids = [j for j in parent if parent[j] == k]
            if level[k] >= plan.max_level or not all(c in ripe for c in chain) or any(j in doubtful for j in kids):
                continue
            own = [j for j in kids if j in born]
            live = [j for j in kids if j in alive or j in born]
            tried = {d for d in refused if d[0] == k} | {d for d in used if d[0] == k}
            if len(own) < plan.sproutiveness and len(live) < plan.max_sprouts and len(tried) < plan.delegates:
                return "sprout", "a node that stopped growing has room for sprouts and does not try every delegate"
        alive |= born
        if not alive:
            alive = set(ripe)
            ripe.clear()
            revivals += 1
    for (k, r), ds in demands.items():
        for (k2, r2), ds2 in demands.items():
            if k == k2 and r2 > r and not max(ds2) < min(ds):
                return "demands", "after a revival as much progress is demanded as before"
    return None


def one(job):
    sys.setrecursionlimit(30000)
    root, plan = job
    repo = core.shared(root)
    try:
        fl, out = tree.history(repo, plan)
        bad, n, rv = None, 0, 0
        for s, v in out:
            bad = bad or lifecycle(s, v, plan)
            n = max(n, s.data.get("drivers", 0))
            rv += sum(1 for e in s.trace if e[0] == "progress" and e[3])
    except (TooComplex, RecursionError) as e:
        return plan, None, str(e) or "too deep", set(), 0, 0
    return plan, bad, None, fl.functions, n, rv


def run(repo, res, tier):
    res.rule("lifecycle", "who advances, rests, sprouts, is revived and is returned follows from the verdicts on progress and redundancy")
    res.assumptions += ["an inner driver's step, objective and volume do not raise", "messages between the same two actors keep their order"]
    jobs = [(repo.root, p) for p in plans(tier)]
    nodes, retired = {}, {}
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        for plan, bad, unk, fns, n, rv in ex.map(one, jobs):
            res.functions |= fns
            nodes[plan.kind] = nodes.get(plan.kind, 0) + n
            retired[plan.kind] = retired.get(plan.kind, 0) + rv
            if unk:
                res.unknown("lifecycle", str(plan), unk)
            elif bad:
                res.bad("lifecycle", "%s: %s" % (plan.kind, bad[0]), WHERE[plan.kind], "%s [%s]" % (bad[1], plan))
            else:
                res.ok("lifecycle", str(plan))
    res.extra.update({"histories": len(jobs), "nodes": nodes, "stagnation_verdicts": retired})
    if not any(o[2] == "violated" for o in res.obligations):
        for kind in WHERE:
            res.floor("nodes of the %s tree" % kind, nodes.get(kind, 0), 60)
            res.floor("stagnation verdicts in the %s tree" % kind, retired.get(kind, 0), 40)

"""C10: in the distributed tree search every request gets exactly one reply."""
import multiprocessing
import os
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import core
from ..flow import K, NONE, TooComplex, is_raise, is_t
from ..report import Result
from . import tree

TECHNIQUE = "abstract interpretation of the actors' handlers over histories of the tree, under several message delivery orders"
NOTE = ("Trees of up to about a dozen nodes grown over 9 to 12 steps; verdicts on stagnation and redundancy follow fixed and pseudo-random schedules; delivery oldest-first, newest-first and pseudo-random "
        "among pairs of actors, each pair keeping its order. Inner drivers, objectives and volumes are opaque and do not fail. Losses in the actor library's transport are out of scope.")
EXPLANATION = ("DistributedHGS is interpreted through the HGS front: its constructor, its steps, its population and its shutdown. The messages its actors send are kept in a bag and delivered one at a time "
               "in the order of a delivery policy, each by interpreting receiveMessage of the receiver. A request for which nothing is left to deliver and no reply came is never answered; a reply nobody "
               "waits for is a second one; an answer still under way to the coordinator when the requester has its reply was not waited for; a handler that raises loses its request.")
DIST = "algorithms/HGS/distributed/"


def plans(tier):
    """configurations x verdicts x delivery orders, exercised in a fixed order"""
    out = []
    shapes = [dict(), dict(max_sprouts=3, sproutiveness=2, delegates=3), dict(max_level=1, max_sprouts=1, sproutiveness=3, delegates=2), dict(max_level=0), dict(delegates=0), dict(max_level=3, depth=4),
              dict(sproutiveness=0), dict(max_sprouts=0)]
    verdicts = [("always", "never"), ("hash", "hash"), ("mostly", "late"), ("never", "never"), ("always", "always"), ("late", "mostly")]
    for i, sh in enumerate(shapes):
        for j, (p, r) in enumerate(verdicts):
            for k, pol in enumerate(("fifo", "lifo", "mixed")):
                if tier == "quick" and i > 1 and (i + j + k) % 3:
                    continue
                for seed in range(1, 2 if tier == "quick" else 7):
                    out.append(tree.Plan("distributed", progress=p, redundant=r, policy=pol, steps=9 if tier == "quick" else 14, seed=seed + 10 * i + k, **sh))
    return out


OPS = ("NEW_METAEPOCH", "TRIM_NOT_PROGRESSING", "TRIM_REDUNDANT", "RELEASE_SPROUTS", "REVIVE", "CHECK_STATUS", "POPULATION")


def orders(repo, tier):
    """requests in other orders than a step's; redundancy is asked about only after every node has run"""
    q = tree.MESSAGES
    ops = [o for o in OPS if q + "HgsOperation" in repo.classes and o in repo.classes[q + "HgsOperation"].attrs]
    if q + "HgsMessage" not in repo.classes or len(ops) < len(OPS):
        return []
    grow = ["NEW_METAEPOCH"] * 3 + ["TRIM_NOT_PROGRESSING"]
    seqs = [["REVIVE"], ["POPULATION"], ["RELEASE_SPROUTS", "REVIVE", "POPULATION"], ["NEW_METAEPOCH", "REVIVE", "REVIVE"], grow + ["NEW_METAEPOCH", "REVIVE", "NEW_METAEPOCH"],
            grow + ["RELEASE_SPROUTS", "RELEASE_SPROUTS", "REVIVE", "NEW_METAEPOCH"], grow + ["REVIVE", "NEW_METAEPOCH", "TRIM_NOT_PROGRESSING", "TRIM_REDUNDANT", "RELEASE_SPROUTS", "REVIVE"],
            (grow + ["TRIM_REDUNDANT", "RELEASE_SPROUTS"]) * 3 + ["NEW_METAEPOCH", "TRIM_NOT_PROGRESSING", "NEW_METAEPOCH", "REVIVE", "POPULATION"]]
    x = 12345
    for _ in range(6 if tier == "quick" else 60):
        seq, ran = list(grow), True
        while len(seq) < (16 if tier == "quick" else 30):
            x = (x * 1103515245 + 12345) & 0x7fffffff
            o = ops[(x >> 12) % len(ops)]
            if o == "TRIM_REDUNDANT" and not ran:
                o = "NEW_METAEPOCH"
            ran = o == "NEW_METAEPOCH" or ran and o not in ("RELEASE_SPROUTS", "REVIVE")
            seq.append(o)
        seqs.append(seq)
    return seqs


def extra(plan):
    """status requests about one level, about a level there is not, and about all nodes"""
    def f(fl, st, o):
        q = "algorithms.HGS.distributed.message."
        if q + "HgsMessage" not in fl.repo.classes or q + "HgsOperation" not in fl.repo.classes or "CHECK_STATUS" not in fl.repo.classes[q + "HgsOperation"].attrs:
            return [(st, NONE)]
        cur = [(st, NONE)]
        for level in [NONE] + [K(l) for l in range(plan.max_level + 2)]:
            def one(s, _):
                return fl.bind(fl.instantiate(s, q + "HgsMessage", [tree.T("enum", q + "HgsOperation", "CHECK_STATUS"), NONE, level], {}, None), lambda s2, m: fl.ask(s2, tree.T("addr", 0), m, None))
            cur = fl.bind(cur, one)
        return cur
    return f


def judge(s, v):
    """the first thing that goes wrong on a path -> (construct, message) or None"""
    for e in s.trace:
        if e[0] == "crash":
            return e[1], "handling %s fails in %s (%s%s): its requester never gets a reply" % (e[1], e[4], e[2], "" if e[3] == "None" else ": " + e[3])
        if e[0] == "noreply":
            return e[1], "the request %s is never answered: every message is delivered and no reply was sent" % e[1]
        if e[0] == "stale":
            return e[1][0], "a second %s is sent to a requester that already has its reply" % e[1][0]
        if e[0] == "early":
            return e[1], "the request %s is answered before the answer %s it should wait for has arrived" % (e[1], e[2])
        if e[0] == "nowhere":
            return e[2], "a message is sent to %s, which is no actor" % e[1]
    if is_raise(v):
        return "step", "the coordinator fails with %s" % v[1]
    return None


def one(job):
    sys.setrecursionlimit(30000)
    root, plan, full = job
    repo = core.shared(root)
    tag = str(plan) + (", requests %s" % " ".join(full) if isinstance(full, list) else "")
    try:
        fl, out = tree.requests(repo, plan, full) if isinstance(full, list) else tree.history(repo, plan, extra(plan) if full else None)
    except (TooComplex, RecursionError) as e:
        return tag, None, str(e) or "too deep", set(), (0, 0, 0)
    bad = None
    n = [0, 0, 0]
    for s, v in out:
        bad = bad or judge(s, v)
        n[0] = max(n[0], sum(1 for e in s.trace if e[0] == "reply"))
        n[1] = max(n[1], s.data.get("delivered", 0))
        n[2] = max(n[2], s.data.get("drivers", 0))
    return tag, bad, None, fl.functions, tuple(n)


def run(repo, res, tier):
    res.rule("one-reply", "in a history of the tree, every request a coordinator is sent gets exactly one reply, after all the answers it depends on")
    res.assumptions += ["messages between the same two actors keep their order", "an inner driver's step, objective and volume do not raise"]
    jobs = [(repo.root, p, i % 3 == 0 or tier != "quick") for i, p in enumerate(plans(tier))]
    for i, seq in enumerate(orders(repo, tier)):
        for p, r in (("always", "never"), ("hash", "hash")):
            jobs.append((repo.root, tree.Plan("distributed", max_sprouts=2, sproutiveness=2, progress=p, redundant=r, policy=("fifo", "lifo", "mixed")[i % 3], seed=i + 3), seq))
    replies = messages = nodes = 0
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        for tag, bad, unk, fns, n in ex.map(one, jobs):
            res.functions |= fns
            replies, messages, nodes = replies + n[0], messages + n[1], max(nodes, n[2])
            if unk:
                res.unknown("one-reply", tag, unk)
            elif bad:
                res.bad("one-reply", bad[0], DIST, "%s [%s]" % (bad[1], tag))
            else:
                res.ok("one-reply", tag)
    res.extra.update({"histories": len(jobs), "requests_answered": replies, "messages_delivered": messages, "largest_tree": nodes})
    if not any(o[2] == "violated" for o in res.obligations):
        res.floor("requests", replies, 500)
        res.floor("nodes in the largest tree", nodes, 5)

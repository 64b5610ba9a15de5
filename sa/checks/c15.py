"""C15: every objective function is defined on its whole box."""
from . import problems
from ..ranges import L

TECHNIQUE = "interval abstract interpretation of every problem module over its declared box"
NOTE = ("Coordinates are floats. Elementary functions other than the correctly rounded operations get a relative slack of 1e-12. Failures that only overflow or "
        "underflow of intermediate values could cause are inside the intervals; a may-failure that neither splitting the box nor its faces and corners decide is reported as undecided.")
EXPLANATION = ("Every problem module is interpreted abstractly from its source: the module body exactly, each objective over the interval box it declares. Each partial operation "
               "(division, root, logarithm, power, index, unpacking, call) is an obligation; where the full box does not discharge it, faces, corners and pieces of the box are tried "
               "until the failure is certain or excluded.")


def run(repo, res, tier):
    res.rule("import", "a problem module can be imported: no operation of its body fails")
    res.rule("total", "no operation of an objective fails and its result is a finite real number, for every vector of the box")
    ps = problems.load(repo)
    n = evals = 0
    for p in ps:
        if p.failed:
            e = p.failed
            res.bad("import", p.name, "%s:%s" % (e[0], e[1]), "importing the problem fails: %s" % e[3])
            continue
        if p.problem or p.dims is None or not p.fits:
            res.unknown("import", p.name, p.problem or "dims or fitnesses are not understood")
            continue
        res.ok("import", p.name)
        res.functions |= p.r.functions
        for i in range(len(p.fits)):
            c = p.construct(i)
            v, box, o, k = problems.refine(p, i, 200 if tier == "thorough" else 64, 20000 if tier == "thorough" else 1500)
            evals += k
            n += 1
            if v == "ok":
                res.ok("total", c)
            elif v == "must":
                f, line, fn, what = problems.describe(o)
                res.bad("total", c, "%s:%s" % (f or p.where, line), "%s%s for %s" % (what, " in %s" % fn if fn else "", problems.box_text(box, p.dims)))
            else:
                f, line, fn, what = problems.describe(o)
                res.unknown("total", c, o.undecided or "%s at %s:%s in %s is not excluded" % (what, f, line, fn))
        res.functions |= p.r.functions
    res.extra["abstract_evaluations"] = evals
    res.floor("problems", len(ps), 15)
    res.floor("objectives evaluated", n, 30)

"""C04: archives, fronts and layers keep exactly the non-dominated members."""
from ..core import AnalysisBroken
from . import fronts

TECHNIQUE = "order-type abstract interpretation of filters, layer sorts and archives"
NOTE = "Exhaustive over order types of up to 3 members (4 thorough) and 2 objectives, every arrival order; larger sets rest on the code treating members alike. Archives with a tolerance (OMOPSO's outer archive) are not claimed. Nothing is executed."
EXPLANATION = ("Filters, layer sorts and archive insertions are interpreted, with all helpers inlined, over every order type "
               "of up to N members in two objectives (members known only by how their objective values compare) and every "
               "order of arrival; the members kept, the layers built and the answers given are compared with what Pareto "
               "dominance dictates.")


def run(repo, res, tier):
    res.assumptions += ["objective values are real numbers (no NaN)", "up to 3 members (4 in the thorough tier) and 2 objectives per set"]
    if not fronts.run(repo, res, tier):
        raise AnalysisBroken("no filter, sort or archive was found")

from checks.febase import FeCheck
from engine import fegeom


class Check(FeCheck):
    prop = "C20"
    families = {"geometry": (fegeom.geometry, 4000, 60000)}
    max_paths = (32, 120)
    assumptions = FeCheck.assumptions + (
        "equalities are identities over exact reals with non-zero denominators; sin and cos of one angle are any two "
        "numbers whose squares sum to 1; a difference only counts when the replay on doubles shows it beyond 1e-7",
        "points on an edge of a polygon, or level with a vertex of it, are excluded (documented as undefined)",
    )
    functions = FeCheck.functions + (
        "sonolus/script/vec.py, quad.py, transform.py (compiled from the current source)",
        "engine/ratio.py brings both sides to quotients of polynomials; the solver decides the difference of the cross products",
    )

    def make_law(self, prog, comp, **kw):
        return fegeom.make_law(prog, comp, **kw)


CHECK = Check()

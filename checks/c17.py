from checks.febase import FeCheck
from engine import fe, felayout


class Check(FeCheck):
    prop = "C17"
    families = {"layout": (felayout.layout, 900, 12000)}
    max_paths = (24, 96)
    functions = FeCheck.functions + (
        "sonolus/script/archetype.py (fields, at, ref, spawn, exports), globals.py, pointer.py, record.py, array.py: "
        "the places the compiled callbacks use",
    )
    assumptions = FeCheck.assumptions + (
        "initial content of every declared slot and of three other entities' data is symbolic; where a leaf lives is "
        "learned by executing a probe callback symbolically",
        "entities reached through at() or a reference are other entities: the engine's overlap of an entity's own data "
        "with the array of all entities' data is not modelled",
    )

    def compiled(self, prog):
        return felayout.Compiled(prog)

    def make_law(self, prog, comp, **kw):
        return felayout.make_law(prog, comp, **kw)


CHECK = Check()

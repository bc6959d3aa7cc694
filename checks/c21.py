from checks.febase import FeCheck
from engine import felink


class Check(FeCheck):
    prop = "C21"
    families = {"entities": (felink.entities, 240, 6000), "longer": (felink.longer, 48, 1200), "all5": (felink.all5, 16, 200)}
    max_paths = (160, 1200)
    quick_s = 10.0
    assumptions = (
        "nodes of a list have positive entity indices, the end of a list is any index of at most 0 (what the library takes "
        "as absent); the links form a list without cycles",
        "keys are numbers (fields, or expressions over fields, of the entities) in -8..8 (-22..22 for longer lists), not NaN",
        "lists of up to 4 nodes, and of 5 and 6, have every key symbolic; lists of up to 20 nodes have two nodes with "
        "symbolic keys at arbitrary places and fixed keys elsewhere",
    )
    functions = (
        "sonolus/script/containers.py: sort_linked_entities, _merge_sort_linked_list_nodes, _merge_linked_list_nodes, "
        "_EntityNodeRef (compiled by the real frontend in a callback; its control-flow graph is executed symbolically on "
        "entity memory)",
    )

    def bounds(self, tier):
        return super().bounds(tier) | {"loop_iterations": "compiled: 4000 visits per block, 40000 steps", "list_lengths": "0-4, 5-6, 5-20"}

    def make_law(self, prog, comp, **kw):
        return felink.make_law(prog, comp, **kw)

    def compiled(self, prog):
        return felink.Compiled(prog)


CHECK = Check()

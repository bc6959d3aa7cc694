from checks.febase import FeCheck
from engine import fevalue


class Check(FeCheck):
    prop = "C18"
    families = {"values": (fevalue.values, 6000, 60000)}
    max_paths = (24, 96)
    assumptions = FeCheck.assumptions + (
        "a record built from references into the record it is then copied over is excluded (documented by-reference "
        "construction copied field by field)",
    )


CHECK = Check()

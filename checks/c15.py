from checks.febase import FeCheck
from engine import feiter


class Check(FeCheck):
    prop = "C15"
    families = {
        "iters": (feiter.iters, 1800, 24000),
        "ranges": (feiter.ranges, 300, 3000),
    }
    max_paths = (40, 160)


CHECK = Check()

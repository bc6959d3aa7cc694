from checks.febase import FeCheck
from engine import fecont


class Check(FeCheck):
    prop = "C14"
    families = {
        "containers": (fecont.containers, 1200, 16000),
        "queries": (fecont.queries, 200, 2000),
        "bigsort": (fecont.bigsort, 64, 800),
    }
    max_paths = (40, 160)


CHECK = Check()

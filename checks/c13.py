from checks.febase import FeCheck
from engine import fearith


class Check(FeCheck):
    prop = "C13"
    families = {"arith": (fearith.arith, 2400, 30000)}
    law_kw = {"tol": 1e-9}


CHECK = Check()

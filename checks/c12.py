from checks.febase import FeCheck
from engine import fegen, feorder, ferebind


class Check(FeCheck):
    prop = "C12"
    families = {"control": (fegen.control, 1200, 20000), "rebinds": (ferebind.rebinds, 900, 12000), "order": (feorder.order, 900, 12000)}


CHECK = Check()

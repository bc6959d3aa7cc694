from checks.tvbase import TVCheck

CHECK = TVCheck("C06", {"temps": 2, "swaps": 4, "arrays": 4, "bigtemps": 3}, quick=400, thorough=9000)

from checks.tvbase import TVCheck

CHECK = TVCheck("C08", {"loop_shapes": 5, "loops": 2, "swaps": 1, "hazard_loops": 1}, quick=1600, thorough=20000)

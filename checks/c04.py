from checks.tvbase import TVCheck

CHECK = TVCheck("C04", {"alias": 2, "alias_shapes": 6, "modes": 3, "deferred": 8}, quick=900, thorough=20000)

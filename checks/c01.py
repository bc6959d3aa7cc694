from checks.tvbase import TVCheck

CHECK = TVCheck(
    "C01",
    {
        "mix": 3, "algebra": 5, "branches": 3, "diamonds": 3, "loops": 1, "switch_loops": 1, "swaps": 1, "hazards": 1,
        "alias_shapes": 1, "deferred": 8, "loop_shapes": 1, "temps": 1, "arrays": 1, "switches": 2, "carried": 4,
        "frontend": 4,
    },
    quick=1000,
    thorough=20000,
)

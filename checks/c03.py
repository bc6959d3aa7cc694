from checks.tvbase import TVCheck


def kinds(f):
    if f.kind in ("fault", "draw", "steps"):
        return True
    return any(w in str(f.detail) for w in ("effect", "draw", "fails", "fault"))


CHECK = TVCheck("C03", {"hazards": 3, "hazard_loops": 5, "diamonds": 1, "algebra": 1}, quick=700, thorough=9000, kinds=kinds)

import time

from checks.febase import FeCheck
from engine import felevel, pysym, runner


class Check(FeCheck):
    prop = "C22"
    families = {"level": (felevel.level, 2400, 40000)}
    max_paths = (40, 160)
    assumptions = FeCheck.assumptions + (
        "a slot of an entity is filled by the level entry whose name its archetype imports at that index, a reference by "
        "the position of the entity of that name (what the runtime does)",
        "JSON and gzip are stand-ins in the symbolic runs; replays use the real ones",
        "omitted fields are compared as zero; references to missing entities and repeated names are outside the claim",
        "archetype names are printable ASCII in the string queries",
    )
    functions = FeCheck.functions + (
        "sonolus/build/level.py, sonolus/script/level.py (executed with symbolic values, names and references)",
        "sonolus/script/archetype.py: level data entities, fields, references, import tables",
    )

    def jobs(self, tier, seed):
        k = 1 if tier == "quick" else 20
        return (
            [(tier, "names", n) for n in ((4, 12) if tier == "quick" else (4, 12, 24))]
            + [(tier, "parse", seed * 1000 + i) for i in range(60 * k)]
            + super().jobs(tier, seed)
        )

    def work(self, spec):
        out = runner.Out()
        if spec[1] == "names":
            t0 = time.perf_counter()
            try:
                q, unknown, why = felevel.names_law(spec[2])()
            except pysym.Unsupported as x:
                out.inconclusive.append(f"names: {x}")
                return out
            out.counts["queries"] += q
            out.counts["obligations"] += q
            out.counts["laws"] += 1
            out.counts["compared"] += q - unknown
            out.counts["solver_ms"] += int((time.perf_counter() - t0) * 1000)
            if unknown:
                out.inconclusive.append(f"names: {unknown} pairs undecided")
            if why:
                out.finding(f"names:{spec[2]}", why, job=spec)
            return out
        if spec[1] == "parse":
            law = pysym.Law(felevel.parse_body(spec[2]), max_paths=60 if spec[0] == "quick" else 400)
            law.deadline = time.time() + self.seconds(spec) * 2
            law.run()
            self.account(out, spec, law)
            return out
        return super().work(spec)

    def make_law(self, prog, comp, **kw):
        return felevel.make_law(prog, comp, **kw)

    def compiled(self, prog):
        return felevel.Compiled(prog)


CHECK = Check()

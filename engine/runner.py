"""Common driver: parallel jobs, evidence, replays, known findings."""

import collections
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PHASE = None  # shared int: 1 while the worker is inside the code under test


class under_test:
    """Marks time spent inside the code under test, so a crash or hang there is told from one of ours."""

    def __enter__(self):
        if PHASE is not None:
            PHASE.value = 1

    def __exit__(self, *a):
        if PHASE is not None:
            PHASE.value = 0


class Out:
    """Result of one job."""

    def __init__(self):
        self.findings = []  # dicts: key, what, replay
        self.counts = collections.Counter()
        self.samples = []
        self.inconclusive = []
        self.skipped = []
        self.functions = set()
        self.error = None

    def finding(self, key, what, **replay):
        self.findings.append({"key": str(key), "what": str(what), "replay": replay})


def _worker(conn, work, phase):
    global PHASE
    PHASE = phase
    try:
        while True:
            job = conn.recv()
            if job is None:
                return
            i, spec = job
            t0 = time.time()
            try:
                out = work(spec)
            except BaseException as e:  # noqa: BLE001
                out = Out()
                out.error = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
            phase.value = 0
            out.counts["job_s_x1000"] += int((time.time() - t0) * 1000)
            conn.send((i, out))
    except (EOFError, KeyboardInterrupt):
        pass


def run_jobs(jobs, work, budget, hang=60, workers=None, stop_after=6):
    """Yields (spec, Out) for every job finished before the budget."""
    ctx = mp.get_context("fork")
    n = min(workers or os.cpu_count() or 4, max(1, len(jobs)))
    end = time.time() + budget
    procs = {}

    def spawn():
        a, b = ctx.Pipe()
        ph = ctx.Value("i", 0, lock=False)
        p = ctx.Process(target=_worker, args=(b, work, ph), daemon=True)
        p.start()
        b.close()
        procs[a] = [p, ph, None, 0.0]
        return a

    todo = collections.deque(enumerate(jobs))
    nfound = 0

    def feed(a):
        if todo and time.time() < end and nfound < stop_after:
            i, spec = todo.popleft()
            procs[a][2] = (i, spec)
            procs[a][3] = time.time()
            a.send((i, spec))
            return True
        procs[a][2] = None
        return False

    def lost(a, why):
        p, ph, job, _ = procs.pop(a)
        phase = ph.value
        p.kill()
        p.join()
        a.close()
        out = Out()
        if phase == 1:
            out.finding(f"crash:{job[1]}", f"the code under test {why} on job {job[1]}", job=job[1])
        else:
            out.error = f"worker {why}"
        return job[1], out

    for _ in range(n):
        feed(spawn())
    while any(v[2] is not None for v in procs.values()):
        busy = [a for a, v in procs.items() if v[2] is not None]
        ready = wait(busy, timeout=1.0)
        for a in ready:
            try:
                i, out = a.recv()
            except (EOFError, OSError):
                r = lost(a, "died")
                nfound += len(r[1].findings)
                yield r
                feed(spawn())
                continue
            spec = procs[a][2][1]
            feed(a)
            nfound += len(out.findings)
            yield spec, out
        now = time.time()
        for a in list(procs):
            v = procs[a]
            if v[2] is not None and (
                now - v[3] > (hang if v[1].value == 1 else max(hang, 120)) or now > end + 90
            ):
                if a.poll():
                    continue
                r = lost(a, "did not finish")
                nfound += len(r[1].findings)
                yield r
                feed(spawn())
    for a, v in procs.items():
        try:
            a.send(None)
        except OSError:
            pass
        v[0].join(2)
        if v[0].is_alive():
            v[0].kill()


def known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status", "known") == "known":
                    out[d["key"]] = d["what"]
    return out


def run_check(prop, tier, check):
    """check: object with jobs(tier, seed), work(spec), budget(tier), level, coverage(agg, tier), assumptions."""
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = check.jobs(tier, seed)
    agg = Out()
    errors, skipped = [], collections.Counter()
    done = 0
    for spec, out in run_jobs(jobs, check.work, check.budget(tier), hang=getattr(check, "hang", 60)):
        done += 1
        agg.findings += out.findings
        agg.counts.update(out.counts)
        agg.functions |= out.functions
        if len(agg.samples) < 6:
            agg.samples += out.samples[: 6 - len(agg.samples)]
        agg.inconclusive += [f"{spec}: {x}" for x in out.inconclusive]
        for s in out.skipped:
            skipped[s] += 1
        if out.error:
            errors.append(f"{spec}: {out.error}")
    agg.counts["jobs"] = len(jobs)
    agg.counts["jobs_done"] = done
    agg.counts["job_errors"] = len(errors)
    kn = known(prop)
    new, old = [], {}
    seen = set()
    for f in agg.findings:
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        if f["key"] in kn:
            old[f["key"]] = f
        else:
            new.append(f)
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    lines = []
    for n, f in enumerate(new[:5]):
        path = os.path.join(VERIF, "evidence", "replays", f"{prop}-{n}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "key": f["key"], "what": f["what"], **f["replay"]}, fh, indent=1, default=str)
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"  {f['what'][:600]}")
    cov = check.coverage(agg, tier)
    cov.setdefault("samples", agg.samples)
    cov["functions_encoded"] = sorted(agg.functions) or getattr(check, "functions", [])
    cov["bounds"] = check.bounds(tier)
    cov["inconclusive"] = len(agg.inconclusive)
    cov["inconclusive_examples"] = agg.inconclusive[:8]
    cov["skipped"] = dict(skipped.most_common(12))
    cov["counts"] = dict(agg.counts)
    cov["errors"] = [e[:800] for e in errors[:5]]
    cov["known_findings_seen"] = sorted(old)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": cov,
        "assumptions": list(check.assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for k in kn:
        if k in old or getattr(check, "always_report_known", True):
            print(f"KNOWN-FINDING: property={prop} {kn[k]}")
    for ln in lines:
        print(ln)
    print(
        f"{prop} {tier}: {done}/{len(jobs)} jobs, {len(new)} violations, {len(agg.inconclusive)} inconclusive, "
        f"{len(errors)} errors, {time.time() - t0:.1f} s"
    )
    if new:
        return 1
    if errors and (len(errors) > max(2, 0.2 * done)):
        sys.stderr.write("\n".join(errors[:3])[:4000] + "\n")
        return 2
    return 0

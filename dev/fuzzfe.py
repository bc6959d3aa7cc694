"""fuzzfe.py MODULE:MAKER N0 N1 [-v]: run one frontend family over seeds in parallel and summarise."""
import collections, multiprocessing as mp, os, sys, time, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from engine import build
build.use(os.environ.get("VERIF_REPO", "/repo"))
from engine import fe
mod, mk = sys.argv[1].split(":")
maker = getattr(importlib.import_module("engine." + mod), mk)
KW = {}
def f(s):
    t = time.time()
    pr = maker(s)
    try:
        c = getattr(sys.modules[maker.__module__], 'Compiled', fe.Compiled)(pr)
    except fe.Rejected as e:
        return s, "REJ", str(e), pr.src, time.time() - t, None
    except Exception as e:
        import traceback
        return s, "ERR", traceback.format_exc()[-400:], pr.src, time.time() - t, None
    try:
        law = getattr(sys.modules[maker.__module__], 'make_law', fe.make_law)(pr, c, max_paths=int(os.environ.get("MP", "40")), seed=s, **getattr(sys.modules[maker.__module__], "LAW", {}))
        law.deadline = time.time() + 8
        law.run()
    except Exception as e:
        import traceback
        return s, "ERR", traceback.format_exc()[-400:], pr.src, time.time() - t, None
    d = dict(paths=law.compared, inc=law.inconclusive[:1], uns=law.unsupported[:1], cuts=dict(law.cuts))
    return s, "FIND" if law.finding else "ok", (law.finding.why, law.finding.vals) if law.finding else "", pr.src, time.time() - t, d
if __name__ == "__main__":
    n0, n1 = int(sys.argv[2]), int(sys.argv[3])
    v = "-v" in sys.argv
    C = collections.Counter(); rej = collections.Counter()
    t0 = time.time()
    with mp.Pool(8) as p:
        for s, k, why, src, t, d in p.imap_unordered(f, range(n0, n1)):
            C[k] += 1
            if k == "REJ":
                rej[why[:150]] += 1
                if rej[why[:150]] <= (2 if v else 0): print(s, "REJ", why); print(src)
            elif k != "ok" and (k != "ERR" or C[k] < 4):
                print(s, k, why)
                if v: print(src)
            if d:
                C["paths"] += d["paths"]; C["inc"] += len(d["inc"]); C["vac"] += not d["paths"]
                for x in d["uns"]: C["uns " + x] += 1
                for a, b in d["cuts"].items(): C["cut " + a] += b
            C["t"] += t
            if t > 6: print(s, "slow", round(t, 1))
    print(dict(C), round(time.time() - t0, 1)); print(rej.most_common(20))

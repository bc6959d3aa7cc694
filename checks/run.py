"""Entry point: run.py <property> <quick|thorough> | run.py <property> --replay <file>"""

import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from engine import build, runner  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        root, how = build.prepare()
    except build.BuildError as e:
        print(f"{prop}: {e}")
        return 2
    build.use(root)
    print(f"{prop}: {how}")
    check = importlib.import_module(f"checks.{prop.lower()}").CHECK
    if tier == "--replay":
        spec = json.load(open(sys.argv[3]))["job"]
        out = check.work(tuplify(spec))
        for f in out.findings:
            print(f["what"])
            print(json.dumps(f["replay"], indent=1, default=str)[:4000])
        return 1 if out.findings else 0
    return runner.run_check(prop, tier, check)


def tuplify(x):
    return tuple(map(tuplify, x)) if isinstance(x, list) else x


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)

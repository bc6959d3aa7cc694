"""mkbug.py: writes seeded/<id>/ from (file, old, new) edits; used by dev/bugs_*.py."""
import json, os, shutil, subprocess, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bug(id, prop, edits, needs, breaks, demo, lib=True):
    d = os.path.join(V, "seeded", id)
    if not os.path.isdir(d):
        d = os.path.join(V, "wip", id)
    os.makedirs(d, exist_ok=True)
    diff = ""
    by = {}
    for f, old, new in edits:
        s = by.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        by[f] = s.replace(old, new)
    with tempfile.TemporaryDirectory() as t:
        for f, s in by.items():
            for side, text in (("a", open("/repo/" + f).read()), ("b", s)):
                p = os.path.join(t, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(text)
            r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True)
            assert r.stdout
            diff += "\n".join(
                (l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l) for l in r.stdout.split("\n")
            )
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
    )
    open(os.path.join(d, "demo.py"), "w").write(demo)
    if lib:
        shutil.copy(os.path.join(V, "dev", "demo_lib.py"), os.path.join(d, "demo_lib.py"))

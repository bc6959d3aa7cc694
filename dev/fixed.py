"""fixed.py PROPERTY KEY COMMIT WHAT: append a fixed entry to known_findings.jsonl."""
import json, sys
p, k, c, w = sys.argv[1:]
open("/verif/known_findings.jsonl", "a").write(json.dumps({"property": p, "key": k, "status": "fixed", "what": f"fixed: property={p} {c} {w}"}) + "\n")

#!/usr/bin/env python3
"""kf.py PROP COMMIT TEXT: append a fixed entry to known_findings.jsonl"""
import sys, json
p, c, t = sys.argv[1:4]
open('/verif/known_findings.jsonl', 'a').write(json.dumps({"status": "fixed", "property": p, "commit": c, "entry": f"fixed: property={p} {c} {t}"}) + "\n")

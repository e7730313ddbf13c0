#!/usr/bin/env python3
"""usage: addfix.py PROP COMMIT TEXT  -- records a repaired defect in known_findings.jsonl"""
import json, sys, os
p, c, t = sys.argv[1:]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl'), 'a') as f:
    f.write(json.dumps({"property": p, "status": "fixed", "keys": [], "what": f"fixed: property={p} {c} {t}"}) + '\n')

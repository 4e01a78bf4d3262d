#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the compact table below (one call per property)."""
import json, os
OUT = []
K = 'stingraykit/'
def P(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, hook=None):
    OUT.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [K + f for f in files],
            "state": [{"name": n, "meaning": m, "where": K + w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": K + w} for n, w in mechanism],
            "observe_at": observe or [],
            "hook_needed": hook}})

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties_table.py')).read())
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(path, 'w') as f:
    for p in OUT:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(OUT), 'properties')

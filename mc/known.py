"""Known findings: /verif/known_findings.json, read only.

{"findings": [{"property", "text", "where": {...}}], "fixed": ["fixed: property=..."]}
A finding matches a failing case by its family and its exact case.
"""
import json
import os

from .core import HOME


def load_known(pid):
    path = os.path.join(HOME, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        d = json.load(f)
    r = []
    for k in d.get("findings", []):
        if k["property"] != pid:
            continue
        r.append({"text": k["text"], "match": _matcher(k["where"])})
    return r


def _matcher(where):
    def match(family, case, problems):
        if where.get("family") is not None and where["family"] != family:
            return False
        if "case" in where and where["case"] != case:
            return False
        if "problem" in where and not all(where["problem"] in str(p) for p in problems):
            return False
        return True

    return match

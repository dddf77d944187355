"""Shrinking of cases (used when investigating rejected sessions)."""

import copy
import random

from . import prog as P


def rerender(case):
    part = 0
    for s in case["steps"]:
        if s["op"] == "add":
            s["text"] = ("" if part == 0 else "#program s%d. " % part) + P.render_part(case, s, None)
            part += 1
    return case


def variants(case):
    for si, s in enumerate(case["steps"]):
        if s["op"] != "add":
            if sum(x["op"] == "solve" for x in case["steps"]) > 1 or s["op"] != "solve":
                c = copy.deepcopy(case)
                del c["steps"][si]
                yield c
            if s["op"] == "solve":
                for k in range(len(s["as"])):
                    c = copy.deepcopy(case)
                    del c["steps"][si]["as"][k]
                    yield c
            continue
        for k in range(len(s["rules"])):
            c = copy.deepcopy(case)
            del c["steps"][si]["rules"][k]
            yield c
        for k in range(len(s["obj"])):
            c = copy.deepcopy(case)
            del c["steps"][si]["obj"][k]
            yield c
        for k, r in enumerate(s["rules"]):
            for j in range(len(r["b"])):
                c = copy.deepcopy(case)
                del c["steps"][si]["rules"][k]["b"][j]
                yield c
            if r["h"] == "c" and len(r["hs"]) > 1:
                for j in range(len(r["hs"])):
                    c = copy.deepcopy(case)
                    del c["steps"][si]["rules"][k]["hs"][j]
                    yield c
    for ci, cons in enumerate(case["_cons"]):
        for key in ("el", "iv"):
            for j in range(len(cons.get(key, []))):
                c = copy.deepcopy(case)
                del c["_cons"][ci][key][j]
                yield c
        if "el" in cons and cons["k"] != "disjoint":
            for j, e in enumerate(cons["el"]):
                for sub in ("l", "r"):
                    if sub in e["e"] and not (cons.get("syn") == "diff"):
                        c = copy.deepcopy(case)
                        c["_cons"][ci]["el"][j]["e"] = c["_cons"][ci]["el"][j]["e"][sub]
                        yield c


def shrink(case, fails, limit=2000):
    n = 0
    changed = True
    while changed and n < limit:
        changed = False
        for c in variants(case):
            n += 1
            rerender(c)
            if fails(c):
                case = c
                changed = True
                break
            if n >= limit:
                break
    return case

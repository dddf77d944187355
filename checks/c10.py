"""C10, C11, and C19: clauses added during the search, bounds, and the strength of propagation."""
import json
import os
import re

from common import *
from vf import spy
from vf import session as S
from vf import tlc as T

ALL = {"sum": 4, "diff": 1, "nsum": 2, "distinct": 2, "disjoint": 2, "dom": 1}
PROFILES = [
    {"kinds": ALL},
    {"kinds": {"sum": 1}, "nvars": (2, 4), "terms": (2, 4), "maxcand": 700, "natoms": (0, 2)},
    {"kinds": {"distinct": 3, "sum": 1}, "nvars": (2, 4), "distinct_terms": (3, 5), "natoms": (0, 2)},
    {"kinds": {"disjoint": 3, "sum": 1}, "nvars": (3, 4), "disjoint_terms": (3, 5), "schedule": 0.7, "natoms": (0, 2), "hi": (2, 6), "maxcand": 900},
    {"kinds": {"nsum": 3, "sum": 1}, "nvars": (2, 3), "natoms": (0, 2), "lo": (-5, 0), "hi": (1, 6)},
    {"kinds": ALL, "obj": 0.8, "nvars": (2, 3)},
    {"kinds": ALL, "parts": (1, 3), "ext": 0.3, "assume": 0.2, "obj": 0.2, "modes": 0.3, "resolve": 0.3},
]


def configs(rng, case):
    out = [(gen.NOTRANS, []), (gen.NOTRANS, ["--rand-freq=1.0", "--seed=%d" % rng.randint(1, 999), "--sign-def=rnd"])]
    for _ in range(2):
        o, a = gen.options(rng)
        out.append((o + gen.NOTRANS, a))
    out.append(gen.options(rng))
    return [gen.sane(vary(rng, case, x)) for x in out]


def kind(e):
    return {"str": "strength", "cl": "clause", "fix": "fixpoint", "un": "undo", "pr": "propagate", "init": "start", "model": "solution"}.get(e["k"], e["k"])


MINE = {"C10": {"cl", "init", "crash", "error"}, "C19": {"str", "crash", "error"}, "C11": {"fix", "un", "pr", "model", "init", "crash", "error"}}


def run(c):
    c.assumptions += ASSUME[:1] + [
        "the internal constraints of a step mean what the program says (decided by C01 to C05)",
        "clauses added during initialization precede all solutions, so that an unsound one loses solutions (decided by C01 to C06)",
    ]
    c.model_check("MCPropagation", None if c.quick else "MCPropagation2")
    driver = c.build("spy_driver", optional=True)
    if driver is None:
        # The internals are organized differently; decide on the solutions.
        c.assumptions.append("the recording harness did not fit the sources: only solutions were compared in this run")
        c.cov["fallback"] = "sessions"
        sweep(c, PROFILES, configs, 100, 6, 90 if c.quick else 600)
        return
    batches, n, budget = (7, 60, 85) if c.quick else (120, 120, 700)
    mine = MINE[c.prop]
    for b in range(batches):
        if b and c.left(budget) < 0:
            break
        rng = random.Random("%s/%d/%d" % (os.environ.get("VF_RNG", c.prop), c.seed, b))
        g = gen.Gen(rng, **dict(PROFILES[b % len(PROFILES)], widerange=0.0))
        items, info = [], {}
        for i in range(n):
            case = g.case()
            for k, cfg in enumerate(configs(rng, case)):
                sid = "b%d.%d.%d" % (b, i, k)
                items.append((sid, case, cfg))
                info[sid] = (case, cfg)
        rec = spy.record(driver, items, c.work, env={"SPY_LIMIT": "150" if c.quick else "400"}, strong=c.prop == "C19")
        traces = []
        for sid, ev in rec.items():
            if not spy.small(ev):
                c.count("skipped_large")
                continue
            traces.append({"id": sid, "ev": ev})
            for e in ev:
                c.count("events_" + kind(e))
        c.count("runs", len(items))
        acc = c.validate("PropTrace", traces)
        c.count("traces_validated_against_impl", len(traces))
        if traces:
            c.sample({"program": [s["text"] for s in info[traces[0]["id"]][0]["steps"] if s["op"] == "add"],
                      "events": [kind(e) for e in traces[0]["ev"]][:20]})
        for t in traces:
            if t["id"] in acc:
                continue
            # locate and repeat
            case, cfg = info[t["id"]]
            _, _, _, out = T.validate("PropTrace", [t], c.work, "l", progress=True)
            at = max([int(x) for x in re.findall(r'<<"MATCH", "[^"]+", (\d+)>>', out)], default=0)
            bad = t["ev"][at]
            c.count("rejected_" + kind(bad))
            if bad["k"] not in mine:
                continue
            multi = any(x.startswith("-t") for x in cfg[1]) or len(cfg) > 2
            again = spy.record(driver, [("r%d" % k, case, cfg) for k in range(40 if multi else 1)], c.work, env={"SPY_LIMIT": "4000"}, tag="r", strong=c.prop == "C19")
            tr = [{"id": i, "ev": ev} for i, ev in again.items() if spy.small(ev)]
            acc2, _, _, out = T.validate("PropTrace", tr, c.work, "r", progress=True)
            for r in tr:
                if r["id"] in acc2:
                    continue
                at = max([int(x) for x in re.findall(r'<<"MATCH", "%s", (\d+)>>' % r["id"], out)], default=0)
                if r["ev"][at]["k"] in mine:
                    c.violation("%s %d is not a step of the specification" % (kind(r["ev"][at]), at + 1),
                                {"case": case, "config": cfg, "rejected_event": r["ev"][at], "events": r["ev"][:at + 1],
                                 "script": S.script(case, cfg, "r")})
                    break
            if len(c.violations) >= 2:
                break
        if c.violations:
            break

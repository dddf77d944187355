"""C13: arithmetic is exact or rejected, unsupported input is rejected."""
import json
import os
import re

from common import *
from vf import arith
from vf import session as S
from vf import tlc as T

OPTS = [
    [], gen.NOTRANS,
    [("translate-clauses", "100000,100000000"), ("translate-pb", "100000"), ("translate-opt", "max"), ("translate-distinct", "max")],
    [("translate-clauses", "0"), ("translate-pb", "10000"), ("sort-constraints", "yes"), ("order-heuristic", "max-chain")],
    [("refine-reasons", "no"), ("refine-introduce", "no"), ("propagate-chain", "no"), ("literals-only", "yes")],
]


def run_cases(c, cases, driver, cfgs, tag):
    scripts, index = [], {}
    for i, case in enumerate(cases):
        for k, o in enumerate(cfgs(i)):
            sid = "%d.%d" % (i, k)
            index[sid] = (i, o)
            lines = [["O", a, b] for a, b in o] + [["A", "0"], ["I"], ["P", S.esc(arith.program(case))], ["G", "base"], ["N"], ["V", ""]]
            scripts.append((sid, "S\t%s\n%s\nE\n" % (sid, "\n".join("\t".join(l) for l in lines))))
    res = S.run_scripts(driver, scripts, c.work, 5, tag=tag)
    groups = {}
    for sid, (i, o) in index.items():
        obs = arith.observe(cases[i], res[sid]) if sid in res else None
        if obs is None:
            c.count("undecided_timeout")
            continue
        groups.setdefault((i, json.dumps(obs, sort_keys=True)), (obs, []))[1].append(o)
    c.count("runs", len(scripts))
    traces, info = [], {}
    for (i, _), (obs, os_) in groups.items():
        tid = "%s%d" % (tag, len(traces))
        info[tid] = (i, os_[0], obs)
        traces.append({"id": tid, "n": cases[i]["n"], "cs": arith.spec_cons(cases[i]), "obs": obs})
    return traces, info


def validate(c, traces, tag):
    jobs = max(1, min(8, len(traces) // 5))
    acc = set()
    with cf.ThreadPoolExecutor(jobs) as ex:
        for a, d, g, out in ex.map(lambda k: T.validate("ArithTrace", traces[k::jobs], c.work, "%s%d" % (tag, k), 1, 800), range(jobs)):
            acc |= a
            c.cov["states"] += d
            c.cov["transitions"] += g
            for x in re.findall(r'<<"CLASS", "([^"]+)">>', out):
                c.count("class_" + x)
    c.count("traces_validated_against_impl", len(traces))
    return acc


def run(c):
    driver = c.build("session_driver")
    c.assumptions += ASSUME[:1] + [
        "integers of the input language have at most 31 bits (larger literals are gringo's matter)",
        "intermediate results outside the supported range may be rejected or computed exactly, both are accepted",
    ]
    batches, n, budget = (6, 400, 60) if c.quick else (40, 600, 780)
    for b in range(batches):
        if b and c.left(budget) < 0:
            break
        rng = random.Random("C13/%d/%d" % (c.seed, b))
        g = arith.Gen(rng, weird=[0.02, 0.15, 0.4][b % 3])
        if b == 0:
            # operations around the limits, each in a random place
            ops = arith.boundary()
            c.count("boundary_operations", len(ops))
            cases = [arith.place(rng, g, e) for e in ops]
        else:
            cases = [g.case() for _ in range(n)]
        traces, info = run_cases(c, cases, driver, lambda i: [[], gen.NOTRANS + [rng.choice([("refine-introduce", "no"), ("refine-reasons", "no"), ("propagate-chain", "no")])][: i % 2], rng.choice(OPTS[2:])], "a%d_" % b)
        acc = validate(c, traces, "a")
        for t in traces:
            i, o, obs = info[t["id"]]
            c.count("rejected_programs" if obs["e"] == "reject" else "solved_programs")
            c.sample({"program": arith.program(cases[i]), "observed": obs["e"]}, 4)
            if t["id"] in acc:
                continue
            # repeat before reporting
            tr, inf = run_cases(c, [cases[i]], driver, lambda _: [o, o], "r")
            if tr and any(x["id"] not in validate(c, tr, "r") for x in tr):
                c.violation("outcome %s is not one the specification allows" % obs["e"],
                            {"program": arith.program(cases[i]), "options": o, "observed": obs, "case": cases[i]})
            if len(c.violations) > 6:
                break
        if c.violations:
            break

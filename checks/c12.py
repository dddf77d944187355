"""C12: rewriting statements preserves their meaning."""
from common import *
from vf import session as S
from vf import stms

ALL = {"sum": 6, "diff": 2, "distinct": 2, "disjoint": 1, "dom": 1}
PROFILES = [
    {"kinds": ALL, "cond": 0.7, "tables": 1.0, "family": 0.8, "anydom": 0.7},
    {"kinds": {"sum": 6, "diff": 2}, "cond": 0.6, "tables": 1.0, "family": 0.6, "nrules": (2, 4), "ncons": (1, 2), "heads": 0.5},
    {"kinds": ALL, "cond": 0.7, "tables": 1.0, "family": 0.8, "obj": 0.6, "show": 0.3},
    {"kinds": ALL, "cond": 0.6, "tables": 0.8, "family": 0.6, "parts": (1, 3), "nvars": (2, 4)},
    {"kinds": {"sum": 6, "diff": 2}, "cond": 0.3, "tables": 0.6, "dup": 0.4, "nrules": (2, 5), "factonly": 0.1, "heads": 0.6},
]


def configs(rng, case):
    out = [([], []), ([("shift-constraints", "no")], []), (gen.NOTRANS, [])]
    return out + [gen.options(rng, search=False, threads=False)]


def rewriting(c, driver, n):
    """Statements given to the rewriter alone; those without constraints are unchanged."""
    rng = random.Random("C12/rewrite/%d" % c.seed)
    scripts, info = [], {}
    for k in range(n):
        lines, exp = ["S\tw%d" % k], []
        for _ in range(25):
            if rng.random() < 0.05:
                lines.append("O\tshift-constraints\t%s" % rng.choice(["yes", "no"]))
            s, con, pool = stms.statement(rng)
            exp.append((con, pool))
            lines.append("T\t" + S.esc(s))
        scripts.append(("w%d" % k, "\n".join(lines) + "\nE\n"))
        info["w%d" % k] = (exp, lines)

    def traces(ss):
        out = []
        for sid, evs in S.run_scripts(driver, ss, c.work, 20, 8, "w").items():
            exp, lines = info[sid]
            # parsing starts with "#program base."
            evs = [e for e in evs if e["e"] != "end"]
            ev, k = [], -1
            for e in evs:
                if e["e"] != "rewrite":
                    if e["e"] == "error":
                        ev.append({"stm": "error", "con": False, "pool": False, "out": [], "e": str(e)})
                    continue
                base = e["stm"] == "#program base."
                k += base
                con, pool = (False, False) if base else exp[k]
                ev.append({"stm": e["stm"], "con": con, "pool": pool, "out": e["out"]})
            out.append({"id": sid, "ev": ev})
        return out

    ts = traces(scripts)
    c.count("rewritten_statements", sum(len(t["ev"]) for t in ts))
    c.count("rewritten_statements_with_constraints", sum(e["con"] for t in ts for e in t["ev"]))
    c.count("traces_validated_against_impl", len(ts))
    acc = c.validate("RewriteTrace", ts)
    bad = [t for t in ts if t["id"] not in acc]
    if bad:
        again = traces([x for x in scripts if x[0] in {t["id"] for t in bad[:3]}])
        acc = c.validate("RewriteTrace", again)
        for t in again:
            if t["id"] not in acc:
                c.violation("rewriting changes a statement without constraints", {"script": info[t["id"]][1], "events": t["ev"]})


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    rewriting(c, c.build("session_driver"), 60 if q else 600)
    if c.violations:
        return
    sweep(c, PROFILES, configs, 150 if q else 250, 10 if q else 200, 100 if q else 600)

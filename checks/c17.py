"""C17: sets of values, order literal stores and duplicate-free lists."""
import random
import subprocess

from common import *
from vf import graph

LIM = 2**30 - 1
SETS = [
    ("val", [0, 1, 2, 3, 4, 5, 6]), ("val", [-3, -2, -1, 0, 1, 2, 3]), ("sum", [-7, -5, -4, 0, 1, 6, 9]),
    ("val", [-LIM, -LIM + 1, -1, 0, 2, LIM - 1, LIM]), ("sum", [-2**40, -2**31, -1, 0, 2**31, 2**32, 2**40]),
]
VARS = [
    [0, 1, 2, 3, 4, 5], [-3, -2, -1, 0, 1, 2], [0, 7, 20, 21, 39, 40], [0, 1, 2, 9, 19, 21], [-5, -4, 3, 4, 14, 16],
    [-100, -99, -1, 0, 100, 104], [-LIM, -1, 0, 1, 5, LIM], [LIM - 25, LIM - 20, LIM - 12, LIM - 3, LIM - 1, LIM],
    [-LIM, -LIM + 1, -LIM + 2, -LIM + 9, -LIM + 10, -LIM + 11],
]


def set_answer(st, f):
    n = len(st["c"])
    iv = ["%d:%d" % (f[a], f[b]) for a, b in st["iv"]]
    cc = {tuple(x) for x in st["cc"]}
    ci = {tuple(x) for x in st["ci"]}
    enum = []
    for a, b in st["iv"]:
        enum += list(range(f[a], min(f[b], f[a] + 12)))
    out = ("e" if st["e"] else "n") + "".join(" " + x for x in iv) + " |" + "".join(" " + x for x in reversed(iv)) + " |"
    out += "".join(" %d%d" % (c, c) for c in st["c"]) + " |"
    out += "".join(" %d%d" % ((i, j) in cc, (i, j) in ci) for i in range(n + 1) for j in range(i + 1, n + 1))
    return out + " |00 |" + "".join(" %d" % v for v in enum[:12])


def vec_answer(e, st):
    s = "".join(" %d" % x for x in e["_d"])
    return "%d %d %d |%s |%s |%s" % (e["r"], st["n"], st["n"] == 0, s, s, "".join(" %d" % x for x in st["c"]))


def var_answer(st, f):
    lits, lo, hi = st["_s"][0], st["bd"][0], st["bd"][1]
    n = len(lits)
    out = "7 %d %d %d %d %d |" % (f[lo], f[hi], f[st["min"]], f[st["max"]], st["as"])
    out += "".join("%d%d" % (a, b) for a, b in zip(st["pl"], st["pu"])) + " |"
    for i in range(n):
        out += " %d%d" % (lits[i] != 0, lits[i]) if st["min"] <= i < st["max"] else " ."
    out += " |"

    def opt(x):
        return " %d@%d" % (x[1], f[x[0]]) if x else " -"

    def at(i):
        return opt(st["lt"][i + 1]) + opt(st["le"][i + 1]) + opt(st["gt"][i + 1]) + opt(st["ge"][i + 1]) + ";"

    out += at(-1)
    for i in range(n + 1):
        out += at(i)
        if i < n and f[i] + 1 < f[i + 1]:
            x = opt(st["le"][i + 1]) * 2 + opt(st["ge"][i + 2]) * 2 + ";"
            out += x + x
    out += at(n + 1) + " |"
    out += "".join(" %d@%d" % (k, f[v]) for v, k in st["all"])
    out += "".join(" %d<%d" % (k, f[v]) for v, k in reversed(st["all"]))
    return out + "".join(" %d>%d" % (k, f[v]) for v, k in st["all"])


def replay(c, driver, module, cfg, heads, answer, limit):
    """Replay walks through the state graph of a model into the driver."""
    states, edges, d, g = graph.load(module, cfg)
    c.cov["states"] += d
    c.cov["transitions"] += g
    c.cov.setdefault("models", {})[cfg] = d
    for e in edges:
        e["_d"] = json.loads(e["d"])
    for s in states.values():
        s["_s"] = json.loads(s["s"])
    init = edges[0]["s"]
    for hd, f in heads:
        rng = random.Random("%s/%d/%s" % (cfg, c.seed, hd))
        ws, covered = graph.walks(edges, init, rng, limit=limit)
        inp, want, steps = [], [], []
        cache = {}
        for w in ws:
            inp.append(hd)
            want.append("#")
            steps.append((w, 0))
            for k, e in enumerate(w):
                inp.append(" ".join(str(x) for x in e["o"]))
                if module == "UniqueVector":
                    want.append(vec_answer(e, states[e["d"]]))
                else:
                    if e["d"] not in cache:
                        cache[e["d"]] = answer(states[e["d"]], f)
                    want.append(cache[e["d"]])
                steps.append((w, k))
            inp.append("end")
        p = subprocess.run([driver], input="\n".join(inp) + "\n", text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        got = p.stdout.split("\n")
        c.count("walks", len(ws))
        c.count("transitions_replayed", covered)
        c.count("steps_replayed", len(steps))
        c.count("traces_validated_against_impl", len(ws))
        for i, x in enumerate(want):
            y = got[i] if i < len(got) else "(driver ended: %s)" % p.stderr[-600:]
            if x.strip() != y.strip():
                w, k = steps[i]
                c.violation("%s: %s answers differently than the specification" % (module, w[k]["o"]),
                            {"input": [hd] + [" ".join(str(z) for z in e["o"]) for e in w[: k + 1]] + ["end"],
                             "expected": x, "observed": y})
                return False
        c.sample({"model": cfg, "embedding": hd, "walk": [e["o"] for e in ws[0][:6]], "answer": want[6]}, 5)
    return True


def run(c):
    q = c.quick
    driver = c.build("types_driver")
    c.assumptions.append("values are replayed through order preserving embeddings of the specification's places; "
                         "operations respect the documented preconditions (levels ascend, literals inside the bounds)")

    def heads(kind, fs, n):
        return [(kind(k, f[: n + 1]), f[: n + 1]) for k, f in fs]

    sets = "IntervalSet" if q else "IntervalSet_big"
    n = 4 if q else 5
    hd = [("%s %d %s" % (k, n + 1, " ".join(map(str, f[: n + 1]))), f[: n + 1]) for k, f in SETS]
    ok = replay(c, driver, "IntervalSet", sets, hd, set_answer, None)
    ok = ok and replay(c, driver, "UniqueVector", "UniqueVector", [("uvec 4", None)], None, None)
    hd = [("var 6 1 " + " ".join(map(str, f)), f) for f in VARS]
    ok = ok and replay(c, driver, "VarState", "VarState_lit", hd, var_answer, None)
    hd = []
    for f in VARS:
        idx = [0] + sorted(c.rng.sample(range(1, 5), 2)) + [5]
        g = [f[i] for i in idx]
        hd.append(("var 4 2 " + " ".join(map(str, g)), g))
    ok = ok and replay(c, driver, "VarState", "VarState_all", hd, var_answer, 25000 if q else None)

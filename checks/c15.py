"""C15: options are parsed exactly and applied to the right place."""
import json
import subprocess

from common import *
from vf import tlc as T

FLAGS = ["shift-constraints", "sort-constraints", "literals-only", "add-order-clauses", "check-solution", "check-state"]
THRFLAGS = ["refine-reasons", "refine-introduce", "propagate-chain", "split-all"]
KEYS = FLAGS + THRFLAGS * 2 + ["sign-value", "order-heuristic"] * 3 + [
    "translate-clauses", "translate-distinct", "translate-opt", "translate-pb", "min-int", "max-int"] * 2
EDGES = [0, 1, 7, 2**30 - 1, 2**30, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 10**30]
JUNK = ["", "x", "n", "y", "t", "f", "ye", "noo", "nope", "yes ", " no", "YES", "tru", "truex", "2", "-1", "00", "1a", "a1", "1 ", " 1", "1.5", "1e3",
        "--1", "-", "+", "m", "mi", "ma", "minn", "maxi", "max-", "max", "non", "nonee", "max-chai", "max-chainx", "yes;1", "5;3"]
THREADS_OK = ["0", "1", "2", "3", "5", "62", "63", "07"]
THREADS_BAD = ["64", "65", "127", "-1", "4294967296", "99999999999999999999", "", "x", "1x", " 1", "1 ", "1,1", "2.0", "1e0"]


def number(rng, unsigned):
    r = rng.random()
    if r < 0.4:
        n = rng.choice([0, 1, 2, 10, 17, 99, 100, 1000, 4711])
    elif r < 0.9:
        n = rng.choice(EDGES) + rng.choice([0, 0, -1, 1])
    else:
        n = rng.getrandbits(rng.choice([8, 16, 30, 31, 32, 33, 63, 64, 65]))
    n = abs(n)
    s = ("0" * rng.choice([0] * 9 + [1, 3])) + str(n)
    if n and rng.random() < (0.1 if unsigned else 0.4):
        s = "-" + s
    return s


def value(rng, key):
    """A value for the key; whether it is valid is left to the specification."""
    junk = rng.random() < 0.15
    if junk:
        v = rng.choice(JUNK)
    elif key in FLAGS + THRFLAGS:
        v = rng.choice(["yes", "no", "true", "false", "1", "0"])
    elif key == "order-heuristic":
        v = rng.choice(["none", "max-chain", "max-chain"])
    elif key == "sign-value":
        v = rng.choice(["+", "-", "min", "max", number(rng, False), number(rng, False)])
    elif key == "translate-pb":
        v = rng.choice(["", "", "", "-"]) + str(rng.choice([0, 1, 2, 12, 500])) + rng.choice(["", ".5", ".25", ".0", ".001", ".125000"])
        v = "0" if v.startswith("-0") else v
    elif key in ("min-int", "max-int"):
        v = rng.choice(["min", "max"]) if rng.random() < 0.1 else number(rng, False)
    else:
        v = "max" if rng.random() < 0.1 else number(rng, True)
    if key in THRFLAGS + ["sign-value", "order-heuristic"] and rng.random() < 0.65:
        v += "," + rng.choice(THREADS_OK if rng.random() < 0.8 else THREADS_BAD)
    if key == "translate-clauses" and rng.random() < 0.5:
        v += "," + (number(rng, True) if rng.random() < 0.8 else rng.choice(JUNK))
    # not documented: clingcon may do either
    if key == "translate-pb" and v in ("max", "min", "+", "-", "1e3", "1.5", "00"):
        v = "1.5"
    return v


def low(rng, key):
    """Mostly valid values, for command lines."""
    for _ in range(20):
        v = value(rng, key)
        if v not in JUNK and not any(v.endswith("," + t) for t in THREADS_BAD) and len(v) < 14:
            return v
    return "1"


def session(rng, cli):
    ops, ev = [], []
    if cli:
        args, seen = [], set()
        for _ in range(rng.randint(1, 7)):
            key = rng.choice(KEYS)
            v = low(rng, key) if rng.random() < 0.95 else value(rng, key)
            # clasp reads flags itself; each setting is given at most once
            target = (key, v.split(",", 1)[1].lstrip("0") if key not in FLAGS and key != "translate-clauses" and "," in v else None)
            if target in seen:
                continue
            seen.add(target)
            if key in FLAGS:
                on = rng.random() < 0.5
                v = "yes" if on else "no"
                ops.append(["A", "--" + ("" if on else "no-") + key])
            else:
                if v == "":
                    continue
                ops.append(["A", "--%s=%s" % (key, v)])
            args.append({"k": key, "v": list(v)})
        if not args:
            return session(rng, cli)
        ev.append({"e": "cli", "args": args})
    else:
        for _ in range(rng.randint(1, 9)):
            r = rng.random()
            if r < 0.06:
                ops.append(["K"])
                ev.append({"e": "validate"})
            elif r < 0.09:
                ops.append(["C", "no-such-option", "1"])
                ev.append({"e": "other"})
            elif r < 0.14:
                ops.append(["H"])
                ev.append({"e": "shift"})
            else:
                key = rng.choice(KEYS)
                v = value(rng, key)
                ops.append(["C", key, v])
                ev.append({"e": "conf", "k": key, "v": list(v)})
    if rng.random() < 0.5:
        ops.append(["H"])
        ev.append({"e": "shift"})
    if rng.random() < 0.35 and not any(o[1] in ("min-int", "max-int") or o[1].startswith(("--min", "--max")) for o in ops if len(o) > 1):
        n = rng.choice([1, 2, 3, 4, 7] if rng.random() < 0.9 else [64])
        ops.append(["R", str(n)])
        ev.append({"e": "solve", "n": n})
    return ops, ev


def chars(x):
    if isinstance(x, dict):
        return {k: chars(v) for k, v in x.items()}
    if isinstance(x, list):
        return [chars(v) for v in x]
    return list(x)


def merge(ev, got, blind):
    """Combine the given settings with what was observed; None if the session did
    not run to its end."""
    res = []
    got = list(got)
    if not got or got[0]["e"] != "init":
        return None
    init = got.pop(0)
    for e in ev:
        if not got:
            return None
        g = got.pop(0)
        if g["e"] == "conf" and e["e"] == "other":
            g["e"] = "other"
        if g["e"] != e["e"]:
            return None
        e = dict(e)
        for k in ("ok", "text", "decide", "sat"):
            if k in g:
                e[k] = g[k]
        for k in ("glob", "def", "thr", "solvers"):
            if k in g:
                e[k] = chars(g[k])
        res.append(e)
        if e["e"] == "cli" and e["ok"] == "0":
            got = [{"e": "end"}]
            break
    if [g["e"] for g in got] != ["end"]:
        return None
    return {"ev": res, "init": {k: chars(init[k]) for k in ("glob", "def", "thr") if k in init}}


def run_sessions(c, driver, sess):
    text = "".join("S\t%d\n%s\nE\n" % (i, "\n".join("\t".join(o) for o in ops)) for i, (ops, _) in enumerate(sess))
    parts = [[] for _ in sess]
    with cf.ThreadPoolExecutor(8) as ex:
        def one(k):
            t = "".join("S\t%d\n%s\nE\n" % (i, "\n".join("\t".join(o) for o in sess[i][0])) for i in range(k, len(sess), 8))
            return subprocess.run([driver], input=t, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=600).stdout
        for out in ex.map(one, range(8)):
            for line in out.splitlines():
                try:
                    r = json.loads(line)
                    parts[int(r.pop("s"))].append(r)
                except ValueError:
                    pass
    return parts


# In the absence of a view on the configuration only results are compared.
BLIND = {"glob": {}, "def": {}, "thr": []}


def judge(c, driver, sess, blind, tag, init):
    parts = run_sessions(c, driver, sess)
    traces, bad = [], []
    for i, (ops, ev) in enumerate(sess):
        m = merge(ev, parts[i], blind)
        if m is None:
            bad.append(i)
            continue
        m["id"] = str(i)
        if blind:
            m["init"] = init
        traces.append(m)
    jobs = 8 if len(traces) > 40 else 1
    acc = set()
    with cf.ThreadPoolExecutor(jobs) as ex:
        for a, d, g, out in ex.map(lambda k: T.validate("ConfigTrace", traces[k::jobs], c.work, "%s%d" % (tag, k), 1, 800), range(jobs)):
            acc |= a
            c.cov["states"] += d
            c.cov["transitions"] += g
    return [t for t in traces if t["id"] not in acc], bad, parts, traces


DEFAULT = {"glob": {k: "0" for k in FLAGS[1:]}, "def": {k: "0" for k in THRFLAGS + ["sign-value", "order-heuristic"]}, "thr": []}
DEFAULT["glob"].update({"translate-clauses": "0", "total": "0", "translate-distinct": "0", "translate-opt": "0", "translate-pb": "0",
                        "min-int": "-1073741823", "max-int": "1073741823"})


def sane(init):
    """Whether what was read looks like a configuration at all."""
    try:
        return (all(init["glob"][k] in "01" for k in FLAGS[1:]) and all(init["def"][k] in "01" for k in THRFLAGS)
                and -2**30 < int(init["glob"]["min-int"]) <= int(init["glob"]["max-int"]) < 2**30 and len(init["thr"]) <= 64)
    except (KeyError, ValueError):
        return False


def run(c):
    c.assumptions += [
        "clasp parses the command line, and flags, correctly",
        "not judged: values the documentation leaves open (a leading plus sign, abbreviations of clasp, settings given twice on a command line)",
    ]
    driver = c.build("conf_driver", optional=True)
    blind = driver is None
    if not blind:
        p = run_sessions(c, driver, [([], [])])[0]
        blind = not p or p[0]["e"] != "init" or not sane(p[0])
    if blind:
        c.assumptions.append("the configuration cannot be read in this tree: only results of calls are compared")
        driver = c.build("blind_driver")
    init = chars(DEFAULT)
    c.model_check("MCConfig")
    rounds, n, budget = (2, 700, 50) if c.quick else (30, 1500, 700)
    for b in range(rounds):
        if b and c.left(budget) < 0:
            break
        rng = random.Random("C15/%d/%d" % (c.seed, b))
        sess = [session(rng, i % 3 == 2) for i in range(n)]
        rej, bad, parts, traces = judge(c, driver, sess, blind, "c", init)
        c.count("traces_validated_against_impl", len(traces))
        for t in traces:
            for e in t["ev"]:
                c.count(e["e"] + ("_ok" if e.get("ok") == "1" else "_rejected" if "ok" in e else ""))
        c.sample({"operations": sess[0][0]})
        c.sample({"operations": sess[2][0]})
        for i in ([int(t["id"]) for t in rej] + bad)[:6]:
            r2, b2, p2, _ = judge(c, driver, [sess[i]], blind, "r", init)
            if r2 or b2:
                c.violation("option settings: " + ("session did not complete" if b2 else "result or configuration differs from the specification"),
                            {"operations": sess[i][0], "expected_shape": sess[i][1], "observed": p2[0]})
        if c.violations:
            break

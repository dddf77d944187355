"""C18: the command-line application reports what the solver found."""
import os
import re
import subprocess

from common import *
from vf import session as S
from vf import tlc as T

ALL = {"sum": 5, "diff": 1, "nsum": 1, "distinct": 1, "disjoint": 1, "dom": 2}
PROFILES = [
    {"kinds": ALL, "show": 0.5, "natoms": (0, 4)},
    {"kinds": ALL, "obj": 0.6, "show": 0.3},
    {"kinds": {"sum": 3, "dom": 2}, "natoms": (1, 4), "show": 0.3, "ext": 0.2, "tables": 0.3},
    {"kinds": {"sum": 3, "dom": 1}, "obj": 0.9, "nvars": (2, 4), "lo": (-6, 0), "hi": (0, 6)},
    {"kinds": {"sum": 2, "dom": 2}, "obj": 0.9, "coef": 1, "terms": (1, 2), "nvars": (1, 2), "natoms": (0, 1), "lo": (-12, -8), "hi": (8, 12)},
]
SCALES = [1000, 1000, 10 ** 7, 10 ** 8, 2 * 10 ** 8]
OUTSIDE = re.compile(r"\*\*\* ERROR: \(clingcon\): (?:\[\d+\]: )?(bound value out of range|value too (?:small|large)|integer (?:over|under)flow|safe cast failed)\n*$")
FLAGS = ["shift-constraints", "sort-constraints", "literals-only", "add-order-clauses", "check-solution", "check-state"]


def command(opts):
    """The settings as they are given on the command line (each one once)."""
    out = {}
    for k, v in opts:
        if k in FLAGS:
            out[k] = "--" + ("" if v in ("yes", "true", "1") else "no-") + k
        elif "," in v and k != "translate-clauses":
            out[k, v.split(",")[1]] = "--%s=%s" % (k, v)
        else:
            out[k] = "--%s=%s" % (k, v)
    return list(out.values())


def predicate(name):
    neg = "-" if name.startswith("-") else ""
    n = name.lstrip("-")
    return neg + (n + "/0" if "(" not in n else "%s/%d" % (n[: n.index("(")], n.count(",") + 1))


def prepare(rng, case, big=False):
    """What is run: program text in one or two files, visible atoms, number of
    solutions, arguments."""
    step = case["steps"][0]
    text = step["text"]
    vis = list(range(1, case["na"] + 1))
    scale = rng.choice([2, 3]) * 10 ** 8 if step["obj"] and big else rng.choice(SCALES) if step["obj"] and rng.random() < 0.4 else 1
    if scale > 1:
        text = re.sub(r"(&(?:minimize|maximize) \{ )([^}]*)( \}\.)", lambda m: m.group(1) + "; ".join(
            "%d*(%s" % (scale, x.replace(" : ", ") : ", 1) if " : " in x else x + ")") for x in m.group(2).split("; ")) + m.group(3), text)
    if rng.random() < 0.3:
        preds = sorted({predicate(a) for a in case["atoms"]} | {"t1/1"})
        keep = [p for p in preds if rng.random() < 0.5]
        text += " " + " ".join("#show %s." % p for p in keep) if keep else " #show."
        vis = [i for i in vis if predicate(case["atoms"][i - 1]) in keep]
    n = rng.choice([-1, -1, 0, 0, 0, 1, 2, 3])
    o, a = gen.options(rng)
    o, a = gen.sane((o, a))
    if scale > 1:  # clasp only supports small weights
        o = [(k, v) for k, v in o if not k.startswith("translate-opt")] + [("translate-opt", "0")]
    args = ([] if case["wide"] else ["--min-int=%d" % case["lo"], "--max-int=%d" % case["hi"]]) + command(o) + a
    if n >= 0:
        args.append(str(n) if rng.random() < 0.5 else "--models=%d" % n)
    if rng.random() < 0.15:
        args.append(rng.choice(["--stats", "--stats=2", "--verbose=1"]))
    rng.shuffle(args)
    # statements end with a dot and a space
    stms = re.split(r"(?<=[^.]\.) ", text)
    cut = rng.randrange(len(stms) + 1) if rng.random() < 0.3 else None
    files = [text] if cut is None else ["\n".join(stms[:cut]) + "\n", "\n".join(stms[cut:]) + "\n"]
    return {"files": files, "vis": vis, "n": n, "args": args, "scale": scale, "stdin": rng.random() < 0.2}


def assignment(line, names):
    out, pos = [], 0
    while pos < len(line):
        for i, x in names:
            m = re.compile(r"=(-?\d+)( |$)").match(line, pos + len(x)) if line.startswith(x, pos) else None
            if m:
                out.append([i, S.num(m.group(1))])
                pos = m.end()
                break
        else:
            return None
    return out if not line.endswith(" ") else None


def unscale(text, run):
    """The printed cost in units of the scale, and whether it is a multiple."""
    q, r = divmod(int(text), run["scale"])
    return [S.num(str(q))] if r == 0 and str(int(text)) == text else [0, "malformed"]


def parse(case, run, out, code, err=""):
    """Events for the output of the application (None if it is malformed)."""
    names = sorted(((i + 1, x) for i, x in enumerate(case["vars"])), key=lambda t: -len(t[1]))
    ev, lines, i = [], out.split("\n"), 0
    count = None
    sat = None
    while i < len(lines):
        x = lines[i]
        if x.startswith("Answer:"):
            if lines[i + 2:i + 3] != ["Assignment:"] or len(lines) <= i + 3:
                return None
            atoms = []
            for a in lines[i + 1].split():
                if a in case["atoms"]:
                    atoms.append(case["atoms"].index(a) + 1)
                elif not re.fullmatch(r"t\d+\(.*\)", a):
                    return None
            sh = assignment(lines[i + 3], names)
            if sh is None:
                return None
            i += 4
            cost = []
            if i < len(lines) and lines[i].startswith("Cost: "):
                cost = unscale(lines[i][6:], run)
                i += 1
            # translated objectives are reported by clasp
            while i < len(lines) and not re.match(r"Answer:|SATISFIABLE|UNSATISFIABLE|OPTIMUM FOUND|UNKNOWN|$", lines[i]):
                if lines[i].startswith("Optimization: "):
                    cost = cost or unscale(lines[i][14:], run)
                i += 1
            ev.append({"e": "answer", "a": atoms, "sh": sh, "cost": cost, "vis": run["vis"]})
            continue
        if x in ("SATISFIABLE", "OPTIMUM FOUND"):
            sat = "sat"
        elif x == "UNSATISFIABLE":
            sat = "unsat"
        m = re.match(r"Models +: (\d+)(\+?)", x)
        if m and count is None:  # statistics follow
            count = (int(m.group(1)), m.group(2) == "")
        i += 1
    if run["scale"] > 10 ** 6 and OUTSIDE.search(err) and code & 64:
        return ev + [{"e": "outside"}]
    if count is None or sat is None or code not in (10, 20, 30) or (code == 20) != (sat == "unsat"):
        return None
    if not case["steps"][0]["obj"]:
        groups = {}
        for e in ev:
            groups.setdefault(repr((sorted(e["a"]), sorted(e["sh"]), e["cost"])), []).append(e)
        ev = [{"e": "answers", "vis": run["vis"], "g": [dict(es[0], n=len(es)) for es in groups.values()]}]
    ev.append({"e": "end", "ex": code in (20, 30), "sat": sat, "models": count[0], "n": run["n"]})
    return ev


def execute(app, case, run, work, tag):
    d = os.path.join(work, "files")
    os.makedirs(d, exist_ok=True)
    names = []
    for k, t in enumerate(run["files"]):
        f = os.path.join(d, "%s_%d.lp" % (tag, k))
        with open(f, "w") as h:
            h.write(t)
        names.append(f)
    args, inp = list(run["args"]) + names, ""
    if run["stdin"]:
        inp = run["files"][-1]
        args = list(run["args"]) + names[:-1] + ["-"]
    try:
        p = subprocess.run([app] + args, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=30, cwd=d)
        res = (p.stdout, p.returncode, p.stderr)
    except subprocess.TimeoutExpired:
        res = None
    for f in names:
        os.unlink(f)
    return res


def trace(case, run, res, tid):
    ev = parse(case, run, *res)
    s = case["steps"][0]
    add = {"e": "add", "sig": [S.sig(case["vars"][v - 1]) for v in s["newv"]], "rules": s["rules"],
           "cons": [S.clean(c) for c in case["_cons"][s["_c0"]:s["_c1"]]],
           "obj": s["obj"], "exts": s["exts"], "facts": s["facts"], "show": s["show"]}
    evs = [add, {"e": "begin"}] + (ev if ev is not None else [{"e": "malformed"}])
    t = S.trace(case, evs, tid)
    return t


def validate(c, traces, tag):
    jobs = max(1, min(8, len(traces) // 6))
    acc = set()
    with cf.ThreadPoolExecutor(jobs) as ex:
        for a, d, g, out in ex.map(lambda k: T.validate("AppTrace", traces[k::jobs], c.work, "%s%d" % (tag, k), 1, 800), range(jobs)):
            acc |= a
            c.cov["states"] += d
            c.cov["transitions"] += g
    return acc


def run(c, target="app", budget=None):
    c.assumptions += ASSUME + ["clasp's text output (numbering of answers, verdict, number of models) is as documented"]
    app = c.build(target)
    batches, n, budget = (60, 40, budget or 60) if c.quick else (600, 120, 600)
    for b in range(batches):
        if b and c.left(budget) < 0:
            break
        rng = random.Random("%s/%d/%d" % (c.prop, c.seed, b))
        g = gen.Gen(rng, **PROFILES[b % len(PROFILES)])
        items = []
        for _ in range(n):
            case = g.case()
            for _ in range(3):
                items.append((case, prepare(rng, case, b % len(PROFILES) == 4)))
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda k: execute(app, items[k][0], items[k][1], c.work, str(k)), range(len(items))))
        traces = []
        for k, x in enumerate(res):
            if x is None:
                c.count("undecided_timeout")
                continue
            t = trace(items[k][0], items[k][1], x, str(k))
            traces.append(t)
            for e in t["ev"]:
                c.count("events_" + e["e"])
                if e["e"] == "answer" and items[k][1]["scale"] > 1:
                    c.count("answers_with_scaled_objective")
                    if e["cost"] and abs(e["cost"][0]) * items[k][1]["scale"] >= 2 ** 31:
                        c.count("answers_with_costs_of_more_than_32_bits")
        c.count("traces_validated_against_impl", len(traces))
        c.count("runs", len(items))
        acc = validate(c, traces, "t")
        c.sample({"program": items[0][1]["files"], "arguments": items[0][1]["args"], "output": (res[0] or [""])[0][:400]})
        for t in traces:
            if t["id"] in acc:
                continue
            case, r = items[int(t["id"])]
            again = []
            multi = any(a.startswith("-t") for a in r["args"])
            for k in range(40 if multi else 2):
                x = execute(app, case, r, c.work, "r%d" % k)
                if x is not None:
                    again.append((trace(case, r, x, "r%d" % k), x))
            ok = validate(c, [a for a, _ in again], "r") if again else set()
            for a, x in again:
                if a["id"] not in ok:
                    c.violation("the output of the application does not fit the solutions of the program",
                                {"files": r["files"], "arguments": r["args"], "exit_code": x[1], "output": x[0], "error": x[2], "events": a["ev"]})
                    break
            if len(c.violations) >= 3:
                break
        if c.violations:
            break

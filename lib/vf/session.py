"""Running cases through the session driver and turning the recorded events into
traces for spec/SessionTrace.tla."""

import json
import os
import subprocess
import concurrent.futures as cf

MISSING = 77777  # recorded for a variable without a value
ODD = 77778      # recorded for unexpected symbols
LIM = 2**31 - 1
WIDE = 2**30 - 1


def esc(s):
    return "".join(c if c not in "%\t\n" else "%%%02x" % ord(c) for c in s)


UNKNOWN = ["nope", "f(77)", "g(1,2,3)", "42", "\"zz\"", "(7,7)", "-nope", "#inf"]


def script(case, cfg, sid):
    """Script of the session driver for a case under a configuration.  Variables
    are looked up after each solve call if the case asks for that."""
    opts, args = cfg[0], cfg[1]
    lines = []
    if not case["wide"]:
        lines += [["O", "min-int", str(case["lo"])], ["O", "max-int", str(case["hi"])]]
    lines += [["O", k, esc(v)] for k, v in opts]
    lines += [["A", esc(a)] for a in (["0"] + list(args))]
    lines.append(["I"])
    calls = 0
    for s in case["steps"]:
        if s["op"] == "add":
            # settings may change between calls, before or after adding a part
            lines += [[o, k, esc(v)] for c, o, k, v in (cfg[2] if len(cfg) > 2 else []) if c == calls and c % 2 == 0]
            lines.append(["P", esc(s["text"])])
            lines.append(["G", s["part"]])
        elif s["op"] == "ext":
            lines.append(["X", case["atoms"][s["i"] - 1], {"false": "0", "true": "1", "free": "2", "none": "3"}[s["v"]]])
        else:
            lines += [[o, k, esc(v)] for c, o, k, v in (cfg[2] if len(cfg) > 2 else []) if c == calls]
            calls += 1
            if "lim" in s:
                lines.append(["M", str(s["lim"])])
            if any("stop" in x for x in case["steps"]):
                # the search is interrupted after a number of conflicts
                lines.append(["K", "solve.solve_limit", "%s,umax" % s.get("stop", "umax")])
            lines.append(["V", ",".join(("" if t else "!") + case["atoms"][i - 1] for i, t in s["as"]), s.get("mode", "")])
            if case.get("stats"):
                lines.append(["Z"])
            if case.get("lookup"):
                lines += [["L", esc(x)] for x in case["vars"] + UNKNOWN]
    return "S\t%s\n%s\nE\n" % (sid, "\n".join("\t".join(l) for l in lines))


def run_scripts(driver, scripts, workdir, limit=20, jobs=8, tag="s", env=None):
    """Run scripts (list of (sid, text)); returns {sid: [events]}."""
    jobs = max(1, min(jobs, len(scripts)))
    chunks = [scripts[i::jobs] for i in range(jobs)]

    def work(k):
        inp = os.path.join(workdir, "%s_%d.in" % (tag, k))
        out = os.path.join(workdir, "%s_%d.out" % (tag, k))
        if os.path.exists(out):
            os.unlink(out)
        with open(inp, "w") as h:
            h.writelines(t for _, t in chunks[k])
        e = dict(os.environ)
        e.update(env or {})
        subprocess.run([driver, inp, out, str(limit)], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e)
        res = {}
        with open(out, errors="replace") as h:
            for line in h:
                try:
                    ev = json.loads(line)
                except ValueError:
                    continue
                res.setdefault(ev["s"], []).append(ev)
        os.unlink(inp)
        os.unlink(out)
        return res

    result = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(work, range(jobs)):
            result.update(r)
    return result


def num(s):
    try:
        v = int(s)
    except ValueError:
        return ODD
    return v if -LIM <= v <= LIM else ODD


def model(case, n, m):
    """A recorded model as an event of the specification."""
    mask = 0
    odd = False
    for a in m["atoms"]:
        if a in case["atoms"]:
            mask |= 1 << case["atoms"].index(a)
        elif not (a.startswith("t") and a[1:2].isdigit()):
            odd = True
    vals = [MISSING] * n
    index = [MISSING] * n
    for name, v, idx in m["api"]:
        if name in case["vars"] and case["vars"].index(name) < n and vals[case["vars"].index(name)] == MISSING:
            vals[case["vars"].index(name)] = v
            index[case["vars"].index(name)] = idx
        else:
            odd = True
    sh = []
    for name, v in m["csp"]:
        if name in case["vars"]:
            sh.append([case["vars"].index(name) + 1, v])
        else:
            odd = True
    cost = []
    if m["cost"]:
        cost = [num(m["cost"][0])]
    elif m["opt"]:
        cost = [num(m["opt"][0])]
    if odd:
        mask = ODD
    return {"m": [mask] + vals, "sh": sh, "cost": cost, "ix": index if case.get("lookup") else []}


def lookups(case, evs):
    """The results of the lookups after each solve call: [variable, found, index]
    with variable 0 for names that are not used in the case."""
    out = []
    for e in evs:
        if e["e"] == "solve":
            out.append([])
        elif e["e"] == "lookup" and out:
            i = case["vars"].index(e["sym"]) + 1 if e["sym"] in case["vars"] else 0
            idx = e["idx"] if e["found"] else 0
            out[-1].append([i, e["found"], idx if not e["found"] or e["back"] == e["sym"] else -1])
    return out


def statistics(e, solve):
    """A stats event: values by name (without times), and what was observed at
    the interface to the solver."""
    def clean(ps):
        return [[k, num(v)] for k, v in ps if "ime in seconds" not in k and k != "Cost"]

    def cost(ps):
        return [num(v) for k, v in ps if k == "Cost"]

    at = []
    if "at" in e:
        a = e["at"]
        at = [{"clauses": a["clauses"], "literals": a["literals"], "weights": a["weights"], "cons": a["cons"],
               "threads": [["Thread/%d/Literals introduced" % i, n] for i, n in enumerate(a["intro"])]}]
    return {"e": "stats", "step": clean(e["step"]), "accu": clean(e["accu"]), "scost": cost(e["step"]), "acost": cost(e["accu"]), "at": at,
            "own": any(m["cost"] for m in solve["models"])}


def observe(case, evs, stepwise):
    """Events of the specification for the recorded events of a run."""
    out = []
    solves = [e for e in evs if e["e"] == "solve"]
    looked = lookups(case, evs)
    stats = [e for e in evs if e["e"] == "stats"]
    bad = [e for e in evs if e["e"] in ("error", "crash", "timeout")]
    k = 0
    n = 0
    for s in case["steps"]:
        if s["op"] == "add":
            n += len(s["newv"])
            out.append({"e": "add", "sig": [sig(case["vars"][v - 1]) for v in s["newv"]],
                        "rules": [{k: v for k, v in r.items() if k != "hd"} for r in s["rules"]], "cons": [clean(c) for c in case["_cons"][s["_c0"]:s["_c1"]]],
                        "obj": s["obj"], "exts": s["exts"], "facts": s["facts"], "show": s["show"]})
        elif s["op"] == "ext":
            out.append({"e": "ext", "i": s["i"], "v": s["v"]})
        else:
            if k >= len(solves):
                break
            e = solves[k]
            k += 1
            if e["overflow"]:
                out.append({"e": "overflow"})
                break
            ms = [model(case, n, m) for m in e["models"]]
            ex = e["exhausted"]
            sat = e["sat"]
            lim = s.get("lim", 0)
            if s["hasobj"] or stepwise or lim or "stop" in s:
                out.append({"e": "begin", "as": s["as"]})
                for m in ms:
                    m["e"] = "model"
                    out.append(m)
                out.append({"e": "end", "ex": ex, "sat": sat, "lim": lim, "stop": "stop" in s})
            else:
                ms.sort(key=lambda x: (x["m"], x["cost"]))
                for m in ms:
                    m["sh"].sort()
                out.append({"e": "solve", "as": s["as"], "ms": ms, "ex": ex, "sat": sat})
            if case.get("stats") and k <= len(stats):
                out.append(statistics(stats[k - 1], e))
            if case.get("lookup") and k <= len(looked):
                out.append({"e": "lookup", "q": looked[k - 1]})
    for e in bad:
        out.append({"e": e["e"], "msg": e.get("msg", ""), "op": e.get("op", "")})
    if not bad and (k < len(solves) or not any(e["e"] == "end" for e in evs)):
        out.append({"e": "incomplete"})
    return out


def sig(name):
    from .gen import signature
    return signature(name) or "-"


def clean(c):
    c = {k: v for k, v in c.items() if k != "syn"}
    return dict({"g": [], "schema": False}, **c)


def trace(case, ev, tid):
    return {"id": tid, "na": case["na"], "lo": -WIDE if case["wide"] else case["lo"],
            "hi": WIDE if case["wide"] else case["hi"], "ev": ev}

"""Recorded propagation as traces for spec/PropTrace.tla."""

from . import session as S

BIG = 2**30 - 1


def events(evs, strong=False):
    """The recorded events of the propagator in order; the bounds of an event
    with a crash or an error end the trace."""
    out = []
    for e in evs:
        if e["e"] == "spy":
            d = {k: v for k, v in e.items() if k not in ("s", "n", "e")}
            if strong or d["k"] != "str":
                out.append(d)
        elif e["e"] in ("crash", "error"):
            out.append({"k": e["e"], "th": 1})
    return out


def small(ev):
    """Whether sums can be evaluated within the integers of TLC."""
    m = 0
    for e in ev:
        for b in e.get("bs", []) + ([e["b"]] if "b" in e else []) + ([e["t"]] if "t" in e else []):
            for lo, hi in b:
                m = max(m, abs(lo), abs(hi))
    s = 1
    for e in ev:
        for c in e.get("cons", []):
            if c["k"] in ("sum", "min"):
                s = max(s, sum(abs(x) for x, _ in c["e"]))
            elif c["k"] == "nl":
                s = max(s, abs(c["a"]) * max(m, 1) + abs(c["b"]))
            elif c["k"] == "distinct":
                s = max([s] + [sum(abs(x) for x, _ in t["t"]) for t in c["e"]])
    return m * s < 2**30


def record(driver, items, workdir, limit=20, env=None, jobs=8, tag="p", strong=False):
    """items: list of (id, case, config); returns {id: events}."""
    scripts = [(i, S.script(case, cfg, i)) for i, case, cfg in items]
    res = S.run_scripts(driver, scripts, workdir, limit, jobs=jobs, tag=tag, env=env)
    return {i: events(r, strong) for i, r in res.items() if not any(e["e"] == "timeout" for e in r)}

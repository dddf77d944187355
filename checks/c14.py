"""C14: variables, their values, and those shown are reported completely."""
from common import *

ALL = {"sum": 4, "diff": 1, "nsum": 1, "distinct": 3, "disjoint": 1, "dom": 1}
PROFILES = [
    {"kinds": ALL, "show": 0.6},
    {"kinds": ALL, "show": 0.4, "parts": (2, 3), "nvars": (2, 4), "resolve": 0.4},
    {"kinds": {"distinct": 4, "sum": 2}, "show": 0.5, "parts": (2, 4), "nvars": (3, 4), "maxcand": 600, "lo": (-2, 0), "hi": (0, 3)},
    {"kinds": ALL, "show": 0.5, "parts": (1, 3), "obj": 0.5, "ext": 0.3, "limit": 0.3, "resolve": 0.4, "modes": 0.5},
]


def configs(rng, case):
    case["lookup"] = True
    out = [([], []), (gen.NOTRANS, [])]
    for _ in range(2):
        o, a = gen.options(rng)
        if rng.random() < 0.7:
            o.append(("translate-distinct", "max"))
        out.append((o, a))
    return out


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    sweep(c, PROFILES, configs, 120 if q else 250, 8 if q else 200, 100 if q else 600, stepwise=lambda case: "lim" in str(case["steps"]))

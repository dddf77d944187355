"""C08: optimization reports improving solutions and proves the optimum."""
from common import *

ALL = {"sum": 5, "diff": 1, "nsum": 1, "distinct": 1, "disjoint": 1, "dom": 2}
PROFILES = [
    {"kinds": ALL, "objforce": True, "obj": 0.5},
    {"kinds": {"sum": 3, "dom": 1}, "objforce": True, "obj": 0.7, "nvars": (2, 4), "lo": (-6, 0), "hi": (0, 6), "coef": 5},
    {"kinds": {"sum": 3, "dom": 1}, "objforce": True, "obj": 0.6, "parts": (1, 4), "ext": 0.2, "assume": 0.3, "resolve": 0.4,
     "modes": 0.3},
    {"kinds": ALL, "objforce": True, "obj": 0.6, "parts": (1, 3), "limit": 0.4, "resolve": 0.6, "tables": 0.4},
]


def configs(rng, case):
    r = [([], []), (gen.NOTRANS, []), ([("translate-opt", "max")], [])]
    r += [gen.options(rng) for _ in range(2)]
    for t in (2, 8):
        o, a = gen.options(rng, threads=False)
        r.append((o, ["-t%d%s" % (t, rng.choice(["", ",split"]))] + [x for x in a if not x.startswith("--configuration")]))
    return r


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    c.model_check("MCSession")
    sweep(c, PROFILES, configs, 90 if q else 200, 10 if q else 200, 110 if q else 600)

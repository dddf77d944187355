"""C07: search options, heuristics and threads never change the solutions."""
from common import *

ALL = {"sum": 5, "diff": 1, "nsum": 1, "distinct": 1, "disjoint": 1, "dom": 2}
PROFILES = [
    {"kinds": ALL},
    {"kinds": {"sum": 4, "diff": 2, "dom": 2}, "nvars": (2, 4), "ncons": (2, 4)},
    {"kinds": ALL, "obj": 0.5, "objforce": True, "ncons": (1, 2)},
    {"kinds": ALL, "parts": (1, 3), "ext": 0.2, "assume": 0.2, "resolve": 0.4, "modes": 0.2},
]


def configs(rng, case):
    r = [([], [])]
    for k in range(3):
        o, a = gen.options(rng, translation=False, threads=False)
        r.append((gen.NOTRANS + o, a))
    for k in range(4):
        o, a = gen.options(rng, translation=k == 0, threads=False)
        t = rng.choice([2, 3, 4, 8])
        r.append(((gen.NOTRANS if k % 2 else []) + o, ["-t%d%s" % (t, rng.choice(["", ",split"]))] +
                  [x for x in a if not x.startswith("--configuration")]))
    return r


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    sweep(c, PROFILES, configs, 90 if q else 200, 10 if q else 200, 110 if q else 600)

"""C06: translation options never change the solutions."""
from common import *

ALL = {"sum": 5, "diff": 1, "nsum": 1, "distinct": 2, "disjoint": 1, "dom": 2}
PROFILES = [
    {"kinds": ALL},
    {"kinds": {"sum": 1}, "nvars": (2, 3), "terms": (2, 5), "coef": 4, "rhs": 12},
    {"kinds": ALL, "obj": 0.5, "objforce": True, "ncons": (1, 2)},
    {"kinds": ALL, "parts": (1, 3), "ext": 0.2, "assume": 0.2},
    {"kinds": {"sum": 5, "distinct": 2, "dom": 1}, "ncons": (2, 5), "nrules": (2, 5)},
]


def configs(rng, case):
    r = [([], []), (gen.NOTRANS, [])]
    # weight constraints for everything, clauses for everything
    r.append(([("translate-clauses", "0"), ("translate-pb", "100"), ("translate-opt", "max"), ("translate-distinct", "max")], []))
    r.append(([("translate-clauses", "1000,1000000"), ("translate-distinct", "max")], []))
    return r + [gen.options(rng, search=False, threads=False) for _ in range(6)]


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    sweep(c, PROFILES, configs, 90 if q else 200, 10 if q else 200, 110 if q else 600)

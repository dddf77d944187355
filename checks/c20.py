"""C20: the Python package behaves like the library."""
import c18
from common import *

ALL = {"sum": 5, "diff": 1, "nsum": 1, "distinct": 1, "disjoint": 1, "dom": 2}
PROFILES = [
    {"kinds": ALL, "parts": (1, 3), "ext": 0.4, "assume": 0.4, "resolve": 0.3, "show": 0.3, "natoms": (1, 4), "cond": 0.3, "tables": 0.3},
    {"kinds": ALL, "obj": 0.7, "parts": (1, 3), "assume": 0.3, "resolve": 0.3, "modes": 0.4},
]


def configs(rng, case):
    return [([], []), gen.options(rng)]


def mutate(rng, case):
    case["lookup"] = rng.random() < 0.5
    # costs in statistics are part of C16
    case["stats"] = rng.random() < 0.3 and not any(s.get("hasobj") for s in case["steps"])


def run(c):
    c.assumptions += ASSUME
    driver = c.build("pydriver")
    q = c.quick
    sweep(c, PROFILES, configs, 80 if q else 200, 4 if q else 100, 40 if q else 400, driver=driver, mutate=mutate)
    if not c.violations:
        c18.run(c, "pyapp", 80)

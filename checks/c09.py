"""C09: multi-shot solving equals solving the accumulated program."""
from common import *

ALL = {"sum": 5, "diff": 1, "nsum": 1, "distinct": 1, "disjoint": 1, "dom": 2}
PROFILES = [
    {"kinds": ALL, "parts": (2, 4), "ext": 0.3, "assume": 0.3, "resolve": 0.4},
    {"kinds": {"sum": 5, "dom": 2}, "parts": (2, 5), "ext": 0.4, "assume": 0.5, "resolve": 0.6, "natoms": (1, 4)},
    {"kinds": ALL, "parts": (2, 4), "ext": 0.2, "assume": 0.2, "resolve": 0.4, "obj": 0.3},
    {"kinds": ALL, "parts": (2, 4), "ext": 0.2, "assume": 0.3, "resolve": 0.5, "obj": 0.4, "limit": 0.3},
    {"kinds": ALL, "parts": (1, 3), "ext": 0.2, "assume": 0.3, "resolve": 0.8, "obj": 0.3, "limit": 0.2, "modes": 0.5, "natoms": (1, 4)},
]


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    sweep(c, PROFILES, basic_configs(3), 90 if q else 200, 10 if q else 200, 110 if q else 600)

"""C03: distinct constraints are solved exactly."""
from common import *

PROFILES = [
    {"kinds": {"distinct": 5, "sum": 1, "dom": 1}},
    {"kinds": {"distinct": 5, "sum": 1}, "nvars": (2, 4), "distinct_terms": (2, 6), "maxcand": 700, "natoms": (0, 1)},
    {"kinds": {"distinct": 3, "dom": 3, "sum": 1}, "nvars": (2, 3), "lo": (-8, 0), "hi": (0, 8), "factonly": 0.7},
    {"kinds": {"distinct": 5, "sum": 1}, "tables": 0.6, "parts": (1, 2)},
]


def configs(rng, case):
    r = [([], []), (gen.NOTRANS, []), ([("translate-distinct", "max")], [])]
    return r + [gen.options(rng) for _ in range(2)]


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    sweep(c, PROFILES, configs, 120 if q else 250, 10 if q else 200, 100 if q else 600)

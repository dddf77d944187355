"""C02: nonlinear constraints are solved exactly."""
from common import *

PROFILES = [
    {"kinds": {"nsum": 5, "sum": 1, "dom": 1}},
    {"kinds": {"nsum": 5, "sum": 1}, "nvars": (2, 3), "lo": (-6, -1), "hi": (1, 6), "maxcand": 1000},
    {"kinds": {"nsum": 1}, "nvars": (1, 2), "lo": (-15, -3), "hi": (2, 15), "anydom": 0.2, "maxcand": 900, "rhs": 20},
    {"kinds": {"nsum": 5, "dom": 2}, "factonly": 0.8, "natoms": (0, 1), "ncons": (1, 2)},
]


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    sweep(c, PROFILES, basic_configs(3), 120 if q else 250, 10 if q else 200, 100 if q else 600)

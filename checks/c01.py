"""C01: linear constraints are solved exactly."""
from common import *

LIN = {"sum": 5, "diff": 2, "dom": 1}
PROFILES = [
    {"kinds": LIN},
    {"kinds": LIN, "nvars": (2, 4), "terms": (0, 5), "maxcand": 700, "natoms": (0, 2)},
    {"kinds": LIN, "coef": 9, "rhs": 30, "nvars": (1, 2), "lo": (-12, 0), "hi": (0, 12)},
    {"kinds": {"sum": 3, "diff": 1}, "nvars": (1, 2), "lo": (-20, 20), "hi": (21, 60), "rhs": 40, "coef": 5, "anydom": 0.1, "widerange": 0.3},
    {"kinds": {"sum": 1}, "common": 0.7, "nvars": (3, 4), "ncons": (1, 3), "natoms": (0, 2), "maxcand": 500, "factonly": 0.6},
    {"kinds": {"diff": 5, "sum": 1}, "ncons": (3, 6), "nrules": (2, 6), "nvars": (2, 4)},
]


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    sweep(c, PROFILES, basic_configs(3), 120 if q else 250, 10 if q else 200, 100 if q else 600)

"""C05: domains and integer ranges are respected exactly."""
from common import *

PROFILES = [
    {"kinds": {"dom": 6, "sum": 1}, "anydom": 0.8},
    {"kinds": {"dom": 6, "sum": 1, "diff": 1}, "ncons": (2, 5), "nrules": (2, 6), "anydom": 0.3},
    {"kinds": {"dom": 5, "sum": 1}, "nvars": (1, 2), "lo": (-30, 0), "hi": (0, 30), "anydom": 0.9},
    {"kinds": {"dom": 4, "sum": 2}, "widerange": 1.0, "ncons": (1, 4)},
    {"kinds": {"dom": 5, "sum": 1}, "parts": (1, 3), "anydom": 0.4},
]


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    sweep(c, PROFILES, basic_configs(3), 120 if q else 250, 10 if q else 200, 100 if q else 600)

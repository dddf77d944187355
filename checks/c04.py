"""C04: disjoint constraints are solved exactly."""
from common import *

PROFILES = [
    {"kinds": {"disjoint": 5, "sum": 1, "dom": 1}},
    {"kinds": {"disjoint": 5, "sum": 1}, "nvars": (2, 4), "disjoint_terms": (2, 5), "maxcand": 700, "natoms": (0, 1)},
    {"kinds": {"disjoint": 3, "dom": 2, "sum": 1}, "nvars": (2, 3), "lo": (-7, 0), "hi": (0, 8), "factonly": 0.7},
    {"kinds": {"disjoint": 5, "sum": 1}, "parts": (1, 2)},
    {"kinds": {"disjoint": 1}, "nvars": (3, 5), "schedule": 0.95, "ncons": (1, 1), "nrules": (1, 2), "natoms": (0, 0),
     "factonly": 1.0, "anydom": 0.1, "lo": (-1, 0), "hi": (3, 6), "maxcand": 1300, "maxwork": 9000},
]


ORDER = [p for q in PROFILES[:4] for p in (PROFILES[4], q)]


def jumpy(rng):
    """Search jumping around a lot, forgetting what it learned."""
    o, a = gen.options(rng, translation=False, search=False, threads=False)
    a += ["--rand-freq=%s" % rng.choice(["0.5", "0.7", "1.0"]), "--restart-on-model", "--seed=%d" % rng.randint(1, 999)]
    a += rng.choice([["--del-init=1,2", "--del-grow=0", "--deletion=no"], ["--deletion=no"], []])
    return o, a


def configs(rng, case):
    return basic_configs(2)(rng, case) + [jumpy(rng) for _ in range(4)]


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    sweep(c, ORDER, configs, 120 if q else 250, 10 if q else 200, 100 if q else 600)

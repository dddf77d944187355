"""C16: statistics of steps are exact and add up."""
from common import *

ALL = {"sum": 5, "diff": 1, "nsum": 1, "distinct": 2, "disjoint": 2, "dom": 2}
PROFILES = [
    {"kinds": ALL, "parts": (1, 3), "resolve": 0.5},
    {"kinds": ALL, "parts": (1, 3), "resolve": 0.5, "obj": 0.6, "assume": 0.2, "limit": 0.2},
    {"kinds": ALL, "parts": (2, 3), "resolve": 0.7, "ext": 0.4, "assume": 0.3, "nvars": (2, 4), "obj": 0.4, "modes": 0.3},
]


def configs(rng, case):
    case["stats"] = True
    return [([], []), (gen.NOTRANS, [])] + [gen.options(rng) for _ in range(3)]


def run(c):
    c.assumptions += ASSUME
    q = c.quick
    # What happens at the interface to the solver is recorded if possible.
    driver = c.build("spy_driver", optional=True)
    env = {"SPY_LIMIT": "0"} if driver else None
    c.cov["interface_recorded"] = driver is not None
    sweep(c, PROFILES, configs, 100 if q else 250, 10 if q else 200, 100 if q else 600, stepwise=lambda case: "lim" in str(case["steps"]),
          driver=driver or c.build("session_driver"), env=env)

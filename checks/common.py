"""Shared parts of the session based checks."""

import concurrent.futures as cf
import json
import random

from vf import gen


def sweep(c, profiles, configs, n, batches, budget, stepwise=lambda case: False, label="sessions", driver=None,
          mutate=None, env=None):
    """Run batches of random cases; stops after a violation or when the time
    budget is used up.  profiles: list of generator profiles; configs(rng, case):
    list of option settings for a case."""
    driver = driver or c.build("session_driver")
    for b in range(batches):
        if b > 0 and c.left(budget) < 0:
            break
        rng = random.Random("%s/%d/%s/%d" % (c.prop, c.seed, label, b))
        prof = profiles[b % len(profiles)]
        g = gen.Gen(rng, **prof)
        items = []
        for _ in range(n):
            case = g.case()
            if mutate:
                mutate(rng, case)
            items.append((case, [gen.sane(vary(rng, case, x)) for x in configs(rng, case)]))
        c.sessions(items, driver, stepwise=stepwise, label=label, env=env)
        c.count("batches")
        if c.violations:
            break
    return driver


def vary(rng, case, cfg):
    """Change settings between the solve calls of a session."""
    if len(cfg) > 2 or rng.random() < 0.5:
        return cfg
    ch = gen.changes(rng, case)
    return (cfg[0], cfg[1], ch) if ch else cfg


def basic_configs(extra):
    def f(rng, case):
        return [([], []), (gen.NOTRANS, [])] + [gen.options(rng) for _ in range(extra)]
    return f


ASSUME = [
    "gringo and clasp (the clingo library in the sandbox) ground programs and enumerate models correctly",
    "the values of integers in generated programs stay far inside TLC's 32-bit integers (range violations are decided by C13)",
    "--enum=record and SAT preprocessing are excluded: clasp itself projects onto problem variables with these",
    "--heuristic=Unit is excluded with several threads and --heuristic=Vmtf altogether: clasp itself loses solutions or crashes "
    "(shown with a propagator that only adds weight constraints)",
]

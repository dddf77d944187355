#!/usr/bin/env python3
"""Entry point of all checks: main.py PROPERTY quick|thorough."""

import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "lib")]
sys.dont_write_bytecode = True

from vf import core  # noqa: E402


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    tier = os.environ.get("VERIF_TIER", tier) if tier not in ("quick", "thorough") else tier
    mod = importlib.import_module(prop.lower())
    check = core.Check(prop, tier, getattr(mod, "LEVEL", "model_checking"))
    mod.run(check)
    check.finish()


if __name__ == "__main__":
    main()

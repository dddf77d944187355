#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusted: gringo/clasp of the installed clingo library (grounding, search, enumeration), the generators' reach, TLC. "
         "Exhaustive per program (TLC computes all solutions), sampled over programs and options.")
SES = "TLA+ (Session.tla/CASP.tla), TLC trace validation of recorded solving sessions"
CHECKS = {
    "C01": (SES, TRUST),
    "C02": (SES, TRUST),
    "C03": (SES, TRUST),
    "C04": (SES, TRUST),
    "C05": (SES, TRUST),
    "C06": (SES + " under varying translation options", TRUST),
    "C07": (SES + " under varying search options and threads", TRUST + " Thread schedules are those the OS produces (repeated runs)."),
    "C08": (SES + " with objectives; exhaustive TLC check of the session design", TRUST),
    "C09": (SES + " with several steps", TRUST),
    "C10": ("TLA+ (Propagation.tla), TLC checks every clause recorded at clingo's interface during solving for a justification; "
            "TLC checks exhaustively that justified clauses suffice (MCPropagation)",
            "Trusted: the recording at the interface (link-time interposition), the internal constraints (decided by C01-C05), TLC."),
    "C11": ("TLA+ (Propagation.tla), TLC validates bounds recorded after each callback of the propagator (propagate, undo, check, "
            "decide, model) as a behaviour of the specification",
            "Trusted: the recording at the interface (friend access under CLINGCON_VERIF), TLC."),
    "C12": (SES + " of programs with conditions, parameters, shifted constraints and families of variables", TRUST),
    "C13": ("TLA+ (BigInt.tla, Arith.tla), TLC decides for recorded outcomes of programs over large integers whether they are exact or rightly rejected",
            "Trusted: gringo's parsing, TLC, generators' reach. Big integers are validated against TLC's own and the division laws (BigIntTest)."),
    "C14": (SES + ": lookups through the theory interface, symbols and indices of values",
            TRUST),
    "C15": ("TLA+ (Config.tla), TLC validates recorded option settings with the resulting configuration; exhaustive TLC check of the design (MCConfig)",
            "Trusted: clasp's parsing of command lines, reading the configuration of the theory, TLC. Sampled over sequences of settings."),
    "C16": (SES + " with the statistics read after each call, and counters at the interface to the solver", TRUST),
    "C17": ("TLA+ (IntervalSet.tla, VarState.tla, UniqueVector.tla), every transition of TLC's state graph replayed into the real types",
            "Trusted: TLC, the order preserving embeddings of places into integers, ASan/UBSan. Exhaustive for up to 4-5 places and the listed operations."),
}
CHECKS["C18"] = ("TLA+ (Session.tla/AppTrace.tla), TLC validates the printed answers and verdict of the application", TRUST)
CHECKS["C20"] = ("TLA+ (Session.tla/SessionTrace.tla/AppTrace.tla), TLC validates sessions executed with the Python package and the output of its application", TRUST)
CHECKS["C19"] = ("TLA+ (Propagation.tla), TLC decides for recorded bounds at each decision whether the constraints are propagated as far as specified",
                 "Trusted: the recording at the interface (friend access under CLINGCON_VERIF), TLC. Translated and disjoint constraints are not covered.")
HOOKS = ["16a35ffee964142a3fd24eac36fb7078e12b07c2"]
PENDING = "check under construction"
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "harness/setup.sh",
    "hooks": {"guard": "CLINGCON_VERIF", "enable": "harness/Makefile compiles /repo/libclingcon with -DCLINGCON_VERIF",
              "source_commits": HOOKS},
    "checks": [{"property": i, "quick_cmd": "checks/run.sh %s quick" % i, "thorough_cmd": "checks/run.sh %s thorough" % i,
                "technique": CHECKS[i][0], "level": CHECKS[i][2] if len(CHECKS[i]) > 2 else "model_checking",
                "level_note": CHECKS[i][1]} for i in ids if i in CHECKS],
    "not_applicable": [{"property": i, "reason": PENDING} for i in ids if i not in CHECKS],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")

"""Orchestration of checks: budget, verdicts, evidence."""

import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import session as S
from . import tlc as T

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.environ.get("VF_BUILD", os.path.join(ROOT, "build"))


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop = prop
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = known_findings(prop)
        self.known_hits = set()
        self.rng = random.Random("%s/%d" % (prop, self.seed))

    # --- building ---------------------------------------------------------
    def build(self, *targets, optional=False):
        """Build harness targets from /repo's current sources.  Optional targets
        look into the implementation and may not fit a reorganized one; None is
        returned then."""
        out = os.path.join(BUILD, "h")
        os.makedirs(out, exist_ok=True)
        lock = os.path.join(out, "lock")
        cmd = ["flock", lock, os.path.join(ROOT, "harness", "build.sh"), out] + [os.path.join(out, t) for t in targets]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            if optional:
                return None
            # Not an outcome of the property: the tree does not build.
            print(p.stdout[-4000:])
            raise SystemExit(2)
        # Work on private copies, so that concurrent checks do not interfere.
        res = []
        for t in targets:
            dst = os.path.join(self.work, t)
            shutil.copy2(os.path.join(out, t), dst)
            res.append(dst)
        return res if len(res) > 1 else res[0]

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # --- recording --------------------------------------------------------
    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=3):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, what, replay):
        """Record a violation; `replay` is written to a file."""
        for k in self.known:
            if "match" in k and (k["match"] in what or k["match"] in json.dumps(replay)):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return
        d = os.path.join(ROOT, "build", "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s_%d_%d.json" % (self.prop, self.seed, len(self.violations)))
        with open(f, "w") as h:
            json.dump({"property": self.prop, "what": what, "replay": replay}, h, indent=1)
        self.violations.append((what, f))

    def model_check(self, module, cfg=None, workers=8, timeout=600, need=()):
        """Check a model exhaustively; failures of our own models are errors of
        the machinery and never reported as violations."""
        rc, out = T.tlc(module, (cfg or module) + ".cfg", {}, workers, timeout)
        if rc is None or "No error has been found" not in out:
            raise T.TlcError("model %s failed:\n%s" % (module, out[-3000:]))
        d, g = T.counts(out)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov.setdefault("models", {})[cfg or module] = d
        return d

    # --- sessions ---------------------------------------------------------
    def sessions(self, items, driver, stepwise=lambda c: False, limit=15, label="sessions", env=None):
        """items: list of (case, [configuration]).  Runs every case under every
        configuration and validates what was observed.  Returns the number of
        rejected runs."""
        scripts, index = [], {}
        for ci, (case, cfgs) in enumerate(items):
            for ki, cfg in enumerate(cfgs):
                sid = "%d.%d" % (ci, ki)
                index[sid] = (ci, ki)
                scripts.append((sid, S.script(case, cfg, sid)))
        res = S.run_scripts(driver, scripts, self.work, limit, env=env)
        # group equal observations of a case
        groups = {}
        for sid, (ci, ki) in index.items():
            if sid not in res:
                continue  # skipped after repeated timeouts
            case = items[ci][0]
            ev = S.observe(case, res[sid], stepwise(case))
            key = (ci, json.dumps(ev, sort_keys=True))
            groups.setdefault(key, []).append((ki, ev))
        traces, byid = [], {}
        for (ci, _), runs in groups.items():
            tid = "T%d" % len(traces)
            traces.append(S.trace(items[ci][0], runs[0][1], tid))
            byid[tid] = (ci, [k for k, _ in runs])
        acc = self.validate("SessionTrace", traces)
        self.count("traces_validated_against_impl", len(traces))
        self.count(label, len(scripts))
        for case, _ in items:
            for s in case["steps"]:
                if s.get("mode"):
                    self.count("solve_calls_yielding_or_asynchronous")
        for t in traces:
            for e in t["ev"]:
                if e["e"] == "model":
                    self.count("solutions_validated")
                elif e["e"] == "solve":
                    self.count("solutions_validated", len(e["ms"]))
                    self.count("solve_calls_with_solutions", 1 if e["ms"] else 0)
                if e["e"] in ("solve", "begin"):
                    self.count("solve_calls")
                elif e["e"] == "end" and e["stop"]:
                    self.count("solve_calls_limited" if e["ex"] else "solve_calls_interrupted")
        if traces:
            ci, ks = byid[traces[0]["id"]]
            self.sample({"program": [s["text"] for s in items[ci][0]["steps"] if s["op"] == "add"],
                         "range": [items[ci][0]["lo"], items[ci][0]["hi"]], "configurations": len(ks),
                         "events": [e["e"] for e in traces[0]["ev"]][:12]})
        rejected = [t for t in traces if t["id"] not in acc]
        self.count("rejected_before_confirmation", len(rejected))
        n = 0
        for t in rejected[:12]:
            ci, ks = byid[t["id"]]
            if self.confirm(items[ci][0], items[ci][1][ks[0]], driver, stepwise(items[ci][0]), limit, env):
                n += 1
            if len(self.violations) >= 2:
                break
        return n

    def confirm(self, case, cfg, driver, stepwise, limit, env=None):
        """Repeat a rejected run; report it if it is rejected again."""
        multi = any(a.startswith("-t") for a in cfg[1]) or any(x[2] == "solve.parallel_mode" for x in (cfg[2] if len(cfg) > 2 else []))
        n = 80 if multi else 2
        res = S.run_scripts(driver, [("r%d" % k, S.script(case, cfg, "r%d" % k)) for k in range(n)], self.work, limit * 2,
                            jobs=4 if multi else 2, tag="r", env=env)
        evs = {}
        for k in range(n):
            if "r%d" % k in res:
                ev = S.observe(case, res["r%d" % k], stepwise)
                evs.setdefault(json.dumps(ev, sort_keys=True), ev)
        evs = list(evs.values())
        traces = [S.trace(case, ev, "R%d" % k) for k, ev in enumerate(evs)]
        acc, d, g, out = T.validate("SessionTrace", traces, self.work, "r", progress=True)
        for tid, tag in re.findall(r'<<"KNOWN", "([^"]+)", "([^"]+)">>', out):
            if not any(k.get("tag") == tag for k in self.known):
                acc.discard(tid)
        for k, ev in enumerate(evs):
            if "R%d" % k not in acc:
                at = max([int(x) for x in re.findall(r'<<"MATCH", "R%d", (\d+)>>' % k, out)], default=0)
                nxt = ev[at] if at < len(ev) else {}
                self.violation("event %d (%s) is not a step of the specification" % (at + 1, nxt.get("e")),
                               {"case": case, "config": cfg, "rejected_event": nxt, "events": ev,
                                "script": S.script(case, cfg, "r")})
                return True
        return False

    def validate(self, module, traces, jobs=8, env=None):
        """Validate traces in parallel TLC processes."""
        jobs = max(1, min(jobs, (len(traces) + 9) // 10))
        acc = set()
        with cf.ThreadPoolExecutor(jobs) as ex:
            fs = [ex.submit(T.validate, module, traces[i::jobs], self.work, "%s%d" % (module, i), 1, 800, False, env)
                  for i in range(jobs)]
            for f in fs:
                a, d, g, out = f.result()
                acc |= a
                # behaviours of listed findings
                for tid, tag in re.findall(r'<<"KNOWN", "([^"]+)", "([^"]+)">>', out):
                    hit = [k for k in self.known if k.get("tag") == tag]
                    if not hit:
                        acc.discard(tid)
                    elif tag not in self.known_hits:
                        self.known_hits.add(tag)
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, hit[0]["what"]))
                self.cov["states"] += d
                self.cov["transitions"] += g
        return acc

    # --- end --------------------------------------------------------------
    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for what, f in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
            print("  " + what)
        if not self.violations:
            print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
        sys.stdout.flush()
        os._exit(1 if self.violations else 0)


def known_findings(prop):
    f = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(f):
        return []
    with open(f) as h:
        return [k for k in json.load(h).get("known", []) if k["property"] == prop]

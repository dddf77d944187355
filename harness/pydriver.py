"""Executes session scripts (see session_driver.cc) with the Python package."""
import json
import os
import resource
import signal
import sys

import clingo
from clingo.ast import ProgramBuilder, parse_string
from clingcon import ClingconTheory


def unq(s):
    out, i = "", 0
    while i < len(s):
        if s[i] == "%" and i + 2 < len(s):
            out += chr(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i]
            i += 1
    return out


def flatten(st, path, out):
    if isinstance(st, dict):
        for k in st:
            flatten(st[k], path + "/" + k if path else k, out)
    elif isinstance(st, list):
        for i, x in enumerate(st):
            flatten(x, "%s/%d" % (path, i), out)
    else:
        out.append([path, int(round(st))])


class Run:
    def __init__(self, sid, out):
        self.sid, self.out, self.n = sid, out, 0
        self.thy, self.ctl, self.args, self.models, self.limit, self.log, self.yields = ClingconTheory(), None, [], [], 0, "", False

    def emit(self, ev, **kw):
        self.out.write(json.dumps({"s": self.sid, "n": self.n, "e": ev, **kw}) + "\n")
        self.out.flush()
        self.n += 1

    def logger(self, code, msg):
        if len(self.log) < 4000:
            self.log += msg + "\n"

    def on_model(self, m):
        self.thy.on_model(m)
        return self.yields or self.record(m)

    def record(self, m):
        api = []
        for sym, val in self.thy.assignment(m.thread_id):
            idx = self.thy.lookup_symbol(sym)
            api.append([str(sym), val, idx])
            if (idx is None or self.thy.get_symbol(idx) != sym or not self.thy.has_value(m.thread_id, idx)
                    or self.thy.get_value(m.thread_id, idx) != val or type(val) is not int):
                api.append(["?lookup", 0, 0])
        csp, cost = [], []
        for s in m.symbols(theory=True):
            if s.match("__csp", 2):
                csp.append([str(s.arguments[0]), s.arguments[1].number])
            elif s.match("__csp_cost", 1):
                cost = [s.arguments[0].string]
        self.models.append({"atoms": [str(s) for s in m.symbols(shown=True)], "csp": csp, "api": api, "cost": cost,
                            "opt": list(m.cost), "thr": m.thread_id})
        return len(self.models) < 20000 and (self.limit == 0 or len(self.models) < self.limit)

    def execute(self, l):
        op = l[0]
        if op == "O":
            self.thy.configure(l[1], unq(l[2]))
        elif op == "A":
            self.args.append(unq(l[1]))
        elif op == "I":
            self.ctl = clingo.Control(self.args, logger=self.logger, message_limit=20)
            self.thy.register(self.ctl)
            self.emit("init")
        elif op == "P":
            with ProgramBuilder(self.ctl) as bld:
                parse_string(unq(l[1]), lambda ast: self.thy.rewrite_ast(ast, bld.add), logger=self.logger)
            self.emit("add")
        elif op == "G":
            name, _, params = l[1].partition(";")
            self.ctl.ground([(name, [clingo.parse_term(p) for p in params.split(",") if p])])
            self.emit("ground", part=l[1])
        elif op == "X":
            sym, v = clingo.parse_term(l[1]), int(l[2])
            if v == 3:
                self.ctl.release_external(sym)
            else:
                self.ctl.assign_external(sym, [False, True, None][v])
            self.emit("external", sym=l[1], val=v)
        elif op == "K":
            conf = self.ctl.configuration
            path = l[1].split(".")
            for k in path[:-1]:
                conf = getattr(conf, k)
            setattr(conf, path[-1], unq(l[2]))
            self.emit("config")
        elif op == "M":
            self.limit = int(l[1])
        elif op == "L":
            sym = clingo.parse_term(unq(l[1]))
            idx = self.thy.lookup_symbol(sym)
            self.emit("lookup", sym=unq(l[1]), found=idx is not None, idx=idx or 0,
                      back="" if idx is None else str(self.thy.get_symbol(idx)))
        elif op == "Z":
            step, accu = [], []
            st = self.ctl.statistics
            flatten(st.get("user_step", {}).get("Clingcon", {}), "", step)
            flatten(st.get("user_accu", {}).get("Clingcon", {}), "", accu)
            self.emit("stats", step=step, accu=accu)
        elif op == "V":
            ass = []
            for a in l[1].split(",") if len(l) > 1 and l[1] else []:
                # clingo ignores assumptions over unknown atoms and those that have been simplified away
                x = self.ctl.symbolic_atoms[clingo.parse_term(a.lstrip("!"))]
                lit = x.literal if x is not None else 0
                if lit == 0 and a[0] != "!":
                    with self.ctl.backend() as bck:
                        lit = bck.add_atom()
                if lit != 0:
                    ass.append(-lit if a[0] == "!" else lit)
            self.models = []
            self.thy.prepare(self.ctl)
            mode = l[2] if len(l) > 2 else ""
            self.yields = "y" in mode
            if mode == "":
                r = self.ctl.solve(ass, on_model=self.on_model, on_statistics=self.thy.on_statistics)
            else:
                with self.ctl.solve(ass, on_model=self.on_model, on_statistics=self.thy.on_statistics, yield_=self.yields, async_="a" in mode) as hnd:
                    if self.yields:
                        for m in hnd:
                            if not self.record(m):
                                hnd.cancel()
                                break
                    r = hnd.get()
            self.emit("solve", models=self.models, sat="sat" if r.satisfiable else "unsat" if r.unsatisfiable else "unknown",
                      exhausted=r.exhausted, overflow=len(self.models) >= 20000)
        else:
            raise RuntimeError("unknown command: " + op)

    def run(self, lines):
        op = "?"
        try:
            for l in lines:
                op = l[0]
                self.execute(l)
            self.emit("end", log=self.log)
        except Exception as e:  # recorded
            self.emit("error", op=op, msg=str(e), log=self.log)


def main():
    sessions = []
    with open(sys.argv[1]) as h:
        for line in h.read().split("\n"):
            f = line.split("\t")
            if f[0] == "S":
                sessions.append((f[1], []))
            elif f[0] not in ("", "E"):
                sessions[-1][1].append(f)
    timeouts = 0
    with open(sys.argv[2], "a") as out:
        for sid, lines in sessions:
            if timeouts >= 2:
                break
            out.flush()
            pid = os.fork()
            if pid == 0:
                signal.alarm(int(sys.argv[3]))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                Run(sid, out).run(lines)
                out.flush()
                os._exit(0)
            st = os.waitpid(pid, 0)[1]
            if os.WIFSIGNALED(st):
                t = os.WTERMSIG(st) == signal.SIGALRM
                timeouts += t
                out.write(json.dumps({"s": sid, "n": -1, "e": "timeout" if t else "crash", "sig": os.WTERMSIG(st)}) + "\n")
            elif os.WEXITSTATUS(st) != 0:
                out.write(json.dumps({"s": sid, "n": -1, "e": "crash", "sig": 0}) + "\n")
            out.flush()


main()

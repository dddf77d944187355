"""Random generation of cases (programs with sessions) and option settings.

A case is a dictionary
  na, lo, hi, vars, atoms       signature
  steps                         list of {"op": "add" | "ext" | "solve", ...}
A profile steers which constructs occur and how large cases get.
"""

import random

from . import prog as P

VNAMES = ["x", "y", "z", "u", "f(1)", "g(a,\"b\")", "(1,2)", "w", "v(1)", "h(1,x)", "\"s t\"", "f(x)", "x(1)", "xx",
          "v(2)", "v(3)", "_x", "x__y", "f(_x,\"=1 \")"]
ANAMES = ["a", "b", "c", "d", "p(1)", "p(2)", "q(x)", "-r", "_e", "e__f(1)"]
RELS = ["<=", "<", ">=", ">", "=", "!="]

DEFAULT = dict(
    nvars=(1, 3), natoms=(0, 3), ncons=(1, 3), nrules=(1, 3),
    lo=(-4, 0), hi=(0, 4), maxcand=700, maxwork=20000,
    kinds={"sum": 5, "diff": 2, "nsum": 0, "distinct": 0, "disjoint": 0, "dom": 1},
    anydom=0.5,           # probability of a domain fact per variable
    widerange=0.15,       # probability of the default integer range (all variables with domain facts)
    parts=(1, 1), ext=0.0, assume=0.0, obj=0.0, show=0.0, tables=0.1, resolve=0.0,
    coef=3, rhs=6, terms=(0, 4), factonly=0.4, nested=0.15, objforce=False, namesafe=False,
    distinct_terms=(0, 5), disjoint_terms=(0, 4), limit=0.0, common=0.08, schedule=0.15,
    cond=0.0,             # probability that elements have conditions and rules have parameters
    family=0.0,           # probability that variables are v(1), v(2), ...
    dup=0.08,             # probability that an element is repeated
    modes=0.0,            # probability of solve calls that yield, are asynchronous, or are interrupted
    heads=0.0,            # probability of unusual heads of integrity constraints
)


def modes(r, step, p):
    if r.random() < p:
        step["mode"] = r.choice(["y", "y", "a", "ya"])
    if r.random() < p * 0.7:
        step["stop"] = r.choice([0, 1, 1, 2, 3, 5, 8])


class Gen:
    def __init__(self, rng, **profile):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p.update(profile)

    def ri(self, lohi):
        return self.r.randint(lohi[0], lohi[1])

    def integrity(self, rule):
        """Choose how the head of an integrity constraint is written, or make it
        a rule without effect (head that is always true)."""
        r = self.r
        if r.random() < self.p["heads"]:
            if r.random() < 0.25:
                rule["h"] = "x"
                rule["hd"] = r.choice(["#true", "not #false", "not not #true"])
            else:
                rule["hd"] = r.choice(["", "#false", "not #true", "not not #false", "move", "move"])
        return rule

    # --- expressions ------------------------------------------------------
    def const(self, v=None):
        """An expression with value v (or some small value)."""
        r = self.r
        if v is None:
            v = r.randint(-self.p["rhs"], self.p["rhs"])
        if r.random() > self.p["nested"]:
            return P.num(v)
        k = r.randrange(7)
        if k == 0:
            d = r.randint(-3, 3)
            return P.op("+", P.num(v - d), P.num(d))
        if k == 1:
            d = r.randint(-3, 3)
            return P.op("-", P.num(v + d), P.num(d))
        if k == 2:
            d = r.choice([-2, -1, 1, 2])
            return P.op("/", P.num(v * d), P.num(d))
        if k == 3:
            return P.neg(P.num(-v))
        if k == 4:
            return P.op("*", P.num(v), P.op("^", P.num(r.choice([0, 1, 2, -3])), P.num(0)))
        if k == 5 and v >= 0:
            return P.op("%", P.num(v), P.num(v + 1 + r.randint(0, 3)))
        if k == 6 and v in (1, 4, 9):
            return P.op("^", P.num({1: 1, 4: 2, 9: 3}[v] * r.choice([1, -1])), P.num(2))
        return P.op("*", P.num(-1), P.num(-v))

    def linterm(self, vs, coef=None):
        r = self.r
        c = self.p["coef"] if coef is None else coef
        x = P.var(r.choice(vs))
        k = r.choice([i for i in range(-c, c + 1) if i != 0 or r.random() < 0.3])
        t = r.random()
        if k == 1 and t < 0.8:
            return x
        if k == -1 and t < 0.8:
            return P.neg(x)
        if t < 0.75:
            return P.op("*", self.const(k), x)
        return P.op("*", x, self.const(k))

    def linexpr(self, vs, depth=0):
        """A linear expression as one element."""
        r = self.r
        t = r.random()
        if t < 0.65 or depth > 1:
            return self.linterm(vs)
        if t < 0.75:
            return self.const()
        if t < 0.85:
            return P.op(r.choice("+-"), self.linexpr(vs, depth + 1), self.linexpr(vs, depth + 1))
        if t < 0.9:
            return P.neg(self.linexpr(vs, depth + 1))
        if t < 0.95:
            return P.op("*", P.num(r.randint(-2, 2)), P.op(r.choice("+-"), self.linterm(vs), self.linexpr(vs, 2)))
        return P.op("+", self.linterm(vs), self.const())

    def tabelem(self, vs, ntab, facts):
        """An element ranging over a table."""
        r = self.r
        f = r.randint(1, ntab)
        ar = len(facts[f - 1][0])
        cols = list(range(1, ar + 1))
        r.shuffle(cols)
        keep = cols[: r.randint(0, ar)]
        c = [{"k": "t", "f": f, "a": [{"k": "p", "v": keep.index(x) + 1} if x in keep else {"k": "_"} for x in range(1, ar + 1)]}]
        e = P.var(r.choice(vs)) if r.random() < 0.7 else P.num(r.randint(-3, 3))
        if keep and r.random() < 0.7:
            j = r.randint(1, len(keep))
            e = r.choice([P.op("*", P.par(j), e), P.op("*", e, P.par(j)), P.op("+", P.par(j), e), P.par(j)])
        return P.elem(e, c)

    # Conditions.  An environment is a list with the kinds of parameters so far:
    # "i" for parameters that are indices of variables and "v" for others.
    def table(self, env, facts, new=True):
        """A condition on a table; may add parameters to the environment."""
        r = self.r
        f = r.randint(1, len(facts))
        args = []
        for col in range(len(facts[f - 1][0])):
            t = r.random()
            kind = "i" if all(1 <= row[col] <= self.nidx for row in facts[f - 1]) and self.nidx else "v"
            if t < 0.12:
                args.append({"k": "_"})
            elif t < 0.25 or (t > 0.5 and not new and not env) or len(env) >= 8:
                args.append({"k": "n", "v": r.choice(facts[f - 1])[col] if r.random() < 0.8 else r.randint(-2, 2)})
            elif (t < 0.45 or not new) and env:
                j = r.randrange(len(env))
                args.append({"k": "p", "v": j + 1})
                if new and kind == "i":
                    env[j] = "i"
            elif new:
                env.append(kind)
                args.append({"k": "p", "v": len(env)})
            else:
                args.append({"k": "n", "v": r.randint(-2, 2)})
        return {"k": "t", "f": f, "a": args}

    def condition(self, env, facts):
        """A condition (extends the environment)."""
        r = self.r
        c = [self.table(env, facts) for _ in range(r.choice([1, 1, 1, 2]))]
        if env and r.random() < 0.15:
            b = self.table(env, facts, new=False)
            b["k"] = "n"
            b["a"] = [{"k": "n", "v": r.randint(-2, 2)} if a["k"] == "_" and r.random() < 0.5 else a for a in b["a"]]
            c.append(b)
        if env and r.random() < 0.25:
            x = P.par(r.randint(1, len(env)))
            y = P.par(r.randint(1, len(env))) if r.random() < 0.6 else P.num(r.randint(-1, 3))
            if r.random() < 0.2:
                x = P.op(r.choice("+-"), x, P.num(1))
            c.append({"k": "r", "op": r.choice(RELS[:4] + ["!=", "!="]), "l": x, "r": y})
        r.shuffle(c)
        return c

    def pvar(self, vs, env):
        """A variable, possibly selected by a parameter."""
        idx = [j + 1 for j in range(len(env)) if env[j] == "i"]
        if idx and self.r.random() < 0.75:
            return P.wvar(self.r.choice(idx))
        return P.var(self.r.choice(vs))

    def pconst(self, env, lo=-3, hi=3):
        if env and self.r.random() < 0.6:
            return P.par(self.r.randint(1, len(env)))
        return P.num(self.r.randint(lo, hi))

    def pterm(self, vs, env):
        r = self.r
        x = self.pvar(vs, env)
        t = r.random()
        if t < 0.4:
            return x
        if t < 0.5:
            return P.neg(x)
        if t < 0.85:
            y = self.pconst(env)
            return P.op("*", y, x) if r.random() < 0.6 else P.op("*", x, y)
        if t < 0.93:
            return self.pconst(env)
        return P.op(r.choice("+-"), x, self.pconst(env))

    def celems(self, vs, n, facts, env, make):
        """Elements with conditions: make(environment) constructs an element."""
        out = []
        for _ in range(n):
            e = list(env)
            c = self.condition(e, facts) if self.r.random() < 0.7 else []
            el = make(e)
            el["c"] = c
            out.append(el)
        return out

    def pcons(self, kind, vs, facts, env, lo, hi):
        """A constraint whose elements have conditions and with parameters in env."""
        r = self.r
        term = lambda e: P.elem(self.pterm(vs, e))
        if kind == "diff":
            a, b = (self.pvar(vs, env) if r.random() < 0.9 else self.pconst(env) for _ in range(2))
            c = {"k": "sum", "syn": "diff", "el": [P.elem(P.op("-", a, b))], "op": "<=", "rhs": self.pconst(env)}
        elif kind in ("sum", "nsum"):
            c = {"k": "sum", "syn": "sum", "el": self.celems(vs, r.choice([0, 1, 1, 1, 2, 2, 3]), facts, env, term), "op": r.choice(RELS),
                 "rhs": self.pterm(vs, env) if r.random() < 0.2 else self.pconst(env, -6, 6)}
        elif kind == "distinct":
            c = {"k": "distinct", "el": self.celems(vs, r.choice([1, 1, 2, 3]), facts, env,
                                                     lambda e: P.elem(self.pvar(vs, e)) if r.random() < 0.6 else term(e))}
        elif kind == "disjoint":
            c = {"k": "disjoint", "el": self.celems(vs, r.choice([1, 1, 2, 3]), facts, env,
                                                     lambda e: dict(P.elem(self.pvar(vs, e)), w=self.pconst(e, 0, 2)))}
        else:
            def rng(e):
                l = self.pconst(e, lo, hi)
                u = self.pconst(e, lo, hi) if r.random() < 0.7 else l
                return dict(P.elem(l), u=u)
            c = {"k": "ranges", "x": self.pvar(vs, env), "el": self.celems(vs, r.choice([1, 1, 2, 3]), facts, env, rng)}
        if "el" in c and c["el"] and c.get("syn") != "diff" and r.random() < 0.15:
            c["el"].insert(r.randint(0, len(c["el"])), c["el"][r.randrange(len(c["el"]))])
        c["schema"] = bool(env)
        return c

    def elems(self, vs, n, facts):
        out = []
        for _ in range(n):
            if facts and self.r.random() < 0.5:
                out.append(self.tabelem(vs, len(facts), facts))
            else:
                out.append(P.elem(self.linexpr(vs)))
        if out and self.r.random() < self.p["dup"]:
            out.insert(self.r.randint(0, len(out)), self.r.choice(out))
        return out

    # --- constraints ------------------------------------------------------
    def cons(self, kind, vs, facts, lo, hi):
        r, p = self.r, self.p
        if kind == "sum":
            els = self.elems(vs, self.ri(p["terms"]), facts)
            rhs = self.linexpr(vs) if r.random() < 0.15 else self.const()
            if r.random() < p["common"]:
                # coefficients with a common divisor
                d = r.choice([2, 2, 3, 3, 4, 6])
                els = [P.elem(P.op("*", P.num(d * r.choice([-2, -1, -1, 1, 1, 2])), P.var(v)))
                       for v in r.sample(vs, r.randint(min(2, len(vs)), len(vs)))]
                rhs = self.const(r.randint(-3 * d, 3 * d))
            return {"k": "sum", "syn": "sum", "el": els, "op": r.choice(RELS), "rhs": rhs}
        if kind == "diff":
            a = P.var(r.choice(vs)) if r.random() < 0.85 else self.const()
            b = P.var(r.choice(vs)) if r.random() < 0.85 else self.const()
            return {"k": "sum", "syn": "diff", "el": [P.elem(P.op("-", a, b))], "op": "<=", "rhs": self.const()}
        if kind == "nsum":
            els = []
            if r.random() < 0.92:
                x, y = P.var(r.choice(vs)), P.var(r.choice(vs))
                k = r.choice([-3, -2, -1, 1, 1, 1, 2, 3, 0])
                e = P.op("*", x, y)
                e = e if k == 1 and r.random() < 0.7 else (P.neg(e) if k == -1 and r.random() < 0.5 else r.choice(
                    [P.op("*", self.const(k), e), P.op("*", P.op("*", x, self.const(k)), y), P.op("*", e, P.num(k))]))
                els.append(P.elem(e))
            lin = None
            if r.random() < 0.6:
                lin = r.choice(vs)
                els.append(P.elem(self.linterm([lin])))
                if r.random() < 0.15:
                    els.append(P.elem(self.linterm([lin])))
            if r.random() < 0.2:
                els.append(P.elem(self.const()))
            r.shuffle(els)
            rhs = P.op("+", P.var(lin), self.const()) if lin and r.random() < 0.1 else self.const(r.randint(-9, 9))
            return {"k": "sum", "syn": "nsum", "el": els, "op": r.choice(RELS), "rhs": rhs}
        if kind == "distinct":
            n = self.ri(p["distinct_terms"])
            els = []
            for _ in range(n):
                t = r.random()
                if facts and t < 0.2:
                    els.append(self.tabelem(vs, len(facts), facts))
                elif t < 0.75:
                    els.append(P.elem(P.var(r.choice(vs))))
                elif t < 0.85:
                    els.append(P.elem(self.const(r.randint(lo, hi))))
                else:
                    els.append(P.elem(self.linexpr(vs)))
            return {"k": "distinct", "el": els}
        if kind == "disjoint":
            task = lambda v, w: dict(P.elem(P.var(v)), w=P.num(w))
            if r.random() < p["schedule"]:
                ws = r.sample(vs, max(min(3, len(vs)), len(vs) - r.randint(0, 1)))
                return {"k": "disjoint", "el": [task(v, r.choice([1, 1, 2, 2, 3])) for v in ws]}
            return {"k": "disjoint", "el": [task(r.choice(vs), r.choice([-1, 0, 1, 1, 1, 2, 2, 3]))
                                             for _ in range(self.ri(p["disjoint_terms"]))]}
        if kind == "dom":
            iv = []
            for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
                a = r.randint(lo - 1, hi + 1)
                b = a if r.random() < 0.3 else r.randint(a - 1, hi + 1)
                iv.append([a, b])
            return {"k": "dom", "v": r.choice(vs), "iv": iv}
        raise ValueError(kind)

    def kind(self, kinds):
        ks = [k for k in kinds if kinds[k] > 0]
        return self.r.choices(ks, [kinds[k] for k in ks])[0]

    # --- cases ------------------------------------------------------------
    def case(self):
        while True:
            c = self.try_case()
            if c is not None:
                return c

    def try_case(self):
        r, p = self.r, self.p
        nparts = self.ri(p["parts"])
        lo, hi = self.ri(p["lo"]), self.ri(p["hi"])
        wide = r.random() < p["widerange"]
        na = self.ri(p["natoms"])
        anames = r.sample(ANAMES, na)
        nv = max(self.ri(p["nvars"]), 1)
        family = r.random() < p["family"]
        self.nidx = 0
        vnames = ["v(%d)" % (i + 1) for i in range(nv)] if family else r.sample(VNAMES if not p["namesafe"] else VNAMES[:6], nv)
        # distribute variables and atoms over parts
        cut_v = sorted(r.randint(1, nv) for _ in range(nparts - 1)) + [nv]
        cut_a = sorted(r.randint(0, na) for _ in range(nparts - 1)) + [na]
        if nparts > 1 and r.random() < 0.7:
            cut_v = [max(c, min(nv, 1)) for c in cut_v]
        case = {"na": na, "lo": lo, "hi": hi, "wide": wide, "vars": vnames, "atoms": anames, "steps": [],
                "_facts": [], "_cons": []}
        exts = {}
        hasobj = False
        work = 1
        pv = pa = 0
        cards = []
        for k in range(nparts):
            newv = list(range(pv + 1, cut_v[k] + 1))
            newa = list(range(pa + 1, cut_a[k] + 1))
            pv, pa = cut_v[k], cut_a[k]
            vs = list(range(1, pv + 1))
            step = {"op": "add", "rules": [], "exts": [], "facts": [], "obj": [], "show": P.noshow(),
                    "newv": newv, "_f0": len(case["_facts"])}
            if r.random() < p["tables"]:
                for _ in range(r.randint(1, 2)):
                    ar = r.choice([1, 2, 2, 3]) if family else r.randint(1, 2)
                    rows = {tuple(r.randint(1, pv) if family and (col == 0 or (col == 1 and ar == 3)) else r.randint(-2, 2)
                                  for col in range(ar)) for _ in range(r.randint(1, 4 if family else 3))}
                    step["facts"].append([list(x) for x in sorted(rows)])
            case["_facts"] += step["facts"]
            facts = case["_facts"]
            self.nidx = pv if family else 0
            defatoms = []
            for a in newa:
                if r.random() < p["ext"]:
                    step["exts"].append(a)
                    exts[a] = "false"
                else:
                    defatoms.append(a)
            # constraints of this part
            c0 = len(case["_cons"])
            body_ok, head_ok = [], []
            for _ in range(self.ri(p["ncons"])):
                kind = self.kind(p["kinds"])
                cond = facts and r.random() < p["cond"]
                case["_cons"].append(self.pcons(kind, vs, facts, [], lo, hi) if cond else self.cons(kind, vs, facts, lo, hi))
                i = len(case["_cons"])
                head_ok.append(i)
                if kind in ("sum", "diff", "nsum"):
                    body_ok.append(i)
            # domain facts
            for v in newv:
                if wide or r.random() < p["anydom"]:
                    c = self.cons("dom", [v], facts, lo, hi)
                    if r.random() < 0.8 or wide:
                        a = r.randint(lo, hi)
                        c["iv"] = [[a, r.randint(a, hi)]]
                        if r.random() < 0.3:
                            a = r.randint(lo, hi)
                            c["iv"].append([a, r.randint(a, hi)])
                    case["_cons"].append(c)
                    step["rules"].append({"h": "t", "hs": [len(case["_cons"])], "g": [], "b": []})
                    cards.append(len({x for a, b in c["iv"] for x in range(a, b + 1)}))
                else:
                    cards.append(hi - lo + 1)
            # atoms
            usable = list(range(1, pa + 1))
            usable = [a for a in usable if a in exts or a not in newa or a in defatoms]
            if defatoms:
                ch = [a for a in defatoms if r.random() < 0.75]
                if ch:
                    step["rules"].append({"h": "c", "hs": ch, "g": [], "b": []})

            def body(n):
                out = []
                for _ in range(n):
                    if body_ok and (not usable or r.random() < 0.45):
                        out.append({"k": "t", "i": r.choice(body_ok), "n": r.choice([0, 0, 1, 1, 2])})
                    elif usable:
                        out.append({"k": "a", "i": r.choice(usable), "n": r.choice([0, 0, 1, 2])})
                return out

            for _ in range(self.ri(p["nrules"])):
                t = r.random()
                if t < 0.5 and head_ok:
                    b = [] if r.random() < p["factonly"] else body(r.randint(0, 2))
                    step["rules"].append({"h": "t", "hs": [r.choice(head_ok)], "g": [], "b": b})
                elif t < 0.7 and defatoms:
                    step["rules"].append({"h": "a", "hs": [r.choice(defatoms)], "g": [], "b": body(r.randint(1, 2))})
                elif t < 0.8 and defatoms:
                    step["rules"].append({"h": "c", "hs": [r.choice(defatoms)], "g": [], "b": body(r.randint(0, 2))})
                elif t < 0.97:
                    b = body(r.randint(1, 3))
                    if b:
                        step["rules"].append(self.integrity({"h": "n", "hs": [], "g": [], "b": b}))
            # rules with parameters
            for _ in range(self.ri(p["nrules"])):
                if not facts or r.random() >= p["cond"]:
                    continue
                env = []
                g = self.condition(env, facts)
                if not env:
                    continue
                lits = []
                for _ in range(r.choice([1, 1, 1, 2])):
                    kind = self.kind({k: v for k, v in p["kinds"].items() if k in ("sum", "diff")} or {"sum": 1})
                    case["_cons"].append(self.pcons(kind, vs, facts, env, lo, hi))
                    lits.append({"k": "t", "i": len(case["_cons"]), "n": r.choice([0, 0, 1, 1, 2])})
                t = r.random()
                if t < 0.4:
                    case["_cons"].append(self.pcons(self.kind(p["kinds"]), vs, facts, env, lo, hi))
                    step["rules"].append({"h": "t", "hs": [len(case["_cons"])], "g": g,
                                          "b": body(r.choice([0, 0, 1])) + (lits[:1] if r.random() < 0.2 else [])})
                elif t < 0.6 and defatoms:
                    step["rules"].append({"h": r.choice("ac"), "hs": [r.choice(defatoms)], "g": g, "b": lits + body(r.choice([0, 0, 1]))})
                else:
                    b = lits + body(r.choice([0, 0, 1]))
                    r.shuffle(b)
                    step["rules"].append(self.integrity({"h": "n", "hs": [], "g": g, "b": b}))
            # objective
            if r.random() < p["obj"] or (p["objforce"] and not hasobj and k == nparts - 1):
                for sgn in r.choice([[1], [-1], [1], [-1], [1, -1]]):
                    n = r.randint(1, 3)
                    cond = facts and r.random() < p["cond"]
                    for e in (self.celems(vs, n, facts, [], lambda e: P.elem(self.pterm(vs, e))) if cond else self.elems(vs, n, facts)):
                        step["obj"].append({"s": sgn, "el": e})
                hasobj = True
            if r.random() < p["show"]:
                sigs = []
                for v in vs:
                    s = signature(vnames[v - 1])
                    if s and r.random() < 0.4:
                        sigs.append(s)
                if r.random() < 0.1:
                    sigs.append("nope/0")
                step["show"] = {"on": True, "vars": [v for v in vs if r.random() < 0.35], "sigs": sorted(set(sigs))}
            # every new variable has to occur in a fact
            seen = set()
            for rule in step["rules"]:
                if rule["h"] == "t" and not rule["b"] and not rule["g"]:
                    seen |= cons_vars(case["_cons"][rule["hs"][0] - 1])
            for v in newv:
                if v not in seen:
                    case["_cons"].append({"k": "sum", "syn": "sum", "el": [P.elem(P.var(v))], "op": "<=", "rhs": P.num(hi)})
                    step["rules"].append({"h": "t", "hs": [len(case["_cons"])], "g": [], "b": []})
            r.shuffle(step["rules"])
            step["_c0"], step["_c1"] = c0, len(case["_cons"])
            case["steps"].append(step)
            # externals
            for a in list(exts):
                if exts[a] != "none" and r.random() < 0.6:
                    v = r.choice(["true", "false", "free", "true", "false", "free", "none"])
                    exts[a] = v
                    case["steps"].append({"op": "ext", "i": a, "v": v})
            # solves
            for _ in range(1 + (r.random() < p["resolve"])):
                as_ = [[a, r.random() < 0.6] for a in range(1, pa + 1) if r.random() < p["assume"]]
                case["steps"].append({"op": "solve", "as": as_, "hasobj": hasobj})
                if p["modes"] > 0:
                    modes(r, case["steps"][-1], p["modes"])
                if p["limit"] > 0:
                    case["steps"][-1]["lim"] = r.randint(1, 3) if r.random() < p["limit"] else 0
                if exts and r.random() < 0.5:
                    a = r.choice(list(exts))
                    if exts[a] != "none":
                        v = r.choice(["true", "false", "free"])
                        exts[a] = v
                        case["steps"].append({"op": "ext", "i": a, "v": v})
            cand = 1
            for c in cards:
                cand *= max(c, 1)
            if cand > p["maxcand"]:
                return None
            work += cand * len(case["_cons"])
        if work > p["maxwork"]:
            return None
        if case["steps"][-1]["op"] != "solve":
            case["steps"].append({"op": "solve", "as": [], "hasobj": hasobj})
            if p["limit"] > 0:
                case["steps"][-1]["lim"] = 0
        part = 0
        for s in case["steps"]:
            if s["op"] == "add":
                s["part"] = "base" if part == 0 else "s%d" % part
                s["text"] = ("" if part == 0 else "#program s%d. " % part) + P.render_part(case, s, r)
                part += 1
        return case


def signature(name):
    """Signature of a variable for show statements (None if not a function)."""
    if name.startswith('"') or name.startswith("("):
        return None
    n = name.lstrip("-")
    if "(" not in n:
        return n + "/0"
    inner = n[n.index("(") + 1: -1]
    return "%s/%d" % (n[: n.index("(")], inner.count(",") + 1)


def cons_vars(c):
    out = set()

    def ex(e):
        if e["o"] == "v":
            out.add(e["v"])
        for k in ("l", "r"):
            if k in e:
                ex(e[k])

    if c["k"] == "dom":
        out.add(c["v"])
    elif c["k"] == "ranges":
        ex(c["x"])
    else:
        for e in c["el"]:
            # instances of elements may not exist and empty tasks may be dropped
            if not e["c"] and ("w" not in e or (e["w"]["o"] == "n" and e["w"]["v"] > 0)):
                ex(e["e"])
        if c["k"] == "sum":
            ex(c["rhs"])
    return out


# --- option settings --------------------------------------------------------
def options(rng, translation=True, search=True, threads=True, k=None):
    """A random setting: (clingcon options, clingo arguments)."""
    o, a = [], []
    r = rng
    b = lambda: r.choice(["yes", "no", "true", "false", "1", "0"])

    def bt(maxthr):
        return b() + ("" if r.random() < 0.6 else ",%d" % r.randint(0, maxthr))

    nthr = 1
    if threads and r.random() < 0.35:
        nthr = r.choice([2, 2, 3, 4, 8])
        a.append("-t%d%s" % (nthr, r.choice(["", ",split", ",compete"])))
    if translation:
        if r.random() < 0.6:
            o.append(("translate-clauses", r.choice(["0", "1", "2", "5", "20", "max", "1000,0", "1000,1", "1000,5", "1000,1000000", "0,0"])))
        if r.random() < 0.5:
            o.append(("translate-pb", r.choice(["0", "0.5", "1", "2", "5", "100", "-1"])))
        if r.random() < 0.35:
            o.append(("literals-only", b()))
        if r.random() < 0.5:
            o.append(("translate-distinct", r.choice(["0", "1", "3", "10", "max"])))
        if r.random() < 0.5:
            o.append(("translate-opt", r.choice(["0", "1", "5", "20", "max"])))
        if r.random() < 0.4:
            o.append(("add-order-clauses", b()))
        if r.random() < 0.4:
            o.append(("sort-constraints", b()))
        if r.random() < 0.4:
            o.append(("shift-constraints", b()))
    if search:
        for key in ("refine-reasons", "refine-introduce", "propagate-chain", "split-all"):
            while r.random() < 0.4:
                o.append((key, bt(nthr)))
        if r.random() < 0.4:
            o.append(("order-heuristic", r.choice(["none", "max-chain"]) + ("" if r.random() < 0.6 else ",%d" % r.randint(0, nthr))))
        if r.random() < 0.4:
            o.append(("sign-value", r.choice(["0", "+", "-", "min", "max", "2", "-2"]) + ("" if r.random() < 0.6 else ",%d" % r.randint(0, nthr))))
        if r.random() < 0.5:
            a.append("--seed=%d" % r.randint(1, 99))
        if r.random() < 0.3:
            a.append("--rand-freq=%s" % r.choice(["0.2", "0.8", "1.0"]))
        if r.random() < 0.15:
            # much backjumping and little learning
            a += ["--restart-on-model", "--deletion=no"] if r.random() < 0.5 else ["--restart-on-model", "--del-init=1,2", "--del-grow=0"]
        if r.random() < 0.2:
            a.append("--restarts=%s" % r.choice(["F,1", "L,2", "no", "x,1,2"]))
        if r.random() < 0.2:
            a.append("--sign-def=%s" % r.choice(["asp", "pos", "neg", "rnd"]))
        if r.random() < 0.2:
            a.append("--heuristic=%s" % r.choice(["Berkmin", "Vsids", "None", "Unit"]))
        if nthr == 1 and r.random() < 0.2:
            a.append("--configuration=%s" % r.choice(["frumpy", "tweety"]))
        if r.random() < 0.2:
            o.append(("check-state", "yes"))
    return o, a


def changes(rng, case, threads=True):
    """Changes of settings between the solve calls of a session: a list of
    [number of the call, "K" (clasp) or "O" (clingcon), key, value]."""
    out = []
    n = sum(s["op"] == "solve" for s in case["steps"])
    for k in range(1, n):
        if threads and rng.random() < 0.5:
            out.append([k, "K", "solve.parallel_mode", rng.choice(["1", "2", "3", "4", "8", "2,split", "4,split"])])
        if rng.random() < 0.2:
            out.append([k, "K", rng.choice(["solver.seed", "solver.rand_freq", "solver.sign_def", "solver.restart_on_model"]), None])
            key = out[-1][2]
            out[-1][3] = str({"solver.seed": rng.randint(1, 99), "solver.rand_freq": rng.choice(["0.0", "0.5", "1.0"]),
                              "solver.sign_def": rng.choice(["asp", "pos", "neg", "rnd"]), "solver.restart_on_model": rng.choice(["yes", "no"])}[key])
        if rng.random() < 0.4:
            o, _ = options(rng, threads=False)
            out += [[k, "O", key, v] for key, v in rng.sample(o, min(len(o), rng.randint(1, 3)))]
    return out


def grows(cfg):
    """Whether threads are added between solve calls."""
    n = max([int(x[2:].split(",")[0]) for x in cfg[1] if x.startswith("-t")] or [1])
    for x in cfg[2]:
        if x[2] == "solve.parallel_mode":
            m = int(x[3].split(",")[0])
            if m > n:
                return True
            n = m
    return False


def sane(cfg):
    """Avoid what is broken in clasp itself: lookahead (implied by the
    heuristic Unit) loses solutions with weight constraints and threads;
    threads added between solve calls get broken copies of weight constraints
    (see DESIGN.md)."""
    if len(cfg) > 2:
        o, a = sane(cfg[:2])
        if any(x[1] == "K" and x[2] == "solve.parallel_mode" for x in cfg[2]):
            a = [x for x in a if x != "--heuristic=Unit"]
        ch = cfg[2]
        if grows((o, a, ch)):
            weight = ("translate-pb", "translate-distinct")
            o = [x for x in o if x[0] not in weight] + [(x, "0") for x in weight]
            ch = [x for x in ch if x[2] not in weight]
        return o, a, ch
    o, a = cfg
    if any(x.startswith("-t") and not x.startswith("-t1") for x in a):
        a = [x for x in a if x != "--heuristic=Unit"]
    return o, a


NOTRANS = [("translate-clauses", "0"), ("translate-pb", "0"), ("translate-distinct", "0"), ("translate-opt", "0"),
           ("shift-constraints", "no")]

"""Programs: abstract syntax shared with the specification (spec/CASP.tla) and
rendering into clingcon's input language."""

import json


# --- expressions ----------------------------------------------------------
def num(v):
    return {"o": "n", "v": v}


def var(i):
    return {"o": "v", "v": i}


def par(j):
    return {"o": "p", "v": j}


def wvar(j):
    return {"o": "w", "v": j}


def op(o, l, r):
    return {"o": o, "l": l, "r": r}


def neg(l):
    return {"o": "~", "l": l}


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "%": 2, "~": 3, "^": 4, "n": 9, "v": 9, "p": 9, "w": 9}
SYM = {"+": "+", "-": "-", "*": "*", "/": "/", "%": "\\", "^": "**"}


def render_expr(e, names, pnames, rng=None):
    """Render an expression; `rng` adds redundant spaces/parentheses."""

    def sp():
        return " " if rng is None or rng.random() < 0.5 else ""

    def rec(e):
        o = e["o"]
        if o == "n":
            return str(e["v"]) if e["v"] >= 0 else "(-%d)" % -e["v"]
        if o == "v":
            return names[e["v"] - 1]
        if o == "p":
            return pnames[e["v"] - 1]
        if o == "w":
            return "v(%s)" % pnames[e["v"] - 1]
        if o == "~":
            return "(-%s)" % wrap(e["l"], 9)
        l = wrap(e["l"], PREC[o] if o not in ("^",) else 9)
        r = wrap(e["r"], 9 if o == "^" else PREC[o] + 1)
        s = SYM[o]
        # operators are lexed greedily: keep a space before a sign
        return l + sp() + s + (" " if r[0] == "-" else sp()) + r

    def wrap(e, p):
        s = rec(e)
        if PREC[e["o"]] < p and e["o"] not in ("n", "v", "p", "w", "~"):
            return "(" + s + ")"
        return s

    return rec(e)


def elem(e, c=()):
    return {"e": e, "c": list(c)}


PN = ["X", "Y", "Z", "U", "V", "W", "A", "B", "C", "D", "E", "F", "X1", "Y1", "Z1", "U1"]


class Names:
    def __init__(self, variables, atoms, tables=None):
        self.vars = variables
        self.atoms = atoms
        self.tables = tables or {}


def render_cond(c, rng=None):
    """Render a condition (see spec/CASP.tla)."""
    out = []
    for b in c:
        if b["k"] == "r":
            out.append("%s %s %s" % (render_expr(b["l"], [], PN, rng), b["op"], render_expr(b["r"], [], PN, rng)))
        else:
            args = [PN[a["v"] - 1] if a["k"] == "p" else str(a["v"]) if a["k"] == "n" else "_" for a in b["a"]]
            out.append("%st%d(%s)" % ("not " if b["k"] == "n" else "", b["f"], ",".join(args)))
    return ", ".join(out)


def render_elem(el, names, rng=None):
    e = render_expr(el["e"], names.vars, PN, rng)
    if "w" in el:
        w = render_expr(el["w"], names.vars, PN, rng)
        e = "%s @ %s" % (e, w)
    if "u" in el and el["u"] != el["e"]:
        # operators are lexed greedily
        e = "%s .. %s" % (e, render_expr(el["u"], names.vars, PN, rng))
    return "%s : %s" % (e, render_cond(el["c"], rng)) if el["c"] else e


def render_cons(c, names, rng=None):
    k = c["k"]
    if k == "sum":
        els = "; ".join(render_elem(e, names, rng) for e in c["el"])
        rhs = render_expr(c["rhs"], names.vars, PN, rng)
        return "&%s { %s } %s %s" % (c.get("syn", "sum"), els, c["op"], rhs)
    if k == "distinct":
        return "&distinct { %s }" % "; ".join(render_elem(e, names, rng) for e in c["el"])
    if k == "disjoint":
        return "&disjoint { %s }" % "; ".join(render_elem(e, names, rng) for e in c["el"])
    if k == "ranges":
        return "&dom { %s } = %s" % ("; ".join(render_elem(e, names, rng) for e in c["el"]), render_expr(c["x"], names.vars, PN, rng))
    if k == "dom":
        els = []
        for a, b in c["iv"]:
            f = lambda x: str(x) if x >= 0 else " -%d" % -x
            els.append(f(a).strip() if a == b and (rng is None or rng.random() < 0.7) else "%s..%s" % (f(a), f(b)))
        return "&dom { %s } = %s" % ("; ".join(els), names.vars[c["v"] - 1])
    raise ValueError(k)


NEG = ["", "not ", "not not "]


def render_rule(r, cons, names, rng=None):
    body = [render_cond([b], rng) for b in r["g"]]
    for b in r["b"]:
        a = names.atoms[b["i"] - 1] if b["k"] == "a" else render_cons(cons[b["i"] - 1], names, rng)
        body.append(NEG[b["n"]] + a)
    if r["g"] and rng is not None:
        rng.shuffle(body)
    h = r["h"]
    if h == "a":
        head = names.atoms[r["hs"][0] - 1]
    elif h == "c":
        head = "{ " + "; ".join(names.atoms[i - 1] for i in r["hs"]) + " }"
    elif h == "t":
        head = render_cons(cons[r["hs"][0] - 1], names, rng)
    elif h == "x":
        head = r["hd"]
    else:
        head = r.get("hd", "")
        if head == "move":
            # a symbolic literal of the body with inverted sign becomes the head
            k = next((k for k, b in enumerate(r["b"]) if b["k"] == "a"), None)
            head = ""
            if k is not None and not r["g"]:
                b = r["b"][k]
                head = ("not " if b["n"] != 1 else "not not ") + names.atoms[b["i"] - 1]
                del body[k]
    if not body:
        return head + "." if head else ":- ."
    return (head + " " if head else "") + ":- " + ", ".join(body) + "."


def render_part(case, step, rng=None):
    """Text of the statements of one part of a case (without #program)."""
    names = Names(case["vars"], case["atoms"])
    out = []
    base = step["_f0"]
    for j, t in enumerate(step["facts"]):
        out.extend("t%d(%s)." % (base + j + 1, ",".join(map(str, row))) for row in t)
    for i in step["exts"]:
        out.append("#external %s." % case["atoms"][i - 1])
    for r in step["rules"]:
        out.append(render_rule(r, case["_cons"], names, rng))
    for sgn, kw in ((1, "minimize"), (-1, "maximize")):
        els = [o for o in step["obj"] if o["s"] == sgn]
        if els:
            out.append("&%s { %s }." % (kw, "; ".join(render_elem(o["el"], names, rng) for o in els)))
    sh = step["show"]
    if sh["on"]:
        els = [names.vars[i - 1] for i in sh["vars"]] + list(sh["sigs"])
        out.append("&show { %s }." % "; ".join(els))
    return " ".join(out)


def noshow():
    return {"on": False, "vars": [], "sigs": []}

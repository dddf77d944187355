"""Random statements of the input language, with and without constraints."""


def term(r, d=2):
    k = r.random()
    if d == 0 or k < 0.45:
        return r.choice(["X", "Y", "1", "0", "-3", "a", "b", "\"s t\"", "Z", "#sup", "#inf"])
    if k < 0.6:
        return "f(%s)" % ",".join(term(r, d - 1) for _ in range(r.randint(1, 2)))
    if k < 0.7:
        return "(%s,%s)" % (term(r, d - 1), term(r, d - 1))
    if k < 0.9:
        return "(%s%s%s)" % (term(r, d - 1), r.choice(["+", "-", "*", "/", "\\", "**", "&", "?", "^"]), term(r, d - 1))
    return r.choice(["|%s|", "-f(%s)", "(%s..9)"]) % term(r, d - 1)


def atom(r):
    return r.choice(["", "", "", "-"]) + r.choice(["a", "b", "p(%s)", "q(%s,X)", "r((%s,1))", "sum(%s)", "dom(%s)"]).replace("%s", term(r))


def literal(r):
    if r.random() < 0.15:
        return "%s %s %s" % (term(r), r.choice(["<", "<=", ">", ">=", "=", "!="]), term(r))
    return r.choice(["", "", "not ", "not not "]) + atom(r)


def cond(r):
    return ": " + ", ".join(literal(r) for _ in range(r.randint(1, 2))) if r.random() < 0.5 else ""


def aggregate(r, head):
    els = "; ".join("%s %s" % (atom(r), cond(r)) for _ in range(r.randint(0, 2)))
    if head or r.random() < 0.3:
        x = "{ %s }" % els
    else:
        x = "#%s { %s }" % (r.choice(["sum", "sum+", "count", "min", "max"]),
                           "; ".join("%s,%s : %s" % (term(r, 1), term(r, 1), literal(r)) for _ in range(r.randint(1, 2))))
    return r.choice(["", "1 <= "]) + x + r.choice(["", " <= 3"])


def theory(r, names, guard=False):
    return "&%s { %s }%s" % (r.choice(names), "; ".join(
        "%s%s" % (r.choice(["x", "2*y", "f(x)-3", "(x,y)", "\"u\"", "-x"]), r.choice(["", " : a", " : p(X)", " : "])) for _ in range(r.randint(0, 2))),
        r.choice([" > x" if guard else "", " <= 3", " = z", " != 1"]))


OTHER = ["summ", "sum(1)", "sum(a,b)", "foo", "bar(x)", "dom(2)", "show(1)", "distinct(x)", "di", "su", "minimize(0)", "mysum", "diff(1)"]
OWN = ["sum", "diff", "nsum", "sum", "sum"]


def body(r, th):
    n = r.randint(0, 3)
    ls = []
    for _ in range(n):
        k = r.random()
        if k < 0.2:
            ls.append(r.choice(["", "not "]) + aggregate(r, False))
        elif k < 0.35:
            ls.append("%s : %s" % (literal(r), literal(r)))
        else:
            ls.append(literal(r))
    ls += th
    r.shuffle(ls)
    return "; ".join(ls)


def rule(r, th, head=None):
    b = body(r, th)
    k = r.random()
    if head is None:
        head = (atom(r) if k < 0.4 else aggregate(r, True) if k < 0.6 else "" if k < 0.8
                else "; ".join("%s %s" % (atom(r), cond(r)) for _ in range(2)) if k < 0.9 else "not " + atom(r))
    if not b:
        return (head or "#false") + "."
    return "%s :- %s." % (head, b)


def statement(r):
    """Text of a statement, whether it contains a constraint, and whether it contains a pool."""
    k = r.random()
    pool = False
    if k < 0.15:
        th = [r.choice(["", "not "]) + theory(r, OTHER)] if r.random() < 0.5 else []
        s, con = rule(r, th, None if th else theory(r, OTHER)), False
    elif k < 0.45:
        s, con = rule(r, []), False
    elif k < 0.65:
        if r.random() < 0.5:
            s, con = rule(r, [], theory(r, OWN + ["dom", "distinct", "disjoint", "minimize", "maximize", "show"])), True
        else:
            s, con = rule(r, [r.choice(["", "not "]) + theory(r, OWN, True)], None), True
    else:
        con = False
        t = lambda: term(r, 1)
        s = r.choice([
            lambda: "#show %s : %s." % (t(), literal(r)), lambda: "#show p/%d." % r.randint(0, 2), lambda: "#show.", lambda: "#show -p/1.",
            lambda: "#external %s : %s. [%s]" % (atom(r), literal(r), r.choice(["true", "false", "free"])), lambda: "#external %s." % atom(r),
            lambda: "#const n = %d." % r.randint(0, 9), lambda: "#const n = f(x). [override]",
            lambda: "#%s { %s@%d,%s : %s; %s }." % (r.choice(["minimize", "maximize"]), t(), r.randint(0, 3), t(), literal(r), t()),
            lambda: ":~ %s. [%s@%d,%s]" % (literal(r), t(), r.randint(0, 3), t()), lambda: ":~ %s. [%s]" % (literal(r), t()),
            lambda: "#heuristic %s : %s. [%s@%d,%s]" % (atom(r), literal(r), t(), r.randint(0, 3), r.choice(["true", "sign", "level", "init"])),
            lambda: "#edge (%s,%s) : %s." % (t(), t(), literal(r)), lambda: "#project %s : %s." % (atom(r), literal(r)), lambda: "#project p/1.",
            lambda: "#defined p/%d." % r.randint(0, 3), lambda: "#program s(x,y).", lambda: "#program step.",
            lambda: "#script (python) x = %d #end." % r.randint(0, 3),
            lambda: "#theory t%d { term { + : 1, binary, left; - : 2, unary }; &foo/%d : term, { <=, = }, term, %s }." % (
                r.randint(0, 3), r.randint(0, 1), r.choice(["any", "head", "body", "directive"])),
            lambda: "#theory t { term { }; &sum/1 : term, any }.",
        ])()
    if r.random() < 0.08 and "p(X)" in s:
        s, pool = s.replace("p(X)", "p(X;1;f(Y))"), True
    return s, con, pool

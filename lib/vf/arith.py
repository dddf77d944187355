"""Programs over expressions with large integers for spec/ArithTrace.tla."""

import random

M = 2**30 - 1
I32 = 2**31 - 1
BASE = 10000
BIN = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "\\", "pow": "**"}


def limbs(v):
    """An integer as a sequence of the specification."""
    if v == 0:
        return [0]
    r = [1 if v > 0 else -1]
    v = abs(v)
    while v:
        r.append(v % BASE)
        v //= BASE
    return r


def num(v):
    if v >= 0:
        return {"k": "num", "v": v}
    return {"k": "neg", "a": {"k": "num", "v": -v}}


def var(i):
    return {"k": "var", "i": i}


def op(k, a, b):
    return {"k": k, "a": a, "b": b}


def neg(a):
    return {"k": "neg", "a": a}


def text(e, names):
    if e["k"] == "num":
        return str(e["v"])
    if e["k"] == "var":
        return names[e["i"] - 1]
    if e["k"] == "neg":
        return "-(%s)" % text(e["a"], names)
    return "(%s) %s (%s)" % (text(e["a"], names), BIN[e["k"]], text(e["b"], names))


def spec(e):
    if e["k"] == "num":
        return {"k": "num", "v": limbs(e["v"])}
    if e["k"] == "var":
        return e
    if e["k"] == "neg":
        return {"k": "neg", "a": spec(e["a"])}
    return {"k": e["k"], "a": spec(e["a"]), "b": spec(e["b"])}


def ground(e):
    return e["k"] == "num" or e["k"] != "var" and ground(e["a"]) and ("b" not in e or ground(e["b"]))


def big(rng, calm=False):
    if calm:
        r = rng.random()
        if r < 0.45:
            return rng.choice([0, 1, 2, 3, 5, 7, -1, -2, -3, 12, -17])
        if r < 0.75:
            return rng.choice([1, -1]) * (2**rng.choice([8, 15, 16, 20, 27, 29]) + rng.choice([-1, 0, 1]))
        return rng.choice([M, M - 1, -M, -M + 1, 46341, 23171, -32768, 65536])
    r = rng.random()
    if r < 0.3:
        return rng.choice([0, 1, 2, 3, 5, 7, -1, -2, -3])
    if r < 0.45:
        return rng.choice([M, M - 1, M - 2, M + 1, -M, -M + 1, -M - 1])
    if r < 0.6:
        return rng.choice([I32, I32 - 1, -I32, 2**30 + 1, 2**29, 2**29 - 1, -2**29, 3 * 2**29])
    if r < 0.8:
        return rng.choice([1, -1]) * (2**rng.randint(8, 30) + rng.choice([-1, 0, 1]))
    if r < 0.9:
        return rng.choice([46340, 46341, -46341, 32767, 32768, 65535, 65536, 37837, 23170, 23171])
    return rng.randint(-I32, I32)


MIN = op("sub", neg({"k": "num", "v": I32}), {"k": "num", "v": 1})  # not a literal of the language


def boundary():
    """Operations around the limits of 32-bit integers and of their wrapped results."""
    out = []

    def add(k, a, b):
        out.append(op(k, *(num(x) if isinstance(x, int) else x for x in (a, b))))

    for a in (2, 3, 5, 7, 11, 256, 46340, 46341, 65536, 2**29 + 1, 2**30, I32):
        bs = {(2**31 // a) + d for d in (-1, 0, 1)} | {2**30 // a, 2**32 // a, 1}
        if a % 2:
            bs |= {pow(a, -1, 2**32), 2**32 - pow(a, -1, 2**32)}
        for b in sorted(b for b in bs if 0 < b <= I32):
            for s, t in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                add("mul", s * a, t * b)
    for k in ("add", "sub"):
        for a in (I32, I32 - 1, 2**30, M):
            for b in (0, 1, 2, I32, M, 2**30):
                for s, t in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                    add(k, s * a, t * b)
    for k in ("div", "mod"):
        for a in (0, 1, 7, 8, I32):
            for b in (0, 1, 2, 3, 8, I32):
                for s, t in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                    add(k, s * a, t * b)
    for a in (0, 1, -1, 2, -2, 3, -3, 10, -10, 1290, -1290, 1291, -1291, 46340, -46340, 46341, -46341, I32, -I32):
        for b in (-2, -1, 0, 1, 2, 3, 9, 10, 19, 20, 30, 31, 32):
            if b < 2 or abs(a) ** b < 2**64:
                add("pow", a, b)
    for k in ("add", "sub", "mul", "div", "mod", "pow"):
        for b in (-2, -1, 0, 1, 2, I32, -I32) if k != "pow" else (-1, 0, 1, 2, 3):
            add(k, MIN, b)
            if k != "pow":
                add(k, b, MIN)
    out.append(neg(MIN))
    return out


def place(rng, g, e):
    """A program whose outcome depends on the value of a ground expression."""
    try:
        v = g.value(e, [])
        v = v if abs(v) <= 2**33 else 0
    except (ZeroDivisionError, OverflowError):
        v = 0
    w = (v + 2**31) % 2**32 - 2**31
    vals = {x for x in (-1, 0, 1) if rng.random() < 0.7} | {x for d in (-1, 0, 1) for x in (v + d, w + d, -v + d, -w + d) if abs(x) <= M and rng.random() < 0.7}
    vals = sorted(vals or {0})
    cs = [{"kind": "dom", "occ": "fact", "rel": "=", "x": var(1), "els": [{"l": num(x), "r": num(x)} for x in vals]}]
    x, rel = var(1), rng.choice(["<=", "<", ">=", ">", "=", "!="])
    k = rng.randrange(9)
    if k < 3:
        c = {"kind": "sum", "rel": rel, "els": [x], "rhs": e}
    elif k == 3:
        c = {"kind": "sum", "rel": rel, "els": [x, neg(e)], "rhs": num(0)}
    elif k == 4:
        c = {"kind": "sum", "rel": rel, "els": [op("mul", e, x)], "rhs": num(0)}
    elif k == 5:
        c = {"kind": "nsum", "rel": rel, "els": [op("mul", x, x)], "rhs": e}
    elif k == 6:
        c = {"kind": "distinct", "rel": "none", "els": [x, e]}
    elif k == 7:
        c = {"kind": "dom", "rel": "=", "x": x, "els": [{"l": e, "r": e}]}
    else:
        c = {"kind": "diff", "rel": "<=", "els": [op("sub", x, x)], "rhs": e}
    if k != 6 and k != 7 and rng.random() < 0.4:
        c["occ"], c["at"] = rng.choice(["body", "if"]), 1
    else:
        c["occ"] = "fact"
    cs.append(c)
    return {"n": 1, "names": ["x"], "cs": cs, "na": 1 if "at" in c else 0, "order": rng.sample([0, 1], 2)}


class Gen:
    def __init__(self, rng, weird=0.15):
        self.rng = rng
        self.maxweird = weird

    def big(self):
        return big(self.rng, self.calm)

    def const(self, depth):
        """A ground expression."""
        rng = self.rng
        if depth == 0 or rng.random() < 0.35:
            return num(self.big())
        if rng.random() < 0.15:
            return self.wrapping()
        k = rng.choice(["add", "add", "sub", "sub", "mul", "mul", "div", "div", "mod", "pow", "neg"])
        if k == "neg":
            return neg(self.const(depth - 1))
        if k == "pow":
            b = rng.choice([-3, -2, -1, 0, 1, 2, 3, 7, 15, 29, 30, 31, 32, 33, 64])
            a = rng.choice([-10, -3, -2, -1, 0, 1, 2, 3, 7, 215, 46341, M]) if b < 8 else rng.choice([-3, -2, -1, 0, 1, 2])
            if rng.random() < 0.5:
                a, b = rng.choice([(3, 18), (-3, 17), (7, 10), (5, 12), (11, 8), (1023, 3), (-1023, 3), (32767, 2), (-32767, 2),
                                   (13, 8), (10, 9), (M, 1), (-M, 1), (1290, 3), (2, 29), (-2, 29), (6, 11), (19, 7), (100, 4)])
            return op("pow", num(a), num(b))
        return op(k, self.const(depth - 1), self.const(depth - 1))

    def wrapping(self):
        """An operation leaving 32 bits whose wrapped result is small."""
        rng = self.rng
        w = rng.choice([0, 1, -1, 2, -2, rng.randint(-20, 20)])
        k = rng.choice(["mul", "mul", "mul", "mul", "add", "sub"])
        if k == "mul":
            a = rng.choice([2, 3, 3, 5, 7, 9, 11, rng.randint(2, 300) | 1, rng.randint(2, 46340) | 1, rng.randint(46341, 10**6) | 1,
                            2**rng.randint(1, 30)])
            if a % 2 == 0:
                b = rng.choice([2**31 // a * 2, 2**30 // a * 4, I32, I32 - 1])
            else:
                b = (w * pow(a, -1, 2**32)) % 2**32
            b = (b + 2**31) % 2**32 - 2**31
            a *= rng.choice([1, -1])
            if abs(a * b) > I32 and abs(b) <= I32:
                if rng.random() < 0.5:
                    b = -b
                return op("mul", num(a), num(b)) if rng.random() < 0.5 else op("mul", num(b), num(a))
            k = "sub"
        a = rng.randint(I32 - 5, I32) * rng.choice([1, -1])
        b = rng.randint(I32 - 5, I32) * (1 if a > 0 else -1)
        return op("add", num(a), num(b)) if k == "add" else op("sub", num(a), num(-b))

    def coef(self):
        return num(self.big()) if self.rng.random() < 0.7 else self.const(2)

    def linear(self, depth):
        """An expression over variables."""
        rng = self.rng
        r = rng.random()
        if depth == 0 or r < 0.2:
            v = var(rng.randint(1, self.n))
            if rng.random() < 0.75:
                v = op("mul", self.coef(), v) if rng.random() < 0.7 else op("mul", v, self.coef())
            return v
        if r < 0.3:
            return neg(self.linear(depth - 1))
        if r < 0.4:
            return op("mul", self.coef(), self.linear(depth - 1))
        if r < 0.5:
            return self.const(2)
        if r < 0.5 + self.weird / 4:
            return op(rng.choice(["mul", "div", "mod", "pow"]), self.linear(depth - 1), self.linear(depth - 1))
        return op(rng.choice(["add", "sub"]), self.linear(depth - 1), self.linear(depth - 1))

    def product(self):
        rng = self.rng
        e = op("mul", var(rng.randint(1, self.n)), var(rng.randint(1, self.n)))
        if rng.random() < 0.6:
            e = op("mul", self.coef(), e)
        if rng.random() < self.weird / 3:
            e = op("mul", e, var(rng.randint(1, self.n)))
        return e

    def value(self, e, asg):
        k = e["k"]
        if k == "num":
            return e["v"]
        if k == "var":
            return asg[e["i"] - 1]
        if k == "neg":
            return -self.value(e["a"], asg)
        a, b = self.value(e["a"], asg), self.value(e["b"], asg)
        if k == "add":
            return a + b
        if k == "sub":
            return a - b
        if k == "mul":
            return a * b
        if k in ("div", "mod"):
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return q if k == "div" else a - b * q
        if b < 0:
            return 0 if abs(a) > 1 else (a if b % 2 else 1) if a else 1 // 0
        return a**b if b < 200 else 0

    def aim(self, els, rel):
        """A right hand side close to the value of the elements for some candidate values."""
        rng = self.rng
        asg = [rng.choice(c) for c in self.cand]
        try:
            v = sum(self.value(e, asg) for e in els)
        except (ZeroDivisionError, OverflowError):
            return num(self.big())
        if v == 0 or rng.random() < 0.15:
            return num(self.big())
        v += rng.choice([0, 0, 0, -1, 1])
        if rng.random() < 0.15:  # what a wrapped evaluation would compute
            v = (v + 2**31) % 2**32 - 2**31
        if abs(v) > I32:
            if rng.random() < 0.3:
                v = (v + 2**31) % 2**32 - 2**31
            else:
                return num(max(-I32, min(I32, v)))
        return num(v)

    def scaled(self):
        """Several constraints over few far apart values."""
        rng = self.rng
        n = self.n = rng.choice([3, 3, 4])
        names = ["x", "y", "z", "w"]
        cs, self.cand, na = [], [], 0
        s = 2**rng.choice([20, 24, 27, 27])
        for i in range(n):
            vals = sorted({min(M, max(-M, rng.randint(-7, 7) * s + rng.choice([0, 0, 1, -1]))) for _ in range(rng.choice([2, 3, 4]))})
            self.cand.append(vals)
            cs.append({"kind": "dom", "occ": "fact", "rel": "=", "x": var(i + 1), "els": [{"l": num(v), "r": num(v)} for v in vals]})
        for _ in range(rng.choice([2, 3, 4])):
            t = 2**rng.choice([0, 2, 10, 20, 27])
            els = []
            for i in rng.sample(range(n), rng.randint(2, n)):
                co = rng.choice([1, 1, -1, -1, 2, -2, 3, -3, 5]) * t + rng.choice([0, 0, 0, 1])
                els.append(op("mul", num(co), var(i + 1)))
            rhs = num(rng.choice([0, 0, rng.randint(-9, 9), rng.choice([-M, M, s, -s, 3 * s])]))
            c = {"kind": "sum", "rel": rng.choice(["<=", "<=", "<=", ">=", ">=", "<", ">", "!=", "!=", "=" if rng.random() < 0.3 else "<="]), "els": els, "rhs": rhs}
            if rng.random() < 0.15:
                c["kind"] = "nsum"
                c["els"] = [op("mul", els[0], var(rng.randint(1, n)))] + els[1:2]
            r = rng.random()
            if r < 0.4 or na >= 3:
                c["occ"] = "fact"
            else:
                na += 1
                c["at"] = na
                c["occ"] = "body" if r < 0.7 else "if"
            cs.append(c)
        order = list(range(len(cs)))
        rng.shuffle(order)
        return {"n": n, "names": names[:n], "cs": cs, "na": na, "order": order}

    def case(self):
        rng = self.rng
        if rng.random() < 0.2:
            c = self.scaled()
            if all(e["v"] <= I32 for k in c["cs"] for x in exprs(k) for e in nums(x)):
                return c
        self.n = n = rng.choice([1, 1, 2, 2, 2, 3])
        self.calm = rng.random() < 0.65
        self.weird = self.maxweird if rng.random() < 0.5 else 0
        names = ["x", "y", "z", "w", "u", "v", "p", "q", "r"]
        cs = []
        self.cand = []
        mode = rng.random()
        many = mode < 0.06
        if many:
            self.n = n = rng.choice([8, 9])
        for i in range(n):
            els = []
            vals = set()
            for _ in range(2 if many else rng.choice([1, 2, 3, 4, 5])):
                a = rng.choice([self.big(), rng.choice([M, -M, M - 1, -M + 1, 0, 1, -1]), rng.randint(-20, 20)])
                if many:
                    a = rng.choice([M, -M, 0, 1])
                if abs(a) > M and rng.random() < 0.98:
                    a = rng.randint(-9, 9)
                b = a if many or rng.random() < 0.8 else a + rng.choice([-1, 1, 2])
                if b > M and rng.random() < 0.98:
                    b = M
                els.append({"l": num(a), "r": num(b)})
                vals.update(range(a, b + 1))
            if rng.random() < 0.06 and not many:
                c = self.const(2)
                els.append({"l": c, "r": c})
            self.cand.append(sorted(vals) or [0])
            cs.append({"kind": "dom", "occ": "fact", "rel": "=", "x": var(i + 1), "els": els})
        na = 0

        def occ(c, body=True):
            nonlocal na
            r = rng.random()
            if r < 0.5 or many or na >= 3:
                c["occ"] = "fact"
            else:
                na += 1
                c["at"] = na
                c["occ"] = "body" if body and r < 0.8 else "if"
            cs.append(c)

        if rng.random() < 0.25:
            # compare a variable with an expression
            e = self.const(rng.choice([1, 1, 2, 3]))
            try:
                v = self.value(e, [])
            except (ZeroDivisionError, OverflowError):
                v = 0
            i = rng.randint(1, n)
            for w in (v - 1, v, v + 1):
                if abs(w) <= M:
                    cs[i - 1]["els"].append({"l": num(w), "r": num(w)})
            rel = rng.choice(["<=", "<", ">=", ">", "=", "=", "!="])
            if rng.random() < 0.5:
                occ({"kind": "sum", "rel": rel, "els": [var(i)], "rhs": e})
            else:
                occ({"kind": "sum", "rel": rel, "els": [var(i), neg(e)], "rhs": num(0)})
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if many or r < 0.42:
                if many:
                    co = [rng.choice([M, -M, M, M - 1, 2**29]) for _ in range(n)]
                    els = [op("mul", num(k), var(i + 1)) for i, k in enumerate(co)]
                else:
                    els = [self.linear(rng.choice([0, 1, 1, 2, 3])) for _ in range(rng.choice([1, 1, 2, 3]))]
                rel = rng.choice(["<=", "<", ">=", ">", "=", "!="])
                rhs = self.aim(els, rel)
                x = rng.random()
                if x < 0.2:
                    # constants on both sides
                    k = self.big()
                    els.append(num(k))
                    rhs = op("add", rhs, num(k))
                elif x < 0.3:
                    rhs = self.linear(1)
                if rng.random() < self.weird / 12:
                    rel = "none"
                occ({"kind": "sum", "rel": rel, "els": els, "rhs": rhs})
            elif r < 0.62:
                els = [self.product()]
                if rng.random() < 0.6:
                    els.append(self.linear(0))
                if rng.random() < 0.3:
                    els.append(self.const(1))
                if rng.random() < self.weird:
                    els.append(rng.choice([self.product, lambda: self.linear(0)])())
                rng.shuffle(els)
                rel = rng.choice(["<=", "<", ">=", ">", "=", "!="])
                occ({"kind": "nsum", "rel": rel, "els": els, "rhs": self.aim(els, rel)})
            elif r < 0.70:
                def side():
                    return var(rng.randint(1, n)) if rng.random() < 0.75 else self.const(2)
                els = [op("sub", side(), side())]
                if rng.random() < self.weird:
                    els = rng.choice([[self.linear(1)], els + els, [var(1)], [op("add", side(), side())], [neg(els[0])]])
                occ({"kind": "diff", "rel": "<=", "els": els, "rhs": self.aim(els, "<=") if rng.random() < 0.9 else self.linear(1)})
            elif r < 0.78:
                els = [self.linear(rng.choice([0, 1, 2])) for _ in range(rng.choice([2, 2, 3, 4]))]
                if rng.random() < 0.4:
                    els.append(self.aim(els[:1], "="))
                occ({"kind": "distinct", "rel": "none", "els": els}, False)
            elif r < 0.86:
                els = []
                for _ in range(rng.choice([2, 2, 3])):
                    ln = self.const(2) if rng.random() < 0.3 else num(rng.choice([self.big(), rng.randint(1, 9)]))
                    if rng.random() < 0.3 and n > 1:
                        a, b = rng.choice(self.cand[0]), rng.choice(self.cand[1])
                        ln = num(min(I32, abs(a - b) + rng.choice([-1, 0, 1])))
                    x = var(rng.randint(1, n))
                    if rng.random() < self.weird / 2:
                        x = rng.choice([num(3), op("add", x, num(1)), op("mul", num(2), x), neg(num(2))])
                    if rng.random() < self.weird / 4:
                        ln = var(rng.randint(1, n))
                    els.append({"x": x, "l": ln})
                occ({"kind": "disjoint", "rel": "none", "els": els}, False)
            elif r < 0.92:
                els = []
                for _ in range(rng.choice([1, 2, 3])):
                    a = num(rng.choice(rng.choice(self.cand))) if rng.random() < 0.6 else self.const(2)
                    try:
                        av = self.value(a, [])
                    except (ZeroDivisionError, OverflowError):
                        av = 0
                    b = num(av + rng.randint(-2, 3)) if abs(av) < I32 - 5 and rng.random() < 0.6 else a
                    els.append({"l": a, "r": b})
                x = var(rng.randint(1, n))
                rel = "="
                if rng.random() < self.weird:
                    k = rng.randrange(3)
                    if k == 0:
                        x = num(rng.randint(0, 5))
                    elif k == 1:
                        rel = "none"
                    else:
                        els[0]["r"] = x
                occ({"kind": "dom", "rel": rel, "x": x, "els": els}, False)
            else:
                # objectives; most of them with representable values
                els = []
                for _ in range(rng.choice([1, 1, 2])):
                    if rng.random() < 0.6:
                        els.append(op("mul", num(rng.choice([1, 2, -1, 3, -7])), var(rng.randint(1, n))))
                    else:
                        els.append(self.linear(1))
                if rng.random() < 0.3:
                    els.append(self.const(1))
                cs.append({"kind": rng.choice(["min", "max"]), "occ": "fact", "rel": "none", "els": els})
        if rng.random() < self.weird / 3:
            x = var(rng.randint(1, n))
            cs.append({"kind": "show", "occ": "fact", "rel": "none",
                       "els": [rng.choice([x, num(3), op("add", x, num(1)), op("mul", x, num(2)), neg(num(1)), op("add", num(1), num(2))])]})
        width = 0
        for c in cs:
            if c["kind"] == "dom":
                for e in c["els"]:
                    try:
                        width = max(width, self.value(e["r"], []) - self.value(e["l"], []))
                    except (IndexError, ZeroDivisionError, OverflowError):
                        pass
        if width > 40:
            return self.case()
        for c in cs:
            for e in exprs(c):
                if not bounded(self, e):
                    return self.case()
        order = list(range(len(cs)))
        rng.shuffle(order)
        return {"n": n, "names": names[:n], "cs": cs, "na": na, "order": order}


def exprs(c):
    for e in c["els"]:
        if "k" in e:
            yield e
        else:
            for x in e.values():
                yield x
    if "rhs" in c:
        yield c["rhs"]


def nums(e):
    if e["k"] == "num":
        yield e
    for x in ("a", "b"):
        if x in e:
            yield from nums(e[x])


def bounded(g, e):
    """Literals fit into the input language and constants stay of reasonable size."""
    if e["k"] == "num":
        return e["v"] <= I32
    if e["k"] == "var":
        return True
    if not all(bounded(g, e[x]) for x in ("a", "b") if x in e):
        return False
    if ground(e):
        try:
            return abs(g.value(e, [])) < 2**100
        except (ZeroDivisionError, OverflowError):
            return True
    return True


def program(case):
    names = case["names"]
    out = []

    def t(e):
        return text(e, names)

    for j in case["order"]:
        c = case["cs"][j]
        if c["kind"] == "dom":
            els = "; ".join(t(e["l"]) if e["l"] == e["r"] else "(%s) .. (%s)" % (t(e["l"]), t(e["r"])) for e in c["els"])
        elif c["kind"] == "disjoint":
            els = "; ".join("%s @ (%s)" % (t(e["x"]), t(e["l"])) for e in c["els"])
        else:
            els = "; ".join(t(e) for e in c["els"])
        kind = {"min": "minimize", "max": "maximize"}.get(c["kind"], c["kind"])
        atom = "&%s { %s }" % (kind, els)
        if c["kind"] == "dom":
            if c["rel"] != "none":
                atom += " = %s" % t(c["x"])
        elif "rhs" in c and c["rel"] != "none":
            atom += " %s (%s)" % (c["rel"], t(c["rhs"]))
        if c["occ"] == "fact":
            out.append(atom + ".")
        elif c["occ"] == "body":
            out.append("a%d :- %s." % (c["at"], atom))
        else:
            out.append("{a%d}." % c["at"])
            out.append("%s :- a%d." % (atom, c["at"]))
    return "\n".join(out) + "\n"


def spec_cons(case):
    res = []
    for c in case["cs"]:
        d = {k: v for k, v in c.items() if k in ("kind", "occ", "rel", "at")}
        d["els"] = [spec(e) if "k" in e else {k: spec(x) for k, x in e.items()} for e in c["els"]]
        if "rhs" in c:
            d["rhs"] = spec(c["rhs"])
        if "x" in c:
            d["x"] = spec(c["x"])
        res.append(d)
    return res


def observe(case, evs):
    """The recorded outcome as an observation of the specification; None if there is none."""
    kinds = [e["e"] for e in evs]
    if "timeout" in kinds:
        return None
    for e in evs:
        if e["e"] == "crash":
            return {"e": "crash"}
        if e["e"] == "error":
            return {"e": "reject"}
    for e in evs:
        if e["e"] == "solve":
            if e["overflow"]:
                return {"e": "overflow"}
            ms = []
            for m in e["models"]:
                mask = sum(1 << (int(a[1:]) - 1) for a in m["atoms"] if a[0] == "a")
                api = {x[0]: x[1] for x in m["api"]}
                if sorted(api) != sorted(case["names"]) or len(api) != len(m["api"]):
                    return {"e": "variables"}
                if len(m["csp"]) != len(case["names"]) and not any(c["kind"] == "show" for c in case["cs"]):
                    return {"e": "shown"}
                if any(api[k] != v for k, v in m["csp"]):
                    return {"e": "shown"}
                cost = [limbs(int(x)) for x in (m["cost"] or m["opt"])]
                ms.append({"m": mask, "v": [limbs(api[k]) for k in case["names"]], "cost": cost})
            if not any(c["kind"] in ("min", "max") for c in case["cs"]):
                ms.sort(key=lambda m: (m["m"], m["v"]))
            return {"e": "models", "ms": ms, "ex": e["exhausted"], "sat": e["sat"]}
    return {"e": "incomplete"}

"""Building blocks for generating programs: values, labels, frames and expressions.

Expressions are generated together with bounds on their values and denominators, so that the exact arithmetic of the
specification stays within the 32-bit integers of TLC.
"""
from __future__ import annotations

from math import lcm

from vals import NAN, NINF, boolean, num, text


def T(s):
    return text(s)


def names(path):
    return [text(p) for p in path]


def lit(n, d=1, kind=None):
    """A number as an expression (negative ones are a minus sign and a literal)"""
    if n < 0:
        return ["un", "-", lit(-n, d, kind)]
    return ["num", num(n, d), kind or ("i" if n % d == 0 else "f")]


def tlit(s):
    return ["num", text(s), "s"]


def small(r, lo=-4, hi=6, den=2):
    """A small rational"""
    return num(r.randint(lo * den, hi * den), den)


def values(r, kind, n, lo=-4, hi=6, nulls=0.0, words=("red", "blue", "green", "a", "ab", "abc")):
    """Values for a column of some kind"""
    out = []
    for _ in range(n):
        if nulls and kind in ("f", "s", "c", "t", "Int64", "n", "f4", "f2", "string", "ci") and r.random() < nulls:
            out.append(NAN)
        elif kind in ("i", "i4", "i2", "i1", "Int64", "n", "o", "ci"):
            out.append(num(r.randint(lo, hi)))
        elif kind[0] == "u":
            out.append(num(r.randint(0, hi)))
        elif kind in ("f", "f4", "f2"):
            out.append(small(r, lo, hi, r.choice((1, 2, 4))))
        elif kind in ("b", "cb"):
            out.append(boolean(r.random() < 0.5))
        elif kind in ("s", "c", "string"):
            out.append(text(r.choice(words)))
        elif kind == "t":
            out.append(num(r.randint(0, 40)))
        else:
            raise ValueError(kind)
    return out


def int_labels(r, n, lo=1, hi=60):
    return [[num(x)] for x in r.sample(range(lo, hi), n)]


def labels(r, n, form=None):
    """Distinct row labels: integers in no order, ranges, text, pairs"""
    form = form or r.choice(("int", "int", "range", "text", "pair", "mixed"))
    if form == "int":
        return int_labels(r, n)
    if form == "range":
        start = r.choice((0, 0, 1, 5))
        return [[num(start + k)] for k in range(n)]
    if form == "text":
        return [[text(x)] for x in r.sample(["u", "v", "w", "x1", "x2", "yy", "zed", "h10", "h9", "Q"], n)]
    pairs = [(a, b) for a in (1, 2, 3, 10) for b in (1, 2, 3)]
    got = r.sample(pairs, n)
    if form == "pair":
        return [[num(a), num(b)] for a, b in got]
    return [[num(a), text("n%d" % b)] for a, b in got]


def frame(id, idx, cols, inames=None, ldf=True, dt=None):
    """cols: [(name, kind, values)]"""
    n = len(idx[0]) if idx else 1
    return {"op": "frame", "dom": "frame", "id": id, "cols": [c for c, _, _ in cols], "kind": {c: k for c, k, _ in cols},
            "data": {c: v for c, _, v in cols}, "idx": idx, "inames": inames or ["ix%d" % k for k in range(n)], "ldf": ldf,
            "dt": dt or {}}


def lname(s):
    return {"k": "name", "v": s, "n": 0}


def lpos(n):
    return {"k": "pos", "v": "", "n": n}


def link(f, target, name, precompute=True, scalar=True, **args):
    full = {k: [] for k in ("on", "levels", "on_self", "on_other", "self_levels", "other_levels")}
    for k, v in args.items():
        full[k] = [lname(x) if isinstance(x, str) else lpos(x) for x in (v if isinstance(v, (list, tuple)) else [v])]
    return {"op": "link", "dom": "frame", "f": f, "target": target, "name": name, "args": full, "precompute": precompute,
            "scalar": scalar, "ident": name.isidentifier()}


# ---------------------------------------------------------------------------------------------------------------------
# Expressions

class Leaf:
    """Something an expression can refer to. nan: whether it can be not-a-number"""

    def __init__(self, ast, kind, bound=6, den=4, nan=False, nonneg=False, words=(), symbols=()):
        self.ast, self.kind, self.bound, self.den, self.nan, self.nonneg = ast, kind, bound, den, nan, nonneg
        self.words = words
        self.symbols = symbols


class X:
    """A numeric expression with its bounds"""

    def __init__(self, ast, bound, den, integer=False, nonneg=False, positive=False):
        self.ast, self.bound, self.den, self.integer, self.nonneg, self.positive = ast, bound, den, integer, nonneg, positive


NULLS = ("nan", "NaN", "NAN", "None", "none", "NONE", "Nan", "nAn")
CMP = ("<", "<=", ">", ">=", "==", "!=")


class ExprGen:
    """Generates expressions over given leaves"""

    def __init__(self, r, leaves, funcs=True, dyadic=False):
        self.r, self.leaves, self.funcs, self.dyadic = r, leaves, funcs, dyadic

    def pick(self, kinds, nan=False):
        c = [x for x in self.leaves if x.kind in kinds and (nan or not x.nan)]
        return self.r.choice(c) if c else None

    def number(self, bound=8):
        r = self.r
        k = r.random()
        if k < 0.5:
            n = r.randint(0, min(5, bound))
            return X(lit(n), n, 1, True, True, n > 0)
        n, d = r.randint(0, min(5, bound) * 2), r.choice((1, 2, 4))
        return X(["num", num(n, d), "f"], n / d, d, False, True, n > 0)

    def leaf(self, bound, den):
        x = self.pick(("i", "u", "f"))
        if x is None or self.r.random() < 0.25:
            return self.number(bound)
        if x.bound > bound or (den and x.den > den):
            return self.number(bound)
        return X(x.ast, x.bound, x.den, x.kind in ("i", "u"), x.nonneg)

    def num(self, depth, bound=8, den=64):
        """A number in every cell, of absolute value up to bound"""
        r = self.r
        if depth <= 0 or r.random() < 0.15:
            return self.leaf(bound, den)
        k = r.choice(("+", "+", "-", "-", "*", "*", "/", "neg", "where", "call", "pow", "mod", "boolmul", "guard"))
        if k in ("+", "-"):
            a, b = self.num(depth - 1, bound, den), self.num(depth - 1, bound, den)
            if a.bound + b.bound <= bound and lcm(a.den, b.den) <= den:
                return X(["bin", k, a.ast, b.ast], a.bound + b.bound, lcm(a.den, b.den), a.integer and b.integer,
                         k == "+" and a.nonneg and b.nonneg)
        elif k == "*":
            a, b = self.num(depth - 1, bound, den), self.num(depth - 1, bound, den)
            if a.bound * b.bound <= bound and a.den * b.den <= den:
                return X(["bin", "*", a.ast, b.ast], a.bound * b.bound, a.den * b.den, a.integer and b.integer,
                         a.nonneg and b.nonneg)
        elif k == "/":
            a = self.num(depth - 1, bound, den)
            d = r.choice((2, 4, 2) if self.dyadic else (2, 4, 5, 3, 8))
            if a.den * d <= den:
                kind = r.choice(("i", "f"))
                return X(["bin", "/", a.ast, ["num", num(d), kind]], a.bound / d, a.den * d, False, a.nonneg)
        elif k == "neg":
            a = self.num(depth - 1, bound, den)
            return X(["un", "-", a.ast], a.bound, a.den, a.integer)
        elif k == "where" and self.funcs:
            c = self.boolean(depth - 1)
            a, b = self.num(depth - 1, bound, den), self.num(depth - 1, bound, den)
            if lcm(a.den, b.den) <= den:
                return X(["call", "where", [c, a.ast, b.ast]], max(a.bound, b.bound), lcm(a.den, b.den),
                         a.integer and b.integer, a.nonneg and b.nonneg)
        elif k == "call" and self.funcs:
            a = self.num(depth - 1, bound, den)
            f = r.choice(("abs", "floor", "ceil", "maximum", "minimum", "sqrt", "sign", "explog", "trunc", "round", "fmod", "log10"))
            if f == "abs":
                return X(["call", "abs", [a.ast]], a.bound, a.den, a.integer, True)
            if f in ("floor", "ceil") and not a.integer:
                return X(["call", f, [a.ast]], a.bound + 1, 1, False)
            if f in ("maximum", "minimum"):
                b = self.num(depth - 1, bound, den)
                if lcm(a.den, b.den) <= den:
                    return X(["call", f, [a.ast, b.ast]], max(a.bound, b.bound), lcm(a.den, b.den), a.integer and b.integer)
            if f == "sqrt" and a.bound <= bound and not self.dyadic:
                return X(["call", "sqrt", [["bin", "*", a.ast, a.ast]]], a.bound, a.den, False, True) if a.den <= 8 and a.bound < 40 \
                    else a
            if f == "explog" and not self.dyadic and a.bound + 1 <= bound:
                b = a.ast if a.positive else ["bin", "+", ["call", "abs", [a.ast]], lit(1)]
                return X(["call", "exp", [["call", "log", [b]]]], a.bound + 1, a.den, False, True, True)
            if f in ("trunc", "round") and not a.integer:
                return X(["call", f, [a.ast]], a.bound + 1, 1, False)
            if f == "fmod" and not a.integer:
                return X(["call", "fmod", [a.ast, lit(r.choice((2, 3, 1)))]], a.bound, a.den, False)
            if f == "log10":
                return X(["call", "log10", [["call", "where", [self.boolean(depth - 1), lit(100, 1, "f"), lit(10, 1, "f")]]]],
                         2, 1, False, True, True)
            if f == "sign" and not a.integer:
                return X(["call", "sign", [a.ast]], 1, 1, False)
            return a
        elif k == "pow":
            a = self.leaf(bound, den)
            e = r.choice((2, 2, 3, 1, 0))
            if a.bound ** max(e, 1) <= bound and a.den ** max(e, 1) <= den and (a.bound > 0 or e > 0):
                base = a.ast if a.integer and e >= 0 else ["bin", "+", a.ast, ["num", num(0), "f"]]
                return X(["bin", "**", base, lit(e)], max(1, a.bound ** e), a.den ** max(e, 1), a.integer)
        elif k == "mod":
            x = self.pick(("i", "u"))
            if x is not None and x.nonneg:
                d = r.choice((2, 3, 4))
                return X(["bin", r.choice(("%", "//")), x.ast, lit(d)], max(d, x.bound), 1, True, True)
        elif k == "boolmul":
            c = self.boolean(depth - 1)
            a = self.num(depth - 1, bound, den)
            pair = [c, a.ast] if r.random() < 0.6 else [a.ast, c]
            return X(["bin", "*", *pair], a.bound, a.den, a.integer, a.nonneg)
        elif k == "guard":
            x = self.pick(("f",), nan=True)
            if x is not None and x.nan and x.bound <= bound and x.den <= den and self.funcs:
                o = self.number(bound)
                form = r.choice(("isnan", "neq", "eq"))
                if form == "isnan":
                    return X(["call", "where", [["call", "isnan", [x.ast]], o.ast, x.ast]], max(x.bound, o.bound), lcm(x.den, o.den))
                if form == "neq":
                    return X(["call", "where", [["cmp", ["!="], [x.ast, x.ast]], o.ast, x.ast]], max(x.bound, o.bound),
                             lcm(x.den, o.den))
                return X(["call", "where", [["cmp", ["=="], [x.ast, x.ast]], x.ast, o.ast]], max(x.bound, o.bound),
                         lcm(x.den, o.den))
        return self.leaf(bound, den)

    def boolean(self, depth):
        """A boolean in every cell"""
        r = self.r
        if depth <= 0:
            x = self.pick(("b",))
            if x is not None and r.random() < 0.4:
                return x.ast
            return self.comparison(0)
        k = r.choice(("cmp", "cmp", "chain", "text", "and", "or", "not", "&", "|", "^", "nan"))
        if k == "chain":
            n = r.randint(3, 5)
            vs = [self.num(depth - 1 if n < 4 else 0, 20, 16).ast for _ in range(n)]
            for k in range(1, n):
                if constant(vs[k - 1]) and constant(vs[k]):
                    vs[k] = self.variable()
            return ["cmp", [r.choice(("<", "<=", "<", "<=", "==", "!=", ">", ">=")) for _ in range(n - 1)], vs]
        if k == "text":
            t = self.text_test()
            if t is not None:
                return t
        if k in ("and", "or"):
            return ["bool", k, [self.boolean(depth - 1) for _ in range(r.randint(2, 4))]]
        if k == "not":
            return ["un", "not", self.boolean(depth - 1)]
        if k in "&|^":
            return ["bin", k, self.boolean(depth - 1), self.boolean(depth - 1)]
        if k == "nan":
            x = self.pick(("f",), nan=True)
            if r.random() < 0.4:
                y = self.variable()
                null = ["nan", r.choice(NULLS)]
                return ["cmp", [r.choice(CMP)], [y, null] if r.random() < 0.5 else [null, y]]
            if x is not None:
                return ["call", "isnan", [x.ast]] if r.random() < 0.5 else ["cmp", [r.choice(CMP)], [x.ast, self.number().ast]]
        return self.comparison(depth - 1)

    def variable(self):
        """Something whose value is not known when the expression is read: comparisons of literals only are a single
        Python bool for numexpr, which it cannot combine with others."""
        x = self.pick(("i", "u", "f"))
        return x.ast if x is not None else self.number().ast

    def comparison(self, depth):
        a, b = self.num(depth, 20, 16).ast, self.num(depth, 20, 16).ast
        if constant(a) and constant(b):
            if self.r.random() < 0.5:
                a = self.variable()
            else:
                b = self.variable()
        return ["cmp", [self.r.choice(CMP)], [a, b]]

    def text_test(self):
        r = self.r
        x = self.pick(("s", "c"))
        if x is None:
            return None
        word = r.choice(x.words or ("red", "blue", "a", "ab"))
        word = r.choice((word, word, word + "x", word[:-1] or "z", "zzz"))
        if r.random() < 0.15:
            return ["call", "contains", [x.ast, tlit(r.choice((word, "a", "re")) or "a")]]
        op = r.choice(("==", "==", "!=", "<", "<=", ">", ">="))
        y = self.pick(("s", "c"))
        other = y.ast if y is not None and r.random() < 0.25 else tlit(word)
        pair = [x.ast, other] if r.random() < 0.7 else [other, x.ast]
        return ["cmp", [op], pair]


def constant(e):
    """Whether an expression refers to nothing"""
    if isinstance(e, list):
        return e[:1] not in (["sym"], ["attr"], ["agg"], ["col"], ["dict"]) and all(constant(x) for x in e)
    return True


def size(e):
    return sum(size(x) for x in e if isinstance(x, list)) + 1 if isinstance(e, list) else 0

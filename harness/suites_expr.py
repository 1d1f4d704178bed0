"""The suites of programs for the properties of expressions."""
from __future__ import annotations

import io
import itertools
import tokenize

from astlib import source
from common import rng
from gen_model import ModelGen
from genlib import *
from vals import NAN, NINF, boolean, num, text


def spaced(s):
    """The same text with its tokens apart"""
    return " ".join(t.string for t in tokenize.generate_tokens(io.StringIO(s).readline) if t.string.strip())


def rendered(r, x):
    """Another way to write an expression: more parentheses or blanks, other quotes"""
    if x["flt"]:
        return x
    k = r.random()
    s = source(x["ast"])
    if k < 0.12:
        x["raw"] = "(%s)" % s
    elif k < 0.24:
        x["raw"] = spaced(s)
    elif k < 0.34 and "'" in s and '"' not in s:
        x["raw"] = s.replace("'", '"')
    elif k < 0.4:
        x["raw"] = s + "  "
    elif k < 0.46:
        x["raw"] = "((%s))" % spaced(s)
    return x


# ---------------------------------------------------------------------------------------------------------------------
# C07 Expressions mean what Python says

def c07_random(n):
    out = []
    for k in range(n):
        r = rng("C07", k)
        g = ModelGen(r, "expressions-%d" % k)
        g.tree(r.choice((1, 1, 2)), 5)
        g.units(r.choice((2, 3, 4)))
        g.symbols(r.randint(2, 4))
        if r.random() < 0.7:
            g.vector("f", nulls=0.4)
        if r.random() < 0.5:
            g.vector(r.choice("sc"))
        for _ in range(9):
            g.op("clear_exprs")
            gen = g.gen()
            if r.random() < 0.5:
                ast = gen.boolean(r.choice((2, 3, 3)))
            else:
                ast = gen.num(r.choice((2, 3, 4)), r.choice((10, 30, 100)), 64 if g.single else 128).ast
            if size(ast) > 160:
                ast = gen.boolean(1)
            g.op("append", x=rendered(r, g.expr(ast)), setter=False)
            g.run(check=False)
        out.append(g.program())
    return out


# Operators: name -> (types of the operands, type of the result)
ARITH = ("+", "-", "*", "/", "%", "//")
BITS = ("&", "|", "^")
TYPES = {**{o: ("nn", "n") for o in ARITH}, **{o: ("bb", "b") for o in BITS}, "and": ("bb", "b"), "or": ("bb", "b"),
         "and3": ("bbb", "b"), "or3": ("bbb", "b"), "not": ("b", "b"), "neg": ("n", "n"), "sq": ("n", "n"), "two": ("n", "n"),
         "<": ("nn", "b"), "==": ("nn", "b"), "!=": ("nn", "b"), ">=": ("nn", "b"), "chain": ("nnn", "b"),
         "chain4": ("nnnn", "b"), "b*": ("bn", "n"), "where": ("bnn", "n"), "abs": ("n", "n"), "max": ("nn", "n")}


def make(op, kids):
    if op in ARITH or op in BITS:
        return ["bin", op, *kids]
    if op == "b*":
        return ["bin", "*", *kids]
    if op in ("and", "or", "and3", "or3"):
        return ["bool", op.rstrip("3"), kids]
    if op == "not":
        return ["un", "not", kids[0]]
    if op == "neg":
        return ["un", "-", kids[0]]
    if op == "sq":
        return ["bin", "**", kids[0], lit(2)]
    if op == "two":
        return ["bin", "**", lit(2), kids[0]]
    if op in ("<", "==", "!=", ">="):
        return ["cmp", [op], kids]
    if op == "chain":
        return ["cmp", ["<", "<="], kids]
    if op == "chain4":
        return ["cmp", [">", "!=", "<"], kids]
    return ["call", {"where": "where", "abs": "abs", "max": "maximum"}[op], kids]


def bad_pair(outer, at, inner):
    """Combinations that divide by zero or raise to powers that are not small whole numbers"""
    if outer in ("%", "//", "/") and at == 1 and inner in ("%", "neg", "b*"):
        return True
    if outer in ("%", "//") and inner in ("neg", "/"):
        return True
    if outer == "two" and inner not in ("+", "-", "//", "%", "abs", "max", "where"):
        return True
    return False


def shapes():
    """All pairs of operators, one as each operand of the other, and some triples"""
    nleaf = [["sym", "p"], ["sym", "q"], ["sym", "w"], ["sym", "z"], ["sym", "o"]]
    bleaf = [["sym", "y"], ["sym", "v"], ["sym", "g"], ["sym", "h"]]
    out = []

    class Leaves:
        def __init__(self):
            self.n, self.b = iter(nleaf * 3), iter(bleaf * 3)

        def __call__(self, t):
            return next(self.n) if t == "n" else next(self.b)

    for outer, (ts, _) in TYPES.items():
        for at, t in enumerate(ts):
            for inner, (us, rt) in TYPES.items():
                if rt != t or bad_pair(outer, at, inner):
                    continue
                leaf = Leaves()
                kids = [make(inner, [leaf(u) for u in us]) if m == at else leaf(x) for m, x in enumerate(ts)]
                out.append(make(outer, kids))
    # Both operands composed, of boolean and comparison operators
    two = [o for o in ("and", "or", "&", "|", "^", "not", "<", "==", "chain")]
    for outer in ("and", "or", "&", "|", "^", "and3", "or3"):
        for a, b in itertools.product(two, two):
            leaf = Leaves()
            ts = TYPES[outer][0]
            kids = [make(a, [leaf(u) for u in TYPES[a][0]]), make(b, [leaf(u) for u in TYPES[b][0]])]
            kids += [leaf(x) for x in ts[2:]]
            out.append(make(outer, kids))
    for a, b in itertools.product(ARITH[:4], ARITH[:4]):
        for outer in ("<", "chain", "==", "neg", "sq", "-", "*"):
            leaf = Leaves()
            n = len(TYPES[outer][0])
            inner = make(a, [make(b, [leaf("n"), leaf("n")]), leaf("n")])
            inner2 = make(a, [leaf("n"), make(b, [leaf("n"), leaf("n")])])
            for x in (inner, inner2):
                out.append(make(outer, [leaf("n")] * (n - 1) + [x] if n > 1 else [x]))
    return out


def c07_shapes(stride):
    """Every pair of operators in every position, over a few decision units"""
    r = rng("C07s")
    todo = shapes()
    if stride > 1:
        r.shuffle(todo)
        todo = todo[:len(todo) // stride]
    out = []
    for k in range(0, len(todo), 12):
        g = ModelGen(rng("C07s", k), "shapes-%d" % k)
        g.add(("A",))
        g.add(("B",))
        n = 4
        g.set_du([[num(x)] for x in (3, 1, 7, 5)], "list")
        # The numbers go down from one to the next, so that differences are positive
        for name, lo, hi in (("p", 8, 9), ("q", 4, 6), ("w", 2, 3), ("z", 1, 1), ("o", 5, 7)):
            g.declare(name, "vector")
            g.assign(name, {"t": "series", "dt": "i", "v": [num(g.r.randint(lo, hi)) for _ in range(n)], "idx": g.du})
        for m, name in enumerate("yvgh"):
            g.declare(name, "vector")
            bits = [boolean(b) for b in ((0, 0, 1, 1), (0, 1, 0, 1), (0, 1, 1, 0), (1, 0, 0, 1))[m]]
            g.assign(name, {"t": "array", "dt": "b", "v": bits, "idx": []})
        for ast in todo[k:k + 12]:
            g.op("clear_exprs")
            g.append(ast)
            g.run(check=False)
        out.append(g.program(den=20000))
    return out


def c07_names(n):
    """Attributes and names that look alike"""
    out = []
    for k in range(n):
        r = rng("C07n", k)
        g = ModelGen(r, "names-%d" % k)
        g.add(("A",))
        g.add(("B",))
        g.units(r.randint(2, 3), "int")
        base = r.choice(("t", "x", "t1"))
        tables = [base, base + "1", base + "_1"][:r.randint(2, 3)]
        leaves = []
        for t in tables:
            cols = []
            for c in range(r.choice((3, 13, 23))):
                kind = r.choice(("i", "f"))
                col, leaf = g.column(kind, len(g.du), [t], "c%d" % c)
                cols.append(col)
                leaves.append(leaf)
            g.nframes += 1
            fid = "F%d" % g.nframes
            g.ops.append(frame(fid, g.du, cols, ldf=r.random() < 0.5))
            g.declare(t, "table")
            g.assign(t, {"t": "table", "fid": fid})
        for name in r.sample((base + "_c0", base + "_0", "c0", "__x", "e", "NaNs", "nano", "nones"), 3):
            g.vector("i", 0, name=name)
            leaves.append(g.leaves[-1])
        for _ in range(5):
            g.op("clear_exprs")
            xs = r.sample(leaves, min(len(leaves), r.choice((2, 14, 20))))
            xs += r.sample(xs, len(xs) // 3)
            ast = xs[0].ast
            for m, x in enumerate(xs[1:]):
                ast = ["bin", r.choice("+-"), ast, ["bin", "*", x.ast, lit(m % 3 + 1)]]
            g.append(ast)
            if r.random() < 0.4:
                g.append(["bin", "*", r.choice(leaves).ast, r.choice(leaves).ast])
            g.run(check=False)
        out.append(g.program())
    return out


# ---------------------------------------------------------------------------------------------------------------------
# C08 What cannot be evaluated is rejected on entry, without a trace

BAD = ("ifexp", "subscript", "listcomp", "dictcomp", "starred", "badfunc", "badagg", "kwagg", "baddictval", "baddicttext",
       "baddictneg", "baddictkey", "attrofcall", "baddictinv", "baddictnot", "baddictname", "baddictdict", "baddictlater",
       "baddictspread", "setcomp", "generator", "list", "tuple", "stragg", "callattr", "manyargs",
       "is", "isnot", "in", "notin", "thenis", "uadd", "invert", "baddictcomplex")
ARITY = {"ifexp": 3, "subscript": 2, "listcomp": 2, "dictcomp": 2, "setcomp": 2, "generator": 2, "list": 2, "tuple": 2, "manyargs": 2,
         "is": 2, "isnot": 2, "in": 2, "notin": 2, "thenis": 3}
BROKEN = ("a +", "(a", "a b", "1 +* 2", "a = 1", "", "a; b", "lambda", "a.", "a[", "x == ", "'abc", "a and", "not", "def f(): 1",
          "import os", "a, (", "return a")


def positions(e):
    """The places of the parts of an expression"""
    out = []
    if e[0] in ("bin",):
        out = [(2,), (3,)]
    elif e[0] == "un":
        out = [(2,)]
    elif e[0] in ("cmp", "bool", "call"):
        out = [(2, k) for k in range(len(e[2]))]
    deeper = []
    for p in out:
        sub = e
        for k in p:
            sub = sub[k]
        deeper += [p + q for q in positions(sub)]
    return out + deeper


def replaced(e, path, new):
    if not path:
        return new
    e = list(e)
    e[path[0]] = replaced(e[path[0]], path[1:], new)
    return e


def c08_rejections(n):
    out = []
    for k in range(n):
        r = rng("C08", k)
        g = ModelGen(r, "rejections-%d" % k)
        g.tree(r.choice((1, 1, 2)), 5)
        g.units(r.choice((1, 2)), "int")
        g.symbols(r.randint(1, 3))
        if not any(x.ast[0] == "attr" for x in g.leaves):
            g.table()
        tables = sorted({x.symbols[0] for x in g.leaves if x.ast[0] in ("attr", "agg")})
        plain = sorted({x.symbols[0] for x in g.leaves if x.ast[0] == "sym"})
        fresh = ["u1", "u2", "u3"]
        for step in range(r.randint(8, 14)):
            gen = g.gen()
            what = r.random()
            grp = r.choice(("", "", "g1", "g1", "g2"))
            x = None
            if what < 0.22:
                x = g.random_expr(r.choice((1, 2)), grp=grp)
            elif what < 0.5:
                # Something unsupported somewhere in an expression, with names of its own before and after it
                host = gen.boolean(2) if r.random() < 0.4 else gen.num(2, 10).ast
                kind = r.choice(BAD)
                inner = [r.choice((["sym", r.choice(fresh)], ["attr", [r.choice(fresh), "q"]], gen.num(1).ast))
                         for _ in range(ARITY.get(kind, 1))]
                where = r.choice(positions(host) or [()])
                ast = replaced(host, where, ["bad", kind, inner])
                if r.random() < 0.6:
                    f = r.choice(fresh)
                    extra = ["sym", f] if r.random() < 0.5 else ["attr", [f, "q"]]
                    ast = ["bin", "+", extra, ast] if r.random() < 0.6 else ["bin", "+", ast, extra]
                x = g.expr(ast, r.choice(g.nodes) if r.random() < 0.2 else (), grp, at=" @ ")
            elif what < 0.58:
                x = g.expr(["bad", "text", []], (), grp, raw=r.choice(BROKEN))
            elif what < 0.65:
                x = g.expr(gen.num(1).ast, r.choice(g.nodes), grp, nat=r.choice((2, 3)))
                x["tail"] = r.choice((" @ A", " @", "@", " @ ", "@A", " @" + r.choice(("A", "B", "nobody", "_"))))
            elif what < 0.9:
                # A name in the other role, or in both at once
                how = r.random()
                f = r.choice(fresh)
                if how < 0.25:
                    ast = ["bin", r.choice("+*"), *r.sample([["sym", f], ["attr", [f, "q"]]], 2)]
                elif how < 0.5:
                    ast = ["bin", "*", ["sym", r.choice(tables)], gen.num(0).ast]
                elif how < 0.75 and plain:
                    ast = ["bin", "+", gen.num(1).ast, ["attr", [r.choice(plain), "q"]]]
                elif how < 0.85:
                    ast = ["agg", [f, "l"], "sum", ["sym", "x"]]
                else:
                    ast = ["sym", f] if r.random() < 0.5 else ["attr", [f, "q"]]
                x = g.expr(ast, (), grp)
            elif what < 0.95:
                g.op("drop_group", g=r.choice(("g1", "g2")))
            else:
                g.op("clear_exprs")
            if x is not None:
                g.op("append", x=x, setter=not x["grp"] and r.random() < 0.2)
            if r.random() < 0.15:
                k_ = r.choice(("number", "vector", "table", "matrix"))
                g.declare(r.choice(("NAN", "OUT", "NEG_INF")), k_)
            if r.random() < 0.3:
                g.op("validate", g=r.choice(("", "g1")))
            if r.random() < 0.2:
                g.run()
        g.run(check=False)
        # Back to a good state
        g.op("clear_exprs")
        for grp in ("g1", "g2"):
            g.op("drop_group", g=grp)
        g.append(["bin", "+", ["attr", [tables[0], "a"]], lit(1)] if False else g.gen().num(2).ast)
        g.run(check=False)
        for f in r.sample(fresh, 2):
            g.append(["sym", f] if r.random() < 0.5 else ["attr", [f, "q"]])
        g.op("validate", g="")
        out.append(g.program())
    return out


def c08_each(n):
    """Every unsupported construct at every place of some expressions, and then the same names in other roles"""
    out = []
    for k, kind in enumerate(BAD * n):
        r = rng("C08e", k)
        g = ModelGen(r, "construct-%s-%d" % (kind, k))
        g.add(("A",))
        g.add(("B",))
        g.units(2, "int")
        g.vector("f", 0)
        g.vector("b", 0)
        g.table(0, False, False)
        host = None
        while host is None or not positions(host) or size(host) > 60:
            host = g.gen().boolean(2) if k % 2 else g.gen().num(3, 20).ast
        grp = r.choice(("", "g1"))
        for where in positions(host):
            inner = [["sym", "u1"], ["attr", ["u2", "q"]], ["sym", "u3"]][:ARITY.get(kind, 1)]
            r.shuffle(inner)
            g.append(replaced(host, where, ["bad", kind, inner]), grp=grp)
        g.append(host)
        g.run(check=False)
        g.append(["attr", ["u1", "q"]])
        g.append(["sym", "u2"], grp="g1")
        g.append(["attr", ["u3", "q"]], grp="g1")
        g.append(["sym", "u1"])
        g.op("validate", g="")
        out.append(g.program())
    return out

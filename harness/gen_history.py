"""Histories: long programs about several models which share an alphabet of symbols and expressions."""
from __future__ import annotations

from gen_model import DOT, ModelGen, words_of
from genlib import *
from vals import NAN, NINF, boolean, num, text

# name -> (kind, orientation). Tables have columns a (integer), b (boolean), s (text), links z (to one row) and h (to many)
ALPHABET = {"n1": ("number", 0), "v1": ("vector", 0), "v2": ("vector", 1), "vt": ("vector", 0), "x1": ("matrix", 0),
            "x2": ("matrix", 1), "t1": ("table", 0), "t2": ("table", 1)}

LEAVES = [
    Leaf(["sym", "n1"], "f", 4, 2, symbols=("n1",)),
    Leaf(["sym", "v1"], "f", 6, 2, symbols=("v1",)),
    Leaf(["sym", "v2"], "i", 6, 1, symbols=("v2",)),
    Leaf(["sym", "vt"], "s", words=("red", "blue", "a"), symbols=("vt",)),
    Leaf(["sym", "x1"], "f", 6, 2, symbols=("x1",)),
    Leaf(["sym", "x2"], "f", 6, 2, symbols=("x2",)),
    Leaf(["attr", ["t1", "a"]], "i", 6, 1, symbols=("t1",)),
    Leaf(["attr", ["t1", "b"]], "b", symbols=("t1",)),
    Leaf(["attr", ["t1", "s"]], "s", words=("red", "blue", "a"), symbols=("t1",)),
    Leaf(["attr", ["t1", "z", "p"]], "i", 6, 1, symbols=("t1",)),
    Leaf(["attr", ["t1", "z", "q"]], "s", words=("red", "blue", "a"), symbols=("t1",)),
    Leaf(["agg", ["t1", "h"], "sum", ["sym", "x"]], "i", 24, 1, symbols=("t1",)),
    Leaf(["agg", ["t1", "h"], "count", ["sym", "x"]], "i", 5, 1, symbols=("t1",)),
    Leaf(["attr", ["t2", "a"]], "i", 6, 1, symbols=("t2",)),
    Leaf(["attr", ["t2", "s"]], "s", words=("red", "blue", "a"), symbols=("t2",)),
]
WORDS = ("red", "blue", "a")


class Info:
    """What is known of one model"""

    def __init__(self):
        self.nodes, self.du = [], None
        self.declared, self.assigned = set(), set()
        self.exprs = []      # (names, grp)
        self.cached = False
        self.handles = True  # Whether nests can be added to
        self.history = []

    def copy(self):
        n = Info()
        n.nodes, n.du = list(self.nodes), self.du
        n.declared, n.assigned = set(self.declared), set(self.assigned)
        n.exprs, n.cached = list(self.exprs), self.cached
        n.handles = False
        return n


class History:
    def __init__(self, r, id, symbols=None, small_tree=False, nrows=(1, 4)):
        self.r, self.id = r, id
        self.ops = []
        self.models = {}
        self.names = symbols or r.sample(sorted(ALPHABET), r.randint(3, 6))
        if not any(n in self.names for n in ("n1", "v1", "v2", "x1", "x2")):
            self.names.append("n1")
        self.leaves = [x for x in LEAVES if x.symbols[0] in self.names]
        self.frames = 0
        self.small_tree = small_tree
        self.nrows = nrows
        self.duform = r.choice(("int", "int", "text", "pair"))

    def program(self, **kw):
        return dict({"id": self.id, "interp": "model", "ops": self.ops}, **kw)

    def op(self, op, m, **kw):
        self.ops.append(dict({"op": op, "dom": "model", "m": m}, **kw))

    # -- setting up
    def new(self, m):
        r = self.r
        g = ModelGen(r, self.id, m)
        g.tree(r.choice((1, 1, 2)) if self.small_tree else None)
        self.ops += g.ops
        i = self.models[m] = Info()
        i.nodes = g.nodes
        self.set_du(m)
        if r.random() < 0.15:
            g.new["debug"] = r.choice(i.du)
        for n in self.names:
            self.declare(m, n)
            self.assign(m, n)
        return m

    def validate(self, m, g="", flags=True):
        r = self.r
        self.op("validate", m, g=g, **({"flags": {k: r.random() < 0.6 for k in ("tree", "du", "exprs", "assign")}} if flags else {}))

    def plus(self):
        m, n = self.r.choice(sorted(self.models)), self.r.choice(sorted(self.models))
        self.op("plus", m, n=n)

    def set_du(self, m):
        r, i = self.r, self.models[m]
        i.du = labels(r, r.randint(*self.nrows), self.duform)
        self.op("set_du", m, du=i.du, form=r.choice(("index", "list")) if len(i.du[0]) == 1 else "index",
                **({"names": ["h", "p"]} if len(i.du[0]) > 1 else {}))
        i.assigned -= {n for n in i.assigned if ALPHABET[n][0] != "number"}
        i.cached = False

    def choices(self, i):
        d = max(len(p) for p in i.nodes)
        return [names(p) + [DOT] * (d - len(p)) for p in i.nodes]

    def declare(self, m, n):
        k, o = ALPHABET[n]
        i = self.models[m]
        self.op("declare", m, name=n, k=k, o=o, fill=num(self.r.choice((0, 0, 1, -2))), rrow=True, rcol=True, mand=[], links=True)
        i.declared.add(n)
        i.assigned.discard(n)

    def assign(self, m, n, good=True):
        """Assigns new data. With good false, to something that does not fit"""
        r, i = self.r, self.models[m]
        k, o = ALPHABET[n]
        if n not in i.declared or i.du is None:
            return
        ctx = i.du if o == 0 else self.choices(i)
        if not good and k != "number":
            ctx = ctx[:-1] if len(ctx) > 1 and r.random() < 0.5 else ctx + [[text("zz")] * len(ctx[0])]
        if k == "number":
            d = {"t": "scalar", "v": small(r, -4, 4, 2), "dt": "f"} if good else {"t": "list", "v": [num(1)]}
        elif k == "vector":
            kind = {"v1": "f", "v2": "i", "vt": r.choice("sc")}[n]
            v = values(r, kind, len(ctx), words=WORDS)
            form = "array" if kind != "s" and kind != "c" and r.random() < 0.3 else "series"
            d = {"t": form, "dt": kind, "v": v, "idx": ctx if form == "series" else []}
        elif k == "matrix":
            rows, cols = i.du, self.choices(i)
            if good and r.random() < 0.4:
                rows, cols = r.sample(rows, r.randint(1, len(rows))), r.sample(cols, r.randint(1, len(cols)))
            if not good:
                if r.random() < 0.5:
                    rows = rows[:-1] + [[text("zz")] * len(rows[0])]
                else:
                    cols = cols[:-1] + [[text("zz")] * len(cols[0])]
            v = [[small(r, -4, 6, 2) for _ in cols] for _ in rows]
            if o == 1:
                d = {"t": "frame", "idx": cols, "cols": rows, "v": [[v[a][b] for a in range(len(rows))] for b in range(len(cols))],
                     "dt": "f8"}
            else:
                d = {"t": "frame", "idx": rows, "cols": cols, "v": v, "dt": "f8"}
        else:
            d = {"t": "table", "fid": self.table(ctx, n == "t1")}
        self.op("assign", m, name=n, data=d)
        if good:
            i.assigned.add(n)

    def table(self, ctx, links):
        r = self.r
        self.frames += 1
        fid = "F%d" % self.frames
        n = len(ctx)
        cols = [("a", "i", values(r, "i", n)), ("b", "b", values(r, "b", n)), ("s", r.choice("sc"), values(r, "s", n, words=WORDS))]
        if not links:
            self.ops.append(frame(fid, ctx, cols, ldf=r.random() < 0.3))
            return fid
        cols.append(("k", "i", [num(r.choice((1, 2, 3, 99))) for _ in ctx]))
        cols.append(("pk", "i", [num(x) for x in r.sample(range(1, n + 3), n)]))
        self.ops.append(frame(fid, ctx, cols))
        zidx = r.sample((1, 2, 3, 4), 3)
        self.ops.append(frame(fid + "z", [[num(x)] for x in zidx],
                              [("p", "i", values(r, "i", 3)), ("q", "s", values(r, "s", 3, words=WORDS))]))
        self.ops.append(link(fid, fid + "z", "z", on_self="k", precompute=r.random() < 0.5))
        m = r.randint(4, 5)
        hk = [num(r.randint(1, n + 2)) for _ in range(m)]
        hk[1] = hk[0]
        self.ops.append(frame(fid + "h", [[num(x)] for x in range(m)], [("hk", "i", hk), ("x", "i", values(r, "i", m, -2, 4))]))
        self.ops.append(link(fid, fid + "h", "h", on_self="pk", on_other="hk", precompute=r.random() < 0.5))
        return fid

    # -- expressions
    def expression(self, m, depth=1, bound=6, grp="", inf=0.0):
        r, i = self.r, self.models[m]
        k = r.random()
        if inf and r.random() < inf:
            ast = ["neginf"] if r.random() < 0.5 else ["call", "where", [ExprGen(r, self.leaves).boolean(1), ["neginf"], lit(0)]]
        elif k < 0.25:
            g = object.__new__(ModelGen)
            g.r, g.nodes = r, i.nodes
            ast = g.dict_literal()
        elif k < 0.4:
            ast = ExprGen(r, self.leaves).boolean(depth)
        else:
            ast = ExprGen(r, self.leaves).num(depth, bound).ast
        flt = r.choice(i.nodes) if r.random() < (0.9 if ast == ["neginf"] else 0.3) else ()
        return {"ast": ast, "flt": names(flt), "grp": grp, "nat": 1 if flt else 0}

    def append(self, m, x, setter=False):
        self.op("append", m, x=x, setter=setter)
        self.models[m].exprs.append((refs(x["ast"]), x["grp"]))

    def groups(self, m):
        return sorted({g for _, g in self.models[m].exprs if g})

    # -- using
    def run(self, m, g="", clear=False, check=None):
        r = self.r
        self.op("run", m, g=g, clear=clear, check=r.random() < 0.5 if check is None else check,
                **({"threads": r.choice((1, 2, 4))} if r.random() < 0.2 else {"log": True} if r.random() < 0.1 else {}))
        if clear:
            self.cleared(m)

    def cleared(self, m):
        """Nobody knows here whether it really was: whether the run fails is up to the specification"""
        self.models[m].declared.clear()
        self.models[m].assigned.clear()

    def discrete(self, m, clear=False):
        r = self.r
        nested = any(len(p) > 1 for p in self.models[m].nodes)
        self.op("discrete", m, g="", check=True, clear=clear, seed=r.randint(0, 5), draws=r.choice((1, 1, 2, 4)),
                astype=r.choice(("index", "category") if nested else ("index", "category", "str")),
                **({"log": True} if r.random() < 0.1 else {}))
        if clear:
            self.cleared(m)

    def use(self, m):
        r = self.r
        k = r.random()
        if k < 0.6:
            self.run(m)
        elif k < 0.85:
            self.run(m)
            self.discrete(m)
        else:
            g = self.groups(m)
            self.run(m, r.choice(g) if g else "", check=False)

    def redeclare(self, m):
        """Makes a model complete again"""
        i = self.models[m]
        for n in self.names:
            if n not in i.declared:
                self.declare(m, n)
            if n not in i.assigned:
                self.assign(m, n)

    def new_choices(self, m):
        """Changes the choices, and then the data that is labelled with them"""
        r, i = self.r, self.models[m]
        tops = [p for p in i.nodes if len(p) == 1]
        kinds = ["top"]
        if i.handles:
            kinds += ["under", "again"]
        k = r.choice(kinds)
        used = {p[0] for p in tops}
        free = [x for x in ("A", "B", "C", "D", "E", "F", "G", "H") if x not in used]
        if k == "top" or len(i.nodes) > 6:
            if not free:
                return
            self.op("add_choice", m, parent=[], name=text(free[0]), scale=num(1))
            i.nodes.append((free[0],))
        elif k == "under":
            nests = [p for p in i.nodes if any(q[:-1] == p for q in i.nodes)]
            if not nests:
                return
            p = r.choice(nests)
            new = [x for x in ("J", "K", "L", "M", "N", "O", "P") if p + (x,) not in i.nodes][0]
            self.op("add_choice", m, parent=names(p), name=text(new), scale=num(1))
            i.nodes.append(p + (new,))
        else:
            leaf = [p for p in i.nodes if not any(q[:-1] == p for q in i.nodes)]
            p = r.choice(leaf)
            self.op("add_choice", m, parent=names(p[:-1]), name=text(p[-1]), scale=num(1))
            i.nodes.remove(p)
            i.nodes.append(p)
        i.cached = False
        for n in self.names:
            k, o = ALPHABET[n]
            if n in i.assigned and (k == "matrix" or (o == 1 and k != "number")):
                self.assign(m, n)

    def partial(self, m, good=True):
        r, i = self.r, self.models[m]
        rows, cols = list(i.du), self.choices(i)
        rr = rc = True
        if r.random() < 0.6:
            rows = r.sample(rows, r.randint(1, len(rows)))
            cols = r.sample(cols, r.randint(1, len(cols)))
        elif r.random() < 0.5:
            rr, rc = r.random() < 0.5, r.random() < 0.5
        if not good:
            k = r.choice(("row", "col", "norr", "norc", "all"))
            if k in ("row", "all"):
                rows = rows + [[text("zz")] * len(rows[0])]
            if k in ("col", "all"):
                cols = cols + [[text("zz")] * len(cols[0])]
            if k == "norr":
                rows, rr = list(reversed(i.du)) if len(i.du) > 1 else [[text("zz")] * len(i.du[0])], False
            if k == "norc":
                cols, rc = list(reversed(self.choices(i))), False
        self.op("partial", m, idx=rows, cols=cols, v=[[small(r, -3, 3, 2) for _ in cols] for _ in rows], dt="f8", rr=rr, rc=rc)
        if good:
            i.cached = True

    def copy(self, m, n, defaults=None):
        r, i = self.r, self.models[m]
        j = i.copy()
        defaults = r.random() < 0.5 if defaults is None else defaults
        o = dict(o_du=True, o_declared=True, o_assigned=True, o_exprs=True, o_utils=True)
        if not defaults:
            o = {k: r.random() < 0.65 for k in o}
            if not o["o_assigned"]:
                j.assigned.clear()
                if not o["o_declared"]:
                    j.declared.clear()
                if not o["o_du"]:
                    j.du = None
            if not o["o_exprs"]:
                j.exprs = []
            if not o["o_utils"]:
                j.cached = False
        self.op("copy", m, n=n, defaults=defaults, **o)
        self.models[n] = j

    def subset(self, m, n):
        r, i = self.r, self.models[m]
        mask = [r.random() < 0.6 for _ in i.du]
        if not any(mask):
            mask[r.randrange(len(mask))] = True
        self.op("subset", m, n=n, idx=i.du, mask=mask)
        j = i.copy()
        j.du = [x for x, b in zip(i.du, mask) if b]
        self.models[n] = j

    def preval(self, m, g="", drop=None, cleanup=None):
        r, i = self.r, self.models[m]
        drop = r.random() < 0.8 if drop is None else drop
        cleanup = r.random() < 0.6 if cleanup is None else cleanup
        self.op("preval", m, g=g, drop=drop, cleanup=cleanup, **({"log": True} if r.random() < 0.1 else {}))
        if cleanup:
            gone = set().union(*(n for n, x in i.exprs if x == g), set()) - set().union(*(n for n, x in i.exprs if x != g), set())
            i.declared -= gone
            i.assigned -= gone
        if drop:
            i.exprs = [x for x in i.exprs if x[1] != g]
        i.cached = True


def refs(e):
    """The symbols that an expression refers to"""
    if not isinstance(e, list):
        return set()
    if e[:1] in (["sym"], ["col"]):
        return {e[1]}
    if e[:1] in (["attr"], ["agg"]):
        return {e[1][0]}
    return set().union(*(refs(x) for x in e), set())

"""Programs about choice models (specs/Model.tla)."""
from __future__ import annotations

from genlib import *
from vals import NAN, NINF, boolean, num, text

NAMES = ["A", "B", "C", "D", "E", "F", "walk", "auto_2", "_x", "bus", "rail 2", "3-d"]
DOT = text(".")


class ModelGen:
    """Builds a program for a model m step by step. Keeps just enough of the state to make sensible operations."""

    def __init__(self, r, id, m="m", precision=8):
        self.r, self.id, self.m = r, id, m
        self.ops = []
        self.nodes = []      # paths in order
        self.lost = set()    # top-level choices added by a batch that failed
        self.du = None
        self.leaves = []
        self.nframes = 0
        self.nsyms = 0
        self.precision = precision
        self.single = precision == 4   # whether there is data of single precision
        self.data_ops = {}   # name of a symbol -> its assign operation
        self.declare_ops = {}
        self.new = self.op("new", precision=precision)

    def debug(self):
        """Debugs one of the decision units from the start"""
        self.new["debug"] = self.r.choice(self.du)

    def program(self, **kw):
        p = {"id": self.id, "interp": "model", "ops": self.ops}
        if self.precision == 4:
            p.update(den=64, tol=2e-5)
        p.update(kw)
        return p

    def op(self, op, **kw):
        self.ops.append(dict({"op": op, "dom": "model", "m": self.m}, **kw))
        return self.ops[-1]

    def other(self, m):
        """The same builder, for operations on another model"""
        g = object.__new__(ModelGen)
        g.__dict__.update(self.__dict__)
        g.m = m
        g.nodes = list(self.nodes)
        g.leaves = list(self.leaves)
        return g

    # -- choices
    def add(self, path, scale=(1, 1), **kw):
        path = tuple(path)
        if len(path) == 1:
            self.lost.discard(path[0])
        self.op("add_choice", parent=names(path[:-1]), name=text(path[-1]), scale=num(*scale), **kw)
        self.nodes = [n for n in self.nodes if n[:len(path)] != path] + [path]

    def add_many(self, ns, scales=None, form="list"):
        self.op("add_choices", names=names(ns), scales=[num(*(scales[k] if scales else (1, 1))) for k in range(len(ns))],
                form=form, defscale=scales is None)
        for n in ns:
            self.lost.discard(n)
            self.nodes = [p for p in self.nodes if p[0] != n] + [(n,)]

    def tree(self, depth=None, maxnodes=7):
        """A complete tree of choices"""
        r = self.r
        depth = depth or r.choice((1, 1, 2, 2, 3))
        tops = r.sample(NAMES, r.randint(2, 4))
        plan = [(n,) for n in tops]
        if depth > 1:
            frontier = [(n,) for n in tops]
            level = 1
            while level < depth:
                nxt = []
                for p in r.sample(frontier, r.randint(1, min(2, len(frontier)))):
                    kids = r.sample(NAMES, r.choice((2, 2, 3)))
                    plan += [p + (k,) for k in kids]
                    nxt += [p + (k,) for k in kids]
                frontier = nxt
                level += 1
        # Any order that puts parents first
        done, todo = [], list(plan)
        while todo:
            ready = [p for p in todo if len(p) == 1 or p[:-1] in done]
            p = ready[0] if r.random() < 0.5 else r.choice(ready)
            todo.remove(p)
            done.append(p)
        if depth == 1 and r.random() < 0.4:
            self.add_many([p[0] for p in done], form=r.choice(("list", "tuple", "iter", "gen")))
        else:
            for p in done:
                self.add(p, r.choice(((1, 1), (1, 2), (3, 4), (1, 1))))
        return self

    @property
    def depth(self):
        return max((len(p) for p in self.nodes), default=0)

    def choices(self):
        d = self.depth
        return [names(p) + [DOT] * (d - len(p)) for p in self.nodes]

    def elemental(self):
        return [p for p in self.nodes if not any(q[:len(p)] == p and q != p for q in self.nodes)]

    # -- decision units
    def units(self, n=None, form=None):
        r = self.r
        n = n or r.randint(1, 5)
        form = form or r.choice(("int", "int", "range", "text", "pair", "mixed"))
        du = labels(r, n, form)
        how = "index"
        if len(du[0]) == 1:
            how = r.choice(("index", "list"))
            if form == "range" and r.random() < 0.5:
                how = "range"
        self.set_du(du, how)
        return self

    def set_du(self, du, how="index"):
        self.op("set_du", du=du, form=how, **({"names": ["h", "p"]} if du and len(du[0]) > 1 else {}))
        self.du = du

    # -- symbols
    def symbol_name(self, prefix="s"):
        self.nsyms += 1
        return "%s%d" % (prefix, self.nsyms)

    def declare(self, name, k, o=0, **kw):
        kw = dict({"fill": num(0), "rrow": True, "rcol": True, "mand": [], "links": True}, **kw)
        self.declare_ops[name] = self.op("declare", name=name, k=k, o=o, **kw)

    def assign(self, name, data):
        self.data_ops[name] = self.op("assign", name=name, data=data)

    def number(self, name=None):
        r = self.r
        name = name or self.symbol_name("n")
        self.declare(name, "number")
        v = small(r)
        self.assign(name, {"t": "scalar", "v": v, "dt": r.choice(("i", "f"))} if v[2] == 1 else {"t": "scalar", "v": v, "dt": "f"})
        self.leaves.append(Leaf(["sym", name], "f", 6, 2, symbols=(name,)))
        return name

    def word(self, name=None):
        """A text for all units"""
        name = name or self.symbol_name("n")
        self.declare(name, "number")
        v = values(self.r, "s", 1)
        self.assign(name, {"t": "scalar", "v": v[0], "dt": "s"})
        self.leaves.append(Leaf(["sym", name], "s", 6, 1, words=words_of(v), symbols=(name,)))
        return name

    def vector(self, kind=None, o=None, nulls=0.0, name=None):
        r = self.r
        o = r.choice((0, 0, 1)) if o is None else o
        kinds = ("f", "f", "i", "b", "s", "c", "i4", "f4", "Int64", "u", "ci", "cb")
        kind = kind or r.choice(kinds)
        name = name or self.symbol_name("v")
        ctx = self.du if o == 0 else self.choices()
        v = values(r, kind, len(ctx), nulls=nulls)
        form = "series"
        if kind in ("f", "i", "b", "i4", "f4", "u") and r.random() < 0.4:
            form = "array"
        self.declare(name, "vector", o)
        self.assign(name, {"t": form, "dt": kind, "v": v, "idx": ctx if form == "series" else []})
        self.single |= kind == "f4"
        base = {"i4": "i", "f4": "f", "Int64": "i", "i2": "i", "ci": "i", "cb": "b"}.get(kind, kind)
        hasnan = NAN in v
        if hasnan and base == "i":
            base = "f"
        self.leaves.append(Leaf(["sym", name], base, 6, 4 if base == "f" else 1, nan=hasnan,
                                nonneg=all(x[0] == "n" and x[1] >= 0 for x in v), words=words_of(v), symbols=(name,)))
        return name

    def matrix(self, o=None, partial=None, name=None, dt=None, ninf=0.0, bound=6):
        r = self.r
        o = r.choice((0, 0, 1)) if o is None else o
        name = name or self.symbol_name("x")
        rows, cols = self.du, self.choices()
        partial = r.random() < 0.4 if partial is None else partial
        dt = dt or r.choice(("f8", "f8", "i8", "f4"))
        self.single |= dt == "f4"
        fill = num(0)
        if partial:
            fill = r.choice((num(0), num(1), num(2), num(-3)))
            if r.random() < 0.5:
                cols = r.sample(cols, r.randint(1, len(cols)))
            if r.random() < 0.5:
                rows = r.sample(rows, r.randint(1, len(rows)))
        v = [[(NINF if ninf and dt != "i8" and r.random() < ninf else small(r, -4, min(bound, 6), 1 if dt == "i8" else 2))
              for _ in cols] for _ in rows]
        self.declare(name, "matrix", o, fill=fill)
        idx, cs, data = rows, cols, v
        if o == 1:
            idx, cs, data = cols, rows, [[v[i][j] for i in range(len(rows))] for j in range(len(cols))]
        self.assign(name, {"t": "frame", "idx": idx, "cols": cs, "v": data, "dt": dt})
        if not ninf:
            self.leaves.append(Leaf(["sym", name], "i" if dt == "i8" else "f", 6, 2, symbols=(name,)))
        return name

    def table(self, o=None, ldf=None, links=None, name=None):
        """A table of attributes, with links to other tables when it is a linked frame"""
        r = self.r
        o = r.choice((0, 0, 0, 1)) if o is None else o
        ldf = r.random() < 0.7 if ldf is None else ldf
        links = ldf and (r.random() < 0.8) if links is None else links
        name = name or self.symbol_name("t")
        ctx = self.du if o == 0 else self.choices()
        fid = self.frame_for(ctx, name, ldf, links)
        self.declare(name, "table", o)
        self.assign(name, {"t": "table", "fid": fid})
        return name

    def column(self, kind, n, prefix, c, nulls=0.0):
        """A column and the leaf to refer to it by"""
        v = values(self.r, kind, n, nulls=nulls)
        hasnan = NAN in v
        leaf = Leaf(["attr", prefix + [c]], kind, 6, 4 if kind == "f" else 1, nan=hasnan,
                    nonneg=bool(v) and all(x[0] == "n" and x[1] >= 0 for x in v), words=words_of(v), symbols=(prefix[0],))
        return (c, kind, v), leaf

    def frame_for(self, ctx, name, ldf, links):
        r = self.r
        self.nframes += 1
        fid = "F%d" % self.nframes
        cols, leaves = [], []
        for c, kind in zip(("a", "c", "d"), r.sample(("i", "f", "f", "b", "s", "c", "u"), 3)):
            col, leaf = self.column(kind, len(ctx), [name], c, nulls=0.2 if kind == "f" and r.random() < 0.3 else 0.0)
            cols.append(col)
            leaves.append(leaf)
        keys = r.sample(range(1, 9), 4)
        if links:
            cols.append(("k", "i", [num(r.choice(keys + [99])) for _ in ctx]))
            cols.append(("pk", "i", [num(k + 1) for k in r.sample(range(len(ctx) + 2), len(ctx))]))
        self.ops.append(frame(fid, ctx, cols, ldf=ldf))
        self.leaves += leaves
        if not links:
            return fid
        # A link to one row, and from there to another and to many
        zid, rid, hid = fid + "z", fid + "r", fid + "h"
        zidx = r.sample(keys, r.randint(2, 4))
        zcols, zleaves = [], []
        for c, kind in (("p", r.choice("iib")), ("q", r.choice("sc")), ("f", "f")):
            col, leaf = self.column(kind, len(zidx), [name, "z"], c)
            if kind == "f" or kind == "c":
                leaf.nan = True   # rows without a match
            if kind == "c":
                leaf = None
            zcols.append(col)
            if leaf is not None:
                zleaves.append(leaf)
        zcols.append(("rk", "s", values(r, "s", len(zidx), words=("x", "y", "zz", "no"))))
        bykey = r.random() < 0.5
        if bykey:
            self.ops.append(frame(zid, [[num(100 + n)] for n in range(len(zidx))], zcols + [("zk", "i", [num(k) for k in zidx])]))
            self.ops.append(link(fid, zid, "z", precompute=r.random() < 0.7, on_self="k", on_other="zk"))
        else:
            self.ops.append(frame(zid, [[num(k)] for k in zidx], zcols))
            self.ops.append(link(fid, zid, "z", precompute=r.random() < 0.7, on_self="k"))
        self.leaves += zleaves
        col, leaf = self.column("i", 3, [name, "z", "r"], "w")
        self.ops.append(frame(rid, [[text(x)] for x in r.sample(("x", "y", "zz"), 3)], [col], ldf=r.random() < 0.5))
        self.ops.append(link(zid, rid, "r", on_self="rk"))
        self.leaves.append(leaf)
        n = r.randint(4, 7)
        hk = [num(r.randint(1, len(ctx) + 2)) for _ in range(n)]
        hk[1] = hk[0]
        hcols = [("hk", "i", hk), ("x", "i", values(r, "i", n)), ("y", "f", values(r, "f", n)), ("s", "s", values(r, "s", n)),
                 ("b", "b", values(r, "b", n))]
        self.ops.append(frame(hid, [[num(k)] for k in r.sample(range(1, 30), n)], hcols))
        self.ops.append(link(fid, hid, "h", on_self="pk", on_other="hk", precompute=r.random() < 0.7))
        for f, arg, kind, den, bound, nan in (
                ("sum", ["col", "x"], "f", 1, 42, False), ("count", ["col", "x"], "f", 1, 7, False),
                ("max", ["col", "x"], "f", 1, 6, False), ("sum", ["bin", "*", ["sym", "y"], lit(2)], "f", 4, 84, True),
                ("mean", ["col", "y"], "f", 420, 6, True), ("first", ["col", "x"], "f", 1, 6, False),
                ("sum", ["call", "where", [["cmp", ["=="], [["sym", "s"], tlit("red")]], lit(1), lit(0)]], "f", 1, 7, False),
                ("min", ["bin", "-", ["sym", "x"], ["sym", "y"]], "f", 4, 10, True),
                ("count", ["noarg"], "f", 1, 7, False)):
            if f == "count" and arg == ["noarg"]:
                ast = ["agg", [name, "h"], "count", lit(1), "noargs"]
            else:
                ast = ["agg", [name, "h"], f, arg if arg[0] != "col" else ["sym", arg[1]]]
            self.leaves.append(Leaf(ast, kind, bound, den, nan=nan, symbols=(name,)))
        return fid

    def symbols(self, n=None, tables=True):
        r = self.r
        for _ in range(n or r.randint(1, 4)):
            k = r.choice(("number", "vector", "vector", "vector", "matrix", "table" if tables else "vector"))
            if k == "number" and r.random() < 0.2:
                k = "word"
            getattr(self, k)()
        if not any(x.kind in ("i", "u", "f") and not x.nan for x in self.leaves):
            self.number()
        return self

    # -- expressions
    def expr(self, ast, flt=(), grp="", **kw):
        x = {"ast": ast, "flt": names(flt), "grp": grp, "nat": 1 if flt else 0}
        x.update(kw)
        return x

    def append(self, ast, flt=(), grp="", setter=False, **kw):
        self.op("append", x=self.expr(ast, flt, grp, **kw), setter=setter)

    def gen(self):
        return ExprGen(self.r, self.leaves, dyadic=self.single)

    def dict_literal(self, small_=True):
        """A dict literal whose keys do not overlap"""
        r = self.r
        keys = []
        if self.depth == 1:
            keys = [(p[0],) for p in r.sample(self.nodes, r.randint(1, len(self.nodes)))]
        else:
            taken = set()
            for p in r.sample(self.nodes, r.randint(1, min(4, len(self.nodes)))):
                kids = [q for q in self.nodes if q[:len(p)] == p and q != p]
                if kids and r.random() < 0.6:
                    if not (set(kids) & taken):
                        taken |= set(kids)
                        keys.append(p + ("_",))
                    if p not in taken and r.random() < 0.5:
                        taken.add(p)
                        keys.append(p)
                elif p not in taken:
                    taken.add(p)
                    keys.append(p)
            if not keys:
                keys = [self.nodes[0]]
            r.shuffle(keys)
        # Names which are no identifiers can only be written as texts, that is at the top
        written = [k for k in keys if len(k) == 1 or all(n.isidentifier() for n in k)] or [self.plain_node()]
        return ["dict", [[names(k), small(r, -3, 4, 2)] + (["text"] if len(k) == 1 and r.random() < 0.2 else []) for k in written]]

    def plain_node(self):
        return self.r.choice([p for p in self.nodes if len(p) == 1])

    def random_expr(self, depth=2, bound=8, filters=True, grp="", dicts=True):
        """An expression whose value is a number in every cell"""
        r = self.r
        g = self.gen()
        k = r.random()
        if dicts and k < 0.2:
            ast = self.dict_literal()
            if r.random() < 0.4:
                other = g.num(1, 2, 16)
                ast = ["bin", r.choice(("*", "+")), *([other.ast, ast] if r.random() < 0.5 else [ast, other.ast])]
        elif k < 0.3:
            ast = g.boolean(depth)
        else:
            ast = g.num(depth, bound).ast
        flt = ()
        if filters and r.random() < 0.35:
            flt = r.choice(self.nodes)
        kw = {"at": r.choice((" @ ", "@", "  @ ", " @"))} if flt else {}
        return self.expr(ast, flt, grp, **kw)

    def run(self, g="", clear=False, check=True, **kw):
        self.op("run", g=g, clear=clear, check=check, **kw)

    def discrete(self, clear=False, seed=1, draws=1, astype="index"):
        self.op("discrete", g="", check=True, clear=clear, seed=seed, draws=draws, astype=astype)

    def look(self):
        self.op("look")


def words_of(v):
    return tuple({"".join(chr(c) for c in x[1]) for x in v if x[0] == "s"})

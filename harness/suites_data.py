"""The suites of programs for assigned data (C13)."""
from __future__ import annotations

from common import rng
from gen_model import ModelGen, DOT
from genlib import *
from vals import NAN, NINF, boolean, num, text


def wrong_labels(r, ctx):
    """Labels that do not match: in another order, too few, too many, or other ones"""
    k = r.random()
    if k < 0.35 and len(ctx) > 1:
        out = list(ctx)
        while out == ctx:
            r.shuffle(out)
        return out
    if k < 0.55 and len(ctx) > 1:
        return ctx[:-1] if r.random() < 0.5 else ctx[1:]
    if k < 0.75:
        other = list(ctx)
        other[r.randrange(len(ctx))] = stranger(r, ctx)
        return other
    return ctx + [stranger(r, ctx)]


def stranger(r, ctx):
    """A label that is not there, of the same form"""
    while True:
        out = []
        for v in r.choice(ctx):
            if v[0] == "n":
                out.append(num(r.randint(0, 99)))
            elif v == DOT:
                out.append(DOT)
            else:
                out.append(text(r.choice(("no", "A", "B", "zz", "u", "walk"))))
        if out not in ctx:
            return out


KINDS = ("i", "i4", "i2", "u", "f", "f4", "b", "s", "c", "Int64", "ci", "cb")


def use(g, name, kind, k, col=None):
    """An expression that shows the values of a symbol"""
    r = g.r
    leaf = ["sym", name] if col is None else ["attr", [name, col]]
    if kind in ("s", "c"):
        word = r.choice(g.words.get((name, col)) or ("red",))
        return ["call", "where", [["cmp", [r.choice(("==", "!=", "<", ">="))], [leaf, tlit(word)]], lit(1), lit(0)]]
    if kind in ("b", "cb"):
        return ["call", "where", [leaf, lit(k + 2), lit(0)]]
    if (name, col) in g.gaps:
        return ["call", "where", [["call", "isnan", [leaf]], lit(-7), leaf]]
    return leaf


def c13_assignments(n):
    out = []
    for k in range(n):
        r = rng("C13", k)
        g = ModelGen(r, "data-%d" % k)
        g.words, g.gaps = {}, set()
        g.tree(r.choice((1, 2, 2, 3)), 6)
        g.units(r.randint(1, 5))
        state = {}    # name -> expression over its current value
        decl = {}
        for _ in range(r.randint(2, 4)):
            kind = r.choice(("number", "vector", "vector", "table", "matrix", "matrix"))
            name = g.symbol_name({"number": "n", "vector": "v", "table": "t", "matrix": "x"}[kind])
            o = r.choice((0, 1))
            kw = {}
            if kind == "matrix":
                kw = {"fill": num(*r.choice(((0, 1), (1, 2), (-3, 1), (2, 1), (1, 4)))), "rrow": r.random() < 0.7,
                      "rcol": r.random() < 0.7}
                if r.random() < 0.2:
                    kw = {"defaults": True}
            if kind == "table":
                kw = {"mand": r.sample(["a", "c", "d", "zz"], r.choice((0, 0, 1, 2))), "links": r.random() < 0.6}
            g.declare(name, kind, o, **kw)
            decl[name] = (kind, o)
        if r.random() < 0.1:
            g.declare("v99", "vector", r.choice((2, -1)))
        copies = 0
        for _ in range(r.randint(4, 9)):
            if r.random() < 0.12 and copies < 2:
                # On with a copy, which has the declarations
                copies += 1
                keep = r.random() < 0.5
                g.op("copy", n="m%d" % copies, o_du=True, o_declared=True, o_assigned=keep, o_exprs=False, o_utils=False)
                g.m = "m%d" % copies
                if not keep:
                    state = {}
            name = r.choice(list(decl))
            kind, o = decl[name]
            ctx = g.du if o == 0 else g.choices()
            good = r.random() < 0.65
            e = None
            if kind == "number":
                if good:
                    dt = r.choice(("f", "f", "f4", "i8", "0d", "b", "nb", "s"))
                    v = values(r, {"f4": "f", "i8": "i", "0d": "i", "nb": "b"}.get(dt, dt), 1, words=("red", "blue", "12", "a", "NaN"))[0]
                    g.assign(name, {"t": "scalar", "v": v, "dt": dt})
                    e = ["sym", name]
                    if dt == "s":
                        word = "".join(map(chr, v[1]))
                        e = ["cmp", [r.choice(("==", "!="))], [e, tlit(r.choice((word, "red", "1", "NaN")))]]
                else:
                    g.assign(name, {"t": "none"} if r.random() < 0.5 else {"t": "list", "v": [num(1), num(2)]})
            elif kind == "vector":
                e = vector(g, name, ctx, good)
            elif kind == "table":
                e = table(g, name, ctx, good)
            else:
                e = matrix(g, name, o, good)
            if e is not None:
                state[name] = e
            elif good and kind in ("table", "matrix"):
                state.pop(name, None)   # Depends on the declaration
            if r.random() < 0.7:
                for expr in state.values():
                    g.op("clear_exprs")
                    g.append(expr)
                    g.run(check=False)
        g.op("clear_exprs")
        for expr in state.values():
            g.append(expr)
        g.run(check=False)
        if r.random() < 0.3:
            g.op("assign", name="nobody", data={"t": "scalar", "v": num(1), "dt": "f"})
        out.append(g.program())
    return out


def c13_without_units(n):
    """Models of nobody: everything works, and gives nothing"""
    out = []
    for k in range(n):
        r = rng("C13none", k)
        g = ModelGen(r, "nobody-%d" % k)
        g.tree(r.choice((1, 2, 3)), 6)
        subset = r.random() < 0.4
        if subset:
            g.units(r.randint(1, 3), "int")
        else:
            g.set_du([])
        for _ in range(r.randint(1, 3)):
            kind = r.choice(("number", "vector", "vector", "table", "table", "matrix"))
            if kind == "matrix":
                g.matrix(partial=False)
            else:
                getattr(g, kind)()
        if not any(x.kind in ("i", "u", "f") and not x.nan for x in g.leaves):
            g.number()
        for _ in range(r.randint(1, 3)):
            x = g.random_expr(2)
            g.op("append", x=x, setter=False)
        for x in g.leaves:
            if x.kind in "sc":
                g.append(["call", "where", [["cmp", ["=="], [x.ast, tlit("red")]], lit(1), lit(0)]])
        if subset:
            g.op("subset", n="m1", idx=g.du, mask=[False] * len(g.du))
            g.m = "m1"
        g.run(check=r.random() < 0.5)
        g.discrete(draws=r.choice((1, 3)))
        g.op("partial", idx=[], cols=g.choices(), v=[], dt="f8", rr=False, rc=True)
        g.run(check=True, clear=r.random() < 0.5)
        out.append(g.program())
    return out


def vector(g, name, ctx, good):
    r = g.r
    if not good:
        form = r.random()
        if form < 0.5:
            idx = wrong_labels(r, ctx)
            g.assign(name, {"t": "series", "dt": "f", "v": values(r, "f", len(idx)), "idx": idx})
        elif form < 0.75:
            m = r.choice((len(ctx) + 1, max(0, len(ctx) - 1), 2 * len(ctx), 0))
            g.assign(name, {"t": "array", "dt": "f", "v": values(r, "f", m), "idx": []})
        elif form < 0.82:
            g.assign(name, {"t": "series", "dt": "t", "v": values(r, "t", len(ctx)), "idx": ctx})
        else:
            g.assign(name, {"t": r.choice(("list", "none", "array2", "scalar")), "v": values(r, "f", len(ctx)), "dt": "f"}
                     if r.random() < 0.7 else {"t": "scalar", "v": num(1), "dt": "f"})
            # A number is not a vector
            if g.ops[-1]["data"]["t"] == "scalar":
                g.ops[-1]["data"]["v"] = num(1)
        return None
    kind = r.choice(KINDS)
    v = values(r, kind, len(ctx), nulls=0.3 if kind in ("f", "f4", "Int64", "ci") and r.random() < 0.6 else 0.0,
               words=("red", "blue", "a", "ab", "abc", "longer words", "B"))
    form = "series" if kind in ("s", "c", "Int64", "ci", "cb") or r.random() < 0.6 else "array"
    g.assign(name, {"t": form, "dt": kind, "v": v, "idx": ctx if form == "series" else [],
                    "lay": r.choice(("", "", "strided", "reversed"))})
    g.words[name, None] = ["".join(map(chr, x[1])) for x in v if x[0] == "s"] + ["zzz", "a"]
    g.gaps.discard((name, None))
    if NAN in v:
        g.gaps.add((name, None))
    return use(g, name, kind, 1)


def table(g, name, ctx, good):
    r = g.r
    d = g.declare_ops[name]
    idx = ctx if good else wrong_labels(r, ctx)
    ldf = r.random() < (0.5 if d["links"] else 0.25)
    g.nframes += 1
    fid = "F%d" % g.nframes
    cols, uses = [], []
    want = [c for c in ("a", "c", "d", "e") if c in d["mand"] or r.random() < 0.7] or ["a"]
    if not good and r.random() < 0.3 and d["mand"]:
        want = [c for c in want if c != d["mand"][0]] or ["e"]
        idx = ctx
    for c in want:
        kind = r.choice(KINDS)
        v = values(r, kind, len(idx), nulls=0.3 if kind in ("f", "f4", "Int64", "ci") and r.random() < 0.5 else 0.0)
        g.words[name, c] = ["".join(map(chr, x[1])) for x in v if x[0] == "s"] + ["zzz", "a"]
        g.gaps.discard((name, c))
        if NAN in v:
            g.gaps.add((name, c))
        cols.append((c, kind, v))
        uses.append(use(g, name, kind, 1, c))
    linked = ldf and good and r.random() < 0.6
    if linked:
        keys = r.sample(range(1, 9), 3)
        cols.append(("k", "i", [num(r.choice(keys + [99])) for _ in idx]))
    g.ops.append(frame(fid, idx, [(c, {"i4": "i4"}.get(k, k), v) for c, k, v in cols], ldf=ldf,
                       dt={c: k for c, k, _ in cols if k in ("i4", "i2", "f4", "Int64", "ci", "cb")}))
    # The kinds as the specification calls them
    g.ops[-1]["kind"] = {c: {"i4": "i", "i2": "i", "f4": "f", "Int64": "i", "ci": "c", "cb": "c"}.get(k, k) for c, k, _ in cols}
    if linked:
        z = fid + "z"
        kind = r.choice(("i", "f", "b", "s", "ci"))
        v = values(r, kind, len(keys))
        g.ops.append(frame(z, [[num(x)] for x in keys], [("p", kind, v)], dt={"p": "ci"} if kind == "ci" else {}))
        if kind == "ci":
            g.ops[-1]["kind"]["p"] = "c"
        g.ops.append(link(fid, z, "z", on_self="k", precompute=r.random() < 0.5))
        leaf = ["attr", [name, "z", "p"]]
        if kind in ("f", "ci"):
            leaf = ["call", "where", [["call", "isnan", [leaf]], lit(-7), leaf]]
        elif kind == "b":
            leaf = ["call", "where", [leaf, lit(3), lit(0)]]
        elif kind == "s":
            leaf = ["call", "where", [["cmp", ["=="], [leaf, tlit("".join(map(chr, v[0][1])))]], lit(1), lit(0)]]
        uses.append(leaf)
    g.assign(name, {"t": "table", "fid": fid})
    accepted = good and set(d["mand"]) <= {c for c, _, _ in cols} and (d["links"] or not ldf)
    if not accepted:
        return None
    # Weighted, to tell the columns apart
    ast = uses[0]
    for m, u in enumerate(uses[1:]):
        ast = ["bin", "+", ast, ["bin", "*", lit((10, 4, 7)[m % 3]), u]]
    return ast


def matrix(g, name, o, good):
    r = g.r
    if not good and r.random() < 0.4:
        g.assign(name, {"t": r.choice(("list", "none", "array2")), "v": values(r, "f", 3), "dt": "f"})
        return None
    rows, cols = list(g.du), g.choices()
    for which in (0, 1):
        ctx = rows if which == 0 else cols
        k = r.random()
        if not good and k < 0.6:
            new = wrong_labels(r, ctx)
            if len({str(x) for x in new}) != len(new):
                new = ctx
        elif k < 0.45:
            new = ctx
        else:
            new = r.sample(ctx, r.randint(1, len(ctx)))
        if which == 0:
            rows = new
        else:
            cols = new
    dt = r.choice(("f8", "f8", "i8", "f4", "i4", "bool", "i2"))
    if dt == "bool":
        v = [[boolean(r.random() < 0.5) for _ in cols] for _ in rows]
    else:
        v = [[small(r, -4, 6, 1 if dt[0] == "i" else 2) for _ in cols] for _ in rows]
        if dt[0] == "f" and r.random() < 0.2:
            v[r.randrange(len(rows))][r.randrange(len(cols))] = NAN
    idx, cs, data = rows, cols, v
    if o == 1:
        idx, cs, data = cols, rows, [[v[i][j] for i in range(len(rows))] for j in range(len(cols))]
    full = {"t": "frame", "idx": idx, "cols": cs, "v": data, "dt": dt, "lay": r.choice(("", "F"))}
    if dt == "f8" and r.random() < 0.3:
        # Whole numbers in some columns
        mixed = [r.choice(("f8", "f4", "i8")) for _ in cs]
        for j, m in enumerate(mixed):
            if m == "i8":
                for row in data:
                    row[j] = num(r.randint(-3, 5))
        full["mixed"] = mixed
    g.assign(name, full)
    d = g.declare_ops[name]
    ok = (rows == g.du or (d["rrow"] and all(x in g.du for x in rows))) and \
        (cols == g.choices() or (d["rcol"] and all(x in g.choices() for x in cols)))
    if not ok:
        return None
    leaf = ["sym", name]
    if dt == "bool":
        return ["bin", "*", leaf, lit(2)]
    return ["call", "where", [["call", "isnan", [leaf]], lit(-7), leaf]] if any(NAN in x for x in data) else leaf

"""The suites of programs about histories of models: C09 to C12."""
from __future__ import annotations

from common import rng
from gen_history import ALPHABET, History
from gen_model import ModelGen
from genlib import *
from vals import NAN, NINF, boolean, num, text

# ---------------------------------------------------------------------------------------------------------------------
# C09 Readiness


def c09_matrix(_):
    """Every combination of a state of the tree, the decision units and a symbol, with every kind of run"""
    trees = {"none": [], "one": ["A"], "two": ["A", "B"], "lonely": ["A", "B", "B.C"], "nest": ["A", "B", "B.C", "B.D"],
             "deep": ["A", "B", "B.C", "B.D", "B.D.E"], "full": ["A", "B", "B.C", "B.D", "B.D.E", "B.D.F"],
             "onlynest": ["B", "B.C", "B.D"]}
    out = []
    for tree, paths in trees.items():
        for du in ("no", "yes", "late"):
            for sym in ("undeclared", "declared", "assigned", "replaced"):
                r = rng("C09m", tree, du, sym)
                g = ModelGen(r, f"ready-{tree}-{du}-{sym}")
                for p in paths:
                    g.add(tuple(p.split(".")))
                if du == "yes":
                    g.units(2, "int")
                if sym != "undeclared":
                    g.declare("n", "number")
                    if sym != "declared":
                        g.assign("n", {"t": "scalar", "v": num(3), "dt": "i"})
                    if sym == "replaced":
                        g.declare("n", "number")
                if du == "late":
                    g.units(2, "text")
                for grp in ("", "g1"):
                    g.append(["bin", "*", ["sym", "n"], lit(2)], grp=grp)
                g.append(lit(1), grp="g2")
                for grp in ("", "g1", "g2", "g3"):
                    g.run(grp, check=False)
                    g.op("validate", g=grp)
                    if grp:
                        g.op("preval", g=grp, drop=False, cleanup=False)
                g.discrete()
                g.op("drop_group", g="g1")
                g.run()
                g.op("clear_exprs")
                g.append(lit(1))
                g.run()
                # Completed at last
                g.add(("Y",))
                g.add(("Z",))
                for p in list(g.nodes):
                    if sum(q[:-1] == p for q in g.nodes) == 1:
                        g.add(p + ("X",))
                g.run()
                if du == "no":
                    g.units(1, "int")
                g.append(["sym", "n"])
                g.run()
                if sym in ("undeclared",):
                    g.declare("n", "number")
                    g.run()
                g.assign("n", {"t": "scalar", "v": num(1), "dt": "i"})
                g.run()
                g.run(clear=True)
                g.run()
                out.append(g.program())
    return out


def c09_symbols(n):
    """Symbols of all kinds in expressions of all groups, declared and assigned one after another"""
    out = []
    for k in range(n):
        r = rng("C09s", k)
        g = ModelGen(r, "symbols-%d" % k)
        for p in ("A", "B"):
            g.add((p,))
        g.set_du([[num(1)], [num(2)]])
        kinds = {}
        for m in range(r.randint(2, 5)):
            kinds["%s%d" % (r.choice("abxyz"), m)] = r.choice(("number", "vector", "table", "table", "matrix"))
        later, how = [], {name: int(kind != "number" and r.random() < 0.35) for name, kind in kinds.items()}
        for name, kind in kinds.items():
            side = g.choices() if how[name] else g.du
            if kind == "table":
                fid = "F" + name
                g.ops.append(frame(fid, side, [("a", "i", [num(1), num(2)]), ("b", "i", [num(3), num(4)])], ldf=r.random() < 0.5))
                data = {"t": "table", "fid": fid}
            elif kind == "number":
                data = {"t": "scalar", "v": num(3), "dt": "i"}
            elif kind == "vector":
                data = {"t": "series", "dt": "i", "v": [num(1), num(5)], "idx": side}
            else:
                data = {"t": "frame", "dt": "i8", "idx": side, "cols": g.du if how[name] else g.choices(), "v": [[num(1), num(2)], [num(3), num(4)]]}
            later.append((name, kind, data))
        uses = {name: [["attr", [name, c]] for c in "ab"] if kind == "table" else [["sym", name]] for name, kind in kinds.items()}
        groups = ("", "", "g1", "g2")
        for _ in range(r.randint(2, 6)):
            some = r.sample(sorted(kinds), r.choice((1, 1, 2, 2, 3)) if len(kinds) > 2 else 1)
            ast = r.choice(uses[some[0]])
            for name in some[1:]:
                ast = ["bin", "+", ast, r.choice(uses[name])]
            g.append(ast, flt=r.choice(((), (), ("A",))), grp=r.choice(groups))
        used = sorted({x["x"]["grp"] for x in g.ops if x["op"] == "append"})

        def look():
            for grp in [""] + [x for x in used if x]:
                g.op("validate", g=grp)
                g.op("validate", g=grp, flags={x: r.random() < 0.5 for x in ("tree", "du", "exprs", "assign")})
                g.run(grp, check=False)
        todo = [("declare",) + x for x in later]
        while todo:
            what, name, kind, data = todo.pop(r.randrange(len(todo)))
            if what == "declare":
                g.declare(name, kind, how[name])
                todo.append(("assign", name, kind, data))
            else:
                g.assign(name, data)
            look()
        if len(used) > 1:
            g.op("drop_group", g=r.choice([x for x in used if x]))
            look()
        # Other decision units, as many as before or even the same ones, and symbols which are declared again
        for _ in range(r.choice((1, 1, 2))):
            what = r.random()
            if what < 0.6:
                g.set_du([[num(x)] for x in r.choice(((1, 2), (1, 2), (3, 4), (2, 1)))])
                again = [x for x in later if x[1] != "number"]
            elif what < 0.8:
                again = [r.choice(later)]
                g.declare(again[0][0], again[0][1], how[again[0][0]])
            else:
                g.op("clear_scope")
                again = list(later)
                for name, kind, _ in r.sample(later, len(later)):
                    g.declare(name, kind, how[name])
            look()
            for name, kind, data in r.sample(again, len(again)):
                g.assign(name, data)
                look()
        out.append(g.program())
    return out


def c09_values(n):
    """Utilities that are no numbers or infinite, in all places, and what is left after the failed run"""
    out = []
    for k in range(n):
        r = rng("C09v", k)
        g = ModelGen(r, "bounds-%d" % k)
        g.tree(r.choice((1, 1, 2)))
        g.units(r.randint(1, 4))
        rows, cols = g.du, g.choices()
        g.declare("x", "matrix", 0)
        g.vector("f", 0, name="v")
        kind = r.choice(("nan", "row", "some", "nest", "inf", "good", "nan+row"))
        v = [[small(r) for _ in cols] for _ in rows]
        i = r.randrange(len(rows))
        if "nan" in kind:
            v[r.randrange(len(rows))][r.randrange(len(cols))] = NAN
        if kind in ("row", "nan+row"):
            v[i] = [NINF] * len(cols)
        if kind == "some":
            for _ in range(r.randint(1, len(cols))):
                v[r.randrange(len(rows))][r.randrange(len(cols))] = NINF
        if kind == "nest":
            for c, p in enumerate(g.nodes):
                if len(p) == 1:
                    v[i][c] = NINF
        if kind == "inf":
            v[i][r.randrange(len(cols))] = ["pinf"]
        g.assign("x", {"t": "frame", "idx": rows, "cols": cols, "v": v, "dt": "f8"})
        clear = r.random() < 0.3
        g.append(["sym", "x"])
        g.append(["sym", "v"], grp="g1")
        for check in r.sample((True, False), 2):
            g.run(check=check)
        g.run("g1")
        if clear:
            (g.run if r.random() < 0.5 else g.discrete)(clear=True)
            g.run()
        else:
            g.discrete()
            # Repaired by new data only
            g.assign("x", {"t": "frame", "idx": rows, "cols": cols, "v": [[small(r) for _ in cols] for _ in rows], "dt": "f8"})
            g.run()
            g.discrete(seed=2)
        out.append(g.program())
    return out


# ---------------------------------------------------------------------------------------------------------------------
# C10 Repeated runs

def c10_histories(n):
    out = []
    for k in range(n):
        r = rng("C10", k)
        h = History(r, "history-%d" % k)
        h.new("m")
        for _ in range(r.randint(1, 3)):
            h.append("m", h.expression("m", grp=r.choice(("", "", "g1")), inf=0.1))
        h.run("m")
        h.run("m")
        for _ in range(r.randint(5, 12)):
            what = r.random()
            if what < 0.3:
                h.use("m")
            elif what < 0.4:
                h.assign("m", r.choice(h.names), good=r.random() < 0.8)
            elif what < 0.5:
                h.append("m", h.expression("m", grp=r.choice(("", "", "g1")), inf=0.1), setter=False)
            elif what < 0.6:
                h.set_du("m")
                if r.random() < 0.7:
                    h.redeclare("m")
            elif what < 0.68:
                h.partial("m", good=r.random() < 0.8)
            elif what < 0.74:
                h.new_choices("m")
            elif what < 0.8:
                (h.run if r.random() < 0.6 else h.discrete)("m", clear=True)
                h.run("m")
                h.redeclare("m")
            elif what < 0.84:
                h.op("clear_exprs", "m")
                h.models["m"].exprs = []
            elif what < 0.88:
                h.op("clear_scope", "m")
                h.cleared("m")
                h.redeclare("m")
            elif what < 0.92:
                h.declare("m", r.choice(h.names))
                h.run("m")
                h.redeclare("m")
            elif what < 0.96 and h.groups("m"):
                h.preval("m", r.choice(h.groups("m")))
                h.redeclare("m")
            else:
                h.validate("m", flags=r.random() < 0.5)
                h.plus()
        h.redeclare("m")
        h.run("m")
        h.run("m", check=False)
        h.discrete("m")
        out.append(h.program())
    return out


# ---------------------------------------------------------------------------------------------------------------------
# C11 Copies

def c11_copies(n):
    out = []
    for k in range(n):
        r = rng("C11", k)
        h = History(r, "copies-%d" % k, nrows=(1, 5))
        h.new("m")
        for _ in range(r.randint(1, 3)):
            h.append("m", h.expression("m", grp=r.choice(("", "", "g1", "g2")), inf=0.05))
        if r.random() < 0.5:
            h.partial("m")
        if r.random() < 0.3 and h.groups("m"):
            h.preval("m", h.groups("m")[0], cleanup=False)
        h.run("m")
        alive = ["m"]
        for step in range(r.randint(1, 3)):
            src = r.choice(alive)
            new = "c%d" % step
            if h.models[src].du is not None and r.random() < 0.5:
                h.subset(src, new)
            else:
                h.copy(src, new)
            alive.append(new)
            h.run(new)
            h.run(src)
            if r.random() < 0.5 and h.models[new].du is not None:
                h.discrete(new)
                h.discrete(src)
            for _ in range(r.randint(1, 4)):
                m = r.choice(alive)
                i = h.models[m]
                what = r.random()
                if i.du is None:
                    h.set_du(m)
                    h.redeclare(m)
                elif what < 0.3 and i.declared:
                    h.assign(m, r.choice(sorted(i.declared)), good=r.random() < 0.8)
                elif what < 0.4:
                    h.append(m, h.expression(m, grp=r.choice(("", "g1", "g3"))))
                elif what < 0.5:
                    h.partial(m)
                elif what < 0.58:
                    h.new_choices(m)
                elif what < 0.66 and h.groups(m):
                    g = r.choice(h.groups(m))
                    h.op("drop_group", m, g=g)
                    i.exprs = [x for x in i.exprs if x[1] != g]
                elif what < 0.74 and h.groups(m):
                    h.preval(m, r.choice(h.groups(m)))
                elif what < 0.8:
                    h.op("clear_exprs", m)
                    i.exprs = []
                    h.append(m, h.expression(m))
                elif what < 0.86:
                    h.run(m, clear=True)
                elif what < 0.92:
                    h.set_du(m)
                elif what < 0.96:
                    h.declare(m, r.choice(h.names))
                else:
                    h.op("clear_scope", m)
                    h.cleared(m)
                if r.random() < 0.2:
                    h.plus()
                for x in alive:
                    h.run(x, check=False)
        for x in alive:
            if h.models[x].du is None:
                h.set_du(x)
            h.redeclare(x)
            h.run(x)
        for x in alive:
            h.run(x)
        out.append(h.program())
    return out


def c11_precision(n):
    """Models of single precision and their copies"""
    out = []
    for k in range(n):
        r = rng("C11p", k)
        g = ModelGen(r, "precision-%d" % k, precision=r.choice((4, 4, 8)))
        if r.random() < 0.3:
            g.op("new", precision=r.choice((0, 2, 16)))
            g.ops.pop(0)
            g.ops.append(g.new)
        g.tree(r.choice((1, 1, 2)))
        g.units()
        if r.random() < 0.4:
            g.debug()
        g.symbols(r.randint(1, 3))
        for _ in range(r.randint(1, 3)):
            g.op("append", x=g.random_expr(1, 5, grp=r.choice(("", "g1"))), setter=False)
        g.look()
        g.run(check=False)
        alive = [g]
        for step in range(r.randint(1, 3)):
            src = r.choice(alive)
            new = src.other("c%d" % step)
            if r.random() < 0.5:
                src.op("copy", n=new.m, defaults=r.random() < 0.5, o_du=True, o_declared=True, o_assigned=True, o_exprs=True, o_utils=True)
            else:
                mask = [r.random() < 0.6 for _ in src.du]
                mask[r.randrange(len(mask))] = True
                src.op("subset", n=new.m, idx=src.du, mask=mask)
                new.du = [x for x, b in zip(src.du, mask) if b]
            alive.append(new)
            if r.random() < 0.5:
                r.choice(alive).op("set_precision", v=r.choice((3, 0, 5) if g.precision == 8 else (4, 8, 3)))
            for x in alive:
                x.look()
                x.run(check=False)
        out.append(g.program(den=64, tol=2e-5))
    return out


# ---------------------------------------------------------------------------------------------------------------------
# C12 Pre-evaluation

def c12_groups(n):
    out = []
    for k in range(n):
        r = rng("C12", k)
        h = History(r, "groups-%d" % k, small_tree=True)
        h.new("m")
        gs = ["g1", "g2", "g3"][:r.randint(1, 3)]
        for g in gs:
            for _ in range(r.randint(1, 2)):
                h.append("m", h.expression("m", grp=g))
        if r.random() < 0.6:
            h.append("m", h.expression("m"))
        if r.random() < 0.3:
            h.partial("m")
        h.run("m", check=False)
        for g in gs:
            h.run("m", g, check=False)
        todo = list(gs)
        r.shuffle(todo)
        alive = ["m"]
        while todo and r.random() < 0.9:
            g = todo.pop()
            m = r.choice(alive)
            what = r.random()
            if what < 0.75 or g not in h.groups(m):
                h.preval(m, g if r.random() < 0.95 else "g9")
            else:
                h.op("drop_group", m, g=g)
                h.models[m].exprs = [x for x in h.models[m].exprs if x[1] != g]
            h.run(m, check=False)
            if r.random() < 0.4:
                h.partial(m, good=r.random() < 0.75)
                h.run(m, check=False)
            if r.random() < 0.4 and len(alive) < 3:
                n = "c%d" % len(alive)
                if r.random() < 0.6:
                    h.copy(m, n, defaults=True)
                else:
                    h.subset(m, n)
                alive.append(n)
        for m in alive:
            h.run(m, check=False)
            h.discrete(m)
            for g in gs:
                h.run(m, g, check=False)
        m = r.choice(alive)
        if r.random() < 0.5:
            h.set_du(m)
        else:
            h.new_choices(m)
        h.redeclare(m)
        for m in alive:
            h.run(m, check=False)
        out.append(h.program())
    return out


def c12_shared(n):
    """Every symbol is used by some of the expressions, inside and outside groups; groups come and go, with clean-up"""
    out = []
    for k in range(n):
        r = rng("C12s", k)
        h = History(r, "shared-%d" % k, small_tree=True, symbols=r.sample(sorted(ALPHABET), r.randint(2, 4)))
        h.new("m")
        places = [""] * r.randint(1, 3) + ["g1"] * r.randint(1, 2) + ["g2"] * r.randint(0, 2) + ["g3"] * r.randint(0, 1)
        r.shuffle(places)
        for g in places:
            leaf = r.choice(h.leaves)
            ast = leaf.ast
            if leaf.kind == "s":
                ast = ["cmp", ["=="], [ast, tlit(r.choice(("red", "blue")))]]
            if r.random() < 0.4:
                other = r.choice([x for x in h.leaves if x.kind != "s"] or [leaf])
                if other.kind != "s":
                    ast = ["call", "where", [["cmp", [">"], [other.ast, lit(0)]], ast, lit(1)]] \
                        if leaf.kind not in ("s", "b") and other.kind != "b" else ast
            h.append("m", {"ast": ast, "flt": [], "grp": g, "nat": 0})
        alive = ["m"]
        todo = [g for g in ("g1", "g2", "g3") if g in places]
        r.shuffle(todo)
        for step in range(r.randint(1, 4)):
            if r.random() < 0.5 and len(alive) < 4:
                n = "c%d" % len(alive)
                m = r.choice(alive)
                if r.random() < 0.7:
                    h.copy(m, n, defaults=True)
                else:
                    h.subset(m, n)
                alive.append(n)
            m = r.choice(alive)
            gs = h.groups(m)
            if gs:
                g = r.choice(gs)
                if r.random() < 0.8:
                    h.preval(m, g)
                else:
                    h.op("drop_group", m, g=g)
                    h.models[m].exprs = [x for x in h.models[m].exprs if x[1] != g]
            if r.random() < 0.3:
                h.plus()
            for m in alive:
                h.op("validate", m, g="")
                for g in h.groups(m):
                    h.op("validate", m, g=g)
        for m in alive:
            h.run(m, check=False)
        out.append(h.program())
    return out


def c12_partial(n):
    """Tables of partial utilities in all arrangements"""
    out = []
    for k in range(n):
        r = rng("C12p", k)
        h = History(r, "partial-%d" % k, symbols=["n1"], nrows=(1, 5))
        h.new("m")
        if r.random() < 0.5:
            h.append("m", h.expression("m", grp=r.choice(("", "g1"))))
        for _ in range(r.randint(2, 5)):
            h.partial("m", good=r.random() < 0.7)
            h.run("m", check=False)
        out.append(h.program())
    return out

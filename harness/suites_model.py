"""The suites of programs for the properties of choice models."""
from __future__ import annotations

import itertools

from common import rng, thorough
from gen_model import ModelGen, NAMES
from genlib import *
from vals import NAN, NINF, boolean, num, text


def scale_up(quick, deep):
    return deep if thorough() else quick


# ---------------------------------------------------------------------------------------------------------------------
# C05 The choice tree

BADNAMES = ["_", "a.b", ".", ".x", "x."]
BADSCALES = [(0, 1), (-1, 2), (3, 2), (2, 1)]


def c05_random(n):
    out = []
    for k in range(n):
        r = rng("C05", k)
        g = ModelGen(r, "tree-%d" % k)
        for step in range(r.randint(3, 12)):
            what = r.random()
            pool = NAMES[:4] if r.random() < 0.8 else NAMES
            if what < 0.12:
                bad = r.random() < 0.6
                parent = r.choice([()] + [p for p in g.nodes if p[0] not in g.lost])
                g.op("add_choice", parent=names(parent), name=text(r.choice(BADNAMES) if bad else r.choice(pool)),
                     scale=num(*((1, 1) if bad else r.choice(BADSCALES))))
                if not bad:
                    pass
            elif what < 0.25:
                ns = [r.choice(pool) for _ in range(r.randint(1, 4))]
                if r.random() < 0.25:
                    at = r.randrange(len(ns))
                    bad = list(ns)
                    bad[at] = r.choice(BADNAMES)
                    g.op("add_choices", names=names(bad), scales=[num(1)] * len(bad), form=r.choice(("list", "iter")),
                         defscale=True)
                    for x in bad[:at]:
                        g.lost.add(x)    # Added, but nobody has the node
                        g.nodes = [p for p in g.nodes if p[0] != x] + [(x,)]
                elif r.random() < 0.2:
                    # Another number of scales than of names
                    sc = [num(1), num(1, 2), num(1, 2), num(1), num(1)][:r.choice([k for k in range(6) if k != len(ns)])]
                    g.op("add_choices", names=names(ns), scales=sc, form=r.choice(("list", "gen")), defscale=False)
                else:
                    sc = [r.choice(((1, 1), (1, 2), (3, 4))) for _ in ns] if r.random() < 0.5 else None
                    g.add_many(ns, sc, r.choice(("list", "tuple", "iter", "gen")))
            elif what < 0.6 or not g.nodes:
                g.add((r.choice(pool),), r.choice(((1, 1), (1, 2))))
            else:
                parents = [p for p in g.nodes if len(p) < 4 and p[0] not in g.lost]
                if parents:
                    g.add(r.choice(parents) + (r.choice(pool),), r.choice(((1, 1), (1, 2))))
            if r.random() < 0.15 and g.nodes:
                p = r.choice([p for p in g.nodes if p[0] not in g.lost] or [("A",)])
                if p not in g.nodes:
                    g.add(p)
                g.op("set_scale", path=names(p), scale=num(*r.choice(((1, 2), (1, 4), (0, 1), (5, 4)))))
            g.look()
        # Completes the tree and uses it
        complete(g)
        g.look()
        g.units(r.randint(1, 3))
        g.vector("f", 0)
        for p in r.sample(g.nodes, min(3, len(g.nodes))):
            g.append(["bin", "+", g.leaves[0].ast, lit(r.randint(0, 3))], p)
        g.run()
        g.append(g.dict_literal())
        g.run()
        # Changed afterwards: results use the new choices, and no partial utilities from before
        if r.random() < 0.7:
            g.op("partial", idx=g.du, cols=g.choices(), v=[[small(r) for _ in g.nodes] for _ in g.du], dt="f8", rr=False, rc=True)
            g.run()
            g.op("clear_exprs")
            parents = [p for p in g.nodes if p[0] not in g.lost]
            if r.random() < 0.5 or not parents:
                g.add((r.choice(NAMES),))
            else:
                g.add(r.choice(parents) + ("new",))
                if r.random() < 0.5:
                    g.look()
            complete(g)
            g.look()
            g.append(g.dict_literal())
            g.run()
            g.discrete()
        out.append(g.program())
    return out


def complete(g):
    """Adds choices until there are two at the top and no nest has a single one"""
    r = g.r
    while len([p for p in g.nodes if len(p) == 1]) < 2:
        g.add((r.choice(NAMES),))
    again = True
    while again:
        again = False
        for p in list(g.nodes):
            kids = [q for q in g.nodes if len(q) == len(p) + 1 and q[:-1] == p]
            if len(kids) == 1:
                free = [x for x in NAMES if x != kids[0][-1]]
                g.add(p + (r.choice(free),))
                again = True


# ---------------------------------------------------------------------------------------------------------------------
# C06 Utilities

def c06_random(n):
    out = []
    for k in range(n):
        r = rng("C06", k)
        g = ModelGen(r, "utilities-%d" % k, precision=4 if k % 7 == 3 else 8)
        g.tree()
        g.units()
        g.symbols(r.randint(2, 4))
        bound = 5 if g.precision == 4 else 10
        xs = [g.random_expr(r.choice((1, 1, 2)), bound) for _ in range(r.randint(1, 4))]
        if r.random() < 0.25:
            xs.append(g.expr(["neginf"], r.choice(g.nodes), at=" @ "))
        if r.random() < 0.15:
            xs.append(g.expr(["call", "where", [g.gen().boolean(1), ["neginf"], lit(0)]]))
        groups = r.random() < 0.3
        if groups:
            for x in xs:
                if r.random() < 0.5:
                    x["grp"] = r.choice(("g1", "g2"))
        if r.random() < 0.3 and g.precision == 8:
            partial(g)
        for x in xs:
            g.op("append", x=x, setter=False)
        g.run(check=r.random() < 0.5)
        if groups:
            for name in ("g1", "g2"):
                if any(x["grp"] == name for x in xs):
                    g.run(name, check=False)
        # The order does not matter
        if len(xs) > 1:
            g.op("clear_exprs")
            ys = list(xs)
            r.shuffle(ys)
            for x in ys:
                g.op("append", x=x, setter=not x["grp"] and r.random() < 0.2)
            g.run(check=False, threads=r.choice((1, 2, 4)))
        out.append(g.program())
    return out


def c06_debug(n):
    """The running totals of one decision unit"""
    out = []
    for k in range(n):
        r = rng("C06d", k)
        g = ModelGen(r, "debug-%d" % k)
        g.tree(r.choice((1, 1, 2)))
        g.units()
        g.debug()
        g.symbols(r.randint(1, 3))
        if r.random() < 0.4:
            partial(g)
        if r.random() < 0.2:
            g.run(check=False)
        groups = set()
        for _ in range(r.randint(1, 5)):
            grp = r.choice(("", "", "g1", "g2", "g3"))
            groups.add(grp)
            g.op("append", x=g.random_expr(1, 8, grp=grp), setter=not grp and r.random() < 0.2)
        for grp in sorted(groups | {""}):
            g.run(grp, check=False, log=r.random() < 0.2)
        if r.random() < 0.4:
            g.op("preval", g=r.choice(sorted(groups - {""}) or ["g1"]), drop=r.random() < 0.6, cleanup=False)
            g.run(check=False)
        if r.random() < 0.3:
            g.op("set_du", du=list(reversed(g.du)), form="index", **({"names": ["h", "p"]} if len(g.du[0]) > 1 else {}))
            g.op("clear_exprs")
            g.append(lit(2))
            g.append(g.dict_literal())
            g.run(check=False)
        else:
            g.discrete()
        out.append(g.program())
    return out


def partial(g, subset=None):
    r = g.r
    rows, cols = list(g.du), g.choices()
    rr = rc = True
    subset = r.random() < 0.5 if subset is None else subset
    if subset:
        rows = r.sample(rows, r.randint(1, len(rows)))
        cols = r.sample(cols, r.randint(1, len(cols)))
    elif r.random() < 0.5:
        rr, rc = False, r.random() < 0.5
    g.op("partial", idx=rows, cols=cols, v=[[small(r, -3, 3, 2) for _ in cols] for _ in rows],
         dt=r.choice(("f8", "f8", "f4")), rr=rr, rc=rc)


def c06_placement(n):
    """Constants by filters and dict literals, in all kinds of trees: which cells they end up in"""
    out = []
    for k in range(n):
        r = rng("C06p", k)
        g = ModelGen(r, "placement-%d" % k)
        g.tree(r.choice((1, 2, 2, 3, 3)))
        g.units(2, "int")
        for _ in range(3):
            g.op("clear_exprs")
            for _ in range(r.randint(1, 3)):
                if r.random() < 0.5:
                    g.append(lit(r.randint(1, 5)), r.choice(g.nodes), at=r.choice((" @ ", "@", " @  ")))
                else:
                    g.append(g.dict_literal())
            g.run()
        out.append(g.program())
    return out

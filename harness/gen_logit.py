"""Random logit models, whose probabilities are rational numbers (see specs/Logit.tla)."""
from __future__ import annotations

from fractions import Fraction as F
from math import lcm

from vals import num, text

NAMES = ["A", "B", "C", "D", "walk", "x2", "Bus", "zoo"]
SCALES = [F(1), F(1), F(1, 2), F(1, 2), F(1, 4), F(1, 3), F(3, 4), F(2, 3)]


def root(f, q):
    for t in range(1, 9):
        if t ** q == f:
            return t
    return None


class Tree:
    """A tree of choices in some order of insertion"""

    def __init__(self, r, depth, wide=3, flat_scales=False, nested=True):
        self.r = r
        self.paths, self.scale = [], {}
        tops = r.randint(2, wide + 1)
        grow = [(n,) for n in r.sample(NAMES, tops)]
        todo = []
        for p in grow:
            todo.append(p)
        k = 0
        while k < len(todo):
            p = todo[k]
            k += 1
            if len(p) < depth and (nested and (k == 1 and len(p) == 1 or r.random() < (0.45 if len(p) == 1 else 0.3))):
                for n in r.sample(NAMES, r.randint(2, wide)):
                    todo.append(p + (n,))
        self.paths = self.order(todo)
        for p in self.paths:
            self.scale[p] = F(1) if flat_scales else r.choice(SCALES)

    def order(self, paths):
        """Parents come before their children, otherwise in any order"""
        r = self.r
        how = r.randrange(3)
        if how == 0:
            return list(paths)                              # Level by level
        if how == 1:
            return sorted(paths, key=lambda p: p)           # Branch by branch
        left, out = list(paths), []
        while left:
            p = r.choice([p for p in left if len(p) == 1 or p[:-1] in out])
            left.remove(p)
            out.append(p)
        return out

    def kids(self, p):
        return [q for q in self.paths if len(q) == len(p) + 1 and q[:len(p)] == p]

    def leaf(self, p):
        return not self.kids(p)

    def nodes(self):
        return [{"path": [text(n) for n in p], "scale": num(self.scale[p])} for p in self.paths]

    def exponent(self, p, scaling):
        over = self.scale[p[:-1]] if len(p) > 1 and scaling else F(1)
        return self.scale[p] / over


def split(r, total, n, zero=0.15):
    """n terms that add up to total, some of them zero"""
    live = [k for k in range(n) if r.random() > zero] or [r.randrange(n)]
    d = r.choice((4, 5, 6, 8, 10))
    d = max(d, len(live))
    cuts = sorted(r.sample(range(1, d), len(live) - 1)) if len(live) > 1 else []
    sizes = [b - a for a, b in zip([0] + cuts, cuts + [d])]
    out = [F(0)] * n
    for k, s in zip(live, sizes):
        out[k] = total * F(s, d)
    return out


class Row:
    """The exponentials of one row of utilities: b of every node, such that the recursion stays rational"""

    def __init__(self, r, tree, scaling, infeasible=False, zero=0.15, unit_nests=False):
        self.tree, self.r, self.scaling, self.zero, self.unit = tree, r, scaling, zero, unit_nests
        self.b, self.e, self.p = {}, {}, {}
        tops = tree.kids(())
        if infeasible:
            for p in tops:
                self.close(p)
            for p in tree.paths:
                self.p[p] = F(0)
            return
        total = F(r.choice((1, 1, 2, 3, 5)), r.choice((1, 1, 2)))
        for p, e in zip(tops, split(r, total, len(tops), zero)):
            self.fill(p, e, F(e) / total)

    def close(self, p):
        """Makes p infeasible"""
        r, kids = self.r, self.tree.kids(p)
        self.e[p] = self.p[p] = F(0)
        if not kids:
            self.b[p] = F(0)
        elif r.random() < 0.5 and not self.unit:
            self.b[p] = F(0)      # The nest itself, whatever is in it
            parts = split(r, F(r.choice((1, 2, 3))), len(kids), 0.3)
            for q, e in zip(kids, parts):
                self.fill(q, e, F(0))
        else:
            self.b[p] = F(r.choice((0, 1, 2))) if not self.unit else F(1)
            for q in kids:
                self.close(q)

    def fill(self, p, e, prob):
        if e == 0:
            return self.close(p)
        self.e[p], self.p[p] = e, prob
        kids = self.tree.kids(p)
        if not kids:
            self.b[p] = e
            return
        x = self.tree.exponent(p, self.scaling)
        if self.unit:        # No utility of its own: the sum has to be right
            t = e
            assert x == 1
            self.b[p] = F(1)
        else:
            q = x.denominator
            base = self.r.choice((1, 2, 3) if q <= 2 else (1, 2))
            t = F(base ** q, 1 if self.r.random() < 0.7 else 2 ** q)
            self.b[p] = e / (F(root(F(t.numerator), q), root(F(t.denominator), q)) ** x.numerator)
        for c, ce in zip(kids, split(self.r, t, len(kids), self.zero)):
            self.fill(c, ce, prob * ce / t)

    def limits(self):
        """The largest denominator and numerator that turn up"""
        ps = [self.p[p] for p in self.tree.paths if self.tree.leaf(p)]
        common = lcm(*[p.denominator for p in ps])
        es = list(self.e.values()) + list(self.b.values()) + [sum(self.e[p] for p in self.tree.kids(()))]
        return common, max(max(x.denominator, x.numerator) for x in es)


def rows_for(r, tree, scaling, n, small=False, infeasible=0.0, unit_nests=False, zero=0.15):
    out = []
    while len(out) < n:
        row = Row(r, tree, scaling, r.random() < infeasible, zero, unit_nests)
        common, worst = row.limits()
        if (common <= 60 and worst <= 60) if small else (common <= 9000 and worst <= 5000):
            out.append(row)
        elif r.random() < 0.02:
            return None
    return out


def table(r, tree, rows, shifts=True):
    """The fields of an operation for the utilities of these rows"""
    b = [[num(row.b[p]) for p in tree.paths] for row in rows]
    zeros = [[r.choice(("inf", "inf", "inf", "big", "huge")) for _ in tree.paths] for _ in rows]
    shift = [r.choice((0, 0, 0, 0, 40, -40, 300, -300, 640, -640)) if shifts else 0 for _ in rows]
    return {"b": b, "zeros": zeros, "shift": shift}

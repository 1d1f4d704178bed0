"""The suites of programs for the properties of linked frames."""
from __future__ import annotations

from astlib import source
from common import rng
from gen_frame import AGGS, FrameGen, Info
from genlib import *
from vals import NAN, boolean, num, text


# ---------------------------------------------------------------------------------------------------------------------
# C14 Lookups

def c14_lookups(n):
    out = []
    for k in range(n):
        r = rng("C14", k)
        g = FrameGen(r, "lookups-%d" % k)
        f, _ = g.build(r.choice((1, 2, 2, 3)))
        for o in g.ops:
            if o["op"] == "frame" and o["ldf"] and o["idx"] and len(o["inames"]) == 1 and o["idx"][0][0][0] == "n" \
                    and all(x in "ifb" and NAN not in o["data"][c] for c, x in o["kind"].items()):
                o["via"] = r.choice(("csv", "table", "any", ""))
        g.lookups(f, most=16)
        for p, t, agg in g.chains(f):
            if r.random() < 0.25:
                g.op("members", f=f.fid, path=p, how=g.how())
        if r.random() < 0.2:
            g.op("export", f=f.fid, index=r.random() < 0.7)
        if r.random() < 0.3:
            g.op("compute", f=f.fid, refresh=r.random() < 0.5)
            g.lookups(f, most=4)
        out.append(g.program())
    return out


# ---------------------------------------------------------------------------------------------------------------------
# C15 Aggregations

def c15_aggregations(n):
    out = []
    for k in range(n):
        r = rng("C15", k)
        g = FrameGen(r, "aggregations-%d" % k)
        g.kinds = ("i", "i", "f", "f", "b", "s", "c", "u", "n")
        while True:
            g.ops, g.frames, g.count = [], {}, 0
            f, _ = g.build(r.choice((1, 2, 2)))
            if any(agg for _, _, agg in g.chains(f)):
                break
        g.aggregates(f, most=14)
        if r.random() < 0.5:
            g.misuse(f)
        out.append(g.program())
    return out


# ---------------------------------------------------------------------------------------------------------------------
# C16 Derived frames

def c16_derived(n):
    out = []
    for k in range(n):
        r = rng("C16", k)
        g = FrameGen(r, "derived-%d" % k)
        g.kinds = ("i", "i", "f", "b", "s", "c", "n", "ci")
        f, _ = g.build(r.choice((1, 1, 2)), n=r.choice((3, 4, 5, 6)))
        if r.random() < 0.5:
            g.lookups(f, most=3)    # Some links are then indexed, others are not
        fid, cols = f.fid, list(f.kind)
        made = [(fid, cols)]
        for step in range(r.choice((1, 2, 3, 4))):
            if r.random() < 0.25:
                fid, cols = r.choice(made)
            if r.random() < 0.2:
                g.derive(f, fid, cols, f.kind, inplace=True)
            else:
                fid, cols = g.derive(f, fid, cols, f.kind)
                if len(cols) < 2:
                    break
                made.append((fid, cols))
            if r.random() < 0.2:
                g.op("compute", f=fid, refresh=r.random() < 0.5)
            if r.random() < 0.6:
                use(g, r, f, fid)
        for m, _ in made:
            use(g, r, f, m, 8 if m == fid else 3)
        out.append(g.program())
    return out


def use(g, r, f, fid, most=4):
    g.lookups(f, fid, most=most)
    g.aggregates(f, fid, most=max(1, most // 2))


# ---------------------------------------------------------------------------------------------------------------------
# C17 Fill values

WORDS = ("red", "blue", "green", "a", "ab", "abc")


class FillGen(FrameGen):

    def fill(self, kind):
        r = self.r
        falsy = r.random() < 0.25
        if kind in ("i", "i4", "o"):
            return num(0 if falsy else r.randint(-9, 9))
        if kind == "u":
            return num(0 if falsy else r.randint(1, 9))
        if kind == "f":
            return num(0) if falsy else NAN if r.random() < 0.1 else num(r.randint(-20, 20), r.choice((1, 2, 4)))
        if kind == "b":
            return boolean(r.random() < 0.6)
        if kind == "s":
            return text("" if falsy else r.choice(("none", "?", "red", "missing one")))
        if kind == "t":
            return NAN if r.random() < 0.2 else num(r.randint(50, 90))
        common = set(map(tuple_of, self.frames_of("c")[0])) if self.frames_of("c") else set()
        for v in self.frames_of("c")[1:]:
            common &= set(map(tuple_of, v))
        common.discard(("nan",))
        return NAN if not common or r.random() < 0.2 else list_of(r.choice(sorted(common)))

    def frames_of(self, kind):
        """The data of all columns of a type"""
        return [f.data[c] for f in self.frames.values() for c, k in f.kind.items() if k == kind]

    def fills(self, kinds=None, most=4):
        r = self.r
        kinds = kinds or [k for k in "iufbscto"]
        return {k: self.fill(k) for k in r.sample(kinds, r.randint(1, min(most, len(kinds))))}

    def who(self):
        ldfs = [f.fid for f in self.frames.values() if f.ldf]
        return self.r.choice([""] * 2 + ldfs * 2)


def tuple_of(v):
    return (v[0], tuple(v[1])) if v[0] == "s" else tuple(v)


def list_of(v):
    return [v[0], list(v[1])] if v[0] == "s" else list(v)


def c17_fills(n):
    out = []
    for k in range(n):
        r = rng("C17", k)
        g = FillGen(r, "fills-%d" % k)
        g.kinds = ("i", "i", "f", "b", "s", "c", "t", "u", "o", "i4", "i2", "i1", "u1", "u2", "u4", "ci", "cb")
        while True:
            g.ops, g.frames, g.count = [], {}, 0
            f, _ = g.build(r.choice((1, 1, 2)), n=r.choice((3, 4, 5)), links=r.choice((1, 2, 2, 3)))
            if any(not agg for _, _, agg in g.chains(f)):
                break
        g.lookups(f, most=4)
        temps = 0
        for step in range(r.randint(5, 14)):
            p = r.random()
            who = g.who()
            if p < 0.28:
                g.op("setfill", who=who, fills=g.fills(), bad=False)
            elif p < 0.42:
                t = r.choice([x for x in g.frames.values() if x.ldf])
                if t.kind and r.random() < 0.9:
                    c = r.choice(sorted(t.kind))
                    g.op("colfill", f=t.fid, col=c, v=g.fill(t.kind[c]))
                else:
                    g.op("colfill", f=t.fid, col="nosuch", v=num(1))
            elif p < 0.62:
                bad = r.random() < 0.12
                g.op("tempfill", who=who, fills=g.fills(), bad=bad)
                temps += not bad
            elif p < 0.78 and temps:
                g.op("endfill", error=r.random() < 0.5)
                temps -= 1
            elif p < 0.86:
                g.op("resetfill", who=who)
            elif p < 0.9:
                g.op("setfill", who=who, fills=g.fills() if r.random() < 0.6 else {}, bad=True)
            elif p < 0.95:
                g.aggregates(f, most=2)
            else:
                g.op("compute", f=f.fid, refresh=r.random() < 0.5)
            g.lookups(f, most=3)
        while temps:
            g.op("endfill", error=r.random() < 0.5)
            temps -= 1
        g.lookups(f, most=10)
        out.append(g.program())
    return out


# ---------------------------------------------------------------------------------------------------------------------
# C18 Specifications of links

DOMAINS = {"i": [num(x) for x in range(1, 8)], "f": [num(x, 2) for x in range(2, 9)],
           "s": [text(x) for x in ("p", "q", "r", "s", "tt", "Q", "")]}


class LinkGen(FrameGen):

    def table(self, ldf=True):
        r = self.r
        fid = self.new_id()
        n = r.choice((1, 2, 3, 4, 5))
        f = Info(fid, n, ldf)
        few = r.random() < 0.5

        def some(kind, unique):
            dom = DOMAINS[kind] + ([NAN] if kind == "f" else [])
            return r.sample(dom, n) if unique else [r.choice(dom[:3] if few else dom) for _ in range(n)]

        cols = [("a", "i", some("i", True)), ("b", "i", some("i", False)), ("s", "s", some("s", r.random() < 0.5)),
                ("x", "f", some("f", r.random() < 0.5)), ("v", "f", values(r, "f", n)), ("w", "s", values(r, "s", n))]
        if r.random() < 0.3:
            gone = r.choice("abs")
            cols = [c for c in cols if c[0] != gone]
        nlevels = r.choice((1, 1, 2, 3))
        if nlevels == 1:
            idx = [[x] for x in some(r.choice("is"), r.random() < 0.7)]
        else:
            kinds = [r.choice("is") for _ in range(nlevels)]
            levels = [some(k, False) for k in kinds]
            if r.random() < 0.6:
                levels[r.randrange(nlevels)] = some("i", True)
            idx = [list(x) for x in zip(*levels)]
        # The index has levels and columns of the same name, in some frames
        inames = r.sample(("i0", "i1", "i2", "b2"), nlevels)
        r.shuffle(cols)
        f.idx, f.inames = idx, inames
        f.kind = {c: k for c, k, _ in cols}
        f.data = {c: v for c, _, v in cols}
        self.frames[fid] = f
        self.ops.append(frame(fid, idx, cols, inames, ldf=ldf))
        return f

    def side(self, f, parts):
        """How to name the keys on one side: (form, labels)"""
        r = self.r
        forms = ["columns"] * 3 + (["levels"] * 2 if parts <= len(f.inames) else []) + \
            (["index"] * 3 if parts == len(f.inames) else [])
        form = r.choice(forms)
        if form == "columns":
            return form, r.sample([c for c in f.kind if c in "absx"], parts)
        if form == "levels":
            at = r.sample(range(len(f.inames)), parts)
            return form, [p if r.random() < 0.4 else f.inames[p] for p in at]
        return form, []

    def specification(self, f, t):
        r = self.r
        parts = r.choice((1, 1, 1, 2))
        a, b = self.side(f, parts), self.side(t, parts)
        args = {}
        for (form, labels), col, lev in ((a, "on_self", "self_levels"), (b, "on_other", "other_levels")):
            if labels:
                args[col if form == "columns" else lev] = labels
        k = r.random()
        if a[0] == b[0] and r.random() < 0.6:
            shared = [x for x in (f.kind if a[0] == "columns" else f.inames) if x in (t.kind if b[0] == "columns" else t.inames)
                      and x not in "vw"]
            if len(shared) >= parts and a[0] != "index":
                args = {"on" if a[0] == "columns" else "levels": r.sample(shared, parts)}
        if k < 0.1:       # Contradictory
            for x, y in (("on", "levels"), ("on_self", "self_levels"), ("on_other", "other_levels"), ("on", "self_levels"),
                         ("on", "other_levels"), ("levels", "on_self"), ("levels", "on_other")):
                if x in args and r.random() < 0.7:
                    args[y] = [f.inames[0]] if "levels" in y else ["b"]
                    break
        elif k < 0.2:     # Unknown
            x = r.choice(sorted(args)) if args else r.choice(("on", "levels", "on_self", "other_levels"))
            args[x] = list(args.get(x, [""]))
            args[x][r.randrange(len(args[x]))] = r.choice(("nosuch", "i9", "a b")) if "levels" not in x or r.random() < 0.7 else 7
        elif k < 0.3:     # Another number of parts
            x = r.choice(("on_self", "on_other"))
            args[x] = (args.get(x) or ["b"]) + ["a"] if r.random() < 0.5 else ["s"]
            if len(set(args[x])) < len(args[x]):
                args[x] = ["a", "s", "b"]
        elif k < 0.36:    # An override of what is given for one side
            if "on" in args:
                args["on_self"] = ["nosuch"]
            elif "levels" in args:
                args["other_levels"] = ["nosuch"]
        elif k < 0.4:     # The other kind of name
            for x in ("on_self", "on_other", "on"):
                if x in args:
                    args[x] = [f.inames[0]]
        return args


LINKNAMES = ("z", "y", "my link", "2nd", "z_1", "far")


def c18_links(n):
    out = []
    for k in range(n):
        r = rng("C18", k)
        g = LinkGen(r, "links-%d" % k)
        fs = [g.table(ldf=m == 0 or r.random() < 0.6) for m in range(r.choice((2, 3, 3, 4)))]
        roots = [f for f in fs if f.ldf]
        used = {f.fid: {} for f in fs}
        for _ in range(r.randint(4, 12)):
            f = r.choice(roots)
            t = r.choice([x for x in fs if x is not f] or fs)
            name = r.choice(LINKNAMES[:3] if r.random() < 0.6 else LINKNAMES)
            args = g.specification(f, t)
            g.ops.append(link(f.fid, t.fid, name, precompute=r.random() < 0.5, scalar=r.random() < 0.6, **args))
            used[f.fid][name] = t
            for _ in range(r.randint(1, 5)):
                g.use_links(roots, used)
        for f in roots:
            g.op("summary", f=f.fid)
            for name in used[f.fid]:
                g.op("target", f=f.fid, name=name)
        out.append(g.program())
    return out


def use_links(self, roots, used):
    r = self.r
    f = r.choice(roots)
    k = r.random()
    if k < 0.15:
        self.op("summary", f=f.fid)
    elif k < 0.25:
        self.op("target", f=f.fid, name=r.choice(LINKNAMES))
    elif k < 0.3 and used[f.fid]:
        path = [r.choice(sorted(used[f.fid]))]
        while used[used[f.fid][path[0]].fid] and len(path) < 2 and r.random() < 0.5:
            path.append(r.choice(sorted(used[used[f.fid][path[0]].fid])))
        self.op("members", f=f.fid, path=path, how=self.how())
    elif k < 0.36:
        self.op("compute", f=f.fid, refresh=r.random() < 0.5)
    elif k < 0.42:
        # Other keys, which are as unique as those before
        t = r.choice(sorted(self.frames.values(), key=lambda x: x.fid))
        c = r.choice([c for c in t.kind if c in "absx"])
        domain = DOMAINS[t.kind[c]]
        other = dict(zip(map(str, domain), r.sample(domain, len(domain)) if r.random() < 0.5 else domain[1:] + domain[:1]))
        t.data[c] = [other.get(str(v), v) for v in t.data[c]]
        self.op("rekey", f=t.fid, col=c, v=t.data[c])
    elif used[f.fid]:
        name = r.choice(sorted(used[f.fid]))
        t = used[f.fid][name]
        path = [name]
        while used[t.fid] and r.random() < 0.5 and len(path) < 4:
            path.append(r.choice(sorted(used[t.fid])))
            t = used[t.fid][path[-1]]
        how = self.how()
        if r.random() < 0.6:
            self.op("lookup", f=f.fid, names=path + [r.choice("vwab")], how=how)
        else:
            func = r.choice(("count", "sum", "max", "first", "mean"))
            self.op("agg", f=f.fid, path=path, func=func, arg=["col", "v"], q=num(0), intfill=num(-1), how=how,
                    noargs=False, setfill=False)


LinkGen.use_links = use_links


# ---------------------------------------------------------------------------------------------------------------------
# C19 Evaluating and pivoting

PLAIN = ("i", "f", "b", "s", "c", "u", "n")


class EvalGen(FrameGen):

    def leaves(self, f, keys=False):
        """Everything an expression over frame f can refer to"""
        out = []
        for c, k in f.kind.items():
            if k not in PLAIN or (k in "sc" and (NAN in f.data[c] or not f.n)) or (not keys and c not in "abcdefg"):
                continue
            v = f.data[c]
            if k == "n":
                k = "f" if NAN in v else "i"
            out.append(Leaf(["sym", c], k, 6, 4 if k == "f" else 1, nan=NAN in v,
                            nonneg=all(x[0] == "n" and x[1] >= 0 for x in v), words=words_of(v), symbols=(c,)))
        for path, t, agg in self.chains(f):
            if agg:
                nums = [c for c, k in t.kind.items() if k in "if" and c in "abcdefg"]
                for c in nums[:2]:
                    i = t.kind[c] == "i"
                    for func, bound, den in (("count", 7, 1), ("max", 6, 4), ("sum", 42, 4), ("first", 6, 4), ("mean", 6, 1680)):
                        args = [c] if func != "count" else [c]
                        out.append(Leaf(["agg", path, func, ["sym", args[0]]], "i" if i and func not in ("mean",) else "f", bound, den,
                                        nan=func != "count" and (not i or func == "mean"), symbols=(path[0],)))
                out.append(Leaf(["agg", path, "count", lit(1), "noargs"], "i", 7, 1, symbols=(path[0],)))
                if nums and t.ldf:
                    out.append(Leaf(["agg", path, "sum", ["call", "where", [["cmp", [">"], [["sym", nums[0]], lit(0)]], lit(1), lit(0)]]],
                                    "i", 7, 1, symbols=(path[0],)))
            else:
                for c, k in t.kind.items():
                    if k not in PLAIN or c not in "abcdefg" or (k in "sc" and NAN in t.data[c]) or k == "c":
                        continue
                    if k == "s" and not t.n:
                        continue
                    v = t.data[c]
                    k = "f" if k == "n" else k
                    out.append(Leaf(["attr", path + [c]], k, 6, 4 if k == "f" else 1, nan=k == "f",
                                    nonneg=k == "u" or bool(v) and all(x[0] == "n" and x[1] >= 0 for x in v), words=words_of(v),
                                    symbols=(path[0],)))
        return out

    def locals(self, f):
        """Local variables: numbers and arrays, some with the name of a column"""
        r = self.r
        loc, leaves = {}, []
        for _ in range(r.randint(0, 4)):
            name = r.choice(("v1", "v2", "p", "w3", "k0", "a", "b"))
            if name in loc:
                continue
            kind = r.choice("iffb")
            if r.random() < 0.5:
                v = values(r, kind, f.n)
                loc[name] = {"arr": True, "v": v, "dt": kind}
            else:
                v = values(r, kind, 1)
                loc[name] = {"arr": False, "v": v[0], "dt": kind}
            if name not in f.kind:
                leaves.append(Leaf(["sym", name], kind, 6, 4, nonneg=all(x[0] == "n" and x[1] >= 0 for x in v), symbols=(name,)))
        return loc, leaves


def words_of(v):
    return tuple("".join(map(chr, x[1])) for x in v if x[0] == "s")


def c19_frame(r, id, more=("n",), sizes=(2, 3, 4, 5)):
    g = EvalGen(r, id)
    g.kinds = ("i", "i", "f", "f", "b", "s", "c", "u") + more
    g.nulls = 0.15
    while True:
        g.ops, g.frames, g.count = [], {}, 0
        f, _ = g.build(r.choice((1, 1, 2)), n=r.choice(sizes), links=r.choice((0, 1, 2, 2)))
        leaves = g.leaves(f)
        if any(x.kind in "if" and not x.nan for x in leaves):
            return g, f, leaves


def c19_evaluate(n):
    out = []
    for k in range(n):
        r = rng("C19e", k)
        g, f, leaves = c19_frame(r, "evaluate-%d" % k, sizes=(0, 2, 2, 3, 3, 3, 4, 4, 5, 5))
        for _ in range(8):
            loc, more = g.locals(f)
            gen = ExprGen(r, leaves + more * 2)
            p = r.random()
            if p < 0.15:
                ast = r.choice(leaves).ast
            elif p < 0.55:
                ast = gen.boolean(r.choice((1, 2, 3)))
            else:
                ast = gen.num(r.choice((1, 2, 3, 4)), r.choice((10, 50, 100)), 256).ast
            if size(ast) > 160:
                ast = gen.boolean(1)
            if constant(ast) or (ast[0] in ("sym", "attr") and text_leaf(ast, leaves)):
                continue
            nat = 0
            if p > 0.9:
                ast = r.choice((["bin", "+", ast, ["sym", "nosuch"]] if p > 0.95 else ["cmp", [">"], [["sym", "nosuch"], lit(1)]],
                                ["bin", "+", ["dict", [[[text("A")], num(1)]]], ast],
                                ["bad", "ifexp", [ast, ast, ast]], ["bad", "subscript", [["sym", "a"], lit(0)]],
                                ["bad", "badfunc", [ast]], ["attr", ["nolink", "a"]],
                                ["bin", "*", ["attr", [(sorted(f.links) or ["z"])[0], "nosuch"]], lit(2)]))
            elif p > 0.87:
                nat = 1
            elif p > 0.82:
                ast = r.choice((["call", "where", [gen.boolean(1), ["neginf"], gen.num(1, 10, 64).ast]],
                                ["cmp", [r.choice((">", "<", "==", "!="))], r.sample([["neginf"], gen.num(1, 10, 64).ast], 2)],
                                ["bin", "+", ["neginf"], gen.num(1, 10, 64).ast]))
                if constant(ast):
                    continue
            nums = ast[0] in ("bin", "un", "call") and not boolean_ast(ast)
            g.op("eval", f=f.fid, ast=ast, loc=loc, nat=nat, out="", passloc=r.random() < 0.5)
        if r.random() < 0.5:
            g.op("eval", f=f.fid, ast=["bin", "*", gen.num(2, 20, 64).ast, ["sym", [x for x in leaves if x.kind in "if" and not x.nan
                                                                               and x.ast[0] == "sym"][0].ast[1]]]
                 if any(x.kind in "if" and not x.nan and x.ast[0] == "sym" for x in leaves) else ["bin", "+", r.choice(
                     [x for x in leaves if x.kind in "if" and not x.nan]).ast, lit(1)], loc=loc, nat=0, out="f8", passloc=True)
        for _ in range(r.choice((0, 1, 1, 2))):
            x = gen.num(2, 20, 16).ast
            if not constant(x):
                g.op("eval", f=f.fid, ast=["bin", "*", x, lit(1, 2)], loc=loc, nat=0, out=r.choice(("f8", "f4", "f4", "i8", "f4", "b1")),
                     cast=any(y.kind == "u" and y.ast in parts(x) for y in leaves) or r.random() < 0.6, passloc=True)
        if f.n == 0:    # Nothing can be stored
            for o in g.ops:
                if o["op"] == "eval":
                    o["out"] = ""
        out.append(g.program())
    return out


def parts(e):
    return [e] + [y for x in e if isinstance(x, list) for y in parts(x)]


def boolean_ast(ast):
    return ast[0] in ("cmp", "bool") or (ast[0] == "bin" and ast[1] in "&|^") or ast[:2] == ["un", "not"]


def text_leaf(ast, leaves):
    return any(x.ast == ast and x.kind in "sc" for x in leaves)


def c19_pivot(n):
    out = []
    for k in range(n):
        r = rng("C19p", k)
        g, f, leaves = c19_frame(r, "pivot-%d" % k, ())
        usable = [x for x in leaves if x.ast[0] in ("sym", "attr", "agg")]
        # Columns whose names look like something else
        op = next(o for o in g.ops if o["op"] == "frame" and o["id"] == f.fid)
        some_cols = [c for c in f.kind if c in "abcdefg"]
        for name in r.sample(("my col", "2nd", "%s + 1" % some_cols[0], "%s - %s" % (some_cols[0], some_cols[-1]), "q.a", "-x",
                              "where(a > 0, 1, 2)", "a == 1"), r.choice((0, 1, 2))):
            kind = r.choice("iifb")
            op["cols"].append(name)
            op["kind"][name] = kind
            op["data"][name] = f.data[name] = values(r, kind, f.n)
            f.kind[name] = kind
            usable += [Leaf(["sym", name], kind, 6, 4 if kind == "f" else 1, symbols=(name,))] * 3
        gen = ExprGen(r, leaves)

        def item(kinds, nan=True):
            c = [x for x in usable if x.kind in kinds]
            if c and r.random() < 0.75:
                ast = r.choice(c).ast
            elif kinds == "if":
                ast = gen.num(2, 20, 16).ast
            else:
                ast = gen.boolean(1)
            if constant(ast) or (ast[0] in ("attr", "sym") and text_leaf(ast, leaves) and ast[0] == "attr"):
                return item(kinds)
            if ast[0] != "sym" and source(ast) in f.kind:
                return item(kinds)
            return {"name": ast[1] if ast[0] == "sym" else source(ast), "ast": ast, "col": ast[0] == "sym"}
        for _ in range(5):
            taken = set()

            def some(kinds, most):
                got = []
                for _ in range(most):
                    x = item(kinds)
                    if x["name"] not in taken:
                        taken.add(x["name"])
                        got.append(x)
                return got
            index, columns = some("ibs", r.choice((0, 1, 1, 2))), some("ibs", r.choice((0, 0, 1, 1, 2)))
            if not index and not columns:
                index = some("ibs", 1)
            vals = some("if", r.choice((1, 1, 2)))
            if not vals:
                continue
            forms = {kk: "str" if len(v) == 1 and r.random() < 0.6 else "list"
                     for kk, v in (("index", index), ("columns", columns), ("values", vals))}
            every = [c for c, kind in f.kind.items() if c not in taken or not any(x["name"] == c for x in index + columns)]
            if r.random() < 0.15 and every and all(f.kind[c] in "if" for c in every) and index:
                vals = [{"name": c, "ast": ["sym", c], "col": True} for c in every]
                forms["values"] = "none"
            g.op("pivot", f=f.fid, index=index, columns=columns, values=vals, forms=forms,
                 func=r.choice(("mean", "sum", "count", "max", "min", "first", "last")), defaultfunc=r.random() < 0.5,
                 fill=[num(r.choice((0, -7)))] if index and columns and r.random() < 0.3 else [])
        out.append(g.program())
    return out

"""Programs about linked frames (specs/Frames.tla)."""
from __future__ import annotations

from genlib import *
from vals import NAN, boolean, num, text

LINKNAMES = ("z", "y", "h", "m", "zone", "far", "up", "x_1")
WORDS = ("p", "q", "r", "s", "tt", "t2", "Q", "")
AGGS = ("count", "sum", "mean", "max", "min", "median", "prod", "std", "var", "first", "last", "nth", "quantile")


class Info:
    """What the generator knows about a frame"""

    def __init__(self, fid, n, ldf):
        self.fid, self.n, self.ldf = fid, n, ldf
        self.kind = {}     # column -> kind
        self.links = {}    # name -> (Info, agg)
        self.idx = []
        self.inames = []
        self.data = {}
        self.keys = set()  # columns that are keys of its links
        self.indexed = False  # whether a link has its keys in the index


def distinct(keys):
    return len({str(k) for k in keys}) == len(keys)


class FrameGen:

    def __init__(self, r, id):
        self.r, self.id = r, id
        self.ops = []
        self.frames = {}
        self.count = 0
        self.loose = set()  # Derived frames which don't have to have all the links
        self.nulls = 0.2
        self.kinds = ("i", "i", "f", "f", "b", "s", "c", "t", "u", "i4", "f4", "i2", "u1", "n", "string", "ci", "cb")

    def program(self, **kw):
        return dict({"id": self.id, "interp": "frame", "ops": self.ops}, **kw)

    def op(self, op, **kw):
        self.ops.append(dict({"op": op, "dom": "frame"}, **kw))
        return self.ops[-1]

    def new_id(self, prefix="F"):
        self.count += 1
        return "%s%d" % (prefix, self.count)

    # -- keys
    def domain(self, kind, size=7):
        r = self.r
        if kind == "i":
            return [num(x) for x in r.sample(range(-2, 30), size)]
        if kind == "f":
            return [num(x, 2) for x in r.sample(range(-4, 30), size)]
        if kind == "s":
            return [text(x) for x in r.sample(WORDS, min(size, len(WORDS)))]
        if kind == "t":
            return [num(x) for x in r.sample(range(40), size)]
        if kind == "b":
            return [boolean(0), boolean(1)]
        raise ValueError(kind)

    def keyspace(self):
        """The kinds of the parts of a key, and some keys"""
        r = self.r
        if r.random() < 0.7:
            kinds = [r.choice(("i", "i", "i", "s", "s", "f", "t"))]
            return kinds, [[x] for x in self.domain(kinds[0])]
        kinds = [r.choice("iis"), r.choice("isb")]
        a, b = self.domain(kinds[0], 4), self.domain(kinds[1], 3)
        keys = [[x, y] for x in a for y in b]
        r.shuffle(keys)
        return kinds, keys[:8]

    def build(self, depth=1, n=None, ldf=True, target_keys=None, links=None, ncols=None, fid=None):
        """Makes a frame with links. target_keys: (kinds, keys) by which others find its rows. Returns its Info and how to
        name these keys: ("on", names), ("levels", [levels]) or None for the whole index"""
        r = self.r
        fid = fid or self.new_id()
        n = (len(target_keys[1]) if target_keys else r.choice((1, 2, 3, 4, 5, 6))) if n is None else n
        f = Info(fid, n, ldf)
        self.frames[fid] = f
        cols = []
        index = None    # (labels, names)
        how = None

        def index_from(kinds, keys, whole):
            """The keys as the index, or as some levels of it"""
            nonlocal index
            if whole:
                index = ([list(k) for k in keys], ["i%d" % p for p in range(len(kinds))])
                return None
            extra = r.randint(0, len(kinds))
            labels = [list(k[:extra]) + [num(m)] + list(k[extra:]) for m, k in enumerate(keys)]
            names = ["i%d" % p for p in range(len(kinds) + 1)]
            index = (labels, names)
            at = [p for p in range(len(names)) if p != extra]
            return ("levels", at if r.random() < 0.5 else [names[p] for p in at])

        def columns_from(kinds, keys, prefix):
            names = [prefix if len(kinds) == 1 else prefix + "ab"[p] for p in range(len(kinds))]
            for p, nm in enumerate(names):
                vals = [k[p] for k in keys]
                kind = kinds[p]
                if NAN in vals and kind == "i":
                    kind = "f"
                cols.append((nm, kind, vals))
            f.keys.update(names)
            return ("on", names)

        if target_keys:
            kinds, keys = target_keys
            form = r.choice(("on", "on", "index", "index", "levels"))
            if any(NAN in k for k in keys) or "t" in kinds:
                form = "on"
            how = columns_from(kinds, keys, "tk") if form == "on" else index_from(kinds, keys, form == "index")
            f.keys = set()
        plans = []
        nlinks = (r.choice((1, 1, 2, 3)) if depth > 0 and ldf else 0) if links is None else links
        for l in range(nlinks):
            many = r.random() < 0.4
            kinds, space = self.keyspace()
            present = space[:r.randint(1, len(space))]
            if many:
                own = r.sample(space, min(n, len(space)))
                if len(own) < n:
                    many = False
            if not many:
                own = [r.choice(space) for _ in range(n)]
                if r.random() < 0.25 and kinds[0] in "fist" and n:
                    own[r.randrange(n)] = [NAN if p == 0 else x for p, x in enumerate(own[0])]
                theirs = r.sample(present, r.randint(0 if r.random() < 0.15 else 1, len(present)))
                if r.random() < 0.2 and n and distinct(own) and not any(NAN in k for k in own):
                    theirs = list(own)   # The same keys in the same order
                    if r.random() < 0.5:
                        r.shuffle(theirs)
            else:
                m = r.choice((2, 3, 5, 6, 7))
                theirs = [r.choice(present) for _ in range(m)]
                if r.random() < 0.8:
                    theirs[-1] = theirs[0]
                if r.random() < 0.25 and kinds[0] in "fs":
                    theirs[r.randrange(m)] = [NAN if p == 0 else x for p, x in enumerate(theirs[0])]
                elif r.random() < 0.15 and n and kinds[0] in "fs":
                    own[0] = [NAN if p == 0 else x for p, x in enumerate(own[0])]
            agg = distinct(own) and not distinct(theirs)
            tldf = r.random() < (0.8 if depth > 1 else 0.5)
            t, thow = self.build(depth - 1 if tldf else 0, ldf=tldf, target_keys=(kinds, theirs),
                                 links=None if tldf and depth > 1 and r.random() < 0.7 else 0)
            if index is None and r.random() < 0.3 and "t" not in kinds and not any(NAN in k for k in own):
                show = index_from(kinds, own, r.random() < 0.6)
                f.indexed = True
            else:
                show = columns_from(kinds, own, "k%d" % l)
                # The same names on both sides
                if show[0] == "on" and thow and thow[0] == "on" and r.random() < 0.5:
                    show = self.rename(f, cols, show, thow)
            plans.append((t, show, thow, agg))
        for c in "abcdefg"[:ncols or r.randint(2, 4)]:
            kind = r.choice(self.kinds)
            if kind == "o" and n == 0:
                kind = "s"    # An empty column of objects is text
            nn = self.nulls if r.random() < 0.4 and kind in ("f", "s", "c", "t", "n", "string", "ci") else 0
            cols.append((c, kind, values(r, kind, n, lo=-4, hi=4, nulls=nn)))
        if index is None:
            if n == 0:
                index = ([], ["i0"])
            else:
                lab = labels(r, n)
                index = (lab, ["i%d" % p for p in range(len(lab[0]))])
        r.shuffle(cols)
        f.idx, f.inames = index
        f.kind = {c: k[0] for c, k, _ in cols}
        f.data = {c: v for c, _, v in cols}
        self.ops.append(frame(fid, f.idx, cols, f.inames, ldf=ldf, dt={c: k for c, k, _ in cols if len(k) > 1}))
        self.ops[-1]["kind"] = dict(f.kind)
        used = r.sample(LINKNAMES, len(plans))
        for name, (t, show, thow, agg) in zip(used, plans):
            self.link(f, t, name, show, thow)
            f.links[name] = (t, agg)
        return f, how

    def rename(self, f, cols, show, thow):
        if len(show[1]) != len(thow[1]) or any(x in [c for c, _, _ in cols] for x in thow[1]):
            return show
        for old, new in zip(show[1], thow[1]):
            k = [c for c, _, _ in cols].index(old)
            cols[k] = (new,) + cols[k][1:]
            f.keys.discard(old)
            f.keys.add(new)
        return ("on", list(thow[1]))

    def link(self, f, t, name, show, thow, precompute=None):
        r = self.r
        args = {}
        if show and thow and show == thow and r.random() < 0.7:
            args["on" if show[0] == "on" else "levels"] = show[1]
        else:
            if show:
                args["on_self" if show[0] == "on" else "self_levels"] = show[1]
            if thow:
                args["on_other" if thow[0] == "on" else "other_levels"] = thow[1]
        self.ops.append(link(f.fid, t.fid, name, precompute=r.random() < 0.6 if precompute is None else precompute,
                             scalar=r.random() < 0.6, **args))

    # -- using
    def chains(self, f, depth=3):
        """The links that can be followed from a frame: [(names, Info of the end, whether it aggregates)]"""
        out = []
        for name, (t, agg) in f.links.items():
            out.append(([name], t, agg))
            if not agg and t.ldf and depth > 1:
                out += [([name] + p, e, a) for p, e, a in self.chains(t, depth - 1)]
        return out

    def how(self):
        return self.r.choice(("attr", "item"))

    def lookups(self, f, fid=None, most=12):
        """Looks up everything that can be looked up"""
        todo = [(p + [c]) for p, t, agg in self.chains(f) if not agg for c in t.kind]
        if len(todo) > most:
            todo = self.r.sample(todo, most)
        for names in todo:
            self.op("lookup", f=fid or f.fid, names=names, how=self.how())

    def argument(self, t, numeric):
        """An argument for an aggregation over frame t"""
        r = self.r
        ok = ("i", "f", "b") if numeric else tuple("ifbscn")
        cs = [c for c, k in t.kind.items() if k in ok]
        if cs and r.random() < 0.5:
            c = r.choice(cs)
            return ["col", c] if r.random() < 0.6 else ["sym", c]
        nums = [c for c, k in t.kind.items() if k in "if"]
        if not nums:
            return ["col", r.choice(cs)] if cs else None
        a = ["sym", r.choice(nums)]
        k = r.random()
        if k < 0.3:
            return ["bin", r.choice("+-*"), a, lit(r.randint(1, 3))]
        if k < 0.5:
            return ["cmp", [r.choice((">", "<=", "!="))], [a, lit(r.randint(-1, 2))]]
        if k < 0.65 and t.ldf:
            return ["call", "where", [["cmp", [">"], [a, lit(0)]], a, lit(0)]]
        texts = [c for c, kk in t.kind.items() if kk == "s" and NAN not in t.data[c] and t.n]
        if k < 0.8 and texts and t.ldf:
            return ["call", "where", [["cmp", ["=="], [["sym", r.choice(texts)], tlit("red")]], lit(1), lit(0)]]
        inner = [(p + [c]) for p, e, agg in self.chains(t, 1) if not agg for c, kk in e.kind.items() if kk in "if" and c in "abcdefg"]
        if inner and t.ldf:
            at = ["attr", r.choice(inner)]
            return at if r.random() < 0.5 else ["bin", "+", at, lit(1)]
        return ["bin", "+", a, ["sym", r.choice(nums)]]

    def aggregate(self, f, path, t, fid=None, func=None):
        r = self.r
        func = func or r.choice(AGGS)
        numeric = func not in ("count", "first", "last", "nth")
        kw = {"noargs": False, "setfill": False}
        if func == "count" and r.random() < 0.3:
            kw["noargs"] = True
            arg = lit(1)
        else:
            arg = self.argument(t, numeric)
            if arg is None:
                return
        if func == "prod" and arg[0] not in ("col", "sym"):
            cs = [c for c, k in t.kind.items() if k in "if"]
            if not cs:
                return
            arg = ["col", r.choice(cs)]
        unsigned = [c for c, k in t.kind.items() if k == "u"]
        if unsigned and not kw["noargs"] and r.random() < 0.2:
            arg = ["col", r.choice(unsigned)]
            kw["setfill"] = True
        else:
            unsigned = False
        q = num(0)
        if func == "nth":
            q = num(r.choice((0, 0, 1, 2, -1, -2)))
        if func == "quantile":
            q = num(*r.choice(((1, 2), (1, 4), (3, 4), (0, 1), (1, 1), (1, 5))))
        if r.random() < 0.3:
            kw["setfill"] = True
        self.op("agg", f=fid or f.fid, path=path, func=func, arg=arg, q=q,
                intfill=num(r.choice((9, 0, 7, 2) if unsigned else (-9, 0, 7, -1))) if kw["setfill"] else num(-1), how=self.how(), **kw)

    def aggregates(self, f, fid=None, most=8):
        paths = [(p, t) for p, t, agg in self.chains(f) if agg]
        if not paths:
            return
        for _ in range(most):
            p, t = self.r.choice(paths)
            self.aggregate(f, p, t, fid)

    def misuse(self, f, fid=None):
        """Aggregations which are not possible, and lookups where aggregation is needed"""
        r = self.r
        fid = fid or f.fid
        for p, t, agg in self.chains(f):
            if agg:
                cs = [c for c, k in t.kind.items() if k in "sc"]
                if cs and r.random() < 0.5:
                    c = r.choice(cs)
                    self.op("agg", f=fid, path=p, func=r.choice([a for a in AGGS if a not in ("count", "first", "last", "nth")]),
                            arg=["col", c], q=num(1, 2), intfill=num(-1), how=self.how(), noargs=False, setfill=False)
                if t.kind and r.random() < 0.3:
                    self.op("lookup", f=fid, names=p + [r.choice(sorted(t.kind))], how=self.how())
            elif r.random() < 0.3:
                self.op("agg", f=fid, path=p, func=r.choice(("count", "sum", "first")), arg=lit(1), q=num(0), intfill=num(-1),
                        how=self.how(), noargs=r.random() < 0.5, setfill=False)

    # -- deriving
    def positions(self, n=None, lo=0, hi=9):
        r = self.r
        return [r.randint(lo, hi) for _ in range(r.randint(1, 5) if n is None else n)]

    def bits(self):
        r = self.r
        b = [int(r.random() < 0.6) for _ in range(r.randint(1, 6))]
        return b if any(b) or r.random() < 0.2 else [1, 0]

    def row_operation(self, cols, keys, kinds):
        """An operation that makes a frame out of some rows of a frame with these columns: (do, whether it has to keep the
        links)"""
        r = self.r
        plain = [c for c in cols if c in "abcdefg" and kinds.get(c) != "c"]
        c = r.choice(plain or cols)
        g = r.choice([x for x in cols if x in "abcdefg"] or cols)
        some = [x for x in cols if r.random() < 0.6 or x in keys]
        nokeys = [x for x in cols if x not in keys or r.random() < 0.4]
        nums = [x for x in plain if kinds.get(x) in ("i", "f")]
        choices = [
            (["mask", self.bits()], True), (["mask_series", self.bits()], True), (["loc_mask", self.bits()], True),
            (["loc_mask_cols", self.bits(), some], True), (["loc_mask_cols", self.bits(), nokeys], False),
            (["loc_list", self.positions()], True), (["loc_slice"] + self.positions(2), True),
            (["loc_from"] + self.positions(1), True), (["loc_callable", self.bits()], True),
            (["iloc_list", self.positions(lo=-4)], True), (["iloc_mask", self.bits()], True),
            (["iloc_slice", r.choice((None, 0, 1, 2)), r.choice((None, 1, 3, -1)), r.choice((None, 1, 2, 3))], True),
            (["iloc_slice", r.choice((None, 5, -1)), r.choice((None, 0)), r.choice((-1, -2))], True),
            (["iloc_rows_cols", r.randint(0, 2), r.randint(2, 6), some], True),
            (["slice", r.choice((None, 0, 1)), r.choice((None, 2, 4, -1))], True),
            (["head", r.randint(0, 4)], True), (["tail", r.randint(0, 4)], True), (["head", -1], True), (["tail", -2], True),
            (["take", self.positions()], True), (["sort_values", c, r.random() < 0.5], True),
            (["sort_values", [c, g], r.random() < 0.5], True),
            (["sort_values_ignore", c], False), (["sort_index", r.random() < 0.5], True),
            (["sample", r.randint(1, 5), r.randint(0, 99), r.random() < 0.4], True), (["drop", self.positions(2)], True),
            (["drop_index", self.positions(1)], True), (["drop_col", g], True),
            (["drop_col", r.choice(cols)], False), (["filter", self.positions(3)], True),
            (["truncate"] + self.positions(2), True),
            (["reindex", self.positions(lo=-4)], True), (["reindex_index", self.positions(lo=-3)], True),
            (["columns", some], True), (["columns", nokeys], False), (["reorder_columns"], True),
            (["copy", r.random() < 0.5], True), (["assign", "new"], True),
            (["drop_duplicates", g, r.choice(("first", "last", False))], True), (["dropna", g], True), (["dropna", None], True),
            (["group", g, r.randint(0, 5), r.random() < 0.5], True), (["group", [g, c], r.randint(0, 5), True], True),
            (["group_level", r.randint(0, 5)], True), (["group_function", self.bits(), r.randint(0, 1)], True),
            (["get_group", g, r.randint(0, 5)], True), (["group_head", g, 1], True), (["group_tail", g, 1], True),
            (["group_filter", g], True), (["rename_col", g, "renamed%d" % len(self.ops)], True), (["rename_col", r.choice(cols), "other%d" % len(self.ops)], False),
            (["reset_index", r.random() < 0.5], False), (["set_index", c], False), (["xs", r.randint(0, 5), 0], True),
            (["loc_rows_cols", self.positions(), some], True), (["loc_rows_cols", self.positions(), nokeys], False),
            (["iloc_single", r.randint(0, 9)], True), (["isin", g, self.positions(2)], True),
        ]
        choices += [
            (["swaplevel"], False), (["reorder_levels"], False), (["droplevel", r.randint(0, 1)], False),
            (["rename_axis"], False), (["sort_level", r.randint(0, 1), r.random() < 0.5], True), (["fillna", [c, g]], False),
            (["concat", r.randint(0, 2)], False), (["append", r.randint(0, 2)], False), (["join"], False),
            (["merge", c, r.choice(("left", "inner", "right"))], False), (["group_apply", g], False),
            (["columns_at", some], True), (["columns_at", nokeys], False), (["loc_columns", nokeys], False),
            (["reindex_columns", nokeys], False), (["reindex_columns", some], True), (["reindex_like"], True),
            (["where"], False), (["reverse"], True), (["add_prefix"], False), (["set_axis"], False), (["explode", c], False),
            (["sort_columns"], True), (["combine", r.randint(0, 3)], False), (["infer"], False), (["select_dtypes"], False)]
        if nums:
            choices += [(["eval_new", r.choice(nums)], True), (["astype", r.choice(nums)], False), (["query", "%s %s %d" % (r.choice(nums), r.choice((">", "<=", "!=")), r.randint(-2, 2))], True),
                        (["nlargest", r.randint(1, 3), r.choice(nums)], False),
                        (["nsmallest", r.randint(1, 3), r.choice(nums)], False)]
        return r.choice(choices)

    def inplace_operation(self, f, cols, kinds):
        """The keys of the links of a frame are left alone: whether a link follows them is not specified"""
        r = self.r
        free = [c for c in cols if c not in f.keys]
        plain = [c for c in cols if c in "abcdefg" and kinds.get(c) != "c"] or cols
        c = r.choice(plain)
        nums = [x for x in plain if kinds.get(x) in ("i", "f")]
        return r.choice([["inplace_sort", c, r.random() < 0.5], ["inplace_sort_index", r.random() < 0.5],
                         ["inplace_drop", self.positions(1)], ["inplace_dropna", c], ["inplace_set", c],
                         ["inplace_insert"]]
                        + ([["inplace_drop_col", r.choice(free)], ["inplace_rename", r.choice(free), "renamed%d" % len(self.ops)]] if free else [])
                        + ([["inplace_reset"], ["inplace_index"]] if not f.indexed else [])
                        + ([["inplace_query", "%s %s %d" % (r.choice(nums), r.choice((">", "<=")), r.randint(-2, 2))]] if nums else []))

    def derive(self, f, fid, cols, kinds, inplace=False):
        """Derives a frame from frame fid, which comes from f. Returns its id and columns"""
        if inplace:
            do = self.inplace_operation(f, cols, kinds)
            if do[0] in ("inplace_drop_col", "inplace_rename"):
                cols = [c for c in cols if c != do[1]]
            self.op("derive", f=fid, id=fid, do=do, inplace=True,
                    must=all(c in cols for c in f.keys) and fid not in self.loose)
            if not self.ops[-1]["must"]:
                self.loose.add(fid)
            return fid, cols
        do, must = self.row_operation(cols, f.keys, kinds)
        k = do[0]
        if k in ("columns", "columns_at", "loc_columns", "reindex_columns"):
            cols = [c for c in cols if c in do[1]]
        elif k in ("loc_mask_cols", "loc_rows_cols"):
            cols = [c for c in cols if c in do[2]]
        elif k == "iloc_rows_cols":
            cols = [c for c in cols if c in do[3]]
        elif k == "select_dtypes":
            cols = [c for c in cols if kinds.get(c, "s") in "iuf"]
        elif k == "add_prefix":
            cols = ["p_" + c for c in cols]
        elif k == "drop_col":
            cols = [c for c in cols if c != do[1]]
        elif k == "rename_col":
            cols = [do[2] if c == do[1] else c for c in cols]
        elif k == "set_index":
            cols = [c for c in cols if c != do[1]]
        if fid in self.loose or not all(c in cols for c in f.keys):
            must = False
        new = self.new_id("D")
        if not must:
            self.loose.add(new)
        self.op("derive", f=fid, id=new, do=do, must=must, inplace=False)
        return new, cols
